// Reference meaning of DBC bit layouts, written from the DBC format alone.
#pragma once
#include "lib.h"
// payload bit number (byte*8 + bit, bit 0 = least significant) of the signal's value bit k (0 = least significant)
struct Lay { int start, len; bool motorola, sgn; S name; const char* fo; bool scaled; };
static inline std::vector<int> bits(const Lay& l) {
  std::vector<int> r(l.len);
  if (!l.motorola) for (int k = 0; k < l.len; k++) r[k] = l.start + k;
  else { int p = l.start; for (int k = l.len - 1; k >= 0; k--) { r[k] = p; p = p % 8 ? p - 1 : p + 15; } }
  return r;
}
static inline int lastbit(const Lay& l) { int m = 0; for (int b : bits(l)) if (b > m) m = b; return m; }
static inline bool fits(const Lay& l, int dlc) { return lastbit(l) < dlc * 8; }
static inline S sigline(const Lay& l) {
  return " SG_ " + l.name + " : " + num(l.start) + "|" + num(l.len) + "@" + (l.motorola ? "0" : "1") + (l.sgn ? "-" : "+") + " (" + l.fo + ") [0|0] \"u\" N2\n";
}
// value of the payload bits, as the unsigned 64 bit pattern of the (sign extended) value
static inline uint64_t refread(const Lay& l, const unsigned char* p) {
  uint64_t v = 0; auto b = bits(l);
  // whole bytes where possible: shorter terms
  for (int k = 0; k < l.len; ) {
    int q = b[k], n = 1; while (k + n < l.len && b[k + n] == q + n && (q + n) / 8 == q / 8) n++;
    v |= (uint64_t)((p[q / 8] >> (q % 8)) & ((1u << n) - 1)) << k; k += n;
  }
  if (l.sgn && l.len < 64) { uint64_t m = 1ull << (l.len - 1); v = (v ^ m) - m; }
  return v;
}
static inline void refwrite(const Lay& l, unsigned char* p, uint64_t v) {
  auto b = bits(l);
  for (int k = 0; k < l.len; ) {
    int q = b[k], n = 1; while (k + n < l.len && b[k + n] == q + n && (q + n) / 8 == q / 8) n++;
    unsigned m = ((1u << n) - 1) << (q % 8);
    p[q / 8] = (unsigned char)((p[q / 8] & ~m) | (((unsigned)(v >> k) << (q % 8)) & m)); k += n;
  }
}
static inline S raw(const Lay& l) { return l.scaled ? l.name + "_ro" : l.name; }
#define WIDE "typedef uint64_t ubitext_t;\ntypedef int64_t bitext_t;\n"
