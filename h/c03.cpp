// C03: generated field types hold every value of the signal.
#include "layout.h"
static uint64_t build(const S& dbc, const S& shim, const S& o) {
  gen(dbc); ccdriver("drv"); ccadd("conf/dbccodeconf.h", "#include <stdint.h>\ntypedef double sigfloat_t;\n" WIDE); ccadd("shim.c", "#include \"lib/drv.c\"\n" + shim);
  uint64_t h = sym_cc_compile("shim.c", (CCINC + o).c_str()); sym_assert(h != 0, "generated driver compiles"); return h;
}
static int standard(int len) { return len <= 8 ? 1 : len <= 16 ? 2 : len <= 32 ? 4 : 8; }
// every length and sign: raw fields, plain and as bit fields
extern "C" void rawfields() {
  int g = (int)sym_concretize(sym_u64("group", 0, 7)), sg = (int)sym_concretize(sym_u64("sign", 0, 1)), bf = (int)sym_concretize(sym_u64("bit fields", 0, 1));
  std::vector<Lay> ls; S d = "BO_ 100 M: 64 N1\n", shim; static const char* F[] = {"1,0", "2,-7", "0.25,0", "1,40", "-3,0", "1,0", "1E2,0", "1.0,0"};
  for (int i = 0; i < 8; i++) { Lay l; l.start = 64 * i + (g % 2 ? 7 : 0); l.len = g * 8 + 1 + i; l.motorola = g % 2; l.sgn = (sg + i) % 2; l.name = "S" + num(i); l.fo = F[(i + g) % 8]; l.scaled = (i + g) % 8 != 0 && (i + g) % 8 != 5; ls.push_back(l); d += sigline(l);
    shim += field_shim("M", raw(l), l.name) + (bf ? S() : type_shim("M", raw(l), l.name)); }
  uint64_t h = build(d + "\n", size_shim("M") + shim, bf ? "-DDRV_USE_BITS_SIGNAL -DDRV_USE_SIGFLOAT" : g % 2 ? "-DDRV_USE_SIGFLOAT" : "");
  size_t sz = (size_t)sym_as<int (*)()>(h, "sizeof_M")(); unsigned char m[1024]; sym_assert(sz <= sizeof m, "size of the structure"); memset(m, 0, sizeof m);
  for (auto& l : ls) {
    S w = " of " + num(l.len) + " bits";
    if (!bf) { sym_assert(sym_as<int (*)()>(h, ("size_" + l.name).c_str())() == standard(l.len), ("narrowest standard type" + w).c_str()); sym_assert((sym_as<int (*)()>(h, ("sgn_" + l.name).c_str())() != 0) == l.sgn, ("signedness" + w).c_str()); }
    uint64_t v = sym_u64(("value" + num(l.len)).c_str(), 0, l.len == 64 ? ~0ull : (1ull << l.len) - 1); if (l.sgn && l.len < 64) { uint64_t b = 1ull << (l.len - 1); v = (v ^ b) - b; }
    sym_as<void (*)(void*, uint64_t)>(h, ("set_" + l.name).c_str())(m, v); sym_assert(sym_as<uint64_t (*)(void*)>(h, ("get_" + l.name).c_str())(m) == v, ("the field holds every value" + w).c_str());
  }
  sym_cover(bf ? "bit fields" : "plain");
}
// integer-scaled signals: the physical field's type represents the whole physical range
static void phys(int len, bool sg, const S& ft, int64_t f, const S& ot, int64_t o) {
  Lay l = {0, len, false, sg, "A", "", true}; S fo = ft + "," + ot; l.fo = fo.c_str();
  uint64_t h = build("BO_ 100 M: 8 N1\n" + sigline(l) + "\n", "#ifdef DRV_A_ro_CovFactor\nint scaled(void) { return 1; }\n#define F A_phys\n#else\n#define F A\nint scaled(void) { return 0; }\n#endif\n" + type_shim("M", "F", "p"), "-DDRV_USE_SIGFLOAT");
  int sz = sym_as<int (*)()>(h, "size_p")(); bool s = sym_as<int (*)()>(h, "sgn_p")(); if (!sym_as<int (*)()>(h, "scaled")()) { sym_assert((f == 1) & (o == 0), "a scaled signal has a physical field"); sym_cover("plain signal"); return; }
  S w = " of " + num(len) + (sg ? " signed bits" : " bits");
  if (len >= 63 && !sg) { // 1,o only: the range is 0 or o up to 2^len - 1 + o
    uint64_t top = len == 64 ? ~0ull : (1ull << 63) - 1; if (o >= 0) { if ((uint64_t)o <= ~0ull - top) sym_assert(!s && sz == 8, ("range" + w).c_str()); } else if (len == 63) sym_assert(s && sz == 8, ("range" + w).c_str());
  } else {
    uint64_t m = (1ull << (len - (sg ? 1 : 0))) - 1; int64_t a = (int64_t)m * f + o, b = (sg ? -(int64_t)m - 1 : 0) * f + o, lo = a < b ? a : b, hi = a < b ? b : a; int n = sz * 8;
    if (s) { int64_t lim = n == 64 ? INT64_MAX : (1ll << (n - 1)) - 1; sym_assert((hi <= lim) & (lo >= -lim - 1), ("range" + w).c_str()); } else { sym_assert(lo >= 0, ("negative values" + w).c_str()); if (n < 64) sym_assert(hi <= (1ll << n) - 1, ("range" + w).c_str()); }
  }
  sym_cover(s ? "signed" : "unsigned");
}
static S text(const S& n, int digits, bool neg, int64_t& v) { uint64_t u; S t = symdec(n, digits, u); v = neg ? -(int64_t)u : (int64_t)u; if (neg) sym_assume(u != 0); return (neg ? "-" : "") + t; }
// every length, factor and offset symbolic
extern "C" void factors() {
  int len = (int)sym_concretize(sym_u64("length", 1, 50)), k = (int)sym_concretize(sym_u64("signs", 0, 7)); bool sg = k & 1, fn = k & 2, on = k & 4; if (!TIER_THOROUGH && ((len + k) % 2 || (len > 34 && len % 3))) return;
  int fd = len > 44 ? 1 : 1 + (len + k) % 3, od = 1 + (len * 3 + k) % (len > 40 ? 5 : 10); int64_t f, o; S ft = text("factor", fd, fn, f), ot = text("offset", od, on, o); sym_assume(f != 0); phys(len, sg, ft, f, ot, o);
}
// offsets only, every length
extern "C" void offsets() {
  int len = (int)sym_concretize(sym_u64("length", 1, 64)), k = (int)sym_concretize(sym_u64("signs", 0, 3)); bool sg = k & 1, on = k & 2; int od = 1 + (len * 7 + k * 3) % 10; if (!TIER_THOROUGH && (len + (k >> 1)) % 2) return;
  int64_t f = 1, o; if (len < 62 && len % 3 == 0) f = len % 2 ? 2 : -1; if (sg && len > 62) return; S ot = text("offset", len > 43 ? 3 + len % 3 : od, on, o); phys(len, sg, num(f), f, ot, o);
}
