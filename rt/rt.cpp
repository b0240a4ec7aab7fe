// Run-time library for symbolic execution: the parts of libc/libstdc++ that exist only as native
// code, written in plain C++ so that they can run on symbolic data, plus a small in-memory file
// system that stands in for the real one.
#include "../engine/sym.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <fstream>
#include <istream>
#include <ostream>
#include <iomanip>
#include <filesystem>
#include <system_error>
#include <cerrno>
#include <ctime>
#include <sys/stat.h>
extern "C" int sym_native_fmt(char* o, size_t n, const char* fmt, double v);
extern "C" double sym_native_strtod(const char* s, size_t* used);
#define OVR(ret, name) extern "C" __attribute__((used)) ret sym_override_##name

// ------------------------------------------------------------ characters
extern "C" {
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
}
// ------------------------------------------------------------ text -> numbers
static int dig(int c, int base) {
  int d;
  if (sym_hex_known(c)) d = (int)sym_hexval(c);
  else if (c >= '0' && c <= '9') d = c - '0';
  else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
  else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
  else return -1;
  return d < base ? d : -1;
}
static uint64_t strtoX(const char* s, char** end, int base, bool& neg, bool& any, bool& over) {
  const char* p = s; neg = any = over = false;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2], 16) >= 0) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t v = 0; int n = 0;
  for (;; p++) {
    int d = dig((unsigned char)*p, base);
    if (d < 0) break;
    any = true; n++;
    if (base == 10 && n > 18) { if (over || v > 1844674407370955161ull || (v == 1844674407370955161ull && d > 5)) over = true; else v = v * 10 + d; }
    else if (n > (base == 10 ? 18 : base == 16 ? 15 : 10)) { uint64_t nv; if (__builtin_mul_overflow(v, (uint64_t)base, &nv) || __builtin_add_overflow(nv, (uint64_t)d, &nv)) over = true; else v = nv; }
    else v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
extern "C" {
unsigned long x_strtoul(const char* s, char** e, int b) { bool n, a, o; uint64_t v = strtoX(s, e, b, n, a, o); if (o) { errno = ERANGE; return ~0ul; } return n ? -v : v; }
long x_strtol(const char* s, char** e, int b) {
  bool n, a, o; uint64_t v = strtoX(s, e, b, n, a, o);
  if (o || (n ? v > (1ull << 63) : v > (1ull << 63) - 1)) { errno = ERANGE; return n ? (long)(1ull << 63) : (long)((1ull << 63) - 1); }
  return n ? (long)-v : (long)v;
}
__attribute__((used)) long sym_override_strtol(const char* s, char** e, int b) { return x_strtol(s, e, b); }
__attribute__((used)) long sym_override___isoc23_strtol(const char* s, char** e, int b) { return x_strtol(s, e, b); }
__attribute__((used)) long sym_override_strtoll(const char* s, char** e, int b) { return x_strtol(s, e, b); }
__attribute__((used)) long sym_override___isoc23_strtoll(const char* s, char** e, int b) { return x_strtol(s, e, b); }
__attribute__((used)) unsigned long sym_override_strtoul(const char* s, char** e, int b) { return x_strtoul(s, e, b); }
__attribute__((used)) unsigned long sym_override___isoc23_strtoul(const char* s, char** e, int b) { return x_strtoul(s, e, b); }
__attribute__((used)) unsigned long sym_override_strtoull(const char* s, char** e, int b) { return x_strtoul(s, e, b); }
__attribute__((used)) unsigned long sym_override___isoc23_strtoull(const char* s, char** e, int b) { return x_strtoul(s, e, b); }
__attribute__((used)) int sym_override_atoi(const char* s) { return (int)x_strtol(s, nullptr, 10); }
__attribute__((used)) long sym_override_atol(const char* s) { return x_strtol(s, nullptr, 10); }
__attribute__((used)) long long sym_override_atoll(const char* s) { return x_strtol(s, nullptr, 10); }
static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
double strtod(const char* s, char** e) {
  const char* p = s; bool neg = false, any = false, big = false;
  while (isspace((unsigned char)*p)) p++;
  const char* st = p;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  bool odd = *p == 'i' || *p == 'I' || *p == 'n' || *p == 'N' || (*p == '0' && (p[1] == 'x' || p[1] == 'X'));
  if (!odd) {
    uint64_t m = 0; int n = 0, ex = 0;
    for (; *p >= '0' && *p <= '9'; p++) { any = true; if (n > 0 || *p != '0' || sym_is_symbolic((unsigned char)*p)) { if (++n <= 18) m = m * 10 + (uint64_t)(*p - '0'); else { big = true; ex++; } } }
    if (*p == '.') { p++; for (; *p >= '0' && *p <= '9'; p++) { any = true; if (n > 0 || *p != '0' || sym_is_symbolic((unsigned char)*p)) { if (++n <= 18) { m = m * 10 + (uint64_t)(*p - '0'); ex--; } else big = true; } else ex--; } }
    if (any && (*p == 'e' || *p == 'E')) {
      const char* q = p + 1; bool en = false; if (*q == '+' || *q == '-') { en = *q == '-'; q++; }
      if (*q >= '0' && *q <= '9') { int x = 0; for (; *q >= '0' && *q <= '9'; q++) if (x < 100000) x = x * 10 + (*q - '0'); p = q; ex += en ? -x : x; }
    }
    if (!any) { if (e) *e = (char*)s; return 0.0; }
    if (!big && ex >= -22 && ex <= 22 && m <= (1ull << 53)) {
      double r = (double)m; if (ex < 0) r = r / p10[-ex]; else if (ex > 0) r = r * p10[ex];
      if (e) *e = (char*)p;
      return neg ? -r : r;
    }
  }
  size_t used = 0; double r = sym_native_strtod(st, &used); if (e) *e = (char*)(used ? st + used : s);
  return r;
}
__attribute__((used)) double sym_override_atof(const char* s) { return strtod(s, nullptr); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
}
// ------------------------------------------------------------ numbers -> text
static int udec(char* o, uint64_t v) { // o must have 20 bytes; returns the length
  int n = 1; uint64_t lim = 10; while (n < 20 && v >= lim) { n++; if (n < 20) lim *= 10; }
  uint64_t q = v;
  for (int i = n - 1; i >= 0; i--) { o[i] = (char)('0' + q % 10); q /= 10; }
  return n;
}
struct Out { char* b; size_t cap, n; void put(char c) { if (n + 1 < cap) b[n] = c; n++; } };
static int fixedText(char* o, double v, int prec) { // "%.<prec>f"
  uint64_t bits; memcpy(&bits, &v, 8);
  if (sym_is_symbolic(bits)) {
    uint64_t N = 0; int k = 0; int s = sym_dec_parts(v, &N, &k);
    if (s == 0 || k > prec || prec > 18) { sym_unsupported("symbolic floating point text"); }
    int n = 0; if (s < 0) o[n++] = '-';
    char fr[24]; uint64_t q = N; for (int i = k - 1; i >= 0; i--) { fr[i] = (char)('0' + q % 10); q /= 10; }
    n += udec(o + n, q);
    if (prec) { o[n++] = '.'; for (int i = 0; i < k; i++) o[n++] = fr[i]; for (int i = k; i < prec; i++) o[n++] = '0'; }
    return n;
  }
  char f[16] = "%."; int m = 2; m += udec(f + m, (unsigned)prec); f[m++] = 'f'; f[m] = 0;
  return sym_native_fmt(o, 400, f, v);
}
extern "C" {
int vsnprintf(char* b, size_t cap, const char* f, va_list ap) {
  Out o{b, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { o.put(*f); continue; }
    f++;
    bool left = false, plus = false, space = false, alt = false, zero = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else if (*f == '0') zero = true; else break; }
    int w = 0, pr = -1;
    if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = true; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    int len = 0; // 1 l, 2 ll/z/j, -1 h, -2 hh
    for (;; f++) { if (*f == 'l') len = 2; else if (*f == 'z' || *f == 'j' || *f == 't') len = 2; else if (*f == 'h') len--; else break; }
    char t[420]; int n = 0; char sign = 0; const char* pre = ""; const char* src = t; bool num = false;
    switch (*f) {
      case 'd': case 'i': {
        int64_t v = len > 0 ? va_arg(ap, long) : va_arg(ap, int); if (len == -1) v = (short)v; if (len == -2) v = (signed char)v;
        uint64_t u = (uint64_t)v; if (v < 0) { sign = '-'; u = -u; } else if (plus) sign = '+'; else if (space) sign = ' ';
        n = udec(t, u); num = true; break;
      }
      case 'u': { uint64_t u = len > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (len == -1) u = (unsigned short)u; if (len == -2) u = (unsigned char)u; n = udec(t, u); num = true; break; }
      case 'x': case 'X': case 'o': case 'p': {
        uint64_t u = (len > 0 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (len == -1) u = (unsigned short)u; if (len == -2) u = (unsigned char)u;
        if (*f == 'o') { do { t[n++] = (char)('0' + (u & 7)); u >>= 3; } while (u); for (int i = 0; i < n / 2; i++) { char c = t[i]; t[i] = t[n - 1 - i]; t[n - 1 - i] = c; } num = true; break; }
        n = 1; while (n < 16 && (u >> (4 * n)) != 0) n++;
        for (int i = 0; i < n; i++) t[i] = sym_hexdig((unsigned)((u >> (4 * (n - 1 - i))) & 15), *f == 'X');
        if ((alt && u) || *f == 'p') pre = *f == 'X' ? "0X" : "0x";
        num = true; break;
      }
      case 'c': t[0] = (char)va_arg(ap, int); n = 1; break;
      case 's': { src = va_arg(ap, const char*); if (!src) src = "(null)"; size_t m = 0; while ((pr < 0 || m < (size_t)pr) && src[m]) m++; n = (int)m; break; }
      case 'f': case 'F': { double v = va_arg(ap, double); n = fixedText(t, v, pr < 0 ? 6 : pr); if (t[0] == '-') { sign = '-'; src = t + 1; n--; } else if (plus) sign = '+'; else if (space) sign = ' '; pr = -1; num = true; break; }
      case 'e': case 'E': case 'g': case 'G': { double v = va_arg(ap, double); char ff[24] = "%"; int m = 1; if (alt) ff[m++] = '#'; ff[m++] = '.'; m += udec(ff + m, (unsigned)(pr < 0 ? 6 : pr)); ff[m++] = *f; ff[m] = 0; n = sym_native_fmt(t, 400, ff, v); if (t[0] == '-') { sign = '-'; src = t + 1; n--; } else if (plus) sign = '+'; else if (space) sign = ' '; pr = -1; num = true; break; }
      case '%': t[0] = '%'; n = 1; break;
      case 'n': sym_unsupported("printf %n"); return 0;
      default: sym_unsupported("printf conversion"); return 0;
    }
    int zp = 0;
    if (num) { if (pr >= 0) { if (n < pr) zp = pr - n; if (pr == 0 && n == 1 && t[0] == '0') n = 0; } }
    int pl = (int)strlen(pre) + (sign ? 1 : 0);
    if (num && zero && !left && pr < 0 && n + pl < w) zp = w - n - pl;
    int pad = w - (n + zp + pl);
    if (!left) for (int i = 0; i < pad; i++) o.put(' ');
    if (sign) o.put(sign);
    for (const char* q = pre; *q; q++) o.put(*q);
    for (int i = 0; i < zp; i++) o.put('0');
    if (o.n + n + 1 < o.cap) { memcpy(o.b + o.n, src, n); o.n += n; } else for (int i = 0; i < n; i++) o.put(src[i]);
    if (left) for (int i = 0; i < pad; i++) o.put(' ');
  }
  if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int __vsnprintf_chk(char* b, size_t n, int, size_t, const char* f, va_list ap) { return vsnprintf(b, n, f, ap); }
int __snprintf_chk(char* b, size_t n, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
}
// ------------------------------------------------------------ iostream numbers
static std::ostream& putNum(std::ostream& os, char* t, int n) { // t has room for a sign prefix
  std::streamsize w = os.width(); char fill = os.fill(); auto adj = os.flags() & std::ios_base::adjustfield;
  if (w > n && adj == std::ios_base::internal) { int sl = (t[0] == '-' || t[0] == '+') ? 1 : 0; os.width(0); os.write(t, sl); for (std::streamsize i = n; i < w; i++) os.put(fill); os.write(t + sl, n - sl); return os; }
  std::__ostream_insert(os, t, n);
  return os;
}
static std::ostream& insU(std::ostream& os, uint64_t u, bool neg) {
  auto fl = os.flags(); char t[40]; int n = 0;
  auto base = fl & std::ios_base::basefield;
  if (base == std::ios_base::hex) snprintf(t, 40, (fl & std::ios_base::showbase) ? ((fl & std::ios_base::uppercase) ? "%#lX" : "%#lx") : ((fl & std::ios_base::uppercase) ? "%lX" : "%lx"), u), n = strlen(t);
  else if (base == std::ios_base::oct) snprintf(t, 40, "%lo", u), n = strlen(t);
  else { if (neg) t[n++] = '-'; else if (fl & std::ios_base::showpos) t[n++] = '+'; n += udec(t + n, u); }
  return putNum(os, t, n);
}
static bool isDec(std::ostream& os) { auto b = os.flags() & std::ios_base::basefield; return b != std::ios_base::hex && b != std::ios_base::oct; }
static std::ostream& insS(std::ostream& os, int64_t v) { if (isDec(os) && v < 0) return insU(os, -(uint64_t)v, true); return insU(os, (uint64_t)v, false); }
static std::ostream& insD(std::ostream& os, double v) {
  char t[420]; int n; auto ff = os.flags() & std::ios_base::floatfield; int p = (int)os.precision();
  if (ff == std::ios_base::fixed) n = fixedText(t, v, p < 0 ? 6 : p);
  else {
    uint64_t bits; memcpy(&bits, &v, 8);
    char f[16] = "%."; int m = 2; m += udec(f + m, (unsigned)p); f[m++] = ff == std::ios_base::scientific ? 'e' : 'g'; f[m] = 0; n = sym_native_fmt(t, 400, f, v);
  }
  if ((os.flags() & std::ios_base::showpos) && t[0] != '-') { memmove(t + 1, t, n); t[0] = '+'; n++; }
  return putNum(os, t, n);
}
OVR(std::ostream&, _ZNSo9_M_insertIlEERSoT_)(std::ostream& os, long v) { return insS(os, v); }
OVR(std::ostream&, _ZNSo9_M_insertIxEERSoT_)(std::ostream& os, long long v) { return insS(os, v); }
OVR(std::ostream&, _ZNSo9_M_insertImEERSoT_)(std::ostream& os, unsigned long v) { return insU(os, v, false); }
OVR(std::ostream&, _ZNSo9_M_insertIyEERSoT_)(std::ostream& os, unsigned long long v) { return insU(os, v, false); }
OVR(std::ostream&, _ZNSo9_M_insertIbEERSoT_)(std::ostream& os, bool v) { if (os.flags() & std::ios_base::boolalpha) { char t[8]; strcpy(t, v ? "true" : "false"); return putNum(os, t, strlen(t)); } return insU(os, v, false); }
OVR(std::ostream&, _ZNSo9_M_insertIdEERSoT_)(std::ostream& os, double v) { return insD(os, v); }
static int numText(std::istream& is, char* t, int cap, bool fp) { // collects the characters of a number
  int n = 0; auto* sb = is.rdbuf(); bool hex = (is.flags() & std::ios_base::basefield) == std::ios_base::hex;
  for (int c = sb->sgetc(); n < cap - 1; c = sb->snextc()) {
    if (c == -1) { is.setstate(std::ios_base::eofbit); break; }
    bool ok = (c >= '0' && c <= '9') || ((c == '-' || c == '+') && (n == 0 || (fp && (t[n - 1] == 'e' || t[n - 1] == 'E')))) || (fp && (c == '.' || c == 'e' || c == 'E')) || (hex && isxdigit(c));
    if (!ok) break;
    t[n++] = (char)c;
  }
  t[n] = 0; return n;
}
static bool exS(std::istream& is, int64_t& out, int64_t lo, int64_t hi) {
  std::istream::sentry s(is, false); if (!s) return false;
  char t[64]; int n = numText(is, t, 64, false); char* e; errno = 0; bool hex = (is.flags() & std::ios_base::basefield) == std::ios_base::hex;
  bool ng, any, over; uint64_t v = strtoX(t, &e, hex ? 16 : 10, ng, any, over);
  if (!any || n == 0) { out = 0; is.setstate(std::ios_base::failbit); return true; }
  int64_t sv = ng ? -(int64_t)v : (int64_t)v;
  if (over || v > (1ull << 62) || sv < lo || sv > hi) { out = ng ? lo : hi; is.setstate(std::ios_base::failbit); return true; }
  out = sv; return true;
}
static bool exU(std::istream& is, uint64_t& out, uint64_t hi) {
  std::istream::sentry s(is, false); if (!s) return false;
  char t[64]; numText(is, t, 64, false); bool hex = (is.flags() & std::ios_base::basefield) == std::ios_base::hex;
  bool ng, any, over; uint64_t v = strtoX(t, nullptr, hex ? 16 : 10, ng, any, over);
  if (!any) { out = 0; is.setstate(std::ios_base::failbit); return true; }
  if (over || v > hi) { out = hi; is.setstate(std::ios_base::failbit); return true; }
  out = ng ? (-v & hi) : v; return true;
}
OVR(std::istream&, _ZNSirsERi)(std::istream& is, int& v) { int64_t o; if (exS(is, o, -2147483648ll, 2147483647ll)) v = (int)o; return is; }
OVR(std::istream&, _ZNSirsERs)(std::istream& is, short& v) { int64_t o; if (exS(is, o, -32768, 32767)) v = (short)o; return is; }
OVR(std::istream&, _ZNSi10_M_extractIlEERSiRT_)(std::istream& is, long& v) { int64_t o; if (exS(is, o, (int64_t)(1ull << 63), (int64_t)((1ull << 63) - 1))) v = o; return is; }
OVR(std::istream&, _ZNSi10_M_extractIxEERSiRT_)(std::istream& is, long long& v) { int64_t o; if (exS(is, o, (int64_t)(1ull << 63), (int64_t)((1ull << 63) - 1))) v = o; return is; }
OVR(std::istream&, _ZNSi10_M_extractItEERSiRT_)(std::istream& is, unsigned short& v) { uint64_t o; if (exU(is, o, 0xffff)) v = (unsigned short)o; return is; }
OVR(std::istream&, _ZNSi10_M_extractIjEERSiRT_)(std::istream& is, unsigned& v) { uint64_t o; if (exU(is, o, 0xffffffffu)) v = (unsigned)o; return is; }
OVR(std::istream&, _ZNSi10_M_extractImEERSiRT_)(std::istream& is, unsigned long& v) { uint64_t o; if (exU(is, o, ~0ull)) v = o; return is; }
OVR(std::istream&, _ZNSi10_M_extractIyEERSiRT_)(std::istream& is, unsigned long long& v) { uint64_t o; if (exU(is, o, ~0ull)) v = o; return is; }
OVR(std::istream&, _ZNSi10_M_extractIdEERSiRT_)(std::istream& is, double& v) { std::istream::sentry s(is, false); if (!s) return is; char t[128]; numText(is, t, 128, true); char* e; double d = strtod(t, &e); if (e == t) { v = 0; is.setstate(std::ios_base::failbit); } else v = d; return is; }
// std::to_string and friends build their text with table look-ups: replaced by digit arithmetic
namespace std { inline namespace __cxx11 {} }
OVR(void, _ZNSt8__detail18__to_chars_10_implImEEvPcjT_)(char* p, unsigned len, unsigned long v) { for (unsigned i = len; i-- > 0;) { p[i] = (char)('0' + v % 10); v /= 10; } }
OVR(void, _ZNSt8__detail18__to_chars_10_implIyEEvPcjT_)(char* p, unsigned len, unsigned long long v) { for (unsigned i = len; i-- > 0;) { p[i] = (char)('0' + v % 10); v /= 10; } }
OVR(void, _ZNSt8__detail18__to_chars_10_implIjEEvPcjT_)(char* p, unsigned len, unsigned v) { for (unsigned i = len; i-- > 0;) { p[i] = (char)('0' + v % 10); v /= 10; } }

OVR(std::ostreambuf_iterator<char>, _ZNKSt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE3putES3_RSt8ios_basecPK2tmPKcSB_)(void*, std::ostreambuf_iterator<char> it, std::ios_base&, char, const tm* t, const char* b, const char* e) {
  char f[64], o[128]; size_t n = e - b; if (n > 63) n = 63; memcpy(f, b, n); f[n] = 0; n = strftime(o, sizeof o, f, t); for (size_t i = 0; i < n; i++) { *it = o[i]; ++it; } return it;
}
namespace std {
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim) {
  ios_base::iostate err = ios_base::goodbit; size_t got = 0;
  istream::sentry s(in, true);
  if (s) {
    str.erase();
    auto* sb = in.rdbuf(); int c = sb->sgetc();
    char buf[128]; size_t n = 0;
    while (c != -1 && (char)c != delim) { buf[n++] = (char)c; got++; if (n == sizeof buf) { str.append(buf, n); n = 0; } c = sb->snextc(); }
    if (n) str.append(buf, n);
    if (c == -1) err |= ios_base::eofbit; else { got++; sb->sbumpc(); }
  }
  if (!got) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) {
  ios_base::iostate err = ios_base::goodbit; size_t got = 0;
  istream::sentry s(in, false);
  if (s) {
    str.erase(); streamsize w = in.width(); size_t n = w > 0 ? (size_t)w : ~(size_t)0;
    auto* sb = in.rdbuf(); int c = sb->sgetc();
    while (got < n && c != -1 && !isspace(c)) { str.push_back((char)c); got++; c = sb->snextc(); }
    if (got < n && c == -1) err |= ios_base::eofbit;
    in.width(0);
  }
  if (!got) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) {
  streamsize r = 0; eof = true; char buf[512]; 
  for (;;) {
    streamsize n = in->sgetn(buf, sizeof buf); if (n <= 0) break;
    streamsize k = out->sputn(buf, n); r += k; if (k != n) { eof = false; break; }
  }
  return r;
}
}
// ------------------------------------------------------------ file system
namespace {
struct Node { char* path; bool dir; char* data; size_t len, cap; bool alive; };
Node* nodes = nullptr; size_t nnodes = 0, capNodes = 0;
struct Handle { Node* n; size_t pos; bool rd, wr, app; };
std::string norm(const char* p) {
  bool abs = *p == '/'; std::string r; 
  while (*p) {
    while (*p == '/') p++;
    const char* b = p; while (*p && *p != '/') p++;
    size_t n = p - b; if (!n) break;
    if (n == 1 && *b == '.') continue;
    if (n == 2 && b[0] == '.' && b[1] == '.') { size_t k = r.rfind('/'); if (k == std::string::npos) r.clear(); else r.resize(k); continue; }
    if (!r.empty()) r += '/';
    r.append(b, n);
  }
  return abs ? "/" + r : r;
}
Node* look(const std::string& n) { for (size_t i = 0; i < nnodes; i++) if (nodes[i].alive && n == nodes[i].path) return &nodes[i]; return nullptr; }
bool isRoot(const std::string& n) { return n.empty() || n == "/"; }
// 0 = ok, else errno for the parent
int parentErr(const std::string& n) {
  size_t k = n.rfind('/'); if (k == std::string::npos || k == 0) return 0;
  Node* p = look(n.substr(0, k)); if (!p) return ENOENT; return p->dir ? 0 : ENOTDIR;
}
Node* addNode(const std::string& n, bool dir) {
  if (nnodes == capNodes) { capNodes = 4096; if (nnodes) sym_unsupported("too many files"); nodes = (Node*)malloc(capNodes * sizeof(Node)); }
  Node* x = &nodes[nnodes++]; x->path = (char*)malloc(n.size() + 1); memcpy(x->path, n.c_str(), n.size() + 1); x->dir = dir; x->data = nullptr; x->len = x->cap = 0; x->alive = true; return x;
}
int doMkdir(const char* p) {
  if (!*p) return ENOENT;
  std::string n = norm(p); if (isRoot(n) || look(n)) return EEXIST;
  int e = parentErr(n); if (e) return e; addNode(n, true); return 0;
}
int kind(const char* p) { if (!*p) return 0; std::string n = norm(p); if (isRoot(n)) return 2; Node* x = look(n); if (!x) return 0; if (!x->dir && p[strlen(p) - 1] == '/') return 0; return x->dir ? 2 : 1; }
int doRemove(const char* p) {
  std::string n = norm(p); Node* x = look(n); if (!x) return ENOENT;
  if (x->dir) for (size_t i = 0; i < nnodes; i++) if (nodes[i].alive && !strncmp(nodes[i].path, x->path, n.size()) && nodes[i].path[n.size()] == '/') return ENOTEMPTY;
  x->alive = false; return 0;
}
}
extern "C" {
int stat(const char* p, struct stat* s) noexcept { int k = kind(p); if (!k) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = k == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644); return 0; }
int lstat(const char* p, struct stat* s) noexcept { return stat(p, s); }
int mkdir(const char* p, mode_t) noexcept { int e = doMkdir(p); if (e) { errno = e; return -1; } return 0; }
int access(const char* p, int) noexcept { if (kind(p)) return 0; errno = ENOENT; return -1; }
int remove(const char* p) noexcept { int e = doRemove(p); if (e) { errno = e; return -1; } return 0; }
int unlink(const char* p) noexcept { return remove(p); }
int rmdir(const char* p) noexcept { return remove(p); }
}
namespace std { namespace filesystem { inline namespace __cxx11 {}
static error_code EC(int e) { return error_code(e, generic_category()); }
file_status status(const path& p, error_code& ec) noexcept { ec.clear(); int k = kind(p.c_str()); return file_status(k == 0 ? file_type::not_found : k == 1 ? file_type::regular : file_type::directory, perms::all); }
file_status status(const path& p) { error_code ec; return status(p, ec); }
file_status symlink_status(const path& p, error_code& ec) noexcept { return status(p, ec); }
file_status symlink_status(const path& p) { return status(p); }
bool create_directory(const path& p, error_code& ec) noexcept { int e = doMkdir(p.c_str()); if (e == EEXIST && kind(p.c_str()) == 2) { ec.clear(); return false; } if (e) { ec = EC(e); return false; } ec.clear(); return true; }
bool create_directory(const path& p) { error_code ec; bool r = create_directory(p, ec); if (ec) throw filesystem_error("cannot create directory", p, ec); return r; }
bool create_directories(const path& p, error_code& ec) {
  ec.clear(); const char* s = p.c_str(); if (!*s) { ec = EC(ENOENT); return false; }
  std::string n = norm(s); bool made = false;
  for (size_t i = 1; i <= n.size(); i++) if (i == n.size() || n[i] == '/') { std::string q = n.substr(0, i); int e = doMkdir(q.c_str()); if (e == EEXIST) { if (kind(q.c_str()) != 2) { ec = EC(ENOTDIR); return false; } made = false; continue; } if (e) { ec = EC(e); return false; } made = true; }
  return made;
}
bool create_directories(const path& p) { error_code ec; bool r = create_directories(p, ec); if (ec) throw filesystem_error("cannot create directories", p, ec); return r; }
bool remove(const path& p, error_code& ec) noexcept { int e = doRemove(p.c_str()); ec.clear(); if (e == ENOENT) return false; if (e) { ec = EC(e); return false; } return true; }
bool remove(const path& p) { error_code ec; bool r = remove(p, ec); if (ec) throw filesystem_error("cannot remove", p, ec); return r; }
uintmax_t remove_all(const path& p, error_code& ec) { ec.clear(); std::string n = norm(p.c_str()); uintmax_t k = 0; for (size_t i = 0; i < nnodes; i++) if (nodes[i].alive) { std::string q = nodes[i].path; if (q == n || (q.size() > n.size() && q.compare(0, n.size(), n) == 0 && q[n.size()] == '/')) { nodes[i].alive = false; k++; } } return k; }
uintmax_t remove_all(const path& p) { error_code ec; return remove_all(p, ec); }
uintmax_t file_size(const path& p, error_code& ec) noexcept { ec.clear(); Node* x = look(norm(p.c_str())); if (!x || x->dir) { ec = EC(ENOENT); return (uintmax_t)-1; } return x->len; }
uintmax_t file_size(const path& p) { error_code ec; auto r = file_size(p, ec); if (ec) throw filesystem_error("file_size", p, ec); return r; }
} }
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { this->close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode m, int) {
  if (is_open()) return nullptr;
  bool in = (m & ios_base::in) != 0, out = (m & (ios_base::out | ios_base::app)) != 0, app = (m & ios_base::app) != 0, trunc = (m & ios_base::trunc) != 0 || (out && !in && !app);
  std::string n = norm(name); int k = kind(name);
  if (k == 2 && out) return nullptr;
  if (!*name) return nullptr;
  if (k == 0) { if (in && !app && !trunc) return nullptr; if (!out) return nullptr; if (name[strlen(name) - 1] == '/' || parentErr(n)) return nullptr; }
  Node* x = k == 0 ? addNode(n, false) : look(n);
  if (trunc && x) x->len = 0;
  Handle* h = (Handle*)malloc(sizeof(Handle)); h->n = x; h->pos = 0; h->rd = in; h->wr = out; h->app = app;
  _M_cfile = (FILE*)h; _M_cfile_created = true; return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!is_open()) return nullptr; free(_M_cfile); _M_cfile = nullptr; return this; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) {
  Handle* h = (Handle*)_M_cfile; if (!h || !h->wr) return 0; Node* x = h->n; if (h->app) h->pos = x->len;
  if (h->pos + n > x->cap) { size_t c = (h->pos + n) * 2 + 1024; char* d = (char*)malloc(c); if (x->len) memcpy(d, x->data, x->len); free(x->data); x->data = d; x->cap = c; }
  memcpy(x->data + h->pos, s, n); h->pos += n; if (h->pos > x->len) x->len = h->pos; return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) { streamsize r = xsputn(a, n); return r + xsputn(b, m); }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { Handle* h = (Handle*)_M_cfile; if (!h || !h->rd || !h->n) return -1; Node* x = h->n; if (x->dir) return -1; size_t k = h->pos < x->len ? x->len - h->pos : 0; if ((size_t)n < k) k = n; memcpy(s, x->data + h->pos, k); h->pos += k; return (streamsize)k; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { Handle* h = (Handle*)_M_cfile; if (!h) return -1; if (w == ios_base::beg) h->pos = o; else if (w == ios_base::cur) h->pos += o; else h->pos = (h->n ? h->n->len : 0) + o; return (streamoff)h->pos; }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { Handle* h = (Handle*)_M_cfile; return h && h->n && h->pos < h->n->len ? (streamsize)(h->n->len - h->pos) : 0; }
int __basic_file<char>::fd() throw() { return 3; }
}
// ------------------------------------------------------------ more of <string.h>, <stdlib.h>, scanf
extern "C" {
__attribute__((used)) char* sym_override_strstr(const char* h, const char* n) { size_t k = 0; while (n[k]) k++; for (;; h++) { size_t i = 0; while (i < k && h[i] && h[i] == n[i]) i++; if (i == k) return (char*)h; if (!*h) return nullptr; } }
__attribute__((used)) char* sym_override_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
__attribute__((used)) void* sym_override_memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return nullptr; }
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((used)) int sym_override_strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = lowc((unsigned char)*a), y = lowc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
__attribute__((used)) int sym_override_strcasecmp(const char* a, const char* b) { return sym_override_strncasecmp(a, b, ~(size_t)0); }
__attribute__((used)) int sym_override_strcoll(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
static bool inset(char c, const char* set) { for (; *set; set++) if (*set == c) return true; return false; }
__attribute__((used)) size_t sym_override_strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && inset(s[n], set)) n++; return n; }
__attribute__((used)) size_t sym_override_strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !inset(s[n], set)) n++; return n; }
__attribute__((used)) char* sym_override_strpbrk(const char* s, const char* set) { for (; *s; s++) if (inset(*s, set)) return (char*)s; return nullptr; }
__attribute__((used)) char* sym_override_strndup(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
__attribute__((used)) char* sym_override_strdup(const char* s) { return sym_override_strndup(s, ~(size_t)0 - 1); }
__attribute__((used)) char* sym_override_strncat(char* d, const char* s, size_t m) { size_t k = 0; while (d[k]) k++; size_t i = 0; for (; i < m && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
__attribute__((used)) char* sym_override_stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
__attribute__((used)) char* sym_override_strtok_r(char* s, const char* set, char** sv) {
  if (!s) s = *sv; if (!s) return nullptr;
  while (*s && inset(*s, set)) s++;
  if (!*s) { *sv = nullptr; return nullptr; }
  char* r = s; while (*s && !inset(*s, set)) s++;
  if (*s) { *s = 0; *sv = s + 1; } else *sv = nullptr;
  return r;
}
static char* tokSave = nullptr;
__attribute__((used)) char* sym_override_strtok(char* s, const char* set) { return sym_override_strtok_r(s, set, &tokSave); }
__attribute__((used)) void sym_override_qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* p = (char*)b; char* t = (char*)malloc(w ? w : 1);
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) { memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w); }
  free(t);
}
__attribute__((used)) void* sym_override_bsearch(const void* k, const void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const char* p = (const char*)b + m * w; int r = cmp(k, p); if (r == 0) return (void*)p; if (r < 0) h = m; else l = m + 1; } return nullptr;
}
static int scanfv(const char* s, const char* f, va_list ap) {
  const char* s0 = s; int n = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (!*s) return n ? n : -1; if (*s != *f) return n; s++; continue; }
    f++; if (*f == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
    bool skip = false; if (*f == '*') { skip = true; f++; }
    size_t w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    int len = 0; for (;; f++) { if (*f == 'l') len = len == 1 ? 2 : 1; else if (*f == 'j' || *f == 'z' || *f == 't') len = 2; else if (*f == 'h') len--; else break; }
    char c = *f;
    if (c != 'c' && c != '[' && c != 'n') { while (isspace((unsigned char)*s)) s++; }
    if (c == 'n') { if (!skip) *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (!*s) return n ? n : -1;
    if (c == 'c') { if (!w) w = 1; char* o = skip ? nullptr : va_arg(ap, char*); for (size_t i = 0; i < w; i++) { if (!s[i]) return n; if (o) o[i] = s[i]; } s += w; if (!skip) n++; continue; }
    if (c == 's') { char* o = skip ? nullptr : va_arg(ap, char*); size_t i = 0; for (; s[i] && !isspace((unsigned char)s[i]) && (!w || i < w); i++) if (o) o[i] = s[i]; if (o) o[i] = 0; s += i; if (!skip) n++; continue; }
    if (c == '[') {
      f++; bool neg = false; if (*f == '^') { neg = true; f++; }
      const char* st = f; if (*f == ']') f++; while (*f && *f != ']') f++; const char* en = f;
      char* o = skip ? nullptr : va_arg(ap, char*); size_t i = 0;
      for (; s[i] && (!w || i < w); i++) {
        bool in = false; for (const char* q = st; q < en; q++) { if (q + 2 < en && q[1] == '-') { if ((unsigned char)s[i] >= (unsigned char)q[0] && (unsigned char)s[i] <= (unsigned char)q[2]) in = true; q += 2; } else if (*q == s[i]) in = true; }
        if (in == neg) break; if (o) o[i] = s[i];
      }
      if (!i) return n; if (o) o[i] = 0; s += i; if (!skip) n++; continue;
    }
    char t[64]; size_t m = 0, lim = w && w < 60 ? w : 60; while (m < lim && s[m]) { t[m] = s[m]; m++; } t[m] = 0;
    char* e = t;
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      int base = c == 'i' ? 0 : c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
      uint64_t v = c == 'd' || c == 'i' ? (uint64_t)x_strtol(t, &e, base) : x_strtoul(t, &e, base);
      if (e == t) return n;
      if (!skip) { if (len >= 1) *va_arg(ap, uint64_t*) = v; else if (len == 0) *va_arg(ap, uint32_t*) = (uint32_t)v; else if (len == -1) *va_arg(ap, uint16_t*) = (uint16_t)v; else *va_arg(ap, uint8_t*) = (uint8_t)v; n++; }
    } else if (c == 'f' || c == 'g' || c == 'e' || c == 'a') {
      double v = strtod(t, &e); if (e == t) return n;
      if (!skip) { if (len >= 1) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; n++; }
    } else { sym_unsupported("scanf conversion"); }
    s += e - t;
  }
  return n;
}
__attribute__((used)) int sym_override___isoc23_vsscanf(const char* s, const char* f, va_list ap) { return scanfv(s, f, ap); }
__attribute__((used)) int sym_override_vsscanf(const char* s, const char* f, va_list ap) { return scanfv(s, f, ap); }
__attribute__((used)) int sym_override___isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scanfv(s, f, ap); va_end(ap); return r; }
__attribute__((used)) int sym_override___isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scanfv(s, f, ap); va_end(ap); return r; }
__attribute__((used)) int sym_override_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scanfv(s, f, ap); va_end(ap); return r; }
__attribute__((used)) int sym_override_pthread_mutex_lock(void*) { return 0; }
__attribute__((used)) int sym_override_pthread_mutex_unlock(void*) { return 0; }
__attribute__((used)) int sym_override_pthread_mutex_trylock(void*) { return 0; }
}
