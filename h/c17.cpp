// C17: prt_double on every factor and offset with up to 15 digits.
#include "lib.h"
#include "helpers/formatter.h"
// any number of a digits (the first not zero unless it is the only one) before and dec digits behind the point
struct Dec { S ip, fr; double v; bool neg; };
static Dec mk(int a, int dec, bool neg) {
  Dec d; uint64_t m = 0; d.neg = neg;
  for (int i = 0; i < a + dec; i++) { uint64_t x = sym_u64(("digit#" + num(i)).c_str(), i == 0 && a > 1 ? 1 : 0, 9); m = m * 10 + x; (i < a ? d.ip : d.fr) += (char)('0' + x); }
  d.v = (double)m; if (dec) d.v /= (double)p10(dec); if (neg) { d.v = -d.v; sym_assume(m != 0); } // (minus zero is not asked for)
  return d;
}
static void check(const Dec& d, size_t prec, bool dot) {
  S r = prt_double(d.v, prec, dot), head = (d.neg ? "-" : "") + d.ip; size_t h = head.size(); sym_assert(r.size() >= h && same(r.substr(0, h), head), "sign and integer part");
  S f = d.fr, tail; size_t t = prec < f.size() ? prec : f.size(); bool zero = true; for (size_t i = 0; i < t; i++) zero &= f[i] == '0';
  if (r.size() > h) { sym_assert(r[h] == '.' && r.size() > h + 1, "dot and digits"); tail = r.substr(h + 1); }
  if (zero) { sym_assert(same(tail, dot ? "0" : ""), "fractional part where it is demanded, none otherwise"); sym_cover("integer"); return; }
  size_t q = tail.size(); sym_assert(q >= 1 && q <= t && same(tail, f.substr(0, q)), "digits are truncated"); sym_assert(tail[q - 1] != '0', "no trailing zeros"); bool z = true; for (size_t i = q; i < t; i++) z &= f[i] == '0'; sym_assert(z, "only zeros are removed"); sym_cover("fraction");
}
extern "C" void decimals() { // digits before and behind the point, precision
  int c = (int)sym_concretize(sym_u64("decimals", 0, 10)), a = 1 + (int)sym_concretize(sym_u64("integer digits", 0, TIER_THOROUGH ? 4 : 2)); 
  size_t prec = (size_t)sym_concretize(sym_u64("precision", 0, TIER_THOROUGH ? 12 : 3)); if (!TIER_THOROUGH) prec = prec == 0 ? 9 : prec == 1 ? (size_t)(c * 7 + a) % 9 : prec == 2 ? (size_t)c : (size_t)(10 + c % 3); bool dot = (a + c + prec) % 3 != 0, neg = (a + c) % 2;
  check(mk(a, c, neg), prec, dot);
}
extern "C" void large() { // up to 15 integer digits
  int a = (int)sym_concretize(sym_u64("digits", 4, 15)), c = a > 5 ? 0 : 3; bool neg = sym_concretize(sym_u64("negative", 0, 1)); size_t prec = (size_t)(a % 3 == 0 ? 0 : 9); Dec d = mk(a, c, neg); check(d, prec, true); check(d, prec, false);
}
// the numbers in the generated header: field comments and conversion macros
static bool after(const S& text, const S& key, const S& want, S& rest) { // the text behind the key
  size_t p = text.find(key); if (p == S::npos || text.size() < p + key.size() + want.size() + 1) return false;
  p += key.size(); rest = text.substr(p + want.size(), 1); return same(text.substr(p, want.size()), want);
}
static S digits(const S& n, int k, uint64_t& v) { S r; v = 0; if (n == "factor" || n == "offset") return symdec(n, k, v); for (int i = 0; i < k; i++) { uint64_t x = sym_u64((n + "#" + num(i)).c_str(), i == 0 ? 1 : 0, 9); v = v * 10 + x; r += (char)('0' + x); } return r; }
static bool stop(const S& c) { return (c[0] < '0') | (c[0] > '9'); }
extern "C" void integers() { // integer-scaled signals: factors and offsets of up to 15 digits
  int of = (int)sym_concretize(sym_u64("offset digits", 1, 15)), k = (int)sym_concretize(sym_u64("signs", 0, 3)); int fd = 1 + (of * 2 + k) % (of > 7 ? 3 : 7); uint64_t f, o; S ft = (k & 1 ? "-" : "") + digits("factor", fd, f), ot = (k & 2 ? "-" : "") + digits("offset", of, o); sym_assume((f > 1) & (o != 0));
  gen("BO_ 100 M: 8 N1\n SG_ A : 0|8@1+ (" + ft + "," + ot + ") [0|0] \"\" N2\n\n"); S h = get("out/lib/drv.h"), r;
  sym_assert(after(h, " Offset= ", ot, r) && stop(r), "offset in the field comment"); sym_assert(after(h, " Factor= ", ft, r) && stop(r), "factor in the field comment"); sym_assert(after(h, "DRV_A_ro_CovFactor (", ft, r) && r[0] == ')', "factor macro"); sym_cover("integers");
}
extern "C" void floating() { // floating-point scaled ones: trailing zeros removed, nine decimals, dot
  int c = (int)sym_concretize(sym_u64("decimals", 1, 10)), k = (int)sym_concretize(sym_u64("signs", 0, 3)), a = 1 + (c + k) % 3; uint64_t x; S it = digits("int", a, x), ft = digits("fraction", c, x); 
  S nm = (k & 1 ? "-" : "") + it + "." + ft, t = ft; if (c == 10) t = t.substr(0, 9); bool off = k & 2;
  gen("BO_ 100 M: 8 N1\n SG_ A : 0|8@1+ (" + (off ? S("1.5,") + nm : nm + ",2.0") + ") [0|0] \"\" N2\n\n"); S h = get("out/lib/drv.h"), key = off ? " Offset= " : "DRV_A_ro_CovFactor (";
  size_t p = h.find(key); sym_assert(p != S::npos, "number is printed"); p += key.size(); S head = (k & 1 ? "-" : "") + it + "."; sym_assert(same(h.substr(p, head.size()), head), "integer part and dot"); p += head.size();
  size_t q = 0; while (q < 12 && h[p + q] >= '0' && h[p + q] <= '9') q++;
  sym_assert(q >= 1 && q <= t.size() && same(h.substr(p, q), t.substr(0, q)), "digits"); bool z = true; for (size_t i = q; i < t.size(); i++) z &= t[i] == '0'; sym_assert(z, "only zeros are removed"); sym_assert(q == 1 || h[p + q - 1] != '0', "no trailing zeros"); if (!off) sym_assert(h[p + q] == ')', "end of the number"); sym_cover("floating");
}
