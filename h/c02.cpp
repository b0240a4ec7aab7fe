// C02: signal definition lines.
#include "lib.h"
#include "parser/dbcscanner.h"
static const SignalDescriptor_t* scan(DbcScanner& sc, const S& lines, size_t& n, const S& bo = "BO_ 100 M1: 8 N1") {
  std::stringstream s("VERSION \"1.2\"\n\nBU_: N1 N2\n\n" + bo + "\n" + lines + "\nCM_ \"end\";\n"); sc.TrimDbcText(s);
  sym_assert(sc.dblist.msgs.size() == 1, "the message of the signal is kept"); n = sc.dblist.msgs[0]->Signals.size();
  return n ? &sc.dblist.msgs[0]->Signals[0] : nullptr;
}
// a number as written in the file: value mant / 10^dec * 10^ex (concrete dec, ex; symbolic digits)
struct Num { S text; double val; bool fp; bool tiny; };
static Num mk(const S& name, int id, int dec, int exf, int sgn, bool big = false) {
  // id: digits before the point, dec: behind it, exf: 0 none, else exponent form
  uint64_t m; Num r; r.fp = dec > 0 || exf; 
  S t;
  if (big) { m = sym_u64(name.c_str(), 0, p10(id + dec) - 1); S d = dectext(m, id + dec); t = dec ? d.substr(0, (size_t)id) + "." + d.substr((size_t)id) : d; } // leading zeros
  else { m = sym_u64(name.c_str(), id > 1 ? p10(id + dec - 1) : 0, p10(id + dec) - 1); S d = dectext(m, id + dec); t = dec ? d.substr(0, (size_t)id) + "." + d.substr((size_t)id) : d; }
  static const struct { const char* t; int e; } EX[] = {{"", 0}, {"E-3", -3}, {"e+2", 2}, {"E-05", -5}, {"e1", 1}, {"E-007", -7}, {"e-9", -9}, {"E+010", 10}};
  t += EX[exf].t; int ex = EX[exf].e - dec; double v = (double)m; if (ex < 0) v /= (double)p10(-ex); else if (ex > 0) v *= (double)p10(ex);
  if (sgn == 1) { t = "-" + t; v = -v; } else if (sgn == 2) t = "+" + t;
  double a = v < 0 ? -v : v; r.tiny = (a != 0.0) & (a < 0.000000001);
  r.text = t; r.val = v; return r;
}
static const char* RCV[] = {"N2", "N2,N3", "N2, N3", "N3 , N2 ,N4", "Vector__XXX"};
static const std::vector<S> RCL[] = {{"N2"}, {"N2", "N3"}, {"N2", "N3"}, {"N3", "N2", "N4"}, {"Vector__XXX"}};
static void fields(const SignalDescriptor_t* s, const S& name, uint64_t st, uint64_t len, bool mot, bool sgn, const S& unit, const std::vector<S>& rc) {
  sym_assert(same(s->IsSimpleSig ? s->Name : s->Name.substr(0, s->Name.size() - 3), name), "name"); 
  if (!s->IsSimpleSig) { sym_assert(s->Name.substr(s->Name.size() - 3) == "_ro", "raw field name"); sym_assert(same(s->NameFloat, name + "_phys"), "physical field name"); }
  sym_assert(s->StartBit == st, "start bit"); sym_assert(s->LengthBit == len, "bit length"); sym_assert((s->Order == BitLayout::kMotorolla) == mot, "byte order"); sym_assert((s->Signed != 0) == sgn, "signedness");
  sym_assert(same(s->Unit, unit), "unit"); sym_assert(s->RecS.size() == rc.size(), "number of receivers"); for (size_t i = 0; i < rc.size(); i++) sym_assert(same(s->RecS[i], rc[i]), "receiver");
}
// start bit, length, order, sign
extern "C" void layout() {
  int ds = (int)sym_concretize(sym_u64("start digits", 1, 3)), dl = (int)sym_concretize(sym_u64("length digits", 1, TIER_THOROUGH ? 9 : 4)); int o = (int)sym_concretize(sym_u64("order and sign", 0, 3));
  uint64_t st, len; S a = symdec("start", ds, st), b = symdec("length", dl == 4 && !TIER_THOROUGH ? 9 : dl, len); bool mot = o & 1, sg = o & 2; int rv = (ds + dl + o) % 5;
  S mm = (ds + o) % 3 == 0 ? "[0|0]" : (ds + o) % 3 == 1 ? "[-5|12.5]" : "[1E-3|1.5E+005]";
  DbcScanner sc; size_t n; auto* s = scan(sc, " SG_ Sig : " + a + "|" + b + "@" + (mot ? "0" : "1") + (sg ? "-" : "+") + " (1,0) " + mm + " \"km/h\" " + RCV[rv] + (o == 1 ? "\r" : o == 2 ? " " : "") + "\n", n);
  bool ok = (len >= 1) & (len <= 64);
  if (!n) { sym_assert(!ok, "signal of 1 to 64 bits is kept"); sym_cover("rejected"); return; }
  sym_assert(ok, "signal which no type can hold is not kept"); sym_assert(n == 1, "one signal"); fields(s, "Sig", st, len, mot, sg, "km/h", RCL[rv]);
  sym_assert(s->IsSimpleSig && !s->IsDoubleSig && s->Factor == 1 && s->Offset == 0, "plain"); sym_assert(s->Multiplex == MultiplexType::kNone, "not multiplexed"); sym_cover("kept");
}
// names and multiplexing
extern "C" void names() {
  int n = (int)sym_concretize(sym_u64("name length", 1, TIER_THOROUGH ? 12 : 6)), m = (int)sym_concretize(sym_u64("multiplex", 0, 4)); uint64_t x = 0; S nm = symident("name", n), mux = m == 0 ? S("") : m == 1 ? S(" M") : S(" m") + symdec("mux", m - 1, x);
  bool scaled = (n + m) % 2; int sp = (n + m) % 3;
  DbcScanner sc; size_t k; auto* s = scan(sc, S(sp == 1 ? "  " : sp == 2 ? "\t" : " ") + "SG_ " + nm + mux + " : 8|5@0- (" + (scaled ? "2,1" : "1,0") + ") [0|0] \"\" N2\n", k);
  sym_assert(k == 1, "one signal"); fields(s, nm, 8, 5, true, true, "", {"N2"}); sym_assert(s->IsSimpleSig == !scaled, "class");
  sym_assert(s->Multiplex == (m == 0 ? MultiplexType::kNone : m == 1 ? MultiplexType::kMaster : MultiplexType::kMulValue), "multiplexing role"); sym_cover(m == 0 ? "plain" : m == 1 ? "master" : "multiplexed");
}
// factor and offset
static void scale(const Num& f, const Num& o, int len, bool sg) {
  DbcScanner sc; size_t k; auto* s = scan(sc, " SG_ Sig : 8|" + num(len) + "@1" + (sg ? "-" : "+") + " (" + f.text + "," + o.text + ") [0|0] \"\" N2\n", k); sym_assert(k == 1, "one signal");
  if (f.tiny | o.tiny) { sym_assert(s->IsSimpleSig && !s->IsDoubleSig && s->Factor == 1 && s->Offset == 0, "factor or offset below 1e-9: plain"); sym_cover("tiny"); return; }
  sym_assert(s->Factor == f.val, "factor"); sym_assert(s->Offset == o.val, "offset");
  sym_assert(s->IsDoubleSig == (f.fp || o.fp), "floating-point scaled when written with point or exponent"); sym_assert(s->IsSimpleSig == (!f.fp & !o.fp & (f.val == 1.0) & (o.val == 0.0)), "plain when factor 1 and offset 0 written as integers");
  fields(s, "Sig", 8, (uint64_t)len, false, sg, "", {"N2"}); sym_cover(s->IsDoubleSig ? "floating" : s->IsSimpleSig ? "simple" : "integer");
}
extern "C" void factor() {
  int a = (int)sym_concretize(sym_u64("digits", 1, 3)), d = (int)sym_concretize(sym_u64("decimals", 0, TIER_THOROUGH ? 12 : 10)), e = (int)sym_concretize(sym_u64("exponent", 0, TIER_THOROUGH ? 7 : 2)); int k = a + d + e;
  if (!TIER_THOROUGH && e) e = 1 + (a + d * 2 + e) % 7;
  scale(mk("factor", a, d, e, k == 1 ? 0 : k % 3), mk("offset", 1, k % 5 == 2 ? 1 : 0, 0, k == 1 ? 0 : k % 2), 1 + k % 20, k % 2);
}
extern "C" void offset() {
  int a = (int)sym_concretize(sym_u64("digits", 1, 4)), d = (int)sym_concretize(sym_u64("decimals", 0, TIER_THOROUGH ? 12 : 10)), e = (int)sym_concretize(sym_u64("exponent", 0, TIER_THOROUGH ? 7 : 2)); int k = a + d + e;
  if (!TIER_THOROUGH && e) e = 1 + (a + d * 2 + e) % 7;
  if (a + d + e == 1) k = 0;
  Num one = {k % 3 == 0 ? "1" : k % 3 == 1 ? "2" : "0.5", k % 3 == 0 ? 1.0 : k % 3 == 1 ? 2.0 : 0.5, k % 3 == 2, false};
  scale(one, mk("offset", a, d, e, k % 3), 1 + k % 20, k % 2);
}
// unit and receivers
extern "C" void text() {
  int n = (int)sym_concretize(sym_u64("unit length", 0, TIER_THOROUGH ? 8 : 5)), k = (int)sym_concretize(sym_u64("receivers", 1, 3)); S u((size_t)n, 'x');
  for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)sym_u64(("unit#" + num(i)).c_str(), 1, 255); sym_assume((c != '"') & (c != '\n')); u[(size_t)i] = (char)c; }
  std::vector<S> rc; S r; for (int i = 0; i < k; i++) { rc.push_back(symident("receiver" + num(i), 1 + (i + n) % 3, 0)); r += (i ? (n + i) % 3 == 0 ? "," : (n + i) % 3 == 1 ? ", " : " , " : "") + rc.back(); }
  DbcScanner sc; size_t c; auto* s = scan(sc, " SG_ Sig : 8|5@1+ (2,-3) [0|0] \"" + u + "\" " + r + "\n SG_ Two : 16|8@1+ (1,0) [0|0] \"V\" N9\n", c);
  sym_assert(c == 2, "both signals are kept"); fields(s, "Sig", 8, 5, false, false, u, rc); sym_assert(s->Factor == 2 && s->Offset == -3, "scaling"); fields(&sc.dblist.msgs[0]->Signals[1], "Two", 16, 8, false, false, "V", {"N9"}); sym_cover("text");
}
// units which contain delimiters of the line
extern "C" void delim() {
  int k = (int)sym_concretize(sym_u64("unit", 0, 9)); static const char* U[] = {" : ", "a : b : c", "1|2@1+ (3,4)", " SG_ X : 0|1@1+ (1,0) [0|0] ", "BO_ 1 M: 8 N", "", ",", "N5,N6", "\t:\t", "[1|2]"};
  uint64_t st, len; S a = symdec("start", 2, st), b = symdec("length", 1, len); sym_assume(len > 0); S v = symident("tail", 2);
  DbcScanner sc; size_t c; auto* s = scan(sc, " SG_ Sig : " + a + "|" + b + "@1+ (1,0) [0|0] \"" + U[k] + v + "\" N2\n", c); sym_assert(c == 1, "one signal"); fields(s, "Sig", st, len, false, false, U[k] + v, {"N2"}); sym_cover("delimiters");
}
