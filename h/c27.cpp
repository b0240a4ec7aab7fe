// C27: files generated from different DBC versions do not compile together.
#include "lib.h"
static S dbc(const S& hi, const S& lo, int form, bool more) {
  static const char* F[][3] = {{"VERSION \"", ".", "\""}, {"version ", " . ", ""}, {"VERSION \"", "_rc", "\""}};
  return S(F[form][0]) + hi + F[form][1] + lo + F[form][2] + "\n\nBU_: N1 N2\n\nBO_ 100 M: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n" + (more ? " SG_ B : 8|8@1+ (2,0) [0|0] \"\" N2\n" : "") + "\nBO_ 101 K: 2 N2\n SG_ T : 0|8@1- (1,0) [0|0] \"\" N1\n\n";
}
static void tool(const S& text, const S& out, const S& drv, bool nodes) { put("in.dbc", text); std::vector<S> a = {"-dbc", "in.dbc", "-out", out, "-drvname", drv, "-rw"}; if (nodes) a.push_back("-nodeutils"); run(a); }
extern "C" void harness() {
  int c = (int)sym_concretize(sym_u64("digits", 0, TIER_THOROUGH ? 99 : 19)), mode = (int)sym_concretize(sym_u64("mixed", 0, 5)); // which files come from the other version
  static const int D[] = {1, 2, 3, 1, 5, 10, 4, 9, 6, 2}; int n[4] = {D[c % 10], D[(c / 10 + c * 3) % 10], D[(c + c / 7) % 10], D[(c / 10 + c * 3 + c % 3) % 10]}; if (c % 4 == 0) { n[2] = n[0]; n[3] = n[1]; }
  uint64_t v[4]; S t[4]; static const char* N[] = {"hi", "lo", "other hi", "other lo"}; for (int i = 0; i < 4; i++) t[i] = symdec(N[i], n[i], v[i], 0xFFFFFFFF);
  S drv = c % 3 == 1 ? "Drv" : "drv"; bool nodes = mode >= 4; S u = nodes ? "n1_drv" : "drv";
  tool(dbc(t[0], t[1], c % 3, false), "out", drv, nodes); tool(dbc(t[2], t[3], (c + c / 3) % 3, c % 2), "other", drv, nodes);
  static const char* W[] = {"", "o", "", "o", "", "o"}; bool o = *W[mode]; S a = o ? "other" : "out", b = o ? "out" : "other"; // header of a, source of b
  for (const char* f : {"lib/drv.h", "lib/drv.c", "lib/drv-fmon.h", "usr/drv-fmon.c", "conf/drv-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h"}) ccadd(f, get(a + "/" + f));
  S src = mode < 2 ? "lib/drv.c" : "butl/" + u + "-binutil.c"; S h = "butl/" + u + "-binutil.h"; ccadd(h, get((mode < 4 ? b : a) + "/" + h)); ccadd(src, get(b + "/" + src));
  bool same = (v[0] == v[2]) & (v[1] == v[3]); bool ok = sym_cc_compile(src.c_str(), CCINC) != 0;
  if (ok) { sym_assert(same, mode < 2 ? "driver source of another version does not compile" : "utility of another version does not compile"); sym_cover("same version"); }
  else { if (c % 2 == 0) sym_assert(!same, "source of the same version compiles"); sym_cover("other version"); }
}
