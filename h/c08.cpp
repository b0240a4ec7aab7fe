// C08: a signal that leaves its frame makes the generated driver refuse to compile; a fitting one does not.
#include "layout.h"
static bool compiles(const S& dbc, const char* opt) {
  gen(dbc); sym_cc_reset(); ccdriver("drv");
  if (!isfile("out/lib/drv.c") || !isfile("out/lib/drv.h")) sym_fail("generation finishes and writes the driver");
  ccadd("shim.c", "#include \"lib/drv.c\"\n#include \"butl/drv-binutil.c\"\n");
  return sym_cc_compile("shim.c", (S(CCINC) + opt).c_str()) != 0;
}
static S dbc(const std::vector<Lay>& ls, int dlc, int pos) {
  S d = "VERSION \"1.2\"\n"; S o = "\nBO_ 7 Other: 8 N1\n SG_ Oa : 0|8@1+ (1,0) [0|0] \"\" N2\n SG_ Ob : 15|16@0+ (1,0) [0|0] \"\" N2\n";
  if (pos & 1) d += o;
  d += "\nBO_ 100 M1: " + num(dlc) + " N1\n";
  if ((pos & 2) && dlc > 1) d += " SG_ Pre : 0|3@1+ (1,0) [0|0] \"\" N2\n";
  for (auto& l : ls) d += sigline(l);
  if (!(pos & 1)) d += o;
  return d + "\n";
}
static const char* SC[] = {"1,0", "2,5", "0.5,-1"};
static void misfit(int dlc, int s, bool mot, int kind, int n) {
  // kind 0: shortest length that does not fit, 1: 64 bits, 2: between
  int l = 1; Lay t{s, 1, mot, (bool)((s + n) & 1), "X", SC[(s + dlc + n) % 3], false};
  while (l <= 64) { t.len = l; if (!fits(t, dlc)) break; l++; }
  if (l > 64) return; // every length fits here
  if (kind == 1) l = 64; else if (kind == 2) l = (l + 64) / 2;
  t.len = l;
  S w = S(mot ? "motorola" : "intel") + " start " + num(s) + " len " + num(l) + " dlc " + num(dlc);
  sym_assert(!compiles(dbc({t}, dlc, s + kind), (s + kind) % 5 == 3 ? " -DDRV_USE_BITS_SIGNAL" : (s + kind) % 5 == 1 ? " -DDRV_USE_DIAG_MONITORS" : ""), ("driver of a signal outside its frame does not compile: " + w).c_str());
  sym_cover("misfit");
}
extern "C" void small() {
  static const int D[] = {1, 2, 8};
  int dlc = D[sym_concretize(sym_u64("dlc", 0, 2))], s = (int)sym_concretize(sym_u64("start", 0, TIER_THOROUGH ? 511 : 71));
  if (!TIER_THOROUGH && s > dlc * 8 + 8) { s = s * 7 + 14; } // up to bit 511
  bool o = sym_concretize(sym_u64("order", 0, 1)); int k = (int)sym_concretize(sym_u64("kind", 0, dlc == 8 && !TIER_THOROUGH ? 0 : 2));
  if (dlc == 8 && !TIER_THOROUGH) k = s % 3 == 2 ? 1 : s % 7 == 1 ? 2 : 0;
  misfit(dlc, s, o, k, 0);
}
extern "C" void large() {
  int b = (int)sym_concretize(sym_u64("start", 0, TIER_THOROUGH ? 511 : 79)); bool o = sym_concretize(sym_u64("order", 0, 1));
  misfit(64, TIER_THOROUGH ? b : 432 + b, o, 0, 1);
  if (TIER_THOROUGH) misfit(64, b, o, 1, 0);
}
extern "C" void dlcs() { // every data length: signals at its end
  int dlc = (int)sym_concretize(sym_u64("dlc", 1, 64)), i = (int)sym_concretize(sym_u64("where", 0, TIER_THOROUGH ? 8 : 2)); bool o = sym_concretize(sym_u64("order", 0, 1));
  int s = dlc * 8 - 1 - i * (TIER_THOROUGH ? 1 : 3); if (i == 2 && dlc < 64) s = dlc * 8 + dlc % 8;
  misfit(dlc, s, o, dlc % 2, i);
}
// signals that fit, as long as possible: nothing is rejected
extern "C" void fit() {
  int dlc = (int)sym_concretize(sym_u64("dlc", 1, 64)); std::vector<Lay> v;
  for (int s = 0; s < dlc * 8; s++) {
    if (dlc > 8 && s % 8 && s < dlc * 8 - 12) continue;
    for (int o = 0; o < 2; o++) {
      if (dlc > 8 && !TIER_THOROUGH && (s / 8 + o) % 3) if (s < dlc * 8 - 80) continue;
      Lay t{s, 64, (bool)o, (bool)((s / 8) & 1), S(o ? "B" : "L") + num(s), SC[s % 3], false};
      while (!fits(t, dlc)) t.len--;
      v.push_back(t);
    }
  }
  sym_assert(compiles(dbc(v, dlc, dlc), ""), ("driver of fitting signals compiles: dlc " + num(dlc)).c_str());
  sym_cover("fit");
}
