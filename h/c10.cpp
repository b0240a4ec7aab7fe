// C10: published constants equal the DBC's.
#include "lib.h"
#include "parser/dbcscanner.h"
static S consts(const S& m, bool cyc) {
  S s = "unsigned long long " + m + "_id(void) { return " + m + "_CANID; }\nunsigned " + m + "_dlc(void) { return " + m + "_DLC; }\nunsigned " + m + "_ide(void) { return " + m + "_IDE; }\n";
  s += "#ifdef " + m + "_CYC\nint " + m + "_hascyc(void) { return 1; }\nlong long " + m + "_cyc(void) { return " + m + "_CYC; }\n#else\nint " + m + "_hascyc(void) { return 0; }\nlong long " + m + "_cyc(void) { return -1; }\n#endif\n";
  (void)cyc; return s;
}
static const char* VERS = "unsigned ver_hi(void) { return VER_DRV_MAJ; }\nunsigned ver_lo(void) { return VER_DRV_MIN; }\nunsigned maxdlc(void) { return DRV_MAX_DLC_VALUE; }\nunsigned vd(unsigned x) { return DRV_VALIDATE_DLC(x); }\n";
static uint64_t build(const S& dbc, const S& shim) {
  gen(dbc); ccdriver("drv"); ccadd("shim.c", "#include \"lib/drv.c\"\n#include \"butl/drv-binutil.c\"\n#include \"usr/drv-fmon.c\"\n" + shim + VERS);
  uint64_t h = sym_cc_compile("shim.c", CCINC); sym_assert(h != 0, "generated driver compiles"); return h;
}
static uint64_t k(uint64_t h, const S& n) { return sym_as<uint64_t (*)()>(h, n.c_str())(); }
static uint32_t k32(uint64_t h, const S& n) { return sym_as<uint32_t (*)()>(h, n.c_str())(); }
static const char* SIGA = " SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n";
static const int DL[] = {1, 7, 8, 9, 12, 24, 48, 63, 64, 2, 3, 4, 5, 6, 10, 11, 16, 20, 32};
// identifiers, data lengths, flags of two messages, cycle time of one
extern "C" void ids() {
  int n = (int)sym_concretize(sym_u64("digits", 1, 9)); int e = (int)sym_concretize(sym_u64("empty", 0, 1));
  bool ext = (n + e) % 2, extb = n / 2 % 2; uint64_t a, b; S ta = symid("ida", ext, n, a), tb = symid("idb", extb, 1 + n * 5 % 9, b);
  sym_assume(a != b);
  int da = DL[n], db = DL[(n * 3 + 4) % 19];
  S d = "VERSION \"1.2\"\n\nBO_ " + ta + " MA: " + num(da) + " N1\n" + (e ? "" : SIGA) + "\nBO_ " + tb + " MB: " + num(db) + " N1\n" + SIGA + "\n";
  // cycle times, in either order, for either message
  int cd = 1 + (n + 2 * e) % 9; uint64_t cy; S tc = symdec("cyc", cd, cy); bool onb = sym_concretize(sym_u64("cycle of b", 0, 1));
  d += "BA_DEF_ BO_ \"GenMsgCycleTime\" INT 0 65535;\nBA_DEF_DEF_ \"GenMsgCycleTime\" 0;\nBA_ \"GenMsgCycleTime\" BO_ " + (onb ? tb : ta) + " " + tc + ";\n";
  uint64_t h = build(d, consts("MA", true) + consts("MB", true));
  sym_assert(k(h, "MA_id") == a, "identifier constant"); sym_assert(k(h, "MB_id") == b, "identifier constant of second message");
  sym_assert(k32(h, "MA_dlc") == (unsigned)da, "data length constant"); sym_assert(k32(h, "MB_dlc") == (unsigned)db, "data length constant of second message");
  sym_assert(k32(h, "MA_ide") == ext, "extended flag constant"); sym_assert(k32(h, "MB_ide") == extb, "extended flag constant of second message");
  S cm = onb ? "MB" : "MA", co = onb ? "MA" : "MB";
  if (k32(h, cm + "_hascyc")) sym_assert(k(h, cm + "_cyc") == cy, "cycle time constant"); else sym_assert(cy == 0, "cycle time is published");
  sym_assert(!k32(h, co + "_hascyc"), "no cycle time where none is given");
  sym_assert(k32(h, "maxdlc") == (unsigned)(da > db ? da : db), "maximum data length");
  sym_assert(k32(h, "ver_hi") == 1 && k32(h, "ver_lo") == 2, "version numbers");
  sym_cover("ids");
}
// version numbers, maximum data length over three messages in any order
extern "C" void vers() {
  int nh = (int)sym_concretize(sym_u64("hi digits", 1, 10)), c = (int)sym_concretize(sym_u64("order", 0, 5)), nl = 1 + (nh + c * 3) % 10;
  uint64_t hi, lo; S th = symdec("hi", nh, hi, 0xFFFFFFFF), tl = symdec("lo", nl, lo, 0xFFFFFFFF);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int dl[3] = {DL[nh], DL[nh + 1], DL[nh + 7]}; unsigned mx = 0; S d = "VERSION \"" + th + "." + tl + "\"\n\n";
  for (int i = 0; i < 3; i++) { int q = P[c][i]; mx = (unsigned)dl[q] > mx ? dl[q] : mx; d += "BO_ " + num(100 + q) + " M" + num(q) + ": " + num(dl[q]) + " N1\n" + ((c + q) % 3 ? SIGA : "") + "\n"; }
  uint64_t h = build(d, "");
  sym_assert(k32(h, "ver_hi") == hi, "major version"); sym_assert(k32(h, "ver_lo") == lo, "minor version");
  sym_assert(k32(h, "maxdlc") == mx, "maximum data length"); 
  uint8_t x = (uint8_t)sym_u64("x", 0, 255); sym_assert(sym_as<unsigned (*)(unsigned)>(h, "vd")(x) == (x <= mx ? x : mx), "length limit");
  sym_cover("vers");
}
// every data length of three messages: maximum found by the scanner, also on a second file with the same scanner
extern "C" void maxdlc() {
  DbcScanner sc; bool second = sym_concretize(sym_u64("second file", 0, 1));
  if (second) { std::stringstream s("VERSION \"7.8\"\nBO_ 5 Old: 64 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n"); sc.TrimDbcText(s); }
  S d = "VERSION \"1.2\"\n"; uint64_t v[3], mx = 0; int empt = (int)sym_concretize(sym_u64("empty", 0, 3));
  for (int i = 0; i < 3; i++) {
    S t = symdec("dlc" + num(i), 1 + (int)sym_concretize(sym_u64(("dd" + num(i)).c_str(), 0, 1)), v[i], 64); sym_assume(v[i] >= 1);
    mx = v[i] > mx ? v[i] : mx; d += "\nBO_ " + num(100 - i) + " M" + num(i) + ": " + t + " N1\n" + (empt == i ? "" : SIGA);
  }
  std::stringstream s(d); sc.TrimDbcText(s);
  sym_assert(sc.dblist.maxDlcValue == mx, "maximum data length of the scanner");
  sym_assert(sc.dblist.msgs.size() == 3, "all messages kept");
  for (int i = 0; i < 3; i++) sym_assert(sc.dblist.msgs[i]->DLC == v[i], "data length of the message");
  sym_cover("maxdlc");
}
