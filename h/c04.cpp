// C04: generated unpack recovers exactly the payload bits the DBC assigns.
#include "layout.h"
static void check(const std::vector<Lay>& ls, int dlc, bool defconf) {
  S d = "VERSION \"1.2\"\n\nBO_ 100 M1: " + num(dlc) + " N1\n";
  for (auto& l : ls) d += sigline(l);
  d += "\n";
  gen(d);
  S shim = "#include \"lib/drv.c\"\n" + size_shim("M1");
  for (size_t i = 0; i < ls.size(); i++) shim += field_shim("M1", raw(ls[i]), num(i));
  unsigned char* p = (unsigned char*)malloc(dlc); sym_bytes(p, dlc, "d", 0, 255);
  for (int cfg = 0; cfg < 3; cfg++) {
    if ((cfg == 2) != defconf) continue;
    sym_cc_reset(); ccdriver("drv");
    if (cfg != 2) ccadd("conf/dbccodeconf.h", ctypes(WIDE));
    ccadd("shim.c", shim);
    uint64_t h = sym_cc_compile("shim.c", cfg == 1 ? CCINC " -DDRV_USE_BITS_SIGNAL" : CCINC);
    sym_assert(h != 0, "generated driver compiles");
    int sz = sym_as<int (*)()>(h, "sizeof_M1")();
    void* m = malloc(sz); memset(m, 0xA5, sz);
    sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M1_drv")(m, p, (uint8_t)dlc);
    for (size_t i = 0; i < ls.size(); i++) {
      uint64_t want = refread(ls[i], p);
      S id = S("unpacked value: ") + (ls[i].motorola ? "motorola " : "intel ") + (ls[i].sgn ? "signed " : "unsigned ") + "start " + num(ls[i].start) + " len " + num(ls[i].len) + " dlc " + num(dlc) + (cfg == 1 ? " bitfields" : cfg == 2 ? " default types" : "");
      sym_assert(sym_as<uint64_t (*)(void*)>(h, ("get_" + num(i)).c_str())(m) == want, id.c_str());
    }
  }
}
static void add(std::vector<Lay>& v, int start, int len, bool mot, bool sgn, int dlc, bool scale) {
  Lay l{start, len, mot, sgn, S(mot ? "B" : "L") + (sgn ? "s" : "u") + num(len), "1,0", false};
  if (scale && len % 3 == 1) { l.fo = "2,5"; l.scaled = true; }
  if (scale && len % 3 == 2) { l.fo = "0.5,-1"; l.scaled = true; }
  if (fits(l, dlc)) v.push_back(l);
}
static const int SEL[] = {1, 2, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33, 40, 47, 48, 57, 63, 64};
// every length, order and sign at every bit offset in the middle of a frame
extern "C" void mid() {
  int s = (int)sym_concretize(sym_u64("start", 64, 71)); bool half = sym_concretize(sym_u64("half", 0, 1));
  std::vector<Lay> v;
  for (int l = 1; l <= 64; l++) for (int o = 0; o < 2; o++) { bool a = ((l + o + half) & 1); add(v, s, l, o, a, 20, true); }
  check(v, 20, false);
  // with the default helper types, signed signals up to 31 bits are supported (as the generated comment says)
  if (half) { for (size_t i = v.size(); i--;) if (v[i].sgn && v[i].len > 31) v[i].sgn = false; check(v, 20, true); }
  sym_cover("mid");
}
// every layout of a classic frame: every start bit, every fitting length, both orders (sign alternates; both in thorough)
extern "C" void classic() {
  int s = (int)sym_concretize(sym_u64("start", 0, 63)); bool half = TIER_THOROUGH ? sym_concretize(sym_u64("half", 0, 1)) : 0;
  std::vector<Lay> v;
  for (int l = 1; l <= 64; l++) for (int o = 0; o < 2; o++) add(v, s, l, o, (l + o + s / 8 + half) & 1, 8, false);
  check(v, 8, false); sym_cover("classic");
}
// frames of 64 bytes
extern "C" void fd() {
  int s;
  std::vector<Lay> v;
  if (TIER_THOROUGH) { s = (int)sym_concretize(sym_u64("start", 0, 511)); for (int l = 1; l <= 64; l++) for (int o = 0; o < 2; o++) add(v, s, l, o, (l + o + s / 8) & 1, 64, false); }
  else { s = (int)sym_concretize(sym_u64("start", 440, 511)); for (int l : SEL) for (int o = 0; o < 2; o++) add(v, s, l, o, (l + o + s / 8) & 1, 64, false); }
  check(v, 64, false); sym_cover("fd");
}
// the last fitting layouts of every data length
extern "C" void dlcs() {
  int dlc = (int)sym_concretize(sym_u64("dlc", 1, 64));
  std::vector<Lay> v;
  for (int l : SEL) for (int o = 0; o < 2; o++) {
    Lay best{-1, l, (bool)o, (bool)((l + dlc) & 1), S(o ? "B" : "L") + num(l), "1,0", false};
    for (int s = dlc * 8 - 1; s >= 0; s--) { Lay t = best; t.start = s; if (fits(t, dlc)) { best = t; break; } }
    if (best.start >= 0) v.push_back(best);
  }
  check(v, dlc, false); sym_cover("dlcs");
}
