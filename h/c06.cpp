// C06: frame-structure and raw-array variants of pack report the same frame.
#include "layout.h"
static const char* FRAME = "typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[80]; } __CoderDbcCanFrame_t__;\n";
extern "C" void harness() {
  int dlc = (int)sym_concretize(sym_u64("dlc", 1, 64)); bool ext = sym_concretize(sym_u64("ext", 0, 1));
  bool marks = sym_concretize(sym_u64("marks", 0, 1)); // rolling counter and checksum in the message
  uint64_t id; S idt = symid("id", ext, 3 + dlc % 6, id);
  std::vector<Lay> ls = {{0, 4, false, false, "R", "1,0", false}, {(dlc - 1) * 8 + 4, 4, false, false, "C", "1,0", false}};
  if (dlc > 1) ls.push_back({dlc * 4 / 8 * 8 + 3, dlc > 4 ? 12 : 1, true, true, "X", "2,3", true});
  if (dlc > 2) ls.push_back({8, 5, false, false, "Y", "1,0", false});
  if (dlc > 16) ls.push_back({80, 40, false, true, "Z", "0.5,1", true});
  S d = "VERSION \"1.2\"\n\nBO_ 1999 Other: " + num(dlc > 8 ? 8 : 64) + " N1\n SG_ O : 0|8@1+ (1,0) [0|0] \"\" N2\n\nBO_ " + idt + " M1: " + num(dlc) + " N1\n";
  for (auto& l : ls) d += sigline(l);
  d += "\n";
  sym_assume(id != 1999);
  if (marks) d += "CM_ SG_ " + idt + " R \"<RollingCounter>\";\nCM_ SG_ " + idt + " C \"<Checksum:XOR8:3>\";\n";
  gen(d);
  uint64_t h[2]; S fl = marks ? " -DDRV_AUTO_ROLL -DDRV_AUTO_CSM" : "";
  S conf = ctypes(S(WIDE) + FRAME + "typedef double sigfloat_t;\nenum { XOR8 = 5 };\nextern uint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n");
  for (int v = 0; v < 2; v++) {
    sym_cc_reset(); ccdriver("drv"); ccadd("conf/dbccodeconf.h", conf);
    S shim = "#include \"lib/drv.c\"\n" + size_shim("M1") + "uint8_t hv; void set_hash(uint8_t v) { hv = v; }\nuint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { return hv; }\n"
      "unsigned k_dlc(void) { return M1_DLC; }\nunsigned k_id(void) { return M1_CANID; }\nunsigned k_ide(void) { return M1_IDE; }\n";
    if (v) shim += "uint32_t pack(M1_t* m, uint8_t* d, uint8_t* l, uint8_t* i, uint32_t* id) { __CoderDbcCanFrame_t__ f; for (int k = 0; k < 80; k++) f.Data[k] = d[k]; f.MsgId = 0xEEEEEEEE; f.DLC = f.IDE = 0xEE; uint32_t r = Pack_M1_drv(m, &f); for (int k = 0; k < 80; k++) d[k] = f.Data[k]; *l = f.DLC; *i = f.IDE; *id = f.MsgId; return r; }\n";
    else shim += "uint32_t pack(M1_t* m, uint8_t* d, uint8_t* l, uint8_t* i, uint32_t* id) { uint32_t r = Pack_M1_drv(m, d, l, i); *id = r; return r; }\n";
    for (size_t i = 0; i < ls.size(); i++) shim += field_shim("M1", raw(ls[i]), num(i));
    ccadd("shim.c", shim);
    h[v] = sym_cc_compile("shim.c", (CCINC + fl + (v ? " -DDRV_USE_CANSTRUCT" : "")).c_str());
    sym_assert(h[v] != 0, v ? "frame variant compiles" : "array variant compiles");
  }
  unsigned char* b[2]; unsigned char old[80]; sym_bytes(old, 80, "old", 0, 255);
  uint64_t fv[8]; for (size_t i = 0; i < ls.size(); i++) fv[i] = sym_u64(("v" + num(i)).c_str(), 0, ~0ull);
  uint8_t hv = (uint8_t)sym_u64("hash", 0, 255); uint64_t after[2][8];
  for (int v = 0; v < 2; v++) {
    b[v] = (unsigned char*)malloc(80); memcpy(b[v], old, 80);
    int sz = sym_as<int (*)()>(h[v], "sizeof_M1")(); void* m = malloc(sz); memset(m, 0, sz);
    for (size_t i = 0; i < ls.size(); i++) sym_as<void (*)(void*, uint64_t)>(h[v], ("set_" + num(i)).c_str())(m, fv[i]);
    sym_as<void (*)(uint8_t)>(h[v], "set_hash")(hv);
    uint8_t len = 0xEE, ide = 0xEE; uint32_t mid = 0;
    uint32_t r = sym_as<uint32_t (*)(void*, uint8_t*, uint8_t*, uint8_t*, uint32_t*)>(h[v], "pack")(m, b[v], &len, &ide, &mid);
    S w = v ? " (frame variant)" : " (array variant)";
    sym_assert(len == dlc, ("reported data length" + w).c_str());
    sym_assert(ide == ext, ("reported standard/extended flag" + w).c_str());
    sym_assert(r == id, ("returned identifier" + w).c_str());
    sym_assert(mid == id, ("identifier stored in the frame" + w).c_str());
    for (int i = dlc; i < 80; i++) sym_assert(b[v][i] == old[i], ("byte behind the data length untouched" + w).c_str());
    for (size_t i = 0; i < ls.size(); i++) after[v][i] = sym_as<uint64_t (*)(void*)>(h[v], ("get_" + num(i)).c_str())(m);
  }
  for (int i = 0; i < dlc; i++) sym_assert(b[0][i] == b[1][i], "same payload from both variants");
  for (size_t i = 0; i < ls.size(); i++) sym_assert(after[0][i] == after[1][i], "same fields afterwards");
  sym_cover(ext ? "extended" : "standard"); sym_cover(marks ? "marked" : "unmarked");
}
