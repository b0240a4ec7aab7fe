// C25: every build configuration of the driver compiles and codes the same values.
#include "layout.h"
static const char* OPT[] = {"DRV_USE_BITS_SIGNAL", "DRV_USE_DIAG_MONITORS", "DRV_USE_MONO_FMON", "DRV_USE_SIGFLOAT", "DRV_USE_CANSTRUCT", "DRV_AUTO_ROLL", "DRV_AUTO_CSM", "__DEF_DRV__"};
static std::vector<Lay> layout(int v, int& dlc) {
  if (v == 0) { dlc = 8; return {{0, 4, false, false, "Roll", "1,0", false}, {56, 8, false, false, "Csm", "1,0", false}, {15, 12, true, true, "Xs", "2,-5", true}, {28, 6, false, false, "Yf", "0.5,-1", true}, {36, 1, false, false, "Wb", "1,0", false}, {37, 7, false, true, "Vs", "1,0", false}, {44, 12, false, true, "Us", "1,0", false}}; }
  if (v == 1) { dlc = 3; return {{4, 4, true, false, "Csm", "1,0", false}, {5, 3, false, false, "Roll", "1,0", false}, {10, 5, false, true, "Vs", "3,1", true}, {23, 1, true, true, "Wb", "1,0", false}, {16, 7, false, false, "Un", "1,0", false}}; }
  if (v == 2) { dlc = 64; return {{100, 40, false, true, "Zl", "1,0", false}, {151, 64, true, false, "Al", "1,0", false}, {302, 7, true, false, "Csm", "1,0", false}, {311, 17, true, false, "Roll", "1,0", false}, {440, 33, false, false, "Ql", "7,-9", true}, {505, 3, false, true, "Ef", "2.5,1", true}}; }
  dlc = 8; return {{0, 64, false, true, "Al", "1,0", false}};
}
// switches an option on as a user does: by uncommenting its line in the configuration header
static S uncomment(const S& t, const S& opt) {
  S key = "#define " + opt; size_t p = 0; for (;; p++) { p = t.find(key, p); sym_assert(p != S::npos, "configuration header offers the option"); if (p == S::npos) return t; char c = t[p + key.size()]; if (!(c == '_' || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'))) break; }
  size_t b = t.rfind('\n', p) + 1, e = t.find('\n', p); S l = t.substr(b, e - b); sym_assert(l.compare(0, 2, "/*") == 0 || l.compare(0, 2, "//") == 0, "option is off by default"); return t.substr(0, b) + key + t.substr(e);
}
extern "C" void harness() {
  int o = (int)sym_concretize(sym_u64("options", 0, 255)), v = (int)sym_concretize(sym_u64("message", 0, TIER_THOROUGH ? 3 : 1)); if ((o & 4) && !(o & 2)) return; if (!TIER_THOROUGH) v = v * 2 + (o ^ o >> 2 ^ o >> 5) % 2;
  int dlc; auto ls = layout(v, dlc); bool ext = v & 1, marks = v != 3; S idt = ext ? "2147484000" : "352"; uint64_t id = 352; S d = "VERSION \"1.2\"\n\nBU_: N1 N2\n\nBO_ " + idt + " M1: " + num(dlc) + " N1\n"; for (auto& l : ls) d += sigline(l);
  d += "\nBO_ 1999 Other: 8 N2\n SG_ O : 0|8@1+ (1,0) [0|0] \"\" N1\n\nBO_ 5 Empty: 8 N2\n\n"; if (marks) d += "CM_ SG_ " + idt + " Roll \"<RollingCounter>\";\nCM_ SG_ " + idt + " Csm \"<Checksum:XOR8:3>\";\n"; gen(d);
  bool cfg = (o ^ o >> 1 ^ o >> 4 ^ v) & 1; S fl, ch = get("out/conf/drv-config.h"); for (int i = 0; i < 8; i++) if (o >> i & 1) { if (cfg && i < 7) ch = uncomment(ch, OPT[i]); else fl += S(" -D") + OPT[i]; }
  S conf = "#pragma once\n" + ctypes(S(WIDE) + "typedef double sigfloat_t;\ntypedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;\nenum { XOR8 = 5 };\nextern uint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n");
  ccdriver("drv"); ccadd("conf/drv-config.h", ch); ccadd("conf/dbccodeconf.h", conf);
  for (const char* f : {"lib/drv.c", "usr/drv-fmon.c", "butl/drv-binutil.c"}) sym_assert(sym_cc_compile(f, (CCINC + fl).c_str()) != 0, "generated source compiles alone");
  ccadd("hdr.cpp", "#include \"drv-binutil.h\"\nstruct Own : drv_rx_t { uint32_t get(const uint8_t* d, uint32_t id, uint8_t n) { return drv_Receive(this, d, id, n); } };\nuint32_t use(const uint8_t* d) { Own o; return o.get(d, 1, 1); }\n"); sym_assert(sym_cc_compile("hdr.cpp;lib/drv.c;usr/drv-fmon.c;butl/drv-binutil.c", (CCINC + fl).c_str()) != 0, "generated headers serve a C++ program"); // (linked, so with C names)
  S sh = "#include \"lib/drv.c\"\n#include \"usr/drv-fmon.c\"\n#include \"butl/drv-binutil.c\"\nuint8_t hv; void set_hash(uint8_t v) { hv = v; }\nuint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { return hv; }\n" + size_shim("M1"); for (size_t i = 0; i < ls.size(); i++) sh += field_shim("M1", raw(ls[i]), num(i));
  sh += o & 16 ? "uint32_t pack(M1_t* m, uint8_t* d, uint8_t* l, uint8_t* e) { __CoderDbcCanFrame_t__ f; for (int i = 0; i < 64; i++) f.Data[i] = d[i]; uint32_t r = Pack_M1_drv(m, &f); for (int i = 0; i < 64; i++) d[i] = f.Data[i]; *l = f.DLC; *e = f.IDE; return r; }\n" : "uint32_t pack(M1_t* m, uint8_t* d, uint8_t* l, uint8_t* e) { return Pack_M1_drv(m, d, l, e); }\n";
  sh += o & 128 ? "uint32_t recv(const uint8_t* d, uint32_t id, uint8_t n) { return drv_Receive(&drv_rx, d, id, n); }\nM1_t* msg(void) { return &drv_rx.M1; }\n" : "drv_rx_t mine;\nuint32_t recv(const uint8_t* d, uint32_t id, uint8_t n) { return drv_Receive(&mine, d, id, n); }\nM1_t* msg(void) { return &mine.M1; }\n";
  sym_cc_reset(); ccdriver("drv"); ccadd("conf/drv-config.h", ch); ccadd("conf/dbccodeconf.h", conf); ccadd("shim.c", sh);
  uint64_t h = sym_cc_compile("shim.c", (CCINC + fl).c_str()); sym_assert(h != 0, "generated driver compiles"); unsigned char *p = (unsigned char*)calloc(64, 1), *q = (unsigned char*)calloc(64, 1), *want = (unsigned char*)calloc(64, 1); sym_bytes(p, dlc, "p", 0, 255); uint8_t hv = (uint8_t)sym_u64("hash", 0, 255); sym_as<void (*)(uint8_t)>(h, "set_hash")(hv);
  sym_assert(sym_as<uint32_t (*)(const uint8_t*, uint32_t, uint8_t)>(h, "recv")(p, (uint32_t)id, (uint8_t)dlc) == id, "received"); void* m = sym_as<void* (*)()>(h, "msg")();
  for (size_t i = 0; i < ls.size(); i++) { uint64_t x = refread(ls[i], p); sym_assert(sym_as<uint64_t (*)(void*)>(h, ("get_" + num(i)).c_str())(m) == x, "same signal value in every configuration"); if ((o & 32) && ls[i].name == "Roll") x++; if ((o & 64) && ls[i].name == "Csm") x = hv; refwrite(ls[i], want, x); }
  memset(q, 0x77, 64); memset(want + dlc, 0x77, (size_t)(64 - dlc)); uint8_t l = 0xEE, e = 0xEE; sym_assert(sym_as<uint32_t (*)(void*, uint8_t*, uint8_t*, uint8_t*)>(h, "pack")(m, q, &l, &e) == id, "pack returns the identifier"); sym_assert((l == dlc) & (e == ext), "length and flag"); for (int i = 0; i < 64; i++) sym_assert(q[i] == want[i], "same payload in every configuration");
  for (int i = 0; i < 8; i++) if (o >> i & 1) sym_cover(OPT[i]); sym_cover(cfg ? "configuration header" : "compiler options");
}
