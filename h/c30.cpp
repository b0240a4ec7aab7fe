// C30: drivers with different names live together in one program, and a driver keeps no state of its own.
#include "layout.h"
static const char* OPT[] = {"_USE_BITS_SIGNAL", "_USE_DIAG_MONITORS", "_USE_MONO_FMON", "_USE_SIGFLOAT", "_USE_CANSTRUCT", "_AUTO_ROLL", "_AUTO_CSM"};
static const char* NAME[][2] = {{"drv", "drv2"}, {"a", "B"}, {"Engine", "engine_rx"}, {"x_config", "x"}, {"Ab", "b"}, {"n1", "N1_n1"}};
struct Drv { S name, lo, up, msg, dir, fl; std::vector<Lay> ls; int dlc, o, cyc, val; S idt; uint64_t id; bool ext, nodes; };
static S dbc(const Drv& d) {
  S t = "VERSION \"" + num(d.dlc) + "." + num(d.cyc) + "\"\n\nBU_: N1 N2\n\nBO_ " + d.idt + " " + d.msg + ": " + num(d.dlc) + " N1\n"; for (auto& l : d.ls) t += sigline(l);
  t += "\nBO_ 2047 Z" + d.msg + ": 1 N2\n SG_ Vs : 0|8@1+ (1,0) [0|0] \"\" N1\n\nCM_ SG_ " + d.idt + " Roll \"<RollingCounter>\";\nCM_ SG_ " + d.idt + " Csm \"<Checksum:XOR8:3>\";\nVAL_ " + d.idt + " Vs " + num(d.val) + " \"Full\" ;\nBA_ \"GenMsgCycleTime\" BO_ " + d.idt + " " + num(d.cyc) + ";\n"; return t;
}
static void tool(Drv& d) {
  put("in.dbc", dbc(d)); std::vector<S> a = {"-dbc", "in.dbc", "-out", d.dir, "-drvname", d.name, "-rw"}; if (d.nodes) a.push_back("-nodeutils"); run(a);
  for (int i = 0; i < 7; i++) if (d.o >> i & 1) d.fl += " -D" + d.up + OPT[i]; S b = d.nodes ? "n2_" + d.lo : d.lo; d.fl += " -D__DEF_" + upper(b) + "__";
  for (S f : {"lib/" + d.lo + ".h", "lib/" + d.lo + ".c", "lib/" + d.lo + "-fmon.h", "usr/" + d.lo + "-fmon.c", "conf/" + d.lo + "-config.h", S("inc/canmonitorutil.h"), "butl/" + b + "-binutil.h", "butl/" + b + "-binutil.c"}) ccadd(f, get(d.dir + "/" + f));
}
static S shim(const Drv& d, const S& t, bool head) {
  S b = d.nodes ? "n2_" + d.lo : d.lo, m = d.msg, s; if (head) s = "#include \"" + b + "-binutil.h\"\n";
  for (size_t i = 0; i < d.ls.size(); i++) s += field_shim(m, raw(d.ls[i]), t + num(i)); s += "int size_" + t + "(void) { return sizeof(" + m + "_t); }\n";
  s += "uint32_t unpack_" + t + "(" + m + "_t* m, const uint8_t* d, uint8_t n) { return Unpack_" + m + "_" + d.name + "(m, d, n); }\n";
  s += d.o & 16 ? "uint32_t pack_" + t + "(" + m + "_t* m, uint8_t* d, uint8_t* l, uint8_t* e) { __CoderDbcCanFrame_t__ f; for (int i = 0; i < 64; i++) f.Data[i] = d[i]; uint32_t r = Pack_" + m + "_" + d.name + "(m, &f); for (int i = 0; i < 64; i++) d[i] = f.Data[i]; *l = f.DLC; *e = f.IDE; return r; }\n" : "uint32_t pack_" + t + "(" + m + "_t* m, uint8_t* d, uint8_t* l, uint8_t* e) { return Pack_" + m + "_" + d.name + "(m, d, l, e); }\n";
  s += "uint32_t recv_" + t + "(const uint8_t* d, uint32_t id, uint8_t n) { return " + b + "_Receive(&" + b + "_rx, d, id, n); }\n" + m + "_t* msg_" + t + "(void) { return &" + b + "_rx." + m + "; }\n";
  s += "uint32_t fixed_" + t + "(int k) { return k == 0 ? " + m + "_CANID : k == 1 ? " + m + "_DLC : k == 2 ? " + m + "_CYC : k == 3 ? " + m + "_IDE : " + "Vs_" + m + "_Full" + "; }\n" + "int64_t conv_" + t + "(int64_t x) { return " + d.up + "_Xs_ro_fromS(x); }\nint64_t back_" + t + "(int64_t x) { return " + d.up + "_Xs_ro_toS(x); }\n"; return s;
}
typedef uint32_t (*Unpack)(void*, const uint8_t*, uint8_t); typedef uint32_t (*Pack)(void*, uint8_t*, uint8_t*, uint8_t*); typedef uint32_t (*Recv)(const uint8_t*, uint32_t, uint8_t);
static uint64_t H; static uint64_t field(const Drv& d, const S& t, void* m, size_t i) { return sym_as<uint64_t (*)(void*)>(H, ("get_" + t + num(i)).c_str())(m); }
static void check(const Drv& d, const S& t, void* m, const unsigned char* p, const char* why) { for (size_t i = 0; i < d.ls.size(); i++) sym_assert(field(d, t, m, i) == refread(d.ls[i], p), why); }
static void pack(const Drv& d, const S& t, void* m, const unsigned char* p, int rolled) {
  unsigned char *q = (unsigned char*)calloc(64, 1), *w = (unsigned char*)calloc(64, 1); uint8_t l = 0x99, e = 0x99; for (auto& s : d.ls) { uint64_t x = refread(s, p); if (s.name == "Roll" && (d.o & 32)) x += (uint64_t)rolled; if (s.name == "Csm" && (d.o & 64)) x = 0x5A; refwrite(s, w, x); }
  sym_assert(sym_as<Pack>(H, ("pack_" + t).c_str())(m, q, &l, &e) == d.id, "identifier of its own driver"); sym_assert((l == d.dlc) & (e == d.ext), "length and flag of its own driver"); for (int i = 0; i < d.dlc; i++) sym_assert(q[i] == w[i], "payload of its own driver");
}
extern "C" void harness() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 383 : 95)), mode = c % 4; const auto& N = NAME[(c / 4) % 6]; bool two = mode != 0;
  Drv A, B; A.name = N[0]; B.name = N[1]; A.msg = "M1"; B.msg = two ? "M2" : "M1"; A.dir = "one"; B.dir = (c / 3) % 2 ? "one" : "two"; A.dlc = 8; B.dlc = 6; A.cyc = 12; B.cyc = 3; A.val = 3; B.val = 9; A.nodes = c / 5 % 2; B.nodes = c / 7 % 2;
  A.o = (c * 37 + 11) & 127; B.o = (c * 53 + c / 8 + 96) & 127; switch (c / 24 % 4) { case 0: A.o = B.o = 127 - (c / 4 % 2); break; case 1: A.o |= 6; B.o |= 6; break; case 2: B.o = 127 & ~A.o; break; } for (Drv* d : {&A, &B}) { d->lo = lower(d->name); d->up = upper(d->name); d->ext = d == &B && c % 3 == 0; if (!(d->o & 2)) d->o &= ~4; d->idt = symid(d == &A ? "id" : "other id", d->ext, 3, d->id); sym_assume(d->id > 255); }
  A.ls = {{0, 4, false, false, "Roll", "1,0", false}, {56, 8, false, false, "Csm", "1,0", false}, {15, 12, true, true, "Xs", "2,-5", true}, {28, 6, false, false, "Yf", "0.5,-1", true}, {37, 7, false, true, "Vs", "1,0", false}};
  B.ls = {{4, 4, true, false, "Csm", "1,0", false}, {5, 3, false, false, "Roll", "1,0", false}, {10, 9, false, true, "Vs", "1,0", false}, {31, 15, true, false, "Xs", "7,100", true}, {40, 6, false, true, "Yf", "2.5,3", true}};
  tool(A); tool(B); S conf = "#pragma once\n" + ctypes(S(WIDE) + "typedef double sigfloat_t;\ntypedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;\nenum { XOR8 = 5 };\n#ifdef __cplusplus\nextern \"C\"\n#endif\nuint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n"); ccadd("conf/dbccodeconf.h", conf);
  S common = "#include <stdint.h>\nuint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { return 0x5A; }\n", list, x = mode == 3 ? ".cpp" : ".c";
  for (Drv* d : {&A, &B}) for (S f : {"lib/" + d->lo + ".c", "usr/" + d->lo + "-fmon.c", "butl/" + (d->nodes ? "n2_" + d->lo : d->lo) + "-binutil.c"}) list += f + ";";
  ccadd("common.c", common); list += "common.c";
  if (!two) { ccadd("sa.c", shim(A, "a", true)); ccadd("sb.c", shim(B, "b", true)); list += ";sa.c;sb.c"; }
  else { S h1 = "#include \"" + S(A.nodes ? "n2_" : "") + A.lo + "-binutil.h\"\n", h2 = "#include \"" + S(B.nodes ? "n2_" : "") + B.lo + "-binutil.h\"\n", o = mode == 3 ? "extern \"C\" {\n" : "", cl = mode == 3 ? "}\n" : ""; ccadd("both" + x, (mode == 2 ? h2 + h1 : h1 + h2) + o + shim(A, "a", false) + shim(B, "b", false) + cl); list += ";both" + x; }
  H = sym_cc_compile(list.c_str(), (CCINC + A.fl + B.fl).c_str()); sym_assert(H != 0, "two drivers compile and link together");
  unsigned char *p = (unsigned char*)calloc(64, 1), *q = (unsigned char*)calloc(64, 1), *r = (unsigned char*)calloc(64, 1); sym_bytes(p, 8, "p", 0, 255); sym_bytes(q, 6, "q", 0, 255); sym_bytes(r, 8, "r", 0, 255);
  int na = sym_as<int (*)()>(H, "size_a")(), nb = sym_as<int (*)()>(H, "size_b")(); void *m = calloc((size_t)na, 1), *k = calloc((size_t)na, 1), *n = calloc((size_t)nb, 1); auto ua = sym_as<Unpack>(H, "unpack_a"), ub = sym_as<Unpack>(H, "unpack_b");
  // interleaved use: two objects of the first driver, one of the other, and the dispatchers
  sym_assert(ua(m, p, 8) == A.id, "unpack returns the identifier of its driver"); sym_assert(ub(n, q, 6) == B.id, "unpack returns the identifier of its driver"); sym_assert(ua(k, r, 8) == A.id, "unpack returns the identifier of its driver");
  check(A, "a", m, p, "own value of the first object"); check(A, "a", k, r, "own value of the second object"); check(B, "b", n, q, "own value of the other driver");
  pack(A, "a", m, p, 1); pack(B, "b", n, q, 1); pack(A, "a", k, r, 1); pack(A, "a", m, p, 2); pack(B, "b", n, q, 2);
  auto ra = sym_as<Recv>(H, "recv_a"), rb = sym_as<Recv>(H, "recv_b"); sym_assert(ra(r, (uint32_t)A.id, 8) == A.id, "received by its driver"); sym_assert(rb(q, (uint32_t)B.id, 6) == B.id, "received by its driver"); check(A, "a", sym_as<void* (*)()>(H, "msg_a")(), r, "received value of its driver"); check(B, "b", sym_as<void* (*)()>(H, "msg_b")(), q, "received value of its driver");
  if (A.id != B.id) { sym_assert(ra(p, (uint32_t)B.id, 8) == 0, "not received by the other driver"); check(A, "a", sym_as<void* (*)()>(H, "msg_a")(), r, "received value unchanged"); }
  for (Drv* d : {&A, &B}) { auto f = sym_as<uint32_t (*)(int)>(H, d == &A ? "fixed_a" : "fixed_b"); sym_assert((f(0) == d->id) & (f(1) == (uint32_t)d->dlc) & (f(2) == (uint32_t)d->cyc) & (f(3) == d->ext), "constants of its driver"); int64_t x = (int64_t)sym_u64(d == &A ? "raw" : "other raw", 0, 2000), y = d == &A ? x * 2 - 5 : x * 7 + 100; sym_assert(sym_as<int64_t (*)(int64_t)>(H, d == &A ? "conv_a" : "conv_b")(x) == y, "conversion of its driver"); sym_assert(sym_as<int64_t (*)(int64_t)>(H, d == &A ? "back_a" : "back_b")(y) == x, "back conversion of its driver"); sym_assert(f(4) == (uint32_t)d->val, "value constant of its driver"); }
  static const char* MC[] = {"same message names", "both headers", "both headers, other order", "C++"}; sym_cover(MC[mode]);
}
