// C11: rolling counters.
#include "layout.h"
extern "C" void harness() {
  int L = (int)sym_concretize(sym_u64("length", 1, 64)); bool mot = sym_concretize(sym_u64("order", 0, 1)); int var = (int)sym_concretize(sym_u64("variant", 0, TIER_THOROUGH ? 7 : 1)); if (!TIER_THOROUGH) var += 2 * ((L / 2 + var + mot) % 2);
  bool fields = var & 1, first = (var >> 1) & 1, csm = ((L + var) & 1) || (var & 4), fr = (L + var / 2) % 3 == 1;
  int dlc = L <= 48 ? (L % 3 ? 8 : 12) : L % 2 ? 64 : 24; if (var & 4) dlc = 64;
  // the counter somewhere in the frame, a 4-bit checksum in front of or behind it, other signals around
  Lay r{0, L, mot, false, "Cnt", "1,0", false}; int lo = first ? 4 : dlc * 8 - L - 8 - (L % 5);
  if (lo < 0 || L > dlc * 8 - 16) lo = 4;
  if (!mot) r.start = lo; else { int p = (lo + 7) / 8 * 8; int nb = (L + 7) / 8; if (p / 8 + nb > dlc) p = (dlc - nb) * 8; int off = 7 - (L % 8 ? (L % 3) % (8 - L % 8 + 1) : 0); r.start = p + off; while (!fits(r, dlc)) r.start -= 8; }
  std::vector<bool> used(dlc * 8, false); for (int b : bits(r)) used[b] = true;
  std::vector<Lay> ls = {r};
  auto free1 = [&](int n, const S& name, bool sc) { for (int b = 0; b + n <= dlc * 8; b++) { bool ok = b / 8 == (b + n - 1) / 8; for (int k = 0; k < n && ok; k++) ok = !used[b + k]; if (ok) { for (int k = 0; k < n; k++) used[b + k] = true; ls.push_back({b, n, false, false, name, sc ? "2,0" : "1,0", sc}); return true; } } return false; };
  csm = free1(4, "Chk", false) && csm; free1(3, "Oth", false); bool sc = free1(5, "Sca", true); (void)sc;
  uint64_t id; S idt = symid("id", L % 2, 2 + L % 8, id); sym_assume(id != 77);
  S d = "VERSION \"1.2\"\n\nBO_ " + idt + " M1: " + num(dlc) + " N1\n"; for (size_t i = ls.size(); i--;) d += sigline(ls[i]);
  d += "\nBO_ 77 M2: 8 N1\n SG_ Cnt : 0|8@1+ (1,0) [0|0] \"\" N2\n SG_ Cnt2 : 8|8@1+ (1,0) [0|0] \"\" N2\n\nCM_ SG_ " + idt + " Cnt \"" + (var & 2 ? "the counter <RollingCounter> of it" : "<RollingCounter>") + "\";\n";
  if (csm) d += "CM_ SG_ " + idt + " Chk \"<Checksum:XOR8:3>\";\n";
  gen(d); ccdriver("drv");
  ccadd("conf/dbccodeconf.h", ctypes(S(WIDE) + "typedef double sigfloat_t;\ntypedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;\nenum { XOR8 = 5 };\nextern uint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n#define GetSystemTick() 0\n"));
  S shim = "#include \"lib/drv.c\"\n#include \"usr/drv-fmon.c\"\n" + size_shim("M1") + size_shim("M2") + "uint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { return 9; }\n"
    "int rollerr(M1_t* m) { return m->mon1.roll_error; }\nint rollerr2(M2_t* m) { return m->mon1.roll_error; }\n" + field_shim("M1", "Cnt", "c") + field_shim("M1", "Cnt_expt", "e") + "uint64_t get2(M2_t* m) { return m->Cnt; }\nvoid set2(M2_t* m, uint64_t v) { m->Cnt = v; }\n";
  for (size_t i = 1; i < ls.size(); i++) shim += field_shim("M1", raw(ls[i]), num(i));
  shim += fr ? "void pack(M1_t* m, uint8_t* d) { __CoderDbcCanFrame_t__ f; Pack_M1_drv(m, &f); for (int i = 0; i < M1_DLC; i++) d[i] = f.Data[i]; }\nvoid pack2(M2_t* m, uint8_t* d) { __CoderDbcCanFrame_t__ f; Pack_M2_drv(m, &f); for (int i = 0; i < 8; i++) d[i] = f.Data[i]; }\n"
             : "void pack(M1_t* m, uint8_t* d) { uint8_t l, i; Pack_M1_drv(m, d, &l, &i); }\nvoid pack2(M2_t* m, uint8_t* d) { uint8_t l, i; Pack_M2_drv(m, d, &l, &i); }\n";
  ccadd("shim.c", shim);
  S o = S(CCINC) + " -DDRV_AUTO_ROLL -DDRV_USE_DIAG_MONITORS"; if (csm) o += " -DDRV_AUTO_CSM"; if (fields) o += " -DDRV_USE_BITS_SIGNAL"; if (fr) o += " -DDRV_USE_CANSTRUCT"; if (L % 4 == 2) o += " -DDRV_USE_MONO_FMON";
  uint64_t h = sym_cc_compile("shim.c", o.c_str()); sym_assert(h != 0, "driver with rolling counter compiles");
  S w = " length " + num(L) + (mot ? " motorola" : " intel");
  uint64_t M = L == 64 ? ~0ull : (1ull << L) - 1;
  uint64_t v = sym_u64("counter", 0, M), e = sym_u64("expected", 0, M);
  int sz = sym_as<int (*)()>(h, "sizeof_M1")(); void* m = calloc(1, sz);
  auto G = [&](const char* n) { return sym_as<uint64_t (*)(void*)>(h, n)(m); };
  auto P = [&](const char* n, uint64_t x) { sym_as<void (*)(void*, uint64_t)>(h, n)(m, x); };
  unsigned char* p = (unsigned char*)malloc(dlc); sym_bytes(p, dlc, "p", 0, 255);
  // transmit twice
  P("set_c", v); P("set_e", e);
  for (size_t i = 1; i < ls.size(); i++) P(("set_" + num(i)).c_str(), sym_u64(("f" + num(i)).c_str(), 0, (1u << ls[i].len) - 1));
  for (int k = 1; k <= 2; k++) {
    sym_as<void (*)(void*, uint8_t*)>(h, "pack")(m, p);
    sym_assert(G("get_c") == ((v + k) & M), ("counter incremented modulo its width:" + w).c_str());
    sym_assert(refread(r, p) == ((v + k) & M), ("counter transmitted:" + w).c_str());
    sym_assert(G("get_e") == e, ("pack leaves the expected counter alone:" + w).c_str());
  }
  // receive three frames
  P("set_e", e); uint64_t want = e;
  for (int k = 0; k < 3; k++) {
    sym_bytes(p, dlc, ("rx" + num(k)).c_str(), 0, 255);
    sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M1_drv")(m, p, (uint8_t)dlc);
    uint64_t got = refread(r, p);
    sym_assert(G("get_c") == got, ("received counter:" + w).c_str());
    sym_assert(sym_as<int (*)(void*)>(h, "rollerr")(m) == (got != want), ("rolling error reported exactly when the counter is unexpected:" + w).c_str());
    want = (got + 1) & M;
    sym_assert(G("get_e") == want, ("next expected counter:" + w).c_str());
  }
  // the unmarked message of the same signal name does not count
  void* m2 = calloc(1, sym_as<int (*)()>(h, "sizeof_M2")()); uint64_t x = sym_u64("unmarked", 0, 255); sym_as<void (*)(void*, uint64_t)>(h, "set2")(m2, x);
  uint8_t q[64]; sym_as<void (*)(void*, uint8_t*)>(h, "pack2")(m2, q);
  sym_assert(sym_as<uint64_t (*)(void*)>(h, "get2")(m2) == x, "unmarked signal does not count"); sym_assert(q[0] == x, "unmarked signal is sent unchanged");
  sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M2_drv")(m2, q, 8); sym_assert(!sym_as<int (*)(void*)>(h, "rollerr2")(m2), "no rolling error without a counter");
  sym_cover(fr ? "frame" : "array"); sym_cover(csm ? "checksum" : "counter alone");
}
