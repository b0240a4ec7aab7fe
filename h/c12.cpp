// C12: checksum signals.
#include "layout.h"
extern "C" void harness() {
  static const int D[] = {1, 2, 5, 8, 9, 20, 64};
  int pos = (int)sym_concretize(sym_u64("bits", 0, 35)); // every (offset, length) inside one byte
  int len = 1, off = pos; while (off > 8 - len) { off -= 9 - len; len++; }
  int di = (int)sym_concretize(sym_u64("dlc", 0, 6)), dlc = D[di], var = TIER_THOROUGH ? (int)sym_concretize(sym_u64("variant", 0, 3)) : (pos + di) % 4;
  bool mot = (pos + di / 2 + var / 2) % 2, fields = var & 1, fr = (var / 2 + pos) % 2, roll = (pos + di) % 3 == 1;
  int byte = (pos * 5 + di) % dlc; if (pos % 4 == 1) byte = dlc - 1; if (pos % 4 == 2) byte = 0;
  Lay c{byte * 8 + (mot ? off + len - 1 : off), len, mot, false, "Chk", "1,0", false};
  std::vector<bool> used(dlc * 8, false); for (int b : bits(c)) used[b] = true;
  std::vector<Lay> ls = {c};
  auto place = [&](int n, const S& name, bool m, bool sg, bool sc, int from) {
    for (int b = from; b < dlc * 8; b++) { Lay l{b, n, m, sg, name, sc ? "2,0" : "1,0", sc}; if (!fits(l, dlc)) continue; bool ok = true; for (int k : bits(l)) ok &= !used[k]; if (ok) { for (int k : bits(l)) used[k] = true; ls.push_back(l); return true; } }
    return false; };
  place(dlc > 2 ? 13 : 2, "Wide", true, true, false, 0); place(1, "Near", false, false, false, byte * 8);
  if (roll) roll = place(2, "Cnt", false, false, false, 0);
  place(3, "Scal", false, true, true, dlc * 4); place(2, "Late", true, false, false, dlc > 2 ? dlc * 8 - 16 : 0);
  uint64_t id, op; bool ext = (pos + di) % 2; S idt = symid("id", ext, 2 + (pos + di) % 8, id); sym_assume(id != 77);
  // <Checksum:METHOD:OPTION>
  int nd = 1 + (pos + var) % 3; S opt = symdec("option", nd, op);
  static const char* ME[] = {"XOR8", "CRC_SAE", "J1939", "m_2"}; S meth = ME[(pos / 2 + di) % 4]; int mi = 41 + (pos / 2 + di) % 4;
  S d = "VERSION \"1.2\"\n\nBO_ 77 M2: 8 N1\n SG_ Chk : 0|8@1+ (1,0) [0|0] \"\" N2\n\nBO_ " + idt + " M1: " + num(dlc) + " N1\n"; for (size_t i = ls.size(); i--;) d += sigline(ls[i]);
  d += "\nCM_ SG_ " + idt + " Chk \"" + (pos % 3 == 2 ? "check sum <Checksum:" + meth + ":" + opt + "> of frame" : "<Checksum:" + meth + ":" + opt + ">") + "\";\n";
  if (roll) d += "CM_ SG_ " + idt + " Cnt \"<RollingCounter>\";\n";
  gen(d); ccdriver("drv");
  ccadd("conf/dbccodeconf.h", ctypes(S(WIDE) + "typedef double sigfloat_t;\ntypedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;\nenum { XOR8 = 41, CRC_SAE, J1939, m_2 };\nextern uint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n#define GetSystemTick() 0\n"));
  S shim = "#include \"lib/drv.c\"\n#include \"usr/drv-fmon.c\"\n" + size_shim("M1") +
    "int calls, hl, hm, ho; uint32_t hid; uint8_t seen[64], hv; void start(uint8_t v) { calls = 0; hv = v; }\nuint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { calls++; hl = n; hid = id; hm = m; ho = o; for (int i = 0; i < n && i < 64; i++) seen[i] = p[i]; return hv; }\n"
    "int get_calls(void) { return calls; } int get_len(void) { return hl; } int get_m(void) { return hm; } int get_o(void) { return ho; } uint32_t get_hid(void) { return hid; } uint8_t* get_seen(void) { return seen; }\n"
    "int csmerr(M1_t* m) { return m->mon1.csm_error; }\n";
  for (size_t i = 0; i < ls.size(); i++) shim += field_shim("M1", raw(ls[i]), num(i));
  shim += fr ? "void pack(M1_t* m, uint8_t* d) { __CoderDbcCanFrame_t__ f; for (int i = 0; i < 64; i++) f.Data[i] = d[i]; Pack_M1_drv(m, &f); for (int i = 0; i < 64; i++) d[i] = f.Data[i]; }\n" : "void pack(M1_t* m, uint8_t* d) { uint8_t l, i; Pack_M1_drv(m, d, &l, &i); }\n";
  ccadd("shim.c", shim);
  int init = pos % 5 == 3 ? 0xFF : pos % 5 == 4 ? 0x5A : 0;
  S o = S(CCINC) + " -DDRV_AUTO_CSM -DDRV_USE_DIAG_MONITORS"; if (roll) o += " -DDRV_AUTO_ROLL"; if (fields) o += " -DDRV_USE_BITS_SIGNAL"; if (fr) o += " -DDRV_USE_CANSTRUCT"; if (init) o += " -DDRV_INITIAL_BYTE_VALUE=" + num(init);
  uint64_t h = sym_cc_compile("shim.c", o.c_str()); sym_assert(h != 0, "driver with checksum compiles");
  void* m = calloc(1, sym_as<int (*)()>(h, "sizeof_M1")());
  auto G = [&](const S& n) { return sym_as<uint64_t (*)(void*)>(h, n.c_str())(m); };
  auto I = [&](const char* n) { return sym_as<int (*)()>(h, n)(); };
  S w = S(mot ? " motorola" : " intel") + " offset " + num(off) + " length " + num(len) + " dlc " + num(dlc);
  uint8_t hv = (uint8_t)sym_u64("hash", 0, 255); unsigned char p[64], want[64]; sym_bytes(p, 64, "old", 0, 255);
  uint64_t f[8]; for (size_t i = 0; i < ls.size(); i++) { f[i] = sym_u64(("f" + num(i)).c_str(), 0, (1ull << ls[i].len) - 1); sym_as<void (*)(void*, uint64_t)>(h, ("set_" + num(i)).c_str())(m, f[i]); }
  for (int i = 0; i < 64; i++) want[i] = i < dlc ? init : p[i];
  for (size_t i = 1; i < ls.size(); i++) refwrite(ls[i], want, ls[i].name == "Cnt" ? f[i] + 1 : f[i]);
  refwrite(c, want, 0);
  sym_as<void (*)(uint8_t)>(h, "start")(hv); sym_as<void (*)(void*, uint8_t*)>(h, "pack")(m, p);
  sym_assert(I("get_calls") == 1, ("frame hash computed once:" + w).c_str()); sym_assert(I("get_len") == dlc, "hash over the message's data length"); sym_assert(sym_as<uint32_t (*)()>(h, "get_hid")() == id, "hash with the message's identifier");
  sym_assert(I("get_m") == mi, "hash with the named method"); sym_assert(I("get_o") == (int)op, "hash with the given option");
  unsigned char* sn = sym_as<unsigned char* (*)()>(h, "get_seen")();
  for (int i = 0; i < dlc; i++) sym_assert(sn[i] == want[i], ("hash over the packed frame with cleared checksum:" + w).c_str());
  refwrite(c, want, hv);
  for (int i = 0; i < 64; i++) sym_assert(p[i] == want[i], ("low bits of the hash in the checksum bits only:" + w).c_str());
  // receive
  sym_bytes(p, 64, "rx", 0, 255); uint8_t hr = (uint8_t)sym_u64("hash of received", 0, 255);
  sym_as<void (*)(uint8_t)>(h, "start")(hr); sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M1_drv")(m, p, (uint8_t)dlc);
  sym_assert(I("get_calls") == 1 && I("get_len") == dlc && sym_as<uint32_t (*)()>(h, "get_hid")() == id && I("get_m") == mi && I("get_o") == (int)op, "hash of the received frame");
  for (int i = 0; i < dlc; i++) sym_assert(sn[i] == p[i], "hash over the received payload");
  uint64_t got = refread(c, p); sym_assert(G("get_0") == got, ("received checksum field:" + w).c_str());
  sym_assert(sym_as<int (*)(void*)>(h, "csmerr")(m) == (hr != got), ("checksum error exactly when hash and field differ:" + w).c_str());
  sym_cover(fr ? "frame" : "array"); sym_cover(roll ? "with counter" : "alone");
}
