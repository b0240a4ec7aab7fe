// C13: frame monitors record every reception without changing signals.
#include "layout.h"
extern "C" void harness() {
  int dlc = (int)sym_concretize(sym_u64("dlc", 1, 64)); int mode = (int)sym_concretize(sym_u64("mode", 0, 3)); // bit 0: MONO, bit 1: marks
  bool ext = dlc & 1, mono = mode & 1, marks = mode & 2; S drv = dlc % 3 ? "drv" : "Drv";
  uint64_t id; S idt = symid("id", ext, 3 + dlc % 6, id); sym_assume(id != 1999);
  std::vector<Lay> ls = {{0, 4, false, false, "R", "1,0", false}, {(dlc - 1) * 8 + 4, 4, false, false, "C", "1,0", false}};
  if (dlc > 1) ls.push_back({dlc * 4 / 8 * 8 + 3, dlc > 4 ? 12 : 1, true, true, "X", "2,3", true});
  if (dlc > 2) ls.push_back({8, 5, false, false, "Y", "1,0", false});
  if (dlc > 16) ls.push_back({80, 40, false, true, "Z", "0.5,1", true});
  S other = "\nBO_ 1999 Other: 8 N1\n SG_ O : 0|8@1+ (1,0) [0|0] \"\" N2\n";
  S d = "VERSION \"1.2\"\n"; if (dlc % 2) d += other; d += "\nBO_ " + idt + " M1: " + num(dlc) + " N1\n";
  for (auto& l : ls) d += sigline(l);
  if (!(dlc % 2)) d += other;
  d += "\n";
  if (marks) d += "CM_ SG_ " + idt + " R \"<RollingCounter>\";\nCM_ SG_ " + idt + " C \"<Checksum:XOR8:3>\";\n";
  gen(d, drv);
  S conf = ctypes(S(WIDE) + "enum { XOR8 = 5 };\nextern uint32_t tick;\n#define GetSystemTick() tick\nextern uint8_t hash(const uint8_t*, int, uint32_t, int, int);\n#define GetFrameHash(a,b,c,d,e) hash(a,b,c,d,e)\n");
  S fl = marks ? " -DDRV_AUTO_ROLL -DDRV_AUTO_CSM" : "";
  S common = size_shim("M1") + "uint8_t hv; void set_hash(uint8_t v) { hv = v; }\nuint8_t hash(const uint8_t* p, int n, uint32_t id, int m, int o) { return hv; }\nuint32_t tick; void set_tick(uint32_t v) { tick = v; }\n";
  for (size_t i = 0; i < ls.size(); i++) common += field_shim("M1", raw(ls[i]), num(i));
  // without monitors
  uint64_t h[3];
  ccdriver(drv); ccadd("conf/dbccodeconf.h", conf); ccadd("shim.c", "#include \"lib/drv.c\"\n" + common);
  h[0] = sym_cc_compile("shim.c", (CCINC + fl).c_str()); sym_assert(h[0] != 0, "driver without monitors compiles");
  S mfl = fl + " -DDRV_USE_DIAG_MONITORS" + (mono ? " -DDRV_USE_MONO_FMON" : "");
  S mon = "#include \"lib/drv.c\"\n" + common +
    "M1_t* cur; M1_t snap; int calls, wrong; uint32_t seen; FrameMonitor_t* where;\nstatic void rec(FrameMonitor_t* m, uint32_t id) { calls++; seen = id; where = m; snap = *cur; }\n" +
    (mono ? "void _FMon_MONO_drv(FrameMonitor_t* m, uint32_t id) { rec(m, id); }\n"
          : "void _FMon_M1_drv(FrameMonitor_t* m, uint32_t id) { rec(m, id); }\nvoid _FMon_Other_drv(FrameMonitor_t* m, uint32_t id) { wrong++; }\n") +
    "uint32_t go(M1_t* m, const uint8_t* p, uint8_t n) { cur = m; calls = wrong = 0; return Unpack_M1_" + drv + "(m, p, n); }\n"
    "int get_calls(void) { return calls; } int get_wrong(void) { return wrong; } uint32_t get_seen(void) { return seen; } int get_where(M1_t* m) { return where == &m->mon1; } void* get_snap(void) { return &snap; }\n"
    "uint32_t m_last(M1_t* m) { return m->mon1.last_cycle; } uint32_t m_cnt(M1_t* m) { return m->mon1.frame_cnt; } uint32_t m_dlc(M1_t* m) { return m->mon1.dlc_error; } uint32_t m_cyc(M1_t* m) { return m->mon1.cycle_error; } uint32_t m_to(M1_t* m) { return m->mon1.timeout_cycle; }\n"
    "void put(M1_t* m, uint32_t cnt, uint32_t to, int cy, int de, int roll) { m->mon1.frame_cnt = cnt; m->mon1.timeout_cycle = to; m->mon1.cycle_error = cy; m->mon1.dlc_error = de; m->mon1.last_cycle = 0x12345678; m->mon1.roll_error = 0; m->mon1.csm_error = 0;\n"
    "#ifdef DRV_AUTO_ROLL\n m->R_expt = roll;\n#endif\n}\n";
  sym_cc_reset(); ccdriver(drv); ccadd("conf/dbccodeconf.h", conf); ccadd("shim.c", mon);
  h[1] = sym_cc_compile("shim.c", (CCINC + mfl).c_str()); sym_assert(h[1] != 0, "driver with monitors compiles");
  // with the generated (empty) monitor functions
  sym_cc_reset(); ccdriver(drv); ccadd("conf/dbccodeconf.h", conf); ccadd("shim.c", "#include \"lib/drv.c\"\n#include \"usr/drv-fmon.c\"\n" + common);
  h[2] = sym_cc_compile("shim.c", (CCINC + mfl).c_str()); sym_assert(h[2] != 0, "driver with generated monitor functions compiles");
  unsigned char* p = (unsigned char*)malloc(dlc); sym_bytes(p, dlc, "p", 0, 255);
  uint8_t n = (uint8_t)sym_u64("received length", 0, 255), hv = (uint8_t)sym_u64("hash", 0, 255);
  uint32_t tick = (uint32_t)sym_u64("tick", 0, 0xFFFFFFFF), cnt = (uint32_t)sym_u64("count", 0, 0xFFFFFFFF), to = (uint32_t)sym_u64("timeout", 0, 0xFFFFFFFF), cy = (uint32_t)sym_u64("cycle error", 0, 1), de = (uint32_t)sym_u64("old dlc error", 0, 1), ro = (uint32_t)sym_u64("expected", 0, 15);
  void* m[3]; uint32_t r[3];
  for (int v = 0; v < 3; v++) {
    int sz = sym_as<int (*)()>(h[v], "sizeof_M1")(); m[v] = malloc(sz); memset(m[v], 0, sz);
    sym_as<void (*)(uint8_t)>(h[v], "set_hash")(hv); sym_as<void (*)(uint32_t)>(h[v], "set_tick")(tick);
    if (v == 1) { sym_as<void (*)(void*, uint32_t, uint32_t, int, int, int)>(h[v], "put")(m[v], cnt, to, cy, de, ro); r[v] = sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h[v], "go")(m[v], p, n); }
    else r[v] = sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h[v], ("Unpack_M1_" + drv).c_str())(m[v], p, n);
    sym_assert(r[v] == id, v ? "return value with monitors" : "return value without monitors");
    for (size_t i = 0; i < ls.size(); i++) {
      uint64_t x = sym_as<uint64_t (*)(void*)>(h[v], ("get_" + num(i)).c_str())(m[v]);
      sym_assert(x == refread(ls[i], p), v ? "signal value with monitors" : "signal value without monitors");
    }
  }
  uint64_t q = h[1];
  sym_assert(sym_as<uint32_t (*)(void*)>(q, "m_dlc")(m[1]) == (n < dlc), "length error");
  sym_assert(sym_as<uint32_t (*)(void*)>(q, "m_last")(m[1]) == tick, "tick stored");
  sym_assert(sym_as<uint32_t (*)(void*)>(q, "m_cnt")(m[1]) == (uint32_t)(cnt + 1), "frame count");
  sym_assert(sym_as<uint32_t (*)(void*)>(q, "m_cyc")(m[1]) == cy, "cycle error untouched");
  sym_assert(sym_as<uint32_t (*)(void*)>(q, "m_to")(m[1]) == to, "timeout untouched");
  sym_assert(sym_as<int (*)()>(q, "get_calls")() == 1, "monitor function called once");
  sym_assert(sym_as<int (*)()>(q, "get_wrong")() == 0, "no other monitor function called");
  sym_assert(sym_as<uint32_t (*)()>(q, "get_seen")() == id, "monitor function gets the identifier");
  sym_assert(sym_as<int (*)(void*)>(q, "get_where")(m[1]), "monitor function gets the monitor");
  unsigned char* sn = (unsigned char*)sym_as<void* (*)()>(q, "get_snap")(); int sz = sym_as<int (*)()>(q, "sizeof_M1")();
  for (int i = 0; i < sz; i++) sym_assert(sn[i] == ((unsigned char*)m[1])[i], "results in place when the monitor function is called");
  sym_cover(mono ? "mono" : "default"); sym_cover(marks ? "marked" : "unmarked");
}
