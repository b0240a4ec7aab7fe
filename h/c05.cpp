// C05: generated pack writes every signal into exactly its own payload bits; roundtrips.
#include "layout.h"
// messages of non-overlapping signals in one driver
struct Msg { S name; int dlc; std::vector<Lay> ls; };
static void check(const std::vector<Msg>& ms, bool bitf) {
  S d = "VERSION \"1.2\"\n";
  int id = 100;
  for (auto& m : ms) { d += "\nBO_ " + num(id++) + " " + m.name + ": " + num(m.dlc) + " N1\n"; for (auto& l : m.ls) d += sigline(l); }
  d += "\n";
  gen(d);
  ccdriver("drv"); ccadd("conf/dbccodeconf.h", ctypes(WIDE "extern uint8_t initbyte;\n#define DRV_INITIAL_BYTE_VALUE initbyte\n"));
  S shim = "#include \"lib/drv.c\"\nuint8_t initbyte;\nvoid set_init(uint8_t v) { initbyte = v; }\n";
  for (auto& m : ms) { shim += size_shim(m.name); for (size_t i = 0; i < m.ls.size(); i++) shim += field_shim(m.name, raw(m.ls[i]), m.name + num(i)); }
  ccadd("shim.c", shim);
  uint64_t h = sym_cc_compile("shim.c", bitf ? CCINC " -DDRV_USE_BITS_SIGNAL" : CCINC);
  sym_assert(h != 0, "generated driver compiles");
  uint8_t ib = (uint8_t)sym_u64("initbyte", 0, 255);
  sym_as<void (*)(uint8_t)>(h, "set_init")(ib);
  for (auto& m : ms) {
    int sz = sym_as<int (*)()>(h, ("sizeof_" + m.name).c_str())();
    void* st = malloc(sz); memset(st, 0x5A, sz); void* st2 = malloc(sz); memset(st2, 0xA5, sz);
    unsigned char *p = (unsigned char*)malloc(m.dlc + 8), *want = (unsigned char*)malloc(m.dlc), *q = (unsigned char*)malloc(m.dlc + 8);
    sym_bytes(p, m.dlc + 8, ("old" + m.name).c_str(), 0, 255); unsigned char guard[8]; memcpy(guard, p + m.dlc, 8); memcpy(q, p, m.dlc + 8);
    for (int i = 0; i < m.dlc; i++) want[i] = ib;
    std::vector<uint64_t> v(m.ls.size());
    for (size_t i = 0; i < m.ls.size(); i++) {
      v[i] = sym_u64(("v" + m.name + num(i)).c_str(), 0, ~0ull);
      sym_as<void (*)(void*, uint64_t)>(h, ("set_" + m.name + num(i)).c_str())(st, v[i]);
      refwrite(m.ls[i], want, v[i]);
    }
    uint8_t len = 0xEE, ide = 0xEE;
    auto pack = sym_as<uint32_t (*)(void*, uint8_t*, uint8_t*, uint8_t*)>(h, ("Pack_" + m.name + "_drv").c_str());
    auto unpack = sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, ("Unpack_" + m.name + "_drv").c_str());
    pack(st, p, &len, &ide);
    for (int i = 0; i < m.dlc; i++) sym_assert(p[i] == want[i], ("packed byte " + num(i) + " of " + m.name).c_str());
    for (int i = 0; i < 8; i++) sym_assert(p[m.dlc + i] == guard[i], "bytes behind the data length stay untouched");
    // unpacking what was packed restores every in-range field
    unpack(st2, p, (uint8_t)m.dlc);
    for (size_t i = 0; i < m.ls.size(); i++) {
      const Lay& l = m.ls[i]; uint64_t w = v[i];
      if (l.len < 64) { w &= (1ull << l.len) - 1; if (l.sgn) { uint64_t x = 1ull << (l.len - 1); w = (w ^ x) - x; } }
      sym_assert(sym_as<uint64_t (*)(void*)>(h, ("get_" + m.name + num(i)).c_str())(st2) == w, ("roundtrip of " + l.name + " in " + m.name).c_str());
    }
    // packing what was unpacked restores every signal bit
    pack(st2, q, &len, &ide);
    for (int i = 0; i < m.dlc; i++) sym_assert(q[i] == p[i], "packing again gives the same frame");
  }
}
// every length at every bit offset, both orders: lengths 1..64 spread over 64-byte messages, gaps between
extern "C" void offsets() {
  int o = (int)sym_concretize(sym_u64("offset", 0, 7)); bool mot = sym_concretize(sym_u64("order", 0, 1));
  bool half = TIER_THOROUGH ? sym_concretize(sym_u64("half", 0, 1)) : 0;
  std::vector<Msg> ms; int pos = 10000;
  for (int l = 1; l <= 64; l++) {
    Lay y{0, l, mot, (bool)((l + o + mot + half) & 1), S("S") + num(l), "1,0", false};
    if (l % 5 == 2) { y.fo = "3,-7"; y.scaled = true; } if (l % 5 == 4) { y.fo = "0.25,0"; y.scaled = true; }
    auto place = [&](int from) { int b = from / 8; y.start = b * 8 + o; return y; };
    if (!ms.empty() && pos < 512) { place(pos + 7); if (y.start < pos) y.start += 8; if (fits(y, 64)) goto ok; }
    ms.push_back({S("M") + num((int)ms.size()), 64, {}}); pos = 0; place(0);
  ok:
    // the first byte after this signal's last one (signals never share bytes here)
    pos = (lastbit(y) / 8 + 1) * 8;
    ms.back().ls.push_back(y);
  }
  check(ms, half); sym_cover("offsets");
}
// two signals of the same order side by side in a classic frame, for every split of it
extern "C" void splits() {
  bool mot = sym_concretize(sym_u64("order", 0, 1)); int a = (int)sym_concretize(sym_u64("first", 1, 63));
  std::vector<Msg> ms;
  Lay x{mot ? 7 : 0, a, mot, (bool)(a & 1), "A", "1,0", false}, y{0, 64 - a, mot, (bool)(a & 2), "B", "1,0", false};
  if (!mot) y.start = a; else { int p = 7; for (int i = 0; i < a; i++) p = p % 8 ? p - 1 : p + 15; y.start = p; }
  ms.push_back({"M0", 8, {x, y}});
  // a single signal, with free bits around it, in a frame of every length
  Lay z{3, a <= 5 ? 1 : a - 5, false, false, "C", "1,0", false}; int dl = 1; while (!fits(z, dl)) dl++;
  ms.push_back({"M1", dl, {z}});
  // the same with a frame longer than needed, in file order behind
  Lay w{a + 8, 4, mot, true, "D", "1,0", false}; dl = 2; while (!fits(w, dl)) dl++;
  ms.push_back({"M2", dl, {w, Lay{0, 3, false, false, "E", "1,0", false}}});
  check(ms, a & 4); sym_cover("splits");
}
// Intel and Motorola signals which share bytes
extern "C" void mixed() {
  int k = (int)sym_concretize(sym_u64("k", 1, 7));
  int L = (int)sym_concretize(sym_u64("len", 0, 3));
  std::vector<Msg> ms;
  int ml = L == 0 ? 8 - k : L == 1 ? 16 - k : L == 2 ? 29 : 40 - k; // Motorola from bit 7 of byte 2 downwards; the Intel one ends below it
  Lay in{0, 16 + k, false, (bool)(k & 1), "I1", "1,0", false}, mo{23, 8 - k, true, (bool)(k & 2), "B1", "1,0", false};
  ms.push_back({"M0", 3, {in, mo}});
  // Motorola runs through bytes 1.., Intel in the rest of its first and last bytes
  Lay m2{8 + k, ml + k, true, true, "B2", "1,0", false}; int lb = 0; for (int b : bits(m2)) lb = b; (void)lb;
  Msg mm{"M1", 8, {m2}}; bool used[64] = {false}; for (int b : bits(m2)) used[b] = true;
  int n = 0; for (int s = 0; s < 64;) { if (used[s]) { s++; continue; } int e = s; while (e < 64 && !used[e] && e - s < 13) e++; mm.ls.push_back(Lay{s, e - s, (e - s == 1) && (n & 1), (bool)(n & 1), "I" + num(n++), "1,0", false}); s = e; }
  ms.push_back(mm);
  check(ms, L & 1); sym_cover("mixed");
}
