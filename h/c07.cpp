// C07: physical conversion follows the signal's factor and offset.
#include "layout.h"
static S shim(const S& n, bool dbl) {
  S t = dbl ? "double" : "int64_t";
  return t + " phys_" + n + "(M_t* m) { return (" + t + ") m->" + n + "_phys; }\nvoid setphys_" + n + "(M_t* m, " + t + " v) { m->" + n + "_phys = v; }\nint64_t raw_" + n + "(M_t* m) { return (int64_t) m->" + n + "_ro; }\n"
    "int64_t imac_" + n + "(M_t* m) { return (int64_t) DRV_" + n + "_ro_fromS(m->" + n + "_ro); }\n";
}
static uint64_t build(const S& dbc, const S& sh, const S& o = "") {
  gen(dbc); ccdriver("drv"); ccadd("conf/dbccodeconf.h", "#include <stdint.h>\ntypedef double sigfloat_t;\n" WIDE); ccadd("shim.c", "#include \"lib/drv.c\"\n" + size_shim("M") + sh);
  uint64_t h = sym_cc_compile("shim.c", (CCINC "-DDRV_USE_SIGFLOAT " + o).c_str()); sym_assert(h != 0, "generated driver compiles"); return h;
}
struct Drv { uint64_t h; unsigned char m[64]; unsigned char d[8], e[8];
  void unpack() { sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M_drv")(m, d, 8); }
  void pack() { uint8_t len, ide; memset(e, 0, 8); sym_as<uint32_t (*)(void*, uint8_t*, uint8_t*, uint8_t*)>(h, "Pack_M_drv")(m, e, &len, &ide); } };
static uint64_t symraw(const Lay& l, unsigned char* d) { // raw value symbolic, written into the payload
  uint64_t v = sym_u64("raw", 0, l.len == 64 ? ~0ull : (1ull << l.len) - 1); memset(d, 0, 8); refwrite(l, d, v);
  if (l.sgn && l.len < 64) { uint64_t b = 1ull << (l.len - 1); v = (v ^ b) - b; }
  return v;
}
static S text(const S& n, int digits, bool neg, int64_t& v) { uint64_t u; S t = symdec(n, digits, u); if (u == 0) { u = 0; t = "0"; } v = neg ? -(int64_t)u : (int64_t)u; if (neg) sym_assume(u != 0); return (neg ? "-" : "") + t; }
static S bo(const Lay& l, const S& fo, const S& more = "") { Lay c = l; c.fo = fo.c_str(); return "BO_ 100 M: 8 N1\n" + sigline(c) + more + "\n"; }
// integer-scaled, one direction: factor, offset and raw value symbolic
extern "C" void intfrom() {
  int len = (int)sym_concretize(sym_u64("length", 1, 48)), k = (int)sym_concretize(sym_u64("signs", 0, 7)); bool sg = k & 1, fn = k & 2, on = k & 4; if (!TIER_THOROUGH && ((len + k) % 4 != len / 8 % 4)) return;
  int fd = 1 + (len + k) % (len > 45 ? 1 : len > 42 ? 2 : 3), od = 1 + (len * 3 + k) % (len > 32 ? 6 : 9); int64_t f, o; S ft = text("factor", fd, fn, f), ot = text("offset", od, on, o); sym_assume((f != 0) & ((f != 1) | (o != 0)));
  Lay l = {0, len, false, sg, "A", "", true}; Drv v; v.h = build(bo(l, ft + "," + ot), shim("A", false)); memset(v.m, 0, sizeof v.m);
  int64_t r = (int64_t)symraw(l, v.d); v.unpack(); sym_assert(sym_as<int64_t (*)(void*)>(v.h, "phys_A")(v.m) == r * f + o, ("physical value of unpacked " + num(len) + " bits").c_str());
  sym_assert(sym_as<int64_t (*)(void*)>(v.h, "raw_A")(v.m) == r, "raw value"); sym_cover("integer");
}
// there and back: pack converts the physical value
static const int64_t FS[] = {2, 3, -1, 10, -7, 100, 255, 1000, -10, 5, 60, 4096, 1};
extern "C" void intback() {
  int len = (int)sym_concretize(sym_u64("length", 1, 48)), k = (int)sym_concretize(sym_u64("signs", 0, 3)); bool sg = k & 1, on = k & 2; if (!TIER_THOROUGH && ((len + k) % 3 == 0 || (len > 32 && len % 4))) return;
  int64_t f = FS[(len + 5 * k) % 13], o; int od = 1 + (len + k) % 7; S ot = text("offset", od, on, o); if (f == 1) sym_assume(o != 0);
  Lay l = {0, len, false, sg, "A", "", true}; Drv v; v.h = build(bo(l, num(f) + "," + ot), shim("A", false)); memset(v.m, 0, sizeof v.m);
  int64_t r = (int64_t)symraw(l, v.d); v.unpack(); v.pack(); for (int i = 0; i < 8; i++) sym_assert(v.e[i] == v.d[i], ("raw value restored from its physical value, " + num(len) + " bits").c_str());
  memset(v.m, 0, sizeof v.m); sym_as<void (*)(void*, int64_t)>(v.h, "setphys_A")(v.m, r * f + o); v.pack(); for (int i = 0; i < 8; i++) sym_assert(v.e[i] == v.d[i], "physical value set by the user"); sym_cover("back");
}
// floating-point scaled, one direction: digits of factor and offset symbolic
struct Fl { S text; double v; };
static Fl fl(const S& n, int a, int dec, bool neg) { // more than nine decimals are cut
  uint64_t m = 0, c = 0; int cut = dec < 9 ? dec : 9; Fl r; r.text = neg ? "-" : "";
  int lead = a == 1 && dec ? (int)sym_concretize(sym_u64((n + " leading zeros").c_str(), 0, cut < 3 ? cut : 3)) : 0; if (lead == cut && lead) lead--; // 0.00x
  for (int i = 0; i < a + dec; i++) {
    uint64_t x = i < lead ? 0 : sym_u64((n + "#" + num(i)).c_str(), i == lead || i == a + cut - 1 ? 1 : 0, 9); // no leading zero, no trailing zero
    m = m * 10 + x; if (i < a + cut) c = m; if (i == a) r.text += "."; r.text += (char)('0' + x);
  }
  r.v = (double)c; if (dec) r.v /= (double)p10(cut); if (neg) r.v = -r.v; return r;
}
static bool near(double a, double b) { if (a == b) return true; double d = a - b, s = b < 0 ? -b : b; if (d < 0) d = -d; return d <= s * 1e-12 + 1e-12; }
extern "C" void floatfrom() {
  int len = (int)sym_concretize(sym_u64("length", 1, 53)), k = (int)sym_concretize(sym_u64("signs", 0, 7)); bool sg = k & 1, fn = k & 2, on = k & 4; if (!TIER_THOROUGH && ((len + k) % 4 != len / 8 % 4)) return;
  int dec = 1 + (len + k) % 10, odec = (len * 3 + k) % 10; Fl f = fl("factor", 1 + (len + k) % 2, dec, fn), o; if (!on && len % 3 == 0) { o.text = "0"; o.v = 0; } else o = fl("offset", 1 + (len + k) % (odec > 5 ? 1 : 4), odec, on);
 
  Lay l = {0, len, false, sg, "A", "", true}; Drv v; v.h = build(bo(l, f.text + "," + o.text), shim("A", true)); memset(v.m, 0, sizeof v.m);
  int64_t r = (int64_t)symraw(l, v.d); v.unpack(); double p = sym_as<double (*)(void*)>(v.h, "phys_A")(v.m), w = (sg ? (double)r : (double)(uint64_t)r) * f.v + o.v; sym_assert(near(p, w), ("physical value of unpacked " + num(len) + " bits").c_str()); sym_cover("floating");
}
// there and back: at most one raw step lost
static const char* FB[][2] = {{"0.1", "0"}, {"0.01", "-40"}, {"0.5", "-100.5"}, {"-0.1", "0"}, {"0.25", "1000"}, {"0.001", "-0.001"}, {"2.5", "0"}, {"0.3", "0.7"}, {"-1.5", "12.25"}, {"0.015625", "-273.15"}, {"1.0", "0"}, {"0.000001", "0"}, {"0.333333333", "0.1"}};
extern "C" void floatback() {
  int len = (int)sym_concretize(sym_u64("length", 1, 16)), i = (int)sym_concretize(sym_u64("factor", 0, 12)); bool sg = (len + i) % 2;
  Lay l = {0, len, false, sg, "A", "", true}; Drv v; v.h = build(bo(l, S(FB[i][0]) + "," + FB[i][1]), shim("A", true)); memset(v.m, 0, sizeof v.m);
  int64_t r = (int64_t)symraw(l, v.d); v.unpack(); v.pack(); int64_t q = (int64_t)refread(l, v.e);
  sym_assert((q - r <= 1) & (r - q <= 1), ("raw value within one step, factor " + S(FB[i][0])).c_str()); sym_cover("within one step");
}
// two messages with a signal of the same name: the conversion macros are named by the signal alone (known finding)
extern "C" void clash() {
  int len = (int)sym_concretize(sym_u64("length", 1, 16)); int64_t f, g; S ft = text("factor", 1, false, f), gt = text("other factor", 1, false, g); sym_assume((f > 1) & (g > 1));
  Lay l = {0, len, false, false, "A", "", true}; Drv v; v.h = build(bo(l, ft + ",0") + "BO_ 101 N: 8 N1\n" + [&] { Lay c = l; static S fo; fo = gt + ",0"; c.fo = fo.c_str(); return sigline(c); }(), "int64_t phys_M(M_t* m) { return (int64_t) m->A_phys; }\nint64_t phys_N(N_t* m) { return (int64_t) m->A_phys; }\n" + size_shim("N"));
  memset(v.m, 0, sizeof v.m); int64_t r = (int64_t)symraw(l, v.d);
  sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(v.h, "Unpack_N_drv")(v.m, v.d, 8); sym_assert_known(sym_as<int64_t (*)(void*)>(v.h, "phys_N")(v.m) == r * g, "physical value, name used in another message before", "same-signal-name", f != g);
  v.unpack(); sym_assert_known(sym_as<int64_t (*)(void*)>(v.h, "phys_M")(v.m) == r * f, "physical value, name used in another message", "same-signal-name", f != g); sym_cover("same name");
}
