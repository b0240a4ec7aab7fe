// C09: the receive dispatcher calls exactly the unpack function of the received identifier.
#include "lib.h"
// identifier ranges, ascending, each with one number of decimal and of hexadecimal digits
struct Rng { uint64_t lo, hi; };
static const Rng R[] = {{0, 9}, {10, 15}, {16, 99}, {100, 255}, {256, 999}, {1000, 4095}, {4096, 9999}, {10000, 65535}, {65536, 99999}, {100000, 999999}, {1048576, 9999999}, {16777216, 99999999}, {0x10000000, 0x1FFFFFFF}};
static const int NR = 13;
static int digits(uint64_t v) { int n = 1; while (v >= 10) { v /= 10; n++; } return n; }
static void go(int n, int pattern, int perm, bool node, const S& drv) {
  std::vector<uint64_t> id(n); std::vector<S> text(n); std::vector<bool> ext(n), use(n), empty(n);
  for (int i = 0; i < n; i++) {
    // patterns: all in one range, spread over all ranges, pairs
    int r = pattern < 3 ? (pattern == 0 ? 7 : pattern == 1 ? 12 : 9) : pattern == 3 ? i * NR / n : pattern == 4 ? (i / 2 * 2) * NR / (n + 1) : i < n / 2 ? 5 : 7;
    id[i] = sym_u64(("id" + num(i)).c_str(), R[r].lo, R[r].hi);
    ext[i] = id[i] > 2047 || (i + pattern) % 2; // decided by the range except for small ones
    text[i] = ext[i] ? dectext(id[i] + 0x80000000ull, 10) : dectext(id[i], digits(R[r].lo));
    if (i) sym_assume(id[i - 1] < id[i]);
    use[i] = !node || (i * 5 + perm) % 3 != 1; empty[i] = n > 3 && (i + perm + pattern) % 7 == 6;
  }
  S d = "VERSION \"1.2\"\n";
  for (int k = 0; k < n; k++) {
    int i = perm == 0 ? k : perm == 1 ? n - 1 - k : (k * 7 + 3) % n; // 7 is prime to every n used (n not a multiple of 7)
    if (n % 7 == 0 && perm == 2) i = (k * 5 + 3) % n;
    d += "\nBO_ " + text[i] + " M" + num(i) + ": 8 " + (i % 2 ? "N1" : "N2") + "\n";
    if (!empty[i]) d += S(" SG_ A : 0|8@1+ (1,0) [0|0] \"\" ") + (use[i] ? (i % 3 ? "N3,N4" : "N4") : "N5") + "\n";
  }
  d += "\n";
  gen(d, drv, node ? std::vector<S>{"-nodeutils"} : std::vector<S>{});
  S u = node ? "n4_" + lower(drv) : lower(drv), rx = u + "_rx_t";
  ccdriver(drv); ccadd_if("out", "butl/" + u + "-binutil.h"); ccadd_if("out", "butl/" + u + "-binutil.c");
  bool any = false; for (int i = 0; i < n; i++) if (use[i] && !empty[i]) any = true;
  S shim = "#include \"butl/" + u + "-binutil.c\"\nint calls, who; void* where; const uint8_t* data; int dlc; uint32_t res[32];\nvoid set_res(int i, uint32_t v) { res[i] = v; }\n"
    "int get_calls(void) { return calls; } int get_who(void) { return who; } void* get_where(void) { return where; } int get_dlc(void) { return dlc; } const uint8_t* get_data(void) { return data; } void start(void) { calls = 0; who = -1; }\n"
    "int sz(void) { return sizeof(" + rx + "); }\n"
    "uint32_t go(void* m, const uint8_t* d, uint32_t id, int n) { return " + u + "_Receive((" + rx + "*) m, d, id, (uint8_t) n); }\n";
  for (int i = 0; i < n; i++) {
    S m = "M" + num(i);
    if (!empty[i]) shim += "uint32_t Unpack_" + m + "_" + drv + "(" + m + "_t* m, const uint8_t* d, uint8_t n) { calls++; who = " + num(i) + "; where = m; data = d; dlc = n; return res[" + num(i) + "]; }\n";
    if (use[i] && !empty[i]) shim += "void* at_" + m + "(" + rx + "* r) { return &r->" + m + "; }\n";
  }
  if (!any) return;
  ccadd("shim.c", shim);
  uint64_t h = sym_cc_compile("shim.c", CCINC); sym_assert(h != 0, "dispatcher compiles");
  void* m = calloc(1, sym_as<int (*)()>(h, "sz")()); uint8_t buf[64];
  std::vector<uint32_t> res(n);
  for (int i = 0; i < n; i++) { res[i] = (uint32_t)sym_u64(("result" + num(i)).c_str(), 0, 0xFFFFFFFF); sym_as<void (*)(int, uint32_t)>(h, "set_res")(i, res[i]); }
  uint32_t rid = (uint32_t)sym_u64("received id", 0, 0xFFFFFFFF); uint8_t len = (uint8_t)sym_u64("received length", 0, 255);
  sym_as<void (*)()>(h, "start")();
  uint32_t ret = sym_as<uint32_t (*)(void*, const uint8_t*, uint32_t, int)>(h, "go")(m, buf, rid, len);
  int calls = sym_as<int (*)()>(h, "get_calls")(), who = sym_as<int (*)()>(h, "get_who")();
  int want = 0; for (int i = 0; i < n; i++) if (use[i] && !empty[i]) want |= rid == id[i];
  if (calls == 0) { sym_assert(!want, "a receivable message is dispatched"); sym_assert(ret == 0, "unknown identifier returns 0"); sym_cover("unknown"); return; }
  sym_assert(calls == 1, "one unpack call"); sym_assert(who >= 0 && who < n && use[who] && !empty[who], "receivable message"); 
  sym_assert(rid == id[who], "the message of the received identifier is unpacked");
  sym_assert(sym_as<void* (*)()>(h, "get_where")() == sym_as<void* (*)(void*)>(h, ("at_M" + num(who)).c_str())(m), "into that message's structure");
  sym_assert(sym_as<const uint8_t* (*)()>(h, "get_data")() == buf, "payload handed on"); sym_assert(sym_as<int (*)()>(h, "get_dlc")() == len, "length handed on");
  sym_assert(ret == res[who], "result of the unpack function returned"); sym_cover(node ? "node" : "all");
}
extern "C" void all() {
  int n = (int)sym_concretize(sym_u64("messages", 1, TIER_THOROUGH ? 24 : 12)), p = (int)sym_concretize(sym_u64("ranges", 0, 5)), q = TIER_THOROUGH ? (int)sym_concretize(sym_u64("order", 0, 2)) : (n + p) % 3;
  go(n, p, q, false, n % 4 == 3 ? "Drv" : "drv");
}
extern "C" void more() {
  static const int N[] = {16, 19, 23}; int p = (int)sym_concretize(sym_u64("ranges", 0, 5)), k = TIER_THOROUGH ? (int)sym_concretize(sym_u64("messages", 0, 2)) : (p * 5 + 1) % 3;
  go(N[k], p, (k + p) % 3, false, "drv");
}
extern "C" void node() {
  int n = (int)sym_concretize(sym_u64("messages", 1, TIER_THOROUGH ? 16 : 7)), p = (int)sym_concretize(sym_u64("ranges", 0, 5));
  go(n, p, (n + p) % 3, true, "drv");
}
