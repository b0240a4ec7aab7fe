// C20: per-node utilities contain exactly the node's messages.
#include "lib.h"
struct Msg { S text; uint64_t id; bool empty; int tx; std::vector<std::vector<int>> rx; int len; }; // rx: receivers per signal
struct Extra { S text; uint64_t id; std::vector<int> n; };
// the node's name in front of "_drv" -> "node", so that the text compiles under a fixed name
static S fixed(const S& t, const S& name) {
  S r; S low = lower(name), up = upper(name); size_t i = 0, n = name.size();
  for (;;) {
    size_t p = t.find("_drv", i), q = t.find("_DRV", i); if (q < p) p = q; if (p == S::npos) return r + t.substr(i);
    bool hit = false; if (p >= i + n && !(p > i + n && isalnum((unsigned char)t[p - n - 1]))) { S w = t.substr(p - n, n); hit = same(w, low) || same(w, up); }
    if (hit) { r += t.substr(i, p - n - i); r += t[p + 1] == 'D' ? "NODE" : "node"; } else r += t.substr(i, p - i);
    r += t.substr(p, 4); i = p + 4;
  }
}
static void claim(bool c, const char* what, bool clash) { if (clash) sym_assert_known(c, what, "node-name-case", true); else sym_assert(c, what); }
static void utility(const S& u, const S& hdr, const S& src, const std::vector<Msg>& ms, const std::vector<bool>& rx, const std::vector<bool>& tx, bool clash) {
  sym_cc_reset(); ccdriver("drv"); ccadd("butl/" + u + "-binutil.h", hdr); ccadd("butl/" + u + "-binutil.c", src);
  S a = "#include \"lib/drv.h\"\n#include \"" + u + "-binutil.h\"\nstatic void* hit;\n", srx = "0", stx = "0", f; bool ar = false, at = false;
  for (size_t i = 0; i < ms.size(); i++) {
    S k = num((int)i), m = "M" + k; if (!ms[i].empty) f += "uint32_t Unpack_" + m + "_drv(" + m + "_t* m, const uint8_t* d, uint8_t n) { hit = m; return 1; }\n";
    if (rx[i]) { ar = true; srx += "+sizeof(" + m + "_t)"; f += "void* rx" + k + "(" + u + "_rx_t* r) { return &r->" + m + "; }\n"; }
    if (tx[i]) { at = true; stx += "+sizeof(" + m + "_t)"; f += "void* tx" + k + "(" + u + "_tx_t* r) { return &r->" + m + "; }\n"; }
  }
  // an empty set has no structure: its name is still free
  f += ar ? "int srx(void) { return sizeof(" + u + "_rx_t) == " + srx + "; }\nvoid* go(uint32_t id, void* r) { static uint8_t d[8]; hit = 0; " + u + "_Receive(r, d, id, 8); return hit; }\n" : "typedef void " + u + "_rx_t; int srx(void) { return 1; }\n";
  f += at ? "int stx(void) { return sizeof(" + u + "_tx_t) == " + stx + "; }\n" : "typedef void " + u + "_tx_t; int stx(void) { return 1; }\n";
  ccadd("shim.c", a + f + "#include \"" + u + "-binutil.c\"\n");
  uint64_t k = sym_cc_compile("shim.c", CCINC); claim(k != 0, "utility has every message of the node", clash);
  claim(sym_as<int (*)()>(k, "srx")() != 0, "receive set has no other message", clash); claim(sym_as<int (*)()>(k, "stx")() != 0, "transmit set has no other message", clash);
  if (ar) { uint8_t st[256]; for (size_t i = 0; i < ms.size(); i++) { void* g = sym_as<void* (*)(uint32_t, void*)>(k, "go")((uint32_t)ms[i].id, st); claim(g == (rx[i] ? sym_as<void* (*)(void*)>(k, ("rx" + num((int)i)).c_str())(st) : nullptr), "exactly the receive set is dispatched", clash); } }
  sym_cover(ar && at ? "both" : ar ? "receives" : at ? "transmits" : "only empty messages");
}
static void go(const std::vector<Msg>& ms, const std::vector<S>& names, const std::vector<Extra>& ex, bool utils) {
  S d = "VERSION \"1.2\"\n\nBU_: N1\n\n";
  for (size_t i = 0; i < ms.size(); i++) {
    auto& m = ms[i]; d += "BO_ " + m.text + " M" + num((int)i) + ": " + num(m.len) + " " + (m.tx < 0 ? S() : names[(size_t)m.tx]) + "\n";
    if (!m.empty) for (size_t k = 0; k < m.rx.size(); k++) { d += " SG_ S" + num((int)k) + " : " + num((int)k * 8) + "|8@1+ (1,0) [0|0] \"\" "; for (size_t j = 0; j < m.rx[k].size(); j++) d += (j ? (j % 2 ? "," : ", ") : "") + names[(size_t)m.rx[k][j]]; d += "\n"; }
    d += "\n";
  }
  for (auto& e : ex) { d += "BO_TX_BU_ " + e.text + " : "; for (size_t j = 0; j < e.n.size(); j++) d += (j ? "," : "") + names[(size_t)e.n[j]]; d += ";\n"; }
  gen(d + "\n", "drv", utils ? std::vector<S>{"-nodeutils"} : std::vector<S>{});
  if (!utils) { std::vector<bool> rx, tx(ms.size()); for (auto& m : ms) rx.push_back(!m.empty); sym_assert(isfile("out/butl/drv-binutil.h") && isfile("out/butl/drv-binutil.c"), "one utility"); utility("drv", get("out/butl/drv-binutil.h"), get("out/butl/drv-binutil.c"), ms, rx, tx, false); sym_cover("one utility"); return; }
  for (size_t n = 0; n < names.size(); n++) {
    bool dup = false, clash = false; for (size_t o = 0; o < n; o++) if (same(names[n], names[o])) dup = true; if (dup) continue;
    std::vector<bool> rx, tx; bool used = false;
    for (auto& m : ms) {
      bool r = false, t = m.tx >= 0 && same(names[(size_t)m.tx], names[n]); if (!m.empty) for (auto& g : m.rx) for (int x : g) if (same(names[(size_t)x], names[n])) r = true;
      for (auto& e : ex) if (e.id == m.id) for (int x : e.n) if (same(names[(size_t)x], names[n])) t = true;
      used = used || r || t; rx.push_back(r); tx.push_back(t && !m.empty);
    }
    if (!used) continue;
    for (size_t o = 0; o < names.size(); o++) if (!same(names[n], names[o]) && same(lower(names[n]), lower(names[o]))) clash = true;
    S b = "out/butl/" + lower(names[n]) + "_drv-binutil"; claim(isfile(b + ".h") && isfile(b + ".c"), "the node has a utility pair", clash);
    utility("node_drv", fixed(get(b + ".h"), names[n]), fixed(get(b + ".c"), names[n]), ms, rx, tx, clash);
  }
}
static S node(int i, int n, int cls) { S r; for (int k = 0; k < n; k++) { unsigned char c = (unsigned char)sym_u64(("node" + num(i) + "#" + num(k)).c_str(), cls ? 'A' : 'a', 'z'); sym_assume((c <= 'Z') | (c >= 'a')); r += (char)c; } return r; }
// who sends and receives what: any names
static void shape(int c, int k, int l, int cls) {
  std::vector<S> nm; for (int i = 0; i < k; i++) nm.push_back(node(i, l, cls)); nm.push_back(S("nde").substr(0, (size_t)l)); nm.push_back("Vector__XXX"); int f = k, v = k + 1;
  std::vector<Msg> ms(3); for (int i = 0; i < 3; i++) { ms[i].id = (uint64_t)(i * 7 + c * 11 + (c % 2 ? 70000 : 0)); ms[i].text = unum(ms[i].id + (c % 2 ? 0x80000000ull : 0)); ms[i].empty = (i + c) % 6 == 5; ms[i].len = 3; }
  std::vector<Extra> ex; ms[0].tx = 0; ms[0].rx = {{1, k - 1}, {c % 2 ? v : k - 1}}; ms[1].tx = c % 5 == 4 ? -1 : c % 2 ? 1 : f; ms[1].rx = {{k - 1}, {0, f}, {1}}; ms[2].tx = c % 3 == 2 ? k - 1 : 1; ms[2].rx = {{f, c % 3 == 1 ? 0 : k - 1}};
  if (c % 4 == 2) ex.push_back({ms[1].text, ms[1].id, {k - 1, 0}}); if (c % 4 == 1) { ex.push_back({ms[2].text, ms[2].id, {k - 1}}); ex.push_back({ms[0].text, ms[0].id, {k - 1, v}}); }
  go(ms, nm, ex, true);
}
extern "C" void names() { int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 23 : 11)); shape(c, TIER_THOROUGH || c % 3 == 0 ? 4 : 3, 1 + c % (TIER_THOROUGH ? 3 : 2), 0); }
extern "C" void letters() { int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 11 : 3)); shape(c, 2, 1, 1); }
// additional transmitters: any message
extern "C" void senders() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 11 : 3)); bool e = c % 2; int n = 1 + (c + 1) % 3;
  std::vector<S> nm = {node(0, 2 - c % 2, 0), node(1, 2 - c % 2, 0), S("na").substr(c % 2), S("nb").substr(c % 2)}; std::vector<Msg> ms(3); std::vector<Extra> ex(2);
  for (int i = 0; i < 3; i++) { ms[i].text = symid("id" + num(i), e, n, ms[i].id); ms[i].len = 8; ms[i].empty = c == 4 && i == 1; ms[i].tx = i == 2 ? 0 : 2; ms[i].rx = {{i == 1 ? 2 : 3}}; if (i) sym_assume(c % 4 > 1 ? ms[i].id < ms[i - 1].id : ms[i - 1].id < ms[i].id); }
  for (int i = 0; i < 2; i++) { ex[i].text = symid("of" + num(i), e, n, ex[i].id); ex[i].n = i ? std::vector<int>{0, 1} : std::vector<int>{c % 3 == 1 ? 0 : 1}; }
  go(ms, nm, ex, true);
}
// long lists of receivers and transmitters
extern "C" void many() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 23 : 7)), n = 5 + (c * 5) % 12, nm_ = 2 + c % 3; unsigned char x = (unsigned char)sym_u64("letter", 'a', 'z'); std::vector<S> nm = {S("n") + (char)x}; for (int i = 1; i < n; i++) nm.push_back(S("n") + (char)('b' + (i * 5 + c) % 19)); nm.push_back("Vector__XXX");
  std::vector<Msg> ms((size_t)nm_); std::vector<Extra> ex; for (int i = 0; i < nm_; i++) { Msg& m = ms[(size_t)i]; m.id = (uint64_t)(300 - i * 3 + c); m.text = unum(m.id); m.len = 8; m.empty = false; m.tx = (i * 3 + c) % n; for (int k = 0; k < 1 + (i + c) % 6; k++) { std::vector<int> r; int len = 1 + (k * 3 + i * 5 + c) % n; for (int j = 0; j < len; j++) r.push_back((j * (1 + c % 3) + k * 2 + i) % (n + (k == 1))); m.rx.push_back(r); }
    if (i < 2) { std::vector<int> r; for (int j = 0; j < 2 + (c + i * 7) % (n - 2); j++) r.push_back((j + i * 3 + c) % n); ex.push_back({m.text, m.id, r}); } }
  go(ms, nm, ex, true); sym_cover("long lists");
}
extern "C" void single() { // without the option
  int c = (int)sym_concretize(sym_u64("case", 0, 7)); std::vector<S> nm = {node(0, 1, 1), node(1, 1, 1), "na"}; std::vector<Msg> ms(1 + (size_t)c % 4); for (size_t i = 0; i < ms.size(); i++) { ms[i].text = symid("id" + num((int)i), c % 2, 1 + c % 3, ms[i].id); ms[i].len = 8; ms[i].empty = ((int)i + c) % 3 == 1; ms[i].tx = (int)i % 3; ms[i].rx = {{1}, {0, 2}}; if (i) sym_assume(c > 3 ? ms[i].id < ms[i - 1].id : ms[i - 1].id < ms[i].id); }
  go(ms, nm, {}, false);
}
