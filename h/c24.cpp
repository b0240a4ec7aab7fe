// C24: scanning keeps every valid message and signal exactly once and in order; a scanner can be used again.
#include "lib.h"
#include "parser/dbcscanner.h"
struct Sig { S name; uint64_t start; }; struct Msg { S name; uint64_t id; bool ext; int dlc; std::vector<Sig> sigs; };
static uint64_t digits(const S& n, int k, S& t) { uint64_t v = 0; for (int i = 0; i < k; i++) { uint64_t d = sym_u64((n + "#" + num(i)).c_str(), i == 0 && k > 1, 9); v = v * 10 + d; t += (char)('0' + d); } return v; }
static const char* REJ[] = {"BO_ 3221225472 VECTOR__INDEPENDENT_SIG_MSG: 0 Vector__XXX", "BO_ 77 Rej: 65 N1", "BO_ 78 Rej 8 N1", "BO_ 536870912 Rej: 8 N1", "BO_ 81", "BO_ 79 : 8 N1", "BO_ 80 Rej: N1", "BO_ 1610612737 Rej: 8 N1"};
static const char* BAD[] = {"SG_ Z : 0|0@1+ (1,0) [0|0] \"\" N2", "SG_ Z : 0|65@1+ (1,0) [0|0] \"\" N2", "SG_ Z", "SG_ Z :"};
static const char* OTHER[] = {"", "  \t", "BU_: N1 N2", "EV_ Env: 0 [0|100] \"unit\" 0 9 DUMMY_NODE_VECTOR0 N1;", "SIG_VALTYPE_ 100 S0 : 1;", "VAL_TABLE_ T 1 \"SG_ x\" 0 \"BO_ y\" ;", "SGTYPE_ X : 8@1+ ;", "BA_DEF_ SG_ \"A\" INT 0 10;", "CM_ BU_ N1 \"BO_ 9 Q: 8 N1\";", "SIG_GROUP_ 100 G 1 : S0 S1;"};
static S message(Msg& m, int i, bool ext) { S t = "BO_ "; S d; if (ext) { uint64_t v = digits("id" + num(i), 2, d); d = "21474836" + d; sym_assume(v >= 48); m.id = v - 48; } else m.id = digits("id" + num(i), 3, d); m.ext = ext; m.dlc = 1 + (i * 5) % 64; m.name = "M" + num(i); return t + d + " " + m.name + ": " + num(m.dlc) + " N1"; }
static S signal(Sig& s, int i, int k) { static const char* F[] = {"8@1+ (1,0) [0|0] \"\" N2", "1@1- (1,0) [0|0] \"SG_\" N2,N3", "3@0+ (2,0) [0|0] \"\" N2", "16@0- (0.5,-1) [0|0] \"BO_ 1 B: 8 N\" Vector__XXX", "64@1+ (1,0) [0|0] \"\" N2"}; S d; s.start = digits("start" + num(i), k, d); s.name = "S" + num(i); return "SG_ " + s.name + (i % 4 == 1 ? " M" : i % 4 == 2 ? " m1" : "") + " : " + d + "|" + F[i % 5]; }
static S plain(const SignalDescriptor_t& s) { S n = s.Name; if (n.size() > 3 && n.substr(n.size() - 3) == "_ro") n.resize(n.size() - 3); return n; }
static void verify(DbcScanner& sc, const std::vector<Msg>& ms) {
  auto& g = sc.dblist.msgs; sym_assert(g.size() == ms.size(), "exactly the valid messages");
  for (size_t i = 0; i < ms.size(); i++) {
    sym_assert(g[i]->Name == ms[i].name, "messages in file order"); sym_assert((g[i]->MsgID == ms[i].id) & (g[i]->IsExt == ms[i].ext) & (g[i]->DLC == ms[i].dlc), "identifier and length of the message");
    auto& s = g[i]->Signals; sym_assert(s.size() == ms[i].sigs.size(), "exactly the signals of the message"); sym_assert(g[i]->frameNotEmpty == !s.empty(), "message known to have signals"); bool ord = true; for (size_t k = 1; k < s.size(); k++) ord &= s[k - 1].StartBit <= s[k].StartBit; sym_assert(ord, "signals ordered by start bit");
    for (auto& e : ms[i].sigs) { int n = 0; bool ok = true; for (auto& x : s) if (plain(x) == e.name) { n++; ok &= x.StartBit == e.start; } sym_assert(n == 1 && ok, "signal kept exactly once with its start bit"); }
    if (s.size() > 1) sym_cover("several signals"); if (s.empty()) sym_cover("no signals");
  }
}
// sequences of lines: 0 message, 1 rejected message, 2 signal, 3 unreadable signal, 4 other line
static S build(int k, int tag, std::vector<Msg>& ms) {
  S t; bool open = false; int start = (int)sym_concretize(sym_u64("style", 0, TIER_THOROUGH ? 7 : 1)); const char* nl = (start & 1) ? "\r\n" : "\n"; const char* in = (start & 2) ? "\t" : " "; int v = tag * 7 + (start >> 2);
  for (int i = 0; i < k; i++) {
    int w = (int)sym_concretize(sym_u64(("line" + num(i)).c_str(), 0, 4)); v += w + 1; S l;
    if (w == 0) { ms.push_back(Msg()); l = message(ms.back(), i, (v + i) % 2); for (size_t j = 0; j + 1 < ms.size(); j++) if (ms[j].ext == ms.back().ext) sym_assume(ms[j].id != ms.back().id); open = true; }
    else if (w == 1) { l = REJ[v % 8]; open = false; sym_cover("rejected message"); }
    else if (w == 2) { Sig s; l = in + signal(s, i, 1 + (i + v) % 2); if (open) ms.back().sigs.push_back(s); else sym_cover("signal of a rejected message"); }
    else if (w == 3) l = S(in) + BAD[v % 4]; else l = OTHER[v % 10];
    t += l; if (i < k - 1 || v % 3) t += nl;
  }
  return t;
}
extern "C" void menu() {
  std::vector<Msg> ms; S t = "VERSION \"1.0\"\n\nNS_ :\n\tCM_\n\tBA_\n\tVAL_\n\tBO_TX_BU_\n\nBS_:\n\n"; t += build(TIER_THOROUGH ? 5 : 4, 0, ms); DbcScanner sc; std::stringstream s(t); sc.TrimDbcText(s); verify(sc, ms); sym_cover("menu");
}
// longer files: many messages, many signals of which some have any start bit
extern "C" void many() {
  static const int N[] = {3, 16, 17, 24, 40, 64}; int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 23 : 7)), n = N[(c + c / 6) % 6], nm = 1 + (c * 5) % 13; std::vector<Msg> ms((size_t)nm); S t = "VERSION \"1.0\"\n";
  for (int i = 0; i < nm; i++) {
    Msg& m = ms[(size_t)i]; m.name = "Msg" + num(i); m.id = (uint64_t)(1000 - i * 7); m.ext = false; m.dlc = i == nm / 2 ? 64 : 8 + i; t += "BO_ " + num((long long)m.id) + " " + m.name + ": " + num(m.dlc) + " N1\n"; int ns = i == nm / 2 ? n : i % 4;
    for (int k = 0; k < ns; k++) { Sig g; g.name = "S" + num(k); bool wide = i == nm / 2 && c % 3; g.start = (uint64_t)((k * (c % 2 ? 23 : 61) * (wide ? 7 : 1) + 5 * i) % (wide ? 512 : 64)); S d = num((long long)g.start); if (i == nm / 2 && (k == n / 3 || (n < 17 && k == n - 1))) { d = ""; g.start = digits("start" + num(k), wide ? 3 : 2, d); } m.sigs.push_back(g); t += " SG_ " + g.name + " : " + d + "|1@1+ (1,0) [0|0] \"\" N2\n"; }
    if (i % 3) t += "\n"; if (i % 5 == 4) t += S(REJ[i % 8]) + "\n SG_ S0 : 0|1@1+ (1,0) [0|0] \"\" N2\n";
  }
  t += "BO_TX_BU_ 1000 : N1,N3;\nCM_ \"end\";\n"; DbcScanner sc; std::stringstream s(t); sc.TrimDbcText(s); verify(sc, ms); sym_cover("many");
}
static bool eq(const SignalDescriptor_t& a, const SignalDescriptor_t& b) {
  bool f = std::memcmp(&a.Factor, &b.Factor, 8) == 0 && std::memcmp(&a.Offset, &b.Offset, 8) == 0;
  return a.Name == b.Name && a.NameFloat == b.NameFloat && a.Unit == b.Unit && a.RecS == b.RecS && a.CommentText == b.CommentText && a.ValueText == b.ValueText && a.ValDefs.vpairs == b.ValDefs.vpairs && f && ((a.StartBit == b.StartBit) & (a.LengthBit == b.LengthBit) & (a.Order == b.Order) & (a.Signed == b.Signed) & (a.Multiplex == b.Multiplex) & (a.TypeRo == b.TypeRo) & (a.TypePhys == b.TypePhys) & (a.IsDoubleSig == b.IsDoubleSig) & (a.IsSimpleSig == b.IsSimpleSig));
}
static int at(const MessageDescriptor_t& m, const SignalDescriptor_t* s) { for (size_t i = 0; s && i < m.Signals.size(); i++) if (&m.Signals[i] == s) return (int)i; return s ? -2 : -1; }
static void equal(DbcScanner& a, DbcScanner& b) {
  sym_assert((a.dblist.ver.hi == b.dblist.ver.hi) & (a.dblist.ver.low == b.dblist.ver.low), "version as with a fresh scanner"); sym_assert(a.dblist.maxDlcValue == b.dblist.maxDlcValue, "maximum data length as with a fresh scanner"); sym_assert(a.dblist.msgs.size() == b.dblist.msgs.size(), "messages as with a fresh scanner");
  for (size_t i = 0; i < a.dblist.msgs.size(); i++) {
    auto &x = *a.dblist.msgs[i], &y = *b.dblist.msgs[i]; sym_assert(x.Name == y.Name && x.TranS == y.TranS && x.RecS == y.RecS && x.CommentText == y.CommentText && x.CsmMethod == y.CsmMethod && ((x.DLC == y.DLC) & (x.MsgID == y.MsgID) & (x.IsExt == y.IsExt) & (x.Cycle == y.Cycle) & (x.CsmOp == y.CsmOp) & (x.frameNotEmpty == y.frameNotEmpty) & (x.hasPhys == y.hasPhys)), "message as with a fresh scanner"); sym_assert(at(x, x.RollSig) == at(y, y.RollSig) && at(x, x.CsmSig) == at(y, y.CsmSig), "marked signals as with a fresh scanner");
    sym_assert(x.Signals.size() == y.Signals.size(), "signals as with a fresh scanner"); for (size_t k = 0; k < x.Signals.size(); k++) sym_assert(eq(x.Signals[k], y.Signals[k]), "signal as with a fresh scanner");
  }
}
static const char* PART[] = {"BO_ 100 P: 64 N9\n SG_ S0 : 0|8@1+ (1,0) [0|0] \"\" N7\n", "CM_ SG_ 100 S0 \"unfinished", "VAL_ 100 S0 1 \"unfinished\"", "BA_ \"GenMsgCycleTime\" BO_ 100", "VERSION \"9.8\"\n", "BO_TX_BU_ 100 : N9;\n", "CM_ BO_ 100 \"old\";\nCM_ SG_ 100 S0 \"<RollingCounter>\";\nCM_ SG_ 100 S0 \"<Checksum:X:1>\";\nBA_ \"GenMsgCycleTime\" BO_ 100 77;\nVAL_ 100 S0 1 \"old\" ;\n", "BO_ 200 Q: 8 N1\n", "CM_", "  "};
extern "C" void again() { // any first text, then any second one
  int p = (int)sym_concretize(sym_u64("first", 0, 9)), q = (int)sym_concretize(sym_u64("first end", 0, 9)), w = (int)sym_concretize(sym_u64("second", 0, 4)); if (!TIER_THOROUGH && (p * 3 + q + w * 2) % 6) return; S d, e, f; digits("value", 2, d); digits("start", 1, e); digits("text", 1, f);
  S t = w == 1 ? "\";\n" : w == 2 ? "2 \"b\" ;\n" : w == 3 ? " 55;\n" : w == 4 ? "VERSION \"1." + d + "\"\n" : ""; t += "BO_ 100 A: " + d + " N1\n SG_ S1 : " + e + "|8@1+ (1,0) [0|0] \"\" N2\n SG_ S0 : 4|4@1+ (" + d + ",0) [0|0] \"V\" N2\n\nBO_ 101 B: 8 N1\n"; if (w % 2) t += "CM_ SG_ 100 S1 \"x" + f + "<RollingCounter>\";\nVAL_ 100 S1 " + d + " \"v\" ;\n"; if (w % 3) t += "BO_TX_BU_ 101 : N4,N" + f + ";\nBA_ \"GenMsgCycleTime\" BO_ 101 " + d + ";\n";
  DbcScanner a, b; std::stringstream first(S(PART[p]) + PART[q]), s1(t), s2(t); a.TrimDbcText(first); a.TrimDbcText(s1); b.TrimDbcText(s2); equal(a, b); if (w == 0) { std::stringstream s3(t); a.TrimDbcText(s3); equal(a, b); } sym_cover("scanned again");
}
