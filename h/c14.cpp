// C14: comments, attributes and value tables reach exactly the named object.
#include "lib.h"
#include "parser/dbcscanner.h"
struct Msg { uint64_t id; bool ext; S text; std::vector<S> sig; std::vector<int> kind; }; // kind 0 plain, 1 integer scaled, 2 floating
static const char* SC[] = {"1,0", "2,-5", "0.5,0"};
static S bo(const Msg& m, const S& name) { S d = "BO_ " + m.text + " " + name + ": 8 N1\n"; for (size_t i = 0; i < m.sig.size(); i++) d += " SG_ " + m.sig[i] + " : " + num((int)i * 8) + "|8@1+ (" + SC[m.kind[i]] + ") [0|0] \"\" N2\n"; return d + "\n"; }
// text of a description: first character fixed (no keyword), printable, optionally with a line break inside
static S desc(const S& name, int n, int nl) { S r = "x"; for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)sym_u64((name + "#" + num(i)).c_str(), i == n - 1 ? 33 : 32, 126); sym_assume(c != '"'); if (i == nl) { r += "\nx"; } if (i == nl - 1) sym_assume(c != ' '); r += (char)c; } return r; }
static bool is(uint64_t a, bool ae, uint64_t b, bool be) { return (a == b) & (ae == be); }
struct Target { uint64_t id; bool ext; S text; S sig; };
// kind of entry: 0 message comment, 1 signal comment, 2 value table, 3 cycle time
static S entry(int kind, const Target& t, const S& txt, const S& val) {
  switch (kind) {
    case 0: return "CM_ BO_ " + t.text + " \"" + txt + "\";\n";
    case 1: return "CM_ SG_ " + t.text + " " + t.sig + " \"" + txt + "\";\n";
    case 2: return "VAL_ " + t.text + " " + t.sig + " " + val + " \"Val\" 7 \"Seven\" ;\n";
    default: return "BA_ \"GenMsgCycleTime\" BO_ " + t.text + " " + val + ";\n";
  }
}
static void verify(DbcScanner& sc, const std::vector<Msg>& ms, int kind, const Target& t, const S& txt, uint64_t val, const S& what) {
  sym_assert(sc.dblist.msgs.size() == ms.size(), "messages kept");
  for (size_t i = 0; i < ms.size(); i++) {
    auto* m = sc.dblist.msgs[i]; bool mine = is(ms[i].id, ms[i].ext, t.id, t.ext); sym_assert(m->Signals.size() == ms[i].sig.size(), "signals kept");
    if (m->CommentText.empty()) sym_assert(!(mine & (kind == 0)), ("message comment reaches its message" + what).c_str()); else { sym_assert(mine & (kind == 0), ("message comment only at its message" + what).c_str()); sym_assert(same(m->CommentText, txt), "text of the message comment"); sym_cover("message comment"); }
    if (kind == 3) sym_assert(m->Cycle == (mine ? val : 0), ("cycle time exactly at its message" + what).c_str()); else sym_assert(m->Cycle == 0, "no cycle time");
    for (size_t k = 0; k < ms[i].sig.size(); k++) {
      auto& s = m->Signals[k]; bool hit = mine & same(ms[i].sig[k], t.sig); S w = what + (ms[i].kind[k] ? " scaled" : " plain");
      if (s.CommentText.empty()) sym_assert(!(hit & (kind == 1)), ("signal comment reaches its signal" + w).c_str()); else { sym_assert(hit & (kind == 1), ("signal comment only at its signal" + w).c_str()); sym_assert(same(s.CommentText, txt), "text of the signal comment"); sym_cover("signal comment"); }
      if (s.ValDefs.vpairs.empty()) sym_assert(!(hit & (kind == 2)), ("value table reaches its signal" + w).c_str()); else {
        sym_assert(hit & (kind == 2), ("value table only at its signal" + w).c_str()); auto& v = s.ValDefs.vpairs; sym_assert(v.size() == 2 && v[0].first == "Val" && v[0].second == (int64_t)val && v[1].first == "Seven" && v[1].second == 7, "entries of the value table"); sym_assert(!s.ValueText.empty(), "value text"); sym_cover("value table"); }
      sym_assert(kind == 2 || s.ValueText.empty(), "no value text");
    }
  }
  if (kind == 3) sym_cover("cycle time");
}
static const int ND[] = {1, 2, 3, 4, 9, 6, 5, 7, 8};
// identifiers and names symbolic; the entry names any of them or none
extern "C" void targets() {
  int kind = (int)sym_concretize(sym_u64("kind", 0, 3)), c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 47 : 15)); int n = ND[c % 9]; bool ext = c % 2, ext2 = c % 4 == 3 ? !ext : ext;
  std::vector<Msg> ms(2); int ln = 1 + c % 3;
  ms[0].ext = ext; ms[0].text = symid("id0", ext, n, ms[0].id); ms[1].ext = ext2; ms[1].text = symid("id1", ext2, c % 5 == 4 ? 1 + n % 9 : n, ms[1].id); sym_assume(ms[0].id != ms[1].id);
  S a = symident("name a", ln, c % 2 ? 2 : 0), b = symident("name b", ln + (c % 4 == 1), 2), d = symident("name c", ln + (c % 3 == 1 ? 3 : 0), 0); sym_assume(!same(a, b) & !same(a, d) & !same(b, d));
  ms[0].sig = {a, b}; ms[0].kind = {c % 3, (c + 1) % 3}; ms[1].sig = {b, d, a}; ms[1].kind = {(c / 3) % 3, (c + 2) % 3, (c / 2) % 3};
  Target t; t.ext = c % 8 == 3 ? ext2 : ext; t.text = symid("target id", t.ext, n, t.id); if (t.ext != ext) sym_assume(t.id != ms[0].id); if (t.ext != ext2) sym_assume(t.id != ms[1].id);
  int tn = c % 5 == 2 ? ln + 1 : c % 7 == 3 && ln > 1 ? ln - 1 : ln; t.sig = symident("target name", tn, 0);
  uint64_t val; S vt = symdec("value", 1 + c % 9, val); S txt = desc("text", 1 + c % 3, -1);
  S e = entry(kind, t, txt, vt), file = "VERSION \"1.2\"\n\nBU_: N1 N2\n\n" + bo(ms[0], "MA") + bo(ms[1], "MB");
  if (c % 4 == 0) file += "BA_DEF_ BO_ \"GenMsgCycleTime\" INT 0 65535;\nBA_DEF_DEF_ \"GenMsgCycleTime\" 0;\nCM_ \"File\";\nCM_ BU_ N1 \"Node\";\nVAL_ Env 1 \"a\" 2 \"b\" ;\n";
  file += e; DbcScanner sc; std::stringstream s(file); sc.TrimDbcText(s); verify(sc, ms, kind, t, txt, val, "");
}
// two entries, also one of an unknown object between; multi-line texts
extern "C" void order() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 23 : 7)); int k1 = c % 3, k2 = (c / 3) % 4; if (k1 == k2) k2 = 3;
  std::vector<Msg> ms(2); ms[0].ext = c % 2; ms[0].text = symid("id0", c % 2, 3, ms[0].id); ms[1].ext = c % 2; ms[1].text = symid("id1", c % 2, 3, ms[1].id); sym_assume(ms[0].id != ms[1].id);
  S a = symident("name a", 1, 2), b = symident("name b", 1, 2); sym_assume(!same(a, b)); ms[0].sig = {a, b}; ms[1].sig = {b, a}; ms[0].kind = {c % 2, (c / 2) % 2 * 2}; ms[1].kind = {0, 1};
  Target t1, t2; t1.ext = t2.ext = c % 2; t1.text = symid("target1", t1.ext, 3, t1.id); t2.text = symid("target2", t2.ext, 3, t2.id); t1.sig = symident("sig1", 1, 2); t2.sig = symident("sig2", 1, 2);
  uint64_t v1, v2; S x1 = symdec("value1", 2, v1), x2 = symdec("value2", 2, v2); S l1 = symident("text1", 2, 1), l2 = symident("text2", 2, 1), d1 = "x" + l1.substr(0, 1) + (c % 3 == 1 ? "\nx" : "") + l1.substr(1), d2 = "x" + l2.substr(0, 1) + (c % 3 == 2 ? "\nx" : " ") + l2.substr(1);
  Target none = {0, false, "2047", "none", }; none.text = c % 2 ? "2147485695" : "2047"; // three digit identifiers never name it
  S file = "VERSION \"1.2\"\n\n" + bo(ms[0], "MA") + bo(ms[1], "MB") + entry(k1, t1, d1, x1) + (c % 2 ? "" : "\n") + entry(c % 4, none, "other", "9") + entry(k2, t2, d2, x2);
  DbcScanner sc; std::stringstream s(file); sc.TrimDbcText(s);
  for (size_t i = 0; i < 2; i++) {
    auto* m = sc.dblist.msgs[i]; bool h1 = ms[i].id == t1.id, h2 = ms[i].id == t2.id;
    bool c0 = (h1 & (k1 == 0)) | (h2 & (k2 == 0)); sym_assert(m->CommentText.empty() == !c0, "message comment exactly at its message"); if (!m->CommentText.empty()) sym_assert(same(m->CommentText, k1 == 0 ? d1 : d2), "text of the message comment");
    sym_assert(m->Cycle == (k2 == 3 ? (h2 ? v2 : 0) : 0), "cycle time exactly at its message");
    for (size_t k = 0; k < 2; k++) {
      auto& g = m->Signals[k]; bool s1 = h1 & same(ms[i].sig[k], t1.sig), s2 = h2 & same(ms[i].sig[k], t2.sig);
      sym_assert(g.CommentText.empty() == !((s1 & (k1 == 1)) | (s2 & (k2 == 1))), "signal comment exactly at its signal"); if (!g.CommentText.empty()) sym_assert(same(g.CommentText, k1 == 1 ? d1 : d2), "text of the signal comment");
      sym_assert(g.ValDefs.vpairs.empty() == !((s1 & (k1 == 2)) | (s2 & (k2 == 2))), "value table exactly at its signal"); if (!g.ValDefs.vpairs.empty()) sym_assert(g.ValDefs.vpairs[0].second == (int64_t)(k1 == 2 ? v1 : v2), "value");
    }
  }
  sym_cover("two entries");
}
// a standard and an extended message with the same 29 bits
extern "C" void collide() {
  int kind = (int)sym_concretize(sym_u64("kind", 0, 3)); bool first = sym_concretize(sym_u64("standard first", 0, 1)), te = sym_concretize(sym_u64("target extended", 0, 1));
  uint64_t a, b, t; S ta = symid("standard", false, 3, a), tb = symid("extended", true, 3, b), tt = symid("target", te, 3, t);
  S m0 = "BO_ " + (first ? ta : tb) + " MA: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n\n", m1 = "BO_ " + (first ? tb : ta) + " MB: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n\n";
  Target g = {t, te, tt, "A"}; DbcScanner sc; std::stringstream s("VERSION \"1.2\"\n\n" + m0 + m1 + entry(kind, g, "text", "5")); sc.TrimDbcText(s);
  for (int i = 0; i < 2; i++) {
    auto* m = sc.dblist.msgs[i]; bool me = (i == 0) != first; bool mine = ((me ? b : a) == t) & (me == te); bool got = kind == 0 ? m->CommentText == "text" : kind == 1 ? m->Signals[0].CommentText == "text" : kind == 2 ? m->Signals[0].ValDefs.vpairs.size() == 2 : m->Cycle == 5;
    sym_assert_known(got == mine, "entry exactly at the message of its identifier", "same-29-bit-id", (a == t) | (b == t));
  }
  sym_cover("collision");
}
