// C26: names pass into the generated code unchanged: the files generated with any names are those generated
// with short fixed names, with the names replaced (white space aside).
#include "lib.h"
struct Names { S msg, msg2, plain, scaled, bit, roll, val, tx, rx, drv; };
static S dbc(const Names& n) {
  S d = "VERSION \"1.2\"\n\nBO_ 100 " + n.msg + ": 8 " + n.tx + "\n SG_ " + n.plain + " : 0|13@1- (1,0) [0|0] \"\" " + n.rx + "\n SG_ " + n.scaled + " : 13|5@1+ (3,-2) [0|0] \"\" " + n.rx + "\n SG_ " + n.roll + " : 18|6@1+ (1,0) [0|0] \"\" " + n.rx + "\n";
  for (int i = 0; i < 8; i++) d += " SG_ " + n.bit + num(i) + " : " + num(24 + i) + "|1@1+ (1,0) [0|0] \"\" " + n.rx + "\n"; d += " SG_ " + n.bit + "8 : 39|30@0- (0.5,1) [0|0] \"V\" " + n.rx + "\n\nBO_ 2147483749 " + n.msg2 + ": 2 " + n.rx + "\n SG_ " + n.plain + " : 0|8@1+ (1,0) [0|0] \"\" " + n.tx + "\n\n";
  return d + "BO_TX_BU_ 2147483749 : " + n.rx + "," + n.tx + ";\nCM_ SG_ 100 " + n.roll + " \"<RollingCounter>\";\nCM_ BO_ 100 \"text\";\nBA_ \"GenMsgCycleTime\" BO_ 100 50;\nVAL_ 100 " + n.plain + " 1 \"" + n.val + "\" 2 \"Two\" ;\nVAL_ 100 " + n.scaled + " 3 \"" + n.val + "\" ;\n";
}
static const Names REF = {"Qaq", "Qbq", "Qcq", "Qdq", "Qeq", "Qfq", "Qgq", "Qhq", "Qiq", "Qjq"};
// one white space for any run of them
static S norm(const S& t) { S r; bool sp = true; for (char c : t) { bool w = (c == ' ') | (c == '\t') | (c == '\n'); if (!w) { r += c; sp = false; } else if (!sp) { r += ' '; sp = true; } } return r; }
// replaces the reference names (any letter case of them, the name being changed the same way)
static S subst(const S& t, const Names& n) {
  const S* v[] = {&n.msg, &n.msg2, &n.plain, &n.scaled, &n.bit, &n.roll, &n.val, &n.tx, &n.rx, &n.drv}; S r;
  for (size_t i = 0; i < t.size();) {
    char a = t[i], b = i + 1 < t.size() ? t[i + 1] : 0, c = i + 2 < t.size() ? t[i + 2] : 0; if ((a == 'Q' || a == 'q') && (c == 'q' || c == 'Q')) {
      bool lo = a == 'q', up = c == 'Q'; int k = up ? b - 'A' : b - 'a'; if (k >= 0 && k < 10 && !(lo && up)) { r += lo ? lower(*v[k]) : up ? upper(*v[k]) : *v[k]; i += 3; continue; }
    }
    r += a; i++;
  }
  return r;
}
static std::vector<S> files(const Names& n, bool nodes) {
  S d = lower(n.drv); std::vector<S> f = {"lib/" + d + ".h", "lib/" + d + ".c", "lib/" + d + "-fmon.h", "usr/" + d + "-fmon.c", "conf/" + d + "-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h"};
  for (const char* e : {".h", ".c"}) if (!nodes) f.push_back("butl/" + d + "-binutil" + e); else for (const S& x : {n.tx, n.rx}) f.push_back("butl/" + lower(x) + "_" + d + "-binutil" + e); return f;
}
static void check(const Names& n, bool nodes, const char* what) {
  std::vector<S> opt; if (nodes) opt.push_back("-nodeutils"); gen(dbc(REF), REF.drv, opt); std::vector<S> ref, fr = files(REF, nodes), f = files(n, nodes); for (auto& x : fr) { sym_assert(isfile("out/" + x), "file of the reference"); ref.push_back(norm(subst(get("out/" + x), n))); }
  gen(dbc(n), n.drv, opt); for (size_t i = 0; i < f.size(); i++) { sym_assert(isfile("out/" + f[i]), ("file with the names: " + S(what)).c_str()); sym_assert(same(norm(get("out/" + f[i])), ref[i]), ("names unchanged: " + S(what)).c_str()); }
}
static S& slot(Names& n, int k) { S* v[] = {&n.msg, &n.msg2, &n.plain, &n.scaled, &n.bit, &n.roll, &n.val, &n.tx, &n.rx, &n.drv}; return *v[k]; }
static const char* SLOT[] = {"message", "other message", "plain signal", "scaled signal", "bit signals", "counter", "value", "sender", "receiver", "driver"};
static Names base() { return {"Ma", "Mb", "Sa", "Sb", "Bits", "Sd", "Va", "Na", "Nb", "dr"}; }
// one or all names long, first and last characters symbolic
static const int LEN[] = {32, 128, 17, 1, 29, 64, 31, 33, 100, 28, 30, 48, 63, 65, 2, 8, 16, 20, 24, 27, 40, 56, 80, 96, 110, 120, 127};
static S name(const S& id, int n, bool symb, char tag) { S r; for (int i = 0; i < n; i++) r += (char)(i % 7 == 6 ? '0' + i % 10 : i % 5 == 3 ? '_' : 'a' + (i * 11 + tag) % 26); r[0] = tag; if (symb && n > 1) { S c = symident(id, 2); sym_assume(c[1] != tag); r[(size_t)n - 1] = c[1]; if (n > 3) r[1] = c[0]; } return r; }
extern "C" void lengths() {
  int k = (int)sym_concretize(sym_u64("place", 0, 10)), l = LEN[sym_concretize(sym_u64("length", 0, TIER_THOROUGH ? 26 : 6))]; Names n = base(); for (int i = 0; i < 10; i++) if (k == i || k == 10) slot(n, i) = name("name" + num(i), l, k != 10 && i < 7, (char)('F' + i)); if (k == 10 && l == 128) n.drv = name("drv", 60, false, 'D');
  check(n, (k + l) % 2, k == 10 ? "all" : SLOT[k]); sym_cover(k == 10 ? "all" : SLOT[k]);
}
// short names of any identifier characters
extern "C" void letters() {
  int k = (int)sym_concretize(sym_u64("place", 0, 6)), l = (int)sym_concretize(sym_u64("length", 1, TIER_THOROUGH ? 4 : 3)); Names n = base(); S x = symident("name", l, 0); const S pre = k == 6 ? "" : l == 2 ? "e" : ""; slot(n, k) = pre + x; for (int i = 0; i < 10; i++) if (i != k && slot(n, i).size() == slot(n, k).size()) sym_assume(!same(slot(n, i), slot(n, k)));
  check(n, l % 2, "letters"); sym_cover("letters");
}
