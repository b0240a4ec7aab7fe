// C18: command-line options.
#include "lib.h"
#include "options-parser.h"
#include "helpers/formatter.h"
static const char* OPT[] = {"-dbc", "-out", "-drvname", "-rw", "-nodeutils", "-help", "-noinc", "-noconfig", "-nofmon", "-driverdir", "-gendate"};
// what the statement demands, per option: given, and its last value
struct Want { bool on[11] = {}; S val[3]; };
static void expect(const std::vector<S>& a, Want& w) {
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].empty() || a[i][0] != '-') continue;
    S v; size_t at = i; if (i + 1 < a.size() && (a[i + 1].empty() || a[i + 1][0] != '-')) v = a[++i];
    for (int k = 0; k < 11; k++) { if (same(a[at], OPT[k])) { w.on[k] = true; if (k < 3) w.val[k] = v; } }
  }
}
static S name(const S& t) { S r; for (char c : t) { bool f = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'), d = (c >= '0') & (c <= '9'); if (c == ' ') r += '_'; else if (f | (d & !r.empty())) r += c; } return r; }
static void verify(const std::vector<S>& args) {
  std::vector<S> st = args; std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  OptionsParser p; auto o = p.GetOptions((int)st.size(), av.data()); Want w; expect(args, w); S n = name(w.val[2]);
  sym_assert(o.dbc.second == w.on[0] && same(o.dbc.first, w.val[0]), "DBC file"); sym_assert(o.outdir.second == w.on[1] && same(o.outdir.first, w.val[1]), "output directory");
  sym_assert(o.drvname.second == (w.on[2] && !n.empty()) && same(o.drvname.first, n), "driver name");
  sym_assert(o.is_rewrite == w.on[3], "-rw"); sym_assert(o.is_nodeutils == w.on[4], "-nodeutils"); sym_assert(o.is_help == w.on[5], "-help"); sym_assert(o.is_nocanmon == w.on[6], "-noinc"); sym_assert(o.is_noconfig == w.on[7], "-noconfig"); sym_assert(o.is_nofmon == w.on[8], "-nofmon"); sym_assert(o.is_driver_dir == w.on[9], "-driverdir"); sym_assert(o.add_gen_date == w.on[10], "-gendate");
  for (int k = 0; k < 11; k++) if (w.on[k]) sym_cover(OPT[k]);
}
// every text of the given length, or those of lower-case letters which may begin with a dash
static S word(const S& nm, int n, bool any) {
  S r((size_t)n, 'x');
  for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)sym_u64((nm + "#" + num(i)).c_str(), any ? 1 : i ? 'a' : '-', any ? 255 : 'z'); if (!any && !i) sym_assume((c == '-') | (c >= 'a')); r[(size_t)i] = (char)c; }
  return r;
}
extern "C" void words() {
  static const int L[][4] = {{4, 4, 4, 4}, {8, 3, 4, 5}, {8, 2, 8, 2}, {10, 8, 6, 7}, {9, 4, 10, 3}, {3, 0, 8, 1}, {5, 6, 7, 8}, {4, 8, 4, 1}, {7, 8, 0, 9}, {6, 5, 3, 8}, {8, 4, 4, 8}, {1, 9, 8, 10}, {4, 3, 3, 4}, {10, 10, 8, 8}};
  static const char* FIX[] = {"-drvname", "a", "-dbc", "", "-out", "-b"};
  int c = (int)sym_concretize(sym_u64("case", 0, 13)); std::vector<S> a = {"coderdbc"}; int m = TIER_THOROUGH ? 3 : 2; for (int i = 0; i < m; i++) a.push_back(word("arg" + num(i), L[c][(size_t)(i + (m == 2 ? c % 3 : c % 2))], false));
  a.insert(a.begin() + 1 + c % (m + 1), FIX[c % 6]); verify(a);
}
extern "C" void values() { // one option chosen freely with any value, surrounded by others
  int k = (int)sym_concretize(sym_u64("option", 0, 10)), n = (int)sym_concretize(sym_u64("length", 0, TIER_THOROUGH ? 4 : 3)), l = (int)sym_concretize(sym_u64("place", 0, 2)); S v = word("value", n, true);
  std::vector<S> a = {"./x/coderdbc"}, r = {"-dbc", "a.dbc", "-drvname", "first", "-out", "o"}; for (int i = 0; i < 3; i++) { if (i == l) { a.push_back(OPT[k]); a.push_back(v); } a.push_back(r[(size_t)i * 2]); a.push_back(r[(size_t)i * 2 + 1]); }
  if (k == l || k + l == 3) { a.push_back(OPT[k]); a.push_back(v); if (k % 2) a.push_back("last"); }
  verify(a);
}
// the whole tool: any order, any subset, any driver name
extern "C" void tool() {
  uint64_t q = sym_u64("order", 0, 23); int p = (int)sym_concretize(q); int sub = (int)sym_concretize(sym_u64("given", 0, 15)); bool on[4]; for (int i = 0; i < 4; i++) on[i] = sub >> i & 1; // dbc out drvname help
  if (!TIER_THOROUGH && (p * 16 + sub) % 3 == 1 && sub != 7) return;
  int n = (int)sym_concretize(sym_u64("name length", 0, 2)); if (!on[2] && n) return; S nm = word("name", n, true); bool exist = (p + sub) % 5 != 0; bool extra = p % 2;
  for (char c : nm) sym_assume(c != 0);
  std::vector<std::vector<S>> part = {{"-dbc", "in.dbc"}, {"-out", "out"}, {"-drvname", nm}, {"-help"}}; std::vector<S> a; int perm[4] = {0, 1, 2, 3}; int x = p; for (int i = 0; i < 4; i++) { int j = i + x % (4 - i); x /= 4 - i; std::swap(perm[i], perm[j]); }
  if (extra) { a.push_back("-unknown"); a.push_back("y"); }
  for (int i = 0; i < 4; i++) if (on[perm[i]]) for (auto& s : part[(size_t)perm[i]]) a.push_back(s);
  if (on[3] && perm[3] == 3 && extra) a.push_back("-Help"); if (p % 3 == 0) a.push_back("-rw"); if (p % 4 == 1) a.push_back("-noconfig"); if (p % 4 == 2) a.push_back("-noinc"); if (p % 4 == 3) a.push_back("-nofmon");
  if (exist) put("in.dbc", "BO_ 100 M1: 8 N1\n SG_ S1 : 0|8@1+ (1,0) [0|0] \"\" N2\n\n");
  Want w; std::vector<S> all = a; all.insert(all.begin(), "coderdbc"); expect(all, w); run(a);
  S d = name(w.val[2]); bool go = w.on[0] && w.on[1] && w.on[2] && !d.empty() && !w.on[5] && exist && same(w.val[0], "in.dbc") && same(w.val[1], "out");
  if (!go) { sym_assert(!isdir("out") && !isfile("out"), "nothing is generated"); sym_cover("no generation"); return; }
  S b = w.on[3] ? "out" : "out/000"; d = lower(d); sym_assert(isfile(b + "/lib/" + d + ".h") && isfile(b + "/lib/" + d + ".c"), "driver is generated");
  sym_assert(isfile(b + "/conf/" + d + "-config.h") == !w.on[7] && isfile(b + "/conf/dbccodeconf.h") == !w.on[7], "configuration unless -noconfig"); sym_assert(isfile(b + "/inc/canmonitorutil.h") == !w.on[6], "monitor header unless -noinc"); sym_assert(isfile(b + "/usr/" + d + "-fmon.c") == !w.on[8], "monitor source unless -nofmon"); sym_assert(isfile(b + "/butl/" + d + "-binutil.c"), "utility"); sym_cover("generation");
}
