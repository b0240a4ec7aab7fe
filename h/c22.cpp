// C22: comments, units and value descriptions never change the generated code: the generated files with
// their comments removed (as a C compiler removes them) equal those of the same file without the texts.
#include "lib.h"
// removes comments as a compiler does: line ends behind a backslash (or its trigraph) join lines first
static S strip(const S& t) {
  S j; std::vector<S> lines; S cur; for (char c : t) { if ((c == '\n') | (c == '\r')) { lines.push_back(cur); cur.clear(); } else cur += c; } lines.push_back(cur);
  for (auto& l : lines) { size_t k = l.size(); while (k && ((l[k - 1] == ' ') | (l[k - 1] == '\t'))) k--; if (k && l[k - 1] == '\\') { j += l.substr(0, k - 1); continue; } if (k > 2 && ((l[k - 1] == '/') & (l[k - 2] == '?') & (l[k - 3] == '?'))) { j += l.substr(0, k - 3); continue; } j += l; j += '\n'; }
  S r; size_t i = 0, n = j.size();
  while (i < n) {
    char c = j[i]; char d = i + 1 < n ? j[i + 1] : 0;
    if (c == '/' && d == '/') { while (i < n && j[i] != '\n') i++; }
    else if (c == '/' && d == '*') { i += 2; while (i + 1 < n && !((j[i] == '*') & (j[i + 1] == '/'))) i++; i += 2; r += ' '; }
    else if (c == '"' || c == '\'') { r += c; i++; while (i < n && j[i] != c && j[i] != '\n') { if (j[i] == '\\' && i + 1 < n) r += j[i++]; r += j[i++]; } if (i < n) r += j[i++]; }
    else { r += c; i++; }
  }
  return r;
}
// lines that carry something; definitions of value-table constants (of the signals S0..S3) left out
static std::vector<S> code(const S& t) {
  std::vector<S> o; S s = strip(t), cur; bool drop = false; auto has = [&](const char* d) { if (cur.compare(0, strlen(d), d)) return false; S x = cur.substr(strlen(d)); return x.size() > 3 && x[0] == 'S' && x[1] >= '0' && x[1] <= '3' && (x.compare(2, 3, "_M_") == 0 || x.compare(2, 6, "_ro_M_") == 0); };
  auto end = [&] { while (!cur.empty() && (cur.back() == ' ' || cur.back() == '\t')) cur.pop_back(); if (has("#ifndef ")) drop = true; else if (drop && cur == "#endif") drop = false; else if (!cur.empty() && !(drop && has("#define "))) o.push_back(cur); cur.clear(); };
  for (char c : s) if (c == '\n') end(); else cur += c; end(); return o;
}
static const char* FILES[] = {"lib/drv.h", "lib/drv.c", "lib/drv-fmon.h", "usr/drv-fmon.c", "butl/drv-binutil.h", "butl/drv-binutil.c", "conf/drv-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h"};
struct Slots { S msg, sig[4], unit[4], val[4]; }; // signals: plain, integer scaled, floating, multiplexed single bit
static void generate(const Slots& t) {
  static const char* SC[] = {"1,0", "3,-2", "0.5,1", "1,0"}; static const int L[] = {8, 8, 12, 1}; S d = "VERSION \"1.2\"\n\nBO_ 100 M: 8 N1\n";
  for (int i = 0; i < 4; i++) d += " SG_ S" + num(i) + (i == 3 ? " m1" : i == 0 ? " M" : "") + " : " + num(i * 16) + "|" + num(L[i]) + "@1+ (" + SC[i] + ") [0|0] \"" + t.unit[i] + "\" N2\n";
  d += "\nBO_ 101 K: 2 N1\n SG_ T : 0|8@1+ (1,0) [0|0] \"\" N2\n\n"; if (!t.msg.empty()) d += "CM_ BO_ 100 \"" + t.msg + "\";\n";
  for (int i = 0; i < 4; i++) if (!t.sig[i].empty()) d += "CM_ SG_ 100 S" + num(i) + " \"" + t.sig[i] + "\";\n"; for (int i = 0; i < 4; i++) if (!t.val[i].empty()) d += "VAL_ 100 S" + num(i) + " 1 \"" + t.val[i] + "\" 2 \"Two\" ;\n"; gen(d);
}
static std::vector<std::vector<S>> ref() { generate(Slots()); std::vector<std::vector<S>> r; for (auto f : FILES) { sym_assert(isfile("out/" + S(f)), "generated file exists"); r.push_back(code(get("out/" + S(f)))); } return r; }
static bool equal(const std::vector<S>& a, const std::vector<S>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= same(a[i], b[i]); return r; }
static bool agree(const std::vector<std::vector<S>>& r) { bool ok = true; for (size_t i = 0; i < r.size(); i++) ok &= equal(code(get("out/" + S(FILES[i]))), r[i]); return ok; }
static S& slot(Slots& t, int k) { return k == 0 ? t.msg : k < 5 ? t.sig[k - 1] : k < 9 ? t.unit[k - 5] : t.val[k - 9]; }
static const char* kindname(int k) { return k == 0 ? "message comment" : k < 5 ? "signal comment" : k < 9 ? "unit" : "value description"; }
static S anytext(const S& n, int len, bool lines) { S r; for (int i = 0; i < len; i++) { unsigned char c = (unsigned char)sym_u64((n + "#" + num(i)).c_str(), 1, 255); sym_assume(c != '"'); if (!lines) sym_assume((c != '\n') & (c != '\r')); r += (char)c; } return r; }
static const char* AROUND[][2] = {{"", ""}, {"a", ""}, {"*/ int y; ", ""}, {"?", "/"}, {"x", "\n#error y"}, {"/", " */ #define"}, {"%s%n%d", "%"}, {"// ", "\\"}, {"\\", " \\\\"}, {"(1,0) [0|1] @1+ : 3|4@1- ", " SG_"}, {"<RollingCounter", ""}, {"", "Checksum:X:1>"}, {"'", "'"}, {"S0", "; 5 7 ;"}};
extern "C" void texts() {
  int k = (int)sym_concretize(sym_u64("place", 0, 12)), w = (int)sym_concretize(sym_u64("around", 0, 13)), n = (int)sym_concretize(sym_u64("bytes", 1, TIER_THOROUGH ? 3 : 2)); if (!TIER_THOROUGH && (k + w + n) % 2) return;
  auto r = ref(); Slots t; S b = anytext("b", n, k < 5), a0 = AROUND[w][0], a1 = AROUND[w][1]; if (w == 10) sym_assume(b[0] != '>'); if (w == 11) for (char c : b) sym_assume(c != '<'); if (k > 4) for (auto& c : a1) if (c == '\n') c = ' ';
  slot(t, k) = a0 + b + a1; generate(t); sym_assert(agree(r), ("code unchanged by a " + S(kindname(k))).c_str()); sym_cover(kindname(k));
}
// every place at once
extern "C" void all() {
  int w = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 27 : 7)); auto r = ref(); Slots t; for (int k = 0; k < 13; k++) { const char** a = AROUND[(w + k) % 14]; S x = a[0] + S(k == w % 13 || k == (w + 5) % 13 ? anytext("b" + num(k), 1, k < 5) : S("z")) + a[1]; if (k > 4) for (auto& c : x) if (c == '\n') c = ' '; slot(t, k) = x; }
  for (int k = 0; k < 13; k++) if (slot(t, k).size() > 8) sym_assume(slot(t, k).find("<RollingCounter>") == S::npos && slot(t, k).find("<Checksum:X:1>") == S::npos); generate(t); sym_assert(agree(r), "code unchanged by all texts together"); sym_cover("all texts");
}
// comments over several lines whose inner lines resemble definitions
static const char* INNER[] = {"BO_", "SG_ text", "VAL_ 100 S0 1 ;", "BA_ GenMsgCycleTime BO_ 100 7;", "CM_ BO_ 100 x", "CM_ SG_ 100 S1 y;", "BO_TX_BU_", "VERSION", "EV_ x : 0 [0|1]", "BU_: N7", "BO_ 5 X: 8 N1", " SG_ Z : 56|8@1+ (1,0) [0|0] () N2", "VERSION 3.4", "BO_TX_BU_ 100 : N9;", "version 7 8"};
extern "C" void lines() {
  int l = (int)sym_concretize(sym_u64("line", 0, 14)), k = (int)sym_concretize(sym_u64("place", 0, 2)); auto r = ref(); Slots t; S b = anytext("b", 1, true); sym_assume((b[0] != '\n') & (b[0] != '\r'));
  slot(t, k) = "first\n" + S(INNER[l]) + b + "\nlast"; generate(t); sym_assert(agree(r), "code unchanged by a comment line"); sym_cover("several lines");
}
