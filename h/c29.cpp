// C29: line ends, trailing white space, blank lines and the order of the definitions do not change what is generated.
#include "lib.h"
static const char* FILES[] = {"lib/drv.h", "lib/drv.c", "lib/drv-fmon.h", "usr/drv-fmon.c", "conf/drv-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h"};
static const char* NODE[] = {"butl/n1_drv-binutil.h", "butl/n1_drv-binutil.c", "butl/n2_drv-binutil.h", "butl/n2_drv-binutil.c", "butl/n3_drv-binutil.h", "butl/n3_drv-binutil.c"};
static void tool(const S& t, const S& out, bool nodes) { put("in.dbc", t); std::vector<S> a = {"-dbc", "in.dbc", "-out", out, "-drvname", "drv", "-rw"}; if (nodes) a.push_back("-nodeutils"); run(a); }
static void compare(bool nodes, const char* why) {
  for (auto f : FILES) sym_assert(same(get(S("ref/") + f), get(S("var/") + f)), why);
  if (nodes) for (auto f : NODE) sym_assert(same(get(S("ref/") + f), get(S("var/") + f)), why);
  else { sym_assert(same(get("ref/butl/drv-binutil.h"), get("var/butl/drv-binutil.h")), why); sym_assert(same(get("ref/butl/drv-binutil.c"), get("var/butl/drv-binutil.c")), why); }
}
struct Nums { S id, len, f, o, cyc, val, ver; };
static Nums nums() {
  uint64_t v; Nums n; n.id = symdec("id", 3, v); sym_assume((v > 255) & (v < 900)); n.f = symdec("factor", 1, v); sym_assume(v > 1); n.o = symdec("offset", 2, v); sym_assume(v > 9); n.cyc = symdec("cycle", 3, v); n.val = symdec("value", 1, v); n.ver = symdec("version", 1, v); n.len = num(8); return n;
}
static std::vector<S> lines(const Nums& n) {
  return {"VERSION \"" + n.ver + ".4\"", "", "NS_ :", "\tCM_", "\tBA_", "", "BS_:", "", "BU_: N1 N2 N3", "",
    "BO_ " + n.id + " Mes: " + n.len + " N1", " SG_ Sa : 0|12@1- (" + n.f + ",-" + n.o + ") [0|0] \"km\" N2,N3", " SG_ Cn : 12|4@1+ (1,0) [0|0] \"\" N2", " SG_ Fl : 16|7@1+ (0." + n.f + ",0) [0|0] \"\" N3", " SG_ Cs : 31|8@0+ (1,0) [0|0] \"\" N2", "",
    "BO_ 2147483648 Other: 3 N2", " SG_ T M : 0|8@1+ (1,0) [0|0] \"\" N1", " SG_ U m0 : 8|3@1- (1,0) [0|0] \"\" N1", "", "BO_ 7 Empty: 1 N3", "",
    "BO_TX_BU_ 2147483648 : N1,N3;", "", "CM_ BO_ " + n.id + " \"first", "second", "", "fourth\";", "CM_ SG_ " + n.id + " Cn \"<RollingCounter>\";", "CM_ SG_ " + n.id + " Cs \"<Checksum:XOR:7>", "and more\";",
    "VAL_ " + n.id + " Cn " + n.val + " \"One\"", " 12 \"Two\" ;", "VAL_ 2147483648 U 1 \"Ay\" 0 \"Bee\" ;", "BA_ \"GenMsgCycleTime\" BO_ 2147483648 " + n.cyc + ";", "BA_ \"GenMsgCycleTime\" BO_", n.id + " 25;", ""};
}
static const int NL = 37, CF = 24, CL = 27; // lines; inner lines of the comment
static S white(const char* name, int k) { S r; for (int i = 0; i < k; i++) { unsigned char c = (unsigned char)sym_u64((S(name) + "#" + num(i)).c_str(), 9, 32); sym_assume((c == 32) | (c == 9) | ((c >= 11) & (c <= 13))); r += (char)c; } return r; }
// line ends and white space behind one line (or all of them)
extern "C" void ends() {
  int c = (int)sym_concretize(sym_u64("form", 0, 3)), at = (int)sym_concretize(sym_u64("line", 0, NL)), k = (int)sym_concretize(sym_u64("blanks", TIER_THOROUGH ? 0 : 1, TIER_THOROUGH ? 3 : 2)); if (!TIER_THOROUGH && (at + c + k) % 2) return;
  Nums n = nums(); std::vector<S> l = lines(n); sym_assert((int)l.size() == NL + 1, "lines"); bool nodes = at % 2; S a, b, w = white("blank", k);
  for (size_t i = 0; i < l.size(); i++) { a += l[i] + "\n"; b += l[i]; if ((int)i == at || at == NL) b += w; if (i + 1 < l.size() || !(c & 1)) b += c & 2 ? "\r\n" : "\n"; }
  tool(a, "ref", nodes); tool(b, "var", nodes); compare(nodes, "same files with other line ends"); sym_cover(c & 2 ? "CR LF" : "LF"); if (c & 1) sym_cover("no final line end"); if (at >= CF && at < CL) sym_cover("inside a comment");
}
// a line of white space only before any line outside of comments
extern "C" void blank() {
  int c = (int)sym_concretize(sym_u64("form", 0, 1)), at = (int)sym_concretize(sym_u64("line", 0, NL)), k = (int)sym_concretize(sym_u64("blanks", 0, TIER_THOROUGH ? 3 : 2)); if ((at > CF && at <= CL) || at == 30 || (!TIER_THOROUGH && (at + c + k) % 2)) return;
  Nums n = nums(); std::vector<S> l = lines(n); bool nodes = at % 2; S a, b, w = white("blank", k), e = c ? "\r\n" : "\n";
  for (size_t i = 0; i < l.size(); i++) { a += l[i] + "\n"; if ((int)i == at) b += w + e; b += l[i] + e; }
  tool(a, "ref", nodes); tool(b, "var", nodes); compare(nodes, "same files with a blank line"); sym_cover("blank line");
}
// line ends instead of blanks between the items of value tables and attributes
extern "C" void breaks() {
  int c = (int)sym_concretize(sym_u64("form", 0, 3)), at = (int)sym_concretize(sym_u64("line", 0, 3)), pos = (int)sym_concretize(sym_u64("position", 0, 8)); static const int AT[] = {31, 33, 34, 35}; Nums n = nums(); std::vector<S> l = lines(n); bool nodes = at % 2, q = false; S& x = l[(size_t)AT[at]]; S y; int k = 0, hit = 0;
  if (pos == 8) { if (AT[at] % 2 == 0 || at == 1) return; S z = l[(size_t)AT[at] + 1]; while (z[0] == ' ') z.erase(0, 1); y = x + " " + z; l[(size_t)AT[at] + 1] = ""; } // joined instead
  else { for (char ch : x) { if (ch == '"') q = !q; if (ch == ' ' && !q && k++ > 0 && (k - 2 == pos || pos == 7)) { y += c & 1 ? "\r\n" : "\n"; if (c & 2) y += " "; hit++; } else y += ch; } if (!hit) return; }
  S a, b; auto o = lines(n); for (auto& z : o) a += z + "\n"; x = y; for (auto& z : l) b += z + "\n"; tool(a, "ref", nodes); tool(b, "var", nodes); compare(nodes, "same files with a broken line"); S h = get("ref/lib/drv.h"); sym_assert(h.find("#define Other_CYC ") != S::npos && h.find("#define Mes_CYC (25U)") != S::npos && h.find("Cn_Mes_Two") != S::npos, "values and cycle times over several lines"); sym_cover("broken line");
}
// the same definitions in another order
extern "C" void order() {
  int p = (int)sym_concretize(sym_u64("order", 0, TIER_THOROUGH ? 239 : 47)); Nums n = nums(); uint64_t v; n.id = symdec("other id", 4, v); sym_assume((v > 4095) & (v < 9000)); std::vector<S> l = lines(n); bool nodes = p % 2;
  auto part = [&](int a, int b) { S r; for (int i = a; i < b; i++) r += l[i] + "\n"; return r; };
  S m1 = l[10] + "\n", ms[3], en[7]; int q = p;
  static const int P4[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
  for (int i = 0; i < 4; i++) m1 += l[11 + P4[(q * 7 + 5) % 24][i]] + "\n";
  ms[0] = m1 + "\n"; ms[1] = (p % 3 ? part(16, 20) : l[16] + "\n" + l[18] + "\n" + l[17] + "\n\n"); ms[2] = part(20, 22);
  en[0] = part(24, 28); en[1] = part(28, 29); en[2] = part(29, 31); en[3] = part(31, 33); en[4] = part(33, 34); en[5] = part(34, 35); en[6] = part(35, 37);
  S a, b, msgs, ents; for (auto& x : l) a += x + "\n";
  static const int P3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for (int i = 0; i < 3; i++) msgs += ms[P3[p % 6][i]];
  // all rotations and the reversed order of the entries
  for (int i = 0; i < 7; i++) { int j = (p * 3 + i) % 7; ents += en[p % 4 < 2 ? j : 6 - j]; }
  switch (p / 6 % 4) { case 0: b = part(0, 10) + msgs + part(22, 24) + ents; break; case 1: b = ents + msgs + part(22, 24) + part(0, 10); break; case 2: b = ents + part(6, 10) + msgs + l[0] + "\n" + part(22, 24); break; default: b = part(2, 9) + ms[P3[p % 6][0]] + en[p % 7] + ms[P3[p % 6][1]] + "\n" + ms[P3[p % 6][2]] + part(22, 23) + part(0, 2); for (int i = 1; i < 7; i++) b += en[(p + i) % 7]; }
  tool(a, "ref", nodes); tool(b, "var", nodes); compare(nodes, "same files with another order"); sym_cover("order");
}
