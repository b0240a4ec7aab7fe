// C28: generation is reproducible, and options which select files or places leave the other files as they are.
#include "lib.h"
static const char* OWN[] = {"conf/drv-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h", "usr/drv-fmon.c"};
static const char* ALWAYS[] = {"lib/drv.h", "lib/drv.c", "lib/drv-fmon.h"};
static const char* UTIL[] = {"butl/drv-binutil.h", "butl/drv-binutil.c"};
static const char* NODE[] = {"butl/n1_drv-binutil.h", "butl/n1_drv-binutil.c", "butl/n2_drv-binutil.h", "butl/n2_drv-binutil.c", "butl/n3_drv-binutil.h", "butl/n3_drv-binutil.c"};
static S dateless(const S& t, int& n) { S r; size_t i = 0; n = 0; while (i < t.size()) { size_t e = t.find('\n', i); e = e == S::npos ? t.size() : e + 1; S l = t.substr(i, e - i); if (l.compare(0, 18, "// Generation time") == 0) n++; else r += l; i = e; } return r; }
static S symtext() {
  int c = (int)sym_concretize(sym_u64("text", 0, TIER_THOROUGH ? 7 : 1)); uint64_t v; S id = symdec("id", 2 + c % 2, v), f = symdec("factor", 1 + c / 2 % 2, v), o = symdec("offset", 1 + c % 2, v), cy = symdec("cycle", 3, v), nm = "S" + symident("name", 1), cm; for (int i = 0; i < 3; i++) { unsigned char b = (unsigned char)sym_u64(("text#" + num(i)).c_str(), ' ', '~'); if (i == 2) sym_assume((b != '"') & (b != '\\') & (b != ' ')); else sym_assume((b >= 'b') & (b <= 'x')); cm += (char)b; }
  S x = c % 2 ? "2147483648" : "9"; uint64_t iv = 0; for (char d : id) iv = iv * 10 + (uint64_t)(d - '0'); sym_assume((f[0] > '1') & (o[0] > '0') & (id[0] != '9') & (iv >= (c % 2 ? 256 : 16)));
  return "VERSION \"" + symdec("version", 1, v) + ".4\"\n\nBU_: N1 N2 N3\n\nBO_ " + id + " Mes: 8 N1\n SG_ " + nm + " : 0|12@1- (" + f + "," + o + ") [0|0] \"" + cm.substr(0, 1) + "\" N2,N3\n SG_ Cn : 12|4@1+ (1,0) [0|0] \"\" N2\n SG_ Fl : 16|7@1+ (0." + f + ",-1." + o + "5) [0|0] \"\" N3\n SG_ Cs : 31|8@0+ (1,0) [0|0] \"\" N2\n\nBO_ " + x + " Other: 3 N2\n SG_ T M : 0|8@1+ (1,0) [0|0] \"\" N1\n SG_ U m0 : 8|3@1- (1,0) [0|0] \"\" N1\n\nBO_ 7 Empty: 1 N3\n\nBO_TX_BU_ " + x + " : N1,N3;\nCM_ BO_ " + id + " \"" + cm + "\";\nCM_ SG_ " + id + " Cn \"<RollingCounter>" + cm + "\";\nCM_ SG_ " + id + " Cs \"<Checksum:XOR:7>\";\nVAL_ " + id + " Cn " + f + " \"One\" 2 \"" + cm.substr(1, 1) + "\" ;\nBA_ \"GenMsgCycleTime\" BO_ " + x + " " + cy + ";\n";
}
static void compare(const S& a, const S& b, const S& f, bool want, bool date) {
  sym_assert(isfile(b + "/" + f) == want, want ? "file is generated" : "file is omitted"); if (!want) return; int n = 0, m = 0;
  S x = dateless(get(a + "/" + f), m), y = dateless(get(b + "/" + f), n); sym_assert(n == (date ? 1 : 0) && m == 0, "date comment exactly when requested"); sym_assert(same(x, y), "the same content with every option");
}
extern "C" void options() {
  int o = (int)sym_concretize(sym_u64("options", 0, 127)); if (!TIER_THOROUGH && (o ^ o >> 1 ^ o >> 3) & 1) return; bool nocfg = o & 1, noinc = o & 2, nofmon = o & 4, date = o & 8, nodes = o & 16, dir = o & 32, rw = o & 64; S d = symtext(); put("in.dbc", d);
  sym_environment(0xA5, 1700000000); run({"-dbc", "in.dbc", "-out", "ref", "-drvname", "drv", "-rw"}); if (nodes) run({"-rw", "-nodeutils", "-dbc", "in.dbc", "-out", "refn", "-drvname", "drv"});
  std::vector<S> a; if (nocfg) a.push_back("-noconfig"); if (rw) a.push_back("-rw"); a.insert(a.end(), {"-out", "some/other"}); if (date) a.push_back("-gendate"); a.insert(a.end(), {"-drvname", "drv"}); if (noinc) a.push_back("-noinc"); if (dir) a.push_back("-driverdir"); if (nodes) a.push_back("-nodeutils"); a.insert(a.end(), {"-dbc", "in.dbc"}); if (nofmon) a.push_back("-nofmon");
  mkdir("some", 0755); mkdir("some/other", 0755); sym_environment(o & 1 ? 0x00 : 0x5B, 1234567890 + o * 100000); run(a); S b = S("some/other") + (dir ? "/drv" : "") + (rw ? "" : "/000");
  for (auto f : ALWAYS) compare("ref", b, f, true, date); compare("ref", b, OWN[0], !nocfg, date); compare("ref", b, OWN[1], !nocfg, date); compare("ref", b, OWN[2], !noinc, date); compare("ref", b, OWN[3], !nofmon, date);
  for (auto f : UTIL) compare("ref", b, f, !nodes, date); for (auto f : NODE) compare("refn", b, f, nodes, date); sym_cover(rw ? "rewriting" : "numbered"); if (date) sym_cover("date"); if (nodes) sym_cover("node utilities"); if (nofmon && noinc && nocfg) sym_cover("fewest files");
}
// the same again in one process, with other content of fresh memory, and after another DBC file
extern "C" void again() {
  int c = (int)sym_concretize(sym_u64("fill", 0, 3)); static const int F[] = {0, 1, 0x80, 0xFF}; S d = symtext(); put("in.dbc", d); bool nodes = c & 1; std::vector<S> a = {"-dbc", "in.dbc", "-out", "ref", "-drvname", "drv", "-rw"}; if (nodes) a.push_back("-nodeutils");
  sym_environment(0xA5, 1700000000); run(a); if (c & 2) { put("x.dbc", "VERSION \"9.9\"\nBO_ 300 Xx: 64 N7\n SG_ S1 : 0|64@1- (3,7) [0|0] \"q\" N8\nCM_ BO_ 300 \"unfinished"); run({"-dbc", "x.dbc", "-out", "x", "-drvname", "Yy", "-rw", "-nodeutils", "-gendate"}); }
  sym_environment(F[c], 1500000000); a[3] = "again"; run(a); for (auto f : ALWAYS) compare("ref", "again", f, true, false); for (auto f : OWN) compare("ref", "again", f, true, false); for (auto f : UTIL) compare("ref", "again", f, !nodes, false); for (auto f : NODE) compare("ref", "again", f, nodes, false); sym_cover("again");
}
