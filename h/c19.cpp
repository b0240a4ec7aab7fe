// C19: where generated files land, and that nothing else is written.
#include "lib.h"
static const char* DBC = "VERSION \"1.2\"\n\nBO_ 100 M1: 8 N1\n SG_ S1 : 0|8@1+ (1,0) [0|0] \"\" N2\n\n";
static const char* FILES[] = {"/lib/%.h", "/lib/%.c", "/lib/%-fmon.h", "/usr/%-fmon.c", "/butl/%-binutil.h", "/butl/%-binutil.c", "/conf/%-config.h", "/conf/dbccodeconf.h", "/inc/canmonitorutil.h"};
static S file(int i, const S& drv) { S f = FILES[i]; size_t p = f.find('%'); return p == S::npos ? f : f.substr(0, p) + lower(drv) + f.substr(p + 1); }
static bool all_in(const S& base, const S& drv, bool utils) { for (int i = 0; i < 9; i++) { S f = file(i, drv); if (utils && (i == 4 || i == 5)) { S e = lower(drv) + (i == 4 ? "-binutil.h" : "-binutil.c"); if (!isfile(base + "/butl/n1_" + e) || !isfile(base + "/butl/n2_" + e)) return false; } else if (!isfile(base + f)) return false; } return true; }
static bool none_in(const S& base, const S& drv) { for (int i = 0; i < 9; i++) if (isfile(base + file(i, drv))) return false; return true; }
static void dirs(const S& p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
static int tool(const S& out, const S& drv, const std::vector<S>& more) { std::vector<S> a = {"-dbc", "in.dbc", "-out", out, "-drvname", drv}; a.insert(a.begin() + (long)(out.size() % 3) * 2, more.begin(), more.end()); put("in.dbc", DBC); int r = run(a); sym_assert(get("in.dbc") == DBC, "DBC file is not touched"); return r; }
static bool named(const S& a, int n) { S t = num(n); while (t.size() < 3) t = "0" + t; return same(a, t); }
static S n3(int n) { S t = num(n); while (t.size() < 3) t = "0" + t; return t; }
// numbered directories: entries of any name exist, as directories (with files of the same names) or files
extern "C" void numbered() {
  static const char* B[] = {"out", "out/", "a/b/out", "./out", "out//", "o.u-t"}; int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 47 : 23)), k = c % 4; S base = B[c % 6]; bool dd = c % 3 == 1, nu = c % 5 == 2, exists = k > 0 || c % 8 < 4;
  S real = base; while (real.back() == '/') real.pop_back(); S drv = c % 2 ? "Drv" : "abc", in = real + (dd ? "/" + drv : S()); std::vector<S> nm; std::vector<bool> isd; if (exists) dirs(k || c % 16 < 8 ? in : real);
  for (int i = 0; i < k; i++) {
    S n; for (int j = 0; j < 3; j++) n += (char)sym_u64(("entry" + num(i) + "#" + num(j)).c_str(), '0', '9'); bool d = (i + c) % 3 != 2; for (auto& o : nm) sym_assume(!same(o, n)); nm.push_back(n); isd.push_back(d); S p = in + "/" + n;
    if (d) { mkdir(p.c_str(), 0755); mkdir((p + "/lib").c_str(), 0755); put(p + "/lib/" + lower(drv) + ".h", "old" + num(i)); } else put(p, "old" + num(i));
  }
  if (exists && k) { mkdir((in + "/lib").c_str(), 0755); put(in + "/lib/" + lower(drv) + ".h", "old"); put(in + "/0", "zero"); mkdir((in + "/0000").c_str(), 0755); }
  std::vector<S> more; if (dd) more.push_back("-driverdir"); if (nu) more.push_back("-nodeutils");
  for (int round = 0; round < 2; round++) {
    int f = 0; for (bool again = true; again;) { again = false; for (auto& n : nm) if (named(n, f)) { again = true; f++; break; } }
    tool(base, drv, more); sym_assert(all_in(in + "/" + n3(f), drv, nu), "all files in the first free numbered directory"); sym_assert(!isdir(in + "/" + n3(f + 1)) || [&] { for (size_t i = 0; i < nm.size(); i++) if (isd[i] && named(nm[i], f + 1)) return true; return false; }(), "no other directory");
    for (int i = 0; i < k; i++) sym_assert(get(in + "/" + nm[(size_t)i] + (isd[(size_t)i] ? "/lib/" + lower(drv) + ".h" : S())) == "old" + num(i) && (isd[(size_t)i] ? isdir(in + "/" + nm[(size_t)i]) && !isfile(in + "/" + nm[(size_t)i] + "/lib/" + lower(drv) + ".c") : isfile(in + "/" + nm[(size_t)i])), "what existed in numbered entries is not touched");
    if (exists && k) sym_assert(get(in + "/lib/" + lower(drv) + ".h") == "old" && !isfile(in + "/lib/" + lower(drv) + ".c") && get(in + "/0") == "zero" && none_in(in + "/0000", drv), "files of the output directory itself are not touched"); else sym_assert(none_in(in, drv), "nothing in the output directory itself");
    sym_assert(none_in(".", drv), "nothing outside the output directory"); if (dd) sym_assert(none_in(real, drv) && !isdir(real + "/000"), "only in the driver's directory");
    if (round) { for (int i = 0; i < f; i++) { bool old = false; for (auto& n : nm) if (!isd.empty() && named(n, i)) old = true; sym_assert(old, "earlier numbers are taken"); } sym_assert(get(in + "/" + nm.back() + "/lib/" + lower(drv) + ".h") == "first", "the previous generation is not touched"); sym_cover("second run"); }
    nm.push_back(n3(f)); isd.push_back(true); put(in + "/" + n3(f) + "/lib/" + lower(drv) + ".h", "first");
    if (round) break;
  }
  sym_cover(dd ? "driver directory" : "numbered"); if (k) sym_cover("taken numbers");
}
// all numbers taken, and only the last ones free
extern "C" void full() {
  int c = (int)sym_concretize(sym_u64("case", 0, 2)); dirs("out"); int fr = c == 0 ? -1 : (int)sym_u64("free", c == 1 ? 990 : 995, 999), f2 = fr < 0 ? -1 : (int)sym_concretize((uint64_t)fr);
  for (int i = 0; i < 1000; i++) if (i != f2) { if (i % 37 == 5) put("out/" + n3(i), "file"); else mkdir(("out/" + n3(i)).c_str(), 0755); }
  tool("out", "drv", {}); if (f2 < 0) { for (int i : {0, 1, 5, 500, 998, 999}) sym_assert(none_in("out/" + n3(i), "drv"), "nothing is written when every number is taken"); sym_assert(none_in("out", "drv") && none_in("out/1000", "drv") && get("out/005") == "file", "nothing else is written"); sym_cover("full"); return; }
  sym_assert(all_in("out/" + n3(f2), "drv", false), "the free number is used"); sym_assert(none_in("out/" + n3(f2 - 1), "drv") && none_in("out/000", "drv"), "taken ones are not touched"); sym_cover("nearly full");
}
// rewriting: any output path, any driver name, existing files of any name
extern "C" void rewrite() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 23 : 11)); bool dd = c % 2, nu = c % 3 == 2, exists = c % 4 < 2; int n = 1 + c % 3;
  S out = c % 6 == 5 ? "g/" : ""; for (int i = 0; i < n; i++) { unsigned char x = (unsigned char)sym_u64(("path#" + num(i)).c_str(), i ? ' ' : '0', 'z'); sym_assume((x != '\\') & (x != ':') & (x != '.') & (x != '-') & ((x != '/') | (i > 0))); out += (char)x; }
  S drv; for (int i = 0; i < 1 + c % 2; i++) { unsigned char x = (unsigned char)sym_u64(("driver#" + num(i)).c_str(), 'A', 'z'); sym_assume((x <= 'Z') | (x >= 'a') | (x == '_')); drv += (char)x; }
  S in = out; while (in.size() > 1 && in.back() == '/') in.pop_back(); S top = in; if (dd) in += "/" + drv; S old;
  if (exists) {
    dirs(in); dirs(in + "/lib"); dirs(in + "/butl"); dirs(in + "/000"); dirs(in + "/000/lib"); put(in + "/000/lib/" + lower(drv) + ".h", "numbered"); put(in + "/lib/" + lower(drv) + ".h", "previous");
    for (size_t i = 0; i < drv.size(); i++) old += (char)sym_u64(("old#" + num((int)i)).c_str(), 'a', 'z'); put(in + "/lib/" + old + ".c", "old file"); put(in + "/butl/" + old + ".h", "old file");
  }
  std::vector<S> more = {"-rw"}; if (dd) more.push_back("-driverdir"); if (nu) more.push_back("-nodeutils");
  tool(out, drv, more); sym_assert(all_in(in, drv, nu), "all files in the requested directory"); sym_assert(none_in(".", drv), "nothing outside"); if (dd) sym_assert(none_in(top, drv), "only in the driver's directory");
  if (exists) { sym_assert(get(in + "/000/lib/" + lower(drv) + ".h") == "numbered", "numbered directories are not touched"); sym_assert(get(in + "/lib/" + lower(drv) + ".h") != "previous", "previous file is replaced"); sym_assert(get(in + "/butl/" + old + ".h") == "old file", "other files are not touched"); bool eq = same(old, lower(drv)); sym_assert((get(in + "/lib/" + old + ".c") == "old file") == !eq, "only generated files are replaced"); sym_cover("existing"); }
  else { sym_assert(!isdir(in + "/000"), "no numbered directory"); sym_cover("created"); }
}
