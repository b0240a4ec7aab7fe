// C31: the comments of the generated header tell what the DBC file says about each message and signal.
#include "lib.h"
static std::vector<S> split(const S& t) { std::vector<S> r; size_t i = 0; while (i <= t.size()) { size_t e = t.find('\n', i); if (e == S::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; } return r; }
static bool starts(const S& l, const S& p) { return l.size() >= p.size() && same(l.substr(0, p.size()), p); }
static S text(const char* name, int k) { S r; for (int i = 0; i < k; i++) { unsigned char c = (unsigned char)sym_u64((S(name) + "#" + num(i)).c_str(), '!', '~'); sym_assume((c != '"') & (c != '\\') & (c != '*') & (c != '/') & (c != '?') & (c != '<') & (c != ';')); r += (char)c; } return r; }
struct Field { S decl, tail; std::vector<S> above; };
// the fields of the structure of a message, with the comments above and behind them
static std::vector<Field> fields(const std::vector<S>& l, const S& msg) {
  size_t e = 0; while (e < l.size() && !same(l[e], "} " + msg + "_t;")) e++; sym_assert(e < l.size(), "structure of the message"); size_t b = e; while (b > 0 && !same(l[b], "typedef struct")) b--;
  std::vector<Field> r; std::vector<S> up; for (size_t i = b; i < e; i++) { if (starts(l[i], "  // ")) { up.push_back(l[i].substr(5)); continue; } if (l[i].size() < 3 || l[i][0] != ' ' || l[i][2] == '/' || l[i].find(';') == S::npos) continue; Field f; size_t p = l[i].find(';'), a = p; f.decl = l[i].substr(0, p); a = l[i].find("//", p); if (a != S::npos) f.tail = l[i].substr(a + 2); f.above = up; up.clear(); r.push_back(f); }
  return r;
}
static S decln(const Field& f) { size_t e = f.decl.find(" : "); S d = f.decl.substr(0, e); return d.substr(d.rfind(' ') + 1); }
// single spaces, none behind "="; the unit as it is
static S plain(const S& t) { size_t u = t.find("Unit:'"); S h = t.substr(0, u), r; for (char c : h) { if (c == ' ' && (r.empty() || r.back() == ' ' || r.back() == '=')) continue; r += c; } if (u != S::npos) return r + t.substr(u); while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
struct Sig { S name, sgline, comment, unit; std::vector<std::pair<S, S>> vals; int len; bool sgn; S of, fa; int mux; bool scaled, roll; };
static std::vector<S> over(const Sig& s, bool cm) { std::vector<S> r; if (cm && !s.comment.empty()) for (auto& x : split(s.comment)) r.push_back(x); for (auto& v : s.vals) r.push_back(" " + v.first + " : \"" + v.second + "\""); if (s.mux == 1) r.push_back("MULTIPLEX master signal"); if (s.mux == 2) r.push_back("multiplex variable"); return r; }
static S behind(const Sig& s) { S t = s.sgn ? "[-] " : ""; t += "Bits=" + num(s.len); if (s.of != "0") t += " Offset=" + s.of; if (s.fa != "1") t += " Factor=" + s.fa; if (!s.unit.empty()) t += " Unit:'" + s.unit + "'"; return t; }
static S hex(uint64_t v, int n) { S r((size_t)n, '0'); for (int i = n - 1; i >= 0; i--) { unsigned d = v & 15; r[(size_t)i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v >>= 4; } return r; }
static void head(const std::vector<S>& l, const S& name, const S& dec, const S& hx, const S& comment, bool empty) {
  size_t i = 0; S want = "// def @" + name + " CAN Message (" + dec; while (i < l.size() && !starts(l[i], "// def @" + name + " ")) i++; sym_assert(i < l.size(), "message is described"); S t = l[i]; while (dec.size() < 4 && t.size() > want.size() && t[want.size()] == ' ' && t[want.size() + 1] == ' ') t.erase(want.size(), 1);
  sym_assert(same(t, want + " 0x" + hx + ")"), "name and identifier of the message"); std::vector<S> c; if (!comment.empty()) c = split(comment); sym_assert(i > c.size(), "place of the comment"); for (size_t k = 0; k < c.size(); k++) sym_assert(same(l[i - c.size() + k], "// " + c[k]), "comment of the message"); sym_assert(l[i - c.size() - 1].empty(), "nothing but its comment");
}
extern "C" void harness() {
  int c = (int)sym_concretize(sym_u64("case", 0, TIER_THOROUGH ? 399 : 79)), tl = 1 + c % (TIER_THOROUGH ? 3 : 2); bool ext = c % 5 == 0; uint64_t id; S idt = ext ? symdec("id", 9, id, 0x1FFFFFFF) : symdec("id", 4, id, 0x7FF); sym_assume(ext ? id >= 0x10000000 : id > 1023); S idd = ext ? dectext(id + 0x80000000ull, 10) : idt;
  static const int L[] = {12, 1, 8, 33, 7, 16, 64, 3, 20, 5}; std::vector<Sig> s(3); s[0] = {"Aa", "", "", "", {}, 4, false, "0", "1", 0, false, false}; s[2] = {"Zz", "", "", "", {}, 6, true, "0", "1", 0, false, false};
  Sig& x = s[1]; x = {"Sg", "", "", "", {}, L[(c / 2) % 10], c % 2 == 1, "0", "1", 0, false, false}; int kind = (c + c / 10) % 6; S group = "3"; S fo = "1,0"; uint64_t v;
  if (kind == 1) { x.fa = symdec("factor", 2, v); x.scaled = true; fo = x.fa + ",0"; } else if (kind == 2) { x.of = symdec("offset", 2, v); x.fa = "2"; x.scaled = true; fo = "2," + x.of; } else if (kind == 3) { x.of = "-1.5"; x.fa = "0." + symdec("factor", 1, v); sym_assume(v != 0); x.scaled = true; fo = x.fa + ",-1.5"; if (c / 6 % 3 == 0) { x.of = symdec("offset", 1, v) + ".5"; x.fa = "1"; fo = "1.0," + x.of; } else if (c / 6 % 3 == 1) { x.of = "0"; fo = x.fa + ",0"; } } else if (kind == 4) x.mux = 1; else if (kind == 5) { x.mux = 2; group = symdec("group", 1 + c % 3, v); }
  bool twol = c % 4 == 1; if (c % 7 != 3) x.comment = text("comment", tl) + (twol ? S(c % 8 == 1 ? "\nCM_ " : c % 8 == 5 ? "\xC2\xB0\n" : "\n") + text("second", 2) : ""); if (c % 3) x.unit = (c % 4 < 2 ? text("unit", 1) : S("%")) + (c % 5 ? "m/s" : ""); if (c % 4 > 1) { x.vals.push_back({symdec("value", 2, v), (kind % 4 ? S("F 1") : text("first", 1))}); x.vals.push_back({"-" + num(5), "b b"}); }
  x.roll = kind == 0 && !x.sgn && c % 7 != 3; if (x.roll) x.comment += "<RollingCounter>"; S mc = c % 5 == 1 ? S("") : text("message", tl) + (c % 3 == 2 ? (c % 2 ? "\nCM_ BO_ 5 further\n" : "\nfurther\n") + (c % 4 == 2 ? S("\n") : S()) + text("third", 1) : "");
  if (c % 6 == 2) s[0].comment = "left"; if (c % 6 == 4) s[2].comment = "right\nlines"; if (c % 4 == 3) s[0].vals.push_back({"1", "On"}); if (c % 5 == 3) s[2].unit = "V";
  S d = "VERSION \"1.2\"\n\nBU_: N1 N2\n\nBO_ " + idd + " M1: 64 N1\n"; int at = 0; for (auto& g : s) { d += " SG_ " + g.name + (g.mux == 1 ? " M" : g.mux == 2 ? " m" + group : "") + " : " + num(at) + "|" + num(g.len) + "@1" + (g.sgn ? "-" : "+") + " (" + (&g == &x ? fo : S("1,0")) + ") [0|0] \"" + g.unit + "\" N2\n"; at += g.len; }
  d += "\nBO_ 5 M2: 8 N2\n SG_ Sg : 0|9@1+ (1,0) [0|0] \"\" N1\n\nBO_ 7 Void: 3 N1\n\n"; S e1, e2; if (!mc.empty()) e1 += "CM_ BO_ " + idd + " \"" + mc + "\";\n"; e2 += "CM_ BO_ 7 \"nothing here\";\n"; for (auto& g : s) if (!g.comment.empty()) e1 += "CM_ SG_ " + idd + " " + g.name + " \"" + g.comment + "\";\n"; e2 += "CM_ SG_ 5 Sg \"another\";\n"; d += c % 2 ? e1 + e2 : e2 + e1;
  for (auto& g : s) if (!g.vals.empty()) { d += "VAL_ " + idd + " " + g.name; for (auto& p : g.vals) d += " " + p.first + " \"" + p.second + "\""; d += " ;\n"; } gen(d); auto l = split(get("out/lib/drv.h"));
  head(l, "M1", idt, hex(id, ext ? 8 : 3), mc, false); head(l, "M2", "5", "5", "", false); head(l, "Void", "7", "7", "nothing here", true);
  auto f = fields(l, "M1"); int seen[4] = {0, 0, 0, 0}; for (auto& y : f) { S n = decln(y); int k = -1; for (int i = 0; i < 3; i++) if (n == s[i].name + (s[i].scaled ? "_ro" : "")) k = i; bool expt = n == "Sg_expt"; if (expt) k = 1; if (k < 0) { sym_assert(y.above.empty() && y.tail.empty(), "no text at other fields"); continue; }
    auto want = over(s[k], !expt); sym_assert(want.size() == y.above.size(), "the texts of the signal and no others"); for (size_t i = 0; i < want.size(); i++) sym_assert(same(want[i], y.above[i]), "text of the signal"); sym_assert(same(plain(y.tail), behind(s[k])), "length, sign, scaling and unit"); seen[expt ? 3 : k]++; if (k == 1 && !expt) { if (!s[k].unit.empty()) sym_cover("unit"); if (!s[k].vals.empty()) sym_cover("values"); } }
  for (int i = 0; i < 3; i++) sym_assert(seen[i] == 2, "field in both structures"); sym_assert(seen[3] == (x.roll ? 2 : 0), "expected counter in both structures"); auto g = fields(l, "M2"); for (auto& y : g) if (decln(y) == "Sg") sym_assert(y.above.size() == 1 && same(y.above[0], "another") && same(plain(y.tail), "Bits=9"), "signal of the other message");
  static const char* KC[] = {"plain", "factor", "factor and offset", "floating", "multiplexor", "multiplexed"}; sym_cover(KC[kind]); if (twol) sym_cover("two lines"); if (x.roll) sym_cover("counter"); sym_cover(ext ? "extended" : "standard");
}
