// C15: value table entries become constants with the table's numbers.
#include "layout.h"
static S msg(const S& id, const S& name, const S& sig, const char* scale) { return "BO_ " + id + " " + name + ": 8 N1\n SG_ " + sig + " : 0|8@1+ (" + scale + ") [0|0] \"\" N2\n\n"; }
static S number(const S& n, int digits, bool neg, int64_t& v) { // every number of so many digits
  S t; uint64_t u = 0; for (int i = 0; i < digits; i++) { uint64_t x = sym_u64((n + "#" + num(i)).c_str(), i == 0 && (digits > 1 || neg), 9); u = u * 10 + x; t += (char)('0' + x); }
  v = neg ? -(int64_t)u : (int64_t)u; return (neg ? "-" : "") + t;
}
static const char* SC[] = {"1,0", "3,-2", "0.5,1"};
// any numbers under fixed names; read through the preprocessor and the compiler
extern "C" void numbers() {
  int d = (int)sym_concretize(sym_u64("digits", 1, 18)), k = (int)sym_concretize(sym_u64("case", 0, 5)); if (!TIER_THOROUGH && (d + k) % 2) return;
  int64_t a, b, c; S ta = number("a", d, k & 1, a), tb = number("b", 1 + (d + 3) % 10, k & 2, b), tc = number("c", 1 + (d * 7) % 18, k % 3 == 0, c); const char* sc = SC[k % 3]; S sig = k % 3 ? "Sg_ro" : "Sg";
  S tab = k == 2 ? "\n" : " "; // also a table over two lines
  gen("VERSION \"1.2\"\n\n" + msg("100", "MA", "Sg", sc) + msg("101", "MB", "Sg", sc) + "VAL_ 100 Sg " + ta + " \"First value\" " + tb + tab + " \"2nd\" " + tc + " \"Third-one!\" ;\nVAL_ 101 Sg " + tc + " \"First value\" ;\n");
  S n1 = sig + "_MA_First_value", n2 = sig + "_MA_nd", n3 = sig + "_MA_Thirdone", n4 = sig + "_MB_First_value"; ccdriver("drv"); ccadd("conf/dbccodeconf.h", "#include <stdint.h>\ntypedef double sigfloat_t;\n" WIDE);
  ccadd("shim.c", "#include \"lib/drv.c\"\n#if " + n1 + " < 0\n#define N1 1\n#else\n#define N1 0\n#endif\nint64_t va(void) { return " + n1 + "; }\nint64_t vb(void) { return " + n2 + "; }\nint64_t vc(void) { return " + n3 + "; }\nint64_t vd(void) { return " + n4 + "; }\nint64_t minus(void) { return 0 -" + n1 + "; }\nenum { E1 = sizeof(" + n1 + ") };\n");
  uint64_t h = sym_cc_compile("shim.c", CCINC); sym_assert(h != 0, "generated driver with its constants compiles"); typedef int64_t (*F)(void);
  sym_assert(sym_as<F>(h, "va")() == a, "number of the first entry"); sym_assert(sym_as<F>(h, "vb")() == b, "number of the second entry"); sym_assert(sym_as<F>(h, "vc")() == c, "number of the third entry"); sym_assert(sym_as<F>(h, "vd")() == c, "entry of the same text in another message"); sym_assert(sym_as<F>(h, "minus")() == -a, "usable in expressions"); sym_cover(k & 1 ? "negative" : "positive");
}
// any texts: the name is the text reduced to identifier characters
static bool idfirst(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
extern "C" void texts() {
  int n = (int)sym_concretize(sym_u64("length", 0, TIER_THOROUGH ? 4 : 3)), k = (int)sym_concretize(sym_u64("case", 0, 3)); S t = k == 1 ? "Ab" : k == 2 ? "7 " : "";
  for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)sym_u64(("c#" + num(i)).c_str(), 1, 255); sym_assume((c != '"') & (c != '\n') & (c != '\r')); t += (char)c; } if (k == 3) t += "z-1";
  gen("VERSION \"1.2\"\n\n" + msg("100", "MA", "Sg", "1,0") + "VAL_ 100 Sg 5 \"" + t + "\" 6 \"Other\" ;\n"); S name; bool any = false;
  for (char x : t) { unsigned char c = (unsigned char)x; bool sp = c == ' '; if (sp | idfirst(c) | (any & digit(c))) { name += sp ? '_' : x; any = true; } }
  S f = get("out/lib/drv.h"), want = "#define Sg_MA_" + name + " (5)"; size_t p = f.find("\n#define Sg_MA_"); sym_assert(p != S::npos, "constant of the entry");
  S line = f.substr(p + 1, want.size()); sym_assert(same(line, want) && f[p + 1 + want.size()] == '\n', "constant named by signal, message and reduced text");
  size_t q = f.find("\n#define Sg_MA_Other (6)\n"); sym_assert(q != S::npos, "constant of the other entry"); sym_cover(name.empty() ? "nothing left" : name.size() < t.size() ? "reduced" : "unchanged");
}
// equal names: the first keeps its number; every other name its own
extern "C" void doubles() {
  static const char* NM[] = {"On", "O-n", "Off", "O n"}; static const int G[] = {0, 0, 1, 2}; static const char* ID[] = {"On", "On", "Off", "O_n"};
  int x[3], c = (int)sym_concretize(sym_u64("names", 0, 63)); x[0] = c % 4; x[1] = c / 4 % 4; x[2] = c / 16; int64_t v[3]; S d = "VERSION \"1.2\"\n\n" + msg("100", "MA", "Sg", "1,0") + "VAL_ 100 Sg";
  for (int i = 0; i < 3; i++) d += " " + number("n" + num(i), 1 + (c + i) % 3, (c + i) % 2, v[i]) + " \"" + NM[x[i]] + "\""; gen(d + " ;\n"); ccdriver("drv"); S sh = "#include \"lib/drv.c\"\n"; for (int i = 0; i < 3; i++) sh += "int64_t v" + num(i) + "(void) { return Sg_MA_" + S(ID[x[i]]) + "; }\n";
  ccadd("shim.c", sh); uint64_t h = sym_cc_compile("shim.c", CCINC "-Werror=macro-redefined "); sym_assert(h != 0, "equal names do not redefine a constant");
  for (int i = 0; i < 3; i++) { int f = 0; while (G[x[f]] != G[x[i]]) f++; sym_assert(sym_as<int64_t (*)(void)>(h, ("v" + num(i)).c_str())() == v[f], "first entry of a name keeps its number"); if (f < i) sym_cover("equal names"); }
}
