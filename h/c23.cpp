// C23: the version line.
#include "lib.h"
#include "parser/dbcscanner.h"
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static bool blank(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// word, blanks, optional quote, number, other characters than digits, number, optional quote
static bool ref(S l, uint64_t& a, uint64_t& b) {
  while (!l.empty() && (unsigned char)l.back() <= ' ') l.pop_back();
  static const char W[] = "version"; if (l.size() < 7) return false; bool w = true; for (int i = 0; i < 7; i++) w &= (l[(size_t)i] == W[i]) | (l[(size_t)i] == W[i] - 32); if (!w) return false;
  size_t i = 7, n = l.size(); while (i < n && blank((unsigned char)l[i])) i++; if (i < n && l[i] == '"') i++;
  size_t s = i; a = b = 0; while (i < n && digit((unsigned char)l[i])) a = a * 10 + (uint64_t)(l[i++] - '0'); if (i == s) return false;
  s = i; while (i < n && !digit((unsigned char)l[i])) i++; if (i == s) return false;
  s = i; while (i < n && digit((unsigned char)l[i])) b = b * 10 + (uint64_t)(l[i++] - '0'); if (i == s) return false;
  if (i < n && l[i] == '"') i++; return i == n;
}
static void scan(const S& line, bool before, bool after = false) {
  DbcScanner sc; S m = "BO_ 5 M: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n\n"; std::stringstream s(S(before ? "VERSION \"7.8\"\n\n" : "") + (after ? m : "") + line + "\n" + (after ? "\n" : m)); sc.TrimDbcText(s);
  uint64_t a, b; if (!ref(line, a, b)) { a = before ? 7 : 0; b = before ? 8 : 0; sym_cover("other line"); } else sym_cover("version line");
  sym_assert(sc.dblist.ver.hi == a, "first version number"); sym_assert(sc.dblist.ver.low == b, "second version number"); sym_assert(sc.dblist.msgs.size() == 1, "message beside the version line");
}
static S digits(const S& n, int k, uint64_t max) { S t; uint64_t v = 0; for (int i = 0; i < k; i++) { uint64_t x = sym_u64((n + "#" + num(i)).c_str(), 0, 9); v = v * 10 + x; t += (char)('0' + x); } sym_assume(v <= max); return t; }
extern "C" void numbers() { // every number, leading zeros included
  int k = (int)sym_concretize(sym_u64("digits", 1, 10)), c = (int)sym_concretize(sym_u64("case", 0, 5)); static const char* W[] = {"VERSION", "version", "Version", "vErSiOn"}; static const char* SEP[] = {".", " ", "_V", "\".\"", "-", "/"};
  S l = S(W[c % 4]) + (c == 2 ? "" : c == 3 ? "\t  " : " ") + (c % 2 ? "\"" : "") + digits("a", k, 0xffffffff) + SEP[c] + digits("b", 1 + (k * 3 + c) % 10, 0xffffffff) + (c % 3 ? "\"" : "") + (c == 5 ? " \r" : ""); scan(l, c % 2, c == 4);
}
extern "C" void word() { // any letters in place of the word
  S t(7, 'x'); for (int i = 0; i < 7; i++) { unsigned char c = (unsigned char)sym_u64(("w#" + num(i)).c_str(), 'A', 'z'); sym_assume((c <= 'Z') | (c >= 'a')); t[(size_t)i] = (char)c; }
  int k = (int)sym_concretize(sym_u64("case", 0, 3)); scan(t + (k & 1 ? "S" : "") + (k & 2 ? " 3.4" : " \"1.22\""), true);
}
extern "C" void bytes() { // two arbitrary characters anywhere
  static const char* B[] = {"VERSION \"1.2\"", "version 12 34", "VERSION\t\"10/a9", "VERSION \"\"", "VERSION5.6"}; int k = (int)sym_concretize(sym_u64("line", 0, 4)), p = (int)sym_concretize(sym_u64("place", 0, strlen(B[k]) - 2));
  S t = B[k]; t[(size_t)p] = (char)sym_u64("a", 1, 127); t[(size_t)p + 1] = (char)sym_u64("b", 1, 127); sym_assume((t[(size_t)p] != '\n') & (t[(size_t)p + 1] != '\n')); scan(t, true, true);
}
extern "C" void inner() { // arbitrary characters between, before and behind the numbers
  int n = (int)sym_concretize(sym_u64("length", 1, TIER_THOROUGH ? 4 : 3)), k = (int)sym_concretize(sym_u64("place", 0, 3)); S x; for (int i = 0; i < n; i++) { char c = (char)sym_u64(("c#" + num(i)).c_str(), 1, 127); sym_assume(c != '\n'); x += c; }
  scan(k == 0 ? "VERSION" + x + "1.2" : k == 1 ? "VERSION \"1" + x + "2\"" : k == 2 ? "VERSION 1.2" + x : x + "VERSION 1.2", k % 2);
}
