// C16: make_c_name.
#include "lib.h"
#include "helpers/formatter.h"
static bool first(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static void check(const S& t) {
  S r = make_c_name(t); size_t n = t.size();
  // the result is a C identifier or empty
  bool id = true; for (size_t i = 0; i < r.size(); i++) id &= i ? first(r[i]) | digit(r[i]) : first(r[i]);
  sym_assert(id, "C identifier or empty");
  // exactly the characters which are not allowed at their place are dropped, spaces become underscores
  size_t k = 0; bool any = false, whole = n > 0, ok = true;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)t[i]; bool space = c == ' ', keep = space | first(c) | (any & digit(c)); whole &= i ? first(c) | digit(c) : first(c);
    any |= keep; if (keep) { if (k < r.size()) ok &= (unsigned char)r[k] == (space ? '_' : c); else ok = false; k++; }
  }
  sym_assert(ok & (k == r.size()), "only characters not allowed at their place are dropped, a space becomes an underscore");
  if (whole) { sym_assert(same(r, t), "identifier unchanged"); sym_cover("identifier"); }
  sym_assert(same(make_c_name(r), r), "twice as once"); sym_cover(r.empty() ? "empty" : r.size() < n ? "dropped" : "kept");
}
extern "C" void bytes() { // any text
  int n = (int)sym_concretize(sym_u64("length", 0, TIER_THOROUGH ? 7 : 5)); S t((size_t)n, 'x'); for (int i = 0; i < n; i++) t[(size_t)i] = (char)sym_u64(("c#" + num(i)).c_str(), 0, 255);
  check(t);
}
extern "C" void ident() { // identifiers of any form
  int n = (int)sym_concretize(sym_u64("length", 1, TIER_THOROUGH ? 8 : 6)), pad = n % 3 * 12; S t = symident("c", n); t += S("_Long9name_tail4of5it", (size_t)(pad ? 20 : 0)); S r = make_c_name(t); sym_assert(same(r, t), "identifier unchanged"); sym_cover("identifier");
}
extern "C" void inner() { // arbitrary bytes anywhere inside a longer text
  static const char* B[] = {"9abc DEF_0123-xyz%42 ", "  a1b2c3d4e5f6g7h8i9  ", "\xe4\xf6\xfc 12 \t(value) [x]"}; int k = (int)sym_concretize(sym_u64("text", 0, 2)), p = (int)sym_concretize(sym_u64("place", 0, strlen(B[k]) - 2));
  S t = B[k]; t[(size_t)p] = (char)sym_u64("a", 0, 255); t[(size_t)p + 1] = (char)sym_u64("b", 0, 255); check(t);
}
