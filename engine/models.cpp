// Models of external functions: solver intrinsics, memory, exceptions, LLVM intrinsics, and a
// white list of native library functions that may run on concrete data.
#include "interp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <typeinfo>
#include <exception>
#include <new>
#include <cxxabi.h>
#include <dlfcn.h>
#include <unistd.h>

extern uint8_t g_fill; static uint64_t g_time = 1700000000;
static std::unordered_map<std::string, Builtin> B;
static uint64_t cc(CallCtx& c, int i, const char* why = "argument") { uint64_t v = concretize(c.a[i], why); return v; }
static Expr* E8(Val v) { return toE(v, 8); }
static unsigned bitsFor(uint64_t hi) { unsigned w = 1; while (w < 64 && (hi >> w)) w++; return w; }
extern void logRaw(const std::string& s);
static std::string jsonEsc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// operator delete must cope with arena memory freed by native library code
static void anyFree(void* p) { if (!p) return; if (inArena((uint64_t)p)) heapFree((uint64_t)p, "native delete"); else free(p); }
void operator delete(void* p) noexcept { anyFree(p); }
void operator delete[](void* p) noexcept { anyFree(p); }
void operator delete(void* p, size_t) noexcept { anyFree(p); }
void operator delete[](void* p, size_t) noexcept { anyFree(p); }

// ---------------------------------------------------------------- symbolic inputs
static std::set<std::string> covered;
static bool condE(CallCtx& c, int i, Expr*& e) { // true when concrete; value in e->k
  Val v = c.a[i]; e = toE(v, std::max<unsigned>(1, c.aw[i])); if (e->w != 1) e = eNot(eEq(e, eConst(e->w, 0))); return isC(e);
}
static void doAssert(CallCtx& c, Expr* e, const std::string& id, const char* finding, Expr* region) {
  shm->asserts++;
  if (isC(e) && e->k) { shm->asserts_conc++; return; }
  bool known = false;
  if (finding) for (auto& k : g_knownIds) if (k == finding) known = true;
  Expr* bad = eNot(e);
  if (!known) {
    uint64_t before = S.st.queries; std::vector<uint64_t> m = S.model; SatRes r = SatRes::Sat;
    if (!isC(e)) { if (!S.ev(e)) r = SatRes::Sat; else r = S.check(bad, m); }
    if (S.st.queries > before) shm->asserts_solved++; else shm->asserts_conc++;
    if (r == SatRes::Unknown) { incomplete("solver unknown at assertion " + id); }
    else if (r == SatRes::Sat) {
      auto keep = S.model; S.setModel(m); violation("assert", id, nullptr); S.setModel(keep);
      if (isC(e)) endPath("assertion");
    }
  } else {
    std::vector<uint64_t> m;
    Expr* out = eBin(O_AND, bad, eNot(region));
    if (!isC(out)) {
      shm->asserts_solved++; SatRes r = S.check(out, m);
      if (r == SatRes::Sat) { auto keep = S.model; S.setModel(m); violation("assert", id, nullptr); S.setModel(keep); }
      else if (r == SatRes::Unknown) incomplete("solver unknown at assertion " + id);
    } else if (out->k) { violation("assert", id, nullptr); }
    Expr* in = eBin(O_AND, bad, region);
    static std::set<std::string> seen;
    if (!seen.count(id + finding)) {
      SatRes r = isC(in) ? (in->k ? SatRes::Sat : SatRes::Unsat) : S.check(in, m);
      if (r == SatRes::Sat) { seen.insert(id + finding); auto keep = S.model; if (!isC(in)) S.setModel(m); violation("known", std::string(finding) + "|" + id, nullptr); if (!isC(in)) S.setModel(keep); }
    }
    if (isC(e)) endPath("known finding");
  }
  if (!isC(e)) {
    if (!S.ev(e)) { std::vector<uint64_t> m; SatRes r = S.check(e, m); if (r != SatRes::Sat) endPath("assertion never holds"); S.setModel(m); }
    S.add(e);
  }
}
// ---------------------------------------------------------------- exceptions
static std::vector<std::pair<uint64_t, uint64_t>> caughtStack; // obj, ti
extern uint64_t g_adjObj;
static std::set<uint64_t> liveExc;
bool catchMatch(uint64_t catchTi, uint64_t thrownTi, uint64_t obj, uint64_t* adj) {
  if (!thrownTi) return false;
  void* p = (void*)obj;
  const std::type_info* c = (const std::type_info*)catchTi; const std::type_info* t = (const std::type_info*)thrownTi;
  if (t->__is_pointer_p()) p = *(void**)p;
  if (c->__do_catch(t, &p, 1)) { *adj = (uint64_t)p; return true; }
  return false;
}
std::string tiName(uint64_t ti) {
  if (!ti) return "?"; int st; const char* n = ((const std::type_info*)ti)->name(); char* d = abi::__cxa_demangle(n, 0, 0, &st);
  std::string r = d ? d : n; free(d); return r;
}
// ---------------------------------------------------------------- native calls
typedef unsigned __int128 u128;
typedef u128 (*NF)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
typedef double (*NFD)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static const char* nativeOk[] = {
  "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZSt18_Rb_tree", "_ZSt28_Rb_tree", "_ZSt29_Rb_tree", "_ZNKSt8__detail", "_ZNSt8__detail",
  "_ZNKSt5ctypeIcE", "_ZNSt5ctypeIcE", "_ZNKSt7__cxx117collateIcE", "_ZNKSt7collateIcE", "_ZNKSt7__cxx118numpunctIcE", "_ZNSt7__cxx118numpunct", "_ZNKSt8numpunctIcE", "_ZNKSt7codecvt",
  "__dynamic_cast", "localtime", "gmtime", "mktime", "strftime", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt12length_error", "_ZNSt16invalid_argument", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt12domain_error", "_ZNSt9exception", "_ZNSt9bad_alloc",
  "_ZNKSt13runtime_error", "_ZNKSt11logic_error", "_ZNKSt9exception", "_ZNKSt9bad_alloc", "_ZNSt11regex_error", "_ZNSt11regex_errorD", "_ZSt", "_ZNSt10filesystem7__cxx114path", "_ZNKSt10filesystem7__cxx114path", "_ZNSt10filesystem7__cxx1116filesystem_error", "_ZNKSt10filesystem7__cxx1116filesystem_error", "_ZNKSt12__basic_fileIcE7is_open",
  "_ZNSt3_V2", "_ZNKSt3_V2", "_ZNSt6chrono", "ldexp", "log10", "floor", "ceil", "pow", "log2", "fabs", "round", "trunc", "lround", "llround", "fmod", "frexp", "modf", "sqrt", "exp", "log", "nearbyint", "rint", "setlocale", "localeconv", "newlocale", "uselocale", "__errno_location", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc", "_ZNSt9type_info", "_ZNKSt9type_info", "_ZNKSt15__exception_ptr", "_ZNSt15__exception_ptr", "strerror", "getenv", "secure_getenv", "clock", "_ZNSt9basic_iosIc", "_ZNKSt9basic_iosIc", "_ZTv", "_ZNSt15basic_streambufIc", "__cxa_pure_virtual", "_ZNKSt7num_put", "_ZNKSt7num_get", "_ZNKSt8time_put", "nan", "__cxa_demangle"
};
Val callNative(uint64_t fn, CallCtx& c) {
  const std::string& name = *c.name;
  bool ok = name == "?native" ? false : false;
  for (auto p : nativeOk) if (name.compare(0, strlen(p), p) == 0) { ok = true; break; }
  if (!ok) { incomplete("unmodelled external " + name); endPath(("unmodelled external " + name).c_str()); }
  uint64_t ia[6] = {0}, st[8] = {0}; double fa[8] = {0}; int ni = 0, nf = 0, ns = 0;
  for (size_t i = 0; i < c.a.size(); i++) {
    Val v = c.a[i];
    if (v.e) { if (S.ev(v.e), true) { std::vector<uint64_t> m; uint64_t k = S.ev(v.e); if (S.check(eNot(eEq(v.e, eConst(v.e->w, k))), m) != SatRes::Unsat) { incomplete("symbolic argument to native " + name); } v.c = concretize(v, name.c_str()); v.e = nullptr; } }
    if (c.af[i]) { double d; memcpy(&d, &v.c, 8); if (nf < 8) fa[nf++] = d; else st[ns++ & 7] = v.c; }
    else { if (inArena(v.c)) for (int j = 0; j < 64; j++) if (symByte(v.c + j)) { static std::set<std::string> s; if (s.insert(name).second && getenv("SYMEX_DEBUG")) fprintf(stderr, "note: symbolic memory passed to native %s\n", name.c_str()); break; } if (ni < 6) ia[ni++] = v.c; else st[ns++ & 7] = v.c; }
  }
  try {
    if (c.ci->retFP) {
      double d = ((NFD)fn)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], fa[0], fa[1], fa[2], fa[3], fa[4], fa[5], fa[6], fa[7], st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7]);
      Val r; memcpy(&r.c, &d, 8); if (c.ci->retW == 32) r.c &= 0xffffffffu; return r;
    }
    u128 r = ((NF)fn)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], fa[0], fa[1], fa[2], fa[3], fa[4], fa[5], fa[6], fa[7], st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7]);
    c.nret = 2; c.ret[1] = Val{(uint64_t)(r >> 64), nullptr};
    return Val{(uint64_t)r & wmask(c.ci->retW ? c.ci->retW : 64), nullptr};
  } catch (...) {
    auto* keep = new std::exception_ptr(std::current_exception());
    uint64_t obj = *(uint64_t*)keep; uint64_t ti = (uint64_t)abi::__cxa_current_exception_type();
    throwException(obj, ti);
  }
  return Val{};
}
// ---------------------------------------------------------------- helpers
static Expr* byteAt(uint64_t p) { checkRange(p, 1, false, "read"); return E8(loadByte(p)); }
static bool isZeroByte(uint64_t p) { checkRange(p, 1, false, "string read"); Val v = loadByte(p); if (!v.e) return v.c == 0; return branchOn(eEq(v.e, eConst(8, 0))); }
static void memcmpModel(CallCtx& c, bool eqOnly) {
  uint64_t a = cc(c, 0), b = cc(c, 1), n = cc(c, 2, "length");
  checkRange(a, n, false, "memcmp"); checkRange(b, n, false, "memcmp");
  Expr* r = eConst(32, 0);
  for (uint64_t i = n; i-- > 0;) {
    Expr *x = E8(loadByte(a + i)), *y = E8(loadByte(b + i));
    Expr* q = eEq(x, y);
    if (isC(q) && q->k) continue;
    Expr* d = eqOnly ? eConst(32, 1) : eIte(eBin(O_ULT, x, y), eConst(32, 0xffffffffu), eConst(32, 1));
    r = isC(q) ? d : eIte(q, r, d);
  }
  c.r(mkV(r));
}
static void strcmpModel(CallCtx& c, uint64_t lim) {
  uint64_t a = cc(c, 0), b = cc(c, 1);
  for (uint64_t i = 0; i < lim; i++) {
    Expr *x = byteAt(a + i), *y = byteAt(b + i);
    if (!branchOn(eEq(x, y))) { c.r(mkV(eSub(eZExt(x, 32), eZExt(y, 32)))); return; }
    if (isC(x) ? !x->k : isC(y) ? !y->k : branchOn(eEq(x, eConst(8, 0)))) break;
  }
  c.r(0);
}
static void chrModel(CallCtx& c, uint64_t lim, bool str) {
  uint64_t a = cc(c, 0); Expr* ch = eExtract(toE(c.a[1], 32), 0, 8);
  for (uint64_t i = 0; i < lim; i++) {
    Expr* x = byteAt(a + i);
    if (branchOn(eEq(x, ch))) { c.r(a + i); return; }
    if (str && (isC(x) ? !x->k : branchOn(eEq(x, eConst(8, 0))))) break;
  }
  c.r(0);
}
static Val ovf(Expr* r, Expr* o, CallCtx& c) { c.ret[0] = mkV(r); c.ret[1] = mkV(o); c.nret = 2; return c.ret[0]; }
static unsigned wOf(CallCtx& c, int i) { return c.aw[i] ? c.aw[i] : 64; }
static void addOvf(CallCtx& c, int op, bool sg) {
  unsigned w = wOf(c, 0); Expr *x = toE(c.a[0], w), *y = toE(c.a[1], w);
  if (op == 2) {
    if (2 * w <= 64) {
      Expr *X = sg ? eSExt(x, 2 * w) : eZExt(x, 2 * w), *Y = sg ? eSExt(y, 2 * w) : eZExt(y, 2 * w), *P = eBin(O_MUL, X, Y);
      Expr* r = eExtract(P, 0, w); ovf(r, eNot(eEq(P, sg ? eSExt(r, 2 * w) : eZExt(r, 2 * w))), c); return;
    }
    if (isC(x) && !isC(y)) std::swap(x, y);
    if (isC(y)) { // constant factor: exact bounds instead of a division
      uint64_t k = y->k; Expr* r = eBin(O_MUL, x, y);
      if (!sg) { ovf(r, k < 2 ? eConst(1, 0) : eBin(O_ULT, eConst(w, (wmask(w)) / k), x), c); return; }
      int64_t s = w == 64 ? (int64_t)k : (int64_t)(k << (64 - w)) >> (64 - w);
      if (s > 1 && w == 64) { ovf(r, eBin(O_OR, eBin(O_SLT, eConst(w, (uint64_t)(INT64_MAX / s)), x), eBin(O_SLT, x, eConst(w, (uint64_t)(INT64_MIN / s)))), c); return; }
      if (s == 0 || s == 1) { ovf(r, eConst(1, 0), c); return; }
    }
    // 64 bit: x*y overflows iff x != 0 && (x*y)/x != y
    Expr* r = eBin(O_MUL, x, y); Expr* z = eEq(x, eConst(w, 0)); Expr* q = eBin(sg ? O_SDIV : O_UDIV, r, eIte(z, eConst(w, 1), x));
    Expr* o = eBin(O_AND, eNot(z), eNot(eEq(q, y)));
    if (sg) o = eBin(O_OR, o, eBin(O_AND, eEq(x, eConst(w, wmask(w))), eEq(y, eConst(w, 1ull << (w - 1)))));
    ovf(r, o, c); return;
  }
  Expr* r = op ? eSub(x, y) : eBin(O_ADD, x, y);
  Expr* o;
  if (!sg) o = op ? eBin(O_ULT, x, y) : eBin(O_ULT, r, x);
  else {
    Expr *sxx = eExtract(x, w - 1, 1), *sy = eExtract(y, w - 1, 1), *sr = eExtract(r, w - 1, 1);
    Expr* dif = eBin(O_XOR, sxx, sr);
    o = op ? eBin(O_AND, eBin(O_XOR, sxx, sy), dif) : eBin(O_AND, eNot(eBin(O_XOR, sxx, sy)), dif);
  }
  ovf(r, o, c);
}
static void mm(CallCtx& c, Op op, bool swap) { unsigned w = wOf(c, 0); Expr *x = toE(c.a[0], w), *y = toE(c.a[1], w); c.r(mkV(eIte(swap ? eBin(op, y, x) : eBin(op, x, y), x, y))); }
static Expr* countBits(Expr* x, int mode) { // 0 ctpop 1 ctlz 2 cttz
  unsigned w = x->w; Expr* r = eConst(w, mode == 0 ? 0 : w);
  if (mode == 0) { for (unsigned i = 0; i < w; i++) r = eBin(O_ADD, r, eZExt(eExtract(x, i, 1), w)); return r; }
  if (mode == 1) { for (unsigned i = 0; i < w; i++) r = eIte(eExtract(x, i, 1), eConst(w, w - 1 - i), r); return r; }
  for (unsigned i = w; i-- > 0;) r = eIte(eExtract(x, i, 1), eConst(w, i), r);
  return r;
}
static void toLU(CallCtx& c, int i, unsigned w, bool up) {
  Expr* x = toE(c.a[i], w); Expr* in = eBin(O_AND, eBin(O_ULE, eConst(w, up ? 'a' : 'A'), x), eBin(O_ULE, x, eConst(w, up ? 'z' : 'Z')));
  c.r(mkV(eIte(in, up ? eSub(x, eConst(w, 32)) : eBin(O_ADD, x, eConst(w, 32)), x)));
}
static bool sym_must_le(Expr* n, uint64_t k) { if (n->hi <= k) return true; std::vector<uint64_t> m; return S.check(eBin(O_ULT, eConst(n->w, k), n), m) == SatRes::Unsat; }
static double bitsD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static bool pow10(double d, int& k) { double p = 1; for (k = 0; k <= 15; k++, p *= 10) if (p == d) return true; return false; }

static void reg(const char* n, Builtin b) { B[n] = b; }
void regBuiltin(const char* n, Builtin b) { B[n] = b; }
static bool allowExit = false;
void registerBuiltins() {
  // --- solver interface
  reg("sym_u64", [](CallCtx& c) {
    std::string n = cstrAt(cc(c, 0)); uint64_t lo = cc(c, 1), hi = cc(c, 2);
    if (lo == hi) { c.r(lo); return; }
    Expr* v = eVar(bitsFor(hi), n, lo, hi); S.model.resize(g_vars.size(), lo); S.model[g_vars.size() - 1] = lo; evalReset();
    c.r(mkV(eZExt(v, 64)));
  });
  reg("sym_bytes", [](CallCtx& c) {
    uint64_t p = cc(c, 0), n = cc(c, 1); std::string nm = cstrAt(cc(c, 2)); uint64_t lo = cc(c, 3), hi = cc(c, 4);
    for (uint64_t i = 0; i < n; i++) { Expr* v = eVar(8, nm + "[" + std::to_string(i) + "]", lo, hi); S.model.resize(g_vars.size(), lo); S.model[g_vars.size() - 1] = lo; evalReset(); memStore(p + i, 1, mkV(v), 8); }
  });
  reg("sym_assume", [](CallCtx& c) {
    Expr* e; if (condE(c, 0, e)) { if (!e->k) endPath("assume"); return; }
    if (S.ev(e)) { S.add(e); return; }
    std::vector<uint64_t> m; SatRes r = S.check(e, m);
    if (r == SatRes::Unsat) endPath("assume");
    if (r == SatRes::Unknown) { incomplete("solver unknown at an assumption"); endPath("assume unknown"); }
    S.setModel(m); S.add(e);
  });
  reg("sym_assert", [](CallCtx& c) { Expr* e; condE(c, 0, e); doAssert(c, e, cstrAt(cc(c, 1)), nullptr, nullptr); });
  reg("sym_assert_known", [](CallCtx& c) { Expr *e, *r; condE(c, 0, e); condE(c, 3, r); std::string f = cstrAt(cc(c, 2)); doAssert(c, e, cstrAt(cc(c, 1)), f.c_str(), r); });
  reg("sym_fail", [](CallCtx& c) { doAssert(c, eBool(false), cstrAt(cc(c, 0)), nullptr, nullptr); endPath("fail"); });
  reg("sym_cover", [](CallCtx& c) { std::string s = cstrAt(cc(c, 0)); if (covered.insert(s).second) logRaw("{\"cover\":\"" + jsonEsc(s) + "\"}"); });
  reg("sym_note", [](CallCtx& c) { std::string s = cstrAt(cc(c, 0)); logRaw("{\"note\":\"" + jsonEsc(s) + "\"}"); });
  reg("sym_unsupported", [](CallCtx& c) { std::string s = cstrAt(cc(c, 0)); incomplete(s); endPath(s.c_str()); });
  reg("sym_known", [](CallCtx& c) { std::string s = cstrAt(cc(c, 0)); for (auto& k : g_knownIds) if (k == s) { c.r(1); return; } c.r(0); });
  reg("sym_native", [](CallCtx& c) { c.r(0); });
  reg("sym_concretize", [](CallCtx& c) { c.r(cc(c, 0, "requested")); });
  reg("sym_is_symbolic", [](CallCtx& c) { c.r(c.a[0].e ? 1 : 0); });
  reg("sym_ite", [](CallCtx& c) { Expr* e; condE(c, 0, e); c.r(mkV(eIte(e, toE(c.a[1], 64), toE(c.a[2], 64)))); });
  reg("sym_must", [](CallCtx& c) { Expr* e; if (condE(c, 0, e)) { c.r(e->k); return; } if (!S.ev(e)) { c.r(0); return; } std::vector<uint64_t> m; c.r(S.check(eNot(e), m) == SatRes::Unsat); });
  reg("sym_hexdig", [](CallCtx& c) { bool up = cc(c, 1) != 0; Expr* x = eExtract(toE(c.a[0], 32), 0, 4); c.r(mkV(eUn(up ? O_HEXU : O_HEXL, eZExt(x, 8), 8))); });
  reg("sym_hex_known", [](CallCtx& c) { Expr* x = eExtract(toE(c.a[0], 32), 0, 8); bool k = x->op == O_HEXU || x->op == O_HEXL || (x->lo >= '0' && x->hi <= '9') || (isC(x) && isxdigit((int)x->k)); c.r(k); });
  reg("sym_hexval", [](CallCtx& c) {
    Expr* x = eExtract(toE(c.a[0], 32), 0, 8);
    if (x->op == O_HEXU || x->op == O_HEXL) { c.r(mkV(eZExt(x->a, 32))); return; }
    if (isC(x)) { int k = (int)x->k; c.r(k <= '9' ? k - '0' : (k | 32) - 'a' + 10); return; }
    Expr* d = eSub(x, eConst(8, '0'));
    if (!(x->lo >= '0' && x->hi <= '9')) { Expr* l = eSub(eBin(O_OR, x, eConst(8, 32)), eConst(8, 'a' - 10)); d = eIte(eBin(O_ULE, x, eConst(8, '9')), d, l); }
    c.r(mkV(eZExt(d, 32)));
  });
  for (auto n : {"llvm.load.relative.i64", "llvm.load.relative.i32"}) reg(n, [](CallCtx& c) { uint64_t b = cc(c, 0), o = cc(c, 1, "table index"); checkRange(b + o, 4, false, "read"); Val v = memLoad(b + o, 4, 32); c.r(b + (int64_t)(int32_t)v.c); });
  reg("sym_dec_parts", [](CallCtx& c) {
    uint64_t pn = cc(c, 1), pk = cc(c, 2);
    if (!c.a[0].e) { c.r(0); return; }
    Expr* e = c.a[0].e; int sign = 1, k = 0;
    if (e->op == O_XOR && isC(e->b) && e->b->k == 1ull << 63) { sign = -1; e = e->a; }
    if (e->op == O_FDIV && isC(e->b) && pow10(bitsD(e->b->k), k)) e = e->a;
    if (e->op == O_XOR && isC(e->b) && e->b->k == 1ull << 63) { sign = -sign; e = e->a; }
    Expr* n = nullptr;
    if (e->op == O_UITOFP) n = e->a;
    else if (e->op == O_SITOFP) { n = eSExt(e->a, 64); if (branchOn(eBin(O_SLT, n, eConst(64, 0)))) { sign = -sign; n = eSub(eConst(64, 0), n); } }
    if (!n) { c.r(0); return; }
    n = n->w < 64 ? eZExt(n, 64) : n;
    // the printed digits are exact only while the double is within half a printed unit
    double p = std::pow(10.0, k);
    if (!sym_must_le(n, (uint64_t)(k ? std::min(4.0e5 * p, 9.0e15) : 9.0e15))) { c.r(0); return; }
    memStore(pn, 8, mkV(n), 64); memStore(pk, 4, Val{(uint64_t)k, nullptr}, 32); c.r((uint64_t)(sign > 0 ? 1 : 0xffffffffu));
  });
  reg("sym_native_fmt", [](CallCtx& c) { // (char* out, size_t n, const char* fmt, double)
    uint64_t o = cc(c, 0), n = cc(c, 1); std::string f = cstrAt(cc(c, 2)); uint64_t b = cc(c, 3, "floating point text"); char buf[512];
    int r = snprintf(buf, sizeof buf, f.c_str(), bitsD(b)); for (int i = 0; i <= r && (uint64_t)i < n; i++) memStore(o + i, 1, Val{(uint8_t)buf[i], nullptr}, 8); c.r((uint64_t)(uint32_t)r);
  });
  reg("sym_native_strtod", [](CallCtx& c) { std::string s = cstrAt(cc(c, 0)); char* e; double d = strtod(s.c_str(), &e); memStore(cc(c, 1), 8, Val{(uint64_t)(e - s.c_str()), nullptr}, 64); uint64_t u; memcpy(&u, &d, 8); c.r(u); });
  // --- memory
  auto mallocB = [](CallCtx& c) { c.r(heapAlloc(cc(c, 0, "allocation size"))); };
  auto newB = [](CallCtx& c) { uint64_t n = cc(c, 0, "allocation size"); if (n > (2ull << 30)) { try { throw std::bad_alloc(); } catch (...) { auto* k = new std::exception_ptr(std::current_exception()); throwException(*(uint64_t*)k, (uint64_t)abi::__cxa_current_exception_type()); } return; } c.r(heapAlloc(n)); };
  reg("malloc", mallocB); reg("_Znwm", newB); reg("_Znam", newB); reg("_ZnwmRKSt9nothrow_t", mallocB); reg("_ZnamRKSt9nothrow_t", mallocB);
  auto newAl = [](CallCtx& c) { c.r(heapAlloc(cc(c, 0), cc(c, 1))); };
  reg("_ZnwmSt11align_val_t", newAl); reg("_ZnamSt11align_val_t", newAl);
  reg("calloc", [](CallCtx& c) { uint64_t n = cc(c, 0) * cc(c, 1); uint64_t p = heapAlloc(n); memFill(p, Val{0, nullptr}, n); c.r(p); });
  reg("realloc", [](CallCtx& c) { uint64_t p = cc(c, 0), n = cc(c, 1), q = heapAlloc(n); if (p) { memCopy(q, p, std::min(n, heapSize(p))); heapFree(p, "realloc"); } c.r(q); });
  auto freeB = [](CallCtx& c) { heapFree(cc(c, 0), "free"); };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}) reg(n, freeB);
  auto cpy = [](CallCtx& c) { uint64_t d = cc(c, 0), s = cc(c, 1), n = cc(c, 2, "copy length"); memCopy(d, s, n); c.r(d); };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "__memcpy_chk", "__memmove_chk"}) reg(n, cpy);
  auto fill = [](CallCtx& c) { uint64_t d = cc(c, 0), n = cc(c, 2, "fill length"); memFill(d, mkV(eExtract(toE(c.a[1], std::max<unsigned>(8, c.aw[1])), 0, 8)), n); c.r(d); };
  for (auto n : {"memset", "llvm.memset.p0.i64", "llvm.memset.p0.i32", "llvm.memset.inline.p0.i64", "__memset_chk"}) reg(n, fill);
  reg("memcmp", [](CallCtx& c) { memcmpModel(c, false); });
  reg("bcmp", [](CallCtx& c) { memcmpModel(c, true); });
  reg("strlen", [](CallCtx& c) { uint64_t p = cc(c, 0), n = 0; while (!isZeroByte(p + n)) n++; c.r(n); });
  reg("strnlen", [](CallCtx& c) { uint64_t p = cc(c, 0), n = 0, m = cc(c, 1); while (n < m && !isZeroByte(p + n)) n++; c.r(n); });
  reg("strcmp", [](CallCtx& c) { strcmpModel(c, ~0ull); });
  reg("strncmp", [](CallCtx& c) { strcmpModel(c, cc(c, 2)); });
  // std::string::find: the position as one expression instead of one path per position
  reg("sym_str_find", [](CallCtx& c) {
    uint64_t a = cc(c, 0), len = cc(c, 1), p = cc(c, 2), pos = cc(c, 3), n = cc(c, 4);
    if (n == 0) { c.r(pos <= len ? pos : ~0ull); return; }
    std::vector<std::pair<uint64_t, Expr*>> hits; 
    for (uint64_t i = pos; i + n <= len; i++) {
      Expr* m = eBool(true);
      for (uint64_t j = 0; j < n && !(isC(m) && !m->k); j++) m = eBin(O_AND, m, eEq(byteAt(a + i + j), byteAt(p + j)));
      if (isC(m) && !m->k) continue;
      hits.push_back({i, m}); if (isC(m)) break;
    }
    Expr* r = eConst(64, ~0ull);
    for (size_t k = hits.size(); k--;) r = eIte(hits[k].second, eConst(64, hits[k].first), r);
    c.r(mkV(r));
  });
  reg("sym_str_findc", [](CallCtx& c) {
    uint64_t a = cc(c, 0), len = cc(c, 1), pos = cc(c, 3); Expr* ch = eExtract(toE(c.a[2], 32), 0, 8);
    std::vector<std::pair<uint64_t, Expr*>> hits;
    for (uint64_t i = pos; i < len; i++) { Expr* m = eEq(byteAt(a + i), ch); if (isC(m) && !m->k) continue; hits.push_back({i, m}); if (isC(m)) break; }
    Expr* r = eConst(64, ~0ull);
    for (size_t k = hits.size(); k--;) r = eIte(hits[k].second, eConst(64, hits[k].first), r);
    c.r(mkV(r));
  });
  reg("memchr", [](CallCtx& c) { chrModel(c, cc(c, 2), false); });
  reg("strchr", [](CallCtx& c) { chrModel(c, ~0ull, true); });
  reg("strcpy", [](CallCtx& c) { uint64_t d = cc(c, 0), s = cc(c, 1), n = 0; while (!isZeroByte(s + n)) n++; memCopy(d, s, n + 1); c.r(d); });
  reg("strcat", [](CallCtx& c) { uint64_t d = cc(c, 0), s = cc(c, 1), n = 0, k = 0; while (!isZeroByte(d + k)) k++; while (!isZeroByte(s + n)) n++; memCopy(d + k, s, n + 1); c.r(d); });
  reg("strncpy", [](CallCtx& c) { uint64_t d = cc(c, 0), s = cc(c, 1), m = cc(c, 2), n = 0; while (n < m && !isZeroByte(s + n)) n++; memCopy(d, s, n); if (n < m) memFill(d + n, Val{0, nullptr}, m - n); c.r(d); });
  // --- llvm intrinsics
  for (const char* w : {"8", "16", "32", "64", "1"}) {
    std::string W = w;
    auto R = [&](const std::string& n, Builtin b) { B["llvm." + n + ".i" + W] = b; };
    R("umax", [](CallCtx& c) { mm(c, O_ULE, true); }); R("umin", [](CallCtx& c) { mm(c, O_ULE, false); });
    R("smax", [](CallCtx& c) { mm(c, O_SLE, true); }); R("smin", [](CallCtx& c) { mm(c, O_SLE, false); });
    R("abs", [](CallCtx& c) { unsigned w = wOf(c, 0); Expr* x = toE(c.a[0], w); c.r(mkV(eIte(eBin(O_SLT, x, eConst(w, 0)), eSub(eConst(w, 0), x), x))); });
    R("ctpop", [](CallCtx& c) { c.r(mkV(countBits(toE(c.a[0], wOf(c, 0)), 0))); });
    R("ctlz", [](CallCtx& c) { c.r(mkV(countBits(toE(c.a[0], wOf(c, 0)), 1))); });
    R("cttz", [](CallCtx& c) { c.r(mkV(countBits(toE(c.a[0], wOf(c, 0)), 2))); });
    R("bswap", [](CallCtx& c) { unsigned w = wOf(c, 0); Expr* x = toE(c.a[0], w); Expr* r = eExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = eConcat(r, eExtract(x, i, 8)); c.r(mkV(r)); });
    R("bitreverse", [](CallCtx& c) { unsigned w = wOf(c, 0); Expr* x = toE(c.a[0], w); Expr* r = eExtract(x, 0, 1); for (unsigned i = 1; i < w; i++) r = eConcat(r, eExtract(x, i, 1)); c.r(mkV(r)); });
    auto fsh = [](CallCtx& c, bool left) { unsigned w = wOf(c, 0); Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w), *s = eBin(O_UREM, toE(c.a[2], w), eConst(w, w)); Expr* z = eEq(s, eConst(w, 0)); Expr* t = eSub(eConst(w, w), s);
      c.r(mkV(left ? eIte(z, a, eBin(O_OR, eBin(O_SHL, a, s), eBin(O_LSHR, b, t))) : eIte(z, b, eBin(O_OR, eBin(O_LSHR, b, s), eBin(O_SHL, a, t))))); };
    static auto fshS = fsh;
    R("fshl", [](CallCtx& c) { fshS(c, true); }); R("fshr", [](CallCtx& c) { fshS(c, false); });
    R("uadd.with.overflow", [](CallCtx& c) { addOvf(c, 0, false); }); R("sadd.with.overflow", [](CallCtx& c) { addOvf(c, 0, true); });
    R("usub.with.overflow", [](CallCtx& c) { addOvf(c, 1, false); }); R("ssub.with.overflow", [](CallCtx& c) { addOvf(c, 1, true); });
    R("umul.with.overflow", [](CallCtx& c) { addOvf(c, 2, false); }); R("smul.with.overflow", [](CallCtx& c) { addOvf(c, 2, true); });
    R("usub.sat", [](CallCtx& c) { unsigned w = wOf(c, 0); Expr *x = toE(c.a[0], w), *y = toE(c.a[1], w); c.r(mkV(eIte(eBin(O_ULT, x, y), eConst(w, 0), eSub(x, y)))); });
    R("uadd.sat", [](CallCtx& c) { unsigned w = wOf(c, 0); Expr *x = toE(c.a[0], w), *y = toE(c.a[1], w), *r = eBin(O_ADD, x, y); c.r(mkV(eIte(eBin(O_ULT, r, x), eConst(w, wmask(w)), r))); });
    R("expect", [](CallCtx& c) { c.r(c.a[0]); });
    R("is.constant", [](CallCtx& c) { c.r(0); });
  }
  reg("llvm.expect.with.probability.i1", [](CallCtx& c) { c.r(c.a[0]); });
  reg("llvm.objectsize.i64.p0", [](CallCtx& c) { c.r(cc(c, 1) ? 0 : ~0ull); });
  reg("llvm.is.constant.p0", [](CallCtx& c) { c.r(0); });
  reg("llvm.stacksave.p0", [](CallCtx& c) { c.r(0); }); reg("llvm.stacksave", [](CallCtx& c) { c.r(0); });
  reg("llvm.threadlocal.address.p0", [](CallCtx& c) { c.ret[0] = c.a[0]; c.nret = 1; });
  reg("llvm.trap", [](CallCtx& c) { violation("ub", "trap", nullptr); endPath("trap"); });
  reg("llvm.ubsantrap", [](CallCtx& c) { violation("ub", "undefined behaviour " + std::to_string(cc(c, 0)), nullptr); endPath("ub"); });
  reg("llvm.fabs.f64", [](CallCtx& c) { c.r(mkV(eBin(O_AND, toE(c.a[0], 64), eConst(64, ~(1ull << 63))))); });
  reg("llvm.fabs.f32", [](CallCtx& c) { c.r(mkV(eBin(O_AND, toE(c.a[0], 32), eConst(32, 0x7fffffff)))); });
  auto fmm = [](CallCtx& c, bool mx) { // libm semantics: a NaN operand yields the other one
    unsigned w = c.name->find("f32") != std::string::npos || *c.name == "fmaxf" || *c.name == "fminf" ? 32 : 64; Expr *x = toE(c.a[0], w), *y = toE(c.a[1], w);
    Expr* nx = eBin(O_FUNO, x, x); Expr* ny = eBin(O_FUNO, y, y); Expr* lt = mx ? eBin(O_FOLT, x, y) : eBin(O_FOLT, y, x);
    c.r(mkV(eIte(nx, y, eIte(ny, x, eIte(lt, y, x))))); };
  static auto fmmS = fmm;
  for (auto n : {"llvm.maxnum.f64", "llvm.maxnum.f32", "fmax", "fmaxf"}) reg(n, [](CallCtx& c) { fmmS(c, true); });
  for (auto n : {"llvm.minnum.f64", "llvm.minnum.f32", "fmin", "fminf"}) reg(n, [](CallCtx& c) { fmmS(c, false); });
  reg("fabs", [](CallCtx& c) { c.r(mkV(eBin(O_AND, toE(c.a[0], 64), eConst(64, ~(1ull << 63))))); });
  reg("llvm.copysign.f64", [](CallCtx& c) { c.r(mkV(eBin(O_OR, eBin(O_AND, toE(c.a[0], 64), eConst(64, ~(1ull << 63))), eBin(O_AND, toE(c.a[1], 64), eConst(64, 1ull << 63))))); });
  reg("llvm.fma.f64", [](CallCtx& c) { double a = bitsD(cc(c, 0)), b = bitsD(cc(c, 1)), d = bitsD(cc(c, 2)); double r = __builtin_fma(a, b, d); uint64_t u; memcpy(&u, &r, 8); c.r(u); });
  reg("llvm.lround.i64.f64", [](CallCtx& c) { c.r((uint64_t)lround(bitsD(cc(c, 0)))); }); reg("llvm.llround.i64.f64", [](CallCtx& c) { c.r((uint64_t)llround(bitsD(cc(c, 0)))); });
  reg("llvm.ldexp.f64.i32", [](CallCtx& c) { double r = ldexp(bitsD(cc(c, 0)), (int)cc(c, 1)); uint64_t u; memcpy(&u, &r, 8); c.r(u); });
  for (auto n : {"ldexp", "scalbn"}) reg(n, [](CallCtx& c) { double r = ldexp(bitsD(cc(c, 0, "ldexp")), (int)cc(c, 1, "ldexp")); uint64_t u; memcpy(&u, &r, 8); c.r(u); });
  reg("llvm.fmuladd.f64", [](CallCtx& c) { c.r(mkV(eBin(O_FADD, eBin(O_FMUL, toE(c.a[0], 64), toE(c.a[1], 64)), toE(c.a[2], 64)))); });
  for (auto n : {"floor", "ceil", "round", "trunc", "pow", "sqrt", "rint", "nearbyint", "log10", "log2", "exp", "log"}) {
    static std::map<std::string, void*> mf; void* p = dlsym(RTLD_DEFAULT, n); mf[std::string("llvm.") + n + ".f64"] = p;
    reg((std::string("llvm.") + n + ".f64").c_str(), [](CallCtx& c) { static CallInfo ci; void* f = dlsym(RTLD_DEFAULT, c.name->substr(5, c.name->size() - 9).c_str()); double a = bitsD(cc(c, 0)); double r; if (c.a.size() > 1) r = ((double (*)(double, double))f)(a, bitsD(cc(c, 1))); else r = ((double (*)(double))f)(a); uint64_t u; memcpy(&u, &r, 8); c.r(u); });
  }
  reg("llvm.eh.typeid.for", [](CallCtx& c) { extern int tiIdOf(uint64_t); c.r((uint64_t)tiIdOf(cc(c, 0))); });
  reg("llvm.eh.typeid.for.p0", B["llvm.eh.typeid.for"]);
  reg("llvm.va_start.p0", [](CallCtx& c) {
    uint64_t ap = cc(c, 0); auto* va = g_frames.back().varargs; size_t n = va ? va->size() : 0;
    uint64_t o = heapAlloc(8 * (n + 1));
    for (size_t i = 0; i < n; i++) memStore(o + 8 * i, 8, mkV(toE((*va)[i], 64)), 64);
    memStore(ap, 4, Val{48, nullptr}, 32); memStore(ap + 4, 4, Val{176, nullptr}, 32); memStore(ap + 8, 8, Val{o, nullptr}, 64); memStore(ap + 16, 8, Val{0, nullptr}, 64);
  });
  reg("llvm.va_start", B["llvm.va_start.p0"]);
  reg("llvm.va_end.p0", [](CallCtx& c) {}); reg("llvm.va_end", [](CallCtx& c) {});
  reg("llvm.va_copy.p0", [](CallCtx& c) { memCopy(cc(c, 0), cc(c, 1), 24); }); reg("llvm.va_copy", B["llvm.va_copy.p0"]);
  // --- exceptions and program end
  reg("__cxa_allocate_exception", [](CallCtx& c) { uint64_t n = cc(c, 0); uint64_t p = heapAlloc(n + 128) + 128; memFill(p, Val{0, nullptr}, n); c.r(p); });
  reg("__cxa_free_exception", [](CallCtx& c) {});
  reg("__cxa_throw", [](CallCtx& c) { throwException(cc(c, 0), cc(c, 1)); });
  reg("__cxa_begin_catch", [](CallCtx& c) { caughtStack.push_back({g_excObj, g_excTi}); c.r(g_adjObj ? g_adjObj : g_excObj); });
  reg("__cxa_get_exception_ptr", [](CallCtx& c) { c.r(g_adjObj ? g_adjObj : g_excObj); });
  reg("__cxa_end_catch", [](CallCtx& c) { if (!caughtStack.empty()) caughtStack.pop_back(); });
  reg("__cxa_rethrow", [](CallCtx& c) { if (caughtStack.empty()) { violation("crash", "rethrow without exception", nullptr); endPath("rethrow"); } auto t = caughtStack.back(); throwException(t.first, t.second); });
  reg("_Unwind_Resume", [](CallCtx& c) { throwException(g_excObj, g_excTi); });
  reg("__cxa_call_unexpected", [](CallCtx& c) { violation("crash", "unexpected exception", nullptr); endPath("unexpected"); });
  reg("__cxa_guard_acquire", [](CallCtx& c) { uint64_t g = cc(c, 0); Val v = memLoad(g, 1, 8); c.r(v.c == 0); });
  reg("__cxa_guard_release", [](CallCtx& c) { memStore(cc(c, 0), 1, Val{1, nullptr}, 8); });
  reg("__cxa_guard_abort", [](CallCtx& c) {});
  reg("__cxa_atexit", [](CallCtx& c) { c.r(0); }); reg("atexit", [](CallCtx& c) { c.r(0); });
  reg("__cxa_thread_atexit", [](CallCtx& c) { c.r(0); });
  auto term = [](CallCtx& c) { violation("crash", *c.name, nullptr); endPath("terminate"); };
  for (auto n : {"_ZSt9terminatev", "abort", "__assert_fail", "__cxa_pure_virtual", "__clang_call_terminate", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__stack_chk_fail"}) reg(n, term);
  auto exitB = [](CallCtx& c) { int k = (int)cc(c, 0); if (!allowExit) violation("crash", "exit(" + std::to_string(k) + ")", nullptr); endPath("exit"); };
  reg("sym_allow_exit", [](CallCtx& c) { allowExit = true; });
  reg("exit", exitB); reg("_exit", exitB); reg("_Exit", exitB);
  reg("_ZSt18uncaught_exceptionv", [](CallCtx& c) { c.r(0); }); reg("_ZSt19uncaught_exceptionsv", [](CallCtx& c) { c.r(0); });
  reg("__gxx_personality_v0", [](CallCtx& c) { c.r(0); });
  reg("_ZSt21ios_base_library_initv", [](CallCtx& c) {});
  // --- characters
  reg("_ZNKSt5ctypeIcE10do_tolowerEc", [](CallCtx& c) { toLU(c, 1, 8, false); });
  reg("_ZNKSt5ctypeIcE10do_toupperEc", [](CallCtx& c) { toLU(c, 1, 8, true); });
  reg("_ZNKSt5ctypeIcE8do_widenEc", [](CallCtx& c) { c.r(c.a[1]); });
  reg("_ZNKSt5ctypeIcE9do_narrowEcc", [](CallCtx& c) { c.r(c.a[1]); });
  reg("_ZNKSt5ctypeIcE13_M_widen_initEv", [](CallCtx& c) { });
  reg("_ZNKSt5ctypeIcE14_M_narrow_initEv", [](CallCtx& c) { });
  reg("toupper", [](CallCtx& c) { toLU(c, 0, 32, true); });
  reg("tolower", [](CallCtx& c) { toLU(c, 0, 32, false); });
  reg("_ZN9__gnu_cxx18stdio_sync_filebufIcSt11char_traitsIcEE6xsputnEPKcl", [](CallCtx& c) { c.r(c.a[2]); });
  reg("_ZN9__gnu_cxx18stdio_sync_filebufIcSt11char_traitsIcEE8overflowEi", [](CallCtx& c) { c.r(0); });
  reg("_ZN9__gnu_cxx18stdio_sync_filebufIcSt11char_traitsIcEE4syncEv", [](CallCtx& c) { c.r(0); });
  for (auto n : {"printf", "puts", "putchar", "fflush", "fprintf", "fputs", "perror", "vprintf", "vfprintf", "fwrite", "fputc", "putc"}) reg(n, [](CallCtx& c) { c.r(0); });
  reg("time", [](CallCtx& c) { uint64_t p = cc(c, 0); if (p) memStore(p, 8, Val{g_time, nullptr}, 64); c.r(g_time); });
  reg("sym_environment", [](CallCtx& c) { g_fill = (uint8_t)cc(c, 0); g_time = cc(c, 1); });
}
Builtin findBuiltin(const std::string& n) { auto it = B.find(n); return it == B.end() ? nullptr : it->second; }
