#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
Solver S;
static Z3_context C;
static Z3_solver SB = nullptr, SF = nullptr;
static std::unordered_map<uint32_t, Z3_ast> T;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(99); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
}
static Z3_solver mkS(bool fp) {
  Z3_solver s = fp ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  if (S.rlimit) {
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)S.rlimit);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
  }
  return s;
}
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bv(w)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, num(1, 1)); }
static Z3_sort fs(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast tr(Expr* e);
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(C); }
static Z3_ast toF(Expr* e); // FP term of an expression of IEEE bits
static std::unordered_map<uint32_t, Z3_ast> TF;
static Z3_ast toF(Expr* e) {
  auto it = TF.find(e->id); if (it != TF.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case O_FADD: r = Z3_mk_fpa_add(C, rne(), toF(e->a), toF(e->b)); break;
    case O_FSUB: r = Z3_mk_fpa_sub(C, rne(), toF(e->a), toF(e->b)); break;
    case O_FMUL: r = Z3_mk_fpa_mul(C, rne(), toF(e->a), toF(e->b)); break;
    case O_FDIV: r = Z3_mk_fpa_div(C, rne(), toF(e->a), toF(e->b)); break;
    case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rne(), tr(e->a), fs(e->w)); break;
    case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), tr(e->a), fs(e->w)); break;
    case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, rne(), toF(e->a), fs(e->w)); break;
    case O_ITE: r = Z3_mk_ite(C, v2b(tr(e->a)), toF(e->b), toF(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, tr(e), fs(e->w)); break;
  }
  TF[e->id] = r; Z3_inc_ref(C, r);
  return r;
}
static Z3_ast tr0(Expr* e) {
  switch (e->op) {
    case O_CONST: return num(e->k, e->w);
    case O_VAR: return Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->k), bv(e->w));
    case O_ADD: return Z3_mk_bvadd(C, tr(e->a), tr(e->b));
    case O_MUL: return Z3_mk_bvmul(C, tr(e->a), tr(e->b));
    case O_UDIV: return Z3_mk_bvudiv(C, tr(e->a), tr(e->b));
    case O_UREM: return Z3_mk_bvurem(C, tr(e->a), tr(e->b));
    case O_SDIV: return Z3_mk_bvsdiv(C, tr(e->a), tr(e->b));
    case O_SREM: return Z3_mk_bvsrem(C, tr(e->a), tr(e->b));
    case O_AND: return Z3_mk_bvand(C, tr(e->a), tr(e->b));
    case O_OR: return Z3_mk_bvor(C, tr(e->a), tr(e->b));
    case O_XOR: return Z3_mk_bvxor(C, tr(e->a), tr(e->b));
    case O_SHL: return Z3_mk_bvshl(C, tr(e->a), tr(e->b));
    case O_LSHR: return Z3_mk_bvlshr(C, tr(e->a), tr(e->b));
    case O_ASHR: return Z3_mk_bvashr(C, tr(e->a), tr(e->b));
    case O_EQ: return b2v(Z3_mk_eq(C, tr(e->a), tr(e->b)));
    case O_ULT: return b2v(Z3_mk_bvult(C, tr(e->a), tr(e->b)));
    case O_ULE: return b2v(Z3_mk_bvule(C, tr(e->a), tr(e->b)));
    case O_SLT: return b2v(Z3_mk_bvslt(C, tr(e->a), tr(e->b)));
    case O_SLE: return b2v(Z3_mk_bvsle(C, tr(e->a), tr(e->b)));
    case O_ITE: return Z3_mk_ite(C, v2b(tr(e->a)), tr(e->b), tr(e->c));
    case O_CONCAT: return Z3_mk_concat(C, tr(e->a), tr(e->b));
    case O_EXTRACT: return Z3_mk_extract(C, (unsigned)(e->k + e->w - 1), (unsigned)e->k, tr(e->a));
    case O_ZEXT: return Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a));
    case O_SEXT: return Z3_mk_sign_ext(C, e->w - e->a->w, tr(e->a));
    case O_HEXU: case O_HEXL: {
      Z3_ast d = tr(e->a);
      if (e->a->w < 8) d = Z3_mk_zero_ext(C, 8 - e->a->w, d); else if (e->a->w > 8) d = Z3_mk_extract(C, 7, 0, d);
      return Z3_mk_ite(C, Z3_mk_bvult(C, d, num(10, 8)), Z3_mk_bvadd(C, d, num('0', 8)), Z3_mk_bvadd(C, d, num((e->op == O_HEXU ? 'A' : 'a') - 10, 8)));
    }
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC:
      return Z3_mk_fpa_to_ieee_bv(C, toF(e));
    case O_FOEQ: return b2v(Z3_mk_fpa_eq(C, toF(e->a), toF(e->b)));
    case O_FOLT: return b2v(Z3_mk_fpa_lt(C, toF(e->a), toF(e->b)));
    case O_FOLE: return b2v(Z3_mk_fpa_leq(C, toF(e->a), toF(e->b)));
    case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, toF(e->a)), Z3_mk_fpa_is_nan(C, toF(e->b))}; return b2v(Z3_mk_or(C, 2, x)); }
    case O_FPTOSI: return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_round_toward_zero(C), toF(e->a), e->w);
    case O_FPTOUI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_round_toward_zero(C), toF(e->a), e->w);
  }
  abort();
}
static Z3_ast tr(Expr* e) {
  auto it = T.find(e->id); if (it != T.end()) return it->second;
  // iterative post-order to keep native recursion shallow
  std::vector<Expr*> st{e};
  while (st.size() > 1 || true) {
    Expr* x = st.back();
    bool ready = true;
    if (T.find(x->id) == T.end())
      for (Expr* k : {x->a, x->b, x->c}) if (k && T.find(k->id) == T.end()) { st.push_back(k); ready = false; break; }
    if (!ready) continue;
    if (T.find(x->id) == T.end()) { Z3_ast r = tr0(x); Z3_inc_ref(C, r); T[x->id] = r; }
    st.pop_back();
    if (st.empty()) break;
  }
  return T[e->id];
}

static bool inter(const VarSet* a, const std::vector<uint64_t>& b) {
  size_t n = std::min(a->bits.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a->bits[i] & b[i]) return true;
  return false;
}
uint64_t Solver::ev(Expr* e) { return evalExpr(e, model); }
void Solver::add(Expr* c) {
  if (isC(c)) return;
  if (c->op == O_AND && c->w == 1) { add(c->a); add(c->b); return; }
  for (Expr* x : pc) if (x == c) return;
  pc.push_back(c);
  // permanent range refinement: constraints hold for the rest of this process
  Expr *a = c->a, *b = c->b;
  auto lim = [&](Expr* x, uint64_t lo, uint64_t hi) {
    for (;;) {
      if (lo > x->lo) x->lo = lo;
      if (hi < x->hi) x->hi = hi;
      if (x->op == O_ZEXT) { x = x->a; hi = std::min(hi, wmask(x->w)); }
      else if (x->op == O_ADD && isC(x->b) && (unsigned __int128)x->a->hi + x->b->k <= wmask(x->w)) { uint64_t k = x->b->k; if (hi < k) return; lo = lo > k ? lo - k : 0; hi -= k; x = x->a; }
      else if (x->op == O_EXTRACT && x->k == 0 && x->a->hi <= wmask(x->w)) x = x->a;
      else return;
    }
  };
  if (c->op == O_ULT) {
    if (isC(b) && b->k > 0) lim(a, 0, b->k - 1);
    if (isC(a)) lim(b, a->k + 1, ~0ull);
  } else if (c->op == O_ULE) {
    if (isC(b)) lim(a, 0, b->k);
    if (isC(a)) lim(b, a->k, ~0ull);
  } else if (c->op == O_EQ && isC(b)) lim(a, b->k, b->k);
  else if (c->op == O_XOR && isC(b) && c->w == 1 && a->op == O_EQ && isC(a->b)) {
    Expr* x = a->a; uint64_t k = a->b->k;
    if (x->lo == k) lim(x, k + 1, ~0ull);
    else if (x->hi == k && k > 0) lim(x, 0, k - 1);
  }
}
static std::unordered_map<std::string, bool> unsatCache;
SatRes Solver::check(Expr* q, std::vector<uint64_t>& out) {
  if (isC(q)) { if (q->k) { out = model; return SatRes::Sat; } return SatRes::Unsat; }
  // slice of the path condition related to q
  std::vector<uint64_t> vars = q->vs->bits;
  vars.resize((g_vars.size() + 63) / 64 + 1);
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  std::vector<Expr*> slice;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i] && inter(pc[i]->vs, vars)) {
      in[i] = 1; ch = true; slice.push_back(pc[i]);
      for (size_t j = 0; j < pc[i]->vs->bits.size(); j++) vars[j] |= pc[i]->vs->bits[j];
    }
  }
  bool fp = q->fp;
  std::string key;
  std::vector<uint32_t> ids;
  for (Expr* x : slice) { ids.push_back(x->id); fp |= x->fp; }
  std::sort(ids.begin(), ids.end()); ids.push_back(q->id);
  key.assign((char*)ids.data(), ids.size() * 4);
  if (unsatCache.count(key)) { st.cached++; return SatRes::Unsat; }
  auto t0 = std::chrono::steady_clock::now();
  if (fp) { // a satisfying assignment found by evaluation spares the floating point query
    static uint64_t seed = 0x9E3779B97F4A7C15ull; std::vector<uint64_t> m = model; if (m.size() < g_vars.size()) { size_t o = m.size(); m.resize(g_vars.size()); for (; o < m.size(); o++) m[o] = g_vars[o].lo; }
    const std::vector<uint64_t> base = m; bool ok = false;
    auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
    for (int t = 0; t < 300 && !ok; t++) {
      for (size_t v = 0; v < g_vars.size(); v++) if (vars[v / 64] >> (v % 64) & 1) {
        auto& sv = g_vars[v]; uint64_t d = sv.hi - sv.lo, r = rnd();
        switch (r >> 61) { case 0: m[v] = sv.lo; break; case 1: m[v] = sv.hi; break; case 2: case 3: m[v] = base[v]; break; case 4: { uint64_t n = rnd() & (wmask(sv.w) >> (r % sv.w)); m[v] = n < sv.lo ? sv.lo : n > sv.hi ? sv.hi : n; break; } default: m[v] = d == ~0ull ? rnd() : sv.lo + rnd() % (d + 1); }
      }
      evalReset(); ok = evalExpr(q, m) & 1;
      for (size_t i = slice.size(); ok && i-- > 0;) ok = evalExpr(slice[i], m) & 1;
    }
    evalReset();
    if (ok) { out = m; st.queries++; st.sat++; return SatRes::Sat; }
  }
  Z3_solver& s = fp ? SF : SB;
  if (!s) s = mkS(fp);
  Z3_solver_push(C, s);
  // ranges of variables
  for (size_t v = 0; v < g_vars.size(); v++) if (vars[v / 64] >> (v % 64) & 1) {
    auto& sv = g_vars[v];
    Z3_ast x = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)v), bv(sv.w));
    if (sv.lo > 0) Z3_solver_assert(C, s, Z3_mk_bvuge(C, x, num(sv.lo, sv.w)));
    if (sv.hi < wmask(sv.w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, x, num(sv.hi, sv.w)));
  }
  for (Expr* x : slice) Z3_solver_assert(C, s, v2b(tr(x)));
  Z3_solver_assert(C, s, v2b(tr(q)));
  if (getenv("SYMEX_LAST")) { extern std::string backtrace(); char fn[64]; snprintf(fn, sizeof fn, "/tmp/one/q.%d", getpid()); if (FILE* f = fopen(fn, "w")) { fprintf(f, "%s\n at %s\n", exprStr(q, 14).c_str(), backtrace().c_str()); for (Expr* x : slice) fprintf(f, "   pc %s\n", exprStr(x, 8).c_str()); fclose(f); } }
  Z3_lbool r = Z3_solver_check(C, s);
  st.queries++;
  SatRes res = SatRes::Unknown;
  if (r == Z3_L_FALSE) { res = SatRes::Unsat; st.unsat++; unsatCache[key] = true; }
  else if (r == Z3_L_TRUE) {
    res = SatRes::Sat; st.sat++;
    out = model; if (out.size() < g_vars.size()) { size_t o = out.size(); out.resize(g_vars.size()); for (; o < out.size(); o++) out[o] = g_vars[o].lo; }
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (size_t v = 0; v < g_vars.size(); v++) if (vars[v / 64] >> (v % 64) & 1) {
      Z3_ast x = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)v), bv(g_vars[v].w)), val; uint64_t u = 0;
      if (Z3_model_eval(C, m, x, true, &val) && Z3_get_numeral_uint64(C, val, &u)) out[v] = u;
    }
    Z3_model_dec_ref(C, m);
  } else st.unknown++;
  Z3_solver_pop(C, s, 1);
  double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += d; if (d > st.maxsec) st.maxsec = d;
  static double slow = getenv("SYMEX_SLOW") ? atof(getenv("SYMEX_SLOW")) : 0;
  if (slow > 0 && d > slow) { extern std::string backtrace(); fprintf(stderr, "slow query %.2fs res=%d: %s\n  at %s\n", d, (int)res, exprStr(q, 12).c_str(), backtrace().c_str()); for (Expr* x : slice) fprintf(stderr, "   pc %s\n", exprStr(x, 6).c_str()); }
  return res;
}
