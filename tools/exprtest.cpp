// Randomised self-test of the expression simplifier: every built expression must evaluate to the
// value its unsimplified operations give, inside its stated ranges.
#include "../engine/expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
static std::mt19937_64 R(1);
static uint64_t rnd(uint64_t n) { return R() % n; }
struct N { Expr* e; std::vector<uint64_t> v; };
int main(int c, char** a) {
  long rounds = c > 1 ? atol(a[1]) : 20000; long bad = 0, built = 0;
  for (long t = 0; t < rounds && bad < 5; t++) {
    const int K = 24; static std::vector<N> vars; std::vector<N> pool; std::vector<std::vector<uint64_t>> asg(K);
    if (t % 200 == 0) { // a fresh set of variables
      vars.clear();
      for (unsigned w : {1u, 4u, 8u, 8u, 8u, 12u, 16u, 32u, 32u, 64u, 64u}) { uint64_t M = wmask(w), lo = 0, hi = M; if (rnd(2)) { lo = R() & M; hi = R() & M; if (lo > hi) std::swap(lo, hi); } else if (w == 8 && rnd(2)) { lo = '0'; hi = '9'; } else if (w > 4 && rnd(2)) hi = rnd(1ull << (w < 20 ? w : 20)); vars.push_back({eVar(w, "v", lo, hi), {}}); }
    }
    for (auto& x : asg) x.assign(g_vars.size(), 0);
    for (auto& p : vars) { auto& s = g_vars[p.e->k]; p.v.clear(); for (int k = 0; k < K; k++) { uint64_t d = s.hi - s.lo; uint64_t v = k == 0 ? s.lo : k == 1 ? s.hi : d == ~0ull ? R() : s.lo + R() % (d + 1); if (k > 12 && rnd(2)) { uint64_t z = rnd(4); if (z >= s.lo && z <= s.hi) v = z; } asg[k][p.e->k] = v; p.v.push_back(v); } pool.push_back(p); }
    auto konst = [&](unsigned w) { uint64_t M = wmask(w), v; switch (rnd(8)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = M; break; case 3: v = 1ull << rnd(w); break; case 4: v = (1ull << rnd(w)) - 1; break; case 5: v = 10; break; case 6: v = 0 - rnd(300); break; default: v = R(); } v &= M; N n; n.e = eConst(w, v); n.v.assign(K, v); return n; };
    auto pick = [&](unsigned w) { if (w && rnd(3) == 0) return konst(w); for (int i = 0; i < 40; i++) { N& n = pool[rnd(pool.size())]; if (!w || n.e->w == w) return n; } return konst(w ? w : 8); };
    for (int i = 0; i < 30; i++) {
      N x = pick(0), r; unsigned w = x.e->w; r.v.resize(K); int k = (int)rnd(24); std::string what;
      if (k < 16) {
        static const Op ops[] = {O_ADD, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ADD, O_MUL};
        Op o = ops[rnd(19)]; N y = pick(w); if (rnd(4) == 0) { // related operands
          if (rnd(2)) std::swap(x, y); }
        bool cmp = o >= O_EQ && o <= O_SLE; if ((o == O_UDIV || o == O_UREM || o == O_SDIV || o == O_SREM)) { if (!isC(y.e)) y = konst(w); bool z = false; for (auto q : y.v) z |= q == 0; if (z) continue; }
        if (w == 1 && (o == O_SLT || o == O_SLE || o == O_SDIV || o == O_SREM || o == O_MUL || o == O_ADD || o == O_ASHR || o == O_SHL || o == O_LSHR)) continue;
        r.e = eBin(o, x.e, y.e); for (int j = 0; j < K; j++) r.v[j] = foldOp(o, cmp ? 1 : w, w, x.v[j], y.v[j]); what = "bin " + std::to_string(o) + " " + exprStr(x.e, 3) + " | " + exprStr(y.e, 3);
      } else if (k == 16) { unsigned lo = rnd(w), n = 1 + rnd(w - lo); if (rnd(2)) lo = 0; if (lo + n > w) continue; r.e = eExtract(x.e, lo, n); for (int j = 0; j < K; j++) r.v[j] = (x.v[j] >> lo) & wmask(n); what = "ext " + exprStr(x.e, 3);
      } else if (k == 17 || k == 18) { static const unsigned ws[] = {8, 16, 32, 64, 33}; unsigned n = ws[rnd(5)]; if (n < w) continue; bool s = k == 18 && w > 1; r.e = s ? eSExt(x.e, n) : eZExt(x.e, n); for (int j = 0; j < K; j++) r.v[j] = s ? (uint64_t)sx(x.v[j], w) & wmask(n) : x.v[j]; what = (s ? "sext " : "zext ") + exprStr(x.e, 3);
      } else if (k == 19 || k == 20) { N y = pick(0); if (w + y.e->w > 64) continue; r.e = eConcat(x.e, y.e); for (int j = 0; j < K; j++) r.v[j] = (x.v[j] << y.e->w) | y.v[j]; what = "cat " + exprStr(x.e, 3) + " | " + exprStr(y.e, 3);
      } else if (k == 21) { N q = pick(1), y = pick(w); r.e = eIte(q.e, x.e, y.e); for (int j = 0; j < K; j++) r.v[j] = q.v[j] ? x.v[j] : y.v[j]; what = "ite";
      } else if (k == 22) { N y = pick(w); r.e = eSub(x.e, y.e); for (int j = 0; j < K; j++) r.v[j] = (x.v[j] - y.v[j]) & wmask(w); what = "sub " + exprStr(x.e, 3) + " | " + exprStr(y.e, 3);
      } else { if (w < 4) continue; N y; y.e = eBin(O_AND, x.e, eConst(w, 15)); Op o = rnd(2) ? O_HEXU : O_HEXL; r.e = eUn(o, y.e, 8); for (int j = 0; j < K; j++) r.v[j] = foldOp(o, 8, w, x.v[j] & 15, 0); what = "hex"; }
      built++;
      for (int j = 0; j < K; j++) { evalReset(); uint64_t v = evalExpr(r.e, asg[j]); 
        bool rg = v >= r.e->lo && v <= r.e->hi && (r.e->w == 1 || (sx(v, r.e->w) >= r.e->slo && sx(v, r.e->w) <= r.e->shi));
        if (v != r.v[j] || !rg || r.e->w > 64) { printf("WRONG %s: %llu, expected %llu%s\n  result %s\n", what.c_str(), (unsigned long long)v, (unsigned long long)r.v[j], rg ? "" : " (range)", exprStr(r.e, 5).c_str()); bad++; break; } }
      pool.push_back(r);
    }
  }
  printf("%ld expressions, %ld wrong\n", built, bad); return bad != 0;
}
