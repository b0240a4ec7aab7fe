#include "expr.h"
#include <cmath>
#include <algorithm>
#include <functional>
#include <cassert>

std::vector<SymVar> g_vars;
uint64_t g_nexpr = 0;
static uint32_t g_estamp = 1;
void evalReset() { ++g_estamp; }

// ---------------------------------------------------------------- var sets
static std::unordered_map<std::string, const VarSet*> g_vsets;
static const VarSet* internVS(std::vector<uint64_t> b) {
  while (!b.empty() && b.back() == 0) b.pop_back();
  std::string key((const char*)b.data(), b.size() * 8);
  auto it = g_vsets.find(key);
  if (it != g_vsets.end()) return it->second;
  auto* v = new VarSet{std::move(b)};
  g_vsets[key] = v;
  return v;
}
static const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
static std::unordered_map<uint64_t, const VarSet*> g_uni;
static const VarSet* uniVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->bits.empty()) return a;
  if (a->bits.empty()) return b;
  uint64_t k = ((uint64_t)a >> 4) * 0x9E3779B97F4A7C15ull ^ ((uint64_t)b >> 4);
  struct E { const VarSet *a, *b, *r; };
  static std::unordered_map<uint64_t, E> memo;
  auto it = memo.find(k);
  if (it != memo.end() && it->second.a == a && it->second.b == b) return it->second.r;
  std::vector<uint64_t> r = a->bits;
  if (r.size() < b->bits.size()) r.resize(b->bits.size());
  for (size_t i = 0; i < b->bits.size(); i++) r[i] |= b->bits[i];
  auto* v = internVS(std::move(r));
  memo[k] = {a, b, v};
  return v;
}

// ---------------------------------------------------------------- hash consing
struct Slab { char* p = nullptr; size_t n = 0; };
static Slab slab;
static Expr* allocE() {
  if (slab.n < sizeof(Expr)) { slab.n = sizeof(Expr) * 1024; slab.p = (char*)malloc(slab.n); }
  auto* e = (Expr*)slab.p; slab.p += sizeof(Expr); slab.n -= sizeof(Expr);
  return e;
}
static std::vector<Expr*> g_tab(1 << 14, nullptr);
static inline uint64_t hx(Op op, unsigned w, uint64_t k, Expr* a, Expr* b, Expr* c) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(k); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
  return h;
}
static void rangeOf(Expr* e);
static void srangeOf(Expr* e);
static Expr* mk(Op op, unsigned w, uint64_t k, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
  uint64_t h = hx(op, w, k, a, b, c);
  size_t m = g_tab.size() - 1, i = h & m;
  while (Expr* e = g_tab[i]) {
    if (e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c) return e;
    i = (i + 1) & m;
  }
  Expr* e = allocE();
  e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->id = g_nexpr++;
  e->estamp = 0; e->eval = 0;
  e->fp = op >= O_FADD || (a && a->fp) || (b && b->fp) || (c && c->fp);
  const VarSet* vs = emptyVS();
  if (a) vs = uniVS(vs, a->vs);
  if (b) vs = uniVS(vs, b->vs);
  if (c) vs = uniVS(vs, c->vs);
  e->vs = vs;
  rangeOf(e); srangeOf(e);
  g_tab[i] = e;
  if (g_nexpr * 2 > g_tab.size()) {
    std::vector<Expr*> old; old.swap(g_tab);
    g_tab.assign(old.size() * 2, nullptr);
    m = g_tab.size() - 1;
    for (Expr* x : old) if (x) {
      size_t j = hx(x->op, x->w, x->k, x->a, x->b, x->c) & m;
      while (g_tab[j]) j = (j + 1) & m;
      g_tab[j] = x;
    }
  }
  return e;
}
Expr* eConst(unsigned w, uint64_t v) { return mk(O_CONST, w, v & wmask(w)); }
Expr* eVar(unsigned w, const std::string& name, uint64_t lo, uint64_t hi) {
  uint64_t idx = g_vars.size();
  g_vars.push_back({name, w, lo, hi});
  Expr* e = mk(O_VAR, w, idx);
  std::vector<uint64_t> b(idx / 64 + 1, 0);
  b[idx / 64] |= 1ull << (idx % 64);
  e->vs = internVS(b);
  e->lo = lo; e->hi = hi; srangeOf(e);
  return e;
}
static inline unsigned bl(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
static void rangeOf(Expr* e) {
  uint64_t M = wmask(e->w);
  e->lo = 0; e->hi = M;
  Expr *a = e->a, *b = e->b;
  unsigned __int128 t;
  switch (e->op) {
    case O_CONST: e->lo = e->hi = e->k; break;
    case O_ADD:
      t = (unsigned __int128)a->hi + b->hi;
      if (t <= M) { e->lo = a->lo + b->lo; e->hi = (uint64_t)t; }
      else if (isC(b)) { // subtraction of a constant without wrap
        uint64_t n = (0 - b->k) & M;
        if (a->lo >= n) { e->lo = a->lo - n; e->hi = a->hi - n; }
      }
      break;
    case O_MUL:
      if (b->op == O_CONST && b->k == M && a->lo > 0) { e->lo = (0 - a->hi) & M; e->hi = (0 - a->lo) & M; break; }
      t = (unsigned __int128)a->hi * b->hi;
      if (t <= M) { e->lo = a->lo * b->lo; e->hi = (uint64_t)t; }
      break;
    case O_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case O_UREM:
      if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); if (isC(b) && a->lo / b->k == a->hi / b->k) { e->lo = a->lo % b->k; e->hi = a->hi % b->k; } }
      break;
    case O_AND: e->hi = std::min(a->hi, b->hi); break;
    case O_OR: case O_XOR: {
      unsigned n = std::max(bl(a->hi), bl(b->hi));
      e->hi = n >= 64 ? ~0ull : (1ull << n) - 1;
      if (e->op == O_OR) e->lo = std::max(a->lo, b->lo);
      if (e->hi > M) e->hi = M;
      break;
    }
    case O_SHL:
      if (isC(b) && b->k < e->w) {
        t = (unsigned __int128)a->hi << b->k;
        if (t <= M) { e->lo = a->lo << b->k; e->hi = (uint64_t)t; }
      } else if (b->hi < e->w) {
        t = (unsigned __int128)a->hi << b->hi;
        if (t <= M) { e->lo = a->lo << b->lo; e->hi = (uint64_t)t; }
      }
      break;
    case O_LSHR:
      if (isC(b)) { if (b->k < e->w) { e->lo = a->lo >> b->k; e->hi = a->hi >> b->k; } else e->hi = 0; }
      else { e->hi = a->hi >> std::min<uint64_t>(b->lo, 63); }
      break;
    case O_ASHR:
      if (a->hi <= M >> 1 && isC(b) && b->k < e->w) { e->lo = a->lo >> b->k; e->hi = a->hi >> b->k; }
      break;
    case O_ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
    case O_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; if (a->lo != a->hi) { e->lo = a->lo << b->w; e->hi = (a->hi << b->w) | wmask(b->w); } break;
    case O_EXTRACT:
      if (e->k == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
      else { uint64_t h = a->hi >> e->k; if (h <= M) { e->lo = a->lo >> e->k; e->hi = h; } }
      break;
    case O_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case O_SEXT:
      if (a->hi <= wmask(a->w) >> 1) { e->lo = a->lo; e->hi = a->hi; }
      else if (a->lo > wmask(a->w) >> 1) { e->lo = sx(a->lo, a->w) & M; e->hi = sx(a->hi, a->w) & M; }
      break;
    case O_HEXU: e->lo = a->lo < 10 ? '0' + a->lo : 'A' + a->lo - 10; e->hi = a->hi < 10 ? '0' + a->hi : 'A' + a->hi - 10; break;
    case O_HEXL: e->lo = a->lo < 10 ? '0' + a->lo : 'a' + a->lo - 10; e->hi = a->hi < 10 ? '0' + a->hi : 'a' + a->hi - 10; break;
    default: break;
  }
}

static void srangeOf(Expr* e) {
  unsigned w = e->w; uint64_t M = wmask(w); int64_t mn = sx(M ^ (M >> 1), w), mx = (int64_t)(M >> 1);
  if (w == 1) { mn = -1; mx = 0; }
  e->slo = mn; e->shi = mx;
  if (e->hi <= M >> 1 || e->lo > M >> 1) { e->slo = sx(e->lo, w); e->shi = sx(e->hi, w); }
  auto meet = [&](__int128 l, __int128 h) { if (l < mn || h > mx) return; if (l > e->slo) e->slo = (int64_t)l; if (h < e->shi) e->shi = (int64_t)h; };
  Expr *a = e->a, *b = e->b;
  switch (e->op) {
    case O_ADD: meet((__int128)a->slo + b->slo, (__int128)a->shi + b->shi); break;
    case O_MUL: { __int128 q[4] = {(__int128)a->slo * b->slo, (__int128)a->slo * b->shi, (__int128)a->shi * b->slo, (__int128)a->shi * b->shi}; meet(*std::min_element(q, q + 4), *std::max_element(q, q + 4)); break; }
    case O_SEXT: meet(a->slo, a->shi); break;
    case O_EXTRACT: if (e->k == 0) meet(a->slo, a->shi); break;
    case O_ITE: meet(std::min(b->slo, e->c->slo), std::max(b->shi, e->c->shi)); break;
    case O_ASHR: if (isC(b) && b->k < w) meet(a->slo >> b->k, a->shi >> b->k); break;
    case O_SDIV: if (isC(b) && (int64_t)sx(b->k, w) > 0) { int64_t c = sx(b->k, w); meet(a->slo / c, a->shi / c); } break;
    default: break;
  }
}
static bool sfits(const Expr* e, unsigned w) { return w >= 64 || (e->slo >= -((int64_t)1 << (w - 1)) && e->shi <= ((int64_t)1 << (w - 1)) - 1); }
// a multiplication by a constant that does not overflow as a signed number
static bool smulOk(const Expr* a, uint64_t k) { unsigned w = a->w; __int128 c = sx(k, w), l = a->slo * c, h = a->shi * c, mx = (__int128)(wmask(w) >> 1); if (l > h) std::swap(l, h); return l >= -mx - 1 && h <= mx; }

// ---------------------------------------------------------------- folding
template <class T, class I> static T bitsTo(I v) { T r; std::memcpy(&r, &v, sizeof r); return r; }
static double asD(uint64_t v, unsigned w) { return w == 32 ? (double)bitsTo<float>((uint32_t)v) : bitsTo<double>(v); }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; return bitsTo<uint32_t>(f); } return bitsTo<uint64_t>(d); }
uint64_t foldOp(Op op, unsigned w, unsigned aw, uint64_t a, uint64_t b) {
  uint64_t M = wmask(w), AM = wmask(aw);
  switch (op) {
    case O_ADD: return (a + b) & M;
    case O_MUL: return (a * b) & M;
    case O_UDIV: return b ? a / b : M;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : M; if (y == -1) return (0 - (uint64_t)x) & M; return (uint64_t)(x / y) & M; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & M;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & M;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, aw) < sx(b, aw);
    case O_SLE: return sx(a, aw) <= sx(b, aw);
    case O_ZEXT: return a;
    case O_SEXT: return sx(a, aw) & M;
    case O_HEXU: return a < 10 ? '0' + a : 'A' + a - 10;
    case O_HEXL: return a < 10 ? '0' + a : 'a' + a - 10;
    case O_FADD: return w == 32 ? fromD((double)(bitsTo<float>((uint32_t)a) + bitsTo<float>((uint32_t)b)), 32) : fromD(asD(a, w) + asD(b, w), w);
    case O_FSUB: return w == 32 ? fromD((double)(bitsTo<float>((uint32_t)a) - bitsTo<float>((uint32_t)b)), 32) : fromD(asD(a, w) - asD(b, w), w);
    case O_FMUL: return w == 32 ? fromD((double)(bitsTo<float>((uint32_t)a) * bitsTo<float>((uint32_t)b)), 32) : fromD(asD(a, w) * asD(b, w), w);
    case O_FDIV: return w == 32 ? fromD((double)(bitsTo<float>((uint32_t)a) / bitsTo<float>((uint32_t)b)), 32) : fromD(asD(a, w) / asD(b, w), w);
    case O_FOEQ: return asD(a, aw) == asD(b, aw);
    case O_FOLT: return asD(a, aw) < asD(b, aw);
    case O_FOLE: return asD(a, aw) <= asD(b, aw);
    case O_FUNO: { double x = asD(a, aw), y = asD(b, aw); return std::isnan(x) || std::isnan(y); }
    case O_SITOFP: return w == 32 ? bitsTo<uint32_t>((float)sx(a, aw)) : bitsTo<uint64_t>((double)sx(a, aw));
    case O_UITOFP: return w == 32 ? bitsTo<uint32_t>((float)(a & AM)) : bitsTo<uint64_t>((double)(a & AM));
    case O_FPTOSI: { // x86: out of range gives the integer indefinite value
      double d = asD(a, aw); int64_t r = (d >= 9223372036854775808.0 || d < -9223372036854775808.0 || std::isnan(d)) ? INT64_MIN : (int64_t)d; 
      if (w == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000u; }
      return (uint64_t)r & M; }
    case O_FPTOUI: { double d = asD(a, aw); if (std::isnan(d)) return M; if (d >= 18446744073709551616.0 || d <= -1.0) return (d < 0 && d > -9223372036854775808.0) ? ((uint64_t)(int64_t)d) & M : M & 0x8000000000000000ull; return (uint64_t)d & M; }
    case O_FPEXT: return fromD(asD(a, aw), w);
    case O_FPTRUNC: return fromD(asD(a, aw), w);
    default: assert(false && "foldOp"); return 0;
  }
}

// ---------------------------------------------------------------- builders
static inline bool pow2(uint64_t v) { return v && !(v & (v - 1)); }
static Expr* eNeg(Expr* a) { return isC(a) ? eConst(a->w, 0 - a->k) : eBin(O_MUL, a, eConst(a->w, ~0ull)); }
Expr* eSub(Expr* a, Expr* b) {
  if (a == b) return eConst(a->w, 0);
  if (isC(b)) return eBin(O_ADD, a, eConst(a->w, 0 - b->k));
  // (x + y) - y
  if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  return eBin(O_ADD, a, eNeg(b));
}
Expr* eNot(Expr* a) { return eBin(O_XOR, a, eConst(a->w, ~0ull)); }

// x*c + (x mod c) patterns: returns combined or null
static inline Expr* zs(Expr* e) { return e->op == O_ZEXT ? e->a : e; }
static Expr* recombine(Expr* p, Expr* q0) {
  // p = (u / c) * c, q = u % c   (zero extensions are looked through)
  Expr* q = zs(q0);
  unsigned w = q0->w;
  if (q->op == O_UREM && isC(q->b) && p->op == O_MUL && isC(p->b) && p->b->k == q->b->k) {
    Expr* d = zs(p->a);
    if (d->op == O_UDIV && d->b == q->b && d->a == q->a) return eZExt(q->a, w);
  }
  // p = (u / c) * c with u / c simplified to a constant or range is not handled
  // hexadecimal: p = (v >> (s+j)) << s, q = (v >> j) & (2^s-1)
  if (p->op == O_SHL && isC(p->b)) {
    uint64_t s = p->b->k;
    Expr* h = zs(p->a); Expr* src = h; uint64_t hs = 0;
    if (h->op == O_LSHR && isC(h->b)) { src = h->a; hs = h->b->k; }
    if (hs >= s && s < 64) {
      uint64_t j = hs - s;
      Expr* qq = q; bool ok = false;
      if (q->op == O_AND && isC(q->b) && q->b->k == ((1ull << s) - 1)) { qq = q->a; ok = true; }
      else if (q->hi <= (1ull << s) - 1) ok = true;
      if (ok) {
        if (j == 0 && qq == src) return eZExt(src, w);
        if (j && qq->op == O_LSHR && isC(qq->b) && qq->b->k == j && qq->a == src) return eZExt(qq, w);
      }
    }
  }
  return nullptr;
}
// e == x * c + r without overflow (r null: none)
static bool splitMul(Expr* e, uint64_t c, Expr*& x, Expr*& r) {
  if (!c) return false;
  auto times = [&](Expr* m) { return m->op == O_MUL && isC(m->b) && m->b->k % c == 0 && m->b->k && m->a->hi <= wmask(m->w) / m->b->k; };
  if (times(e)) { x = eBin(O_MUL, e->a, eConst(e->w, e->b->k / c)); r = nullptr; return true; }
  if (e->op != O_ADD) return false;
  for (int i = 0; i < 2; i++) {
    Expr *m = i ? e->b : e->a, *o = i ? e->a : e->b;
    if (times(m) && o->hi <= wmask(e->w) - m->a->hi * m->b->k) { x = eBin(O_MUL, m->a, eConst(e->w, m->b->k / c)); r = o; return true; }
  }
  return false;
}
static Expr* pushIte(Op op, Expr* ite, Expr* k, bool left) {
  Expr* x = left ? eBin(op, ite->b, k) : eBin(op, k, ite->b);
  Expr* y = left ? eBin(op, ite->c, k) : eBin(op, k, ite->c);
  return eIte(ite->a, x, y);
}
// depth-limited test that an ITE tree has only constant leaves
static bool constIte(Expr* e, int d = 12) { return isC(e) || (d > 0 && e->op == O_ITE && constIte(e->b, d - 1) && constIte(e->c, d - 1)); }
static int iteSize(Expr* e) { return e->op == O_ITE ? iteSize(e->b) + iteSize(e->c) : 1; }

static Expr* cmpHex(Op op, Expr* h, uint64_t K, bool constRight) {
  // h = HEX?(d): monotone map of 0..15
  auto f = [&](uint64_t d) { return foldOp(h->op, 8, h->a->w, d, 0); };
  Expr* d = h->a; unsigned w = d->w;
  if (op == O_EQ) { for (uint64_t i = 0; i < 16; i++) if (f(i) == K) return eEq(d, eConst(w, i)); return eBool(false); }
  // number of digits with code < K, <= K
  uint64_t lt = 0, le = 0; for (uint64_t i = 0; i < 16; i++) { lt += f(i) < K; le += f(i) <= K; }
  auto dlt = [&](uint64_t n) -> Expr* { return n == 0 ? eBool(false) : n >= 16 ? eBool(true) : eBin(O_ULT, d, eConst(w, n)); };
  if (op == O_ULT) return constRight ? dlt(lt) : eNot(dlt(le));
  if (op == O_ULE) return constRight ? dlt(le) : eNot(dlt(lt));
  return nullptr;
}

// ---- floating point values that depend monotonically on one integer: f(n) built from conversions and
// operations with constants. Rounding is monotone, so comparisons with constants are thresholds on n.
static const uint64_t S64 = 1ull << 63;
static bool finiteBits(uint64_t v, unsigned w) { return std::isfinite(asD(v, w)); }
static Expr* monoRoot(Expr* f, bool& sgn) {
  for (int d = 0; d < 24; d++) {
    switch (f->op) {
      case O_UITOFP: sgn = false; return f->a;
      case O_SITOFP: sgn = true; return f->a;
      case O_FPEXT: case O_FPTRUNC: f = f->a; break;
      case O_FADD: case O_FMUL: case O_FSUB:
        if (isC(f->b) && finiteBits(f->b->k, f->w)) f = f->a; else if (isC(f->a) && finiteBits(f->a->k, f->w)) f = f->b; else return nullptr;
        break;
      case O_FDIV: if (isC(f->b) && finiteBits(f->b->k, f->w) && asD(f->b->k, f->w) != 0) f = f->a; else return nullptr; break;
      case O_XOR: if (isC(f->b) && f->b->k == 1ull << (f->w - 1)) f = f->a; else return nullptr; break;
      default: return nullptr;
    }
  }
  return nullptr;
}
static bool monoEval(Expr* f, uint64_t n, uint64_t& r) {
  if (f->op == O_UITOFP || f->op == O_SITOFP) { r = foldOp(f->op, f->w, f->a->w, n, 0); return finiteBits(r, f->w); }
  uint64_t x;
  if (f->op == O_FPEXT || f->op == O_FPTRUNC) { if (!monoEval(f->a, n, x)) return false; r = foldOp(f->op, f->w, f->a->w, x, 0); return finiteBits(r, f->w); }
  if (isC(f->b)) { if (!monoEval(f->a, n, x)) return false; r = foldOp(f->op, f->w, f->w, x, f->b->k); }
  else { if (!monoEval(f->b, n, x)) return false; r = foldOp(f->op, f->w, f->w, f->a->k, x); }
  return finiteBits(r, f->w);
}
typedef __int128 I128;
struct Mono { Expr* n; bool sgn; I128 lo, hi; double flo, fhi; Expr* f; bool up() const { return flo <= fhi; }
  uint64_t bits(I128 v) const { return (uint64_t)v & wmask(n->w); }
  double at(I128 v) const { uint64_t r; monoEval(f, bits(v), r); return asD(r, f->w); } };
static bool mono(Expr* f, Mono& m) {
  if (!f->fp && f->op != O_UITOFP && f->op != O_SITOFP) return false;
  m.n = monoRoot(f, m.sgn); if (!m.n) return false;
  m.f = f; Expr* n = m.n; uint64_t M = wmask(n->w);
  if (!m.sgn || n->hi <= M >> 1) { m.lo = n->lo; m.hi = n->hi; }
  else { unsigned w = n->op == O_SEXT ? n->a->w : n->w; m.lo = -((I128)1 << (w - 1)); m.hi = ((I128)1 << (w - 1)) - 1; }
  uint64_t r; if (!monoEval(f, m.bits(m.lo), r)) return false; m.flo = asD(r, f->w);
  if (!monoEval(f, m.bits(m.hi), r)) return false; m.fhi = asD(r, f->w);
  return true;
}
// predicate on f(n), monotone in n, as a comparison of n
template<class P> static Expr* monoPred(const Mono& m, P pred) {
  bool a = pred(m.flo), b = pred(m.fhi);
  if (a == b) return eBool(a);
  I128 lo = m.lo, hi = m.hi; // pred(lo) == a, pred(hi) == b
  while (hi - lo > 1) { I128 mid = lo + (hi - lo) / 2; if (pred(m.at(mid)) == a) lo = mid; else hi = mid; }
  Expr* c = eBin(m.sgn ? O_SLT : O_ULT, m.n, eConst(m.n->w, m.bits(hi)));
  return a ? c : eNot(c);
}
// exact integer value of a floating point expression (all intermediate results below 2^53)
static const I128 P53 = (I128)1 << 53;
static Expr* exactInt(Expr* f, I128& lo, I128& hi, int d = 0) {
  if (f->w != 64 || d > 24) return nullptr;
  Expr *x, *y; I128 al, ah, bl_, bh;
  auto fits = [&] { return lo >= -P53 && hi <= P53; };
  switch (f->op) {
    case O_CONST: { double v = asD(f->k, 64); if (!(std::fabs(v) <= 9007199254740992.0) || v != std::floor(v)) return nullptr; lo = hi = (I128)v; return eConst(64, (uint64_t)(int64_t)v); }
    case O_UITOFP: lo = f->a->lo; hi = f->a->hi; return fits() ? eZExt(f->a, 64) : nullptr;
    case O_SITOFP: {
      x = f->a; uint64_t M = wmask(x->w);
      if (x->hi <= M >> 1) { lo = x->lo; hi = x->hi; } else { unsigned w = x->op == O_SEXT ? x->a->w : x->w; lo = -((I128)1 << (w - 1)); hi = ((I128)1 << (w - 1)) - 1; }
      return fits() ? eSExt(x, 64) : nullptr; }
    case O_XOR: if (!isC(f->b) || f->b->k != S64 || !(x = exactInt(f->a, al, ah, d + 1))) return nullptr; lo = -ah; hi = -al; return eSub(eConst(64, 0), x);
    case O_FADD: case O_FSUB: case O_FMUL: {
      if (!(x = exactInt(f->a, al, ah, d + 1)) || !(y = exactInt(f->b, bl_, bh, d + 1))) return nullptr;
      if (f->op == O_FADD) { lo = al + bl_; hi = ah + bh; return fits() ? eBin(O_ADD, x, y) : nullptr; }
      if (f->op == O_FSUB) { lo = al - bh; hi = ah - bl_; return fits() ? eSub(x, y) : nullptr; }
      I128 q[4] = {al * bl_, al * bh, ah * bl_, ah * bh}; lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4);
      return fits() ? eBin(O_MUL, x, y) : nullptr; }
    case O_ITE: {
      if (!(x = exactInt(f->b, al, ah, d + 1)) || !(y = exactInt(f->c, bl_, bh, d + 1))) return nullptr;
      lo = std::min(al, bl_); hi = std::max(ah, bh); return eIte(f->a, x, y); }
    default: return nullptr;
  }
}
// interval of a floating point value that is surely finite (round to nearest is monotone)
static bool frange(Expr* f, double& lo, double& hi, int d = 0) {
  double al, ah, bl_, bh; if (d > 40) return false;
  auto fin = [&] { return std::isfinite(lo) && std::isfinite(hi); };
  switch (f->op) {
    case O_CONST: lo = hi = asD(f->k, f->w); return fin();
    case O_UITOFP: lo = f->w == 32 ? (double)(float)f->a->lo : (double)f->a->lo; hi = f->w == 32 ? (double)(float)f->a->hi : (double)f->a->hi; return true;
    case O_SITOFP: lo = f->w == 32 ? (double)(float)f->a->slo : (double)f->a->slo; hi = f->w == 32 ? (double)(float)f->a->shi : (double)f->a->shi; return true;
    case O_FPEXT: return frange(f->a, lo, hi, d + 1);
    case O_FPTRUNC: if (!frange(f->a, al, ah, d + 1)) return false; lo = (float)al; hi = (float)ah; return fin();
    case O_XOR: if (!isC(f->b) || f->b->k != 1ull << (f->w - 1) || !frange(f->a, al, ah, d + 1)) return false; lo = -ah; hi = -al; return true;
    case O_ITE: if (!frange(f->b, al, ah, d + 1) || !frange(f->c, bl_, bh, d + 1)) return false; lo = std::min(al, bl_); hi = std::max(ah, bh); return true;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      if (!frange(f->a, al, ah, d + 1) || !frange(f->b, bl_, bh, d + 1)) return false;
      if (f->op == O_FDIV && bl_ <= 0 && bh >= 0) return false;
      auto q = [&](double x, double y) { return f->op == O_FADD ? x + y : f->op == O_FSUB ? x - y : f->op == O_FMUL ? x * y : x / y; };
      double v[4] = {q(al, bl_), q(al, bh), q(ah, bl_), q(ah, bh)}; if (f->w == 32) for (double& x : v) x = (float)x;
      for (double x : v) if (!std::isfinite(x)) return false;
      lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4); return true; }
    default: return false;
  }
}
static Expr* fpCompare(Op op, Expr* a, Expr* b) {
  { double al, ah, bl_, bh;
    if (frange(a, al, ah) && frange(b, bl_, bh)) {
      if (op == O_FUNO) return eBool(false);
      if (a == b) return eBool(op != O_FOLT);
      if (op == O_FOLT) { if (ah < bl_) return eBool(true); if (al >= bh) return eBool(false); }
      if (op == O_FOLE) { if (ah <= bl_) return eBool(true); if (al > bh) return eBool(false); }
      if (op == O_FOEQ && (ah < bl_ || bh < al)) return eBool(false);
    } }
  Mono m; I128 l1, h1, l2, h2;
  if (op == O_FUNO) {
    bool ok = true;
    for (Expr* x : {a, b}) { if (isC(x)) ok &= !std::isnan(asD(x->k, x->w)); else if (!mono(x, m) && !exactInt(x, l1, h1)) ok = false; }
    return ok ? eBool(false) : nullptr;
  }
  if (a == b) { if (mono(a, m) || exactInt(a, l1, h1)) return eBool(op != O_FOLT); return nullptr; }
  if (isC(b) && mono(a, m)) {
    double K = asD(b->k, b->w); if (std::isnan(K)) return eBool(false);
    if (op == O_FOLT) return monoPred(m, [&](double v) { return v < K; });
    if (op == O_FOLE) return monoPred(m, [&](double v) { return v <= K; });
    return eBin(O_AND, monoPred(m, [&](double v) { return v <= K; }), monoPred(m, [&](double v) { return v >= K; }));
  }
  if (isC(a) && mono(b, m)) {
    double K = asD(a->k, a->w); if (std::isnan(K)) return eBool(false);
    if (op == O_FOLT) return monoPred(m, [&](double v) { return K < v; });
    if (op == O_FOLE) return monoPred(m, [&](double v) { return K <= v; });
    return eBin(O_AND, monoPred(m, [&](double v) { return v <= K; }), monoPred(m, [&](double v) { return v >= K; }));
  }
  for (int side = 0; side < 2; side++) { // comparisons of a choice are choices of comparisons
    Expr *t = side ? b : a, *o = side ? a : b; if (t->op != O_ITE || !isC(o)) continue;
    auto sub = [&](Expr* x) -> Expr* { if (isC(x)) return eConst(1, side ? foldOp(op, 1, x->w, o->k, x->k) : foldOp(op, 1, x->w, x->k, o->k)); return side ? fpCompare(op, o, x) : fpCompare(op, x, o); };
    Expr* x = sub(t->b); if (!x) continue; Expr* y = sub(t->c); if (!y) continue;
    return eIte(t->a, x, y);
  }
  // one side may exceed every exact value: constants beyond 2^53 and exact integers
  if (Expr* x = exactInt(a, l1, h1)) {
    if (Expr* y = exactInt(b, l2, h2)) return eBin(op == O_FOLT ? O_SLT : op == O_FOLE ? O_SLE : O_EQ, x, y);
    if (isC(b)) { double K = asD(b->k, 64); if (K > 9007199254740992.0) return eBool(op != O_FOEQ); if (K < -9007199254740992.0) return eBool(false); (void)x; }
  } else if (Expr* y = exactInt(b, l2, h2)) {
    (void)y;
    if (isC(a)) { double K = asD(a->k, 64); if (K > 9007199254740992.0) return eBool(false); if (K < -9007199254740992.0) return eBool(op != O_FOEQ); }
  }
  return nullptr;
}

Expr* eBin(Op op, Expr* a, Expr* b) {
  assert(a->w == b->w);
  unsigned w = (op >= O_EQ && op <= O_SLE) || (op >= O_FOEQ && op <= O_FUNO) ? 1 : a->w;
  uint64_t M = wmask(a->w);
  if (isC(a) && isC(b)) return eConst(w, foldOp(op, w, a->w, a->k, b->k));
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  // operations on constant-leaf ITEs with a constant are pushed to the leaves
  if (op < O_FADD && op != O_EQ) {
    if (isC(b) && a->op == O_ITE && constIte(a) && iteSize(a) <= 64) return pushIte(op, a, b, true);
    if (isC(a) && b->op == O_ITE && constIte(b) && iteSize(b) <= 64) return pushIte(op, b, a, false);
  }
  if (op == O_FDIV && w == 64 && isC(b) && a->op == O_UITOFP && (a->a->op == O_MUL || a->a->op == O_SHL) && isC(a->a->b) && a->a->hi <= 1ull << 53) { // common factor of exact operands
    Expr* m = a->a; uint64_t c = m->op == O_MUL ? m->b->k : m->b->k < 50 ? 1ull << m->b->k : 0; double D = asD(b->k, 64);
    if (c && m->a->hi <= (1ull << 53) / c && D >= 1 && D <= 9007199254740992.0 && D == std::floor(D)) {
      uint64_t d = (uint64_t)D, g = c, h = d; while (h) { uint64_t t = g % h; g = h; h = t; }
      if (g > 1) { Expr* x = eUn(O_UITOFP, eBin(O_MUL, m->a, eConst(m->w, c / g)), 64); double q = (double)(d / g); return d == g ? x : eBin(O_FDIV, x, eConst(64, bitsTo<uint64_t>(q))); }
    }
  }
  if (op >= O_FOEQ && op <= O_FUNO) if (Expr* r = fpCompare(op, a, b)) return r;
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (a->op == O_ADD && isC(a->b)) return eBin(O_ADD, a->a, eConst(a->w, a->b->k + b->k));
        if (a->op == O_XOR && isC(a->b) && pow2(a->b->k) && ((a->b->k + b->k) & M) == 0 && a->b->k <= M >> 1 && a->a->hi <= 2 * a->b->k - 1) { // sign extension
          unsigned n = bl(a->b->k); return eSExt(eExtract(a->a, 0, n), w);
        }
        { // u % c + (u / c) * c where u / c is known
          Expr* q = zs(a);
          if (q->op == O_UREM && isC(q->b) && q->b->k && b->k % q->b->k == 0 && q->a->lo / q->b->k == b->k / q->b->k && q->a->hi / q->b->k == b->k / q->b->k) return eZExt(q->a, w);
        }
      } else {
        if (Expr* r = recombine(a, b)) return r;
        if (Expr* r = recombine(b, a)) return r;
        // (x + c) + y -> (x + y) + c
        if (a->op == O_ADD && isC(a->b)) return eBin(O_ADD, eBin(O_ADD, a->a, b), a->b);
        if (b->op == O_ADD && isC(b->b)) return eBin(O_ADD, eBin(O_ADD, a, b->a), b->b);
        for (int i = 0; i < 2; i++) { // x + (y - x), (y + x) - x
          Expr *x = i ? b : a, *y = i ? a : b; if (y->op != O_ADD) continue;
          auto neg = [&](Expr* p, Expr* q) { return (p->op == O_MUL && isC(p->b) && p->b->k == M && p->a == q) || (q->op == O_MUL && isC(q->b) && q->b->k == M && q->a == p); };
          if (neg(y->a, x)) return y->b;
          if (neg(y->b, x)) return y->a;
        }
        // x + (-1)*x
        if (a->op == O_MUL && isC(a->b) && a->b->k == M && a->a == b) return eConst(w, 0);
        if (b->op == O_MUL && isC(b->b) && b->b->k == M && b->a == a) return eConst(w, 0);
      }
      break;
    case O_MUL:
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == 1) return a;
        if (pow2(b->k)) return eBin(O_SHL, a, eConst(w, __builtin_ctzll(b->k)));
        if (a->op == O_MUL && isC(a->b)) return eBin(O_MUL, a->a, eConst(w, a->b->k * b->k));
        if (b->k == M && a->op == O_ADD && isC(a->b)) return eBin(O_ADD, eBin(O_MUL, a->a, b), eConst(w, 0 - a->b->k));
      } else { // constant factors outermost
        if (a->op == O_MUL && isC(a->b)) return eBin(O_MUL, eBin(O_MUL, a->a, b), a->b);
        if (b->op == O_MUL && isC(b->b)) return eBin(O_MUL, eBin(O_MUL, a, b->a), b->b);
      }
      break;
    case O_UDIV:
      if (isC(b)) {
        if (b->k == 1) return a;
        if (pow2(b->k)) return eBin(O_LSHR, a, eConst(w, __builtin_ctzll(b->k)));
        if (b->k && a->hi < b->k) return eConst(w, 0);
        if (b->k && a->lo / b->k == a->hi / b->k) return eConst(w, a->lo / b->k);
        if (a->op == O_ADD || a->op == O_MUL) { Expr *x, *r; if (splitMul(a, b->k, x, r)) return r ? eBin(O_ADD, x, eBin(O_UDIV, r, b)) : x; }
        if (a->op == O_ZEXT && b->k <= wmask(a->a->w)) return eZExt(eBin(O_UDIV, a->a, eConst(a->a->w, b->k)), w);
      }
      break;
    case O_UREM:
      if (isC(b)) {
        if (b->k == 1) return eConst(w, 0);
        if (pow2(b->k)) return eBin(O_AND, a, eConst(w, b->k - 1));
        if (b->k && a->hi < b->k) return a;
        if (a->op == O_ADD || a->op == O_MUL) { Expr *x, *r; if (splitMul(a, b->k, x, r)) return r ? eBin(O_UREM, r, b) : eConst(w, 0); }
        if (a->op == O_ZEXT && b->k <= wmask(a->a->w)) return eZExt(eBin(O_UREM, a->a, eConst(a->a->w, b->k)), w);
      }
      break;
    case O_SDIV: case O_SREM:
      if (a->hi <= M >> 1 && b->hi <= M >> 1 && b->lo > 0) return eBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
      if (op == O_SDIV && isC(b) && b->k == 1) return a;
      if (isC(b) && b->k == M && a->slo > sx(M ^ (M >> 1), w)) return op == O_SDIV ? eNeg(a) : eConst(w, 0);
      if (isC(b) && b->k && (a->op == O_MUL || a->op == O_SHL) && isC(a->b) && a->b->k < (a->op == O_SHL ? (uint64_t)w - 1 : ~0ull)) {
        uint64_t k = a->op == O_SHL ? 1ull << a->b->k : a->b->k; int64_t q = sx(k, w), c = sx(b->k, w);
        if (c != -1 && q % c == 0 && smulOk(a->a, k)) return op == O_SDIV ? eBin(O_MUL, a->a, eConst(w, (uint64_t)(q / c))) : eConst(w, 0);
      }
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == M) return a;
        if (b->k == M >> 1 && (w == 64 || w == 32) && (a->fp || a->op == O_UITOFP || a->op == O_SITOFP)) { // absolute value
          Mono m; if (mono(a, m)) { if (m.flo >= 0 && m.fhi >= 0 && !std::signbit(m.flo) && !std::signbit(m.fhi)) return a; }
          if (a->op == O_XOR && isC(a->b) && a->b->k == 1ull << (w - 1)) return eBin(O_AND, a->a, b);
        }
        if (((b->k + 1) & b->k) == 0 && a->hi <= b->k) return a;
        if (a->op == O_AND && isC(a->b)) return eBin(O_AND, a->a, eConst(w, a->b->k & b->k));
        if (a->op == O_ZEXT) { uint64_t m = b->k & wmask(a->a->w); return eZExt(eBin(O_AND, a->a, eConst(a->a->w, m)), w); }
        if (a->op == O_SHL && isC(a->b) && a->b->k < w) {
          uint64_t s = a->b->k;
          if ((b->k | wmask(s)) == M) return a; // mask only removes zero bits
          return eBin(O_SHL, eBin(O_AND, a->a, eConst(w, b->k >> s)), a->b);
        }
        if (a->op == O_ADD && isC(a->b)) {
          uint64_t c = a->b->k;
          if (((b->k + 1) & b->k) == 0 && (c & b->k) == 0) return eBin(O_AND, a->a, b); // addition above the mask
          if (a->a->hi < (c & (0 - c))) { Expr* x = eBin(O_AND, a->a, b); return c & b->k ? eBin(O_ADD, x, eConst(w, c & b->k)) : x; } // disjoint bits
        }
        if (a->op == O_OR && !isC(a->b)) {
          // distribute when one side vanishes
          Expr* x = eBin(O_AND, a->a, b); if (isC(x) && x->k == 0) return eBin(O_AND, a->b, b);
          Expr* y = eBin(O_AND, a->b, b); if (isC(y) && y->k == 0) return x;
        }
      }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k == M) return b;
        if (w > 1 && a->hi < (b->k & (0 - b->k))) return eBin(O_ADD, a, b); // disjoint bits
      } else {
        if (Expr* r = recombine(a, b)) return r;
        if (Expr* r = recombine(b, a)) return r;
      }
      if (w == 1 && ((a->op == O_XOR && isC(a->b) && a->a == b) || (b->op == O_XOR && isC(b->b) && b->a == a))) return eBool(true);
      break;
    case O_XOR:
      if (a == b) return eConst(w, 0);
      if (isC(b)) {
        if (b->k == 0) return a;
        if (a->op == O_XOR && isC(a->b)) return eBin(O_XOR, a->a, eConst(w, a->b->k ^ b->k));
        if (w == 1) { // negation of comparisons
          if (a->op == O_ULT) return eBin(O_ULE, a->b, a->a);
          if (a->op == O_ULE) return eBin(O_ULT, a->b, a->a);
          if (a->op == O_SLT) return eBin(O_SLE, a->b, a->a);
          if (a->op == O_SLE) return eBin(O_SLT, a->b, a->a);
        }
      }
      break;
    case O_SHL: case O_LSHR:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k >= w) return eConst(w, 0);
        if (a->op == op && isC(a->b)) { uint64_t s = a->b->k + b->k; return s >= w ? eConst(w, 0) : eBin(op, a->a, eConst(w, s)); }
        if (op == O_LSHR) {
          if (bl(a->hi) <= b->k) return eConst(w, 0);
          if (a->op == O_SHL && isC(a->b)) {
            uint64_t s = a->b->k; Expr* x = a->a;
            if (bl(x->hi) + s <= w) { // nothing shifted out
              if (s == b->k) return x;
              if (s > b->k) return eBin(O_SHL, x, eConst(w, s - b->k));
              return eBin(O_LSHR, x, eConst(w, b->k - s));
            }
            if (s == b->k) return eBin(O_AND, x, eConst(w, wmask(w - s)));
          }
          if (a->op == O_ZEXT) { if (b->k >= a->a->w) return eConst(w, 0); return eZExt(eBin(O_LSHR, a->a, eConst(a->a->w, b->k)), w); }
          if (a->op == O_AND && isC(a->b)) return eBin(O_AND, eBin(O_LSHR, a->a, b), eConst(w, a->b->k >> b->k));
        } else if (a->op == O_LSHR && isC(a->b) && a->b->k == b->k) {
          return eBin(O_AND, a->a, eConst(w, (M >> b->k) << b->k));
        }
      }
      break;
    case O_ASHR:
      if (isC(b) && b->k == 0) return a;
      if (a->hi <= M >> 1) return eBin(O_LSHR, a, b);
      break;
    case O_EQ:
      if (a == b) return eBool(true);
      if (a->hi < b->lo || b->hi < a->lo) return eBool(false);
      if (isC(b)) {
        uint64_t K = b->k;
        if (a->w == 1) return K ? a : eNot(a);
        switch (a->op) {
          case O_ADD: if (isC(a->b)) return eEq(a->a, eConst(a->w, K - a->b->k)); break;
          case O_XOR: if (isC(a->b)) return eEq(a->a, eConst(a->w, K ^ a->b->k)); break;
          case O_MUL: if (isC(a->b) && a->b->k == M) return eEq(a->a, eConst(a->w, 0 - K)); break;
          case O_ZEXT: if (K > wmask(a->a->w)) return eBool(false); return eEq(a->a, eConst(a->a->w, K));
          case O_SEXT: if ((sx(K & wmask(a->a->w), a->a->w) & M) != K) return eBool(false); return eEq(a->a, eConst(a->a->w, K));
          case O_HEXU: case O_HEXL: return cmpHex(O_EQ, a, K, true);
          case O_ITE:
            if (constIte(a)) {
              if (isC(a->b) && isC(a->c)) return a->b->k == K ? (a->c->k == K ? eBool(true) : a->a) : (a->c->k == K ? eNot(a->a) : eBool(false));
              return eIte(a->a, eEq(a->b, b), eEq(a->c, b));
            }
            if (isC(a->b) && a->b->k != K) return eBin(O_AND, eNot(a->a), eEq(a->c, b));
            if (isC(a->c) && a->c->k != K) return eBin(O_AND, a->a, eEq(a->b, b));
            break;
          case O_CONCAT: return eBin(O_AND, eEq(a->a, eConst(a->a->w, K >> a->b->w)), eEq(a->b, eConst(a->b->w, K)));
          case O_SHL: if (isC(a->b) && bl(a->a->hi) + a->b->k <= a->w) { if (K & wmask(a->b->k)) return eBool(false); return eEq(a->a, eConst(a->w, K >> a->b->k)); } break;
          default: break;
        }
      } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return eEq(a->a, b->a);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return eEq(a->a, b->a);
        if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && a->b == b->b) return eEq(a->a, b->a);
        if (a->op == b->op && (a->op == O_HEXU || a->op == O_HEXL) && a->a->w == b->a->w) return eEq(a->a, b->a);
        if (a->w == 1) return eNot(eBin(O_XOR, a, b));
      }
      break;
    case O_ULT:
      if (a == b) return eBool(false);
      if (a->hi < b->lo) return eBool(true);
      if (a->lo >= b->hi) return eBool(false);
      if (isC(b) && (a->op == O_HEXU || a->op == O_HEXL)) return cmpHex(op, a, b->k, true);
      if (isC(a) && (b->op == O_HEXU || b->op == O_HEXL)) return cmpHex(op, b, a->k, false);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (isC(b) && a->op == O_ZEXT && b->k <= wmask(a->a->w)) return eBin(op, a->a, eConst(a->a->w, b->k));
      if (isC(a) && b->op == O_ZEXT && a->k <= wmask(b->a->w)) return eBin(op, eConst(b->a->w, a->k), b->a);
      if (isC(b) && b->k == 1) return eEq(a, eConst(a->w, 0));
      if (isC(b) && a->op == O_ADD && isC(a->b) && a->a->hi + (unsigned __int128)a->b->k <= M && b->k >= a->b->k) return eBin(op, a->a, eConst(a->w, b->k - a->b->k));
      if (isC(b) && a->op == O_ADD && isC(a->b) && a->a->lo >= ((0 - a->b->k) & M) && (unsigned __int128)b->k + ((0 - a->b->k) & M) <= M) return eBin(op, a->a, eConst(a->w, b->k + ((0 - a->b->k) & M)));
      break;
    case O_ULE:
      if (a == b) return eBool(true);
      if (a->hi <= b->lo) return eBool(true);
      if (a->lo > b->hi) return eBool(false);
      if (isC(b)) return eBin(O_ULT, a, eConst(a->w, b->k + 1)); // b->k < a->hi <= M here
      if (isC(a) && a->k > 0) return eBin(O_ULT, eConst(a->w, a->k - 1), b);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      break;
    case O_SLT: case O_SLE: {
      if (a == b) return eBool(op == O_SLE);
      if (op == O_SLT ? a->shi < b->slo : a->shi <= b->slo) return eBool(true);
      if (op == O_SLT ? a->slo >= b->shi : a->slo > b->shi) return eBool(false);
      uint64_t S = (M >> 1) + 1;
      bool ap = a->hi < S, an = a->lo >= S, bp = b->hi < S, bn = b->lo >= S;
      if (ap && bp) return eBin(op == O_SLT ? O_ULT : O_ULE, a, b);
      if (an && bn) return eBin(op == O_SLT ? O_ULT : O_ULE, a, b);
      if (an && bp) return eBool(true);
      if (ap && bn) return eBool(false);
      if (op == O_SLT && a->op == O_MUL && isC(a->b) && a->b->k == M && a->a->hi < S && isC(b) && b->k == 0) return eNot(eEq(a->a, eConst(a->w, 0)));
      if (op == O_SLE && b->op == O_MUL && isC(b->b) && b->b->k == M && b->a->hi < S && isC(a) && a->k == 0) return eEq(b->a, eConst(b->w, 0));
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (a->op == O_SEXT && isC(b)) {
        unsigned n = a->a->w; int64_t K = sx(b->k, a->w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (K > mx) return eBool(true);
        if (K < mn) return eBool(false);
        return eBin(op, a->a, eConst(n, K));
      }
      if (b->op == O_SEXT && isC(a)) {
        unsigned n = b->a->w; int64_t K = sx(a->k, a->w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (K > mx) return eBool(false);
        if (K < mn) return eBool(true);
        return eBin(op, eConst(n, K), b->a);
      }
      break;
    }
    default: break;
  }
  if (w == 1 && a->w == 1) {
    if (op == O_AND) { if (isC(b)) return b->k ? a : b; if ((a->op == O_XOR && isC(a->b) && a->a == b) || (b->op == O_XOR && isC(b->b) && b->a == a)) return eBool(false); }
  }
  Expr* r = mk(op, w, 0, a, b);
  if (r->lo == r->hi && r->op < O_FADD) return eConst(r->w, r->lo);
  return r;
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isC(c->b)) return eIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->k ? eBin(O_OR, c, b) : eBin(O_AND, eNot(c), b);
    if (isC(b)) return b->k ? eBin(O_OR, eNot(c), a) : eBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->a == c) return eIte(c, a->b, b);
  if (b->op == O_ITE && b->a == c) return eIte(c, a, b->c);
  if (b->op == O_ITE && b->b == a) return eIte(eBin(O_OR, c, b->a), a, b->c);
  return mk(O_ITE, a->w, 0, c, a, b);
}
// low bits that can be computed in the narrow type
static bool narrowable(Expr* e, unsigned w, int d = 6) {
  if (isC(e)) return true;
  if (e->op == O_ZEXT || e->op == O_SEXT) return e->a->w <= w;
  if (e->op == O_ADD || e->op == O_MUL) return d > 0 && narrowable(e->a, w, d - 1) && narrowable(e->b, w, d - 1);
  if (e->op == O_SHL && isC(e->b)) return d > 0 && narrowable(e->a, w, d - 1);
  return false;
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w);
  if (w == a->w) return a;
  if (isC(a)) return eConst(w, a->k >> lo);
  switch (a->op) {
    case O_EXTRACT: return eExtract(a->a, a->k + lo, w);
    case O_ZEXT:
      if (lo >= a->a->w) return eConst(w, 0);
      if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
      return eZExt(eExtract(a->a, lo, a->a->w - lo), w);
    case O_SEXT:
      if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
      if (lo == 0) return eSExt(a->a, w);
      break;
    case O_CONCAT:
      if (lo >= a->b->w) return eExtract(a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return eExtract(a->b, lo, w);
      return eConcat(eExtract(a->a, 0, lo + w - a->b->w), eExtract(a->b, lo, a->b->w - lo));
    case O_ITE:
      if ((isC(a->b) || isC(a->c) || constIte(a)) && iteSize(a) <= 64) return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->c, lo, w));
      break;
    case O_AND: case O_OR: case O_XOR:
      return eBin(a->op, eExtract(a->a, lo, w), eExtract(a->b, lo, w));
    case O_LSHR:
      if (isC(a->b) && a->b->k + lo + w <= a->w) return eExtract(a->a, lo + a->b->k, w);
      break;
    case O_SHL:
      if (isC(a->b) && lo == 0 && w >= 16 && a->b->k < w && narrowable(a, w)) return eBin(O_SHL, eExtract(a->a, 0, w), eConst(w, a->b->k));
      if (isC(a->b)) { if (lo >= a->b->k) return eExtract(a->a, lo - a->b->k, w); if (lo + w <= a->b->k) return eConst(w, 0); }
      break;
    case O_ADD: case O_MUL:
      if (lo == 0 && w >= 16 && narrowable(a, w)) return eBin(a->op, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
      // low bits: narrow constant additions of narrow values
      if (lo == 0 && isC(a->b) && (a->a->op == O_ZEXT || a->a->op == O_SEXT) && a->a->a->w <= w) return eBin(a->op, eExtract(a->a, 0, w), eConst(w, a->b->k));
      break;
    default: break;
  }
  if (lo > 0 && bl(a->hi) <= lo) return eConst(w, 0);
  return mk(O_EXTRACT, w, lo, a);
}
Expr* eZExt(Expr* a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return eConst(w, a->k);
  if (a->op == O_ZEXT) return eZExt(a->a, w);
  if (a->op == O_EXTRACT && a->k == 0 && a->a->hi <= wmask(a->w)) {
    Expr* s = a->a;
    if (s->w == w) return s;
    if (s->w < w) return eZExt(s, w);
    return eExtract(s, 0, w);
  }
  if (a->op == O_EXTRACT && a->a->w == w) { // zext(extract) = and/shift
    Expr* s = a->k ? eBin(O_LSHR, a->a, eConst(w, a->k)) : a->a;
    return eBin(O_AND, s, eConst(w, wmask(a->w)));
  }
  if (a->op == O_ITE && constIte(a) && iteSize(a) <= 64) return eIte(a->a, eZExt(a->b, w), eZExt(a->c, w));
  if (a->op == O_ADD && isC(a->b)) { // additions that cannot wrap are widened
    uint64_t M = wmask(a->w), n = (0 - a->b->k) & M;
    if ((unsigned __int128)a->a->hi + a->b->k <= M) return eBin(O_ADD, eZExt(a->a, w), eConst(w, a->b->k));
    if (a->a->lo >= n) return eBin(O_ADD, eZExt(a->a, w), eConst(w, 0 - n));
  }
  return mk(O_ZEXT, w, 0, a);
}
Expr* eSExt(Expr* a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return eConst(w, sx(a->k, a->w));
  if (a->hi <= wmask(a->w) >> 1) return eZExt(a, w);
  if (a->op == O_SEXT) return eSExt(a->a, w);
  if (a->op == O_EXTRACT && a->k == 0 && sfits(a->a, a->w)) { if (a->a->w == w) return a->a; return a->a->w > w ? eExtract(a->a, 0, w) : eSExt(a->a, w); }
  if (a->op == O_ITE && constIte(a) && iteSize(a) <= 64) return eIte(a->a, eSExt(a->b, w), eSExt(a->c, w));
  if ((a->op == O_ADD || a->op == O_MUL) && a->w > 1) { // operations that cannot overflow are widened
    __int128 mx = (__int128)(wmask(a->w) >> 1), l, h; Expr *x = a->a, *y = a->b;
    if (a->op == O_ADD) { l = (__int128)x->slo + y->slo; h = (__int128)x->shi + y->shi; }
    else { __int128 q[4] = {(__int128)x->slo * y->slo, (__int128)x->slo * y->shi, (__int128)x->shi * y->slo, (__int128)x->shi * y->shi}; l = *std::min_element(q, q + 4); h = *std::max_element(q, q + 4); }
    if (l >= -mx - 1 && h <= mx) return eBin(a->op, eSExt(x, w), eSExt(y, w));
  }
  return mk(O_SEXT, w, 0, a);
}
// e seen as (x >> sh) & mask
static Expr* pieceOf(Expr* e, uint64_t& mask, unsigned& sh) {
  mask = wmask(e->w); sh = 0;
  for (int i = 0; i < 6; i++) {
    if (e->op == O_AND && isC(e->b) && sh == 0) { mask &= e->b->k; e = e->a; }
    else if (e->op == O_ZEXT && sh == 0) { mask &= wmask(e->a->w); e = e->a; }
    else if (e->op == O_LSHR && isC(e->b) && e->b->k < e->w) { sh += (unsigned)e->b->k; e = e->a; }
    else if (e->op == O_EXTRACT && sh == 0) { mask &= wmask(e->w); sh = (unsigned)e->k; e = e->a; }
    else break;
  }
  return e;
}
Expr* eConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return eConst(w, (hi->k << lo->w) | lo->k);
  if (isC(hi) && hi->k == 0) return eZExt(lo, w);
  if (hi->op == O_EXTRACT) {
    // adjacent pieces of one value
    if (lo->op == O_EXTRACT && lo->a == hi->a && hi->k == lo->k + lo->w) return eExtract(hi->a, lo->k, w);
    if (lo == hi->a && false) return nullptr;
    if (lo->op == O_CONCAT && lo->a->op == O_EXTRACT && lo->a->a == hi->a && hi->k == lo->a->k + lo->a->w) return eConcat(eConcat(hi, lo->a), lo->b);
    // lo is an extract that got simplified to a narrower source (zext)
    if (hi->a->w >= w) {
      Expr* whole = eExtract(hi->a, hi->k >= lo->w ? hi->k - lo->w : 0, lo->w);
      if (hi->k >= lo->w && whole == lo) return eExtract(hi->a, hi->k - lo->w, w);
    }
  }
  if (w <= 64) { // adjacent pieces of one value with some bits inverted
    uint64_t hk = 0, lk = 0; Expr *hx = hi, *lx = lo;
    if (hi->op == O_XOR && isC(hi->b)) { hk = hi->b->k; hx = hi->a; }
    if (lo->op == O_XOR && isC(lo->b)) { lk = lo->b->k; lx = lo->a; }
    if ((hk || lk) && !isC(hx) && !isC(lx)) { Expr* r = eConcat(hx, lx); if (r->op != O_CONCAT) return eBin(O_XOR, r, eConst(w, (hk << lo->w) | lk)); }
  }
  { // adjacent, possibly masked pieces of one value
    uint64_t hm, lm; unsigned hs, ls;
    Expr *hx = pieceOf(hi, hm, hs), *lx = pieceOf(lo, lm, ls);
    if (hx == lx && hs == ls + lo->w && ls < hx->w && !isC(hx)) {
      unsigned n = std::min(w, hx->w - ls);
      return eBin(O_AND, eZExt(eExtract(hx, ls, n), w), eConst(w, (hm << lo->w) | lm));
    }
  }
  if (hi->op == O_ZEXT) return eZExt(eConcat(hi->a, lo), w);
  if (hi->op == O_CONCAT) return eConcat(hi->a, eConcat(hi->b, lo));
  return mk(O_CONCAT, w, 0, hi, lo);
}
// strips conversions: exact signed integer behind an FP value, if any
static Expr* intBehind(Expr* f, unsigned w) {
  // SITOFP/UITOFP of a value that fits 53 bits is exact
  if (f->op == O_SITOFP) {
    Expr* x = f->a;
    uint64_t S = 1ull << (x->w - 1);
    bool exact = x->w <= 53 || x->hi <= (1ull << 53) || (x->op == O_SEXT && x->a->w <= 53);
    (void)S;
    if (exact && f->w == 64) { if (x->w == w) return x; if (x->w < w) return eSExt(x, w); return nullptr; }
  }
  if (f->op == O_UITOFP) {
    Expr* x = f->a;
    if (f->w == 64 && (x->w <= 53 || x->hi <= (1ull << 53))) { if (x->w == w && x->hi <= wmask(w) >> 1) return x; if (x->w < w) return eZExt(x, w); if (x->w > w && x->hi <= wmask(w) >> 1) return eExtract(x, 0, w); }
  }
  return nullptr;
}
Expr* eUn(Op op, Expr* a, unsigned w) {
  if (isC(a)) return eConst(w, foldOp(op, w, a->w, a->k, 0));
  if (op == O_FPTOSI) {
    if (a->op == O_SITOFP && a->a->w > w) {
      // value known to fit the narrower type
      Expr* x = a->a;
      if ((x->w <= 53 || x->hi <= (1ull << 53)) && x->hi <= wmask(w) >> 1) return eExtract(x, 0, w);
      if (x->op == O_SEXT && x->a->w <= w) return eSExt(x->a, w);
    }
    if (Expr* r = intBehind(a, w)) return r;
    if (a->w == 64 && !isC(a)) {
      I128 lo, hi, wl = -((I128)1 << (w - 1)), wh = ((I128)1 << (w - 1)) - 1;
      if (Expr* r = exactInt(a, lo, hi)) if (lo >= wl && hi <= wh) return w == 64 ? r : eExtract(r, 0, w);
      // truncated quotient of exact integers below 2^53 by an integer: rounding never reaches the next integer
      if (a->op == O_FDIV && isC(a->b)) {
        double c = asD(a->b->k, 64);
        if (c == std::floor(c) && std::fabs(c) >= 1 && std::fabs(c) <= 4503599627370496.0)
          if (Expr* r = exactInt(a->a, lo, hi)) if (lo > -P53 && hi < P53 && lo / (I128)c >= wl && hi / (I128)c >= wl && lo / (I128)c <= wh && hi / (I128)c <= wh) { Expr* q = eBin(O_SDIV, r, eConst(64, (uint64_t)(int64_t)c)); return w == 64 ? q : eExtract(q, 0, w); }
      }
    }
  }
  if ((op == O_FPTOSI || op == O_FPTOUI) && a->w == 64) { // exact table of a function of one short integer: n + difference, one case per run of equal differences
    Mono m; if (mono(a, m) && m.hi - m.lo <= 65536) {
      std::vector<std::pair<I128, uint64_t>> runs; bool ok = true; Expr* n = m.n->w > w ? eExtract(m.n, 0, w) : m.sgn ? eSExt(m.n, w) : eZExt(m.n, w);
      for (I128 v = m.lo; v <= m.hi && ok; v++) { uint64_t r; ok = monoEval(a, m.bits(v), r); uint64_t g = foldOp(op, w, 64, r, 0), d = (g - (uint64_t)v) & wmask(w); if (runs.empty() || runs.back().second != d) { runs.push_back({v, d}); ok &= runs.size() < 20000; } }
      if (ok) {
        std::function<Expr*(size_t, size_t)> tree = [&](size_t lo, size_t hi) -> Expr* { if (lo == hi) return eConst(w, runs[lo].second); size_t mid = (lo + hi + 1) / 2; return eIte(eBin(m.sgn ? O_SLT : O_ULT, m.n, eConst(m.n->w, m.bits(runs[mid].first))), tree(lo, mid - 1), tree(mid, hi)); };
        return eBin(O_ADD, n, tree(0, runs.size() - 1));
      }
    }
  }
  if (op == O_SITOFP && a->hi <= wmask(a->w) >> 1) op = O_UITOFP;
  if ((op == O_UITOFP) && a->op == O_ZEXT) a = a->a;
  if ((op == O_SITOFP) && a->op == O_SEXT) a = a->a;
  if (a->op == O_ITE && constIte(a) && iteSize(a) <= 64) return eIte(a->a, eUn(op, a->b, w), eUn(op, a->c, w));
  return mk(op, w, 0, a);
}

// ---------------------------------------------------------------- evaluation
uint64_t evalExpr(Expr* e, const std::vector<uint64_t>& asg) {
  if (e->op == O_CONST) return e->k;
  if (e->estamp == g_estamp) return e->eval;
  uint64_t r = 0;
  switch (e->op) {
    case O_VAR: r = e->k < asg.size() ? asg[e->k] : g_vars[e->k].lo; break;
    case O_ITE: r = evalExpr(e->a, asg) ? evalExpr(e->b, asg) : evalExpr(e->c, asg); break;
    case O_CONCAT: r = (evalExpr(e->a, asg) << e->b->w) | evalExpr(e->b, asg); break;
    case O_EXTRACT: r = (evalExpr(e->a, asg) >> e->k) & wmask(e->w); break;
    default: r = foldOp(e->op, e->w, e->a->w, evalExpr(e->a, asg), e->b ? evalExpr(e->b, asg) : 0); break;
  }
  e->estamp = g_estamp; e->eval = r;
  return r;
}
static const char* opn[] = {"const","var","add","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","HEX","hex","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc"};
std::string exprStr(const Expr* e, int d) {
  if (!e) return "";
  if (e->op == O_CONST) return std::to_string(e->k) + ":" + std::to_string(e->w);
  if (e->op == O_VAR) return g_vars[e->k].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op] + std::to_string(e->w);
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->k);
  for (auto* k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}
