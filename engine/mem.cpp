// Interpreted program memory: a fixed arena of real process memory with a byte-granular shadow.
#include "interp.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
uint8_t* SH;
static uint64_t heapTop = HEAP0 + 64;
static std::unordered_map<uint64_t, uint64_t> hsize;
static std::unordered_map<uint64_t, Expr**> pages;
static uint64_t lastPg = ~0ull; static Expr** lastP = nullptr;
uint64_t g_stackTop = STACK0 + 64;

void memInit() {
  void* a = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA) { fprintf(stderr, "arena mmap failed\n"); exit(99); }
  SH = (uint8_t*)mmap(nullptr, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED) { fprintf(stderr, "shadow mmap failed\n"); exit(99); }
}
static Expr** pageOf(uint64_t p, bool create) {
  uint64_t g = p >> 10;
  if (g == lastPg) return lastP;
  auto it = pages.find(g);
  if (it == pages.end()) {
    if (!create) return nullptr;
    it = pages.emplace(g, (Expr**)calloc(1024, sizeof(Expr*))).first;
  }
  lastPg = g; lastP = it->second;
  return lastP;
}
Expr* symByte(uint64_t p) {
  if (!inArena(p) || !(SH[p - ARENA] & 2)) return nullptr;
  Expr** g = pageOf(p, false);
  return g ? g[p & 1023] : nullptr;
}
void setSymByte(uint64_t p, Expr* e) {
  if (isC(e)) { *(uint8_t*)p = (uint8_t)e->k; SH[p - ARENA] &= ~2; return; }
  pageOf(p, true)[p & 1023] = e;
  SH[p - ARENA] |= 2;
  *(uint8_t*)p = (uint8_t)S.ev(e);
}
uint8_t g_fill = 0xA5; // content of fresh memory
uint64_t heapAlloc(uint64_t n, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t p = (heapTop + 32 + align - 1) & ~(align - 1);
  uint64_t sz = n ? n : 1;
  if (p + sz + 64 > ARENA + ARENA_SIZE) { incomplete("heap exhausted"); endPath("heap exhausted"); }
  heapTop = p + sz + 16;
  memset(SH + (p - ARENA), 1, n);
  if (n <= (1 << 20)) memset((void*)p, g_fill, n);
  hsize[p] = n;
  return p;
}
uint64_t heapSize(uint64_t p) { auto it = hsize.find(p); return it == hsize.end() ? ~0ull : it->second; }
void heapFree(uint64_t p, const char* what) {
  if (!p) return;
  if (!inArena(p)) { free((void*)p); return; }
  auto it = hsize.find(p);
  if (it == hsize.end()) { violation("mem", std::string("invalid free in ") + what, nullptr); endPath("invalid free"); }
  memset(SH + (p - ARENA), 0, it->second);
  hsize.erase(it);
}
uint64_t stackAlloc(uint64_t n, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t p = (g_stackTop + 16 + align - 1) & ~(align - 1);
  if (p + n + 4096 > STACK1) { violation("crash", "stack overflow", nullptr); endPath("stack overflow"); }
  g_stackTop = p + ((n + 15) & ~15ull) + 16;
  memset(SH + (p - ARENA), 1, n);
  if (n <= 65536) memset((void*)p, g_fill, n);
  return p;
}
static void memError(uint64_t p, uint64_t n, bool write, const char* what) {
  char b[160];
  snprintf(b, sizeof b, "invalid %s of %llu byte(s) (%s)", write ? "write" : "read", (unsigned long long)n, what);
  violation("mem", b, nullptr);
  endPath("memory error");
}
void checkRange(uint64_t p, uint64_t n, bool write, const char* what) {
  if (n == 0) return;
  if (!inArena(p)) { if (p < 65536) memError(p, n, write, what); return; }
  if (p + n > ARENA + ARENA_SIZE) memError(p, n, write, what);
  for (uint64_t i = 0; i < n; i++) if (!(SH[p - ARENA + i] & 1)) memError(p, n, write, what);
}
static inline uint64_t rawLoad(uint64_t p, unsigned n) { uint64_t v = 0; memcpy(&v, (void*)p, n); return v; }
Val loadByte(uint64_t p) { Expr* e = symByte(p); return e ? Val{0, e} : Val{*(uint8_t*)p, nullptr}; }
Val memLoad(uint64_t p, unsigned n, unsigned w) {
  if (!inArena(p)) { if (p < 65536) memError(p, n, false, "load"); uint64_t v = rawLoad(p, n); return Val{v & wmask(w), nullptr}; }
  uint64_t s = rawLoad((uint64_t)(SH + (p - ARENA)), n);
  uint64_t ones = 0x0101010101010101ull & wmask(8 * n);
  if (s == ones) return Val{rawLoad(p, n) & wmask(w), nullptr};
  if ((s & ones) != ones) memError(p, n, false, "load");
  Expr* r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Expr* b = symByte(p + i); if (!b) b = eConst(8, *(uint8_t*)(p + i));
    r = r ? eConcat(r, b) : b;
  }
  if (r->w > w) r = eExtract(r, 0, w);
  return mkV(r);
}
void memStore(uint64_t p, unsigned n, Val v, unsigned w) {
  if (!inArena(p)) {
    if (p < 65536) memError(p, n, true, "store");
    uint64_t c = v.c; if (v.e) c = concretize(v, "store to native memory");
    memcpy((void*)p, &c, n); return;
  }
  uint8_t* sh = SH + (p - ARENA);
  uint64_t s = rawLoad((uint64_t)sh, n);
  uint64_t ones = 0x0101010101010101ull & wmask(8 * n);
  if ((s & ones) != ones) memError(p, n, true, "store");
  if (!v.e) { memcpy((void*)p, &v.c, n); if (s != ones) memcpy(sh, &ones, n); return; }
  Expr* e = v.e; if (e->w < 8 * n) e = eZExt(e, 8 * n);
  for (unsigned i = 0; i < n; i++) setSymByte(p + i, eExtract(e, 8 * i, 8));
}
void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  checkRange(s, n, false, "copy source"); checkRange(d, n, true, "copy destination");
  bool sa = inArena(s), da = inArena(d);
  bool anysym = false;
  if (sa) anysym = memchr(SH + (s - ARENA), 3, n) != nullptr;
  if (!anysym) {
    memmove((void*)d, (void*)s, n);
    if (da) memset(SH + (d - ARENA), 1, n);
    return;
  }
  std::vector<Expr*> ex(n);
  for (uint64_t i = 0; i < n; i++) ex[i] = symByte(s + i);
  memmove((void*)d, (void*)s, n);
  if (!da) { incomplete("symbolic data copied to native memory"); return; }
  for (uint64_t i = 0; i < n; i++) { if (ex[i]) setSymByte(d + i, ex[i]); else SH[d - ARENA + i] = 1; }
}
void memFill(uint64_t d, Val v, uint64_t n) {
  if (!n) return;
  checkRange(d, n, true, "fill");
  if (!v.e) { memset((void*)d, (int)v.c, n); if (inArena(d)) memset(SH + (d - ARENA), 1, n); return; }
  for (uint64_t i = 0; i < n; i++) memStore(d + i, 1, v, 8);
}
// ------------------------------------------------------------------ symbolic addresses
static unsigned tz(Expr* e) { // known trailing zero bits
  switch (e->op) {
    case O_CONST: return e->k ? __builtin_ctzll(e->k) : 63;
    case O_SHL: return isC(e->b) ? std::min<unsigned>(63, tz(e->a) + e->b->k) : tz(e->a);
    case O_MUL: return std::min<unsigned>(63, tz(e->a) + tz(e->b));
    case O_ADD: case O_OR: case O_XOR: return std::min(tz(e->a), tz(e->b));
    case O_AND: return std::max(tz(e->a), tz(e->b));
    case O_ZEXT: case O_SEXT: return tz(e->a);
    case O_ITE: return std::min(tz(e->b), tz(e->c));
    default: return 0;
  }
}
struct Cands { uint64_t first, last, step; };
static Cands resolve(Expr* a, unsigned n, bool write) {
  for (;;) {
    uint64_t m = S.ev(a);
    uint64_t L, R;
    if (inArena(m)) {
      if (!(SH[m - ARENA] & 1)) memError(m, n, write, "symbolic address");
      L = m; while (L > ARENA && m - L < (1 << 20) && (SH[L - 1 - ARENA] & 1)) L--;
      R = m; while (R - m < (1 << 20) && (SH[R - ARENA] & 1)) R++;
      if (R - m < n) memError(m, n, write, "symbolic address");
    } else {
      // native memory: trust a small range
      if (a->hi - a->lo > 65536 || m < 65536) memError(m, n, write, "symbolic native address");
      L = a->lo; R = a->hi + n;
    }
    if (!(a->lo >= L && a->hi <= R - n)) {
      Expr* in = eBin(O_ULE, eSub(a, eConst(64, L)), eConst(64, R - n - L));
      if (!branchOn(in)) continue; // other side: out of this object
    }
    Cands c; c.first = std::max(L, a->lo); c.last = std::min(R - n, a->hi);
    uint64_t st = 1;
    // stride from the symbolic part
    unsigned t;
    if (a->op == O_ADD && isC(a->b)) { t = tz(a->a); st = 1ull << std::min(t, 12u); uint64_t k = a->b->k; uint64_t r = (c.first - k) % st; if (r) c.first += st - r; }
    else { t = tz(a); st = 1ull << std::min(t, 12u); uint64_t r = c.first % st; if (r) c.first += st - r; }
    c.step = st;
    return c;
  }
}
Val memLoadV(Val p, unsigned n, unsigned w) {
  if (!p.e) return memLoad(p.c, n, w);
  Expr* a = p.e;
  Cands c = resolve(a, n, false);
  uint64_t cnt = (c.last - c.first) / c.step + 1;
  if (cnt > 8192) { incomplete("symbolic load over a large object"); return memLoad(concretize(p, "large symbolic load"), n, w); }
  struct Run { uint64_t at; Expr* v; };
  std::vector<Run> runs;
  std::vector<Val> vals;
  for (uint64_t i = 0; i < cnt; i++) vals.push_back(memLoad(c.first + i * c.step, n, w));
  for (uint64_t i = 0; i < cnt;) {
    uint64_t at = c.first + i * c.step, j = i + 1;
    if (vals[i].e) { while (j < cnt && vals[j].e == vals[i].e) j++; runs.push_back({at, vals[i].e}); i = j; continue; }
    while (j < cnt && !vals[j].e && vals[j].c == vals[i].c) j++;
    uint64_t k = i + 1;
    if (c.step == 1 && n == 1) while (k < cnt && !vals[k].e && vals[k].c == ((vals[i].c + (k - i)) & 0xFF)) k++;
    if (k - i >= 4 && k > j) { runs.push_back({at, eExtract(eBin(O_ADD, a, eConst(64, vals[i].c - at)), 0, 8)}); i = k; continue; }
    runs.push_back({at, eConst(w, vals[i].c)}); i = j;
  }
  struct B { static Expr* t(const std::vector<Run>& r, size_t l, size_t h, Expr* a) {
    if (h - l == 1) return r[l].v;
    size_t m = (l + h) / 2;
    Expr* x = t(r, l, m, a); Expr* y = t(r, m, h, a);
    return eIte(eBin(O_ULT, a, eConst(64, r[m].at)), x, y);
  } };
  return mkV(B::t(runs, 0, runs.size(), a));
}
void memStoreV(Val p, unsigned n, Val v, unsigned w) {
  if (!p.e) { memStore(p.c, n, v, w); return; }
  Expr* a = p.e;
  Cands c = resolve(a, n, true);
  uint64_t cnt = (c.last - c.first) / c.step + 1;
  if (cnt > 256) { memStore(concretize(p, "large symbolic store"), n, v, w); return; }
  Expr* ve = toE(v, w);
  for (uint64_t i = 0; i < cnt; i++) {
    uint64_t at = c.first + i * c.step;
    Expr* old = toE(memLoad(at, n, w), w);
    memStore(at, n, mkV(eIte(eEq(a, eConst(64, at)), ve, old)), w);
  }
}
std::string cstrAt(uint64_t p, size_t max) {
  std::string r;
  for (size_t i = 0; i < max; i++) { checkRange(p + i, 1, false, "string"); Val v = loadByte(p + i); char c = (char)(v.e ? S.ev(v.e) : v.c); if (!c) break; r += c; }
  return r;
}
