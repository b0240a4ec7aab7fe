#pragma once
#include "expr.h"
#include "solver.h"
#include <string>
#include <vector>
#include <unordered_map>
#include <atomic>

struct Val { uint64_t c = 0; Expr* e = nullptr; };
struct Opnd { int32_t slot = -1; uint64_t c = 0; };

enum IOp : uint16_t {
  I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET,
  I_CALL, I_SELECT, I_MOVE, I_EXTRACTV, I_LANDING, I_RESUME, I_UNREACH, I_FREEZE, I_UNSUP, I_VAARG, I_CMPXCHG, I_RMW, I_MAGG
};
struct Func;
typedef void (*Builtin)(struct CallCtx&);
struct Callee { Func* f = nullptr; Builtin b = nullptr; uint64_t native = 0; std::string name; bool retF = false; };
struct Inst {
  uint16_t op; uint16_t sub; uint8_t w, w2; uint16_t n;  // sub-op, widths, leaf count
  int32_t dst; Opnd o[3];
  int32_t x, y;      // indexes (edges, call info, pool offsets)
  int64_t k;         // constants (gep offset, alloca size)
};
struct Edge { int32_t target; int32_t off, n; };
struct PhiCopy { int32_t dst; Opnd src; };
struct GepIdx { Opnd o; uint8_t w; int64_t scale; };
struct ArgInfo { int32_t off, n; uint32_t byval; bool fp; uint8_t w; };
struct CallInfo {
  Callee* direct = nullptr; Opnd fp; int32_t aoff, an; // args in args pool
  std::vector<ArgInfo> args; bool retFP = false; uint8_t retW = 64; uint16_t retN = 0;
  int32_t normal = -1, unwind = -1;   // edges for invoke
};
struct SwitchInfo { std::vector<std::pair<uint64_t, int32_t>> cases; int32_t def; };
struct Clause { int kind; uint64_t ti; }; // 0 catch, 1 filter(ignored)
struct LandingInfo { std::vector<Clause> cl; bool cleanup; };
struct Func {
  std::string name; std::string file; bool decoded = false, hasBody = false, vararg = false; uint32_t idx = 0; bool hit = false;
  int32_t nslots = 0; uint32_t nargs = 0; std::vector<uint16_t> argLeaves; uint32_t argSlots = 0;
  std::vector<Inst> code; std::vector<Edge> edges; std::vector<PhiCopy> phis; std::vector<Opnd> pool; std::vector<GepIdx> geps;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> sws; std::vector<LandingInfo> lands; std::vector<std::string> msgs;
  const void* llvmF = nullptr;
};
struct Frame {
  Func* f; Val* regs; uint32_t pc; uint64_t sp; const Inst* call; // call instruction in the *caller*
  std::vector<Val>* varargs;
};
struct CallCtx {
  std::vector<Val> a;      // flattened arguments
  std::vector<uint8_t> aw; // widths
  std::vector<bool> af;    // floating
  Val ret[4]; int nret = 0; const CallInfo* ci; const std::string* name; Callee* callee;
  void r(Val v) { ret[0] = v; nret = 1; }
  void r(uint64_t v) { ret[0] = Val{v, nullptr}; nret = 1; }
};

static const uint64_t ARENA = 0x200000000000ull, ARENA_SIZE = 8ull << 30;
static const uint64_t STACK0 = ARENA + (1ull << 30), STACK1 = ARENA + (2ull << 30), HEAP0 = STACK1 + 4096;
static const uint64_t FBASE = 0x210000000000ull;

struct Shm {
  std::atomic<uint64_t> paths, insts, forks, queries, qsat, qunsat, qunk, qcached, solver_us, qmax_us, asserts, asserts_conc, asserts_solved, pruned, viol, incomplete, incpaths, memerr, running;
  std::atomic<uint8_t> fhit[1 << 17];
};
extern Shm* shm;

// memory
void memInit();
static inline bool inArena(uint64_t p) { return p >= ARENA && p < ARENA + ARENA_SIZE; }
extern uint8_t* SH; // shadow, index p-ARENA
uint64_t heapAlloc(uint64_t n, uint64_t align = 16);
void heapFree(uint64_t p, const char* what);
uint64_t heapSize(uint64_t p);
Expr* symByte(uint64_t p);                  // null when concrete
void setSymByte(uint64_t p, Expr* e);
Val memLoad(uint64_t p, unsigned bytes, unsigned w);
void memStore(uint64_t p, unsigned bytes, Val v, unsigned w);
Val memLoadV(Val p, unsigned bytes, unsigned w);
void memStoreV(Val p, unsigned bytes, Val v, unsigned w);
void memCopy(uint64_t d, uint64_t s, uint64_t n);
void memFill(uint64_t d, Val v, uint64_t n);
void checkRange(uint64_t p, uint64_t n, bool write, const char* what);
Val loadByte(uint64_t p);

// engine services
bool branchOn(Expr* c);                       // forks when undecided
bool branchVal(Val v);
uint64_t concretize(Val v, const char* why);  // enumerates the values by forking
Expr* toE(Val v, unsigned w);
Val mkV(Expr* e);
void incomplete(const std::string& why);
void violation(const std::string& kind, const std::string& id, Expr* failing /*may be null*/);
[[noreturn]] void endPath(const char* why);
std::string cstrAt(uint64_t p, size_t max = 4096);
void registerBuiltins();
void regBuiltin(const char* n, Builtin b);
void registerCC(void (*reg)(const char*, Builtin));
Builtin findBuiltin(const std::string& n);
extern std::unordered_map<std::string, uint64_t> g_symaddr; // module globals by name
void throwException(uint64_t obj, uint64_t ti);   // sets pending unwinding
extern bool g_pendingThrow;
extern uint64_t g_excObj, g_excTi;
std::string backtrace();
extern std::vector<std::string> g_knownIds;
Val callNative(uint64_t fn, CallCtx& c);
extern uint64_t g_stackTop;
uint64_t stackAlloc(uint64_t n, uint64_t align = 16);
extern std::vector<Frame> g_frames;
