// Symbolic expression layer: hash-consed bit-vector DAG with light simplification,
// unsigned ranges and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_HEXU, O_HEXL,                 // hex digit character of a value 0..15
  O_FADD, O_FSUB, O_FMUL, O_FDIV, // on IEEE bits, width 32/64
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO, // ordered comparisons, unordered test
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC
};

struct VarSet { std::vector<uint64_t> bits; };

struct Expr {
  Op op; uint8_t w;      // width in bits, 1..64
  uint32_t id;
  uint64_t k;            // const value / var index / extract low bit
  Expr *a, *b, *c;
  uint64_t lo, hi;       // unsigned range
  int64_t slo, shi;      // signed range
  const VarSet* vs;      // variables occurring
  bool fp;               // contains floating point operations
  mutable uint32_t estamp; mutable uint64_t eval;
};

static inline uint64_t wmask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct SymVar { std::string name; unsigned w; uint64_t lo, hi; };
extern std::vector<SymVar> g_vars;

Expr* eConst(unsigned w, uint64_t v);
Expr* eVar(unsigned w, const std::string& name, uint64_t lo, uint64_t hi);
Expr* eBin(Op op, Expr* a, Expr* b);           // arithmetic and comparisons
Expr* eSub(Expr* a, Expr* b);
Expr* eNot(Expr* a);                            // bitwise not
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eZExt(Expr* a, unsigned w);
Expr* eSExt(Expr* a, unsigned w);
Expr* eUn(Op op, Expr* a, unsigned w);          // conversions, hex digits
static inline bool isC(const Expr* e) { return e->op == O_CONST; }
static inline Expr* eBool(bool b) { return eConst(1, b); }
static inline Expr* eEq(Expr* a, Expr* b) { return eBin(O_EQ, a, b); }

// evaluation under an assignment (index by variable)
uint64_t evalExpr(Expr* e, const std::vector<uint64_t>& asg);
void evalReset();       // must be called when the assignment changes
uint64_t foldOp(Op op, unsigned w, unsigned aw, uint64_t a, uint64_t b);
std::string exprStr(const Expr* e, int depth = 6);
extern uint64_t g_nexpr;
