// Symbolic interpreter for LLVM-18 IR.
#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <chrono>
#include <set>
#include <map>
#include <cmath>
using namespace llvm;

Shm* shm;
std::vector<Frame> g_frames;
std::unordered_map<std::string, uint64_t> g_symaddr;
std::vector<std::string> g_knownIds;
bool g_pendingThrow; uint64_t g_excObj, g_excTi;
static std::vector<Func*> funcs;
static std::unordered_map<const Function*, Func*> fmap;
static std::unordered_map<std::string, Callee*> externs;
static std::vector<Callee*> fakeCallees; // index by FBASE offset
static std::unordered_map<const Value*, uint64_t> gaddr;
static std::unique_ptr<Module> M;
static LLVMContext Ctx;
static const DataLayout* DL;
static std::string outDir; static int logFd = -1;
static int tokR = -1, tokW = -1; static bool ownsToken = true;
static double deadline; static uint64_t maxInst = 400000000ull;
static Val* regTop; static Val* regBase; static Val* regEnd;
static bool quiet = false;
static uint64_t symCount = 0;
static int maxViol = 3;
std::map<std::string, int> g_violSeen;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void logLine(const std::string& s) { std::string t = s + "\n"; if (write(logFd, t.data(), t.size()) < 0) {} }
void logRaw(const std::string& s) { logLine(s); }
static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static uint64_t pathInsts = 0, flushedInsts = 0;
static SolverStats flushed;
static void flushStats() {
  shm->insts += pathInsts - flushedInsts; flushedInsts = pathInsts;
  auto& a = S.st;
  shm->queries += a.queries - flushed.queries; shm->qsat += a.sat - flushed.sat; shm->qunsat += a.unsat - flushed.unsat;
  shm->qunk += a.unknown - flushed.unknown; shm->qcached += a.cached - flushed.cached;
  shm->solver_us += (uint64_t)((a.secs - flushed.secs) * 1e6);
  uint64_t mx = (uint64_t)(a.maxsec * 1e6); uint64_t o = shm->qmax_us; while (mx > o && !shm->qmax_us.compare_exchange_weak(o, mx)) {}
  flushed = a;
}
static std::string modelJson(const std::vector<uint64_t>& m);
static std::string endReason;
static void giveTok() { char c = 't'; if (write(tokW, &c, 1) < 0) {} }
static std::vector<std::pair<pid_t, bool>> loans; // children running on this process's right to run
static bool g_incHere = false; // something on this path was given up
[[noreturn]] void endPath(const char* why) {
  flushStats();
  if (!quiet && g_incHere) { uint64_t n = ++shm->incpaths; if (n <= 24 || (n & (n - 1)) == 0) logLine("{\"incpath\":" + modelJson(S.model) + "}"); }
  if (!quiet) { std::string w = why ? why : ""; if (w == "done") { uint64_t n = ++shm->paths; if (n <= 6 || (n & (n - 1)) == 0) logLine("{\"path\":" + modelJson(S.model) + "}"); } else { shm->pruned++; } }
  if (!why || std::string(why) != "done") { static int dbg = getenv("SYMEX_DEBUG") != nullptr; if (dbg) fprintf(stderr, "[%d] path ended: %s\n", getpid(), why ? why : "?"); }
  shm->running--;
  if (ownsToken) giveTok();
  for (auto& l : loans) { int st; while (waitpid(l.first, &st, 0) < 0 && errno == EINTR) {} if (l.second) giveTok(); }
  _exit(0);
}
static std::set<std::string> incSeen;
void incomplete(const std::string& why) {
  g_incHere = true;
  shm->incomplete++;
  if (incSeen.insert(why).second) logLine("{\"inc\":\"" + jesc(why) + "\"}");
}
std::string backtrace() {
  std::string s;
  for (int i = (int)g_frames.size() - 1, n = 0; i >= 0 && n < 12; i--, n++) { s += g_frames[i].f->name; s += " < "; }
  return s;
}
static std::string modelJson(const std::vector<uint64_t>& m) {
  std::string r = "[";
  for (size_t i = 0; i < g_vars.size(); i++) { if (i) r += ","; r += "[\"" + jesc(g_vars[i].name) + "\"," + std::to_string(i < m.size() ? m[i] : g_vars[i].lo) + "]"; }
  return r + "]";
}
void violation(const std::string& kind, const std::string& id, Expr* failing) {
  std::vector<uint64_t> m = S.model;
  if (failing && !isC(failing)) { if (S.check(failing, m) != SatRes::Sat) return; }
  shm->viol++;
  if (++g_violSeen[kind + id] > maxViol) return;
  logLine("{\"viol\":\"" + jesc(id) + "\",\"kind\":\"" + kind + "\",\"model\":" + modelJson(m) + ",\"bt\":\"" + jesc(backtrace()) + "\"}");
}
Expr* toE(Val v, unsigned w) { if (!v.e) return eConst(w, v.c); if (v.e->w == w) return v.e; return v.e->w > w ? eExtract(v.e, 0, w) : eZExt(v.e, w); }
Val mkV(Expr* e) { if (isC(e)) return Val{e->k, nullptr}; return Val{0, e}; }

// ------------------------------------------------------------------ forking
static bool acquireTok() { char c; return read(tokR, &c, 1) == 1; }
static void reapLoans() {
  for (pid_t p; (p = waitpid(-1, nullptr, WNOHANG)) > 0;)
    for (size_t i = 0; i < loans.size(); i++) if (loans[i].first == p) { if (loans[i].second) giveTok(); loans.erase(loans.begin() + (long)i); break; }
}
static bool doFork() { // true in the child
  if (now() > deadline) { incomplete("deadline"); return false; }
  shm->forks++;
  flushStats();
  reapLoans();
  bool tok = acquireTok();
  shm->running++;
  pid_t p = fork();
  if (p < 0) { shm->running--; if (tok) giveTok(); incomplete("fork failed"); return false; }
  if (p == 0) { ownsToken = tok; loans.clear(); S.st.maxsec = 0; return true; }
  if (!tok) { // lend the right to run to the child; go on when it ends or another one becomes free
    loans.push_back({p, ownsToken});
    for (unsigned us = 200;; us = us < 8000 ? us * 2 : us) {
      int st; pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p || (r < 0 && errno == ECHILD)) { ownsToken = loans.back().second; loans.pop_back(); break; }
      if (acquireTok()) { ownsToken = true; break; }
      usleep(us);
    }
  }
  return false;
}
bool branchOn(Expr* c) {
  if (isC(c)) return c->k;
  bool dir = S.ev(c);
  Expr* other = dir ? eNot(c) : c;
  std::vector<uint64_t> m;
  SatRes r = S.check(other, m);
  if (r == SatRes::Unsat) return dir;
  if (r == SatRes::Unknown) { incomplete("solver unknown at a branch"); S.add(dir ? c : eNot(c)); return dir; }
  static const char* fl = getenv("SYMEX_FORKS"); // debugging: appends where paths split
  if (fl) if (FILE* f = fopen(fl, "a")) { fprintf(f, "%s at %s\n", exprStr(c, 7).substr(0, 220).c_str(), backtrace().substr(0, 1200).c_str()); fclose(f); }
  if (doFork()) { S.add(other); S.setModel(std::move(m)); return !dir; }
  S.add(dir ? c : eNot(c));
  return dir;
}
bool branchVal(Val v) { return v.e ? branchOn(v.e->w == 1 ? v.e : eNot(eEq(v.e, eConst(v.e->w, 0)))) : v.c != 0; }
uint64_t concretize(Val v, const char* why) {
  if (!v.e) return v.c;
  for (int n = 0; n < 4096; n++) {
    uint64_t k = S.ev(v.e);
    Expr* eq = eEq(v.e, eConst(v.e->w, k));
    if (isC(eq)) return k;
    std::vector<uint64_t> m;
    SatRes r = S.check(eNot(eq), m);
    if (r == SatRes::Unsat) return k;
    if (r == SatRes::Unknown) { incomplete("solver unknown in concretization"); S.add(eq); return k; }
    if (doFork()) { S.add(eNot(eq)); S.setModel(std::move(m)); continue; } // child takes the other values
    S.add(eq);
    return k;
  }
  incomplete(std::string("concretization cut: ") + why);
  uint64_t k = S.ev(v.e); S.add(eEq(v.e, eConst(v.e->w, k))); return k;
}

// ------------------------------------------------------------------ decoding
static unsigned leaves(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += leaves(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static void leafTypes(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leafTypes(s->getElementType(i), off + l->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leafTypes(a->getElementType(), off + i * sz, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({v->getElementType(), off + i * sz}); return; }
  out.push_back({t, off});
}
static unsigned tw(Type* t) { // width of a scalar
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static bool okScalar(Type* t) { unsigned w = tw(t); return w >= 1 && w <= 64; }

static std::unordered_map<std::string, Func*> overrides;
static Callee* externCallee(const std::string& name) {
  auto& c = externs[name];
  if (c) return c;
  c = new Callee; c->name = name;
  { auto ov = overrides.find(name); if (ov != overrides.end()) { c->f = ov->second; return c; } }
  c->b = findBuiltin(name);
  if (!c->b) { if (auto* F = M->getFunction(name)) if (!F->isDeclaration()) { c->f = fmap[F]; return c; } }
  if (!c->b) c->native = (uint64_t)dlsym(RTLD_DEFAULT, name.c_str());
  return c;
}
static uint64_t fakeAddr(Callee* c) { fakeCallees.push_back(c); return FBASE + (fakeCallees.size() - 1) * 16; }
static std::unordered_map<uint64_t, Callee*> nativeCallees;
static uint64_t funcAddr(const Function* F) {
  auto it = gaddr.find(F); if (it != gaddr.end()) return it->second;
  uint64_t a;
  if (!F->isDeclaration()) { auto* c = new Callee; c->f = fmap[F]; { auto ov = overrides.find(F->getName().str()); if (ov != overrides.end()) c->f = ov->second; } c->name = F->getName().str(); a = fakeAddr(c); }
  else {
    Callee* c = externCallee(F->getName().str());
    a = (c->native && !c->b && !c->f) ? c->native : fakeAddr(c);
    if (c->native && !c->b && !c->f) nativeCallees[c->native] = c;
  }
  gaddr[F] = a; return a;
}
static void constLeaves(const Constant* c, std::vector<uint64_t>& out);
static uint64_t constInt(const Constant* c) {
  std::vector<uint64_t> v; constLeaves(c, v);
  if (v.size() != 1) { fprintf(stderr, "constInt: aggregate\n"); exit(99); }
  return v[0];
}
static void constLeaves(const Constant* c, std::vector<uint64_t>& out) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) { out.push_back(i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().getRawData()[0]); return; }
  if (auto* f = dyn_cast<ConstantFP>(c)) { out.push_back(f->getValueAPF().bitcastToAPInt().getRawData()[0]); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = leaves(t); for (unsigned i = 0; i < n; i++) out.push_back(0); return; }
  if (auto* F = dyn_cast<Function>(c)) { out.push_back(funcAddr(F)); return; }
  if (auto* A = dyn_cast<GlobalAlias>(c)) { constLeaves(A->getAliasee(), out); return; }
  if (auto* G = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(G); out.push_back(it == gaddr.end() ? 0 : it->second); return; }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < a->getNumElements(); i++) constLeaves(a->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (auto& o : c->operands()) constLeaves(cast<Constant>(o), out); return; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off);
        out.push_back(constInt(e->getOperand(0)) + off.getSExtValue()); return;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(constInt(e->getOperand(0))); return;
      case Instruction::PtrToInt: case Instruction::Trunc: out.push_back(constInt(e->getOperand(0)) & wmask(tw(t))); return;
      case Instruction::Sub: out.push_back((constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & wmask(tw(t))); return;
      case Instruction::Add: out.push_back((constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & wmask(tw(t))); return;
      case Instruction::Mul: out.push_back((constInt(e->getOperand(0)) * constInt(e->getOperand(1))) & wmask(tw(t))); return;
      case Instruction::Xor: out.push_back((constInt(e->getOperand(0)) ^ constInt(e->getOperand(1))) & wmask(tw(t))); return;
      case Instruction::Shl: { uint64_t k = constInt(e->getOperand(1)); out.push_back((k > 63 ? 0 : constInt(e->getOperand(0)) << k) & wmask(tw(t))); return; }
      case Instruction::ICmp: {
        unsigned w = tw(e->getOperand(0)->getType()); uint64_t a = constInt(e->getOperand(0)) & wmask(w), b = constInt(e->getOperand(1)) & wmask(w);
        APInt x(w, a), y(w, b); out.push_back(ICmpInst::compare(x, y, (ICmpInst::Predicate)e->getPredicate())); return;
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "unsupported constant: %s\n", s.c_str()); exit(99);
}

struct Decoder {
  Func* f; const Function* F;
  std::unordered_map<const Value*, int32_t> slot;
  std::unordered_map<const BasicBlock*, int32_t> bstart;
  std::vector<std::pair<int, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
  std::vector<Opnd> ops(const Value* v) {
    std::vector<Opnd> r;
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<uint64_t> u; constLeaves(c, u); for (auto x : u) r.push_back(Opnd{-1, x}); return r; }
    auto it = slot.find(v);
    if (it == slot.end()) { r.push_back(Opnd{-1, 0}); return r; }
    unsigned n = leaves(v->getType());
    for (unsigned i = 0; i < n; i++) r.push_back(Opnd{it->second + (int)i, 0});
    return r;
  }
  Opnd op(const Value* v) { auto r = ops(v); return r.empty() ? Opnd{} : r[0]; }
  int poolPut(const std::vector<Opnd>& v) { int o = f->pool.size(); for (auto& x : v) f->pool.push_back(x); return o; }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    f->edges.push_back({-1, 0, 0}); int id = f->edges.size() - 1; fix.push_back({id, {from, to}}); return id;
  }
  void unsup(const Instruction& I) { std::string s; raw_string_ostream os(s); I.print(os); Inst i{}; i.op = I_UNSUP; i.x = f->msgs.size(); f->msgs.push_back(s); f->code.push_back(i); }
  void run() {
    int32_t n = 0;
    for (auto& a : F->args()) { unsigned l = leaves(a.getType()); slot[&a] = n; n += l; f->argLeaves.push_back(l); }
    f->argSlots = n; f->vararg = F->isVarArg();
    for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1u, leaves(I.getType())); }
    f->nslots = n;
    for (auto& B : *F) { bstart[&B] = f->code.size(); for (auto& I : B) inst(I); }
    for (auto& x : fix) {
      auto* from = x.second.first; auto* to = x.second.second;
      int off = f->phis.size();
      for (auto& P : to->phis()) {
        auto v = ops(P.getIncomingValueForBlock(from));
        for (size_t i = 0; i < v.size(); i++) f->phis.push_back({slot[&P] + (int)i, v[i]});
      }
      f->edges[x.first] = {bstart[to], off, (int)f->phis.size() - off};
    }
    f->decoded = true;
  }
  void inst(const Instruction& I) {
    if (isa<PHINode>(I)) return;
    Inst r{}; r.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
    unsigned op_ = I.getOpcode();
    Type* T = I.getType();
    auto push = [&] { f->code.push_back(r); };
    switch (op_) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (!okScalar(T)) return unsup(I);
        r.op = I_BIN; r.sub = op_; r.w = tw(T); r.o[0] = op(I.getOperand(0)); r.o[1] = op(I.getOperand(1)); return push();
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        if (!okScalar(T)) return unsup(I);
        r.op = I_FBIN; r.w = tw(T); r.sub = op_ == Instruction::FAdd ? O_FADD : op_ == Instruction::FSub ? O_FSUB : op_ == Instruction::FMul ? O_FMUL : O_FDIV;
        r.o[0] = op(I.getOperand(0)); r.o[1] = op(I.getOperand(1)); return push();
      case Instruction::FNeg: if (!okScalar(T)) return unsup(I); r.op = I_FNEG; r.w = tw(T); r.o[0] = op(I.getOperand(0)); return push();
      case Instruction::ICmp: {
        if (!okScalar(I.getOperand(0)->getType())) return unsup(I);
        r.op = I_ICMP; r.sub = cast<ICmpInst>(I).getPredicate(); r.w = tw(I.getOperand(0)->getType()); r.o[0] = op(I.getOperand(0)); r.o[1] = op(I.getOperand(1)); return push();
      }
      case Instruction::FCmp: {
        if (!okScalar(I.getOperand(0)->getType())) return unsup(I);
        r.op = I_FCMP; r.sub = cast<FCmpInst>(I).getPredicate(); r.w = tw(I.getOperand(0)->getType()); r.o[0] = op(I.getOperand(0)); r.o[1] = op(I.getOperand(1)); return push();
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
        if (!okScalar(T) || !okScalar(I.getOperand(0)->getType())) return unsup(I);
        r.op = I_CAST; r.sub = op_; r.w = tw(T); r.w2 = tw(I.getOperand(0)->getType()); r.o[0] = op(I.getOperand(0)); return push();
      case Instruction::Freeze: { auto v = ops(I.getOperand(0)); r.op = I_MAGG; r.n = v.size(); r.x = poolPut(v); return push(); }
      case Instruction::Load: {
        r.o[0] = op(I.getOperand(0));
        if (leaves(T) == 1 && okScalar(T)) { r.op = I_LOAD; r.w = tw(T); r.n = DL->getTypeStoreSize(T); return push(); }
        std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(T, 0, lt);
        Opnd p = r.o[0];
        for (size_t i = 0; i < lt.size(); i++) {
          if (!okScalar(lt[i].first)) return unsup(I);
          Inst l{}; l.op = I_LOAD; l.w = tw(lt[i].first); l.n = DL->getTypeStoreSize(lt[i].first); l.dst = slot[&I] + i; l.o[0] = p; l.k = lt[i].second; f->code.push_back(l);
        }
        return;
      }
      case Instruction::Store: {
        auto v = ops(I.getOperand(0)); Type* VT = I.getOperand(0)->getType();
        std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(VT, 0, lt);
        for (size_t i = 0; i < lt.size(); i++) {
          if (!okScalar(lt[i].first)) return unsup(I);
          Inst l{}; l.op = I_STORE; l.dst = -1; l.w = tw(lt[i].first); l.n = DL->getTypeStoreSize(lt[i].first); l.o[0] = op(I.getOperand(1)); l.o[1] = v[i]; l.k = lt[i].second; f->code.push_back(l);
        }
        return;
      }
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        r.op = I_ALLOCA; r.k = DL->getTypeAllocSize(A.getAllocatedType()); r.o[0] = op(A.getArraySize()); r.x = A.getAlign().value(); return push();
      }
      case Instruction::GetElementPtr: {
        if (T->isVectorTy()) return unsup(I);
        r.op = I_GEP; r.o[0] = op(I.getOperand(0)); r.k = 0; r.x = f->geps.size(); r.n = 0;
        for (auto gti = gep_type_begin(I), ge = gep_type_end(I); gti != ge; ++gti) {
          const Value* ix = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) { r.k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = gti.getSequentialElementStride(*DL);
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { r.k += sc * ci->getSExtValue(); continue; }
          f->geps.push_back({op(ix), (uint8_t)tw(ix->getType()), sc}); r.n++;
        }
        return push();
      }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) { r.op = I_BR; r.x = edge(I.getParent(), B.getSuccessor(0)); return push(); }
        r.op = I_CBR; r.o[0] = op(B.getCondition()); r.x = edge(I.getParent(), B.getSuccessor(0)); r.y = edge(I.getParent(), B.getSuccessor(1)); return push();
      }
      case Instruction::Switch: {
        auto& W = cast<SwitchInst>(I); r.op = I_SWITCH; r.o[0] = op(W.getCondition()); r.w = tw(W.getCondition()->getType());
        SwitchInfo si; si.def = edge(I.getParent(), W.getDefaultDest());
        for (auto& c : W.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
        r.x = f->sws.size(); f->sws.push_back(si); return push();
      }
      case Instruction::Ret: { r.op = I_RET; auto* v = cast<ReturnInst>(I).getReturnValue(); if (v) { auto o = ops(v); r.n = o.size(); r.x = poolPut(o); } return push(); }
      case Instruction::Select: {
        r.op = I_SELECT; r.o[0] = op(I.getOperand(0)); auto a = ops(I.getOperand(1)), b = ops(I.getOperand(2));
        if (I.getOperand(0)->getType()->isVectorTy()) return unsup(I);
        std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(T, 0, lt);
        for (size_t i = 0; i < a.size(); i++) { Inst l = r; l.dst = r.dst + i; l.o[1] = a[i]; l.o[2] = b[i]; l.w = tw(lt[i].first); f->code.push_back(l); }
        return;
      }
      case Instruction::ExtractValue: {
        auto& E = cast<ExtractValueInst>(I); auto v = ops(E.getAggregateOperand());
        Type* t = E.getAggregateOperand()->getType(); unsigned off = 0;
        for (unsigned ix : E.indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += leaves(s->getElementType(i)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * leaves(t); } }
        unsigned n = leaves(t); r.op = I_MAGG; r.n = n; std::vector<Opnd> o(v.begin() + off, v.begin() + off + n); r.x = poolPut(o); return push();
      }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I); auto v = ops(E.getAggregateOperand()); auto x = ops(E.getInsertedValueOperand());
        Type* t = T; unsigned off = 0;
        for (unsigned ix : E.indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += leaves(s->getElementType(i)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * leaves(t); } }
        for (size_t i = 0; i < x.size(); i++) v[off + i] = x[i];
        r.op = I_MAGG; r.n = v.size(); r.x = poolPut(v); return push();
      }
      case Instruction::LandingPad: {
        auto& L = cast<LandingPadInst>(I); LandingInfo li; li.cleanup = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) li.cl.push_back({0, constInt(L.getClause(i))}); else li.cl.push_back({1, 0}); }
        r.op = I_LANDING; r.x = f->lands.size(); f->lands.push_back(li); return push();
      }
      case Instruction::Resume: { r.op = I_RESUME; r.o[0] = op(I.getOperand(0)); return push(); }
      case Instruction::Unreachable: r.op = I_UNREACH; return push();
      case Instruction::Fence: return;
      case Instruction::AtomicRMW: {
        auto& A = cast<AtomicRMWInst>(I); r.op = I_RMW; r.sub = A.getOperation(); r.w = tw(T); r.n = DL->getTypeStoreSize(T); r.o[0] = op(A.getPointerOperand()); r.o[1] = op(A.getValOperand()); return push();
      }
      case Instruction::AtomicCmpXchg: {
        auto& A = cast<AtomicCmpXchgInst>(I); r.op = I_CMPXCHG; r.w = tw(A.getNewValOperand()->getType()); r.n = r.w / 8; r.o[0] = op(A.getPointerOperand()); r.o[1] = op(A.getCompareOperand()); r.o[2] = op(A.getNewValOperand()); return push();
      }
      case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I));
      default: return unsup(I);
    }
  }
  void call(const CallBase& C) {
    Inst r{}; r.op = I_CALL; r.dst = C.getType()->isVoidTy() ? -1 : slot[&C];
    CallInfo ci;
    const Value* cv = C.getCalledOperand()->stripPointerCastsAndAliases();
    if (isa<InlineAsm>(cv)) { if (cast<InlineAsm>(cv)->getAsmString().empty()) { if (auto* in = dyn_cast<InvokeInst>(&C)) { r.op = I_BR; r.x = edge(C.getParent(), in->getNormalDest()); f->code.push_back(r); } return; } return unsup(C); }
    if (auto* CF = dyn_cast<Function>(cv)) {
      if (CF->isIntrinsic()) {
        switch (CF->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
          case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: return;
          default: break;
        }
      }
      if (!CF->isDeclaration()) { ci.direct = new Callee; ci.direct->f = fmap[CF]; { auto ov = overrides.find(CF->getName().str()); if (ov != overrides.end()) ci.direct->f = ov->second; } ci.direct->name = CF->getName().str(); }
      else ci.direct = externCallee(CF->getName().str());
    } else ci.fp = op(cv);
    ci.aoff = f->pool.size(); ci.an = 0;
    for (unsigned i = 0; i < C.arg_size(); i++) {
      const Value* a = C.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      auto v = ops(a); ArgInfo ai; ai.off = f->pool.size(); ai.n = v.size(); ai.byval = 0; ai.fp = a->getType()->isFloatingPointTy(); ai.w = tw(a->getType());
      if (C.isByValArgument(i)) ai.byval = DL->getTypeAllocSize(C.getParamByValType(i));
      for (auto& x : v) { f->pool.push_back(x); ci.an++; }
      ci.args.push_back(ai);
    }
    ci.retFP = C.getType()->isFloatingPointTy(); ci.retW = C.getType()->isVoidTy() ? 0 : tw(C.getType()); ci.retN = leaves(C.getType());
    if (auto* in = dyn_cast<InvokeInst>(&C)) { ci.normal = edge(C.getParent(), in->getNormalDest()); ci.unwind = edge(C.getParent(), in->getUnwindDest()); }
    r.x = f->calls.size(); f->calls.push_back(ci); f->code.push_back(r);
  }
};

// ------------------------------------------------------------------ execution
static inline Val get(const Frame& fr, const Opnd& o) { return o.slot >= 0 ? fr.regs[o.slot] : Val{o.c, nullptr}; }
static void takeEdge(Frame& fr, int id) {
  const Edge& e = fr.f->edges[id];
  if (e.n == 1) { auto& p = fr.f->phis[e.off]; fr.regs[p.dst] = get(fr, p.src); }
  else if (e.n > 1) {
    static std::vector<Val> tmp; tmp.resize(e.n);
    for (int i = 0; i < e.n; i++) tmp[i] = get(fr, fr.f->phis[e.off + i].src);
    for (int i = 0; i < e.n; i++) fr.regs[fr.f->phis[e.off + i].dst] = tmp[i];
  }
  fr.pc = e.target;
}
static void pushFrame(Func* f, const std::vector<Val>& args) {
  if (!f->decoded) { Decoder d; d.f = f; d.F = (const Function*)f->llvmF; d.run(); }
  if (!f->hit) { f->hit = true; shm->fhit[f->idx] = 1; }
  if (regTop + f->nslots > regEnd || g_frames.size() > 200000) { violation("crash", "unbounded recursion", nullptr); endPath("recursion"); }
  Frame fr; fr.f = f; fr.regs = regTop; fr.pc = 0; fr.sp = g_stackTop; fr.call = nullptr; fr.varargs = nullptr;
  regTop += f->nslots;
  size_t n = std::min<size_t>(args.size(), f->argSlots);
  for (size_t i = 0; i < n; i++) fr.regs[i] = args[i];
  if (f->vararg) { fr.varargs = new std::vector<Val>(args.begin() + n, args.end()); }
  g_frames.push_back(fr);
}
static void popFrame() {
  Frame& fr = g_frames.back();
  if (g_stackTop > fr.sp) { memset(SH + (fr.sp - ARENA), 0, g_stackTop - fr.sp); g_stackTop = fr.sp; }
  regTop = fr.regs; delete fr.varargs;
  g_frames.pop_back();
}
static std::map<uint64_t, int> tiIds;
static int tiId(uint64_t ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = tiIds.size() + 1; tiIds[ti] = n; return n; }
int tiIdOf(uint64_t t) { return tiId(t); }
bool catchMatch(uint64_t catchTi, uint64_t thrownTi, uint64_t obj, uint64_t* adj);
std::string tiName(uint64_t ti);
uint64_t g_adjObj;
static void unwind() {
  // search phase
  bool caught = false;
  for (int i = (int)g_frames.size() - 1; i >= 0 && !caught; i--) {
    Frame& fr = g_frames[i];
    if (fr.pc >= fr.f->code.size()) continue;
    Inst& in = fr.f->code[fr.pc];
    if (in.op != I_CALL) continue;
    CallInfo& ci = fr.f->calls[in.x];
    if (ci.unwind < 0) continue;
    Inst& lp = fr.f->code[fr.f->edges[ci.unwind].target];
    if (lp.op != I_LANDING) continue;
    for (auto& c : fr.f->lands[lp.x].cl) { uint64_t adj = 0; if (c.kind == 0 && (c.ti == 0 || catchMatch(c.ti, g_excTi, g_excObj, &adj))) { caught = true; break; } if (c.kind == 1) { caught = true; break; } }
  }
  if (!caught) { violation("crash", "uncaught exception " + tiName(g_excTi), nullptr); endPath("uncaught exception"); }
  while (!g_frames.empty()) {
    Frame& fr = g_frames.back();
    Inst& in = fr.f->code[fr.pc];
    if (in.op == I_CALL && fr.f->calls[in.x].unwind >= 0) {
      CallInfo& ci = fr.f->calls[in.x];
      Inst& lp = fr.f->code[fr.f->edges[ci.unwind].target];
      LandingInfo& li = fr.f->lands[lp.x];
      int sel = 0; bool m = false; uint64_t adj = g_excObj;
      for (auto& c : li.cl) if (c.kind == 0 && (c.ti == 0 || catchMatch(c.ti, g_excTi, g_excObj, &adj))) { sel = tiId(c.ti); m = true; break; }
      if (m || li.cleanup || li.cl.empty()) {
        g_adjObj = adj;
        takeEdge(fr, ci.unwind);
        fr.regs[lp.dst] = Val{g_excObj, nullptr}; fr.regs[lp.dst + 1] = Val{(uint64_t)sel, nullptr};
        fr.pc++;
        return;
      }
    }
    popFrame();
  }
  endPath("unwound everything");
}
void throwException(uint64_t obj, uint64_t ti) { g_pendingThrow = true; g_excObj = obj; g_excTi = ti; }

static Expr* icmpE(unsigned p, Expr* a, Expr* b) {
  switch (p) {
    case ICmpInst::ICMP_EQ: return eBin(O_EQ, a, b);
    case ICmpInst::ICMP_NE: return eNot(eBin(O_EQ, a, b));
    case ICmpInst::ICMP_UGT: return eBin(O_ULT, b, a);
    case ICmpInst::ICMP_UGE: return eBin(O_ULE, b, a);
    case ICmpInst::ICMP_ULT: return eBin(O_ULT, a, b);
    case ICmpInst::ICMP_ULE: return eBin(O_ULE, a, b);
    case ICmpInst::ICMP_SGT: return eBin(O_SLT, b, a);
    case ICmpInst::ICMP_SGE: return eBin(O_SLE, b, a);
    case ICmpInst::ICMP_SLT: return eBin(O_SLT, a, b);
    default: return eBin(O_SLE, a, b);
  }
}
static Expr* fcmpE(unsigned p, Expr* a, Expr* b) {
  Expr* uno = eBin(O_FUNO, a, b);
  switch (p) {
    case FCmpInst::FCMP_FALSE: return eBool(false);
    case FCmpInst::FCMP_TRUE: return eBool(true);
    case FCmpInst::FCMP_OEQ: return eBin(O_FOEQ, a, b);
    case FCmpInst::FCMP_OGT: return eBin(O_FOLT, b, a);
    case FCmpInst::FCMP_OGE: return eBin(O_FOLE, b, a);
    case FCmpInst::FCMP_OLT: return eBin(O_FOLT, a, b);
    case FCmpInst::FCMP_OLE: return eBin(O_FOLE, a, b);
    case FCmpInst::FCMP_ONE: return eBin(O_AND, eNot(uno), eNot(eBin(O_FOEQ, a, b)));
    case FCmpInst::FCMP_ORD: return eNot(uno);
    case FCmpInst::FCMP_UNO: return uno;
    case FCmpInst::FCMP_UEQ: return eBin(O_OR, uno, eBin(O_FOEQ, a, b));
    case FCmpInst::FCMP_UGT: return eNot(eBin(O_FOLE, a, b));
    case FCmpInst::FCMP_UGE: return eNot(eBin(O_FOLT, a, b));
    case FCmpInst::FCMP_ULT: return eNot(eBin(O_FOLE, b, a));
    case FCmpInst::FCMP_ULE: return eNot(eBin(O_FOLT, b, a));
    default: return eNot(eBin(O_FOEQ, a, b)); // UNE
  }
}
static Op binOp(unsigned o) {
  switch (o) {
    case Instruction::Add: return O_ADD; case Instruction::Mul: return O_MUL; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV;
    case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR;
    case Instruction::Xor: return O_XOR; case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; default: return O_ASHR;
  }
}
static void runLoop(size_t base) {
  while (g_frames.size() > base) {
    Frame& fr = g_frames.back();
    const Inst& in = fr.f->code[fr.pc];
    if ((++pathInsts & 0xFFFFF) == 0) {
      flushStats();
      if (now() > deadline) { incomplete("deadline"); endPath("deadline"); }
      if (pathInsts > maxInst) { violation("hang", "no termination within the instruction budget", nullptr); endPath("instruction budget"); }
    }
    switch (in.op) {
      case I_BIN: {
        Val a = get(fr, in.o[0]), b = get(fr, in.o[1]);
        unsigned w = in.w; uint64_t M = wmask(w);
        if (!a.e && !b.e) {
          uint64_t r = 0;
          switch (in.sub) {
            case Instruction::Add: r = a.c + b.c; break;
            case Instruction::Sub: r = a.c - b.c; break;
            case Instruction::Mul: r = a.c * b.c; break;
            case Instruction::And: r = a.c & b.c; break;
            case Instruction::Or: r = a.c | b.c; break;
            case Instruction::Xor: r = a.c ^ b.c; break;
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
              if (b.c == 0) { violation("crash", "division by zero", nullptr); endPath("div0"); }
              r = foldOp(binOp(in.sub), w, w, a.c, b.c); break;
            default: r = foldOp(binOp(in.sub), w, w, a.c, b.c);
          }
          fr.regs[in.dst] = Val{r & M, nullptr};
        } else {
          Expr *x = toE(a, w), *y = toE(b, w);
          if (in.sub >= Instruction::UDiv && in.sub <= Instruction::FRem && (in.sub == Instruction::UDiv || in.sub == Instruction::SDiv || in.sub == Instruction::URem || in.sub == Instruction::SRem)) {
            if (branchOn(eEq(y, eConst(w, 0)))) { violation("crash", "division by zero", nullptr); endPath("div0"); }
          }
          Expr* r = in.sub == Instruction::Sub ? eSub(x, y) : eBin(binOp(in.sub), x, y);
          g_frames.back().regs[in.dst] = mkV(r);
        }
        g_frames.back().pc++;
        break;
      }
      case I_ICMP: {
        Val a = get(fr, in.o[0]), b = get(fr, in.o[1]); unsigned w = in.w;
        if (!a.e && !b.e) {
          bool r; int64_t x = sx(a.c, w), y = sx(b.c, w);
          switch (in.sub) {
            case ICmpInst::ICMP_EQ: r = a.c == b.c; break; case ICmpInst::ICMP_NE: r = a.c != b.c; break;
            case ICmpInst::ICMP_UGT: r = a.c > b.c; break; case ICmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case ICmpInst::ICMP_ULT: r = a.c < b.c; break; case ICmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case ICmpInst::ICMP_SGT: r = x > y; break; case ICmpInst::ICMP_SGE: r = x >= y; break;
            case ICmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; break;
          }
          fr.regs[in.dst] = Val{r, nullptr};
        } else fr.regs[in.dst] = mkV(icmpE(in.sub, toE(a, w), toE(b, w)));
        fr.pc++; break;
      }
      case I_FCMP: fr.regs[in.dst] = mkV(fcmpE(in.sub, toE(get(fr, in.o[0]), in.w), toE(get(fr, in.o[1]), in.w))); fr.pc++; break;
      case I_FBIN: fr.regs[in.dst] = mkV(eBin((Op)in.sub, toE(get(fr, in.o[0]), in.w), toE(get(fr, in.o[1]), in.w))); fr.pc++; break;
      case I_FNEG: fr.regs[in.dst] = mkV(eBin(O_XOR, toE(get(fr, in.o[0]), in.w), eConst(in.w, 1ull << (in.w - 1)))); fr.pc++; break;
      case I_CAST: {
        Val a = get(fr, in.o[0]);
        if (!a.e) {
          uint64_t r = a.c;
          switch (in.sub) {
            case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: r &= wmask(in.w); break;
            case Instruction::SExt: r = sx(r, in.w2) & wmask(in.w); break;
            case Instruction::FPToSI: r = foldOp(O_FPTOSI, in.w, in.w2, r, 0); break;
            case Instruction::FPToUI: r = foldOp(O_FPTOUI, in.w, in.w2, r, 0); break;
            case Instruction::SIToFP: r = foldOp(O_SITOFP, in.w, in.w2, r, 0); break;
            case Instruction::UIToFP: r = foldOp(O_UITOFP, in.w, in.w2, r, 0); break;
            case Instruction::FPExt: case Instruction::FPTrunc: r = foldOp(O_FPEXT, in.w, in.w2, r, 0); break;
            default: break;
          }
          fr.regs[in.dst] = Val{r, nullptr};
        } else {
          Expr* x = toE(a, in.w2); Expr* r = x;
          switch (in.sub) {
            case Instruction::Trunc: r = eExtract(x, 0, in.w); break;
            case Instruction::ZExt: r = eZExt(x, in.w); break;
            case Instruction::SExt: r = eSExt(x, in.w); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: r = in.w < in.w2 ? eExtract(x, 0, in.w) : eZExt(x, in.w); break;
            case Instruction::FPToSI: r = eUn(O_FPTOSI, x, in.w); break;
            case Instruction::FPToUI: r = eUn(O_FPTOUI, x, in.w); break;
            case Instruction::SIToFP: r = eUn(O_SITOFP, x, in.w); break;
            case Instruction::UIToFP: r = eUn(O_UITOFP, x, in.w); break;
            case Instruction::FPExt: r = eUn(O_FPEXT, x, in.w); break;
            case Instruction::FPTrunc: r = eUn(O_FPTRUNC, x, in.w); break;
            default: break;
          }
          fr.regs[in.dst] = mkV(r);
        }
        fr.pc++; break;
      }
      case I_LOAD: {
        Val p = get(fr, in.o[0]);
        Val v;
        if (!p.e) v = memLoad(p.c + in.k, in.n, in.w);
        else { if (in.k) p = mkV(eBin(O_ADD, p.e, eConst(64, in.k))); v = memLoadV(p, in.n, in.w); }
        fr.regs[in.dst] = v; fr.pc++; break;
      }
      case I_STORE: {
        Val p = get(fr, in.o[0]); Val v = get(fr, in.o[1]);
        if (!p.e) memStore(p.c + in.k, in.n, v, in.w);
        else { if (in.k) p = mkV(eBin(O_ADD, p.e, eConst(64, in.k))); memStoreV(p, in.n, v, in.w); }
        fr.pc++; break;
      }
      case I_ALLOCA: {
        uint64_t n = concretize(get(fr, in.o[0]), "alloca size");
        fr.regs[in.dst] = Val{stackAlloc(n * in.k, in.x), nullptr}; fr.pc++; break;
      }
      case I_GEP: {
        Val p = get(fr, in.o[0]);
        uint64_t c = p.c + in.k; Expr* e = p.e;
        if (e) { c = in.k; }
        for (int i = 0; i < in.n; i++) {
          auto& g = fr.f->geps[in.x + i]; Val v = get(fr, g.o);
          if (!v.e) c += (uint64_t)(sx(v.c, g.w) * g.scale);
          else { Expr* t = eBin(O_MUL, eSExt(toE(v, g.w), 64), eConst(64, g.scale)); e = e ? eBin(O_ADD, e, t) : t; }
        }
        fr.regs[in.dst] = e ? mkV(eBin(O_ADD, e, eConst(64, c))) : Val{c, nullptr};
        fr.pc++; break;
      }
      case I_BR: takeEdge(fr, in.x); break;
      case I_CBR: {
        Val c = get(fr, in.o[0]);
        bool b = c.e ? branchOn(c.e) : (c.c & 1);
        takeEdge(fr, b ? in.x : in.y); break;
      }
      case I_SWITCH: {
        Val c = get(fr, in.o[0]); SwitchInfo& si = fr.f->sws[in.x];
        int32_t e = si.def;
        if (!c.e) { for (auto& x : si.cases) if (x.first == c.c) { e = x.second; break; } }
        else {
          // group the cases per target edge destination to fork once per target
          std::map<int32_t, std::pair<Expr*, int32_t>> g;
          std::vector<int32_t> order;
          for (auto& x : si.cases) { Expr* q = eEq(toE(c, in.w), eConst(in.w, x.first)); if (isC(q) && !q->k) continue; int32_t t = fr.f->edges[x.second].target; bool plain = fr.f->edges[x.second].n == 0; int32_t key = plain ? t : -x.second - 1; auto it = g.find(key); if (it == g.end()) { g[key] = {q, x.second}; order.push_back(key); } else it->second.first = eBin(O_OR, it->second.first, q); }
          for (int32_t t : order) if (branchOn(g[t].first)) { e = g[t].second; break; }
        }
        takeEdge(fr, e); break;
      }
      case I_RET: {
        Val r[8]; int n = in.n; if (n > 8) { incomplete("large return"); endPath("large return"); }
        for (int i = 0; i < n; i++) r[i] = get(fr, fr.f->pool[in.x + i]);
        popFrame();
        if (g_frames.size() <= base) { return; }
        Frame& c = g_frames.back(); const Inst& ci = c.f->code[c.pc]; CallInfo& info = c.f->calls[ci.x];
        if (ci.dst >= 0) for (int i = 0; i < n; i++) c.regs[ci.dst + i] = r[i];
        if (info.normal >= 0) takeEdge(c, info.normal); else c.pc++;
        break;
      }
      case I_SELECT: {
        Val c = get(fr, in.o[0]), a = get(fr, in.o[1]), b = get(fr, in.o[2]);
        if (!c.e) fr.regs[in.dst] = (c.c & 1) ? a : b;
        else fr.regs[in.dst] = mkV(eIte(c.e, toE(a, in.w), toE(b, in.w)));
        fr.pc++; break;
      }
      case I_MAGG: {
        static std::vector<Val> t; t.resize(in.n);
        for (int i = 0; i < in.n; i++) t[i] = get(fr, fr.f->pool[in.x + i]);
        for (int i = 0; i < in.n; i++) fr.regs[in.dst + i] = t[i];
        fr.pc++; break;
      }
      case I_RMW: {
        Val p = get(fr, in.o[0]); uint64_t a = concretize(p, "rmw");
        Val old = memLoad(a, in.n, in.w), v = get(fr, in.o[1]); Expr *x = toE(old, in.w), *y = toE(v, in.w), *r = y;
        switch (in.sub) { case AtomicRMWInst::Add: r = eBin(O_ADD, x, y); break; case AtomicRMWInst::Sub: r = eSub(x, y); break; case AtomicRMWInst::And: r = eBin(O_AND, x, y); break; case AtomicRMWInst::Or: r = eBin(O_OR, x, y); break; case AtomicRMWInst::Xor: r = eBin(O_XOR, x, y); break; default: break; }
        memStore(a, in.n, mkV(r), in.w); fr.regs[in.dst] = old; fr.pc++; break;
      }
      case I_CMPXCHG: {
        uint64_t a = concretize(get(fr, in.o[0]), "cmpxchg"); Val old = memLoad(a, in.n, in.w);
        bool eq = branchOn(eEq(toE(old, in.w), toE(get(fr, in.o[1]), in.w)));
        if (eq) memStore(a, in.n, get(fr, in.o[2]), in.w);
        fr.regs[in.dst] = old; fr.regs[in.dst + 1] = Val{eq, nullptr}; fr.pc++; break;
      }
      case I_RESUME: {
        popFrame();
        unwind();
        break;
      }
      case I_UNREACH: violation("crash", "unreachable code reached", nullptr); endPath("unreachable");
      case I_UNSUP: incomplete("unsupported instruction: " + fr.f->msgs[in.x]); endPath("unsupported instruction");
      case I_CALL: {
        CallInfo& ci = fr.f->calls[in.x];
        Callee* cal = ci.direct; 
        static Callee tmpNative;
        if (!cal) {
          uint64_t fp = concretize(get(fr, ci.fp), "indirect call");
          if (fp >= FBASE && fp < FBASE + fakeCallees.size() * 16 && (fp & 15) == 0) cal = fakeCallees[(fp - FBASE) / 16];
          else {
            auto it = nativeCallees.find(fp);
            if (it != nativeCallees.end()) cal = it->second;
            else {
              Dl_info di;
              if (fp > 65536 && dladdr((void*)fp, &di) && di.dli_sname) { Callee* c = new Callee; c->name = di.dli_sname; c->b = findBuiltin(c->name); c->native = fp; { auto ov = overrides.find(c->name); if (ov != overrides.end()) c->f = ov->second; } nativeCallees[fp] = c; cal = c; }
              else if (fp > 65536 && dladdr((void*)fp, &di) && di.dli_fname) { Callee* c = new Callee; c->name = "?native"; c->native = fp; nativeCallees[fp] = c; cal = c; }
              else { violation("mem", "call through an invalid pointer", nullptr); endPath("bad call"); }
            }
          }
        }
        if (cal->f) {
          static std::vector<Val> args; args.clear();
          for (auto& a : ci.args) {
            if (a.byval) { uint64_t d = stackAlloc(a.byval); memCopy(d, concretize(get(fr, fr.f->pool[a.off]), "byval"), a.byval); args.push_back(Val{d, nullptr}); continue; }
            for (int i = 0; i < a.n; i++) args.push_back(get(fr, fr.f->pool[a.off + i]));
          }
          pushFrame(cal->f, args);
          break;
        }
        CallCtx cc; cc.ci = &ci; cc.name = &cal->name; cc.callee = cal;
        for (auto& a : ci.args) {
          if (a.byval) { uint64_t d = stackAlloc(a.byval); memCopy(d, concretize(get(fr, fr.f->pool[a.off]), "byval"), a.byval); cc.a.push_back(Val{d, nullptr}); cc.aw.push_back(64); cc.af.push_back(false); continue; }
          for (int i = 0; i < a.n; i++) { cc.a.push_back(get(fr, fr.f->pool[a.off + i])); cc.aw.push_back(a.w); cc.af.push_back(a.fp); }
        }
        g_pendingThrow = false;
        size_t depth = g_frames.size(); (void)depth;
        if (cal->b) cal->b(cc);
        else if (cal->native) { Val v = callNative(cal->native, cc); if (!g_pendingThrow) { cc.ret[0] = v; cc.nret = std::max(cc.nret, 1); } }
        else { incomplete("unresolved external " + cal->name); endPath(("unresolved " + cal->name).c_str()); }
        if (g_pendingThrow) { g_pendingThrow = false; unwind(); break; }
        Frame& f2 = g_frames.back();
        if (in.dst >= 0) for (int i = 0; i < std::max<int>(1, ci.retN); i++) f2.regs[in.dst + i] = i < cc.nret ? cc.ret[i] : Val{};
        if (in.dst >= 0 && ci.retN <= 1 && !f2.regs[in.dst].e && ci.retW) f2.regs[in.dst].c &= wmask(ci.retW);
        if (ci.normal >= 0) takeEdge(f2, ci.normal); else f2.pc++;
        break;
      }
      default: incomplete("bad opcode"); endPath("bad opcode");
    }
  }
}
// synchronous call of an interpreted function by name (used by models)
std::vector<Val> callByAddr(uint64_t, std::vector<Val>) { return {}; }

// ------------------------------------------------------------------ loading
static std::set<const GlobalVariable*> natGlobals;
static uint64_t globTop = ARENA + 64;
static void loadGlobals(Module* M, bool dynamic = false, std::map<std::string, uint64_t>* syms = nullptr) {
  uint64_t& top = globTop;
  for (auto& F : *M) {
    if (dynamic && F.isDeclaration()) continue;
    auto* f = new Func; f->name = F.getName().str(); f->idx = dynamic ? (1 << 17) - 1 : funcs.size(); f->llvmF = &F; f->hasBody = !F.isDeclaration();
    if (auto* sp = F.getSubprogram()) f->file = (sp->getDirectory() + "/" + sp->getFilename()).str();
    if (!dynamic) funcs.push_back(f);
    fmap[&F] = f;
    if (!dynamic && F.getName().starts_with("sym_override_")) overrides[F.getName().substr(13).str()] = f;
  }
  for (auto& G : M->globals()) {
    if (G.isDeclaration()) {
      std::string n = G.getName().str();
      uint64_t a = dynamic && g_symaddr.count(n) ? g_symaddr[n] : dynamic && !n.compare(0, 9, "__symtok_") ? 0 : (uint64_t)dlsym(RTLD_DEFAULT, n.c_str());
      if (!a && dynamic) { uint64_t sz = std::max<uint64_t>(8, DL->getTypeAllocSize(G.getValueType())); a = (top + 31) & ~15ull; top = a + sz + 32; memset(SH + (a - ARENA), 1, sz); memset((void*)a, 0, sz); (*syms)[n] = a; }
      if (!a) { // weak or missing: a private zero object
        uint64_t sz = 4096; a = (top + 31) & ~15ull; top = a + sz + 32; memset(SH + (a - ARENA), 1, sz);
        if (n != "__dso_handle") fprintf(stderr, "warning: unresolved global %s\n", n.c_str());
      }
      gaddr[&G] = a; continue;
    }
    { std::string n = G.getName().str(); // locale facet ids live in the C++ library
      if (n.size() > 8 && n.compare(0, 4, "_ZNS") == 0 && n.compare(n.size() - 4, 4, "2idE") == 0) if (void* a = dlsym(RTLD_DEFAULT, n.c_str())) { gaddr[&G] = (uint64_t)a; natGlobals.insert(&G); continue; } }
    uint64_t sz = DL->getTypeAllocSize(G.getValueType()), al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
    uint64_t a = (top + 16 + al - 1) & ~(al - 1); top = a + ((sz + 15) & ~15ull) + 16;
    if (top > STACK0) { fprintf(stderr, "globals too large\n"); exit(99); }
    memset(SH + (a - ARENA), 1, sz); gaddr[&G] = a;
    if (dynamic) (*syms)[G.getName().str()] = a; else g_symaddr[G.getName().str()] = a;
  }
  for (auto& G : M->globals()) if (!G.isDeclaration() && G.hasInitializer() && !natGlobals.count(&G)) {
    std::vector<std::pair<Type*, uint64_t>> lt;
    if (auto* cds = dyn_cast<ConstantDataSequential>(G.getInitializer())) { auto s = cds->getRawDataValues(); memcpy((void*)gaddr[&G], s.data(), s.size()); continue; }
    if (isa<ConstantAggregateZero>(G.getInitializer())) { memset((void*)gaddr[&G], 0, DL->getTypeAllocSize(G.getValueType())); continue; }
    memset((void*)gaddr[&G], 0, DL->getTypeAllocSize(G.getValueType()));
    leafTypes(G.getValueType(), 0, lt); std::vector<uint64_t> v; constLeaves(G.getInitializer(), v);
    for (size_t i = 0; i < lt.size() && i < v.size(); i++) memcpy((void*)(gaddr[&G] + lt[i].second), &v[i], std::min<uint64_t>(8, DL->getTypeStoreSize(lt[i].first)));
  }
}
LLVMContext& engineCtx() { return Ctx; }
static std::unordered_map<std::string, const Function*> mainFns;
void loadDynamic(Module* m, std::map<std::string, uint64_t>& syms) {
  loadGlobals(m, true, &syms);
  for (auto& F : *m) if (!F.isDeclaration() && !F.hasLocalLinkage()) syms[F.getName().str()] = funcAddr(&F);
}
static void segv(int sig, siginfo_t* si, void*) {
  static bool in = false; if (in) _exit(98); in = true;
  char b[96]; snprintf(b, sizeof b, "%s", sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic trap" : "abort");
  violation(sig == SIGABRT ? "engine" : "mem", b, nullptr);
  if (sig == SIGABRT) incomplete("engine abort");
  endPath("signal");
}
int main(int argc, char** argv) {
  std::string bc, entry = "harness"; int jobs = 8; double secs = 300; uint64_t rl = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--out=", 0) == 0) outDir = a.substr(6);
    else if (a.rfind("--entry=", 0) == 0) entry = a.substr(8);
    else if (a.rfind("--jobs=", 0) == 0) jobs = atoi(a.c_str() + 7);
    else if (a.rfind("--secs=", 0) == 0) secs = atof(a.c_str() + 7);
    else if (a.rfind("--rlimit=", 0) == 0) rl = strtoull(a.c_str() + 9, 0, 10);
    else if (a.rfind("--maxinst=", 0) == 0) maxInst = strtoull(a.c_str() + 10, 0, 10);
    else if (a.rfind("--known=", 0) == 0) { std::string k = a.substr(8); size_t p; while ((p = k.find(',')) != std::string::npos) { g_knownIds.push_back(k.substr(0, p)); k = k.substr(p + 1); } if (!k.empty()) g_knownIds.push_back(k); }
    else bc = a;
  }
  if (bc.empty() || outDir.empty()) { fprintf(stderr, "usage: symex file.bc --out=dir [--entry= --jobs= --secs= --rlimit= --known=a,b]\n"); return 2; }
  mkdir(outDir.c_str(), 0755);
  logFd = open((outDir + "/log.jsonl").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now(); deadline = t0 + secs;
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx);
  if (!M) { err.print("symex", errs()); return 2; }
  DL = &M->getDataLayout();
  memInit(); registerBuiltins(); registerCC(regBuiltin); loadGlobals(M.get());
  S.rlimit = rl; S.init();
  size_t rn = (256ull << 20) / sizeof(Val);
  regBase = regTop = (Val*)mmap(nullptr, rn * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); regEnd = regBase + rn;
  g_frames.reserve(200100);
  const Function* E = M->getFunction(entry);
  if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  for (auto* f : funcs) if (f->hasBody) { Decoder d; d.f = f; d.F = (const Function*)f->llvmF; d.run(); }
  // constructors
  std::vector<std::pair<uint64_t, Func*>> ctors;
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fmap[F]}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  double t1 = now();
  int pf[2]; if (pipe2(pf, O_NONBLOCK) < 0) return 2; tokR = pf[0]; tokW = pf[1];
  for (int i = 1; i < jobs; i++) if (write(tokW, "t", 1) < 0) {}
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  fflush(stdout); fflush(stderr);
  shm->running = 1;
  pid_t w = fork();
  if (w == 0) {
    prctl(PR_SET_CHILD_SUBREAPER, 0);
    setpgid(0, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    for (auto& c : ctors) { pushFrame(c.second, {}); runLoop(0); }
    shm->insts = 0;
    pushFrame(fmap[E], {}); runLoop(0);
    endPath("done");
  }
  // supervise
  bool killed = false;
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0 && errno == ECHILD) break;
    if (p > 0) { if (WIFSIGNALED(st) && !killed) { shm->incomplete++; logLine("{\"inc\":\"worker killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); } continue; }
    if (now() > deadline + 5 && !killed) { killed = true; incomplete("deadline"); kill(-w, SIGKILL); }
    usleep(2000);
  }
  // report
  FILE* o = fopen((outDir + "/stats.json").c_str(), "w");
  fprintf(o, "{\"paths\":%lu,\"pruned\":%lu,\"insts\":%lu,\"forks\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%lu,\"asserts_concrete\":%lu,\"asserts_solved\":%lu,\"violations\":%lu,\"incomplete\":%lu,\"load_s\":%.2f,\"wall_s\":%.2f,\n\"functions\":[",
    shm->paths.load(), shm->pruned.load(), shm->insts.load(), shm->forks.load(), shm->queries.load(), shm->qsat.load(), shm->qunsat.load(), shm->qunk.load(), shm->qcached.load(), shm->solver_us / 1e6, shm->qmax_us / 1e6, shm->asserts.load(), shm->asserts_conc.load(), shm->asserts_solved.load(), shm->viol.load(), shm->incomplete.load(), t1 - t0, now() - t0);
  bool first = true; size_t nf = 0;
  for (auto* f : funcs) if (shm->fhit[f->idx]) { nf++; if (f->file.find("/src/") == std::string::npos && f->file.find("repo") == std::string::npos) continue; int stt; char* d = abi::__cxa_demangle(f->name.c_str(), 0, 0, &stt); if (!first) fprintf(o, ","); first = false; fprintf(o, "[\"%s\",\"%s\"]", jesc(d ? d : f->name.c_str()).c_str(), jesc(f->file).c_str()); free(d); }
  fprintf(o, "],\"functions_total\":%zu}\n", nf);
  fclose(o);
  _exit(0);
}
