// In-process C front end: compiles generated C text to IR inside the current path and links it
// into the running symbolic program. Numeric tokens that contain symbolic digits become
// references to constants that hold the symbolic value.
#include "interp.h"
#include <clang/CodeGen/CodeGenAction.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/TextDiagnosticBuffer.h>
#include <clang/Frontend/TextDiagnosticPrinter.h>
#include <clang/Basic/DiagnosticOptions.h>
#include <clang/Lex/PreprocessorOptions.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/Module.h>
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/Support/TargetSelect.h>
#include <map>
#include <algorithm>
#include <clang/Lex/Preprocessor.h>
#include <clang/Frontend/FrontendActions.h>
#include <sstream>

extern llvm::LLVMContext& engineCtx();
extern void loadDynamic(llvm::Module* m, std::map<std::string, uint64_t>& syms);
extern void logRaw(const std::string& s);

struct Tok { std::string name, type; Expr* v; unsigned w; };
static std::map<std::string, std::string> files;   // path -> text for the next compilation
static std::vector<Tok> toks; static unsigned tokBase = 0;
static std::vector<std::map<std::string, uint64_t>> mods;
static std::string lastErr;

static uint64_t cc1(CallCtx& c, int i) { return concretize(c.a[i], "compile argument"); }
static bool digitLike(Expr* e) { return e->op == O_HEXU || e->op == O_HEXL || (e->lo >= '0' && e->hi <= '9'); }
static bool idc(int ch) { return isalnum(ch) || ch == '_'; }
static Expr* hexv(Expr* x) {
  if (isC(x)) { int k = (int)x->k; return eConst(8, k <= '9' ? k - '0' : (k | 32) - 'a' + 10); }
  if (x->op == O_HEXU || x->op == O_HEXL) return x->a;
  return eSub(x, eConst(8, '0'));
}
// numeric token bytes -> placeholder, false when it is not a form we understand
static bool placeholder(const std::vector<Expr*>& b, std::string& out) {
  size_t i = 0, n = b.size(); bool hex = false;
  if (n > 2 && isC(b[0]) && b[0]->k == '0' && isC(b[1]) && (b[1]->k | 32) == 'x') { hex = true; i = 2; }
  Expr* v = eConst(64, 0); size_t d0 = i;
  for (; i < n; i++) {
    Expr* e = b[i]; bool dig = isC(e) ? (hex ? isxdigit((int)e->k) : isdigit((int)e->k)) != 0 : (hex ? digitLike(e) : (e->lo >= '0' && e->hi <= '9'));
    if (!dig) break;
    Expr* h = eZExt(hexv(e), 64);
    v = hex ? eBin(O_OR, eBin(O_SHL, v, eConst(64, 4)), h) : eBin(O_ADD, eBin(O_MUL, v, eConst(64, 10)), h);
  }
  if (i == d0 || i - d0 > (hex ? 16u : 19u)) return false;
  if (!hex && i < n && isC(b[i]) && b[i]->k == '.') { // decimal fraction: digits / 10^k, exact operands, one rounding
    unsigned fr = 0; double p = 1;
    for (i++; i < n; i++, fr++) {
      Expr* e = b[i]; if (!(isC(e) ? isdigit((int)e->k) != 0 : (e->lo >= '0' && e->hi <= '9'))) return false;
      v = eBin(O_ADD, eBin(O_MUL, v, eConst(64, 10)), eZExt(hexv(e), 64)); p *= 10;
    }
    if (n - 1 - d0 > 18 || fr > 18 || v->hi > (1ull << 53)) return false;
    uint64_t pb; memcpy(&pb, &p, 8);
    Tok t = {"", "double", nullptr, 64}; t.v = eUn(O_UITOFP, v, 64); if (fr) t.v = eBin(O_FDIV, t.v, eConst(64, pb));
    t.name = "__symtok_" + std::to_string(toks.size()); toks.push_back(t); out = t.name; return true;
  }
  if (!hex && i - d0 > 1) { // a leading zero would make it octal
    if (isC(b[d0])) { if (b[d0]->k == '0') return false; }
    else if (branchOn(eEq(b[d0], eConst(8, '0')))) return false;
  }
  bool U = false; int L = 0;
  for (; i < n; i++) { if (!isC(b[i])) return false; int k = (int)b[i]->k | 32; if (k == 'u' && !U) U = true; else if (k == 'l' && L < 2) L++; else return false; }
  Tok t; auto fits = [&](uint64_t mx) { return v->hi <= mx ? true : v->lo > mx ? false : branchOn(eBin(O_ULE, v, eConst(64, mx))); };
  if (!L && !U && fits(0x7fffffff)) t = {"", "int", nullptr, 32};
  else if (!L && (U || hex) && fits(0xffffffff)) t = {"", "unsigned int", nullptr, 32};
  else if (!U && fits(0x7fffffffffffffffull)) t = {"", "long", nullptr, 64};
  else t = {"", "unsigned long", nullptr, 64};
  t.v = eExtract(v, 0, t.w); t.name = "__symtok_" + std::to_string(toks.size());
  toks.push_back(t); out = t.name; return true;
}
static std::string cText(uint64_t p, uint64_t n) {
  std::vector<Expr*> b(n); std::string out;
  bool any = false;
  for (uint64_t i = 0; i < n; i++) { Val v = loadByte(p + i); b[i] = v.e; if (v.e) any = true; else out += (char)v.c; }
  if (!any) return out;
  for (uint64_t i = 0; i < n; i++) if (!b[i]) b[i] = eConst(8, loadByte(p + i).c);
  out.clear();
  auto K = [&](uint64_t i) -> int { return i < n && isC(b[i]) ? (int)b[i]->k : -1; };
  auto fix = [&](uint64_t i) -> char { return (char)concretize(mkV(b[i]), "C text"); };
  enum { CODE, LINE, BLOCK, STR, CHR } st = CODE;
  for (uint64_t i = 0; i < n;) {
    if (!isC(b[i]) && st != CODE) {
      bool plain = digitLike(b[i]);
      if (!plain) {
        Expr* e = b[i]; Expr* sp = eBin(O_OR, eEq(e, eConst(8, '\n')), eBin(O_OR, eEq(e, eConst(8, '\\')), eBin(O_OR, eEq(e, eConst(8, '*')), eBin(O_OR, eEq(e, eConst(8, '/')), eBin(O_OR, eEq(e, eConst(8, '"')), eBin(O_OR, eEq(e, eConst(8, '\r')), eEq(e, eConst(8, 0))))))));
        plain = !branchOn(sp);
      }
      if (plain) { out += 'x'; i++; continue; }
      b[i] = eConst(8, (uint8_t)fix(i));
    }
    int c = K(i);
    if (st == CODE) {
      if (c == '/' && K(i + 1) == '/') { st = LINE; out += "//"; i += 2; continue; }
      if (c == '/' && K(i + 1) == '*') { st = BLOCK; out += "/*"; i += 2; continue; }
      if (c == '"') { st = STR; out += '"'; i++; continue; }
      if (c == '\'') { st = CHR; out += '\''; i++; continue; }
      bool start = c >= 0 ? idc(c) : true;
      if (!start) { out += (char)c; i++; continue; }
      uint64_t j = i; bool sy = false, other = false;
      while (j < n && (isC(b[j]) ? idc((int)b[j]->k) || (b[j]->k == '.' && j > i && isdigit(K(i) < 0 ? '0' : K(i))) : digitLike(b[j]))) { if (!isC(b[j])) sy = true; j++; }
      if (j == i) { out += fix(i); i++; continue; }   // some other symbolic character
      std::string t;
      bool num = isC(b[i]) ? isdigit((int)b[i]->k) != 0 : (b[i]->lo >= '0' && b[i]->hi <= '9');
      if (!sy) { for (uint64_t k = i; k < j; k++) t += (char)b[k]->k; }
      else if (!num || !placeholder(std::vector<Expr*>(b.begin() + i, b.begin() + j), t)) { t.clear(); for (uint64_t k = i; k < j; k++) t += fix(k); }
      (void)other; out += t; i = j; continue;
    }
    if (st == LINE) { if (c == '\n' && !(out.size() && out.back() == '\\')) st = CODE; }
    else if (st == BLOCK) { if (c == '*' && K(i + 1) == '/') { out += "*/"; i += 2; st = CODE; continue; } }
    else if (st == STR) { if (c == '\\' && i + 1 < n) { out += '\\'; out += fix(i + 1); i += 2; continue; } if (c == '"') st = CODE; }
    else if (st == CHR) { if (c == '\\' && i + 1 < n) { out += '\\'; out += fix(i + 1); i += 2; continue; } if (c == '\'') st = CODE; }
    out += (char)c; i++;
  }
  return out;
}
// collects the tokens between the markers after macro expansion
struct CondAction : clang::PreprocessOnlyAction {
  std::vector<std::string> out; bool found = false;
  void ExecuteAction() override {
    auto& PP = getCompilerInstance().getPreprocessor(); PP.EnterMainSourceFile(); clang::Token t; int st = 0;
    for (PP.Lex(t); !t.is(clang::tok::eof); PP.Lex(t)) {
      std::string x = PP.getSpelling(t); if (x == "__symcond_begin") { st = 1; continue; } if (x == "__symcond_end") { found = true; return; } if (st) out.push_back(x);
    }
  }
};
static bool compileWith(clang::FrontendAction& act, const std::string& main, const std::vector<std::string>& opts) {
  using namespace clang;
  const bool cpp = main.size() > 4 && main.substr(main.size() - 4) == ".cpp";
  llvm::IntrusiveRefCntPtr<llvm::vfs::OverlayFileSystem> fs(new llvm::vfs::OverlayFileSystem(llvm::vfs::getRealFileSystem()));
  llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> mem(new llvm::vfs::InMemoryFileSystem);
  for (auto& f : files) mem->addFile("/ccmem/" + f.first, 0, llvm::MemoryBuffer::getMemBufferCopy(f.second, f.first));
  std::string decl; for (auto& t : toks) decl += (cpp ? "extern \"C\" const " : "extern const ") + t.type + " " + t.name + ";\n";
  if (!decl.empty()) mem->addFile("/ccmem/__symtok.h", 0, llvm::MemoryBuffer::getMemBufferCopy(decl, "__symtok.h"));
  fs->pushOverlay(mem);
  std::vector<std::string> a = {"-triple", "x86_64-pc-linux-gnu", "-O0", cpp ? "-std=gnu++17" : "-std=gnu17", "-Wno-everything", "-Wundef", "-mrelocation-model", "pic", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
    "-internal-isystem", "/usr/lib/llvm-18/lib/clang/18/include", "-internal-isystem", "/usr/local/include", "-internal-externc-isystem", "/usr/include/x86_64-linux-gnu", "-internal-externc-isystem", "/usr/include",
    "-fdebug-compilation-dir=/", "-x", cpp ? "c++" : "c"};
  if (cpp) { a.push_back("-fcxx-exceptions"); }
  if (!decl.empty()) { a.push_back("-include"); a.push_back("/ccmem/__symtok.h"); }
  for (auto& o : opts) { if (o.rfind("-I", 0) == 0) { a.push_back("-I"); a.push_back("/ccmem/" + o.substr(2)); } else a.push_back(o); }
  a.push_back("/ccmem/" + main);
  std::vector<const char*> av; for (auto& s : a) av.push_back(s.c_str());
  CompilerInstance CI;
  std::string err; llvm::raw_string_ostream os(err);
  llvm::IntrusiveRefCntPtr<DiagnosticOptions> dop(new DiagnosticOptions);
  auto* pr = new TextDiagnosticPrinter(os, dop.get());
  CI.createDiagnostics(pr, true);
  bool ok = CompilerInvocation::CreateFromArgs(CI.getInvocation(), av, CI.getDiagnostics());
  if (!ok) { os.flush(); lastErr = err; return false; }
  ProcessWarningOptions(CI.getDiagnostics(), CI.getDiagnosticOpts());
  CI.createFileManager(fs);
  CI.createSourceManager(CI.getFileManager());
  bool r = CI.ExecuteAction(act);
  os.flush(); lastErr = err;
  return r;
}
static std::unique_ptr<llvm::Module> compileOne(const std::string& main, const std::vector<std::string>& opts) {
  clang::EmitLLVMOnlyAction act(&engineCtx());
  if (!compileWith(act, main, opts)) return nullptr;
  return act.takeModule();
}
// conditions of #if lines over symbolic numbers: the expanded tokens as an expression, decided by the solver
struct CondParser {
  const std::vector<std::string>& t; size_t i = 0; bool bad = false;
  std::string cur() { return i < t.size() ? t[i] : ""; }
  bool eat(const char* x) { if (cur() == x) { i++; return true; } return false; }
  static Expr* b2(Expr* c) { return eZExt(c, 64); }
  static Expr* nz(Expr* e) { return eNot(eEq(e, eConst(64, 0))); }
  Expr* prim() {
    if (eat("(")) { Expr* e = tern(); if (!eat(")")) bad = true; return e; }
    if (eat("!")) return b2(eEq(prim(), eConst(64, 0)));
    if (eat("-")) return eSub(eConst(64, 0), prim());
    if (eat("+")) return prim();
    if (eat("~")) return eBin(O_XOR, prim(), eConst(64, ~0ull));
    std::string x = cur(); i++;
    if (x.empty()) { bad = true; return eConst(64, 0); }
    if (isdigit((unsigned char)x[0])) { char* e; uint64_t v = strtoull(x.c_str(), &e, 0); while (*e == 'u' || *e == 'U' || *e == 'l' || *e == 'L') e++; if (*e) bad = true; return eConst(64, v); }
    for (auto& k : toks) if (k.name == x) { if (k.type == "double") bad = true; return k.w < 64 ? eZExt(k.v, 64) : k.v; }
    if (x == "defined" || !(isalpha((unsigned char)x[0]) || x[0] == '_')) bad = true;
    return eConst(64, 0);
  }
  Expr* bin(int lv) { // 0: || 1: && 2: | 3: ^ 4: & 5: == != 6: < > <= >= 7: << >> 8: + - 9: * / %
    if (lv == 10) return prim();
    Expr* a = bin(lv + 1);
    for (;;) {
      std::string o = cur(); static const std::vector<std::vector<std::string>> O = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}};
      if (std::find(O[lv].begin(), O[lv].end(), o) == O[lv].end()) return a;
      i++; Expr* b = bin(lv + 1);
      if (o == "||") a = b2(eBin(O_OR, nz(a), nz(b))); else if (o == "&&") a = b2(eBin(O_AND, nz(a), nz(b)));
      else if (o == "|") a = eBin(O_OR, a, b); else if (o == "^") a = eBin(O_XOR, a, b); else if (o == "&") a = eBin(O_AND, a, b);
      else if (o == "==") a = b2(eEq(a, b)); else if (o == "!=") a = b2(eNot(eEq(a, b)));
      else if (o == "<") a = b2(eBin(O_ULT, a, b)); else if (o == ">") a = b2(eBin(O_ULT, b, a)); else if (o == "<=") a = b2(eBin(O_ULE, a, b)); else if (o == ">=") a = b2(eBin(O_ULE, b, a));
      else if (o == "+") a = eBin(O_ADD, a, b); else if (o == "-") a = eSub(a, b); else if (o == "*") a = eBin(O_MUL, a, b);
      else bad = true;
    }
  }
  Expr* tern() { Expr* c = bin(0); if (eat("?")) { Expr* a = tern(); if (!eat(":")) bad = true; Expr* b = tern(); return eIte(nz(c), a, b); } return c; }
};
// the compilation met #if lines over symbolic numbers: decides the first of them (forking when both
// outcomes are possible) and fixes it; false when there is none
static bool resolveCond(const std::string& main, const std::vector<std::string>& opts) {
  size_t p = 0; static const std::string W = " is not defined, evaluates to 0";
  auto giveUp = [] { incomplete("symbolic number in a condition of the generated code"); endPath("cc"); };
  std::istringstream is(lastErr); std::string l;
  while (std::getline(is, l)) {
    if (l.find("warning: '__symtok_") == std::string::npos || l.find(W) == std::string::npos) continue;
    size_t c = l.find(':'); if (c == std::string::npos) continue; std::string f = l.substr(0, c); size_t n = strtoul(l.c_str() + c + 1, nullptr, 10);
    if (f.rfind("/ccmem/", 0) == 0) f = f.substr(7); while ((p = f.find("./")) == 0) f = f.substr(2);
    auto it = files.find(f); if (it == files.end() || n < 1) { giveUp(); return false; }
    std::string& t = it->second; size_t a = 0; for (size_t k = 1; k < n && a != std::string::npos; k++) { a = t.find('\n', a); if (a != std::string::npos) a++; }
    if (a == std::string::npos) { giveUp(); return false; }
    size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size(); std::string line = t.substr(a, e - a); size_t h = line.find("if");
    size_t q = line.find_first_not_of(" \t"); if (q == std::string::npos || line[q] != '#' || h == std::string::npos || line.find_first_not_of(" \t", q + 1) != h || (line.size() && line.back() == '\\') || line.find("defined") != std::string::npos) { giveUp(); return false; }
    std::string cond = line.substr(h + 2), keep = t; t.replace(a, e - a, "__symcond_begin " + cond + " __symcond_end\n#if 0");
    CondAction act; compileWith(act, main, opts); t = keep;
    if (!act.found) { giveUp(); return false; }
    if (getenv("SYMEX_CC")) { for (auto& o : act.out) fprintf(stderr, "%s ", o.c_str()); fprintf(stderr, "\n"); }
    CondParser P{act.out}; Expr* x = P.tern(); if (P.bad || P.i != act.out.size()) { giveUp(); return false; }
    bool v = branchOn(CondParser::nz(x)); t.replace(a, e - a, v ? "#if 1" : "#if 0"); return true;
  }
  return false;
}
static std::vector<std::string> words(const std::string& s, char sep) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, sep)) if (!x.empty()) r.push_back(x); return r; }
void registerCC(void (*reg)(const char*, Builtin)) {
  reg("sym_cc_file", [](CallCtx& c) { std::string p = cstrAt(cc1(c, 0)); uint64_t d = cc1(c, 1), n = cc1(c, 2); files[p] = cText(d, n); c.r(0); });
  reg("sym_cc_reset", [](CallCtx& c) { files.clear(); toks.clear(); });
  reg("sym_cc_compile", [](CallCtx& c) {
    std::string mains = cstrAt(cc1(c, 0)), opts = cstrAt(cc1(c, 1), 65536);
    std::unique_ptr<llvm::Module> all; bool bad = false;
    static bool dbg = getenv("SYMEX_CC") != nullptr;
    for (auto& m : words(mains, ';')) {
      auto x = compileOne(m, words(opts, ' '));
      for (int k = 0; k < 200 && !toks.empty() && resolveCond(m, words(opts, ' ')); k++) x = compileOne(m, words(opts, ' '));
      if (!x) { if (dbg) fprintf(stderr, "%s", lastErr.c_str()); bad = true; break; }
      if (!all) all = std::move(x);
      else if (llvm::Linker::linkModules(*all, std::move(x))) { bad = true; break; }
    }
    if (bad) {
      // with placeholders a failure may be ours: the text is then not decided here
      if (!toks.empty() && lastErr.find("__symtok") != std::string::npos) { incomplete("symbolic number in a constant expression of the generated code"); endPath("cc"); }
      static bool once = false; if (!once) { once = true; std::string e = lastErr.substr(0, 300); std::string o; for (char ch : e) o += ch == '"' || ch == '\\' || (unsigned char)ch < 32 ? ' ' : ch; logRaw("{\"note\":\"generated code rejected: " + o + "\"}"); }
      c.r(0); return;
    }
    mods.emplace_back();
    loadDynamic(all.release(), mods.back());
    for (auto& t : toks) { auto it = mods.back().find(t.name); if (it != mods.back().end()) memStore(it->second, t.w / 8, mkV(t.v), t.w); }
    c.r(mods.size());
  });
  reg("sym_cc_sym", [](CallCtx& c) {
    uint64_t h = cc1(c, 0); std::string n = cstrAt(cc1(c, 1));
    if (!h || h > mods.size()) { c.r(0); return; }
    auto it = mods[h - 1].find(n); c.r(it == mods[h - 1].end() ? 0 : it->second);
  });
}
