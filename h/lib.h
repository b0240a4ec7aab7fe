// Common harness support: the tool is driven through its own main() on DBC text in the
// (in-memory, or in a replay: scratch) file system; its output is compiled by a C compiler and
// linked into the running program.
#pragma once
#include "../engine/sym.h"
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <sys/stat.h>

#ifdef NATIVE_REPLAY
extern "C" int repo_main(int argc, char** argv) asm("repo_main");
#else
extern "C" int repo_main(int argc, char** argv) asm("main");
#endif
typedef std::string S;
static inline void put(const S& path, const S& text) { std::ofstream f(path, std::ios::out); f << text; f.close(); }
static inline bool isfile(const S& p) { struct stat st; return stat(p.c_str(), &st) == 0 && !(st.st_mode & S_IFDIR); }
static inline bool isdir(const S& p) { struct stat st; return stat(p.c_str(), &st) == 0 && (st.st_mode & S_IFDIR); }
static inline S get(const S& path) { std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
static inline S num(long long v) { char b[24]; int n = 0; bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; char t[24]; do { t[n++] = (char)('0' + u % 10); u /= 10; } while (u); int k = 0; if (neg) b[k++] = '-'; while (n) b[k++] = t[--n]; return S(b, (size_t)k); }
static inline S unum(unsigned long long u) { char b[24]; int n = 0; char t[24]; do { t[n++] = (char)('0' + u % 10); u /= 10; } while (u); int k = 0; while (n) b[k++] = t[--n]; return S(b, (size_t)k); }
// runs the tool's own main()
static inline int run(const std::vector<S>& args) {
  std::vector<S> st = args; st.insert(st.begin(), "coderdbc");
  std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  return repo_main((int)st.size(), av.data());
}
static inline void gen(const S& dbc, const S& drv = "drv", const std::vector<S>& more = {}) {
  put("in.dbc", dbc);
  std::vector<S> a = {"-dbc", "in.dbc", "-out", "out", "-drvname", drv, "-rw"};
  for (auto& x : more) a.push_back(x);
  run(a);
}
static inline S lower(S s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static inline S upper(S s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
static inline void ccadd(const S& path, const S& text) { sym_cc_file(path.c_str(), text.data(), text.size()); }
static inline void ccadd_if(const S& base, const S& path) { if (isfile(base + "/" + path)) ccadd(path, get(base + "/" + path)); }
// registers the generated sources of a driver found in directory base
static inline void ccdriver(const S& drv, const S& base = "out") {
  S d = lower(drv);
  for (const char* x : {".h", ".c", "-fmon.h"}) ccadd_if(base, "lib/" + d + x);
  ccadd_if(base, "usr/" + d + "-fmon.c"); ccadd_if(base, "conf/" + d + "-config.h"); ccadd_if(base, "conf/dbccodeconf.h");
  ccadd_if(base, "inc/canmonitorutil.h"); ccadd_if(base, "butl/" + d + "-binutil.h"); ccadd_if(base, "butl/" + d + "-binutil.c");
}
#define CCINC "-Ilib -Iinc -Iconf -Iusr -Ibutl -I. "
// text of the optional user part a project adds to dbccodeconf.h
static inline S ctypes(const S& body) { return "#include <stdint.h>\n" + body; }
template<class F> static inline F sym_as(uint64_t h, const char* n) { return (F)sym_cc_sym(h, n); }
static inline S field_shim(const S& msg, const S& f, const S& tag) {
  return "uint64_t get_" + tag + "(" + msg + "_t* m) { return (uint64_t) m->" + f + "; }\n"
         "void set_" + tag + "(" + msg + "_t* m, uint64_t v) { m->" + f + " = v; }\n";
}
static inline S type_shim(const S& msg, const S& f, const S& tag) { // not for bit fields
  return "int size_" + tag + "(void) { return sizeof(((" + msg + "_t*)0)->" + f + "); }\n"
         "int sgn_" + tag + "(void) { return ((__typeof__(((" + msg + "_t*)0)->" + f + ")) -1) < 0; }\n";
}
static inline S size_shim(const S& msg) { return "int sizeof_" + msg + "(void) { return sizeof(" + msg + "_t); }\n"; }
// decimal text of a symbolic number with exactly n digits
static inline S dectext(uint64_t v, int n) {
  S r((size_t)n, '0');
  for (int i = n - 1; i >= 0; i--) { r[(size_t)i] = (char)('0' + (i ? v % 10 : v)); v /= 10; }
  return r;
}
static inline uint64_t p10(int n) { uint64_t p = 1; while (n--) p *= 10; return p; }
// any number of n decimal digits (not more than max); val receives it
static inline S symdec(const S& name, int n, uint64_t& val, uint64_t max = ~0ull) {
  uint64_t hi = n >= 20 ? ~0ull : p10(n) - 1; if (hi > max) hi = max;
  val = sym_u64(name.c_str(), n > 1 ? p10(n - 1) : 0, hi);
  return dectext(val, n);
}
// identifier text of a DBC message with any identifier of n decimal digits (n = 1..9; 29 bit)
static inline S symid(const S& name, bool ext, int n, uint64_t& id29) {
  S t = symdec(name, n, id29, 0x1FFFFFFF);
  return ext ? dectext(id29 + 0x80000000ull, 10) : t;
}
// symbolic C identifier of n characters; letters only where cls is 1 (fewer cases), one letter case where 2
static inline bool idchar(unsigned char c, bool first) { return (c >= 'A' & c <= 'Z') | (c >= 'a' & c <= 'z') | (c == '_') | (!first & (c >= '0' & c <= '9')); }
static inline S symident(const S& name, int n, int cls = 0) {
  S r((size_t)n, 'x');
  for (int i = 0; i < n; i++) {
    unsigned char c = (unsigned char)sym_u64((name + "#" + num(i)).c_str(), cls == 2 ? 'a' : cls == 1 || !i ? 'A' : '0', 'z');
    if (cls == 1) sym_assume((c <= 'Z') | (c >= 'a')); else if (cls == 0) sym_assume(idchar(c, i == 0));
    r[(size_t)i] = (char)c;
  }
  return r;
}
static inline bool same(const S& a, const S& b) { if (a.size() != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
