// Native implementation of the harness interface: replays one solver assignment against the
// real code compiled for this machine, and compiles generated C with a real C compiler.
#include "../engine/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <cmath>
#include <dlfcn.h>
#include <unistd.h>
#include <ctime>
#include <new>
static std::map<std::string, std::deque<uint64_t>> vals;
static int g_fill = -1; static uint64_t g_time = 0;
static bool g_exitOk = false, g_done = false;
static void say(const char* k, const char* id) { fflush(stdout); fprintf(stderr, "\nREPLAY %s %s\n", k, id); fflush(stderr); }
[[noreturn]] static void leave(int rc) { g_done = true; _exit(rc); }
extern "C" {
void ENTRY(void);
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi) {
  if (lo == hi) return lo;
  auto& q = vals[name]; if (q.empty()) return lo;
  uint64_t v = q.front(); q.pop_front(); return v < lo || v > hi ? lo : v;
}
void sym_bytes(void* p, size_t n, const char* name, uint64_t lo, uint64_t hi) {
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)sym_u64((std::string(name) + "[" + std::to_string(i) + "]").c_str(), lo, hi);
}
void sym_assume(int c) { if (!c) { say("ASSUME", "false"); leave(0); } }
void sym_assert(int c, const char* id) { if (!c) { say("ASSERT-FAIL", id); leave(3); } }
void sym_assert_known(int c, const char* id, const char* finding, int region) { if (c) return; if (region) { say("KNOWN-FAIL", finding); leave(4); } say("ASSERT-FAIL", id); leave(3); }
void sym_cover(const char*) {}
void sym_fail(const char* id) { sym_assert(0, id); }
void sym_unsupported(const char* why) { say("UNSUPPORTED", why); leave(0); }
int sym_known(const char* f) { const char* k = getenv("SYM_KNOWN"); return k && (std::string(",") + k + ",").find(std::string(",") + f + ",") != std::string::npos; }
int sym_native(void) { return 1; }
uint64_t sym_concretize(uint64_t v) noexcept { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_must(int c) { return c; }
void sym_note(const char* s) { say("NOTE", s); }
void sym_allow_exit(void) { g_exitOk = true; }
static void __attribute__((noinline)) dirty(int v) { volatile char b[200000]; memset((void*)b, v, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
void sym_environment(uint64_t fill, uint64_t time) { g_fill = (int)fill; g_time = time; dirty(g_fill); }
time_t time(time_t* p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); time_t r = g_time ? (time_t)g_time : t.tv_sec; if (p) *p = r; return r; }
static std::string ccdir() { return "cc.tmp"; }
static int ccn = 0;
void sym_cc_file(const char* path, const char* text, size_t n) {
  std::filesystem::path p = ccdir() + "/" + path; std::filesystem::create_directories(p.parent_path());
  std::ofstream o(p, std::ios::binary); o.write(text, (std::streamsize)n);
}
void sym_cc_reset(void) { std::filesystem::remove_all(std::filesystem::path(ccdir())); }
uint64_t sym_cc_compile(const char* mains, const char* opts) {
  std::string so = "./cc" + std::to_string(ccn++) + ".so", fl, objs;
  std::stringstream a(opts); std::string w;
  while (a >> w) fl += " " + (w.rfind("-I", 0) == 0 ? "-I" + ccdir() + "/" + w.substr(2) : w);
  const std::string cc = "clang-18 -w -g -O1 -fPIC -fsanitize=address,undefined -fno-sanitize-recover=undefined ";
  std::stringstream b(mains); int k = 0;
  while (std::getline(b, w, ';')) if (!w.empty()) {
    std::string o = so + std::to_string(k++) + ".o"; bool cpp = w.size() > 4 && w.substr(w.size() - 4) == ".cpp"; objs += " " + o;
    if (system((cc + (cpp ? "-std=gnu++17" : "-std=gnu17") + fl + " -c " + ccdir() + "/" + w + " -o " + o + " 1>&2").c_str()) != 0) return 0;
  }
  if (system((cc + "-shared -o " + so + objs + " 1>&2").c_str()) != 0) return 0;
  void* h = dlopen(so.c_str(), RTLD_LAZY | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 0; }
  return (uint64_t)h;
}
void* sym_cc_sym(uint64_t h, const char* name) { return h ? dlsym((void*)h, name) : nullptr; }
}
// fresh memory holds the chosen byte
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); if (g_fill >= 0) memset(p, g_fill, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void atEnd() { if (g_done) return; if (g_exitOk) { say("DONE", "exit"); _exit(0); } say("CRASH", "exit called"); _exit(5); }
int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/null"); std::string line;
  while (std::getline(f, line)) { size_t p = line.rfind(' '); if (p == std::string::npos) continue; vals[line.substr(0, p)].push_back(strtoull(line.c_str() + p + 1, 0, 10)); }
  if (argc > 2) { std::filesystem::create_directories(argv[2]); if (chdir(argv[2])) return 9; }
  freopen("/dev/null", "w", stdout);
  atexit(atEnd);
  try { ENTRY(); } catch (std::exception& e) { say("CRASH", (std::string("uncaught exception: ") + e.what()).c_str()); leave(5); }
  say("DONE", "harness"); leave(0);
}
