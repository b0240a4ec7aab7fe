// Interface between harnesses and the symbolic engine. Natively (replay) the same
// functions are implemented by replay.cpp, which reads the solver's assignment.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
#define SYM_NOEXCEPT noexcept
extern "C" {
#else
#define SYM_NOEXCEPT
#endif
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi); // any value lo..hi
void sym_bytes(void* p, size_t n, const char* name, uint64_t lo, uint64_t hi);
void sym_assume(int c);
void sym_assert(int c, const char* id);                       // must hold for every value
void sym_assert_known(int c, const char* id, const char* finding, int region); // known finding inside region
void sym_cover(const char* id);                               // reachability witness
void sym_fail(const char* id);                                // same as sym_assert(0,id); ends the path
void sym_unsupported(const char* why);                        // gives the path up, recorded as incomplete
int sym_known(const char* finding);
int sym_native(void);                                         // 0 in the engine, 1 in a replay
uint64_t sym_concretize(uint64_t v) SYM_NOEXCEPT;                          // forks over all values
int sym_is_symbolic(uint64_t v);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_must(int c);                                          // 1 when c holds for every value (no fork)
char sym_hexdig(unsigned v, int upper);
int sym_hex_known(int c);                                     // c is known to be a hex digit without forking
unsigned sym_hexval(int c);
int sym_dec_parts(double v, uint64_t* n, int* k);             // v == +-n/10^k exactly representable family; returns 1/-1, 0 unknown
void sym_allow_exit(void);                                    // the harness expects the program to call exit()
void sym_cc_file(const char* path, const char* text, size_t n); // adds a C source file for the next compilation
void sym_cc_reset(void);
uint64_t sym_cc_compile(const char* mains, const char* opts); // "a.c;b.c" -> handle, 0 when the C compiler rejects it
void* sym_cc_sym(uint64_t h, const char* name);
void sym_note(const char* s);
void sym_environment(uint64_t fill, uint64_t time);           // byte that fresh memory holds from now on, and the clock
#ifdef __cplusplus
}
#endif
