// Interface between a property harness and the symbolic executor.  The same harness is compiled
// natively against replay.cpp to replay a counterexample or a sampled path on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern "C" {
void sym_make(void *p, size_t n, const char *name);     // p[0..n) := fresh symbolic bytes
void sym_assume(int c);
void sym_assert(int c, const char *msg);                // decided by the solver for all values
void sym_fail(const char *msg);
void sym_reach(const char *label);                      // witness that a situation was exercised
void sym_observe(uint64_t v);                           // compared between engine and native replay
uint32_t sym_choice(uint32_t n, const char *name);      // fresh value in [0,n), one path per value
uint8_t sym_ite8(int c, uint8_t a, uint8_t b);
uint32_t sym_ite32(int c, uint32_t a, uint32_t b);
uint64_t sym_ite64(int c, uint64_t a, uint64_t b);
uint64_t sym_concretize(uint64_t v);                    // one path per feasible value
int sym_is_symbolic(const void *p, size_t n);
void sym_on_abort(void (*fn)());                        // called when the program aborts/exits/terminates
void sym_end();                                         // ends the path, property held
void sym_setenv(const char *name, const char *value);   // value may be symbolic text
void sym_run_atexit();                                  // runs destructors of static objects now
void sym_incomplete(const char *why);
int sym_same_number(const char *a, const char *b);      // two texts hold the same number in the same format
int sym_number_is(const char *text, double v, int digits); // the text is the number v, written with at least so many digits
int sym_is_native();
}
static inline uint32_t sym_u32(const char *n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline int sym_int(const char *n) { int v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char *n) { uint64_t v; sym_make(&v, 8, n); return v; }
static inline uint8_t sym_u8(const char *n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline float sym_float(const char *n) { float v; sym_make(&v, 4, n); return v; }
static inline double sym_double(const char *n) { double v; sym_make(&v, 8, n); return v; }
static inline int sym_range(int lo, int hi, const char *n) { int v = sym_int(n); sym_assume((v >= lo) & (v <= hi)); return v; }
static inline int pick(int lo, int hi, const char *n) { return lo + (int)sym_choice((uint32_t)(hi - lo + 1), n); }
static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
// finite (no NaN, no infinity), as one branch-free condition over the bits
static inline int is_finite_f(float f) { return (fbits(f) & 0x7f800000u) != 0x7f800000u; }
static inline int is_finite_d(double f) { return (dbits(f) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
static inline float sym_finite_float(const char *n) { float v = sym_float(n); sym_assume(is_finite_f(v)); return v; }
static inline double sym_finite_double(const char *n) { double v = sym_double(n); sym_assume(is_finite_d(v)); return v; }
