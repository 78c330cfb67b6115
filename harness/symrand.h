// Replaces the output of the standard generators by fresh symbolic values (every random sequence).
// Uniform distributions return any value of their range, as the standard specifies.
#pragma once
#include <random>
#include "sym.h"
#include "fixrand.h"
namespace std {
template <> inline mt19937::result_type mt19937::operator()() { return sym_u32("rand"); }
template <> inline mt19937_64::result_type mt19937_64::operator()() { return sym_u64("rand64"); }
#define SYM_UNIFORM(T, G) \
  template <> template <> inline T uniform_int_distribution<T>::operator()(G &, const param_type &p) { T v; sym_make(&v, sizeof v, "uniform"); sym_assume((v >= p.a()) & (v <= p.b())); return v; }
SYM_UNIFORM(int, mt19937) SYM_UNIFORM(unsigned, mt19937) SYM_UNIFORM(long, mt19937) SYM_UNIFORM(unsigned long, mt19937)
SYM_UNIFORM(int, mt19937_64) SYM_UNIFORM(unsigned, mt19937_64) SYM_UNIFORM(long, mt19937_64) SYM_UNIFORM(unsigned long, mt19937_64)
#undef SYM_UNIFORM
template <> inline double generate_canonical<double, 53, mt19937_64>(mt19937_64 &) { double v = sym_double("canonical"); sym_assume((dbits(v) < 0x3ff0000000000000ull)); return v; }
template <> inline double generate_canonical<double, 53, mt19937>(mt19937 &) { double v = sym_double("canonical"); sym_assume((dbits(v) < 0x3ff0000000000000ull)); return v; }
}
