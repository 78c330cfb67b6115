// Fixes the initial parameters of policy networks (the properties hold for any parameters; the
// harnesses that are about parameters make them symbolic themselves).
#pragma once
#include <random>
namespace std {
inline double fixed_normal(double mean, double dev) { static unsigned n = 1; n = n * 1103515245u + 12345u; return mean + dev * ((double)((int)((n >> 16) & 31u) - 15) / 16.0); }
template <> template <> inline double normal_distribution<double>::operator()(mt19937_64 &, const param_type &p) { return fixed_normal(p.mean(), p.stddev()); }
template <> template <> inline double normal_distribution<double>::operator()(mt19937 &, const param_type &p) { return fixed_normal(p.mean(), p.stddev()); }
}
