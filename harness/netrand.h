// As fixrand.h, and the probabilities given to the sampler are kept where a harness can see them.
#pragma once
#include "fixrand.h"
#include <vector>
namespace std {
inline vector<double> &sampled_from() { static vector<double> v; return v; }
inline int &sampled_count() { static int n = 0; return n; }
template <> template <> inline int discrete_distribution<int>::operator()(mt19937_64 &, const param_type &p) { sampled_from() = p.probabilities(); sampled_count()++; return 0; }
template <> template <> inline int discrete_distribution<int>::operator()(mt19937 &, const param_type &p) { sampled_from() = p.probabilities(); sampled_count()++; return 0; }
}
