// Shared helpers of the property harnesses.  Oracles are branch-free where possible, so that one
// solver query covers all values.
#pragma once
#include <unistd.h>
#include <sys/stat.h>
#include <memory>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "apollo/Apollo.h"
#include "apollo/Config.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/PolicyModel.h"
#include "apollo/Region.h"
#include "apollo/models/RoundRobin.h"
#include "apollo/models/Static.h"
#include "apollo/models/Random.h"
#include "apollo/models/DecisionTree.h"
#include "apollo/models/RandomForest.h"
#include "apollo/models/DatasetMap.h"
#include "apollo/models/Optimal.h"
#include "apollo/models/PolicyNet.h"
#include "sym.h"

typedef std::vector<float> FV;
typedef std::tuple<FV, int, double> Meas;
typedef std::unordered_map<std::string, std::string> Params;

// one condition: the feature vectors are equal as values
static inline int fv_eq(const FV &a, const FV &b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= (int)(a[i] == b[i]);
  return r;
}
static inline int fv_same_bits(const FV &a, const FV &b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= (int)(fbits(a[i]) == fbits(b[i]));
  return r;
}
static inline FV sym_fv(int n, const char *name) {
  FV f;
  for (int i = 0; i < n; i++) f.push_back(sym_finite_float(name));
  return f;
}
static inline int not_nan_d(double d) { return (int)((dbits(d) & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); }
static inline double sym_metric(const char *name) { return sym_finite_double(name); }

// Reference model of a dataset (C04): a list of entries searched linearly.
struct RefEntry { FV f; int p; double m; };
struct RefDataset {
  std::vector<RefEntry> e;
  int find(const FV &f, int p) const {
    for (size_t i = 0; i < e.size(); i++)
      if (fv_eq(e[i].f, f) & (int)(e[i].p == p)) return (int)i;
    return -1;
  }
  void add(const FV &f, int p, double m) {
    int i = find(f, p);
    if (i < 0) e.push_back(RefEntry{f, p, m});
    else e[i].m = .5 * e[i].m + .5 * m;
  }
};
// The dataset holds exactly the entries of the reference: same number, and every reference entry
// occurs exactly once with the bit-identical metric.
static inline void check_same(Apollo::Dataset &ds, const RefDataset &ref, const char *what) {
  auto v = ds.toVectorOfTuples();
  sym_assert(v.size() == ref.e.size(), what);
  sym_assert(ds.size() == ref.e.size(), "dataset size is the number of entries");
  for (auto &r : ref.e) {
    int n = 0;
    for (auto &t : v) n += fv_eq(std::get<0>(t), r.f) & (int)(std::get<1>(t) == r.p) & (int)(dbits(std::get<2>(t)) == dbits(r.m));
    sym_assert(n == 1, what);
  }
}
// decimal text of a small concrete int
static inline std::string dec(int v) {
  char b[16]; int n = 0; bool neg = v < 0; unsigned u = neg ? -(unsigned)v : v;
  do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u);
  std::string s; if (neg) s.push_back('-');
  while (n) s.push_back(b[--n]);
  return s;
}
