// Round-robin selection: 0, 1, ..., n-1, 0, ... for every number of policies.
#include "common.h"
#ifndef STEPS
#define STEPS 6
#endif
static int next_rr(int e, int P) { int n = e + 1; return (int)sym_ite32(n == P, 0, (uint32_t)n); }
#ifdef REGIONS
// two regions interleaved: each keeps its own cycle; begin/select/end with any metric
extern "C" void sym_main() {
  const char *mi[] = {"RoundRobin", "DecisionTree", "RandomForest", "DecisionTree,explore=RoundRobin", "RandomForest,explore=RoundRobin,num_trees=2"};
  int k = pick(0, 4, "model"), P0 = pick(1, 3, "policies"), P1 = pick(2, 3, "policies2"), how = pick(0, 1, "metric");
  Apollo::Region *r[2] = {new Apollo::Region(1, "a", P0, 0, mi[k]), new Apollo::Region(2, "b", P1, 0, "RoundRobin")};
  int P[2] = {P0, P1}, e[2] = {-1, -1}; FV seen; double m = sym_metric("m");
  float x = sym_finite_float("x");
  for (int i = 0; i < STEPS; i++) {
    int w = pick(0, 1, "which");
    Apollo::RegionContext *c = r[w]->begin();
    for (int j = 0; j <= w; j++) r[w]->setFeature(c, x);
    e[w] = next_rr(e[w], P[w]);
    int got = r[w]->getPolicyIndex(c); sym_observe(got);
    sym_assert(got == e[w], "regions explore cyclically and independently");
    if (how) r[w]->end(c, m); else r[w]->end(c);
  }
  sym_reach("ran");
}
#elif defined(CYCLES)
// whole cycles for small and large numbers of policies
extern "C" void sym_main() {
  static const int N[] = {1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000};
  int P = N[pick(0, (int)(sizeof N / sizeof *N) - 1, "count")], kind = pick(0, 2, "kind"); float x = sym_float("x");
  const char *names[] = {"RoundRobin", "DecisionTree", "RandomForest"}; Params par;
  auto m = apollo::ModelFactory::createPolicyModel(names[kind], 1, P, par);
  for (int i = 0; i < 2 * P + 3; i++) { FV f(1, x); int p = m->getIndex(f); if (p != i % P) sym_assert(0, "every policy of the cycle in turn"); }
  sym_assert(1, "every policy of the cycle in turn"); sym_reach("cycled");
}
#else
extern "C" void sym_main() {
  int P = sym_range(1, 0x7ffffff0, "policies");
  std::unique_ptr<apollo::PolicyModel> m;
  Params par; int kind = pick(0, 4, "kind");
  const char *names[] = {"RoundRobin", "DecisionTree", "RandomForest", "DecisionTree", "RandomForest"};
  if (kind >= 3) par["explore"] = "RoundRobin";
  m = apollo::ModelFactory::createPolicyModel(names[kind], 2, P, par);
  int e = -1, k = pick(1, STEPS, "steps");
  // start anywhere in the cycle of the plain model by choosing P relative to the number of steps
  for (int i = 0; i < k; i++) {
    FV f; int n = i % 3; for (int q = 0; q < n; q++) f.push_back(sym_float("x"));
    FV g = f;
    e = next_rr(e, P);
    int p = m->getIndex(g); sym_observe(p);
    sym_assert(p == e, "cyclic order from policy 0");
    sym_assert(fv_same_bits(f, g), "selection leaves the features alone");
    sym_assert(m->isTrainable() == (kind != 0), "trainable as documented");
  }
  sym_reach("explored"); if (k > 2) { if (P == 2) sym_reach("wrapped"); }
}
#endif
