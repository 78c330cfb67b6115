// Every begin/end pair is recorded exactly once with its own features, policy and metric.
#include "common.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef NFMIN
#define NFMIN 1
#endif
#ifndef KINDS
#define KINDS 3
#endif
static double now_s = 100.0;
extern "C" int clock_gettime(clockid_t, struct timespec *ts) { now_s += 0.5; ts->tv_sec = (long)now_s; ts->tv_nsec = (long)((now_s - (long)now_s) * 1e9); return 0; }
static unsigned long long execs() { return Apollo::instance()->region_executions; }
static void own(Apollo::RegionContext *c, const FV &f) { sym_assert(fv_same_bits(c->features, f), "an execution has exactly its own features"); }
extern "C" void sym_main() {
  const char *mi[] = {"RoundRobin", "DecisionTree", "Static,policy=1", "RandomForest"};
  int k = pick(0, KINDS - 1, "model"), persist = pick(0, 1, "persist");
  if (persist) sym_setenv("APOLLO_PERSISTENT_DATASETS", "1");
  Apollo::Region *r[2] = {new Apollo::Region(1, "one", 3, 0, mi[k]), (Apollo::Region *)__apollo_region_create(1, "two", 2, 0, "DecisionTree")};
  RefDataset ref[2]; int cnt[2] = {0, 0}; bool rec[2] = {persist || k == 1 || k == 3, true};
  if (k == 1 && !persist && pick(0, 1, "trained")) { // selections of a trained model see the features of their own execution, too
    FV f(2, 1.f); auto *c = r[0]->begin(f); int p = r[0]->getPolicyIndex(c); r[0]->end(c, 1.0); ref[0].add(f, p, 1.0); cnt[0]++; r[0]->train(0); rec[0] = persist; sym_reach("trained"); }
  for (int s = 0; s < STEPS; s++) {
    int w = pick(0, 1, "which"), how = pick(0, 4, "how"); Apollo::Region *R = r[w]; FV f; int nf = w ? 1 : pick(NFMIN, 2, "nf"); for (int i = 0; i < nf; i++) f.push_back(sym_finite_float("f"));
    double m = sym_metric("metric"); int p; unsigned long long e0 = execs();
    auto want = [&](double mm) { if (rec[w]) ref[w].add(f, p, mm); cnt[w]++; };
    if (how == 0) { auto *c = R->begin(); for (float x : f) R->setFeature(c, x); own(c, f); p = R->getPolicyIndex(c); own(c, f); R->end(c, m); want(m); }
    else if (how == 1) { auto *c = R->begin(f); own(c, f); p = R->getPolicyIndex(c); own(c, f); R->end(c, m); want(m); }
    else if (how == 2) { auto *c = R->begin(); for (float x : f) R->setFeature(x); own(c, f); p = R->getPolicyIndex(); R->end(m); want(m); }
    else if (how == 3) { auto *c = R->begin(f); own(c, f); p = R->getPolicyIndex(c); own(c, f); R->end(c); want(0.5); }
    else { __apollo_region_begin(R); for (float x : f) __apollo_region_set_feature(R, x); p = __apollo_region_get_policy(R); __apollo_region_end(R); want(0.5); }
    sym_observe(p);
    sym_assert(execs() == e0 + 1, "the runtime counts the execution once");
    sym_assert(r[0]->idx == cnt[0] && r[1]->idx == cnt[1], "each region counts its own executions");
    check_same(r[0]->dataset, ref[0], "first region holds exactly its measurements"); check_same(r[1]->dataset, ref[1], "second region holds exactly its measurements");
  }
  // both regions executing at once, ended in either order
  FV fa = sym_fv(1, "fa"), fb = sym_fv(1, "fb"); double ma = sym_metric("ma"), mb = sym_metric("mb");
  auto *a = r[0]->begin(fa); auto *b = r[1]->begin(); r[1]->setFeature(b, fb[0]); int pa = r[0]->getPolicyIndex(a), pb = r[1]->getPolicyIndex(b);
  if (pick(0, 1, "order")) { r[0]->end(a, ma); r[1]->end(b, mb); } else { r[1]->end(b, mb); r[0]->end(a, ma); }
  if (rec[0]) ref[0].add(fa, pa, ma); ref[1].add(fb, pb, mb);
  check_same(r[0]->dataset, ref[0], "nested: first region"); check_same(r[1]->dataset, ref[1], "nested: second region");
  sym_reach("ran"); if (!rec[0]) sym_reach("not recorded for fixed models without persistence");
}
