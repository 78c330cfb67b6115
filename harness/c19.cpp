// One model for all regions is trained on the union of their measurements.
#include "common.h"
#ifndef NI
#define NI 2
#endif
extern "C" void sym_main() {
  sym_setenv("APOLLO_SINGLE_MODEL", "1"); sym_setenv("APOLLO_REGION_MODEL", "0");
  int n0 = pick(0, NI, "n0"), n1 = pick(0, 1, "n1"), via = pick(0, 1, "via");
  const char *mi = "DecisionTree,max_depth=4";
  Apollo::Region *r[3] = {new Apollo::Region(1, "one", 4, 0, mi), new Apollo::Region(1, "two", 4, 0, mi), new Apollo::Region(1, "empty", 4, 0, mi)};
  int n[2] = {n0, n1}; RefDataset per[2], all;
  for (int i = 0; i < 2; i++) for (int j = 0; j < n[i]; j++) { FV f(1, sym_finite_float("f")); double m = sym_metric("m"); int p = sym_range(0, 3, "policy"); FV g = f; r[i]->dataset.insert(g, p, m); per[i].add(f, p, m); }
  // merged in the order of the regions' names
  for (int i : {0, 1}) { Apollo::Dataset &d = r[i]->dataset; for (auto &t : d.toVectorOfTuples()) all.add(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }
  if (n0 && pick(0, 1, "before")) { r[0]->model->train(r[0]->dataset); sym_reach("trained before"); }
  if (via) Apollo::instance()->train(0); else Apollo::instance()->flushAllRegionMeasurements(0);
  if (n0 + n1 == 0) { for (auto *q : r) { sym_assert(q->model->isTrainable(), "nothing to train on changes nothing"); FV f(1, 1.f); sym_assert(q->model->getIndex(f) == 0, "still exploring"); } sym_reach("no data"); return; }
  for (auto *q : r) sym_assert(!q->model->isTrainable(), "every region gets the model");
  for (auto &e : all.e) {
    int first = -1;
    for (auto *q : r) {
      FV f = e.f; int got = q->model->getIndex(f), ok = 0;
      for (auto &a : all.e) { int least = fv_eq(a.f, e.f) & (int)(a.p == got); for (auto &o : all.e) least &= (fv_eq(o.f, e.f) ^ 1) | (int)(a.m <= o.m); ok |= least; }
      sym_assert(ok, "least merged metric"); sym_observe(got);
      if (first < 0) first = got; sym_assert(first == got, "all regions select alike");
    }
  }
  for (int i : {0, 1}) check_same(r[i]->dataset, per[i], "the regions keep their own measurements");
  sym_assert(r[2]->dataset.size() == 0, "no measurements appear in other regions");
  FV q1(1, sym_float("q")), q2 = q1, q3 = q1; int x = r[0]->model->getIndex(q1); sym_assert(x == r[1]->model->getIndex(q2) && x == r[2]->model->getIndex(q3), "the same model everywhere");
  sym_reach("trained"); if (all.e.size() > 1) sym_reach("several");
}
