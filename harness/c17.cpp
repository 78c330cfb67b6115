// Explicit training trains exactly the trainable regions with measurements, each on its own dataset.
#include "common.h"
extern "C" void sym_main() {
  const char *mi[] = {"DecisionTree,max_depth=3", "RandomForest,num_trees=1,max_depth=3", "RoundRobin", "Static,policy=2"};
  int k0 = pick(0, 3, "model0"), k1 = pick(0, 1, "model1"), n0 = pick(0, 2, "n0"), n1 = pick(0, 1, "n1"), how = pick(0, 2, "how");
  Apollo::Region *r[3] = {new Apollo::Region(1, "one", 3, 0, mi[k0]), new Apollo::Region(1, "two", 3, 0, mi[k1]), new Apollo::Region(1, "three", 3, 0, "DecisionTree,max_depth=3")};
  // region three is trained already, on one measurement
  { FV f(1, 1.f); auto *c = r[2]->begin(f); r[2]->getPolicyIndex(c); r[2]->end(c, 1.0); r[2]->train(0); sym_assert(!r[2]->model->isTrainable(), "trained"); }
  RefDataset ref[2]; int n[2] = {n0, n1};
  for (int i = 0; i < 2; i++) for (int j = 0; j < n[i]; j++) { FV f(1, sym_finite_float("f")); double m = sym_metric("m"); auto *c = r[i]->begin(f); int p = r[i]->getPolicyIndex(c); r[i]->end(c, m); ref[i].add(f, p, m); }
  // measurements of region three made after its training must not change it
  { FV f(1, 1.f); auto *c = r[2]->begin(f); r[2]->getPolicyIndex(c); r[2]->end(c, 1.0); auto *d = r[2]->begin(f); r[2]->getPolicyIndex(d); r[2]->end(d, 0.5); }
  bool can[2] = {k0 < 2, true}, exp[2];
  auto ds0 = r[0]->dataset.toVectorOfTuples();
  if (how == 0) { Apollo::instance()->train(3); for (int i = 0; i < 2; i++) exp[i] = can[i] && n[i] > 0; }
  else if (how == 1) { r[0]->train(3); exp[0] = can[0] && n0 > 0; exp[1] = false; }
  else { __apollo_region_train(r[1], 3); exp[1] = n1 > 0; exp[0] = false; }
  for (int i = 0; i < 2; i++) sym_assert(r[i]->model->isTrainable() == (can[i] && !exp[i]), "exactly the trainable regions with measurements are trained");
  sym_assert(r[0]->dataset.toVectorOfTuples().size() == ds0.size(), "training keeps the dataset");
  for (int i = 0; i < 2; i++) {
    int kk = i ? k1 : k0; if (!exp[i]) { if (kk == 3) { FV f(1, sym_float("q")); sym_assert(r[i]->model->getIndex(f) == 2, "untrainable model unchanged"); sym_reach("untrainable"); } else if (n[i] == 0 || how != 0) { FV f(1, sym_float("q")); sym_assert(r[i]->model->getIndex(f) == n[i] % 3, "untrained model keeps exploring"); sym_reach("left exploring"); } continue; }
    if (kk == 0) for (auto &e : ref[i].e) { FV f = e.f; int got = r[i]->model->getIndex(f); int ok = 0; for (auto &a : ref[i].e) { int least = fv_eq(a.f, e.f) & (int)(a.p == got); for (auto &o : ref[i].e) least &= (fv_eq(o.f, e.f) ^ 1) | (int)(a.m <= o.m); ok |= least; } sym_assert(ok, "trained on its own measurements"); sym_reach("trained on its own"); }
    else { FV f = ref[i].e[0].f; int got = r[i]->model->getIndex(f), in = 0; for (auto &e : ref[i].e) in |= (int)(e.p == got); sym_assert(in, "forest answers from its own measurements"); }
  }
  for (auto x : {1.f, -3.f, 9.f}) { FV f(1, x); sym_assert(r[2]->model->getIndex(f) == 0, "an already trained region is left alone"); }
}
