// Explicit training on the measurements of an earlier run, of this run, or of both; forced training.
#include "common.h"
static int best(const RefDataset &d, const FV &f, int got) { int ok = 0; for (auto &a : d.e) { int least = fv_eq(a.f, f) & (int)(a.p == got); for (auto &o : d.e) least &= (fv_eq(o.f, f) ^ 1) | (int)(a.m <= o.m); ok |= least; } return ok; }
extern "C" void sym_main() {
  sym_setenv("APOLLO_PERSISTENT_DATASETS", "1"); Apollo::instance(); mkdir(".apollo/datasets", 0755);
  int stored = pick(0, 2, "stored"), run = pick(0, 1, "executed"), how = pick(0, 3, "how"), step = pick(0, 1, "step") * 7; RefDataset ref;
  if (stored) { Apollo::Dataset d; for (int i = 0; i < stored; i++) { float x = sym_finite_float("f"); double m = sym_metric("m"); FV f(1, x), g = f; d.insert(g, i, m); ref.add(f, i, m); } std::ofstream o(".apollo/datasets/Dataset-reg.yaml"); d.store(o); }
  Apollo::Region *r = new Apollo::Region(1, "reg", 3, 0, "DecisionTree,max_depth=4"), *other = new Apollo::Region(1, "other", 3, 0, "DecisionTree,max_depth=4");
  check_same(r->dataset, ref, "the region starts with its stored measurements");
  if (run) { FV f(1, sym_finite_float("f")); double m = sym_metric("m"); auto *c = r->begin(f); int p = r->getPolicyIndex(c); sym_assert(p == 0, "exploring"); r->end(c, m); ref.add(f, p, m); }
  auto train = [&] { if (how == 0) Apollo::instance()->train(step); else if (how == 1) r->train(step); else if (how == 2) __apollo_region_train(r, step); else Apollo::instance()->flushAllRegionMeasurements(step); };
  train(); check_same(r->dataset, ref, "training keeps the measurements");
  sym_assert(r->model->isTrainable() == ref.e.empty(), "trained if and only if there are measurements"); sym_assert(other->model->isTrainable(), "a region without measurements is not trained");
  if (ref.e.empty()) { FV f(1, 1.f); sym_assert(r->model->getIndex(f) == run, "still exploring"); sym_reach("no measurements"); return; }
  for (auto &e : ref.e) { FV f = e.f; int got = r->model->getIndex(f); sym_observe(got); sym_assert(best(ref, e.f, got), "trained on all its measurements"); }
  sym_reach(stored && run ? "both" : stored ? "stored" : "run");
  // measurements made later change the model only when training is forced
  RefDataset before = ref; FV f = ref.e[0].f; double m = sym_metric("m"); auto *c = r->begin(f); int p = r->getPolicyIndex(c); r->end(c, m); ref.add(f, p, m); { FV g = f; int o = (p + 1) % 3; double m2 = sym_metric("m"); r->dataset.insert(g, o, m2); ref.add(f, o, m2); }
  train(); for (auto &e : before.e) { FV g = e.f; sym_assert(best(before, e.f, r->model->getIndex(g)), "a trained region is left alone"); }
  r->train(step, true, true); for (auto &e : ref.e) { FV g = e.f; sym_assert(best(ref, e.f, r->model->getIndex(g)), "forced training uses all measurements"); } check_same(r->dataset, ref, "training keeps the measurements"); sym_reach("forced");
}
