// A region asked to train when per-region modelling is off is refused.
#include "common.h"
extern "C" void sym_main() {
  sym_setenv("APOLLO_SINGLE_MODEL", "1"); sym_setenv("APOLLO_REGION_MODEL", "0");
  int n = pick(0, 1, "n"), k = pick(0, 1, "kind"), via = pick(0, 1, "via");
  Apollo::Region *r = new Apollo::Region(1, "one", 3, 0, k ? "DecisionTree" : "RandomForest");
  for (int i = 0; i < n; i++) { FV f(1, sym_finite_float("f")); auto *c = r->begin(f); r->getPolicyIndex(c); r->end(c, sym_metric("m")); }
  bool threw = false; try { if (via) r->train(1); else __apollo_region_train(r, 1); } catch (std::exception &e) { threw = true; }
  sym_assert(threw == (n > 0), "refused"); sym_assert(r->model->isTrainable(), "not trained");
  FV f(1, 1.f); sym_assert(r->model->getIndex(f) == n, "still exploring"); sym_reach("refused");
}
