// One model for all regions: executions that have finished but are not collected yet take part.
#include "common.h"
#include "cudastub.h"
extern "C" void sym_main() {
  sym_setenv("APOLLO_SINGLE_MODEL", "1"); sym_setenv("APOLLO_REGION_MODEL", "0"); const char *mi = "DecisionTree,max_depth=4";
  Apollo::Region *r[2] = {new Apollo::Region(1, "one", 3, 0, mi), new Apollo::Region(1, "two", 3, 0, mi)};
  float f = sym_finite_float("f"); double m = sym_metric("m"); dev_ms = sym_float("ms"); sym_assume((dev_ms >= 0.f) & (dev_ms <= 1e6f)); RefDataset all; int pol[2];
  // policy 0 measured first, then policy 1 on the device, finished after it was ended
  auto *c = r[0]->begin(); r[0]->setFeature(c, f); pol[0] = r[0]->getPolicyIndex(c); r[0]->end(c, m);
  int w = pick(0, 1, "where"); if (w) { auto *d = r[1]->begin(); r[1]->setFeature(d, f); r[1]->getPolicyIndex(d); r[1]->end(d, m); all.add(FV(1, f), 0, m); }
  c = r[w]->begin(Apollo::Region::TIMING_CUDA_ASYNC); r[w]->setFeature(c, f); pol[1] = r[w]->getPolicyIndex(c); sym_assert(pol[1] == 1, "explored in order"); r[w]->end(c); dev_ready = 1;
  all.add(FV(1, f), pol[0], m); all.add(FV(1, f), pol[1], dev_ms / 1000.0);
  Apollo::instance()->train(0);
  for (auto *q : r) { FV g(1, f); int got = q->model->getIndex(g), ok = 0; for (auto &a : all.e) { int least = (int)(a.p == got); for (auto &o : all.e) least &= (int)(a.m <= o.m); ok |= least; } sym_assert(ok, "a finished execution takes part in training"); sym_observe(got); }
  sym_reach("trained");
}
