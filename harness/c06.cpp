// A trained tree (enough depth) returns the fastest measured policy for each measured input.
#include "common.h"
#ifndef NI
#define NI 3
#endif
#ifndef NF
#define NF 1
#endif
static void check_best(const RefDataset &r, const FV &f, int got) {
  int ok = 0;
  for (auto &e : r.e) {
    int least = fv_eq(e.f, f) & (int)(e.p == got);
    for (auto &o : r.e) least &= (fv_eq(o.f, f) ^ 1) | (int)(e.m <= o.m);
    ok |= least;
  }
  sym_assert(ok, "selected policy has the least recorded metric for a measured input");
}
extern "C" void sym_main() {
  RefDataset ref;
  int n = pick(1, NI, "entries"), nf = pick(1, NF, "nfeatures");
#ifdef REGION
  int P = 1000;
  Apollo::Region *r = new Apollo::Region(nf, "reg", 3, 0, std::string("DecisionTree,max_depth=") + dec(n));
  for (int i = 0; i < n; i++) {
    FV f = sym_fv(nf, "f"); double m = sym_metric("metric");
    Apollo::RegionContext *c;
    int how = pick(0, 1, "how");
    if (how) { c = r->begin(f); } else { c = r->begin(); for (float x : f) r->setFeature(c, x); }
    int p = r->getPolicyIndex(c);
    r->end(c, m); ref.add(f, p, m);
  }
  if (pick(0, 1, "trainvia")) r->train(0); else Apollo::instance()->train(0);
  sym_assert(!r->model->isTrainable(), "trained");
  for (auto &e : ref.e) { auto *c = r->begin(e.f); int got = r->getPolicyIndex(c); check_best(ref, e.f, got); sym_observe(got); r->end(c, 1.0); }
#else
  Apollo::Dataset ds;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_int("policy"); double m = sym_metric("metric"); sym_assume(p >= 0); FV g = f; ds.insert(g, p, m); ref.add(f, p, m); }
  Params par; par["max_depth"] = dec(n);
  auto model = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 0x7fffffff, par);
  model->train(ds);
  sym_assert(!model->isTrainable(), "trained");
  for (auto &e : ref.e) { FV g = e.f; int got = model->getIndex(g); check_best(ref, e.f, got); sym_observe(got); }
#endif
  if (ref.e.size() > 1) sym_reach("several entries");
}
