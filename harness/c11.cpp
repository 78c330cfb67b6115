// Measurements survive to the next run bit-identically.
#include "common.h"
#ifndef NI
#define NI 2
#endif
#ifndef NF
#define NF 2
#endif
static void same_bits(Apollo::Dataset &a, const std::vector<Meas> &w, const char *what) {
  auto v = a.toVectorOfTuples(); sym_assert(v.size() == w.size(), what);
  for (auto &x : w) { int n = 0; for (auto &t : v) n += fv_same_bits(std::get<0>(t), std::get<0>(x)) & (int)(std::get<1>(t) == std::get<1>(x)) & (int)(dbits(std::get<2>(t)) == dbits(std::get<2>(x))); sym_assert(n == 1, what); }
}
extern "C" void sym_main() {
  int nf = pick(0, NF, "nf"), n = pick(0, nf == 0 ? 1 : NI, "entries");
#ifdef TEXT
  Apollo::Dataset ds;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_int("policy"); double m = sym_metric("metric"); ds.insert(f, p, m); }
  auto w = ds.toVectorOfTuples();
  { std::ofstream o("d.txt"); if (pick(0, 1, "prec")) o.precision(3); ds.store(o); o.close(); }
  Apollo::Dataset d2; { std::ifstream i("d.txt"); d2.load(i); }
  same_bits(d2, w, "the text form reproduces the dataset");
  { std::ifstream i("d.txt"); d2.clear(); d2.load(i); } same_bits(d2, w, "again after clear");
#else
  const char *mi[] = {"RoundRobin", "DecisionTree", "Static,policy=1", "RandomForest,num_trees=2", "Random"};
  sym_setenv("APOLLO_PERSISTENT_DATASETS", "1");
  int k = pick(0, 2, "model"), k2 = pick(0, 1, "model2");
  Apollo::Region *r = new Apollo::Region(nf, "reg", 3, 0, mi[k]);
  Apollo::Region *o = new Apollo::Region(nf, "reg2", 3, 0, mi[k]);
  sym_assert(r->dataset.size() == 0, "no file, no measurements");
  FV f0;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); if (i == 0) f0 = f; double m = sym_metric("metric"); auto *c = r->begin(f); r->getPolicyIndex(c); r->end(c, m); }
  { FV f(nf, 3.f); auto *c = o->begin(f); o->getPolicyIndex(c); o->end(c, 4.0); }
  auto w = r->dataset.toVectorOfTuples(), wo = o->dataset.toVectorOfTuples();
  if (n) sym_assert(w.size() > 0, "executions are recorded");
  delete r; delete o;
  Apollo::Region *r2 = new Apollo::Region(nf, "reg", 3, 0, k2 ? "DecisionTree" : mi[k]);
  same_bits(r2->dataset, w, "the next run starts with the measurements");
  // a third run: nothing or one measurement added
  if (n && pick(0, 1, "more")) { FV f = f0; double m = sym_metric("metric"); auto *c = r2->begin(f); r2->getPolicyIndex(c); r2->end(c, m); w = r2->dataset.toVectorOfTuples(); sym_reach("more"); }
  delete r2; Apollo::Region *r3 = new Apollo::Region(nf, "reg", 3, 0, mi[k]); same_bits(r3->dataset, w, "and so does the run after it");
  Apollo::Region *o2 = new Apollo::Region(nf, "reg2", 3, 0, mi[k]); same_bits(o2->dataset, wo, "each region its own");
#endif
  if (w.size() > 1) sym_reach("several"); if (nf > 1) sym_reach("two features"); if (w.empty()) sym_reach("empty");
}
