// A stored random forest reloads as an equivalent forest (the library's own generator is used).
#include "treetext.h"
#ifndef NI
#define NI 2
#endif
#ifndef P
#define P 4
#endif
extern "C" void sym_main() {
  int n = pick(1, NI, "entries"), nt = pick(1, 2, "trees"), how = pick(0, 2, "how"), nf = 1;
  Apollo::Dataset ds;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_range(0, P - 1, "policy"); FV g = f; ds.insert(g, p, 1.0); }
  Params par; par["num_trees"] = dec(nt); par["max_depth"] = "2";
  auto a = apollo::ModelFactory::createPolicyModel("RandomForest", nf, P, par);
  auto other = [&](Apollo::Dataset &od) { for (int i = 0; i < 3; i++) { FV f(nf, (float)i); od.insert(f, i, 1.0); } };
  if (how == 2) { Apollo::Dataset od; other(od); a->train(od); }
  a->train(ds); a->store("a.yaml");
  std::unique_ptr<apollo::PolicyModel> b;
  if (how == 0) b = apollo::ModelFactory::createPolicyModel("RandomForest", P, "a.yaml");
  else {
    Params p2; p2["max_depth"] = "1"; p2["num_trees"] = "3"; b = apollo::ModelFactory::createPolicyModel("RandomForest", nf, P, p2);
    if (how == 2) { Apollo::Dataset od; other(od); b->train(od); }
    b->load("a.yaml");
  }
  sym_assert(!b->isTrainable(), "a loaded forest is not trainable");
  FV q; for (int i = 0; i < nf; i++) q.push_back(sym_float("q"));
  FV q1 = q, q2 = q; int x = a->getIndex(q1), y = b->getIndex(q2); sym_observe(y);
  sym_assert(x == y, "the loaded forest selects like the stored one");
  b->store("b.yaml");
  TForest fa = read_forest("a.yaml"), fb = read_forest("b.yaml");
  sym_assert(fa.num_trees == nt && (int)fa.trees.size() == nt && (int)fb.trees.size() == nt && fb.num_trees == nt, "same number of trees");
  sym_assert(same_words(words_of("a.yaml"), words_of("b.yaml")), "storing the loaded forest writes the same text");
  if (how == 2) sym_reach("replaced"); if (n > 1) sym_reach("several");
}
