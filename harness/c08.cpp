// A stored decision tree reloads as an equivalent tree.
#include "treetext.h"
#ifndef NI
#define NI 3
#endif
#ifndef NF
#define NF 1
#endif
extern "C" void sym_main() {
  int n = pick(1, NI, "entries"), nf = pick(1, NF, "nf"), maxd = pick(0, 2, "depth"), how = pick(0, 2, "how");
  Apollo::Dataset ds;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_range(0, 0x7ffffffe, "policy"); FV g = f; ds.insert(g, p, 1.0); }
  Params par; par["max_depth"] = dec(maxd);
  auto a = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 0x7fffffff, par);
  if (how == 2) { Apollo::Dataset od; FV f(nf, 1.5f); od.insert(f, 7, 1.0); FV g(nf, 2.5f); od.insert(g, 3, 1.0); a->train(od); } // stored after retraining
  a->train(ds); a->store("a.yaml");
  std::unique_ptr<apollo::PolicyModel> b;
  if (how == 0) b = apollo::ModelFactory::createPolicyModel("DecisionTree", 0x7fffffff, "a.yaml");
  else {
    Params p2; p2["max_depth"] = "1"; b = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 0x7fffffff, p2);
    if (how == 2) { Apollo::Dataset od; for (int i = 0; i < 3; i++) { FV f(nf, (float)i); od.insert(f, 5 + i, 1.0); } b->train(od); }
    b->load("a.yaml");
  }
  sym_assert(!b->isTrainable(), "a loaded tree is not trainable");
  FV q; for (int i = 0; i < nf; i++) q.push_back(sym_float("q"));
  FV q1 = q, q2 = q; int x = a->getIndex(q1), y = b->getIndex(q2); sym_observe(y);
  sym_assert(x == y, "the loaded tree selects like the stored one");
  b->store("b.yaml");
  sym_assert(same_words(words_of("a.yaml"), words_of("b.yaml")), "storing the loaded tree writes the same text");
  if (how == 2) sym_reach("replaced"); if (n > 1) sym_reach("several");
}
