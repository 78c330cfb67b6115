// Compiled decision trees select as the tree that was trained or loaded.
#include "jit.h"
#include "treetext.h"
#ifndef NI
#define NI 2
#endif
static int agrees(apollo::PolicyModel *m, const char *what) {
  m->store("tree.yaml"); TTree t = read_tree("tree.yaml"); FV q; for (long i = 0; i < t.nf; i++) q.push_back(sym_finite_float("q")); int d; const TNode *l = leaf_of(t.root, q, d); FV g = q; int got = m->getIndex(g); sym_observe(got);
  sym_assert(got == l->cls, what); if (d) sym_reach("split"); if (d > 1) sym_reach("deep"); return d; }
static void fill(Apollo::Dataset &ds, int n, int nf, int base) { for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); ds.insert(f, base + 299 * i, 1.0); } }
extern "C" void sym_main() {
  int nf = pick(1, 2, "nf"), n = pick(1, nf == 1 ? NI : 2, "n"); Params par; par["max_depth"] = dec(pick(n == 1 ? 2 : 0, 2, "depth"));
  Apollo::Dataset a; fill(a, n, nf, 0); auto m = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 1000, par); m->train(a); agrees(m.get(), "the compiled tree selects as the trained one");
  int next = pick(0, 2, "next");
  if (next == 0) { Apollo::Dataset b; fill(b, pick(1, 2, "again"), nf, 4); m->train(b); agrees(m.get(), "after retraining the compiled tree is the new one"); sym_reach("retrained"); }
  else { Apollo::Dataset b; fill(b, 1, nf, 4); auto o = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 1000, par); if (next == 2) { o->train(b); }
    m->store("stored.yaml"); o->load("stored.yaml"); agrees(o.get(), "after loading the compiled tree is the loaded one"); agrees(m.get(), "and the other model keeps its own"); sym_reach(next == 2 ? "loaded over" : "loaded"); }
}
