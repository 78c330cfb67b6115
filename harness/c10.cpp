// A forest has exactly its configured trees, each from a bootstrap of the training set; plurality vote.
#include "treetext.h"
#ifndef NI
#define NI 2
#endif
#ifndef NT
#define NT 2
#endif
#ifndef P
#define P 3
#endif
static int vote(const TForest &f, const FV &q) {
  int cnt[P] = {0}; for (auto &t : f.trees) { int d; int c = leaf_of(t.root, q, d)->cls; for (int k = 0; k < P; k++) cnt[k] += (int)(k == c); }
  int best = 0, bc = cnt[0]; for (int k = 1; k < P; k++) { int m = cnt[k] > bc; best = (int)sym_ite32(m, k, best); bc = (int)sym_ite32(m, cnt[k], bc); }
  return best;
}
extern "C" void sym_main() {
  int n = pick(1, NI, "entries"), again = pick(0, 1, "again"), nt = pick(1, n == 2 && !again && NT < 3 ? 3 : NT, "trees"), nf = 1;
  Apollo::Dataset ds;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_range(0, P - 1, "policy"); FV g = f; ds.insert(g, p, 1.0); }
  std::vector<FV> fs; std::vector<int> ps; std::map<FV, std::pair<int, double>> mm; ds.findMinMetricPolicyByFeatures(fs, ps, mm);
  Params par; par["num_trees"] = dec(nt); par["max_depth"] = "2";
  auto a = apollo::ModelFactory::createPolicyModel("RandomForest", nf, P, par);
  if (again) { Apollo::Dataset od; FV f(nf, 1.f); od.insert(f, P - 1, 1.0); a->train(od); }
  a->train(ds); a->store("a.yaml");
  TForest f = read_forest("a.yaml");
  sym_assert(f.num_trees == nt && (int)f.trees.size() == nt, "exactly the configured number of trees");
  for (auto &t : f.trees) {
    sym_assert(t.data.size() == fs.size(), "as many samples as the training set");
    for (auto &d : t.data) { int in = 0; for (size_t i = 0; i < fs.size(); i++) in |= fv_eq(d.first, fs[i]) & (int)(d.second == ps[i]); sym_assert(in, "every sample is a training pair"); }
    sym_assert(t.root->ns == (long)fs.size(), "the tree was built from its samples");
    for (auto &d : t.data) { int dep; const TNode *l = leaf_of(t.root, d.first, dep); sym_assert(l->cls == d.second, "each tree fits its samples"); }
  }
  FV q; for (int i = 0; i < nf; i++) q.push_back(sym_float("q"));
  int want = vote(f, q); FV g = q; int got = a->getIndex(g); sym_observe(got);
  sym_assert(got == want, "plurality vote, lowest class on ties");
  for (auto &t : f.trees) { int all = 1; for (auto &d : t.data) all &= (int)fv_eq(d.first, fs[0]); if (fs.size() > 1 && all) sym_reach("bootstrap left a pair out"); }
  if (again) sym_reach("retrained"); if (nt > 2) sym_reach("three trees");
}
