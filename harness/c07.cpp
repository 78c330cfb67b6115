// Depth-limited trees: depth respected, leaf majorities predicted, stored statistics describe the samples.
#include "treetext.h"
#ifndef NI
#define NI 3
#endif
#ifndef NF
#define NF 1
#endif
typedef std::vector<std::pair<FV, int>> Samples;
static void check_node(const TNode *n, const Samples &s, const Samples &all, int depth, int maxd) {
  sym_assert(depth <= maxd, "no deeper than the configured depth");
  sym_assert(n->ns == (long)s.size(), "recorded sample count");
  long sum = 0, best = 0, mine = 0;
  for (auto &c : n->counts) { long k = 0; for (auto &x : s) if (x.second == c.first) k++; sym_assert(k == c.second, "recorded per-class count"); sum += c.second; if (c.second > best) best = c.second; }
  for (auto &x : s) if (x.second == n->cls) mine++;
  sym_assert(sum == (long)s.size(), "per-class counts cover all samples");
  sym_assert(mine == best, "predicted class is the most frequent one");
  sym_assert((n->l != nullptr) == (n->r != nullptr), "two children or none");
  if (!n->l) return;
  Samples L, R; sym_assert(n->fidx >= 0 && n->fidx < (int)s[0].first.size(), "feature index in range");
  for (auto &x : s) { if (x.first[n->fidx] < n->thr) L.push_back(x); else R.push_back(x); }
  sym_assert(n->l->ns + n->r->ns == n->ns, "children's counts add up");
  sym_assert(!L.empty() && !R.empty(), "a split separates samples");
  check_node(n->l, L, all, depth + 1, maxd); check_node(n->r, R, all, depth + 1, maxd);
  sym_reach("inner node");
}
extern "C" void sym_main() {
  int n = pick(1, NI, "entries"), nf = pick(1, NF, "nf"), maxd = pick(0, 2, "depth");
  Apollo::Dataset ds; Samples s;
  for (int i = 0; i < n; i++) { FV f = sym_fv(nf, "f"); int p = sym_range(0, 0x7ffffffe, "policy"); FV g = f; ds.insert(g, p, 1.0); }
  { std::vector<FV> fs; std::vector<int> ps; std::map<FV, std::pair<int, double>> mm; ds.findMinMetricPolicyByFeatures(fs, ps, mm); for (size_t i = 0; i < fs.size(); i++) s.push_back({fs[i], ps[i]}); }
  Params par; par["max_depth"] = dec(maxd);
  auto m = apollo::ModelFactory::createPolicyModel("DecisionTree", nf, 0x7fffffff, par);
  m->train(ds); m->store("tree.yaml");
  TTree t = read_tree("tree.yaml");
  sym_assert(t.max_depth == maxd, "configured depth is recorded"); sym_assert(t.nf == nf, "number of features");
  check_node(t.root, s, s, 0, maxd);
  for (auto &x : s) {
    int d; const TNode *l = leaf_of(t.root, x.first, d); FV g = x.first; int got = m->getIndex(g); sym_observe(got);
    sym_assert(got == l->cls, "selection is the leaf's class");
    // directly, without the recorded statistics: most frequent class among the samples of the same leaf
    std::vector<int> in; for (auto &y : s) { int e; if (leaf_of(t.root, y.first, e) == l) in.push_back(y.second); }
    int mine = 0; for (int c : in) if (c == got) mine++;
    for (int c : in) { int k = 0; for (int e : in) if (e == c) k++; sym_assert(k <= mine, "majority of its leaf"); }
    if (in.size() > 1) sym_reach("impure leaf");
  }
}
