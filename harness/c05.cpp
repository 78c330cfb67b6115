#include "common.h"
#ifndef NI
#define NI 4
#endif
#ifndef NF
#define NF 1
#endif
extern "C" void sym_main() {
  Apollo::Dataset a; RefDataset ra;
  int n = pick(0, NI, "inserts"), nf = pick(0, NF, "nfeatures");
  for (int i = 0; i < n; i++) {
    FV f = sym_fv(nf, "f"); int p = sym_int("policy"); double m = sym_metric("metric");
    FV g = f; a.insert(g, p, m);
  }
  auto v = a.toVectorOfTuples();
  std::vector<FV> feats; std::vector<int> pols; std::map<FV, std::pair<int, double>> best;
  const Apollo::Dataset &ca = a;
  ca.findMinMetricPolicyByFeatures(feats, pols, best);
  sym_assert(feats.size() == best.size() && pols.size() == best.size(), "training lists and map have the same length");
  size_t i = 0;
  for (auto &b : best) {
    if (i >= feats.size()) break;
    // the lists agree with the map entry by entry
    int inlist = 0; for (size_t j = 0; j < feats.size(); j++) inlist += fv_eq(feats[j], b.first) & (int)(pols[j] == b.second.first);
    sym_assert(inlist == 1, "training lists agree with the map");
    int rec = 0, least = 1;
    for (auto &t : v) {
      int same = fv_eq(std::get<0>(t), b.first);
      rec |= same & (int)(std::get<1>(t) == b.second.first) & (int)(dbits(std::get<2>(t)) == dbits(b.second.second));
      least &= (same ^ 1) | (int)(b.second.second <= std::get<2>(t));
    }
    sym_assert(rec, "the chosen policy was recorded with that metric");
    sym_assert(least, "the chosen metric is the least");
    i++;
  }
  // each recorded feature vector occurs exactly once
  for (auto &t : v) { int c = 0; for (auto &b : best) c += fv_eq(b.first, std::get<0>(t)); sym_assert(c == 1, "each feature vector once"); }
  if (v.size() > best.size()) sym_reach("several policies for one feature vector");
  if (best.size() > 1) sym_reach("several feature vectors");
}
