#include "common.h"
#ifndef NI
#define NI 3
#endif
#ifndef NF
#define NF 2
#endif
extern "C" void sym_main() {
  int mode = pick(0, 1, "mode");
  Apollo::Dataset a; RefDataset ra;
  int n = pick(1, NI, "inserts");
  for (int i = 0; i < n; i++) {
    int nf = pick(i && (!mode || n == 2) ? 0 : NF, NF, "nfeatures");
    if (nf != NF) sym_assume(NI <= 3 || i < 2);
    FV f = sym_fv(nf, "f"); int p = sym_int("policy"); double m = sym_metric("metric");
    FV g = f;
    a.insert(g, p, m); ra.add(f, p, m);
    check_same(a, ra, "one entry per (features, policy), aggregated 0.5/0.5");
  }
  if (ra.e.size() < (size_t)n) sym_reach("aggregated");
  if (ra.e.size() > 1) sym_reach("distinct");
  if (mode) {
    Apollo::Dataset b; RefDataset rb;
    int k = pick(0, n < NI ? 2 : 1, "second");
    for (int i = 0; i < k; i++) { FV f = sym_fv(NF, "g"); int p = sym_int("policy"); double m = sym_metric("metric"); FV g = f; b.insert(g, p, m); rb.add(f, p, m); }
    RefDataset rb0 = rb;
    b.insert(a);
    for (auto &x : ra.e) rb.add(x.f, x.p, x.m);
    check_same(b, rb, "merging adds the entries one by one");
    check_same(a, ra, "merging leaves the merged dataset unchanged");
    if (rb.e.size() < ra.e.size() + rb0.e.size()) sym_reach("merged overlapping");
    b.clear(); sym_assert(b.size() == 0, "cleared");
  }
}
