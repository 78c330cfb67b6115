// Replay models: Optimal follows its file, DatasetMap its dataset.
#include "common.h"
#ifndef NI
#define NI 3
#endif
static int may_stop = 0;
static void stopped() { sym_assert(may_stop, "the program stops only when no recorded policy applies"); sym_reach("stopped"); }
static int policy_of(Apollo::Region *r, const FV &f) { auto *c = r->begin(); for (float x : f) r->setFeature(c, x); int p = r->getPolicyIndex(c); r->end(c, sym_metric("m")); return p; }
static void optimal() {
  int n = pick(0, 4, "n"); std::vector<int> want; int nm = pick(0, 1, "name"); const char *name = nm ? "other" : "reg";
  { std::ofstream o((std::string("opt-") + name + "-rank-0.txt").c_str()); for (int i = 0; i < n; i++) { int p = sym_range(0, 1000000, "policy"); want.push_back(p); if (i) o << (i == 2 ? ", " : ","); o << p; } if (n && pick(0, 1, "newline")) o << "\n"; }
  if (!nm) { std::ofstream o("opt-unrelated-rank-0.txt"); o << "7,7,7"; }
  int how = pick(0, 1, "how"); Apollo::Region *r = nullptr; std::unique_ptr<apollo::PolicyModel> m;
  if (how) m = apollo::ModelFactory::createPolicyModel("Optimal", 5, std::string("opt-") + name + "-rank-0.txt"); else r = new Apollo::Region(1, name, 5, 0, "Optimal");
  FV f(1, 1.f); f[0] = sym_float("x");
  for (int i = 0; i <= n; i++) {
    if (i == n) may_stop = 1; int p = r ? policy_of(r, f) : m->getIndex(f); sym_assert(i < n, "an exhausted policy list stops the program"); sym_assert(p == want[i], "the policies of the file are followed in order"); sym_reach("followed");
    if (!r && i == 0 && n == 1 && pick(0, 1, "load")) { int p2 = sym_range(0, 1000000, "policy"); { std::ofstream o("more.txt"); o << p2; } m->load("more.txt"); sym_assert(m->getIndex(f) == p2, "a loaded policy list is followed"); sym_reach("loaded"); }
    if (r && i == 0 && pick(0, 1, "train")) { r->train(0); Apollo::instance()->train(0); }
  }
}
static void lookup() {
  if (pick(0, 1, "persist")) sym_setenv("APOLLO_PERSISTENT_DATASETS", "1"); Apollo::instance(); mkdir(".apollo/datasets", 0755); const char *name = "reg";
  int n = pick(1, NI, "n"), nf = n < 3 ? pick(1, 2, "nf") : 1; Apollo::Dataset d; RefDataset ref;
  for (int i = 0; i < n; i++) { FV f; f.push_back(sym_finite_float("f")); if (nf == 2) f.push_back(i & 1 ? 1.f : 2.f); int p = pick(0, 2, "policy"); double m = sym_metric("metric"); for (auto &e : ref.e) sym_assume(!(fv_eq(e.f, f) & (int)(e.p == p))); ref.e.push_back(RefEntry{f, p, m}); FV g = f; d.insert(g, p, m); }
  { std::ofstream o(".apollo/datasets/Dataset-reg.yaml"); d.store(o); }
  Apollo::Region *r = new Apollo::Region(nf, name, 3, 0, "DatasetMap");
  for (int q = 0; q < (n < 3 ? 2 : 1); q++) {
    FV f; int w = pick(0, n, "query"); if (w < n) f = ref.e[w].f; else { f.push_back(sym_finite_float("x")); if (nf == 2) f.push_back(sym_finite_float("x")); }
    int known = 0; for (auto &e : ref.e) known |= fv_eq(e.f, f);
    may_stop = !known; auto *c = r->begin(f); int p = r->getPolicyIndex(c); sym_assert(known, "features without a measurement stop the program"); sym_observe(p);
    // p was measured for f and no other policy measured for f is better
    int ok = 0, worse = 0; for (auto &a : ref.e) { int best = fv_eq(a.f, f) & (int)(a.p == p); for (auto &b : ref.e) best &= 1 - (fv_eq(b.f, f) & (int)(b.m < a.m)); ok |= best; }
    sym_assert(ok, "the policy with the least metric is selected"); sym_reach("looked up"); may_stop = 0;
    r->end(c, sym_metric("m")); if (q == 0 && pick(0, 1, "train")) { r->train(0); Apollo::instance()->train(0); }
  }
}
// the lookup model trained again on other measurements
static void again() {
  Params par; auto m = apollo::ModelFactory::createPolicyModel("DatasetMap", 1, 3, par); Apollo::Dataset d[2]; float f = sym_finite_float("f"), g = sym_finite_float("g"); sym_assume(f != g); int grow = pick(0, 1, "grow"), p0 = pick(0, 2, "policy"), p1 = pick(0, 2, "policy"); double m0 = sym_metric("m0"), m1 = sym_metric("m1");
  { FV v(1, f); d[0].insert(v, p0, m0); } FV q(1, f); m->train(d[0]); sym_assert(m->getIndex(q) == p0, "the policy measured is selected");
  if (grow) { FV v(1, f); d[1].insert(v, p0, m0); } { FV v(1, f); if (grow && p0 == p1) p1 = (p0 + 1) % 3; d[1].insert(v, p1, m1); } { FV v(1, g); d[1].insert(v, 1, m1); } m->train(d[1]);
  FV q2(1, f), q3(1, g); int got = m->getIndex(q2); sym_observe(got); sym_assert(grow ? ((int)(got == p0) & (int)(m0 <= m1)) | ((int)(got == p1) & (int)(m1 <= m0)) : (int)(got == p1), "the lookup follows the measurements it was trained on last"); sym_assert(m->getIndex(q3) == 1, "features measured since are known"); sym_reach("trained again");
}
extern "C" void sym_main() { sym_on_abort(stopped); int w = pick(0, 2, "what"); if (w == 2) again(); else if (w) lookup(); else optimal(); }
