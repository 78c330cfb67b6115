// Static and StaticRegion select the configured policy for every feature vector.
#include "common.h"
static bool in_ctor = false;
static int expect_abort = 0;
static void on_abort() { sym_assert(expect_abort, "only a bad configuration stops the program"); sym_reach("refused"); }
static void select_all(Apollo::Region *r, int want) {
  for (int i = 0; i < 2; i++) {
    auto *c = r->begin(); int n = pick(0, 1, "nf"); for (int j = 0; j <= n; j++) r->setFeature(c, sym_float("x"));
    int got = r->getPolicyIndex(c); sym_observe(got); sym_assert(got == want, "configured policy"); r->end(c, sym_double("m"));
  }
  r->train(0); auto *c = r->begin(); sym_assert(r->getPolicyIndex(c) == want, "configured policy after training"); r->end(c);
}
extern "C" void sym_main() {
  sym_on_abort(on_abort);
  int mode = pick(0, 3, "mode");
  if (mode == 0) { // model object, fully symbolic
    int P = sym_range(1, 0x7fffffff, "policies"), pol = sym_range(0, 0x7fffffff, "policy");
    apollo::Static s(P, pol); FV f; f.push_back(sym_float("x")); sym_assert(s.getIndex(f) == pol, "static model returns its policy"); sym_assert(!s.isTrainable(), "not trainable"); sym_reach("object");
  } else if (mode == 1) { // text configuration: number of policies symbolic, digits symbolic
    int P = sym_range(1, 0x7fffffff, "policies");
    int nd = pick(0, 3, "digits"); std::string s = "Static"; int val = 0; bool neg = false;
    if (nd) { s += ",policy="; if (pick(0, 1, "neg")) { s += "-"; neg = true; }
      for (int i = 0; i < nd; i++) { int d = pick(0, 9, "d"); if (nd == 3 && i == 1 && d > 1) sym_end(); s.push_back((char)('0' + d)); val = val * 10 + d; } }
    if (neg) val = -val;
    int want = (int)sym_ite32(val < P, (uint32_t)val, 0);
    bool threw = false; Apollo::Region *r = nullptr;
    if (pick(0, 1, "via")) { try { r = new Apollo::Region(1, "reg", P, 0, s); } catch (std::exception &e) { threw = true; } }
    else { sym_setenv("APOLLO_POLICY_MODEL", s.c_str()); try { r = new Apollo::Region(1, "reg", P); } catch (std::exception &e) { threw = true; } }
    sym_assert(threw == (val < 0), "a negative policy is refused, others are not");
    if (r) { select_all(r, want); sym_reach("text"); } else sym_reach("negative");
  } else { // per-region static policies
    static const int V[] = {0, 2, 12, 5}; int a = V[pick(0, 3, "pa")], b = V[pick(0, 2, "pb")]; int P = sym_range(1, 20, "policies");
    std::string s = std::string("StaticRegion,alpha=") + dec(a) + ",be=" + dec(b);
    const char *nm[] = {"be", "alpha", "b", "beta"}; int k = pick(0, 3, "name");
    expect_abort = k >= 2;
    Apollo::Region *r = mode == 2 ? new Apollo::Region(1, nm[k], P, 0, s) : nullptr;
    if (!r) { sym_setenv("APOLLO_POLICY_MODEL", s.c_str()); r = new Apollo::Region(1, nm[k], P); }
    sym_assert(k < 2, "a region that is not listed is refused");
    int v = k ? a : b; select_all(r, (int)sym_ite32(v < P, (uint32_t)v, 0)); sym_reach("per region");
    Apollo::Region *q = new Apollo::Region(1, k ? "be" : "alpha", P, 0, s); int u = k ? b : a; select_all(q, (int)sym_ite32(u < P, (uint32_t)u, 0)); select_all(r, (int)sym_ite32(v < P, (uint32_t)v, 0));
  }
}
