// A selected policy is always one of the region's policies.
#include "common.h"
#ifndef NI
#define NI 2
#endif
static void in_range(int got, int P) { sym_observe(got); sym_assert((got >= 0) & (got < P), "selected policy is one of the region's policies"); }
static FV anyf(int n) { FV f; for (int i = 0; i < n; i++) f.push_back(sym_float("x")); return f; }
extern "C" void sym_main() {
  int kind = pick(0, 9, "kind");
  if (kind <= 3) { // models without training, any number of policies
    int P = sym_range(1, 0x7fffffff, "policies"); Params par; const char *nm[] = {"RoundRobin", "Random", "DecisionTree", "RandomForest"};
    if (kind >= 2) par["explore"] = pick(0, 1, "explore") ? "Random" : "RoundRobin";
    auto m = apollo::ModelFactory::createPolicyModel(nm[kind], 2, P, par);
    for (int i = 0; i < 3; i++) { FV f = anyf(2); in_range(m->getIndex(f), P); }
    sym_reach("untrained");
  } else if (kind <= 5) { // trained on measurements of the region's policies; any query
    int P = pick(1, 3, "policies"), n = pick(1, NI, "entries"); Apollo::Dataset ds; Params par; par["max_depth"] = dec(pick(0, 2, "depth")); par["num_trees"] = "2"; if (kind == 4) par.erase("num_trees");
    for (int i = 0; i < n; i++) { FV f(1, sym_finite_float("f")); ds.insert(f, sym_range(0, P - 1, "policy"), sym_metric("m")); }
    auto m = apollo::ModelFactory::createPolicyModel(kind == 4 ? "DecisionTree" : "RandomForest", 1, P, par);
    m->train(ds); FV f = anyf(1); in_range(m->getIndex(f), P); sym_reach("trained");
  } else if (kind == 6) { // policy network: any probabilities, any draw
    int P = pick(1, 3, "policies"); Params par; apollo::PolicyNet *pn; auto m = apollo::ModelFactory::createPolicyModel("PolicyNet", 1, P, par); pn = (apollo::PolicyNet *)m.get();
    FV f(1, 5.f); in_range(m->getIndex(f), P);
    for (auto &e : pn->actionProbabilityMap) { std::vector<double> v; for (int i = 0; i < P; i++) v.push_back(sym_double("prob")); e.second = v; }
    FV g(1, 5.f); in_range(m->getIndex(g), P); sym_reach("network");
  } else if (kind == 7) { // through a region, also after its training and with any features
    const char *mi[] = {"DecisionTree", "RandomForest,num_trees=2", "Random", "RoundRobin", "DecisionTree,explore=Random", "Static,policy=9"}; int k = pick(0, 5, "model"), P = pick(1, 3, "policies");
    Apollo::Region *r = new Apollo::Region(1, "reg", P, 0, mi[k]);
    for (int i = 0; i < 2; i++) { FV f(1, sym_finite_float("f")); auto *c = r->begin(f); int p = r->getPolicyIndex(c); in_range(p, P); sym_assert(c->policy == p, "the recorded policy is the selected one"); r->end(c, sym_metric("m")); }
    if (pick(0, 1, "train")) r->train(0);
    auto *c = r->begin(anyf(1)); in_range(r->getPolicyIndex(c), P); r->end(c); sym_reach("region");
  } else if (kind == 8) { // measurement lookup
    int P = pick(1, 3, "policies"); Params par; Apollo::Dataset ds; int n = pick(1, NI, "entries"); std::vector<FV> fs; for (int i = 0; i < n; i++) { FV f(1, sym_finite_float("f")); fs.push_back(f); ds.insert(f, sym_range(0, P - 1, "policy"), sym_metric("m")); }
    auto m = apollo::ModelFactory::createPolicyModel("DatasetMap", 1, P, par); m->train(ds); for (auto f : fs) in_range(m->getIndex(f), P); sym_reach("lookup");
  } else { // fixed: any configured policy
    int P = sym_range(1, 0x7fffffff, "policies"); int d = pick(0, 12, "pol"); Params par; par["policy"] = dec(d); auto m = apollo::ModelFactory::createPolicyModel("Static", 1, P, par); FV f = anyf(1); in_range(m->getIndex(f), P); sym_reach("fixed");
  }
}
