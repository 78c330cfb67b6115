// A stored model is found and reused by the next run.
#include "treetext.h"
#ifndef NI
#define NI 2
#endif
static int may_stop = 0;
static void stopped() { sym_assert(may_stop, "the program stops only for a missing model file"); sym_reach("missing"); }
static bool exists(const std::string &p) { struct stat b; return stat(p.c_str(), &b) == 0; }
static int ask(Apollo::Region *r, float q) { FV f(1, q); auto *c = r->begin(f); int p = r->getPolicyIndex(c); r->end(c, 1.0); return p; }
static int measure(Apollo::Region *r, float q, double m) { auto *c = r->begin(FV(1, q)); int p = r->getPolicyIndex(c); r->end(c, m); return p; }
extern "C" void sym_main() {
  sym_on_abort(stopped);
  int rf = pick(0, 1, "kind"), setup = rf ? 0 : pick(0, 2, "setup"); std::string kind = rf ? "RandomForest" : "DecisionTree", params = rf ? ",num_trees=2" : setup != 1 ? ",max_depth=3" : "";
  const char *names[] = {"reg", "a.b-c"}; std::string name = names[setup == 1]; int rank = setup > 0;
  bool custom = setup == 2; std::string dir = custom ? "out/mods" : ".apollo/models"; if (custom) { sym_setenv("APOLLO_OUTPUT_DIR", "out"); sym_setenv("APOLLO_MODELS_DIR", "mods"); }
  sym_setenv("APOLLO_STORE_MODELS", "1"); Apollo::instance()->mpiRank = rank;
  if (pick(0, 1, "absent") == 0) { // nothing stored for this region, but for another region, kind and rank
    std::ofstream(dir + "/" + kind + "-latest-rank-" + dec(1 - rank) + "-" + name + ".yaml") << "x"; std::ofstream(dir + "/" + kind + "-latest-rank-" + dec(rank) + "-other.yaml") << "x"; std::ofstream(dir + "/" + (rf ? "DecisionTree" : "RandomForest") + "-latest-rank-" + dec(rank) + "-" + name + ".yaml") << "x";
    may_stop = 1; if (pick(0, 1, "explicit")) new Apollo::Region(1, name.c_str(), 3, 0, kind + ",load=nowhere.yaml"); else new Apollo::Region(1, name.c_str(), 3, 0, kind + ",load"); sym_fail("a missing model file stops the program");
  }
  Apollo::Region *other = new Apollo::Region(1, "unrelated", 3, 0, kind + params); (void)other;
  Apollo::Region *r = new Apollo::Region(1, name.c_str(), 3, 0, kind + params);
  std::string latest = dir + "/" + kind + "-latest-rank-" + dec(rank) + "-" + name + ".yaml"; int n = pick(1, NI, "n");
  for (int i = 0; i < n; i++) measure(r, sym_finite_float("f"), sym_metric("m"));
  sym_assert(!exists(latest), "nothing is stored before training");
  bool via = pick(0, 1, "via"); int step = via ? 7 : 123;
  if (via) Apollo::instance()->train(step); else r->train(step);
  std::string stepf = dir + "/" + kind + "-step-" + dec(step) + "-rank-" + dec(rank) + "-" + name + ".yaml";
  sym_assert(exists(stepf) && exists(latest), "training stores the model under its step and as the latest"); sym_assert(!exists(dir + "/" + kind + "-latest-rank-" + dec(rank) + "-unrelated.yaml"), "a region without measurements stores no model");
  sym_assert(same_words(words_of(stepf.c_str()), words_of(latest.c_str())), "the latest model is the one just trained"); sym_reach("stored");
  int second = setup != 1 && pick(0, 1, "retrained"); // trained once more on more data: the latest model is the new one
  if (second) { FV f(1, 5.0f); r->dataset.insert(f, 2, -1e300); r->train(step + 1, true, true); sym_assert(exists(dir + "/" + kind + "-step-" + dec(step + 1) + "-rank-" + dec(rank) + "-" + name + ".yaml"), "each step is stored"); sym_reach("retrained"); }
  int how = setup == 0 ? pick(0, 2, "how") : 0; // by name, by file, by the constructor argument
  Apollo::Region *s = how == 0 ? new Apollo::Region(1, name.c_str(), 3, 0, kind + ",load" + (rf ? ",num_trees=2" : "")) : how == 1 ? new Apollo::Region(1, "another", 3, 0, kind + ",load=" + latest) : new Apollo::Region(1, "another", 3, 0, kind, latest);
  sym_assert(!s->model->isTrainable(), "a loaded model is not trained again");
  float q = sym_finite_float("q"); int a = ask(r, q), b = ask(s, q); sym_observe(a); sym_assert(a == b, "the loaded model selects exactly as the stored one");
  measure(s, sym_finite_float("g"), sym_metric("gm")); s->train(99); sym_assert(ask(s, q) == a, "a loaded model keeps its selections"); sym_assert(!exists(dir + "/" + kind + "-step-99-rank-" + dec(rank) + "-" + s->name + ".yaml"), "a loaded model is not trained or stored again");
  sym_reach("reused");
}
