// Histories of the public interface up to the teardown of the runtime: the engine checks every memory
// access and release; live allocations are counted where LEAK is defined.
#include "common.h"
#include "cudastub.h"
#include <new>
#ifndef STEPS
#define STEPS 4
#endif
#if defined(LEAK) || defined(MODELS)
static long blocks = 0;
void *operator new(size_t n) { blocks++; return malloc(n); }
void operator delete(void *p) noexcept { if (p) blocks--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) blocks--; free(p); }
void *operator new[](size_t n) { blocks++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) blocks--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) blocks--; free(p); }
#endif
static const char *models[] = {"DecisionTree,max_depth=2", "RandomForest,num_trees=1", "RoundRobin", "PolicyNet"};
#ifdef MODELS
#ifndef NM
#define NM 2
#endif
// one life of a model: created, trained once or again, stored and loaded into it or another one, used, destroyed
static int kind, loads; static int sizes[2]; static float fs[3]; static double ms[3];
static void life(int number) {
  Params par; if (kind == 0) par["max_depth"] = "2"; if (kind == 1) { par["num_trees"] = "2"; par["max_depth"] = "2"; }
  const char *names[] = {"DecisionTree", "RandomForest", "PolicyNet"}; auto m = apollo::ModelFactory::createPolicyModel(names[kind], 1, 3, par); FV q(1, 2.f);
  for (int t = 0; t < 2; t++) if (sizes[t]) { Apollo::Dataset d; for (int i = 0; i < sizes[t]; i++) { FV f(1, fs[i]); d.insert(f, i, ms[i]); } m->train(d); FV g = q; m->getIndex(g); }
  if (loads && (sizes[0] || kind == 2)) { m->store("m.bin"); if (loads == 1) m->load("m.bin"); else { auto o = apollo::ModelFactory::createPolicyModel(names[kind], 1, 3, par); o->load("m.bin"); FV g = q; o->getIndex(g); } }
  FV g = q; m->getIndex(g);
}
#endif
extern "C" void sym_main() {
#ifdef MODELS
  kind = pick(0, 2, "kind"); sizes[0] = pick(0, NM, "first"); sizes[1] = sizes[0] ? pick(0, NM, "again") : 0; loads = pick(0, 2, "load"); for (int i = 0; i < 3; i++) { fs[i] = kind == 2 ? 3.f * i : sym_finite_float("f"); ms[i] = 0.5 * i + 1; }
  long after[3]; for (int i = 0; i < 3; i++) { life(i); after[i] = blocks; }
  sym_assert(after[1] == after[0] && after[2] == after[1], "a destroyed model leaves nothing behind"); sym_reach(kind == 0 ? "tree" : kind == 1 ? "forest" : "network"); return;
#endif
#ifdef LEAK
  { int kind = pick(0, 2, "kind"), dev = pick(0, 1, "device"), trained = pick(0, 1, "trained"); Apollo::instance();
    Apollo::Region *r = new Apollo::Region(1, "one", 2, 0, models[kind]); float f = sym_finite_float("f"); double m = sym_metric("m"); long after[5];
    for (int i = 0; i < 5; i++) { FV v(1, f); auto *c = dev ? r->begin(Apollo::Region::TIMING_CUDA_ASYNC) : r->begin(); r->setFeature(c, f); r->getPolicyIndex(c); if (dev && i != 3) { r->end(c); r->collectPendingContexts(); r->collectPendingContexts(); } else r->end(c, m); if (i == 1 && trained) r->train(0); after[i] = blocks; }
    sym_assert(live == 0, "the timers of finished executions are released"); sym_assert(after[3] == after[2] && after[4] == after[3], "finished executions leave nothing behind"); sym_observe(after[4] - after[2]); sym_reach(dev ? "device" : "synchronous"); return; }
#else
  Apollo::instance(); Apollo::Region *r[2] = {nullptr, nullptr}; Apollo::RegionContext *open[2] = {nullptr, nullptr}; int pending = 0; bool net[2] = {false, false};
  for (int s = 0; s < STEPS; s++) {
    int op = s == 0 ? 0 : pick(0, 4, "op"), k = s == 0 ? 0 : op == 3 ? 0 : pick(0, 1, "region");
    if (op == 0) { if (r[k]) return; int m = k ? pick(0, 1, "model") * 2 : pick(0, 3, "model"); net[k] = m == 3; r[k] = new Apollo::Region(1, k ? "two" : "one", 3, 0, models[m]); }
    else if (!r[k]) return;
    else if (op == 1) { auto *c = r[k]->begin(); r[k]->setFeature(c, net[k] ? 5.0f : sym_finite_float("f")); r[k]->getPolicyIndex(c); r[k]->end(c, net[k] ? 1.5 : sym_metric("m")); sym_reach("executed"); }
    else if (op == 2) { if (!open[k]) { open[k] = r[k]->begin(Apollo::Region::TIMING_CUDA_ASYNC); r[k]->setFeature(open[k], 2.0f); r[k]->getPolicyIndex(open[k]); } else { r[k]->end(open[k]); open[k] = nullptr; pending = 1; sym_reach("device"); } }
    else if (op == 3) { Apollo::instance()->train(s); sym_reach("trained"); }
    else { r[k]->train(s, true, pick(0, 1, "force")); sym_reach("trained"); }
  }
  if (open[0] || open[1]) return; // an execution that is never ended
  sym_run_atexit(); sym_assert(live == 0, "teardown releases every timer"); sym_reach(pending ? "torn down after device executions" : "torn down");
  sym_end();
#endif
}
