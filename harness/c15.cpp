// Executions timed on a device: any readiness schedule, any completion order.
#include "common.h"
#ifdef ENABLE_HIP
#include <hip/hip_runtime.h>
#define D(x) hip##x
#define KIND Apollo::Region::TIMING_HIP_ASYNC
#else
#include <cuda_runtime.h>
#define D(x) cuda##x
#define KIND Apollo::Region::TIMING_CUDA_ASYNC
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef NEX
#define NEX 2
#endif
#ifndef LATE
#define LATE 2   // an execution is found unfinished at most this many times
#endif
struct Ev { bool alive, recorded, rec2; float ms; int late; bool ready; int stop; };
static Ev ev[64]; static int nev = 0, live = 0;
static int extra = 0;                    // times more while a region is destroyed
static int completed = 0;                // executions whose timer has reported completion
static std::vector<int> order;           // their stop events, in that order
static Ev &E(D(Event_t) e) { int i = (int)(long)e - 1; sym_assert(i >= 0 && i < nev, "a device event is one that was created"); sym_assert(ev[i].alive, "a device event is not used after it was destroyed"); return ev[i]; }
static bool ready(Ev &b, int i) {
  if (b.ready) return true;
  if (b.late >= LATE + extra || pick(0, 1, "ready")) { b.ready = true; completed++; order.push_back(i); return true; }
  b.late++; return false;
}
extern "C" {
D(Error_t) D(EventCreateWithFlags)(D(Event_t) * e, unsigned) { sym_assert(nev < 60, "few events"); ev[nev] = Ev{true, false, false, 0.f, 0, false, 0}; *e = (D(Event_t))(long)(++nev); live++; return D(Success); }
D(Error_t) D(EventCreate)(D(Event_t) * e) { return D(EventCreateWithFlags)(e, 0); }
D(Error_t) D(EventDestroy)(D(Event_t) e) { E(e).alive = false; live--; return D(Success); }
D(Error_t) D(EventRecord)(D(Event_t) e, D(Stream_t)) { E(e).recorded = true; return D(Success); }
D(Error_t) D(EventQuery)(D(Event_t) e) { Ev &b = E(e); return !b.recorded || ready(b, (int)(long)e) ? D(Success) : D(ErrorNotReady); }
D(Error_t) D(EventSynchronize)(D(Event_t) e) { Ev &b = E(e); b.late = LATE + extra; if (b.recorded) ready(b, (int)(long)e); return D(Success); }
D(Error_t) D(EventElapsedTime)(float *ms, D(Event_t) a, D(Event_t) b) {
  if (!E(a).recorded || !E(b).recorded) return D(ErrorInvalidResourceHandle);
  if (!ready(E(b), (int)(long)b)) return D(ErrorNotReady);
  *ms = E(b).ms; return D(Success);
}
const char *D(GetErrorString)(D(Error_t)) { return "device error"; }
}
static double now_s = 100.0;
extern "C" int clock_gettime(clockid_t, struct timespec *ts) { now_s += 0.5; ts->tv_sec = (long)now_s; ts->tv_nsec = (long)((now_s - (long)now_s) * 1e9); return 0; }
struct Ex { Apollo::RegionContext *c; FV f; int p; float ms; int stop; bool ended; };
static void aborted() { sym_fail("device-timed executions never stop the program"); }
extern "C" void sym_main() {
  sym_on_abort(aborted);
  sym_setenv("APOLLO_PERSISTENT_DATASETS", "1");
  Apollo::Region *r = new Apollo::Region(1, "dev", 3, 0, pick(0, 1, "model") ? "DecisionTree" : "RoundRobin");
  unsigned long long &execs = Apollo::instance()->region_executions;
  std::vector<Ex> ex; RefDataset ref; int direct = 0, taken = 0; float last = 0; bool haveLast = false;
  auto feature = [&] { float f = sym_finite_float("f"); if (haveLast) sym_assume(f > last); last = f; haveLast = true; return f; };
  auto sync = [&] { // what the timers reported so far is what is recorded
    for (; taken < (int)order.size(); taken++) for (auto &x : ex) if (x.ended && x.stop == order[taken]) ref.add(x.f, x.p, x.ms / 1000.0);
  };
  for (int s = 0; s < STEPS; s++) {
    int op = pick(0, 5, "op"); bool did = true;
    if (op == 0) {
      if ((int)ex.size() >= NEX) return;
      float f = feature(); int ev0 = nev; Ex x; x.c = r->begin(KIND); sym_assert(nev == ev0 + 2, "an execution has its own timer");
      r->setFeature(x.c, f); x.f.push_back(f); x.p = r->getPolicyIndex(x.c); x.ended = false; x.ms = sym_finite_float("ms"); sym_assume(x.ms >= 0.f);
      for (int i = ev0; i < nev; i++) ev[i].ms = x.ms; x.stop = 0; ex.push_back(x);
    } else if (op == 1 || op == 2) {
      int n = 0; for (auto &x : ex) n += !x.ended; if (!n) return;
      int w = pick(0, n - 1, "which"); Ex *x = nullptr; for (auto &y : ex) if (!y.ended && w-- == 0) x = &y;
      x->ended = true;
      if (op == 1) { // its stop event: the only one of its two events recorded by end
        bool was[64]; for (int i = 0; i < nev; i++) was[i] = ev[i].recorded;
        // each execution owns two consecutive events
        int k = (int)(x - &ex[0]) * 2; x->stop = was[k] ? k + 2 : k + 1; r->end(x->c);
      } else { double m = sym_metric("metric"); r->end(x->c, m); ref.add(x->f, x->p, m); direct++; sym_reach("given metric"); }
    } else if (op == 3) r->collectPendingContexts();
    else if (op == 4) { if (pick(0, 1, "train")) r->train(s); else Apollo::instance()->train(s); sym_reach("trained"); }
    else { float f = feature(); auto *c = r->begin(); r->setFeature(c, f); int p = r->getPolicyIndex(c); double m = sym_metric("smetric"); r->end(c, m); FV v(1, f); ref.add(v, p, m); direct++; sym_reach("synchronous execution in between"); }
    sync();
    sym_assert(execs == (unsigned long long)(direct + completed), "every finished execution is counted exactly once, no unfinished one");
    check_same(r->dataset, ref, "exactly the finished executions are recorded, each with its own features, policy and elapsed device time in seconds");
    int given = 0; for (auto &x : ex) given += x.ended && !x.stop;
    sym_assert(live == 2 * ((int)ex.size() - completed - given), "timers of finished executions are released, of others kept");
  }
  int pending = 0; for (auto &x : ex) { if (!x.ended) return; pending += x.stop != 0; }
  if (pending - completed > 0) sym_reach("destroyed with pending executions"); if (order.size() == 2 && order[0] > order[1]) sym_reach("out of order");
  extra = 1; delete r; sync();
  sym_assert(execs == (unsigned long long)(direct + pending), "destroying a region records its pending executions");
  sym_assert(live == 0, "every timer was released");
  Apollo::Dataset d; std::ifstream in(".apollo/datasets/Dataset-dev.yaml"); if (in) d.load(in);
  check_same(d, ref, "the stored dataset holds every execution"); sym_reach("all recorded");
}
