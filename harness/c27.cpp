// Execution traces: a header and one well-formed row per execution.
#include "common.h"
#include "clock.h"
#ifndef STEPS
#define STEPS 3
#endif
static double now_s = 100.0;
static void now_ts(clockid_t, struct timespec *ts) { now_s += 0.5; ts->tv_sec = (long)now_s; ts->tv_nsec = (long)((now_s - (long)now_s) * 1e9); }
typedef std::vector<std::string> Row;
static std::vector<Row> rows_of(const std::string &file) {
  std::vector<Row> r; std::ifstream f(file.c_str()); sym_assert((bool)f, "each region has its trace file"); std::string l;
  while (std::getline(f, l)) { Row w; std::string cur; for (char c : l) { if (c == ' ' || c == '\t') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(c); } if (!cur.empty()) w.push_back(cur); r.push_back(w); }
  return r;
}
struct Ex { FV f; int p; double m; int idx; std::string model; };
static void check(const std::string &file, const char *region, int nf, int rank, const std::vector<Ex> &ex) {
  auto rows = rows_of(file); sym_assert(rows.size() == ex.size() + 1, "one header and one row per execution");
  Row &h = rows[0]; sym_assert((int)h.size() == 6 + nf, "the header names every column"); sym_assert(h[0] == "rankid" && h[1] == "training" && h[2] == "region" && h[3] == "idx" && h[4 + nf] == "policy" && h[5 + nf] == "xtime", "column names"); for (int i = 0; i < nf; i++) sym_assert(h[4 + i] == "f" + dec(i), "feature columns are numbered");
  for (size_t k = 0; k < ex.size(); k++) {
    Row &r = rows[k + 1]; const Ex &e = ex[k]; sym_assert(r.size() == h.size(), "a row has as many fields as the header");
    sym_assert(r[0] == dec(rank), "rank"); sym_assert(r[1].compare(0, e.model.size(), e.model) == 0, "model"); sym_assert(r[2] == region, "region"); sym_assert(r[3] == dec(e.idx), "rows are numbered by execution, in order");
    for (int i = 0; i < nf; i++) sym_assert(sym_number_is(r[4 + i].c_str(), e.f[i], 6), "a row has the features of its execution");
    sym_assert(r[4 + nf] == dec(e.p), "a row has the policy selected in its execution"); sym_assert(sym_number_is(r[5 + nf].c_str(), e.m, 6), "a row has the metric of its execution");
  }
}
#ifdef ENABLE_CUDA
// device-timed executions: recorded when found finished, with their own number, features, policy and time
#include "cudastub.h"
extern "C" void sym_main() {
  sym_setenv("APOLLO_TRACE_CSV", "1"); Apollo::Region *r = new Apollo::Region(1, "one", 3, 0, "RoundRobin"); dev_ready = pick(0, 1, "ready"); dev_ms = sym_float("ms"); sym_assume((dev_ms >= 0.f) & (dev_ms <= 1e9f));
  std::vector<Ex> ex; Apollo::RegionContext *c[3]; int n = pick(1, 3, "n");
  for (int i = 0; i < n; i++) { Ex e; e.idx = i; e.model = "RoundRobin"; e.f.push_back(sym_finite_float("f")); c[i] = r->begin(Apollo::Region::TIMING_CUDA_ASYNC); r->setFeature(c[i], e.f[0]); e.p = r->getPolicyIndex(c[i]); e.m = dev_ms / 1000.0; ex.push_back(e); }
  int perm = pick(0, n == 1 ? 0 : n == 2 ? 1 : 5, "order"); std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(i); while (perm--) std::next_permutation(o.begin(), o.end());
  for (int i : o) r->end(c[i]);
  delete r; Apollo::instance()->regions.clear();
  // the rows are those of the executions, in the order in which they were found finished
  auto rows = rows_of(".apollo/traces/trace-RoundRobin-region-one-rank-0.csv"); sym_assert((int)rows.size() == n + 1, "one header and one row per execution"); std::vector<Ex> seen; std::set<int> ids;
  for (int k = 1; k <= n; k++) { sym_assert(rows[k].size() == 7, "a row has as many fields as the header"); int id = atoi(rows[k][3].c_str()); sym_assert(id >= 0 && id < n && ids.insert(id).second, "rows are numbered by execution"); seen.push_back(ex[id]); }
  check(".apollo/traces/trace-RoundRobin-region-one-rank-0.csv", "one", 1, 0, seen); if (n > 1 && o[0] != 0) sym_reach("out of order"); sym_reach("traced");
}
#else
extern "C" void sym_main() {
  int csv = pick(0, 1, "csv"), rank = pick(0, 1, "rank"); if (csv) sym_setenv("APOLLO_TRACE_CSV", "1"); if (csv == rank && pick(0, 1, "persist")) sym_setenv("APOLLO_PERSISTENT_DATASETS", "1");
  Apollo::instance()->mpiRank = rank;
  int k = pick(0, 2, "model"); const char *mi[] = {"RoundRobin", "DecisionTree,max_depth=2", "Static,policy=1"}, *mn[] = {"RoundRobin", "DecisionTree", "Static"};
  int nf = csv ? pick(0, 2, "nf") : 1; Apollo::Region *r[2] = {new Apollo::Region(nf, "one", 3, 0, mi[k]), new Apollo::Region(1, "two", 2, 0, "RoundRobin")}; std::vector<Ex> ex[2]; RefDataset ref[2]; int rr[2] = {0, 0};
  for (int s = 0; s < STEPS; s++) {
    int w = s == 0 ? 0 : pick(0, 1, "which"), own = pick(0, 1, "own_metric"); Ex e; e.idx = ex[w].size(); e.model = w ? "RoundRobin" : mn[k]; for (int i = 0; i < (w ? 1 : nf); i++) e.f.push_back(sym_finite_float("f"));
    auto *c = r[w]->begin(e.f); e.p = r[w]->getPolicyIndex(c);
    // tracing changes neither selections nor measurements
    sym_assert(e.p == (w ? rr[1]++ % 2 : k == 2 ? 1 : rr[0]++ % 3), "selections are those without tracing");
    if (own) { e.m = sym_metric("m"); r[w]->end(c, e.m); } else { e.m = 0.5; r[w]->end(c); } ex[w].push_back(e);
    if (Config::APOLLO_PERSISTENT_DATASETS || r[w]->model->isTrainable()) ref[w].add(e.f, e.p, e.m);
    for (int i = 0; i < 2; i++) check_same(r[i]->dataset, ref[i], "measurements are those without tracing");
  }
  struct stat b; for (int i = 0; i < 2; i++) { std::string f = ".apollo/traces/trace-" + std::string(i ? "RoundRobin" : mi[k]) + "-region-" + (i ? "two" : "one") + "-rank-" + dec(rank) + ".csv";
    delete r[i]; if (csv) { check(f, i ? "two" : "one", i ? 1 : nf, rank, ex[i]); sym_reach("traced"); } else { sym_assert(stat(".apollo/traces", &b) != 0, "nothing is traced unless enabled"); sym_reach("untraced"); } }
  Apollo::instance()->regions.clear();
}
#endif
