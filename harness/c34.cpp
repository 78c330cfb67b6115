// Reports of a run: executions per region, selections, global trace and best policies state what happened.
#include "common.h"
#include "clock.h"
#ifndef STEPS
#define STEPS 3
#endif
static double now_s = 100.0;
static void now_ts(clockid_t, struct timespec *ts) { now_s += 0.5; ts->tv_sec = (long)now_s; ts->tv_nsec = (long)((now_s - (long)now_s) * 1e9); }
typedef std::vector<std::string> Row;
// words of each line, without brackets and the commas that end them
static bool rows_of(const std::string &file, std::vector<Row> &r) {
  std::ifstream f(file.c_str()); if (!f) return false; std::string l;
  while (std::getline(f, l)) { Row w; std::string cur; l.push_back(' '); for (char c : l) { if (c == ' ' || c == '\t' || c == '[' || c == ']') { while (!cur.empty() && cur[cur.size() - 1] == ',') cur.resize(cur.size() - 1); if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(c); } r.push_back(w); }
  return true;
}
struct Sel { int w; FV f; int p; int idx; std::string model; };
static int is(const std::string &t, double v) { return sym_number_is(t.c_str(), v, 6); }
static const char *NAMES[] = {"one", "two-b"};
extern "C" void sym_main() {
  int best = pick(0, 1, "best"), info = best ? 0 : pick(0, 1, "info"), policy = best ? 0 : pick(0, 1, "policy"), csv = best ? 0 : pick(0, 1, "csv"), rank = policy != best && !csv ? pick(0, 1, "rank") * 3 : 0;
  if (info) sym_setenv("APOLLO_STORE_EXEC_INFO", "1"); if (policy) sym_setenv("APOLLO_TRACE_POLICY", "1"); if (best) sym_setenv("APOLLO_TRACE_BEST_POLICIES", "1"); if (csv) sym_setenv("APOLLO_TRACE_CSV", "1");
  const char *dir = ".apollo"; if (info && !best && pick(0, 1, "dir")) { dir = "elsewhere"; sym_setenv("APOLLO_OUTPUT_DIR", dir); }
  Apollo *A = Apollo::instance(); A->mpiRank = rank;
  int k = best ? 0 : pick(0, 1, "model"); const char *mi[] = {"DecisionTree", "Static,policy=1"}; int nf = best ? pick(1, 2, "nf") : pick(0, 2, "nf");
  Apollo::Region *r[2] = {new Apollo::Region(nf, NAMES[0], 2, 0, mi[k]), new Apollo::Region(1, NAMES[1], 3, 0, "RoundRobin")};
  std::vector<Sel> sel; RefDataset ref; int cnt[2] = {0, 0}; std::vector<int> done;
  for (int s = 0; s < STEPS; s++) {
    Sel e; e.w = pick(0, 1, "which"); e.idx = cnt[e.w]; e.model = e.w ? "RoundRobin" : k ? "Static" : "DecisionTree";
    for (int i = 0; i < (e.w ? 1 : nf); i++) { float f = sym_finite_float("f"); sym_assume((f >= -1e6f) & (f <= 1e6f)); e.f.push_back(f); }
    auto *c = r[e.w]->begin(e.f); e.p = r[e.w]->getPolicyIndex(c); sym_assert(e.p == (e.w ? cnt[1] % 3 : k ? 1 : cnt[0] % 2), "selections are those without reports");
    double m = best ? sym_metric("m") : s + 0.5; r[e.w]->end(c, m); if (!e.w && !k) ref.add(e.f, e.p, m); cnt[e.w]++; sel.push_back(e);
  }
  check_same(r[0]->dataset, ref, "measurements are those without reports");
  std::vector<Row> rows; int step = 7;
  r[0]->train(step); sym_assert(r[0]->model->isTrainable() == (!k && ref.e.empty()), "training is that without reports");
  std::string bf = "step-7-rank-" + dec(rank) + "-one-best_policies.txt"; bool there = rows_of(bf, rows);
  sym_assert(there == (best && !k && !ref.e.empty()), "best policies are reported for a training, when asked for");
  if (there) {
    Row &h = rows[0]; int named = 0, ranked = 0; for (auto &w : h) { if (w == "one") named = 1; if (w == dec(rank)) ranked = 1; } sym_assert(named && ranked, "the report names rank and region");
    std::vector<int> first; for (size_t i = 0; i < ref.e.size(); i++) { bool seen = false; for (int j : first) if (fv_eq(ref.e[i].f, ref.e[j].f)) seen = true; if (!seen) first.push_back(i); }
    sym_assert(rows.size() == first.size() + 1, "one line per measured feature vector");
    // each line: a measured feature vector, a policy with the least metric of that vector, and that metric; each vector once
    for (int i : first) {
      int n = 0;
      for (size_t l = 1; l < rows.size(); l++) {
        Row &w = rows[l]; sym_assert((int)w.size() == nf + 3 && w[nf].compare(0, 2, "P:") == 0 && w[nf + 1] == "T:", "a line has features, policy and metric");
        int any = 0; for (auto &e : ref.e) { int least = fv_eq(e.f, ref.e[i].f) & is(w[nf].substr(2), e.p) & is(w[nf + 2], e.m); for (auto &o : ref.e) least &= (fv_eq(o.f, e.f) ^ 1) | (int)(e.m <= o.m); any |= least; }
        for (int j = 0; j < nf; j++) any &= is(w[j], (int)ref.e[i].f[j]); n |= any;
      }
      sym_assert(n, "the report states the least-metric policy and its metric for each measured feature vector");
    }
    sym_reach("best policies");
  }
  // one more selection by the trained model
  { Sel e; e.w = 0; e.idx = cnt[0]; e.model = k ? "Static" : "DecisionTree"; for (int i = 0; i < nf; i++) e.f.push_back(3.75f - 8 * i); auto *c = r[0]->begin(e.f); e.p = r[0]->getPolicyIndex(c); r[0]->end(c, 1.0); cnt[0]++; sel.push_back(e); sym_observe(e.p); }
  int all = cnt[0] + cnt[1]; sym_assert((int)A->region_executions == all, "every execution is counted");
  sym_run_atexit();
  rows.clear(); there = rows_of("rank-" + dec(rank) + "-policies.txt", rows); sym_assert(there == (policy != 0), "selections are reported when asked for");
  if (there) {
    sym_assert(rows.size() == sel.size(), "one line per selection");
    for (size_t i = 0; i < rows.size(); i++) {
      Row &w = rows[i]; Sel &e = sel[i]; int n = e.f.size(); sym_assert((int)w.size() == 9 + n, "a line has rank, region, model, features and policy");
      sym_assert(w[1] == dec(rank) && w[3] == NAMES[e.w] && w[5].compare(0, e.model.size(), e.model) == 0, "rank, region and model of the selection"); for (int j = 0; j < n; j++) sym_assert(is(w[7 + j], (int)e.f[j]), "the features of the selection"); sym_assert(is(w[8 + n], e.p), "the selected policy");
    }
    sym_reach("selections");
  }
  rows.clear(); there = rows_of(std::string(dir) + "/apollo_exec_info.csv", rows); sym_assert(there == (info != 0), "executions are reported when asked for");
  if (there) { sym_assert(rows.size() == 2, "one line per region"); for (int i = 0; i < 2; i++) { int n = 0; for (auto &w : rows) n += w.size() == 2 && w[0] == NAMES[i] && w[1] == dec(cnt[i]); sym_assert(n == 1, "a region is reported with its number of executions"); } sym_reach("executions"); }
  rows.clear(); there = rows_of(std::string(dir) + "/traces/trace-rank-0.csv", rows); sym_assert(there == (csv != 0), "the run is traced when asked for");
  if (there) {
    sym_assert(rows.size() == sel.size() + 1, "one row per execution, after the header"); double prev = 0;
    for (size_t i = 0; i < sel.size(); i++) { Row &w = rows[i + 1]; Sel &e = sel[i]; sym_assert(w.size() == 5, "a row has time, region, execution, model and policy"); double t = strtod(w[0].c_str(), nullptr); sym_assert(t > prev, "rows are in the order of time"); prev = t; sym_assert(w[1] == NAMES[e.w] && w[2] == dec(e.idx) && w[3].compare(0, e.model.size(), e.model) == 0 && is(w[4], e.p), "a row states its execution"); }
    sym_reach("traced");
  }
  if (!info && !policy && !best && !csv) sym_reach("nothing asked for");
  sym_end();
}
