// Kokkos requests: values are candidates, combinations and policies correspond one to one, contexts
// are recorded in the region of their request.
#include "kk.h"
#include "clock.h"
#ifndef PART
#define PART 0
#endif
#ifndef STEPS
#define STEPS 4
#endif
static long ticks = 0;
static void now_ts(clockid_t, struct timespec *ts) { ticks++; ts->tv_sec = ticks; ts->tv_nsec = 0; }
typedef std::vector<int64_t> Combo;
struct Problem { std::vector<VariableInfo *> in, out; size_t id0; std::vector<int> size; std::vector<int64_t> base;
  // one request; the returned indices of the candidates
  Combo ask(size_t ctx, const std::vector<VariableValue> &cv) {
    std::vector<VariableValue> c = cv, v; for (size_t i = 0; i < out.size(); i++) v.push_back(kk_value(id0 + 50 + i, out[i]));
    kokkosp_request_values(ctx, c.size(), c.data(), v.size(), v.data()); Combo r;
    for (size_t i = 0; i < out.size(); i++) { int64_t x = (int64_t)sym_concretize(v[i].value.int_value - base[i]); sym_assert(v[i].type_id == id0 + 50 + i, "a returned value belongs to its variable"); sym_assert(x >= 0 && x < size[i], "each returned value is a candidate of its variable"); r.push_back(x); }
    return r; } };
static Problem problem(size_t id0, const std::vector<int> &sizes, const char *prefix) {
  Problem p; p.id0 = id0; std::string pre = prefix;
  for (size_t i = 0; i < sizes.size(); i++) { p.size.push_back(sizes[i]); int64_t b = sym_u64("base"); sym_assume((b >= -(1l << 40)) & (b <= (1l << 40))); p.base.push_back(b); p.out.push_back(kk_set((pre + dec((int)i)).c_str(), id0 + 50 + i, sizes[i], p.base.back())); }
  return p; }
static Apollo::Region *region_of(const std::string &sub) { for (auto &r : Apollo::instance()->regions) if (std::string(r.first).find(sub) != std::string::npos) return r.second; return nullptr; }
extern "C" void sym_main() {
#if PART == 0 // every combination exactly once
  sym_setenv("APOLLO_POLICY_MODEL", pick(0, 1, "model") ? "RandomForest,explore=RoundRobin" : "RoundRobin"); Apollo::instance();
  int nt = pick(1, 3, "variables"); std::vector<int> sz; int n = 1; for (int i = 0; i < nt; i++) { sz.push_back(pick(1, nt == 3 ? 2 : 3, "size")); n *= sz.back(); }
  if (nt == 3) sz[pick(0, 2, "big")] *= 2; n = 1; for (int s : sz) n *= s;
  Problem p = problem(1, sz, "v"); std::set<Combo> seen;
  for (int i = 0; i < n; i++) { seen.insert(p.ask(i, {})); kokkosp_end_context(i); }
  sym_assert((int)seen.size() == n, "as many requests as combinations give every combination exactly once"); sym_observe(n);
  sym_assert(seen.count(p.ask(n, {})) == 1, "then the combinations repeat"); sym_reach("covered");
#elif PART == 1 // contexts of two tuning problems in every order
  sym_setenv("APOLLO_POLICY_MODEL", "RandomForest,explore=RoundRobin"); Apollo::instance();
  Problem P[2] = {problem(100, {2, 2}, "left"), problem(200, {3}, "right")};
  VariableInfo *ii = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded), *di = kk_info(ValueType::kokkos_value_double, CandidateValueType::kokkos_value_unbounded);
  kokkosp_declare_input_type("leftint", 1, ii); kokkosp_declare_input_type("leftreal", 2, di);
  int64_t iv[STEPS]; double dv[STEPS]; struct Open { size_t ctx; FV f; int pol; int step; }; std::vector<Open> open[2]; RefDataset want[2]; Apollo::Region *reg[2] = {nullptr, nullptr};
  for (int s = 0; s < STEPS; s++) {
    int op = pick(0, 3, "op"), k = op & 1;
    if (op < 2 && open[k].empty()) { // begin: executions of one tuning problem do not overlap
      std::vector<VariableValue> cv; FV f;
      if (k == 0) { int64_t x = sym_u64("int"); sym_assume((x > -(1l << 40)) & (x < (1l << 40))); double d = sym_finite_double("real"); sym_assume((d > -1e6) & (d < 1e6)); VariableValue a = kk_value(1, ii), b = kk_value(2, di); a.value.int_value = x; b.value.double_value = d; cv = {a, b}; f = {(float)x, (float)d}; }
      size_t ctx = pick(0, 1, "reuse") ? 5 + k : 10 + s; Combo c = P[k].ask(ctx, cv); int pol = 0, m = 1; for (size_t i = 0; i < c.size(); i++) { pol += (int)c[i] * m; m *= P[k].size[i]; }
      if (!reg[k]) reg[k] = region_of(k ? "right" : "left"); sym_assert(reg[k] != nullptr, "a tuning problem has a region"); open[k].push_back(Open{ctx, f, pol, s}); sym_reach("requested");
    } else if (op < 2) { kokkosp_end_context(99); sym_reach("unknown"); } // a context without request
    else if (!open[k].empty()) { Open o = open[k][0]; open[k].clear(); kokkosp_end_context(o.ctx); kokkosp_end_context(o.ctx); // the second end is unknown
      Apollo::Region *r = reg[k]; auto v = r->dataset.toVectorOfTuples(); int n = 0; for (auto &t : v) n += fv_eq(std::get<0>(t), o.f);
      sym_assert(n >= 1, "the context variables are the features of the recorded execution"); want[k].e.push_back(RefEntry{o.f, o.pol, 0.0}); sym_reach("ended"); }
    for (int j = 0; j < 2; j++) if (reg[j]) { auto v = reg[j]->dataset.toVectorOfTuples(); int all = 1; // exactly the ended executions are recorded
        for (auto &t : v) { int hit = 0; for (auto &w : want[j].e) hit |= fv_eq(std::get<0>(t), w.f) & (int)(std::get<1>(t) == w.p); all &= hit; }
        for (auto &w : want[j].e) { int hit = 0; for (auto &t : v) hit |= fv_eq(std::get<0>(t), w.f) & (int)(std::get<1>(t) == w.p); all &= hit; }
        sym_assert(all, "each region has recorded exactly its ended executions"); sym_assert(v.size() <= want[j].e.size(), "each ended execution is recorded once"); }
  }
#elif PART == 3 // requests with other variables belong to another region, with the same variables to the same one
  sym_setenv("APOLLO_POLICY_MODEL", "RandomForest,explore=RoundRobin"); Apollo::instance();
  int diff = pick(0, 4, "difference"); // first input, last output, an extra input, an extra output, the kind of a variable
  VariableInfo *ii = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded), *jj = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded); kokkosp_declare_input_type("in", 1, ii); kokkosp_declare_input_type("jn", 2, jj);
  VariableInfo *o[3]; const char *on[] = {"p", "q", "r"}; for (int i = 0; i < 3; i++) o[i] = kk_set(on[i], 50 + i, 2, 10 * (i + 1));
  struct Prob { std::vector<std::pair<size_t, VariableInfo *>> in; std::vector<int> out; } P[2] = {{{{1, ii}}, {0, 1}}, {{{1, ii}}, {0, 1}}};
  if (diff == 0) P[1].in[0] = {2, jj}; if (diff == 1) P[1].out[1] = 2; if (diff == 2) P[1].in.push_back({2, jj}); if (diff == 3) P[1].out.push_back(2); if (diff == 4) P[1].out[0] = 2;
  int n[2] = {0, 0}; int64_t v = sym_range(-1000, 1000, "value");
  for (int s = 0; s < STEPS + 2; s++) { int k = pick(0, 1, "which"); std::vector<VariableValue> c, t; for (auto &x : P[k].in) { c.push_back(kk_value(x.first, x.second)); c.back().value.int_value = v; } for (int x : P[k].out) t.push_back(kk_value(50 + x, o[x]));
    kokkosp_request_values(s, c.size(), c.data(), t.size(), t.data()); kokkosp_end_context(s);
    int pol = 0; for (size_t i = 0; i < t.size(); i++) { int64_t x = t[i].value.int_value - 10 * (P[k].out[i] + 1); sym_assert(x == 0 || x == 1, "each returned value is a candidate of its variable"); pol |= (int)x << i; }
    sym_assert(pol == n[k] % (1 << t.size()), "each tuning problem explores its own combinations"); n[k]++; }
  for (int k = 0; k < 2; k++) sym_observe(n[k]);
  if (n[0] && n[1]) { sym_assert(Apollo::instance()->regions.size() == 2, "two tuning problems have two regions"); sym_reach("two"); } else sym_assert(Apollo::instance()->regions.size() == 1, "one tuning problem has one region");
#else // the stored model of an earlier run is used by the same tuning problem
  sym_setenv("APOLLO_STORE_MODELS", "1"); sym_setenv("APOLLO_POLICY_MODEL", "RandomForest,num_trees=1,explore=RoundRobin"); Apollo::instance();
  int nm = pick(0, 1, "long"); std::string pre = nm ? std::string(60, 'n') : "v"; Problem p = problem(100, {2}, pre.c_str());
  VariableInfo *ii = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded); kokkosp_declare_input_type("in", 1, ii);
  auto cv = [&](size_t id, int x) { VariableValue a = kk_value(id, ii); a.value.int_value = x; return std::vector<VariableValue>{a}; };
  int x0 = sym_int("x0"), x1 = sym_int("x1"); sym_assume((x0 > -1000) & (x0 < 1000)); sym_assume((x1 > -1000) & (x1 < 1000)); 
  p.ask(1, cv(1, x0)); kokkosp_end_context(1); p.ask(2, cv(1, x1)); kokkosp_end_context(2);
  Apollo::instance()->train(0); int q = sym_int("q"); sym_assume((q > -1000) & (q < 1000)); Combo a = p.ask(3, cv(1, q)); kokkosp_end_context(3);
  VariableInfo *i2 = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded); kokkosp_declare_input_type("in", 900, i2); Problem s = problem(300, {2}, pre.c_str()); ii = i2; // the same problem, declared by the next run
  Combo b = s.ask(4, cv(900, q)); kokkosp_end_context(4); sym_assert(a == b, "the next run selects as the stored model"); sym_reach("reused");
#endif
}
