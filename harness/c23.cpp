// Candidates of Kokkos output variables: declared through the connector, read back through requests.
#include "kk.h"
#ifndef PART
#define PART 0
#endif
#ifndef MAXN
#define MAXN 3
#endif
static VariableInfo *info; static const char *nm = "var"; static size_t ctx = 1;
static VariableValue ask() { VariableValue v = kk_value(7, info); kokkosp_request_values(ctx, 0, nullptr, 1, &v); kokkosp_end_context(ctx); ctx++; sym_assert(v.type_id == 7 && v.metadata == info, "a returned value belongs to the requested variable"); return v; }
static void declare() { kokkosp_declare_output_type(nm, 7, info); }
static void kept() { VariableValue v = ask(); sym_assert(v.value.int_value == -77, "a variable without candidates keeps its value"); sym_reach("no candidates"); }
extern "C" void sym_main() {
  sym_setenv("APOLLO_POLICY_MODEL", "RoundRobin"); Apollo::instance();
#if PART == 0 // sets
  int t = pick(0, 2, "type"), n = pick(0, MAXN, "n");
  static int64_t is[MAXN + 1]; static double ds[MAXN + 1]; static char ss[MAXN + 1][64];
  info = kk_info(t == 0 ? ValueType::kokkos_value_int64 : t == 1 ? ValueType::kokkos_value_double : ValueType::kokkos_value_string, CandidateValueType::kokkos_value_set);
  info->candidates.set.size = n;
  if (t == 0) { sym_make(is, sizeof(int64_t) * (n + 1), "ints"); info->candidates.set.values.int_value = is; }
  if (t == 1) { sym_make(ds, sizeof(double) * (n + 1), "reals"); info->candidates.set.values.double_value = ds; }
  if (t == 2) { int len = n ? (int[]){0, 1, 62, 63}[pick(0, 3, "len")] : 0; for (int k = 0; k < n; k++) { for (int i = 0; i < len; i++) ss[k][i] = 'a' + k; if (len) { uint8_t c = sym_u8("c"); sym_assume(c != 0); ss[k][len - 1] = (char)c; } ss[k][len] = 0; } info->candidates.set.values.string_value = ss; }
  declare();
  if (n == 0) { kept(); return; }
  for (int k = 0; k <= n; k++) { VariableValue v = ask(); int i = k % n;
    if (t == 0) sym_assert(v.value.int_value == is[i], "the candidates are the declared integers in order");
    else if (t == 1) sym_assert(dbits(v.value.double_value) == dbits(ds[i]), "the candidates are the declared reals in order");
    else { int same = 1; bool end = false; for (int j = 0; j < 64 && !end; j++) { same &= (int)(v.value.string_value[j] == ss[i][j]); end = j + 1 == 64 || (!sym_is_symbolic(&ss[i][j], 1) && ss[i][j] == 0); } sym_assert(same, "the candidates are the declared strings in order"); } }
  sym_reach(t == 0 ? "integers" : t == 1 ? "reals" : "strings");
#elif PART == 1 // integer ranges
  info = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_range); auto &r = info->candidates.range;
  r.openLower = pick(0, 1, "openLower"); r.openUpper = pick(0, 1, "openUpper");
  int64_t step, lim = 1l << 40;
  if (pick(0, 1, "anystep")) { step = sym_u64("step"); sym_assume((step >= 1) & (step <= 15)); lim = 1 << 16; } else { const int64_t steps[] = {1, 2, 3, 10, 1 << 20, 5l << 31}; step = steps[pick(0, 5, "step")]; }
  int64_t lo = sym_u64("lower"), hi = sym_u64("upper"); sym_assume((lo >= -lim) & (lo <= lim)); sym_assume((hi >= lo - 5) & (hi <= 2 * lim)); sym_assume(hi - lo < MAXN * step);
  r.lower.int_value = lo; r.upper.int_value = hi; r.step.int_value = step; declare();
  int64_t first = lo + (r.openLower ? step : 0); int64_t top = r.openUpper ? hi - 1 : hi; // candidates: first + k*step <= top
  int n = 0; for (int k = 0; k <= MAXN; k++) n += (int)(first + k * step <= top);
  VariableValue v = ask(); n = (int)sym_concretize(n);
  if (n == 0) { sym_assert(v.value.int_value == -77, "a variable without candidates keeps its value"); sym_reach("empty"); return; }
  for (int k = 0; k <= n; k++) { sym_assert(v.value.int_value == first + (k % n) * step, "the candidates are the values of the range in order"); if (k < n) v = ask(); }
  sym_reach("range"); if (n > 1) sym_reach("several");
#elif PART == 2 // real ranges with a step
  info = kk_info(ValueType::kokkos_value_double, CandidateValueType::kokkos_value_range); auto &r = info->candidates.range;
  r.openLower = pick(0, 1, "openLower"); r.openUpper = pick(0, 1, "openUpper"); const double steps[] = {1.0, 0.25, 0.1, 3.0};
  double step = steps[pick(0, 3, "step")], lo = sym_finite_double("lower"), hi = sym_finite_double("upper"); sym_assume((lo >= -1000.0) & (lo <= 1000.0)); sym_assume((hi > lo) & (hi <= lo + MAXN * step) & (hi >= -2000.0) & (hi <= 2000.0));
  r.lower.double_value = lo; r.upper.double_value = hi; r.step.double_value = step; declare();
  for (int k = 0; k <= MAXN; k++) { VariableValue v = ask(); double d = v.value.double_value; if (!sym_is_symbolic(&v.value, 8) && v.value.int_value == -77) { sym_reach("empty"); return; }
    sym_assert(r.openLower ? (int)(d > lo) : (int)(d >= lo), "no candidate lies below the range"); sym_assert(r.openUpper ? (int)(d < hi) : (int)(d <= hi), "no candidate lies above the range"); }
  sym_reach("range");
#elif PART == 3 // continuous real ranges
  info = kk_info(ValueType::kokkos_value_double, CandidateValueType::kokkos_value_range); auto &r = info->candidates.range;
  r.openLower = pick(0, 1, "openLower"); r.openUpper = pick(0, 1, "openUpper"); const int ks[] = {0, 1, 50, 99}; int k = ks[pick(0, 3, "k")];
  sym_setenv("APOLLO_POLICY_MODEL", "RoundRobin"); Config::APOLLO_POLICY_MODEL = "Static,policy=" + dec(k);
  double lo = sym_finite_double("lower"), hi = sym_finite_double("upper"); sym_assume((lo >= -1000.0) & (lo <= 1000.0)); sym_assume((hi >= lo + 0.001) & (hi >= -2000.0) & (hi <= 2000.0));
  r.lower.double_value = lo; r.upper.double_value = hi; r.step.double_value = 0.0; declare();
  VariableValue v = ask(); double d = v.value.double_value;
  sym_assert(r.openLower ? (int)(d > lo) : (int)(d >= lo), "no candidate lies below the range"); sym_assert(r.openUpper ? (int)(d < hi) : (int)(d <= hi), "no candidate lies above the range");
  sym_reach("range");
#else // names
  static char name[200]; int len = (int[]){0, 1, 31, 62, 63, 64, 65, 66, 130}[pick(0, 8, "len")]; char *p = (char *)malloc(len + 1); for (int i = 0; i < len; i++) p[i] = 'a' + i % 26; p[len] = 0;
  VariableInfo *ci = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_unbounded); int in = pick(0, 1, "input"); if (in) kokkosp_declare_input_type(p, 3, ci);
  VariableInfo *a = kk_set(p, 7, 2, 10), *b = kk_set("other", 8, 2, 20); free(p);
  for (int k = 0; k < 4; k++) { VariableValue c = kk_value(3, ci, 5), v[2] = {kk_value(7, a), kk_value(8, b)}; kokkosp_request_values(k, in, in ? &c : nullptr, 2, v); kokkosp_end_context(k);
    sym_assert(v[0].value.int_value == 10 + k % 2 && v[1].value.int_value == 20 + k / 2, "the candidates are those declared, whatever the name"); }
  sym_reach("named");
#endif
}
