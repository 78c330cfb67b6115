// The runtime's settings: defaults, given values, contradictory combinations.
#include "common.h"
#ifdef ENABLE_MPI
#include "mpistub.h"
#define MPI_ON 1
#else
#define MPI_ON 0
#endif
struct S { const char *n; int *v; int def; };
static S ints[] = {
  {"APOLLO_COLLECTIVE_TRAINING", &Config::APOLLO_COLLECTIVE_TRAINING, 0}, {"APOLLO_LOCAL_TRAINING", &Config::APOLLO_LOCAL_TRAINING, 1}, {"APOLLO_SINGLE_MODEL", &Config::APOLLO_SINGLE_MODEL, 0}, {"APOLLO_REGION_MODEL", &Config::APOLLO_REGION_MODEL, 1},
  {"APOLLO_GLOBAL_TRAIN_PERIOD", &Config::APOLLO_GLOBAL_TRAIN_PERIOD, 0}, {"APOLLO_PER_REGION_TRAIN_PERIOD", &Config::APOLLO_PER_REGION_TRAIN_PERIOD, 0}, {"APOLLO_TRACE_POLICY", &Config::APOLLO_TRACE_POLICY, 0}, {"APOLLO_STORE_MODELS", &Config::APOLLO_STORE_MODELS, 0},
  {"APOLLO_TRACE_RETRAIN", &Config::APOLLO_TRACE_RETRAIN, 0}, {"APOLLO_TRACE_ALLGATHER", &Config::APOLLO_TRACE_ALLGATHER, 0}, {"APOLLO_TRACE_BEST_POLICIES", &Config::APOLLO_TRACE_BEST_POLICIES, 0}, {"APOLLO_RETRAIN_ENABLE", &Config::APOLLO_RETRAIN_ENABLE, 0},
  {"APOLLO_TRACE_CSV", &Config::APOLLO_TRACE_CSV, 0}, {"APOLLO_PERSISTENT_DATASETS", &Config::APOLLO_PERSISTENT_DATASETS, 0}, {"APOLLO_STORE_EXEC_INFO", &Config::APOLLO_STORE_EXEC_INFO, 0}};
static const int NI_ = sizeof ints / sizeof *ints;
static int want[NI_];
static std::string model = "Static,policy=0", out = ".apollo", dsets = "datasets", traces = "traces", models = "models"; static float tt = 2.0f, rt = 0.5f;
static int valid() { // branch-free
  int c = want[0] != 0, l = want[1] != 0, s = want[2] != 0, r = want[3] != 0;
  return (c ^ l) & (s ^ r) & (int)(MPI_ON || !c);
}
static void refused() { sym_assert(!valid(), "only a contradictory configuration stops the program"); sym_reach("refused"); }
static bool exists(const std::string &p) { struct stat b; return stat(p.c_str(), &b) == 0; }
// a decimal text of up to n digits with optional sign, any digits
static void give(int k, int n, bool sign) {
  char *t = new char[8]; int v = 0, i = 0; bool neg = sign && pick(0, 1, "neg"); if (neg) t[i++] = '-';
  for (int d = 0; d < n; d++) { uint8_t c = sym_u8("digit"); sym_assume((c >= '0') & (c <= '9')); t[i++] = (char)c; v = v * 10 + (c - '0'); }
  t[i] = 0; sym_setenv(ints[k].n, t); want[k] = neg ? -v : v;
}
static void check() {
  Apollo *a = Apollo::instance();
  sym_assert(valid(), "a contradictory configuration is refused");
  for (int i = 0; i < NI_; i++) sym_assert(*ints[i].v == want[i], "a setting has its given value, or its default when not given");
  sym_assert(Config::APOLLO_RETRAIN_TIME_THRESHOLD == tt && Config::APOLLO_RETRAIN_REGION_THRESHOLD == rt, "thresholds");
  sym_assert(Config::APOLLO_POLICY_MODEL == model, "the policy model is as given or the default"); sym_assert(Config::APOLLO_OUTPUT_DIR == out && Config::APOLLO_DATASETS_DIR == dsets && Config::APOLLO_TRACES_DIR == traces && Config::APOLLO_MODELS_DIR == models, "directories are as given or the default");
  sym_assert(a->mpiSize == 1 + MPI_ON && a->mpiRank == MPI_ON, "rank and size"); sym_assert(Apollo::instance() == a, "there is one runtime");
  sym_assert(exists(out), "the output directory exists");
}
extern "C" void sym_main() {
  sym_on_abort(refused); for (int i = 0; i < NI_; i++) want[i] = ints[i].def;
#ifdef ENABLE_MPI
  mpi_rank = 1; mpi_size = 2;
#endif
  if (pick(0, 1, "what") == 0) { // the four modes
    for (int i = 0; i < 4; i++) if (pick(0, 1, ints[i].n)) give(i, 1, true);
    check(); sym_reach("started");
  } else { // the other settings
    int k = pick(4, NI_ + 6, "setting"); const char *dirs[] = {"o1", "deeper", "x-y_z.w"};
    if (k < NI_) { give(k, k == 12 ? 1 : 3, true); check();
      const std::string *d = k == 7 ? &models : k == 12 ? &traces : k == 13 ? &dsets : nullptr;
      if (d) { if (want[k] != 0) sym_assert(exists(out + "/" + *d), "the directory of an enabled output exists"); }
      sym_reach("given"); }
    else if (k == NI_) { char *t = new char[8]; int n = pick(0, 4, "len"); for (int i = 0; i < n; i++) { uint8_t c = sym_u8("c"); sym_assume(c != 0); t[i] = (char)c; } t[n] = 0; sym_setenv("APOLLO_POLICY_MODEL", t); model = t; check(); sym_reach("model"); }
    else if (k == NI_ + 1) { const char *t[] = {"0.25", "3", "1e3", "-1.5"}; int i = pick(0, 3, "t"); float v[] = {0.25f, 3.f, 1000.f, -1.5f}; if (pick(0, 1, "which")) { sym_setenv("APOLLO_RETRAIN_TIME_THRESHOLD", t[i]); tt = v[i]; } else { sym_setenv("APOLLO_RETRAIN_REGION_THRESHOLD", t[i]); rt = v[i]; } check(); sym_reach("threshold"); }
    else { const char *d = dirs[pick(0, 2, "dir")]; int w = k - NI_ - 2; const char *n[] = {"APOLLO_OUTPUT_DIR", "APOLLO_DATASETS_DIR", "APOLLO_TRACES_DIR", "APOLLO_MODELS_DIR"}; if (w > 3) { check(); return; } sym_setenv(n[w], d); (w == 0 ? out : w == 1 ? dsets : w == 2 ? traces : models) = d;
      sym_setenv("APOLLO_PERSISTENT_DATASETS", "1"); sym_setenv("APOLLO_STORE_MODELS", "1"); sym_setenv("APOLLO_TRACE_CSV", "1"); want[13] = want[7] = want[12] = 1; check();
      sym_assert(exists(out + "/" + dsets) && exists(out + "/" + models) && exists(out + "/" + traces), "the configured directories exist"); sym_reach("directories"); }
  }
}
