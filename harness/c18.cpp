// Collective training: every rank's measurements are delivered exactly once to the regions it shares.
#include "common.h"
#include "mpistub.h"
#ifndef NE
#define NE 1     // measurements per region of the other ranks
#endif
#ifndef NREG
#define NREG 3
#endif
#ifndef RANKS
#define RANKS 2
#endif
static const char *NAMES[] = {"one", "two", "a-region-name-of-sixty-three-characters-which-is-the-most-kept-x"};
struct R { int nf; RefDataset ref; Apollo::Region *r; bool has; };
static Apollo *A;
static float lastf; static bool havef = false;
static void aborted() { sym_fail("collective training never stops the program"); }
// fills a region with up to n measurements
static void fill(R &x, int n, const char *tag) {
  for (int i = 0; i < n; i++) { FV f; for (int j = 0; j < x.nf; j++) f.push_back(j < 2 ? sym_finite_float("f") : 2.5f); int p = sym_range(0, 2, "policy"); double m = sym_metric("metric");
    int at = -1; for (auto &e : x.ref.e) sym_assume(!(fv_eq(e.f, f) & (int)(e.p == p))); // one entry per features and policy, as in a dataset
    x.ref.e.push_back(RefEntry{f, p, m}); FV g = f; x.r->dataset.insert(g, p, m); }
}
extern "C" void sym_main() {
  sym_on_abort(aborted);
  sym_setenv("APOLLO_COLLECTIVE_TRAINING", "1"); sym_setenv("APOLLO_LOCAL_TRAINING", "0");
  int variant = pick(0, 2, "variant"); // 0 any regions, 1 with the exchange traced, 2 trainable models
  if (variant == 1) sym_setenv("APOLLO_TRACE_ALLGATHER", "1");
  mpi_size = RANKS; mpi_rank = RANKS - 1; A = Apollo::instance(); sym_assert(A->mpiRank == mpi_rank && A->mpiSize == mpi_size, "rank and size");
  #ifdef ME
  int me = ME;
#else
  int me = pick(0, RANKS - 1, "me");
#endif
  mpi_bytes.resize(RANKS);
  const int nf[3] = {1, 3, 0};
  std::vector<RefEntry> got[3]; // what the other ranks have, by region
  for (int k = 0; k < RANKS; k++) if (k != me) {
    A->mpiRank = mpi_rank = k; A->regions.clear(); int n = 0;
    for (int i = 0; i < NREG; i++) if (i == 0 || !variant) if (pick(0, 1, "has")) { R x; x.nf = nf[i]; x.r = new Apollo::Region(nf[i], NAMES[i], 3, 0, "RoundRobin"); fill(x, pick(i == 0 ? 0 : 1, i == 2 ? 1 : NE, "n"), "other"); n += x.ref.e.size(); for (auto &e : x.ref.e) got[i].push_back(e); }
    std::vector<std::vector<char>> save = mpi_bytes; for (auto &b : mpi_bytes) b.clear(); // it packs what it sends whatever it receives
    A->train(0); mpi_bytes = save; mpi_bytes[k] = mpi_mine; if (n) sym_reach("other rank sends");
  }
  A->mpiRank = mpi_rank = me; A->regions.clear(); R mine[3]; int g0 = mpi_gathers;
  const char *kind = variant == 2 ? "DecisionTree" : "RoundRobin";
  for (int i = 0; i < 3; i++) { mine[i].nf = nf[i]; mine[i].has = i == 0 || (i == 1 && !variant && pick(0, 1, "mine")); if (!mine[i].has) continue; mine[i].r = new Apollo::Region(nf[i], NAMES[i], 3, 0, kind); fill(mine[i], pick(0, 1, "own"), "own"); }
  int overlap = 0, unknown = 0;
  A->train(1); sym_assert(mpi_gathers == g0 + 1, "one exchange per training");
  for (int i = 0; i < 3; i++) {
    if (!mine[i].has) { unknown += got[i].size(); continue; }
    RefDataset ref = mine[i].ref; for (auto &e : got[i]) { if (ref.e.size()) overlap = 1; ref.add(e.f, e.p, e.m); }
    check_same(mine[i].r->dataset, ref, "a rank ends with its own measurements and those of the other ranks for its regions, each once and unchanged");
  }
  sym_assert((int)A->regions.size() == mine[0].has + mine[1].has, "no region appears or disappears");
  if (overlap) sym_reach("merged"); if (unknown) sym_reach("unknown region ignored");
}
