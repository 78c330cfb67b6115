// The policy network selects and trains on the same input encoding, uses its current parameters,
// and respects its reward threshold.
#include "netio.h"
static float feature(const char *n) { // integers of up to 3 adjacent bits at several places, with or without a fraction
  uint64_t v = (uint64_t)sym_concretize(sym_range(0, 7, n)); int s[] = {0, 1, 22, 31, 40, 61}; int k = pick(0, 5, "shift"); float f = (float)(v << s[k]); if (k == 0 && pick(0, 1, "fraction")) f += 0.75f; return f; }
static bool sampled; static DV probs;
static int select(apollo::PolicyModel *m, FV f) { int n = std::sampled_count(); int r = m->getIndex(f); sampled = std::sampled_count() > n; probs = std::sampled_from(); return r; }
static void current(apollo::PolicyModel *m, const FV &f, int np, const char *what) {
  select(m, f); if (!sampled) { sym_incomplete("the sampler was not observed"); sym_end(); }
  DV want = forward(layers_of(stored(m), 64 * (int)f.size(), np), encode(f)); sym_assert(probs.size() == want.size(), what);
  for (int i = 0; i < np; i++) sym_assert((int)(dbits(probs[i]) == dbits(want[i])) | ((int)(probs[i] - want[i] < 1e-9) & (int)(want[i] - probs[i] < 1e-9)), what);
}
extern "C" void sym_main() {
#if MODE == 0 // encoding
  int np = 2, nf = pick(1, 2, "features"); PM m = make_net(nf, np); FV f; for (int i = 0; i < nf; i++) f.push_back(i == 0 ? feature("f") : 5.f);
  current(m.get(), f, np, "selection uses the bits of the integer parts"); sym_reach("selected");
  // a batch of f and of zeros: exactly the inputs of f's bits move
  Apollo::Dataset ds; FV g = f, z(nf, 0.f); bool zero = true; for (double v : encode(f)) if (v != 0) zero = false; if (zero) return; ds.insert(g, 0, 0.25); ds.insert(z, 1, 3.0);
  Params3 a = layers_of(stored(m.get()), 64 * nf, np); m->train(ds); Params3 b = layers_of(stored(m.get()), 64 * nf, np); DV x = encode(f); int first = -1; for (int j = 0; j < 64 * nf; j++) if (x[j] != 0 && first < 0) first = j;
  bool moved = false;
  for (int i = 0; i < a.nh; i++) for (int j = 0; j < 64 * nf; j++) { int k = i * 64 * nf, d = k + j; double dj = b.w[0][d] - a.w[0][d], df = b.w[0][k + first] - a.w[0][k + first];
    if (x[j] == 0) sym_assert(dj == 0, "inputs of bits that are not set do not train"); else { sym_assert(fabs(dj - df) < 1e-9, "training uses the bits of the integer parts"); if (dj != 0) moved = true; } }
  sym_assert(moved, "training moves the parameters of the bits that are set"); sym_reach("trained");
  current(m.get(), f, np, "selection after training uses the new parameters");
#elif MODE == 1 // histories of selections, training and loading
  int np = 2, nf = 1; PM m = make_net(nf, np), o = make_net(nf, np); o->store("other.bin"); FV fs[3] = {FV(1, 3.f), FV(1, 4.f), FV(1, 4.5f)};
  for (int s = 0; s < STEPS; s++) {
    int op = pick(0, 4, "op");
    if (op < 3) { current(m.get(), fs[op], np, "a selection uses the current parameters"); sym_reach("selected"); if (op == 2) { DV p = probs; select(m.get(), fs[1]); sym_assert(p == probs, "equal integer parts get equal probabilities"); } }
    else if (op == 3) { Apollo::Dataset ds; FV a = fs[0], b = fs[1]; int k = pick(0, 2, "policy"); ds.insert(a, k & 1, k == 2 ? 0.25 * (s + 1) : 0.5); if (k < 2) ds.insert(b, 1, 2.0); m->train(ds); sym_reach("trained"); }
    else { m->load("other.bin"); sym_reach("loaded"); }
  }
  current(m.get(), fs[0], np, "a selection uses the current parameters"); current(m.get(), fs[1], np, "a selection uses the current parameters");
#elif MODE == 3 // two vectors of two features in turn
  static const float vals[] = {1.f, 2.f, 11.f, 12.f, 4294967808.f}; int np = 2; PM m = make_net(2, np); FV a, b; for (int i = 0; i < 2; i++) a.push_back(vals[pick(0, 4, "a")]); for (int i = 0; i < 2; i++) b.push_back(vals[pick(0, 4, "b")]);
  current(m.get(), a, np, "a selection uses its own features"); DV pa = probs; current(m.get(), b, np, "a selection uses its own features"); current(m.get(), a, np, "a selection uses its own features"); sym_assert(pa == probs, "equal features get equal probabilities"); sym_reach("selected");
#else // threshold on the average reward: any metrics without hidden units (one policy), fixed ones with two policies
  const char *tt[] = {"0.3", "0.0", "0.75"}; double tv[] = {0.3, 0.0, 0.75}; int t = pick(0, 2, "threshold"), bt = pick(0, 1, "beta"), np = pick(1, 2, "policies"); double beta = bt ? 0.25 : 0.5; PM m = make_net(0, np, tt[t], bt ? "0.25" : nullptr);
  double avg = 0, pw = 1; FV none;
  { int r = select(m.get(), none); if (tv[t] > 0) { sym_assert(!sampled & (r == 0), "an untrained network below its threshold selects policy 0"); sym_reach("untrained"); } }
  for (int s = 0; s < STEPS; s++) {
    Apollo::Dataset ds; double sum = 0; int n = pick(1, np, "measurements"); for (int i = 0; i < n; i++) { FV f; double x; if (np == 2) x = pick(0, 1, "metric") ? 2.0 : 0.125; else { x = sym_double("metric"); sym_assume((x >= 0) & (x <= 10)); } ds.insert(f, i, x); sum += std::exp(-x); }
    avg = beta * avg + (1 - beta) * (sum / n); pw *= beta; double base = avg / (1 - pw); sym_assume((base < tv[t] - 1e-6) | (base > tv[t] + 1e-6)); int below = base < tv[t];
    DV before = stored(m.get()); m->train(ds); DV after = stored(m.get()); int r = select(m.get(), none);
    if (below) { for (size_t i = 0; i + 1 < before.size(); i++) sym_assert(dbits(before[i]) == dbits(after[i]), "below the threshold the parameters are left alone"); sym_assert(!sampled & (r == 0), "below the threshold policy 0 is selected"); sym_reach("below"); }
    else { if (sampled) sym_reach("above"); else if (std::sampled_count() == 0) { sym_incomplete("the sampler was not observed"); sym_end(); } else sym_fail("above the threshold the network selects"); }
  }
#endif
}
