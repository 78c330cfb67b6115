// A stored policy network reloads bit-identically.
#include "netio.h"
extern "C" void sym_main() {
#ifdef BYTES // every content of a file of the right size survives loading and storing
  int nf = pick(0, 1, "features"), np = pick(2, 3, "policies"); PM a = make_net(nf, np), b = make_net(nf, np); a->store("size.bin"); size_t n = file_size("size.bin"); std::vector<char> in(n), out(n); 
  if (pick(0, 1, "used")) { FV f(nf, 3.f); b->getIndex(f); Apollo::Dataset ds; FV g(nf, 5.f), h(nf, 6.f); ds.insert(g, 0, 0.5); if (nf) ds.insert(h, 1, 1.5); b->train(ds); sym_reach("used before"); }
  for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = sym_u64("word"); memcpy(&in[i], &v, 8); } if (n % 8) for (size_t i = n / 8 * 8; i < n; i++) { uint8_t v = sym_u8("byte"); in[i] = (char)v; }
  { std::ofstream f("in.bin", std::ios::binary); f.write(in.data(), n); }
  b->load("in.bin"); b->store("out.bin"); sym_assert(file_size("out.bin") == n, "a stored network has the size of its shape"); { std::ifstream f("out.bin", std::ios::binary); f.read(out.data(), n); }
  for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t x, y; memcpy(&x, &in[i], 8); memcpy(&y, &out[i], 8); sym_assert(x == y, "loading and storing reproduces every parameter and the reward history bit for bit"); }
  for (size_t i = n / 8 * 8; i < n; i++) sym_assert(in[i] == out[i], "loading and storing reproduces every parameter and the reward history bit for bit"); sym_reach(nf ? "inputs" : "no inputs");
#else // a network with any reward history continues alike after reloading
  const char *tt[] = {"0.3", "0.0"}; int t = pick(0, 1, "threshold"), nf = pick(0, 1, "features"), np = nf ? 2 : 1; PM a = make_net(nf, np, tt[t]), b = make_net(nf, np, tt[t]); FV f(nf, 3.f);
  auto train = [&](std::initializer_list<apollo::PolicyModel *> ms, int k) { double x = 0.25, y = 2.0; if (!nf) { x = sym_double("metric"); sym_assume((x >= 0) & (x <= 10)); } else if (pick(0, 1, "slow")) x = 4.0; for (auto *m : ms) { Apollo::Dataset ds; FV g(nf, 5.f), h(nf, 6.f); ds.insert(g, 0, x); if (nf && k > 1) ds.insert(h, 1, y); m->train(ds); } };
  int na = pick(0, STEPS, "trained_before"), nb = pick(0, 1, "other_trained"); for (int i = 0; i < na; i++) train({a.get()}, pick(1, 2, "entries")); for (int i = 0; i < nb; i++) train({b.get()}, 1); if (pick(0, 1, "selected")) b->getIndex(f);
  a->store("net.bin"); b->load("net.bin");
  auto compare = [&](bool values) { int n = std::sampled_count(); a->getIndex(f); bool sa = std::sampled_count() > n; DV pa = std::sampled_from(); n = std::sampled_count(); b->getIndex(f); bool sb = std::sampled_count() > n; DV pb = std::sampled_from();
    sym_assert(sa == sb, "both networks are on the same side of the threshold"); if (sa && values) { sym_assert(pa.size() == pb.size(), "both networks give the same probabilities"); for (size_t i = 0; i < pa.size(); i++) sym_assert(dbits(pa[i]) == dbits(pb[i]), "both networks give the same probabilities"); } sym_reach(sa ? "above" : "below"); };
  compare(true);
  if (pick(0, 1, "continue")) { train({a.get(), b.get()}, 1); compare(false); sym_reach("continued"); }
#endif
}
