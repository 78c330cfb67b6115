// Observing a policy network: its stored parameters and the probabilities it samples from.
#pragma once
#include "common.h"
typedef std::vector<double> DV;
typedef std::unique_ptr<apollo::PolicyModel> PM;
static PM make_net(int nf, int np, const char *threshold = nullptr, const char *beta = nullptr) { Params p; if (threshold) p["threshold"] = threshold; if (beta) p["beta"] = beta; return apollo::ModelFactory::createPolicyModel("PolicyNet", nf, np, p); }
static size_t file_size(const char *f) { struct stat b; sym_assert(stat(f, &b) == 0, "a stored network is a file"); return (size_t)b.st_size; }
// all doubles of a stored network: the three layers' weights and biases, then the reward average
static DV stored(apollo::PolicyModel *m) { m->store("net.bin"); size_t n = file_size("net.bin") / 8; DV d(n); std::ifstream f("net.bin", std::ios::binary); f.read((char *)d.data(), n * 8); return d; }
struct Params3 { int ni, nh, no; DV w[3], b[3]; };
static Params3 layers_of(const DV &d, int ni, int no) { Params3 p; p.ni = ni; p.no = no; p.nh = (ni + no) / 2; int in[] = {ni, p.nh, p.nh}, out[] = {p.nh, p.nh, no}; size_t k = 0; for (int l = 0; l < 3; l++) { for (int i = 0; i < in[l] * out[l]; i++) p.w[l].push_back(d[k++]); for (int i = 0; i < out[l]; i++) p.b[l].push_back(d[k++]); } return p; }
static DV encode(const FV &f) { DV x; for (float v : f) for (int j = 0; j < 64; j++) x.push_back((double)(((uint64_t)v >> j) & 1)); return x; }
static DV forward(const Params3 &p, DV x) {
  int out[] = {p.nh, p.nh, p.no};
  for (int l = 0; l < 3; l++) { DV y; int ni = (int)x.size(); for (int o = 0; o < out[l]; o++) { double a = p.b[l][o]; for (int i = 0; i < ni; i++) a += p.w[l][o * ni + i] * x[i]; if (l < 2 && a < 0) a = 0; y.push_back(a); } x = y; }
  double m = x[0]; for (double v : x) m = std::max(m, v); double t = 0; for (double &v : x) { v = std::exp(v - m); t += v; } for (double &v : x) v /= t; return x;
}
