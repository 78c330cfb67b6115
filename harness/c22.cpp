// The policy network's layers compute their forward and gradient equations.  The layers are used
// directly with small sizes (the source file is included below instead of being linked).
#include "common.h"
#include "models/PolicyNet.cpp"
using namespace apollo;
typedef std::vector<double> DV;
static double val(const char *n) {
#ifdef INTS
  return (double)sym_range(-8, 8, n); // sums and products are exact in any order
#else
  double v = sym_double(n); sym_assume((v >= -1e6) & (v <= 1e6)); return v;
#endif
}
static DV vals(int n, const char *nm) { DV v; for (int i = 0; i < n; i++) v.push_back(val(nm)); return v; }
static void close(double got, double want, const char *what) { sym_assert((int)(dbits(got) == dbits(want)) | (int)(got == want) | ((int)(got - want <= 1e-3) & (int)(want - got <= 1e-3)), what); }
static void closev(const double *got, const DV &want, const char *what) { for (size_t i = 0; i < want.size(); i++) close(got[i], want[i], what); }
static double relu(double x) { return x < 0. ? 0. : x; } // the larger of x and 0
struct Ref { // one fully connected layer with its optimizer
  int ni, no; DV w, b, gw, gb, mw, vw, mb, vb; long t = 0;
  Ref(int ni, int no) : ni(ni), no(no), w(ni * no), b(no), gw(ni * no), gb(no), mw(ni * no), vw(ni * no), mb(no), vb(no) {}
  DV forward(const DV &x, int n) const { DV y(n * no); for (int s = 0; s < n; s++) for (int o = 0; o < no; o++) { double a = 0; for (int i = 0; i < ni; i++) a += w[o * ni + i] * x[s * ni + i]; y[s * no + o] = a + b[o]; } return y; }
  DV backward(const DV &x, const DV &g, int n) {
    DV gx(n * ni); gw.assign(ni * no, 0); gb.assign(no, 0);
    for (int o = 0; o < no; o++) { for (int i = 0; i < ni; i++) for (int s = 0; s < n; s++) gw[o * ni + i] += g[s * no + o] * x[s * ni + i]; for (int s = 0; s < n; s++) gb[o] += g[s * no + o]; }
    for (int s = 0; s < n; s++) for (int i = 0; i < ni; i++) for (int o = 0; o < no; o++) gx[s * ni + i] += g[s * no + o] * w[o * ni + i];
    return gx;
  }
  static void adam(double &p, double &m, double &v, double g, long t, double lr, double b1, double b2) { m = b1 * m + (1 - b1) * g; v = b2 * v + (1 - b2) * (g * g); double mh = m / (1 - std::pow(b1, t)), vh = v / (1 - std::pow(b2, t)); p += lr * mh / (std::sqrt(vh) + 1e-8); }
  void step(double lr, double b1, double b2) { t++; for (size_t i = 0; i < w.size(); i++) adam(w[i], mw[i], vw[i], gw[i], t, lr, b1, b2); for (int o = 0; o < no; o++) adam(b[o], mb[o], vb[o], gb[o], t, lr, b1, b2); }
  void into(FCLayer &l, const char *nm) { for (auto &x : w) x = val(nm); for (auto &x : b) x = val(nm); for (int i = 0; i < ni * no; i++) l.weights[i] = w[i]; for (int i = 0; i < no; i++) l.bias[i] = b[i]; }
  // fixed parameters: which rectifiers are active does not depend on the symbolic values
  void fixed(FCLayer &l, int k) { for (size_t i = 0; i < w.size(); i++) l.weights[i] = w[i] = ((int)((i * 5 + k * 3 + 2) % 7) - 3) * 0.5 + 0.25; for (int i = 0; i < no; i++) l.bias[i] = b[i] = ((i + k) % 3 - 1) * 0.375; }
  void same(FCLayer &l, const char *what) { closev(l.weights, w, what); closev(l.bias, b, what); }
};
static DV ref_softmax(const DV &x, int n, int no) { DV p(n * no); for (int s = 0; s < n; s++) { double m = x[s * no]; for (int o = 0; o < no; o++) m = std::max(m, x[s * no + o]); double t = 0; for (int o = 0; o < no; o++) { p[s * no + o] = std::exp(x[s * no + o] - m); t += p[s * no + o]; } for (int o = 0; o < no; o++) p[s * no + o] /= t; } return p; }
static DV ref_loss(const std::vector<int> &a, const DV &p, const DV &r, int n, int no) { DV g(n * no); for (int s = 0; s < n; s++) { for (int o = 0; o < no; o++) g[s * no + o] = -r[s] * p[s * no + o] / n; g[s * no + a[s]] += r[s] / n; } return g; }
static DV ref_relu(const DV &x) { DV y; for (double v : x) y.push_back(relu(v)); return y; }
static DV ref_drelu(const DV &x, const DV &g) { DV y; for (size_t i = 0; i < x.size(); i++) { double d = g[i]; if (x[i] < 0) d = g[i] * 0.; y.push_back(d); } return y; }
extern "C" void sym_main() {
  int what = pick(PART0, PART1, "part");
  if (what == 0) { // fully connected layer; two batches of any sizes in turn
    int ni = pick(1, 2, "inputs"), no = pick(1, 2, "outputs"); FCLayer l(ni, no); Ref r(ni, no); r.into(l, "w");
    for (int k = 0; k < 2; k++) {
      int n = pick(1, BATCH, "batch"); DV x = vals(n * ni, "x"), g = vals(n * no, "g"), y = r.forward(x, n);
      closev(l.forward(x.data(), n), y, "a layer computes weights times input plus bias");
      DV gx = r.backward(x, g, n); double *p = l.backward(x.data(), g.data(), n); closev(p, gx, "gradient of a layer's input"); closev(l.weights_grad, r.gw, "gradient of a layer's weights"); closev(l.bias_grad, r.gb, "gradient of a layer's bias");
#ifndef INTS
      l.step(0.01, 0.5, 0.9); r.step(0.01, 0.5, 0.9); r.same(l, "each parameter moves along its own gradient");
#endif
    }
    sym_reach("layer");
  } else if (what == 1) { // rectifier
    ReLU l; for (int k = 0; k < 2; k++) { int n = pick(1, BATCH, "batch"), w = n == 1 ? pick(1, 2, "width") : 1; DV x = vals(n * w, "x"), g = vals(n * w, "g"); for (double v : x) sym_assume(v != 0);
      double *y = l.forward(x.data(), n, w); for (int i = 0; i < n * w; i++) { sym_assert((x[i] > 0) | (y[i] == 0), "a rectifier zeroes negative values"); sym_assert((x[i] < 0) | (y[i] == x[i]), "a rectifier keeps positive values"); }
      double *d = l.backward(x.data(), g.data(), n, w); for (int i = 0; i < n * w; i++) { sym_assert((x[i] > 0) | (d[i] == 0), "no gradient through a zeroed value"); sym_assert((x[i] < 0) | (d[i] == g[i]), "the gradient passes through a kept value"); } }
    sym_reach("rectifier");
  } else if (what == 2) { // output layer and loss
    Softmax l; for (int k = 0; k < 2; k++) { int n = pick(1, BATCH, "batch"), w = pick(1, 2, "width"); DV x = vals(n * w, "x"), r = vals(n, "r"), q = vals(n * w, "p"); std::vector<int> a; for (int i = 0; i < n; i++) a.push_back(pick(0, w - 1, "action"));
      double *p = l.forward(x.data(), n, w); closev(p, ref_softmax(x, n, w), "probabilities are the normalised exponentials");
      double *d = l.lossGrad(a.data(), q.data(), r.data(), n, w); closev(d, ref_loss(a, q, r, n, w), "gradient of the loss"); }
    sym_reach("softmax");
  } else { // the whole network: forward and one or two updates
    int ni = pick(1, 2, "inputs"), nh = pick(1, 2, "hidden"), no = 2; Net net(ni, nh, no, 0.25, 0.5, 0.75); Ref r1(ni, nh), r2(nh, nh), r3(nh, no); int v = pick(0, 2, "parameters"); r1.fixed(net.layer1, v); r2.fixed(net.layer2, v + 1); r3.into(net.layer3, "w3");
    for (int k = 0; k < STEPS; k++) {
      int n = pick(1, 2, "batch"); DV x, r = vals(n, "r"); for (int i = 0; i < n * ni; i++) x.push_back(i % 2 ? 1 : k + 2 - i); std::vector<int> a; for (int i = 0; i < n; i++) a.push_back(pick(0, no - 1, "action"));
      DV o1 = r1.forward(x, n), a1 = ref_relu(o1), o2 = r2.forward(a1, n), a2 = ref_relu(o2), o3 = r3.forward(a2, n), p = ref_softmax(o3, n, no);
      closev(net.forward(x.data(), n), p, "the network's probabilities");
      net.trainStep(x.data(), a.data(), r.data(), n);
      DV g3 = ref_loss(a, p, r, n, no), h3 = r3.backward(a2, g3, n), g2 = ref_drelu(o2, h3), h2 = r2.backward(a1, g2, n), g1 = ref_drelu(o1, h2); r1.backward(x, g1, n);
      r1.step(0.25, 0.5, 0.75); r2.step(0.25, 0.5, 0.75); r3.step(0.25, 0.5, 0.75);
      r1.same(net.layer1, "update of the first layer"); r2.same(net.layer2, "update of the second layer"); r3.same(net.layer3, "update of the third layer");
    }
    sym_reach("network");
  }
}
