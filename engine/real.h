// Real-arithmetic relaxation of a query with floating-point arithmetic.  Every rounded operation
// becomes a real variable y with |y - e| <= u|e| + (smallest subnormal), e the exact result, and
// rounding is monotone: e1 <= e2 implies y1 <= y2 (values known to be representable are their own
// rounding).  Everything that cannot be expressed is left unconstrained, so "unsat" carries over to
// the exact query; a model is only a candidate, checked by exact evaluation.
#pragma once
#include "order.h"
#include "smt.h"
static inline u64 fb_(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
struct RealRelax {
  ExprCtx &X; Facts &F; std::ostringstream out; int fresh = 0, ops = 0; bool ok = true;
  typedef __int128 I;
  struct Int { std::string t; I lo, hi; };
  struct Real { std::string t; long double lo, hi; bool ok; bool in = false; }; // in: integer-valued
  std::unordered_map<Expr *, Int> im; std::unordered_map<Expr *, Real> rm; std::unordered_map<Expr *, std::string> bm;
  std::map<uint32_t, std::pair<I, I>> vb; std::map<uint32_t, std::pair<double, double>> fb; // bounds of integer and floating-point variables
  std::set<uint32_t> ivars; std::map<uint32_t, std::string> xvars; struct Rnd { std::string e, y; long double lo, hi; }; std::vector<Rnd> rnd[2];
  RealRelax(ExprCtx &x, Facts &f) : X(x), F(f) {}
  static std::string big(I v) { if (v < 0) return "(- " + big(-v) + ")"; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
  static std::string pow2(int n) { std::string d = "1"; while (n--) { int c = 0; for (int i = (int)d.size() - 1; i >= 0; i--) { int x = (d[i] - '0') * 2 + c; d[i] = (char)('0' + x % 10); c = x / 10; } if (c) d.insert(d.begin(), '1'); } return d; }
  static std::string rat(double v) { if (v == 0) return "0.0"; int e; double m = frexp(v, &e); I n = (I)ldexp(m, 53); e -= 53; while (n && n % 2 == 0 && e < 0) { n /= 2; e++; } std::string s = n < 0 ? big(-n) + ".0" : big(n) + ".0"; if (e > 0) s = "(* " + s + " " + pow2(e) + ".0)"; else if (e < 0) s = "(/ " + s + " " + pow2(-e) + ".0)"; return n < 0 ? "(- " + s + ")" : s; }
  std::string name(const char *p) { return p + std::to_string(fresh++); }
  Int freshI(unsigned w) { Int r{name("i"), -((I)1 << (w - 1)), ((I)1 << (w - 1)) - 1}; out << "(declare-const " << r.t << " Int)\n(assert (<= " << big(r.lo) << " " << r.t << " " << big(r.hi) << "))\n"; return r; }
  bool fits(I lo, I hi, unsigned w) { return lo >= -((I)1 << (w - 1)) && hi <= ((I)1 << (w - 1)) - 1; }
  Int defI(const std::string &t, I lo, I hi) { Int r{name("i"), lo, hi}; out << "(define-fun " << r.t << " () Int " << t << ")\n"; return r; }
  Int uns(Expr *e) { Int x = iv(e); if (x.lo >= 0) return x; return Int{"(ite (< " + x.t + " 0) (+ " + x.t + " " + big((I)1 << e->w) + ") " + x.t + ")", 0, ((I)1 << e->w) - 1}; }
  Int iv(Expr *e) {
    auto it = im.find(e); if (it != im.end()) return it->second; unsigned w = e->w; Int r; bool done = false;
    if (e->op == O_CONST) { I v = sx(e->k, w); r = Int{big(v), v, v}; done = true; }
    else if (e->op == O_VAR) { r = Int{"v" + std::to_string(e->k), -((I)1 << (w - 1)), ((I)1 << (w - 1)) - 1}; auto b = vb.find((uint32_t)e->k); if (b != vb.end()) { r.lo = std::max(r.lo, b->second.first); r.hi = std::min(r.hi, b->second.second); }
      out << "(declare-const " << r.t << " Int)\n(assert (<= " << big(r.lo) << " " << r.t << " " << big(r.hi) << "))\n"; ivars.insert((uint32_t)e->k); done = true; }
    else if (e->op == O_ZEXT && e->a->w > 1) { r = uns(e->a); r = defI(r.t, r.lo, r.hi); done = true; }
    else if (e->op == O_ZEXT) { r = defI("(ite " + bo(e->a) + " 1 0)", 0, 1); done = true; }
    else if (e->op == O_SEXT && e->a->w > 1) { r = iv(e->a); done = true; }
    else if (e->op == O_ADD || e->op == O_SUB) { Int a = iv(e->a), b = iv(e->b); I lo = e->op == O_ADD ? a.lo + b.lo : a.lo - b.hi, hi = e->op == O_ADD ? a.hi + b.hi : a.hi - b.lo; if (fits(lo, hi, w)) { r = defI(std::string(e->op == O_ADD ? "(+ " : "(- ") + a.t + " " + b.t + ")", lo, hi); done = true; } }
    else if (e->op == O_MUL && (ExprCtx::isC(e->b) || ExprCtx::isC(e->a))) { Int a = iv(e->a), b = iv(e->b); I m = (I)1 << 62; if (a.lo > -m && a.hi < m && b.lo > -m && b.hi < m) { I p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; I lo = p[0], hi = p[0]; for (I x : p) { lo = std::min(lo, x); hi = std::max(hi, x); } if (fits(lo, hi, w)) { r = defI("(* " + a.t + " " + b.t + ")", lo, hi); done = true; } } }
    else if (e->op == O_ITE) { Int a = iv(e->b), b = iv(e->c); r = defI("(ite " + bo(e->a) + " " + a.t + " " + b.t + ")", std::min(a.lo, b.lo), std::max(a.hi, b.hi)); done = true; }
    else if (e->op == O_EXTRACT && e->k == 0 && e->a->w > 1) { Int a = iv(e->a); if (fits(a.lo, a.hi, w)) { r = a; done = true; } }
    else if (e->op == O_FPTOSI && w == 64) { Real a = rv(e->a); if (a.ok && a.lo > -4e18L && a.hi < 4e18L) { r = defI("(ite (>= " + a.t + " 0.0) (to_int " + a.t + ") (- (to_int (- " + a.t + "))))", (I)truncl(a.lo) - 1, (I)truncl(a.hi) + 1); done = true; } }
    if (!done) { if (w == 1) r = defI("(ite " + bo(e) + " (- 1) 0)", -1, 0); else r = freshI(w); }
    return im[e] = r;
  }
  Real rounded(const std::string &e, long double lo, long double hi, unsigned w) {
    int k = w == 64; ops++; Real r{name("y"), 0, 0, true}; std::string x = name("e"); long double u = k ? 0x1p-53L : 0x1p-24L, t = k ? 0x1p-1074L : 0x1p-149L;
    out << "(define-fun " << x << " () Real " << e << ")\n(declare-const " << r.t << " Real)\n";
    std::string d = "(+ (* (ite (>= " + x + " 0.0) " + x + " (- " + x + ")) (/ 1.0 " + pow2(k ? 53 : 24) + ".0)) (/ 1.0 " + pow2(k ? 1074 : 149) + ".0))";
    out << "(assert (and (<= (- " << r.t << " " << x << ") " << d << ") (<= (- " << x << " " << r.t << ") " << d << ")))\n";
    r.lo = lo - (fabsl(lo) * u + t) * 1.0001L; r.hi = hi + (fabsl(hi) * u + t) * 1.0001L; if (lo >= 0 && r.lo < 0) r.lo = 0; if (hi <= 0 && r.hi > 0) r.hi = 0;
    long double mx = k ? 1.7e308L : 3.3e38L; if (!(r.lo >= -mx && r.hi <= mx)) r.ok = false;
    for (auto &o : rnd[k]) { if (!(o.lo > hi)) out << "(assert (=> (<= " << x << " " << o.e << ") (<= " << r.t << " " << o.y << ")))\n"; if (!(o.hi < lo)) out << "(assert (=> (<= " << o.e << " " << x << ") (<= " << o.y << " " << r.t << ")))\n"; }
    rnd[k].push_back({x, r.t, lo, hi}); return r;
  }
  // sums and products of integer-valued numbers below 2^53 (2^24) are exact
  Real arith(const std::string &e, long double lo, long double hi, unsigned w, bool ints) {
    long double m = w == 64 ? 0x1p53L : 0x1p24L; if (!ints || lo < -m || hi > m) return rounded(e, lo, hi, w);
    ops++; std::string x = name("e"); out << "(define-fun " << x << " () Real " << e << ")\n"; Real r{x, lo, hi, true}; r.in = true; return r; }
  Real exact(const std::string &t, long double lo, long double hi, unsigned w) { int k = w == 64;
    for (auto &o : rnd[k]) if (o.e != o.y) out << "(assert (and (=> (<= " << t << " " << o.e << ") (<= " << t << " " << o.y << ")) (=> (<= " << o.e << " " << t << ") (<= " << o.y << " " << t << "))))\n";
    rnd[k].push_back({t, t, lo, hi}); return Real{t, lo, hi, true}; }
  Real rv(Expr *e) {
    auto it = rm.find(e); if (it != rm.end()) return it->second; unsigned w = e->w; Real r{"", 0, 0, false}; long double mx = w == 64 ? 1.8e308L : 3.41e38L;
    auto bnd = [&](long double a, long double b, long double c, long double d, long double &lo, long double &hi) { lo = std::min(std::min(a, b), std::min(c, d)); hi = std::max(std::max(a, b), std::max(c, d)); lo -= fabsl(lo) * 1e-17L; hi += fabsl(hi) * 1e-17L; };
    switch (e->op) {
    case O_CONST: { double d = w == 32 ? (double)bf(e->k) : bd(e->k); if (std::isfinite(d)) { r = exact(rat(d), d, d, w); r.in = d == std::floor(d) && fabs(d) < 1e15; } break; }
    case O_SITOFP: case O_UITOFP: { Int a = e->op == O_SITOFP ? iv(e->a) : uns(e->a); I m = (I)1 << (w == 64 ? 53 : 24); std::string t = "(to_real " + a.t + ")"; r = a.lo >= -m && a.hi <= m ? arith(t, (long double)a.lo, (long double)a.hi, w, true) : rounded(t, (long double)a.lo, (long double)a.hi, w); break; }
    case O_FADD: case O_FSUB: { Real a = rv(e->a), b = rv(e->b); if (!a.ok || !b.ok) break; bool s = e->op == O_FSUB; long double lo = s ? a.lo - b.hi : a.lo + b.lo, hi = s ? a.hi - b.lo : a.hi + b.hi; lo -= fabsl(lo) * 1e-17L; hi += fabsl(hi) * 1e-17L; r = arith((s ? "(- " : "(+ ") + a.t + " " + b.t + ")", lo, hi, w, a.in && b.in); break; }
    case O_FMUL: { Real a = rv(e->a), b = rv(e->b); if (!a.ok || !b.ok) break; long double lo, hi; bnd(a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi, lo, hi); if (e->a == e->b && lo < 0) lo = 0; r = arith("(* " + a.t + " " + b.t + ")", lo, hi, w, a.in && b.in); break; }
    case O_FDIV: { Real a = rv(e->a), b = rv(e->b); if (!a.ok || !b.ok || !(b.lo > 0 || b.hi < 0)) break; long double lo, hi; bnd(a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi, lo, hi); r = rounded("(/ " + a.t + " " + b.t + ")", lo, hi, w); break; }
    case O_FSQRT: { Real a = rv(e->a); if (!a.ok || a.lo < 0) break; std::string t = name("q"); out << "(declare-const " << t << " Real)\n(assert (and (>= " << t << " 0.0) (= (* " << t << " " << t << ") " << a.t << ")))\n"; r = rounded(t, sqrtl(a.lo) * 0.9999L, sqrtl(a.hi) * 1.0001L, w); break; }
    case O_FPEXT: r = rv(e->a); if (r.ok && !r.in) r = exact(r.t, r.lo, r.hi, w); break;
    case O_FPTRUNC: { Real a = rv(e->a); if (a.ok) r = rounded(a.t, a.lo, a.hi, w); break; }
    case O_XOR: if (ExprCtx::isC(e->b, 1ull << (w - 1))) { Real a = rv(e->a); if (a.ok) { if (a.in) r = arith("(- " + a.t + ")", -a.hi, -a.lo, w, true); else r = exact("(- " + a.t + ")", -a.hi, -a.lo, w); } } break;
    case O_AND: if (ExprCtx::isC(e->b, maskw(w) >> 1)) { Real a = rv(e->a); if (a.ok) { std::string t = name("a"); out << "(define-fun " << t << " () Real (ite (>= " << a.t << " 0.0) " << a.t << " (- " << a.t << ")))\n"; if (a.in) r = arith(t, 0, std::max(fabsl(a.lo), fabsl(a.hi)), w, true); else r = exact(t, 0, std::max(fabsl(a.lo), fabsl(a.hi)), w); } } break;
    case O_ITE: { Real a = rv(e->b), b = rv(e->c); if (a.ok && b.ok) { std::string t = name("t"); out << "(define-fun " << t << " () Real (ite " << bo(e->a) << " " << a.t << " " << b.t << "))\n"; if (a.in && b.in) r = arith(t, std::min(a.lo, b.lo), std::max(a.hi, b.hi), w, true); else r = exact(t, std::min(a.lo, b.lo), std::max(a.hi, b.hi), w); } break; }
    default: break;
    }
    if (!r.ok && e->op == O_VAR && fb.count((uint32_t)e->k)) { auto b = fb[(uint32_t)e->k]; if (std::isfinite(b.first) && std::isfinite(b.second)) { std::string t = name("x"); out << "(declare-const " << t << " Real)\n(assert (<= " << rat(b.first) << " " << t << " " << rat(b.second) << "))\n"; r = exact(t, b.first, b.second, w); xvars[(uint32_t)e->k] = t; } }
    if (!r.ok && !isFPValued(e->op) && F.finite.count(e)) { std::string t = name("x"); out << "(declare-const " << t << " Real)\n(assert (<= (- " << rat((double)mx > 1e300 ? 1.7976931348623157e308 : 3.4028234663852886e38) << ") " << t << " " << rat(mx > 1e300L ? 1.7976931348623157e308 : 3.4028234663852886e38) << "))\n"; r = exact(t, -mx, mx, w); if (e->op == O_VAR) xvars[(uint32_t)e->k] = t; }
    return rm[e] = r;
  }
  static bool intl(Expr *e) { return !e->hasfp || e->op == O_FPTOSI || ((e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) && intl(e->a) && intl(e->b)) || ((e->op == O_SEXT || e->op == O_ZEXT || (e->op == O_EXTRACT && e->k == 0)) && intl(e->a)); }
  std::string bo(Expr *e) {
    if (e->op == O_CONST) return e->k ? "true" : "false";
    auto it = bm.find(e); if (it != bm.end()) return it->second; std::string r; Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case O_AND: r = "(and " + bo(a) + " " + bo(b) + ")"; break; case O_OR: r = "(or " + bo(a) + " " + bo(b) + ")"; break; case O_XOR: r = "(xor " + bo(a) + " " + bo(b) + ")"; break;
    case O_ITE: r = "(ite " + bo(a) + " " + bo(b) + " " + bo(e->c) + ")"; break;
    case O_EQ: if (a->w == 1) r = "(= " + bo(a) + " " + bo(b) + ")"; else if (intl(a) && intl(b)) r = "(= " + iv(a).t + " " + iv(b).t + ")"; break;
    case O_ULT: case O_ULE: if (a->w > 1 && intl(a) && intl(b)) r = std::string(e->op == O_ULT ? "(< " : "(<= ") + uns(a).t + " " + uns(b).t + ")"; break;
    case O_SLT: case O_SLE: if (a->w > 1 && intl(a) && intl(b)) r = std::string(e->op == O_SLT ? "(< " : "(<= ") + iv(a).t + " " + iv(b).t + ")"; break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: { Real x = rv(a), y = rv(b); if (x.ok && y.ok) r = e->op == O_FUNO ? "false" : std::string(e->op == O_FEQ ? "(= " : e->op == O_FLT ? "(< " : "(<= ") + x.t + " " + y.t + ")"; break; }
    default: break;
    }
    std::string n = name("b");
    if (r.empty()) out << "(declare-const " << n << " Bool)\n"; else out << "(define-fun " << n << " () Bool " << r << ")\n";
    return bm[e] = n;
  }
  void bound(Expr *e, bool pos) {
    if (e->op == O_XOR && e->w == 1 && ExprCtx::isC(e->b, 1)) return bound(e->a, !pos);
    if (e->op == O_AND && e->w == 1 && pos) { bound(e->a, true); bound(e->b, true); return; }
    if ((e->op == O_FLT || e->op == O_FLE) && pos) {
      auto g = [&](Expr *v) -> std::pair<double, double> & { auto it = fb.find((uint32_t)v->k); if (it == fb.end()) it = fb.emplace((uint32_t)v->k, std::make_pair(-HUGE_VAL, HUGE_VAL)).first; return it->second; }; auto cv = [&](Expr *c) { return c->w == 32 ? (double)bf(c->k) : bd(c->k); };
      if (e->a->op == O_VAR && ExprCtx::isC(e->b)) g(e->a).second = std::min(g(e->a).second, cv(e->b)); else if (e->b->op == O_VAR && ExprCtx::isC(e->a)) g(e->b).first = std::max(g(e->b).first, cv(e->a)); return; }
    if (e->op != O_SLT && e->op != O_SLE && e->op != O_ULT && e->op != O_ULE) return;
    Expr *a = e->a, *b = e->b; bool strict = e->op == O_SLT || e->op == O_ULT, sg = e->op == O_SLT || e->op == O_SLE; if (!pos) { std::swap(a, b); strict = !strict; }
    auto get = [&](Expr *v) -> std::pair<I, I> & { auto it = vb.find((uint32_t)v->k); if (it == vb.end()) it = vb.emplace((uint32_t)v->k, std::make_pair(-((I)1 << (v->w - 1)), ((I)1 << (v->w - 1)) - 1)).first; return it->second; };
    if (a->op == O_VAR && ExprCtx::isC(b) && a->w > 1) { I k = sg ? (I)sx(b->k, b->w) : (I)b->k; if (strict) k--; if (sg) get(a).second = std::min(get(a).second, k); else if (k <= ((I)1 << (a->w - 1)) - 1) { auto &p = get(a); p.first = std::max(p.first, (I)0); p.second = std::min(p.second, k); } }
    if (b->op == O_VAR && ExprCtx::isC(a) && b->w > 1 && sg) { I k = sx(a->k, a->w); if (strict) k++; get(b).first = std::max(get(b).first, k); }
  }
  std::string query(const std::vector<Expr *> &cs) {
    for (Expr *c : cs) bound(c, true);
    exact("0.0", 0, 0, 64); exact("1.0", 1, 1, 64); exact("0.0", 0, 0, 32); exact("1.0", 1, 1, 32);
    std::vector<std::string> bs; for (Expr *c : cs) bs.push_back(bo(c));
    for (auto &b : bs) out << "(assert " << b << ")\n";
    std::string s = "(set-option :produce-models true)\n" + out.str() + "(check-sat)\n"; if (!ivars.empty() || !xvars.empty()) { s += "(get-value ("; for (auto v : ivars) s += "v" + std::to_string(v) + " "; for (auto &v : xvars) s += v.second + " "; s += "))\n"; }
    return s;
  }
  // a number in a model: 1.0, (- n), (/ n d); NaN for anything else
  static double num(const std::string &o, size_t &p) {
    while (p < o.size() && o[p] == ' ') p++; if (p >= o.size()) return NAN;
    if (o[p] == '(') { p++; while (p < o.size() && o[p] == ' ') p++; char c = p < o.size() ? o[p] : 0; p++; if (c != '-' && c != '/') return NAN; double a = num(o, p), r = -a; if (c == '/') { double b = num(o, p); r = a / b; } while (p < o.size() && o[p] != ')') p++; p++; return r; }
    if (!isdigit((unsigned char)o[p])) return NAN; char *e; double v = strtod(o.c_str() + p, &e); p = e - o.c_str(); return v;
  }
  // values of the integer variables in a model; of the real ones the nearest floating-point number
  void parse(const std::string &o, SmtResult &R) {
    size_t p = 0; while ((p = o.find("(v", p)) != std::string::npos) { p += 2; char *e; unsigned id = strtoul(o.c_str() + p, &e, 10); p = e - o.c_str(); while (p < o.size() && o[p] == ' ') p++; bool neg = false; if (o[p] == '(') { neg = true; p = o.find_first_of("0123456789", p); if (p == std::string::npos) return; } u64 v = strtoull(o.c_str() + p, nullptr, 10); if (neg) v = -v; R.vals[id] = v & maskw(X.vars[id].w); }
    for (auto &x : xvars) { size_t q = o.find("(" + x.second + " "); if (q == std::string::npos) continue; q += x.second.size() + 2; double d = num(o, q); if (d == d) R.vals[x.first] = X.vars[x.first].w == 64 ? db(d) : (u64)fb_((float)d); }
  }
};
