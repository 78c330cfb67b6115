// Consequences of the path condition that need no solver call: literals that are asserted
// verbatim, and the transitive closure of the asserted comparisons (integers signed and unsigned,
// floating-point values known not to be NaN).  Used to simplify a condition before it is decided.
// ASYM_CHECK_ORDER=1 has every simplification to a constant confirmed by a solver.
#pragma once
#include <unordered_set>
#include "expr.h"
struct OrderGraph {
  std::unordered_map<Expr *, int> idx; std::vector<Expr *> nodes; std::vector<std::vector<uint8_t>> rel; int kind; unsigned w;
  int cmpConst(u64 a, u64 b) const { if (kind == 0) { double x = w == 32 ? bf(a) : bd(a), y = w == 32 ? bf(b) : bd(b); return x < y ? -1 : x > y ? 1 : 0; } if (kind == 1) { i64 x = sx(a, w), y = sx(b, w); return x < y ? -1 : x > y; } return a < b ? -1 : a > b; }
  int find(Expr *e) const { auto it = idx.find(e); return it == idx.end() ? -1 : it->second; }
  int node(Expr *e) {
    int i = find(e); if (i >= 0) return i; i = nodes.size(); nodes.push_back(e); idx[e] = i; for (auto &r : rel) r.push_back(0); rel.push_back(std::vector<uint8_t>(nodes.size(), 0));
    if (e->op == O_CONST) for (int j = 0; j < i; j++) if (nodes[j]->op == O_CONST) { int c = cmpConst(nodes[j]->k, e->k); if (c <= 0) edge(j, i, c < 0); if (c >= 0) edge(i, j, c > 0); }
    return i;
  }
  void edge(int u, int v, bool strict) {
    if (u == v) return; uint8_t s = strict ? 2 : 1; if (rel[u][v] >= s) return;
    int n = nodes.size();
    for (int x = 0; x < n; x++) { uint8_t a = x == u ? 1 : rel[x][u]; if (!a) continue;
      for (int y = 0; y < n; y++) { uint8_t b = y == v ? 1 : rel[v][y]; if (!b || x == y) continue; uint8_t r = (a == 2 || b == 2 || s == 2) ? 2 : 1; if (rel[x][y] < r) rel[x][y] = r; } }
  }
  // 2: a < b, 1: a <= b, 0: unknown
  uint8_t get(Expr *a, Expr *b) {
    if (a == b) return 1; int i = find(a), j = find(b);
    if (i < 0 && a->op == O_CONST && j >= 0) i = node(a); if (j < 0 && b->op == O_CONST && i >= 0) j = node(b);
    return i < 0 || j < 0 ? 0 : rel[i][j];
  }
};
struct Facts {
  ExprCtx &X; size_t done = 0; uint64_t version = 1, memoVersion = 0;
  std::unordered_map<Expr *, bool> lit; std::unordered_set<Expr *> nonnan; std::unordered_map<unsigned, OrderGraph> G; std::unordered_map<Expr *, Expr *> memo;
  Facts(ExprCtx &x) : X(x) {}
  OrderGraph &g(int kind, unsigned w) { auto &r = G[kind * 128 + w]; r.kind = kind; r.w = w; return r; }
  bool nn(Expr *e) { if (e->op == O_CONST) return e->w == 32 ? bf(e->k) == bf(e->k) : bd(e->k) == bd(e->k); if (e->op == O_SITOFP || e->op == O_UITOFP) return true; if (e->op == O_FPEXT) return nn(e->a); if (nonnan.count(e)) return true; if (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL) return mag(e->a) && mag(e->b); return false; }
  // 0 unknown, 1 finite, 2 finite and at most half the largest value
  std::unordered_set<Expr *> finite;
  int mag(Expr *e) {
    if (e->op == O_CONST) { double d = e->w == 32 ? bf(e->k) : bd(e->k); return !std::isfinite(d) ? 0 : fabs(d) <= 1e30 ? 2 : 1; }
    if (e->op == O_SITOFP || e->op == O_UITOFP) return 2; if (e->op == O_FPEXT) return mag(e->a) ? 2 : 0;
    if (e->op == O_FADD || e->op == O_FSUB) return mag(e->a) == 2 && mag(e->b) == 2 ? 1 : finite.count(e) ? 1 : 0;
    if (e->op == O_FMUL) { for (int i = 0; i < 2; i++) { Expr *k = i ? e->a : e->b, *o = i ? e->b : e->a; if (k->op == O_CONST && mag(o)) { double d = fabs(e->w == 32 ? bf(k->k) : bd(k->k)); if (d <= 0.5) return 2; if (d <= 1) return mag(o); } } }
    return finite.count(e) ? 1 : 0; }
  void le(int kind, Expr *a, Expr *b, bool strict) { if (a->w < 2) return; auto &q = g(kind, a->w); if (q.nodes.size() > 400) return; int i = q.node(a), j = q.node(b); q.edge(i, j, strict); }
  void assertLit(Expr *e, bool v) {
    if (e->op == O_CONST) return;
    if (e->op == O_XOR && e->w == 1 && ExprCtx::isC(e->b, 1)) return assertLit(e->a, !v);
    if (e->op == O_AND && e->w == 1 && v) { lit[e] = v; assertLit(e->a, v); return assertLit(e->b, v); }
    if (e->op == O_OR && e->w == 1 && !v) { lit[e] = v; assertLit(e->a, v); return assertLit(e->b, v); }
    lit[e] = v; Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case O_FLT: case O_FLE: { bool s = e->op == O_FLT; if (v) { nonnan.insert(a); nonnan.insert(b); le(0, a, b, s); } else if (nn(a) && nn(b)) le(0, b, a, !s); break; }
    case O_FEQ: if (v) { nonnan.insert(a); nonnan.insert(b); le(0, a, b, false); le(0, b, a, false); } break;
    case O_FUNO: if (!v) { nonnan.insert(a); nonnan.insert(b); } break;
    case O_SLT: case O_SLE: { bool s = e->op == O_SLT; if (v) le(1, a, b, s); else le(1, b, a, !s); break; }
    case O_ULT: case O_ULE: { bool s = e->op == O_ULT; if (v) le(2, a, b, s); else le(2, b, a, !s); break; }
    case O_EQ:
      if (v) { le(1, a, b, false); le(1, b, a, false); le(2, a, b, false); le(2, b, a, false); if ((a->w == 32 || a->w == 64) && nn(a) && nn(b)) { le(0, a, b, false); le(0, b, a, false); } }
      else if (a->op == O_AND && ExprCtx::isC(a->b) && ExprCtx::isC(b) && a->b->k == b->k && ((a->w == 32 && b->k == 0x7f800000ull) || (a->w == 64 && b->k == 0x7ff0000000000000ull))) { nonnan.insert(a->a); finite.insert(a->a); }
      break;
    default: break; }
  }
  void sync(const std::vector<Expr *> &PC) { if (done == PC.size()) return; for (; done < PC.size(); done++) assertLit(PC[done], true); version++; }
  int atom(Expr *e) { // 1 true, 0 false, -1 unknown
    auto it = lit.find(e); if (it != lit.end()) return it->second; Expr *a = e->a, *b = e->b;
    auto dis = [&](Op o) { auto k = lit.find(X.raw(o, 1, 0, a->id < b->id || b->op == O_CONST ? a : b, a->id < b->id || b->op == O_CONST ? b : a)); return k != lit.end() && !k->second; };
    auto cmp = [&](OrderGraph &q, bool strict, Op eqop, bool fpd) -> int { uint8_t ab = q.get(a, b), ba = q.get(b, a); (void)fpd;
      if (strict) { if (ab == 2) return 1; if (ba) return 0; if (ab == 1 && dis(eqop)) return 1; } else { if (ab) return 1; if (ba == 2) return 0; if (ba == 1 && dis(eqop)) return 0; } return -1; };
    switch (e->op) {
    case O_FLT: if (nn(a) && nn(b)) return cmp(g(0, a->w), true, O_FEQ, true); break;
    case O_FLE: if (nn(a) && nn(b)) return cmp(g(0, a->w), false, O_FEQ, true); break;
    case O_FEQ: if (nn(a) && nn(b)) { auto &q = g(0, a->w); uint8_t ab = q.get(a, b), ba = q.get(b, a); if (ab == 2 || ba == 2) return 0; if (ab && ba) return 1; } break;
    case O_FUNO: if (nn(a) && nn(b)) return 0; break;
    case O_SLT: return cmp(g(1, a->w), true, O_EQ, false); case O_SLE: return cmp(g(1, a->w), false, O_EQ, false);
    case O_ULT: return cmp(g(2, a->w), true, O_EQ, false); case O_ULE: return cmp(g(2, a->w), false, O_EQ, false);
    case O_EQ: if (a->w > 1) { for (int k = 0; k < 3; k++) { if (k == 0 && !((a->w == 32 || a->w == 64) && nn(a) && nn(b))) continue; auto &q = g(k, a->w); uint8_t ab = q.get(a, b), ba = q.get(b, a); if (ab == 2 || ba == 2) return 0; if (k && ab && ba) return 1; } } break;
    default: break; }
    return -1;
  }
  Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
    if (a == e->a && b == e->b && c == e->c) return e;
    switch (e->op) {
    case O_ITE: return X.ite(a, b, c); case O_EXTRACT: return X.ext(a, e->k, e->w); case O_CONCAT: return X.concat(a, b); case O_ZEXT: return X.zext(a, e->w); case O_SEXT: return X.sext(a, e->w);
    case O_FSQRT: case O_FRND: case O_FPEXT: case O_FPTRUNC: case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: return X.un(e->op, a, e->w, e->k);
    default: return X.bin(e->op, a, b); }
  }
  Expr *simp(Expr *root, const std::vector<Expr *> &PC) {
    sync(PC); if (memoVersion != version) { memo.clear(); memoVersion = version; }
    std::vector<Expr *> st{root}; size_t steps = 0;
    while (!st.empty()) {
      if (++steps > 200000) return root;
      Expr *e = st.back(); if (memo.count(e)) { st.pop_back(); continue; }
      if (e->op == O_CONST || e->op == O_VAR) { memo[e] = e; st.pop_back(); continue; }
      if (e->w == 1) { int v = atom(e); if (v >= 0) { memo[e] = X.K(v, 1); st.pop_back(); continue; } }
      if (e->op == O_ITE) { auto it = memo.find(e->a); if (it == memo.end()) { st.push_back(e->a); continue; } if (it->second->op == O_CONST) { Expr *t = it->second->k ? e->b : e->c; auto jt = memo.find(t); if (jt == memo.end()) { st.push_back(t); continue; } Expr *r = jt->second; memo[e] = r; st.pop_back(); continue; } }
      bool ready = true; for (Expr *y : {e->a, e->b, e->c}) if (y && !memo.count(y)) { st.push_back(y); ready = false; }
      if (!ready) continue; st.pop_back();
      Expr *r = rebuild(e, e->a ? memo[e->a] : nullptr, e->b ? memo[e->b] : nullptr, e->c ? memo[e->c] : nullptr);
      if (r != e && r->w == 1 && r->op != O_CONST) { int v = atom(r); if (v >= 0) r = X.K(v, 1); }
      memo[e] = r;
    }
    return memo[root];
  }
};
