// SMT-LIB2 emission of expressions and the solvers that decide the queries.
// Bit-vector queries: z3 in process.  Queries with floating-point arithmetic: cvc5, then a
// cvc5/z3 portfolio.  Every query is a self-contained SMT-LIB2 text.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include <functional>
#include <set>
#include <sstream>
#include "expr.h"
extern char **environ;
static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct SmtWriter {
  ExprCtx &X; std::ostringstream out; std::unordered_map<Expr *, int> state; // 1 = defined
  std::unordered_map<Expr *, int> fpish_; std::set<u64> fpbv; bool fp = false;
  std::set<uint32_t> declared;
  SmtWriter(ExprCtx &x) : X(x) {}
  static bool wfp(Expr *e) { return e->w == 32 || e->w == 64; }
  bool fpish(Expr *e) {
    if (isFPValued(e->op)) return true;
    if (!e->hasfp || !wfp(e)) return false;
    auto it = fpish_.find(e); if (it != fpish_.end()) return it->second;
    bool r = false;
    if (e->op == O_ITE) r = fpish(e->b) || fpish(e->c);
    else if (e->op == O_XOR && ExprCtx::isC(e->b, 1ull << (e->w - 1))) r = fpish(e->a);
    fpish_[e] = r; return r;
  }
  static std::string bv(u64 v, unsigned w) { std::string s = "#b"; for (int i = w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; return s; }
  static const char *fs(unsigned w) { return w == 32 ? "(_ to_fp 8 24)" : "(_ to_fp 11 53)"; }
  // name of the node in its natural sort (Bool for w==1, FP for fpish, BV otherwise)
  std::string ref(Expr *e) {
    if (e->op == O_CONST) return e->w == 1 ? (e->k ? "true" : "false") : bv(e->k, e->w);
    if (e->op == O_VAR) return "v" + std::to_string(e->k);
    return "n" + std::to_string(e->id);
  }
  std::string asBV(Expr *e) {
    if (e->w == 1) return e->op == O_CONST ? bv(e->k, 1) : "(ite " + ref(e) + " #b1 #b0)";
    if (!fpish(e)) return ref(e);
    return "b" + std::to_string(e->id);
  }
  std::string asFP(Expr *e) { fp = true; if (fpish(e)) return ref(e); return std::string("(") + fs(e->w) + " " + ref(e) + ")"; }
  void needBV(Expr *e) {
    if (e->w == 1 || !fpish(e) || !fpbv.insert(e->id).second) return;
    out << "(declare-fun b" << e->id << " () (_ BitVec " << (int)e->w << "))\n(assert (= (" << fs(e->w) << " b" << e->id << ") " << ref(e) << "))\n";
  }
  static std::string fpc(double v, unsigned w) { return "(" + std::string(fs(w)) + " " + bv(w == 32 ? fb((float)v) : db(v), w) + ")"; }
  void define(Expr *root) {
    std::vector<Expr *> st{root};
    while (!st.empty()) {
      Expr *e = st.back();
      if (state.count(e)) { st.pop_back(); continue; }
      bool ready = true;
      for (Expr *y : {e->a, e->b, e->c}) if (y && !state.count(y)) { st.push_back(y); ready = false; }
      if (!ready) continue;
      st.pop_back(); state[e] = 1;
      if (e->op == O_CONST) continue;
      if (e->op == O_VAR) { if (declared.insert(e->k).second) out << "(declare-fun v" << e->k << " () (_ BitVec " << (int)e->w << "))\n"; continue; }
      emit(e);
    }
  }
  void def(Expr *e, const std::string &sort, const std::string &body) { out << "(define-fun n" << e->id << " () " << sort << " " << body << ")\n"; }
  void emit(Expr *e) {
    Expr *a = e->a, *b = e->b, *c = e->c; std::string S = e->w == 1 ? "Bool" : "(_ BitVec " + std::to_string(e->w) + ")";
    std::string F = e->w == 32 ? "(_ FloatingPoint 8 24)" : "(_ FloatingPoint 11 53)";
    auto bvop = [&](const char *n) { needBV(a); needBV(b); return "(" + std::string(n) + " " + asBV(a) + " " + asBV(b) + ")"; };
    auto toB = [&](const std::string &s) { return e->w == 1 ? "(= " + s + " #b1)" : s; };
    switch (e->op) {
    case O_ADD: return def(e, S, toB(bvop("bvadd"))); case O_SUB: return def(e, S, toB(bvop("bvsub"))); case O_MUL: return def(e, S, toB(bvop("bvmul")));
    case O_UDIV: return def(e, S, toB(bvop("bvudiv"))); case O_SDIV: return def(e, S, toB(bvop("bvsdiv")));
    case O_UREM: return def(e, S, toB(bvop("bvurem"))); case O_SREM: return def(e, S, toB(bvop("bvsrem")));
    case O_SHL: return def(e, S, toB(bvop("bvshl"))); case O_LSHR: return def(e, S, toB(bvop("bvlshr"))); case O_ASHR: return def(e, S, toB(bvop("bvashr")));
    case O_AND: if (e->w == 1) return def(e, S, "(and " + ref(a) + " " + ref(b) + ")"); return def(e, S, bvop("bvand"));
    case O_OR: if (e->w == 1) return def(e, S, "(or " + ref(a) + " " + ref(b) + ")"); return def(e, S, bvop("bvor"));
    case O_XOR: if (e->w == 1) return def(e, S, ExprCtx::isC(b, 1) ? "(not " + ref(a) + ")" : "(xor " + ref(a) + " " + ref(b) + ")");
      if (fpish(e)) { fp = true; return def(e, F, "(fp.neg " + asFP(a) + ")"); }
      return def(e, S, bvop("bvxor"));
    case O_EQ: if (a->w == 1) return def(e, S, "(= " + ref(a) + " " + ref(b) + ")");
      if (fpish(a) || fpish(b)) return def(e, S, "(= " + asFP(a) + " " + asFP(b) + ")");
      return def(e, S, "(= " + ref(a) + " " + ref(b) + ")");
    case O_ULT: return def(e, S, bvop("bvult")); case O_ULE: return def(e, S, bvop("bvule"));
    case O_SLT: return def(e, S, bvop("bvslt")); case O_SLE: return def(e, S, bvop("bvsle"));
    case O_CONCAT: return def(e, S, bvop("concat"));
    case O_EXTRACT: needBV(a); return def(e, S, toB("((_ extract " + std::to_string(e->k + e->w - 1) + " " + std::to_string(e->k) + ") " + asBV(a) + ")"));
    case O_ZEXT: needBV(a); return def(e, S, "((_ zero_extend " + std::to_string(e->w - a->w) + ") " + asBV(a) + ")");
    case O_SEXT: needBV(a); return def(e, S, "((_ sign_extend " + std::to_string(e->w - a->w) + ") " + asBV(a) + ")");
    case O_ITE: if (e->w > 1 && fpish(e)) return def(e, F, "(ite " + ref(a) + " " + asFP(b) + " " + asFP(c) + ")");
      return def(e, S, "(ite " + ref(a) + " " + ref(b) + " " + ref(c) + ")");
    case O_FADD: return def(e, F, "(fp.add RNE " + asFP(a) + " " + asFP(b) + ")"); case O_FSUB: return def(e, F, "(fp.sub RNE " + asFP(a) + " " + asFP(b) + ")");
    case O_FMUL: return def(e, F, "(fp.mul RNE " + asFP(a) + " " + asFP(b) + ")"); case O_FDIV: return def(e, F, "(fp.div RNE " + asFP(a) + " " + asFP(b) + ")");
    case O_FSQRT: return def(e, F, "(fp.sqrt RNE " + asFP(a) + ")");
    case O_FRND: { const char *rm[] = {"RTN", "RTP", "RTZ", "RNE"}; return def(e, F, "(fp.roundToIntegral " + std::string(rm[e->k]) + " " + asFP(a) + ")"); }
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO:
      if (a->hasfp || b->hasfp) { fp = true;
        if (e->op == O_FUNO) return def(e, S, "(or (fp.isNaN " + asFP(a) + ") (fp.isNaN " + asFP(b) + "))");
        return def(e, S, std::string(e->op == O_FEQ ? "(fp.eq " : e->op == O_FLT ? "(fp.lt " : "(fp.leq ") + asFP(a) + " " + asFP(b) + ")"); }
      { // pure bit-vector encoding of the IEEE comparison
        unsigned w = a->w; std::string x = ref(a), y = ref(b); u64 expm = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; u64 mag = maskw(w) >> 1;
        auto nan = [&](const std::string &t) { return "(bvugt (bvand " + t + " " + bv(mag, w) + ") " + bv(expm, w) + ")"; };
        auto zero = [&](const std::string &t) { return "(= (bvand " + t + " " + bv(mag, w) + ") " + bv(0, w) + ")"; };
        std::string un = "(or " + nan(x) + " " + nan(y) + ")", bz = "(and " + zero(x) + " " + zero(y) + ")";
        if (e->op == O_FUNO) return def(e, S, un);
        std::string eq = "(or " + bz + " (= " + x + " " + y + "))";
        if (e->op == O_FEQ) return def(e, S, "(and (not " + un + ") " + eq + ")");
        // order: negative numbers reversed
        std::string sxx = "(bvslt " + x + " " + bv(0, w) + ")", syy = "(bvslt " + y + " " + bv(0, w) + ")";
        std::string lt = "(ite " + sxx + " (ite " + syy + " (bvult " + y + " " + x + ") (not " + bz + ")) (ite " + syy + " false (bvult " + x + " " + y + ")))";
        if (e->op == O_FLT) return def(e, S, "(and (not " + un + ") " + lt + ")");
        return def(e, S, "(and (not " + un + ") (or " + eq + " " + lt + "))"); }
    case O_FPEXT: case O_FPTRUNC: return def(e, F, "(" + std::string(fs(e->w)) + " RNE " + asFP(a) + ")");
    case O_SITOFP: needBV(a); fp = true; return def(e, F, "(" + std::string(fs(e->w)) + " RNE " + (a->w == 1 ? asBV(a) : asBV(a)) + ")");
    case O_UITOFP: needBV(a); fp = true; return def(e, F, std::string(e->w == 32 ? "((_ to_fp_unsigned 8 24) RNE " : "((_ to_fp_unsigned 11 53) RNE ") + asBV(a) + ")");
    case O_FPTOSI: { std::string f = asFP(a); unsigned w = e->w <= 32 ? 32 : 64; double hi = w == 32 ? 2147483648.0 : 9223372036854775808.0;
      std::string lo = (w == 32 && a->w == 64) ? "(fp.lt " + fpc(-2147483649.0, 64) + " " + f + ")" : "(fp.leq " + fpc(-hi, a->w) + " " + f + ")";
      std::string r = "(ite (and " + lo + " (fp.lt " + f + " " + fpc(hi, a->w) + ")) ((_ fp.to_sbv " + std::to_string(w) + ") RTZ " + f + ") " + bv(1ull << (w - 1), w) + ")";
      if (e->w < w) r = "((_ extract " + std::to_string(e->w - 1) + " 0) " + r + ")"; return def(e, S, toB(r)); }
    case O_FPTOUI: { std::string f = asFP(a); double h = 9223372036854775808.0;
      std::string s = "(ite (and (fp.leq " + fpc(-h, a->w) + " " + f + ") (fp.lt " + f + " " + fpc(h, a->w) + ")) ((_ fp.to_sbv 64) RTZ " + f + ") " + bv(1ull << 63, 64) + ")";
      std::string r = e->w < 64 ? "((_ extract " + std::to_string(e->w - 1) + " 0) " + s + ")" :
        "(ite (fp.leq " + fpc(h, a->w) + " " + f + ") (ite (fp.lt " + f + " " + fpc(2 * h, a->w) + ") ((_ fp.to_ubv 64) RTZ " + f + ") " + bv(0, 64) + ") " + s + ")";
      return def(e, S, toB(r)); }
    default: abort();
    }
  }
  std::string query(const std::vector<Expr *> &cs) {
    for (Expr *c : cs) define(c);
    for (Expr *c : cs) out << "(assert " << ref(c) << ")\n";
    std::string s = "(set-option :produce-models true)\n(set-logic " + std::string(fp ? "QF_BVFP" : "QF_BV") + ")\n" + out.str() + "(check-sat)\n";
    if (!declared.empty()) { s += "(get-value ("; for (auto v : declared) s += "v" + std::to_string(v) + " "; s += "))\n"; }
    return s;
  }
};

enum Sat { SAT, UNSAT, UNKNOWN };
struct SmtResult { Sat r; std::unordered_map<uint32_t, u64> vals; const char *by; };
static inline bool parseModel(const std::string &o, SmtResult &R) {
  size_t p = o.find("(("); if (p == std::string::npos) return true;
  while (true) {
    p = o.find("(v", p); if (p == std::string::npos) break; p += 2; char *e; unsigned id = strtoul(o.c_str() + p, &e, 10); p = e - o.c_str();
    while (p < o.size() && (o[p] == ' ' || o[p] == '\n')) p++;
    if (o[p] != '#') return false; u64 v = 0;
    if (o[p + 1] == 'x') v = strtoull(o.c_str() + p + 2, &e, 16); else { v = 0; size_t q = p + 2; while (o[q] == '0' || o[q] == '1') v = v * 2 + (o[q++] - '0'); }
    R.vals[id] = v;
  }
  return true;
}
static inline void parseAnswer(const std::string &o, SmtResult &R) {
  R.r = UNKNOWN; size_t p = o.find_first_not_of(" \n");
  if (p == std::string::npos) return;
  if (o.compare(p, 5, "unsat") == 0) { R.r = UNSAT; return; }
  if (o.find("(error") != std::string::npos) return;
  if (o.compare(p, 3, "sat") == 0) R.r = parseModel(o, R) ? SAT : UNKNOWN;
}
// In-process z3 for bit-vector queries: expressions are translated once per process lineage.
struct Z3Direct {
  Z3_context c = nullptr; std::unordered_map<Expr *, Z3_ast> memo; std::unordered_map<unsigned, Z3_sort> bvs; Z3_ast one1, zero1; unsigned rl = 0; uint64_t created = 0; Z3_solver s = nullptr;
  void init() { if (c) return; Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, [](Z3_context, Z3_error_code) {}); one1 = Z3_mk_unsigned_int64(c, 1, bv(1)); zero1 = Z3_mk_unsigned_int64(c, 0, bv(1)); }
  Z3_sort bv(unsigned w) { auto it = bvs.find(w); if (it != bvs.end()) return it->second; return bvs[w] = Z3_mk_bv_sort(c, w); }
  Z3_ast K(u64 v, unsigned w) { return Z3_mk_unsigned_int64(c, v & maskw(w), bv(w)); }
  Z3_ast B(Expr *e) { Z3_ast a = memo[e]; return e->w == 1 ? Z3_mk_ite(c, a, one1, zero1) : a; } // as bit-vector
  Z3_ast toB(Expr *e, Z3_ast a) { return e->w == 1 ? Z3_mk_eq(c, a, one1) : a; }
  Z3_ast And(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); }
  Z3_ast Or(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(c, 2, x); }
  Z3_ast mk(Expr *e) {
    Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case O_CONST: return e->w == 1 ? (e->k ? Z3_mk_true(c) : Z3_mk_false(c)) : K(e->k, e->w);
    case O_VAR: { std::string n = "v" + std::to_string(e->k); return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(c) : bv(e->w)); }
    case O_ADD: return toB(e, Z3_mk_bvadd(c, B(a), B(b))); case O_SUB: return toB(e, Z3_mk_bvsub(c, B(a), B(b))); case O_MUL: return toB(e, Z3_mk_bvmul(c, B(a), B(b)));
    case O_UDIV: return toB(e, Z3_mk_bvudiv(c, B(a), B(b))); case O_SDIV: return toB(e, Z3_mk_bvsdiv(c, B(a), B(b))); case O_UREM: return toB(e, Z3_mk_bvurem(c, B(a), B(b))); case O_SREM: return toB(e, Z3_mk_bvsrem(c, B(a), B(b)));
    case O_AND: return e->w == 1 ? And(memo[a], memo[b]) : Z3_mk_bvand(c, memo[a], memo[b]); case O_OR: return e->w == 1 ? Or(memo[a], memo[b]) : Z3_mk_bvor(c, memo[a], memo[b]);
    case O_XOR: return e->w == 1 ? (ExprCtx::isC(b, 1) ? Z3_mk_not(c, memo[a]) : Z3_mk_xor(c, memo[a], memo[b])) : Z3_mk_bvxor(c, memo[a], memo[b]);
    case O_SHL: return toB(e, Z3_mk_bvshl(c, B(a), B(b))); case O_LSHR: return toB(e, Z3_mk_bvlshr(c, B(a), B(b))); case O_ASHR: return toB(e, Z3_mk_bvashr(c, B(a), B(b)));
    case O_EQ: return Z3_mk_eq(c, memo[a], memo[b]);
    case O_ULT: return Z3_mk_bvult(c, B(a), B(b)); case O_ULE: return Z3_mk_bvule(c, B(a), B(b)); case O_SLT: return Z3_mk_bvslt(c, B(a), B(b)); case O_SLE: return Z3_mk_bvsle(c, B(a), B(b));
    case O_CONCAT: return Z3_mk_concat(c, B(a), B(b)); case O_EXTRACT: return toB(e, Z3_mk_extract(c, e->k + e->w - 1, e->k, B(a)));
    case O_ZEXT: return Z3_mk_zero_ext(c, e->w - a->w, B(a)); case O_SEXT: return Z3_mk_sign_ext(c, e->w - a->w, B(a));
    case O_ITE: return Z3_mk_ite(c, memo[a], memo[b], memo[e->c]);
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: { unsigned w = a->w; Z3_ast x = memo[a], y = memo[b]; u64 expm = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, mag = maskw(w) >> 1;
      auto nan = [&](Z3_ast t) { return Z3_mk_bvugt(c, Z3_mk_bvand(c, t, K(mag, w)), K(expm, w)); }; auto zero = [&](Z3_ast t) { return Z3_mk_eq(c, Z3_mk_bvand(c, t, K(mag, w)), K(0, w)); };
      Z3_ast un = Or(nan(x), nan(y)), bz = And(zero(x), zero(y)); if (e->op == O_FUNO) return un; Z3_ast nun = Z3_mk_not(c, un), eq = Or(bz, Z3_mk_eq(c, x, y)); if (e->op == O_FEQ) return And(nun, eq);
      // total order key: -0 counts as +0, negative values are mirrored
      auto key = [&](Z3_ast t) { auto it = keys.find(t); if (it != keys.end()) return it->second; Z3_ast k = Z3_mk_ite(c, Z3_mk_bvslt(c, t, K(0, w)), Z3_mk_bvsub(c, K(0, w), Z3_mk_bvand(c, t, K(mag, w))), t); return keys[t] = k; };
      return And(nun, e->op == O_FLT ? Z3_mk_bvslt(c, key(x), key(y)) : Z3_mk_bvsle(c, key(x), key(y))); }
    default: { // floating-point operation: a fresh variable, i.e. an over-approximation of its result
      std::string n = "u" + std::to_string(e->id); fpnodes.push_back(e); Z3_ast r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(c) : bv(e->w)); return r; } }
  }
  std::vector<Expr *> fpnodes; std::unordered_map<Z3_ast, Z3_ast> keys;
  // facts about a floating-point result that hold for all operands
  void lemmas(Expr *e, Z3_ast r, std::vector<Z3_ast> &out) {
    if (e->op != O_FADD && e->op != O_FSUB && e->op != O_FMUL) return;
    unsigned w = e->w; u64 expm = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, mag = maskw(w) >> 1;
    auto fin = [&](Z3_ast t) { return Z3_mk_bvult(c, Z3_mk_bvand(c, t, K(mag, w)), K(expm, w)); }; auto nonan = [&](Z3_ast t) { return Z3_mk_bvule(c, Z3_mk_bvand(c, t, K(mag, w)), K(expm, w)); };
    out.push_back(Z3_mk_implies(c, And(fin(memo[e->a]), fin(memo[e->b])), nonan(r)));
  }
  void fpOf(Expr *root, std::set<Expr *> &seen, std::vector<Expr *> &out) { if (!root || !root->hasfp || !seen.insert(root).second) return; fpOf(root->a, seen, out); fpOf(root->b, seen, out); fpOf(root->c, seen, out); if (isFPop(root->op)) out.push_back(root); }
  static bool isFPop(Op o) { return isFPValued(o) || o == O_FPTOSI || o == O_FPTOUI; }
  Z3_ast tr(Expr *root) {
    std::vector<Expr *> st{root};
    while (!st.empty()) { Expr *e = st.back(); if (memo.count(e)) { st.pop_back(); continue; } bool ready = true; for (Expr *y : {e->a, e->b, e->c}) if (y && !memo.count(y)) { st.push_back(y); ready = false; } if (!ready) continue; st.pop_back(); Z3_ast r = mk(e); memo[e] = r; }
    return memo[root];
  }
  // The path condition is asserted once, as it grows; a query adds its own constraints in a scope.
  std::vector<Expr *> asserted;
  SmtResult solve(ExprCtx &X, const std::vector<Expr *> &PC, const std::vector<Expr *> &extra, const std::vector<Expr *> &cs, unsigned rlimit, bool fp = false) {
    init(); SmtResult R; R.by = "z3"; R.r = UNKNOWN;
    bool prefix = asserted.size() <= PC.size(); for (size_t i = 0; prefix && i < asserted.size(); i++) if (asserted[i] != PC[i]) prefix = false;
    if (!s) { s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s); Z3_solver_push(c, s); }
    if (!prefix) { Z3_solver_reset(c, s); Z3_solver_push(c, s); asserted.clear(); }
    if (rl != rlimit) { rl = rlimit; Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), rlimit); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }
    for (size_t i = asserted.size(); i < PC.size(); i++) { Z3_solver_assert(c, s, tr(PC[i])); asserted.push_back(PC[i]); }
    Z3_solver_push(c, s); struct Pop { Z3_context c; Z3_solver s; ~Pop() { Z3_solver_pop(c, s, 1); } } pop_{c, s};
    std::set<uint32_t> vs; for (Expr *e : extra) Z3_solver_assert(c, s, tr(e)); for (Expr *e : cs) for (auto v : X.varsOf(e)) vs.insert(v);
    std::vector<Expr *> fps; if (fp) { std::set<Expr *> seen; for (Expr *e : cs) fpOf(e, seen, fps); std::vector<Z3_ast> ls; for (Expr *e : fps) lemmas(e, tr(e), ls); for (auto l : ls) Z3_solver_assert(c, s, l); }
    static uint64_t ep = 1ull << 50;
    for (int round = 0; round < (fp ? 6 : 1); round++) {
      Z3_lbool r = Z3_solver_check(c, s); if (r == Z3_L_FALSE) { R.r = UNSAT; return R; } if (r != Z3_L_TRUE) return R;
      Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); R.vals.clear();
      for (auto v : vs) { Expr *ve = X.raw(O_VAR, X.vars[v].w, v); Z3_ast o; if (Z3_model_eval(c, m, tr(ve), true, &o)) { uint64_t u = 0; if (Z3_get_numeral_uint64(c, o, &u)) R.vals[v] = u; } }
      Z3_model_dec_ref(c, m); if (!fp) { R.r = SAT; return R; }
      // the abstraction is only trusted after the real floating-point evaluation agrees
      std::vector<u64> mv(X.vars.size(), 0); for (auto &p : R.vals) mv[p.first] = p.second; ++ep; bool ok = true; for (Expr *e : cs) if (!X.evalM(e, mv, ep)) { ok = false; break; }
      if (ok) { R.r = SAT; return R; }
      for (Expr *e : fps) { u64 val = X.evalM(e, mv, ep); std::vector<Z3_ast> pre; for (Expr *y : {e->a, e->b}) if (y && y->op != O_CONST) { u64 yv = X.evalM(y, mv, ep); pre.push_back(y->w == 1 ? (yv ? memo[y] : Z3_mk_not(c, memo[y])) : Z3_mk_eq(c, memo[y], K(yv, y->w))); }
        Z3_ast post = e->w == 1 ? (val ? memo[e] : Z3_mk_not(c, memo[e])) : Z3_mk_eq(c, memo[e], K(val, e->w)); Z3_solver_assert(c, s, pre.empty() ? post : Z3_mk_implies(c, Z3_mk_and(c, pre.size(), pre.data()), post)); }
    }
    R.vals.clear(); return R;
  }
};
struct Proc { pid_t pid; int fd; std::string out; const char *by; };
static inline Proc spawnSolver(const std::vector<std::string> &argv, const char *by) {
  int p[2]; if (pipe2(p, O_CLOEXEC)) return {-1, -1, "", by};
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_adddup2(&fa, p[1], 2);
  std::vector<char *> av; for (auto &s : argv) av.push_back((char *)s.c_str()); av.push_back(nullptr);
  posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t ss; sigemptyset(&ss); posix_spawnattr_setsigmask(&at, &ss); posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK);
  pid_t pid; int rc = posix_spawnp(&pid, av[0], &fa, &at, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa); close(p[1]);
  if (rc) { close(p[0]); return {-1, -1, "", by}; }
  return {pid, p[0], "", by};
}
// Runs solver processes side by side until one answers or the deadline passes.
static inline SmtResult race(std::vector<Proc> ps, double secs, std::string *text = nullptr) {
  SmtResult R; R.r = UNKNOWN; R.by = "none"; double end = nowS() + secs; size_t live = 0; for (auto &p : ps) if (p.pid > 0) live++;
  while (live && R.r == UNKNOWN) {
    double left = end - nowS(); if (left <= 0) break;
    std::vector<pollfd> pf; std::vector<size_t> ix; for (size_t i = 0; i < ps.size(); i++) if (ps[i].fd >= 0) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
    if (poll(pf.data(), pf.size(), (int)(left * 1000) + 1) <= 0) continue;
    for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
      Proc &p = ps[ix[j]]; char buf[65536]; ssize_t n = read(p.fd, buf, sizeof buf);
      if (n > 0) p.out.append(buf, n);
      else { close(p.fd); p.fd = -1; live--; int st; waitpid(p.pid, &st, 0); p.pid = -1; SmtResult r; r.by = p.by; parseAnswer(p.out, r); if (text) *text = p.out; if (r.r != UNKNOWN && R.r == UNKNOWN) R = r; }
    }
  }
  for (auto &p : ps) { if (p.fd >= 0) close(p.fd); if (p.pid > 0) { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } }
  return R;
}
