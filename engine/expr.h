// Hash-consed bit-vector / floating-point expression DAG (widths 1..64) and its concrete
// evaluation.  Floating-point operations work on the IEEE bits of their operands.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FRND,  // FRND: k = 0 floor 1 ceil 2 trunc 3 rne
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI
};
struct Expr {
  Op op; uint8_t w; uint8_t hasfp; u64 k; Expr *a, *b, *c; uint32_t id;
  // evaluation memo
  u64 val; uint64_t epoch;
  std::vector<uint32_t> *vars;  // lazily computed sorted variable set
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline float bf(u64 b) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; }
static inline double bd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline u64 db(double d) { u64 x; memcpy(&x, &d, 8); return x; }

// x86-64 semantics for out-of-range conversions.
static inline u64 fptosi(double d, unsigned w) {
  if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & maskw(w); return (u64)(i64)d & maskw(w); }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
  return (u64)(i64)d;
}
static inline u64 fptoui(double d, unsigned w) {
  if (w < 64) { if (!(d > -9223372036854775809.0 && d < 9223372036854775808.0)) return 0; return (u64)(i64)d & maskw(w); }
  if (d >= 9223372036854775808.0) { if (!(d < 18446744073709551616.0)) return 0; return ((u64)(i64)(d - 9223372036854775808.0)) ^ 0x8000000000000000ull; }
  if (!(d >= -9223372036854775808.0)) return 0x8000000000000000ull;
  return (u64)(i64)d;
}
static inline u64 evalOp(Op op, unsigned w, unsigned wa, u64 k, u64 a, u64 b, u64 c) {
  u64 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
  case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx(a, wa) < sx(b, wa); case O_SLE: return sx(a, wa) <= sx(b, wa);
  case O_CONCAT: return ((a << k) | b) & m;            // k = width of b
  case O_EXTRACT: return (a >> k) & m;                 // k = low bit
  case O_ZEXT: return a; case O_SEXT: return (u64)sx(a, wa) & m;
  case O_ITE: return a ? b : c;
  case O_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
  case O_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
  case O_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
  case O_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
  case O_FSQRT: return w == 32 ? fb(sqrtf(bf(a))) : db(sqrt(bd(a)));
  case O_FRND: { double x = w == 32 ? bf(a) : bd(a); x = k == 0 ? floor(x) : k == 1 ? ceil(x) : k == 2 ? trunc(x) : nearbyint(x); return w == 32 ? fb((float)x) : db(x); }
  case O_FEQ: return wa == 32 ? bf(a) == bf(b) : bd(a) == bd(b);
  case O_FLT: return wa == 32 ? bf(a) < bf(b) : bd(a) < bd(b);
  case O_FLE: return wa == 32 ? bf(a) <= bf(b) : bd(a) <= bd(b);
  case O_FUNO: return wa == 32 ? (std::isnan(bf(a)) || std::isnan(bf(b))) : (std::isnan(bd(a)) || std::isnan(bd(b)));
  case O_FPEXT: return db((double)bf(a)); case O_FPTRUNC: return fb((float)bd(a));
  case O_SITOFP: return w == 32 ? fb((float)sx(a, wa)) : db((double)sx(a, wa));
  case O_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
  case O_FPTOSI: return fptosi(wa == 32 ? (double)bf(a) : bd(a), w);
  case O_FPTOUI: return fptoui(wa == 32 ? (double)bf(a) : bd(a), w);
  default: return 0;
  }
}
static inline bool isFPArith(Op op) { return (op >= O_FADD && op <= O_FRND) || (op >= O_FPEXT && op <= O_FPTOUI); }
static inline bool isFPValued(Op op) { return (op >= O_FADD && op <= O_FRND) || op == O_FPEXT || op == O_FPTRUNC || op == O_SITOFP || op == O_UITOFP; }

struct VarInfo { std::string name; uint8_t w; };
struct ExprKey { Op op; uint8_t w; u64 k; Expr *a, *b, *c;
  bool operator==(const ExprKey &o) const { return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c; } };
struct ExprKeyH { size_t operator()(const ExprKey &x) const {
  u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w; auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(x.k); mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); return h ^ (h >> 29); } };

struct ExprCtx {
  std::unordered_map<ExprKey, Expr *, ExprKeyH> tab;
  std::vector<VarInfo> vars;
  std::vector<u64> model;  // current assignment of the variables
  uint64_t epoch = 1; uint32_t nextId = 0;
  Expr *raw(Op op, unsigned w, u64 k, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    ExprKey key{op, (uint8_t)w, k, a, b, c};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Expr *e = new Expr{op, (uint8_t)w, 0, k, a, b, c, nextId++, 0, 0, nullptr};
    e->hasfp = isFPArith(op) || (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp);
    tab.emplace(key, e); return e;
  }
  Expr *K(u64 v, unsigned w) { return raw(O_CONST, w, v & maskw(w)); }
  Expr *var(const std::string &n, unsigned w, u64 init) {
    vars.push_back({n, (uint8_t)w}); model.push_back(init & maskw(w)); epoch++;
    return raw(O_VAR, w, vars.size() - 1);
  }
  static bool isC(Expr *e) { return e->op == O_CONST; }
  static bool isC(Expr *e, u64 v) { return e->op == O_CONST && e->k == v; }
  Expr *Not(Expr *e) { return bin(O_XOR, e, K(maskw(e->w), e->w)); }
  Expr *And(Expr *a, Expr *b) { return bin(O_AND, a, b); }
  Expr *Or(Expr *a, Expr *b) { return bin(O_OR, a, b); }
  Expr *Eq(Expr *a, Expr *b) { return bin(O_EQ, a, b); }
  Expr *ext(Expr *e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    if (isC(e)) return K(e->k >> lo, w);
    switch (e->op) {
    case O_EXTRACT: return ext(e->a, lo + e->k, w);
    case O_CONCAT: { unsigned wb = e->k; if (lo >= wb) return ext(e->a, lo - wb, w); if (lo + w <= wb) return ext(e->b, lo, w);
      return concat(ext(e->a, 0, lo + w - wb), ext(e->b, lo, wb - lo)); }
    case O_ZEXT: if (lo >= e->a->w) return K(0, w); if (lo + w <= e->a->w) return ext(e->a, lo, w);
      return zext(ext(e->a, lo, e->a->w - lo), w);
    case O_SEXT: if (lo + w <= e->a->w) return ext(e->a, lo, w); break;
    case O_AND: case O_OR: case O_XOR: if (isC(e->b)) return bin(e->op, ext(e->a, lo, w), ext(e->b, lo, w)); break;
    case O_ITE: if (isC(e->b) || isC(e->c)) return ite(e->a, ext(e->b, lo, w), ext(e->c, lo, w)); break;
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0 && (isC(e->a) || isC(e->b) || e->a->op == O_ZEXT || e->a->op == O_SEXT)) return bin(e->op, ext(e->a, 0, w), ext(e->b, 0, w)); break;
    default: break;
    }
    return raw(O_EXTRACT, w, lo, e);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return K((hi->k << lo->w) | lo->k, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return ext(hi->a, lo->k, w);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->k == lo->w && hi->w + lo->w == lo->w) return lo;
    if (lo->op == O_CONCAT) { // (hi . (x . y)) with hi, x adjacent extracts
      Expr *x = lo->a; if (hi->op == O_EXTRACT && x->op == O_EXTRACT && hi->a == x->a && hi->k == x->k + x->w) return concat(ext(hi->a, x->k, hi->w + x->w), lo->b); }
    return raw(O_CONCAT, w, lo->w, hi, lo);
  }
  Expr *zext(Expr *e, unsigned w) {
    if (w == e->w) return e; if (isC(e)) return K(e->k, w);
    if (e->op == O_ZEXT) return zext(e->a, w);
    return raw(O_ZEXT, w, 0, e);
  }
  Expr *sext(Expr *e, unsigned w) {
    if (w == e->w) return e; if (isC(e)) return K((u64)sx(e->k, e->w), w);
    if (e->op == O_ZEXT) return zext(e->a, w);
    if (e->op == O_SEXT) return sext(e->a, w);
    return raw(O_SEXT, w, 0, e);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->k ? a : b; if (a == b) return a;
    if (a->w == 1) { if (isC(a) && isC(b)) return a->k ? c : Not(c);
      if (isC(a)) return a->k ? Or(c, b) : And(Not(c), b);
      if (isC(b)) return b->k ? Or(Not(c), a) : And(c, a); }
    if (c->op == O_XOR && isC(c->b, 1)) return ite(c->a, b, a);
    return raw(O_ITE, a->w, 0, c, a, b);
  }
  Expr *bin(Op op, Expr *a, Expr *b) {
    bool cmp = op >= O_EQ && op <= O_SLE, fcmp = op >= O_FEQ && op <= O_FUNO;
    unsigned w = (cmp || fcmp) ? 1 : a->w;
    if (isC(a) && isC(b)) return K(evalOp(op, w, a->w, 0, a->k, b->k, 0), w);
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ || op == O_FUNO;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u64 m = maskw(a->w);
    if ((op == O_AND || op == O_OR || op == O_XOR) && a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return zext(bin(op, a->a, b->a), w);
    if ((op == O_OR || op == O_XOR) && a->op == O_ZEXT && isC(b) && b->k <= maskw(a->a->w)) return zext(bin(op, a->a, K(b->k, a->a->w)), w);
    switch (op) {
    case O_ADD: if (isC(b, 0)) return a; if (isC(b) && a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, K(a->b->k + b->k, w)); break;
    case O_SUB: if (isC(b, 0)) return a; if (a == b) return K(0, w); if (isC(b)) return bin(O_ADD, a, K(-b->k, w)); break;
    case O_MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; break;
    case O_UDIV: case O_SDIV: if (isC(b, 1)) return a; break;
    case O_AND: if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
      if (w == 1 && ((a->op == O_XOR && isC(a->b, 1) && a->a == b) || (b->op == O_XOR && isC(b->b, 1) && b->a == a))) return K(0, 1);
      if (isC(b) && a->op == O_AND && isC(a->b)) return bin(O_AND, a->a, K(a->b->k & b->k, w));
      if (isC(b) && a->op == O_ZEXT) { u64 mm = maskw(a->a->w); if ((b->k & mm) == mm) return a; return zext(bin(O_AND, a->a, K(b->k & mm, a->a->w)), w); }
      if (isC(b) && (b->k & (b->k + 1)) == 0 && b->k) { unsigned n = 64 - __builtin_clzll(b->k); if (n < w) return zext(ext(a, 0, n), w); }
      break;
    case O_OR: if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a; break;
    case O_XOR: if (isC(b, 0)) return a; if (a == b) return K(0, w);
      if (isC(b) && a->op == O_XOR && isC(a->b)) return bin(O_XOR, a->a, K(a->b->k ^ b->k, w));
      if (w == 1 && isC(b, 1)) { // negate comparisons
        if (a->op == O_ULT) return bin(O_ULE, a->b, a->a); if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
        if (a->op == O_SLT) return bin(O_SLE, a->b, a->a); if (a->op == O_SLE) return bin(O_SLT, a->b, a->a); }
      break;
    case O_SHL: case O_LSHR: case O_ASHR: if (isC(b, 0)) return a;
      if (isC(b) && b->k < w && op == O_LSHR) return zext(ext(a, b->k, w - b->k), w);
      if (isC(b) && b->k < w && op == O_SHL) return concat(ext(a, 0, w - b->k), K(0, b->k));
      if (isC(b) && b->k < w && op == O_ASHR) return sext(ext(a, b->k, w - b->k), w);
      break;
    case O_EQ: if (a == b) return K(1, 1);
      if (a->w == 1 && isC(b)) return b->k ? a : Not(a);
      if (isC(b)) {
        if (a->op == O_ZEXT) { if (b->k >> a->a->w) return K(0, 1); return bin(O_EQ, a->a, K(b->k, a->a->w)); }
        if (a->op == O_SEXT) { u64 lo = b->k & maskw(a->a->w); if (((u64)sx(lo, a->a->w) & m) != b->k) return K(0, 1); return bin(O_EQ, a->a, K(lo, a->a->w)); }
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) { bool x = a->b->k == b->k, y = a->c->k == b->k; return x ? (y ? K(1, 1) : a->a) : (y ? Not(a->a) : K(0, 1)); }
        if (a->op == O_ITE && isC(a->b) && a->b->k != b->k) return And(Not(a->a), bin(O_EQ, a->c, b));
        if (a->op == O_ITE && isC(a->c) && a->c->k != b->k) return And(a->a, bin(O_EQ, a->b, b));
        if (a->op == O_ITE && isC(a->b) && a->b->k == b->k) return Or(a->a, bin(O_EQ, a->c, b));
        if (a->op == O_ADD && isC(a->b)) return bin(O_EQ, a->a, K(b->k - a->b->k, a->w));
        if (a->op == O_XOR && isC(a->b)) return bin(O_EQ, a->a, K(b->k ^ a->b->k, a->w));
        if (a->op == O_CONCAT) return And(bin(O_EQ, a->a, K(b->k >> a->k, a->a->w)), bin(O_EQ, a->b, K(b->k, a->b->w)));
      } else if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
      else if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
      break;
    case O_ULT: if (a == b) return K(0, 1); if (isC(b, 0)) return b->w == 1 ? b : K(0, 1); if (isC(a, m)) return K(0, 1);
      if (isC(b, 1)) return bin(O_EQ, a, K(0, a->w)); 
      if (isC(b) && a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return K(1, 1); return bin(O_ULT, a->a, K(b->k, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->k >= maskw(b->a->w)) return K(0, 1); return bin(O_ULT, K(a->k, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULT, a->a, b->a); break;
    case O_ULE: if (a == b) return K(1, 1); if (isC(a, 0)) return K(1, 1); if (isC(b, m)) return K(1, 1);
      if (isC(b) && a->op == O_ZEXT) { if (b->k >= maskw(a->a->w)) return K(1, 1); return bin(O_ULE, a->a, K(b->k, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->k > maskw(b->a->w)) return K(0, 1); return bin(O_ULE, K(a->k, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULE, a->a, b->a); break;
    case O_SLT: if (a == b) return K(0, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return bin(O_ULT, a, b);
      if (a->op == O_ZEXT && isC(b)) return sx(b->k, b->w) <= 0 ? K(0, 1) : bin(O_ULT, a, b);
      if (b->op == O_ZEXT && isC(a)) return sx(a->k, a->w) < 0 ? K(1, 1) : bin(O_ULT, a, b);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_SLT, a->a, b->a);
      break;
    case O_SLE: if (a == b) return K(1, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return bin(O_ULE, a, b);
      if (a->op == O_ZEXT && isC(b)) return sx(b->k, b->w) < 0 ? K(0, 1) : bin(O_ULE, a, b);
      if (b->op == O_ZEXT && isC(a)) return sx(a->k, a->w) <= 0 ? K(1, 1) : bin(O_ULE, a, b);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_SLE, a->a, b->a);
      break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: // comparisons of exactly widened floats
      if (a->op == O_FPEXT && b->op == O_FPEXT) return bin(op, a->a, b->a);
      if (a->op == O_FPEXT && isC(b) && (double)(float)bd(b->k) == bd(b->k)) return bin(op, a->a, K(fb((float)bd(b->k)), 32));
      if (b->op == O_FPEXT && isC(a) && (double)(float)bd(a->k) == bd(a->k)) return bin(op, K(fb((float)bd(a->k)), 32), b->a);
      if (op == O_FLT && a == b) return K(0, 1);
      break;
    case O_FMUL: { // by one (NaN stays NaN), by a condition
        u64 one = w == 32 ? fb(1.0f) : db(1.0); if (isC(a) && !isC(b)) std::swap(a, b); if (isC(b, one)) return a;
        if (a->op == O_ITE && isC(a->b) && isC(a->c) && b->op != O_ITE) std::swap(a, b);
        if (b->op == O_ITE && ((isC(b->b, one) && isC(b->c, 0)) || (isC(b->b, 0) && isC(b->c, one)))) return ite(b->a, bin(O_FMUL, a, b->b), bin(O_FMUL, a, b->c)); }
      break;
    case O_FDIV: if (isC(b)) { // exact: division by a power of two is multiplication by its inverse
        double d = w == 32 ? (double)bf(b->k) : bd(b->k); int ex; double fr = frexp(d, &ex);
        if (std::isfinite(d) && d != 0 && fabs(fr) == 0.5 && ex > -100 && ex < 100) { double inv = 1.0 / d; return bin(O_FMUL, a, K(w == 32 ? fb((float)inv) : db(inv), w)); } }
      break;
    default: break;
    }
    return raw(op, w, 0, a, b);
  }
  Expr *un(Op op, Expr *a, unsigned w, u64 k = 0) {
    if (isC(a)) return K(evalOp(op, w, a->w, k, a->k, 0, 0), w);
    if (op == O_ZEXT) return zext(a, w); if (op == O_SEXT) return sext(a, w);
    if (op == O_FPTRUNC && a->op == O_FPEXT) return a->a;
    if ((op == O_SITOFP || op == O_UITOFP) && a->op == O_ZEXT && a->a->w == 1) return ite(a->a, K(w == 32 ? fb(1.0f) : db(1.0), w), K(0, w));
    if (op == O_UITOFP && a->w == 1) return ite(a, K(w == 32 ? fb(1.0f) : db(1.0), w), K(0, w));
    return raw(op, w, k, a);
  }
  // ---- evaluation under the current model (or an explicit one)
  u64 eval(Expr *e) { return evalM(e, model, epoch); }
  u64 evalM(Expr *e, const std::vector<u64> &m, uint64_t ep) {
    if (e->op == O_CONST) return e->k;
    if (e->op == O_VAR) return e->k < m.size() ? m[e->k] : 0;
    if (e->epoch == ep) return e->val;
    // iterative for depth safety
    std::vector<Expr *> st{e};
    while (!st.empty()) {
      Expr *x = st.back();
      if (x->epoch == ep || x->op == O_CONST || x->op == O_VAR) { st.pop_back(); continue; }
      bool ready = true;
      for (Expr *y : {x->a, x->b, x->c}) if (y && y->op != O_CONST && y->op != O_VAR && y->epoch != ep) { st.push_back(y); ready = false; }
      if (!ready) continue;
      auto v = [&](Expr *y) -> u64 { if (!y) return 0; if (y->op == O_CONST) return y->k; if (y->op == O_VAR) return y->k < m.size() ? m[y->k] : 0; return y->val; };
      x->val = evalOp(x->op, x->w, x->a ? x->a->w : 0, x->k, v(x->a), v(x->b), v(x->c)); x->epoch = ep; st.pop_back();
    }
    return e->val;
  }
  const std::vector<uint32_t> &varsOf(Expr *e) {
    if (e->vars) return *e->vars;
    std::vector<Expr *> st{e};
    while (!st.empty()) {
      Expr *x = st.back(); if (x->vars) { st.pop_back(); continue; }
      bool ready = true; for (Expr *y : {x->a, x->b, x->c}) if (y && !y->vars) { st.push_back(y); ready = false; }
      if (!ready) continue;
      auto *s = new std::vector<uint32_t>();
      if (x->op == O_VAR) s->push_back((uint32_t)x->k);
      else for (Expr *y : {x->a, x->b, x->c}) if (y && !y->vars->empty()) {
        if (s->empty()) *s = *y->vars; else { std::vector<uint32_t> t; t.reserve(s->size() + y->vars->size());
          size_t i = 0, j = 0; auto &p = *s; auto &q = *y->vars;
          while (i < p.size() || j < q.size()) { if (j >= q.size() || (i < p.size() && p[i] < q[j])) t.push_back(p[i++]); else if (i >= p.size() || q[j] < p[i]) t.push_back(q[j++]); else { t.push_back(p[i]); i++; j++; } }
          s->swap(t); } }
      x->vars = s; st.pop_back();
    }
    return *e->vars;
  }
};
