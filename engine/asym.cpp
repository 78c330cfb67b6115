// asym - a concolic symbolic executor for LLVM IR.
//
// The program under analysis is interpreted on real memory; every value additionally carries a
// symbolic expression over the inputs (registers directly, memory through a byte-wise shadow).
// At every branch whose condition is symbolic the solver is asked whether the other side is
// feasible; if so the process forks and the child continues there with the solver's model.
// All paths within the bounds of the harness are explored; assertions are decided by the solver
// for all values of the inputs on each path.
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <map>
#include <typeinfo>
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "smt.h"
#include "order.h"
#include "real.h"
using namespace llvm;

// ------------------------------------------------------------------ options, shared state
static std::string optBC, optEntry = "sym_main", optOut = "/tmp/asym", optScratch;
static int optJobs = 8; static u64 optMaxInst = 20000000; static double optTimeout = 300, optSolverTimeout = 60; static int optMaxViol = 8, optEnum = 64; static bool optVerbose = false, optDumpQ = false; static bool optCheckOrder = getenv("ASYM_CHECK_ORDER") != nullptr;
static int optKeepPaths = 6;
static int LOGFD = 2;
static FILE *devnull;

struct ViolRec { char kind[24]; char msg[400]; char where[600]; int n; };
struct Shared {
  sem_t tokens; std::atomic<int> stop, nviol, npath, ndump, ninc, livePaths;
  std::atomic<u64> okPaths, infeasible, budget, errors, forks, branches, queries, querySat, queryUnsat, queryUnknown, modelHits, propagated, cacheHits, solverNs, insts, asserts, assertQ, maxSolverNs, nativeCalls, concretized, fpQueries, reachMask, expectedAborts, timeouts, objs, fatals;
  std::atomic<u64> bySolver[8];
  ViolRec viol[64];
  char inc[64][200];
  std::atomic<int> nreach; char reach[64][64]; std::atomic<u64> reachCount[64];
  std::atomic<u64> firstViolNs;
  uint8_t funcSeen[65536];
};
static Shared *SH;
static double T0;
static void logf_(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; if (write(LOGFD, b, n)) {} }

// ------------------------------------------------------------------ values
struct Val { u64 c = 0; Expr *e = nullptr; std::vector<Val> *agg = nullptr; Val() {} Val(u64 c_, Expr *e_ = nullptr) : c(c_), e(e_) {} };
static ExprCtx X;
enum TK : uint8_t { K_VOID, K_INT, K_PTR, K_F32, K_F64, K_AGG, K_LD };
static TK kindOf(Type *T) {
  if (T->isVoidTy()) return K_VOID; if (T->isIntegerTy()) return K_INT; if (T->isPointerTy()) return K_PTR;
  if (T->isFloatTy()) return K_F32; if (T->isDoubleTy()) return K_F64; if (T->isX86_FP80Ty()) return K_LD; return K_AGG;
}
static unsigned widthOf(Type *T) { switch (kindOf(T)) { case K_INT: return T->getIntegerBitWidth(); case K_PTR: case K_F64: return 64; case K_F32: return 32; default: return 0; } }
static Expr *EX(const Val &v, unsigned w) { return v.e ? v.e : X.K(v.c, w); }
static Val mkv(Expr *e) { if (e->op == O_CONST) return Val(e->k); return Val(X.eval(e), e); }

// ------------------------------------------------------------------ path state
static std::vector<Expr *> PC;            // path condition
static bool pathIncomplete = false;
struct InputRec { std::string name; std::vector<uint32_t> vars; unsigned n; };
static std::vector<InputRec> inputs;
static std::string scratch;               // scratch directory of this path
static bool ownToken = true;
static u64 instCount = 0, instTotalFlushed = 0;
static std::vector<u64> observations; static std::vector<std::string> reachLog;
static std::vector<std::string> trail; // short event log for violations

[[noreturn]] static void endPath(const char *status);
static void violation(const char *kind, const std::string &msg, const std::vector<u64> &model);
static std::string whereAmI();
static void noteIncomplete(const std::string &why) {
  pathIncomplete = true;
  int i; int n = SH->ninc.load(); for (i = 0; i < n && i < 64; i++) if (!strncmp(SH->inc[i], why.c_str(), 199)) return;
  i = SH->ninc.fetch_add(1); if (i < 64) { strncpy(SH->inc[i], why.c_str(), 199); if (optVerbose) logf_("[incomplete] %s at %s\n", why.c_str(), whereAmI().c_str()); }
}
[[noreturn]] static void fatal(const std::string &m) { logf_("ASYM-ERROR: %s at %s\n", m.c_str(), whereAmI().c_str()); SH->fatals++; noteIncomplete("engine: " + m); endPath("error"); }

// ------------------------------------------------------------------ solver front end
static std::vector<std::vector<u64>> modelCache;
static bool (*ufFix)(std::vector<u64> &) = nullptr; // replaces values of library functions by the library's own
static std::unordered_map<u64, std::pair<std::vector<Expr *>, SmtResult>> queryCache;
static uint64_t scratchEpoch = 1ull << 40;
static std::vector<Expr *> slicePC(const std::vector<Expr *> &extra) {
  std::set<uint32_t> vs; for (Expr *e : extra) for (auto v : X.varsOf(e)) vs.insert(v);
  std::vector<Expr *> res; std::vector<char> used(PC.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!used[i]) { auto &w = X.varsOf(PC[i]); bool hit = false; for (auto v : w) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (auto v : w) vs.insert(v); } } }
  for (size_t i = 0; i < PC.size(); i++) if (used[i]) res.push_back(PC[i]);
  return res;
}
static Z3Direct Z3D; static Facts FACTS(X);
// Range of a floating-point value that is certainly finite, by interval arithmetic over the path condition.
static bool fpRange(Expr *e, long double &lo, long double &hi) { RealRelax RR(X, FACTS); for (Expr *c : PC) RR.bound(c, true); auto r = RR.rv(e); lo = r.lo; hi = r.hi; return r.ok; }
static SmtResult solveText(const std::vector<Expr *> &extra, const std::vector<Expr *> &cs, bool fp) {
  double t0 = nowS(); SmtResult R;
  SH->queries++;
  if (fp) SH->fpQueries++;
  R = Z3D.solve(X, PC, extra, cs, fp ? 4000000 : 40000000, fp);
  if (R.r == UNKNOWN && fp) { // a few simple assignments, checked by exact evaluation
    std::set<uint32_t> vs; for (Expr *e : cs) for (auto v : X.varsOf(e)) vs.insert(v); static u64 rs = 88172645463325252ull; auto rn = [&](int n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (int)((rs >> 20) % n); };
    RealRelax RB(X, FACTS); for (Expr *e : cs) RB.bound(e, true);
    for (int t = 0; t < 300 && vs.size() <= 64; t++) {
      std::vector<u64> mv = X.model; mv.resize(X.vars.size()); for (auto v : vs) { if (rn(3) == 0) continue; int k = rn(17) - 8; unsigned w = X.vars[v].w; auto b = RB.fb.find(v); if (b != RB.fb.end() && b->second.first > -1e30 && b->second.second < 1e30) { double x = b->second.first + (b->second.second - b->second.first) * rn(1001) / 1000; mv[v] = w == 64 ? db(x) : fb((float)x); continue; } mv[v] = w == 64 ? db(k * (rn(2) ? 1.0 : 0.375)) : (u64)(long)k & maskw(w); }
      if (ufFix) ufFix(mv); uint64_t ep = ++scratchEpoch; bool ok = true; for (Expr *e : cs) if (!X.evalM(e, mv, ep)) { ok = false; break; }
      if (ok) { R.r = SAT; R.by = "z3"; R.vals.clear(); for (auto v : vs) R.vals[v] = mv[v]; break; } } }
  if (R.r == UNKNOWN && fp) { // real relaxation
    RealRelax RR(X, FACTS); std::string rq = RR.query(cs);
    if (RR.ops > 0 && RR.ops <= 80) {
      static int rseq = 0; std::string f = scratch + ".r" + std::to_string(getpid()) + "_" + std::to_string(rseq++) + ".smt2"; FILE *o = fopen(f.c_str(), "w"); if (o) { fwrite(rq.data(), 1, rq.size(), o); fclose(o); }
      std::string txt; SmtResult r = race({spawnSolver({"z3", "-T:3", f}, "real")}, 3.5, &txt);
      if (r.r == UNSAT) R = r;
      else if (txt.compare(0, 3, "sat") == 0) { SmtResult c; c.r = SAT; c.by = "real"; RR.parse(txt, c); std::vector<u64> mv = X.model; mv.resize(X.vars.size()); for (auto &p : c.vals) mv[p.first] = p.second; uint64_t ep = ++scratchEpoch; bool ok = true; for (Expr *e : cs) if (!X.evalM(e, mv, ep)) { ok = false; break; }
        if (ok) { for (Expr *e : cs) for (auto v : X.varsOf(e)) c.vals[v] = mv[v]; R = c; } }
      if (getenv("ASYM_KEEPR")) logf_("real relaxation %s: %s\n", f.c_str(), R.r == UNSAT ? "unsat" : R.r == SAT ? "sat" : "unknown"); else unlink(f.c_str());
    }
  }
  std::string q; if (R.r == UNKNOWN || optDumpQ) { SmtWriter W(X); q = W.query(cs); }
  if (R.r == UNKNOWN) {
    static int seq = 0; std::string f = scratch + ".q" + std::to_string(getpid()) + "_" + std::to_string(seq++) + ".smt2";
    FILE *o = fopen(f.c_str(), "w"); if (o) { fwrite(q.data(), 1, q.size(), o); fclose(o); }
    R = race({spawnSolver({"cvc5", "--fp-exp", f}, "cvc5")}, std::min(5.0, optSolverTimeout));
    if (R.r == UNKNOWN && optSolverTimeout > 5) R = race({spawnSolver({"cvc5", "--fp-exp", f}, "cvc5"), spawnSolver({"z3", f}, "z3"), spawnSolver({"z3-new", f}, "z3-new")}, optSolverTimeout);
    if (R.r == UNKNOWN && optDumpQ) { std::string g = optOut + "/unknown-" + std::to_string(getpid()) + "-" + std::to_string(seq) + ".smt2"; rename(f.c_str(), g.c_str()); }
    else unlink(f.c_str());
  }
  double dt = nowS() - t0; if (getenv("ASYM_QLOG")) { static FILE *lf = fopen((std::string(getenv("ASYM_QLOG")) + std::to_string(getpid())).c_str(), "a"); fprintf(lf, "%d %d %.4f %zu %zu %s\n", (int)fp, (int)R.r, dt, cs.size(), PC.size(), R.by); fflush(lf); }
  u64 ns = (u64)(dt * 1e9); SH->solverNs += ns; u64 m = SH->maxSolverNs; while (ns > m && !SH->maxSolverNs.compare_exchange_weak(m, ns)) {}
  SH->bySolver[!strcmp(R.by, "z3") || !strcmp(R.by, "real") ? 0 : !strcmp(R.by, "cvc5") ? 1 : !strcmp(R.by, "z3-new") ? 2 : 3]++;
  if (R.r == SAT) SH->querySat++; else if (R.r == UNSAT) SH->queryUnsat++; else SH->queryUnknown++;
  if (optDumpQ && dt > 1.0) { static int k = 0; std::string f = optOut + "/slow-" + std::to_string(getpid()) + "-" + std::to_string(k++) + ".smt2"; FILE *o = fopen(f.c_str(), "w"); if (o) { fprintf(o, "; %.2fs %s\n", dt, R.by); fwrite(q.data(), 1, q.size(), o); fclose(o); } }
  return R;
}
// Is PC /\ extra satisfiable?  On SAT, model holds a full assignment.
static Sat checkSat(const std::vector<Expr *> &extra, std::vector<u64> &model) {
  std::vector<Expr *> cs; bool propagated = false;
  for (Expr *e : extra) { if (e->op == O_CONST) { if (!e->k) return UNSAT; continue; }
    Expr *s = FACTS.simp(e, PC);
    if (s->op == O_CONST && optCheckOrder) { std::vector<Expr *> q = PC; q.push_back(s->k ? X.Not(e) : e); Z3Direct z; SmtResult r = z.solve(X, {}, q, q, 400000000, true); if (r.r == SAT) { logf_("ORDER MISMATCH at %s\n", whereAmI().c_str()); noteIncomplete("order closure refuted"); } }
    if (s->op == O_CONST) { if (!s->k) { SH->propagated++; return UNSAT; } propagated = true; } else cs.push_back(s); }
  if (cs.empty() && propagated) SH->propagated++;
  if (cs.empty()) { model = X.model; return SAT; }
  std::vector<Expr *> ex = cs, sl = slicePC(cs);
  cs.insert(cs.end(), sl.begin(), sl.end());
  for (int i = (int)modelCache.size() - 1, n = 0; i >= 0 && n < 24; i--, n++) {
    auto &m = modelCache[i]; uint64_t ep = ++scratchEpoch; bool ok = true;
    for (Expr *c : cs) if (!X.evalM(c, m, ep)) { ok = false; break; }
    if (ok) { SH->modelHits++; model = X.model; std::set<uint32_t> vs; for (Expr *c : cs) for (auto v : X.varsOf(c)) vs.insert(v); for (auto v : vs) model[v] = v < m.size() ? m[v] : 0; return SAT; }
  }
  bool fp = false; for (Expr *c : cs) fp |= c->hasfp;
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  SmtResult R; u64 hk = 1469598103934665603ull; for (Expr *c : cs) { hk ^= c->id; hk *= 1099511628211ull; } auto it = queryCache.find(hk); bool hit = it != queryCache.end() && it->second.first == cs;
  if (hit) { SH->cacheHits++; R = it->second.second; }
  else { R = solveText(ex, cs, fp); queryCache[hk] = {cs, R}; }
  if (R.r == SAT) {
    model = X.model; for (auto &p : R.vals) if (p.first < model.size()) model[p.first] = p.second;
    uint64_t ep = ++scratchEpoch; bool ok = true; for (Expr *c : cs) if (!X.evalM(c, model, ep)) ok = false;
    if (!ok) { // solver model does not evaluate (NaN payloads or an encoding error): never trust it
      if (optVerbose) logf_("[model mismatch] %s\n", whereAmI().c_str());
      noteIncomplete("solver model not confirmed by concrete evaluation"); return UNKNOWN; }
    if (ufFix) { auto g = model; if (!ufFix(g)) { uint64_t e2 = ++scratchEpoch; bool good = true; for (Expr *c : cs) if (!X.evalM(c, g, e2)) good = false; for (Expr *c : PC) if (good && !X.evalM(c, g, e2)) good = false; if (good) model = g; } }
    modelCache.push_back(model); if (modelCache.size() > 64) modelCache.erase(modelCache.begin());
  }
  return R.r;
}

// ------------------------------------------------------------------ memory
static const u64 ARENA = 0x10000000000ull, HEAPSZ = 1ull << 30, STACKSZ = 1ull << 27, ARENASZ = HEAPSZ + STACKSZ, FUNCS = 0x12000000000ull;
static uint32_t *gran; static uint8_t *symf;
enum OKind : uint8_t { OK_HEAP, OK_NEW, OK_NEWARR, OK_STACK, OK_GLOBAL };
struct Obj { u64 base, size; OKind kind; bool alive, hasSym; const char *nm; };
static std::vector<Obj> objs{Obj{}}; static std::vector<uint32_t> freeIds;
static u64 heapTop = ARENA + 64, stackTop = ARENA + HEAPSZ + 64;
struct SB { Expr *e; uint8_t i; };
static std::unordered_map<u64, SB> shadow; static size_t outsideSym = 0;
static bool inNative = false;
static inline bool inArena(u64 a) { return a - ARENA < ARENASZ; }
static uint32_t newObj(u64 base, u64 size, OKind k) {
  uint32_t id; if (!freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); objs[id] = Obj{base, size, k, true, false, nullptr}; } else { id = objs.size(); objs.push_back(Obj{base, size, k, true, false, nullptr}); }
  u64 g = (base - ARENA) >> 4, n = (size + 15) >> 4; if (n == 0) n = 1; for (u64 i = 0; i < n; i++) gran[g + i] = id;
  return id;
}
static void clearSym(u64 a, u64 n) {
  if (inArena(a)) { for (u64 i = 0; i < n;) { u64 off = a - ARENA + i; if (n - i >= 8 && !*(u64 *)(symf + off)) { i += 8; continue; } if (symf[off]) { symf[off] = 0; shadow.erase(a + i); } i++; } }
  else if (outsideSym) for (u64 i = 0; i < n; i++) if (shadow.erase(a + i)) outsideSym--;
}
static u64 heapAlloc(u64 size, OKind k, u64 align = 16) {
  if (size > (64ull << 20)) return 0;
  if (align < 16) align = 16; u64 b = (heapTop + align - 1) & ~(align - 1); if (b + size + 64 > ARENA + HEAPSZ) { if (!inNative) fatal("arena heap exhausted"); return 0; }
  heapTop = ((b + size + 15) & ~15ull) + 16; if (size == 0) heapTop += 16; newObj(b, size, k); memset((void *)b, 0xA5, size); return b;
}
static u64 stackAlloc(u64 size, u64 align) {
  if (align < 16) align = 16; u64 b = (stackTop + align - 1) & ~(align - 1); if (b + size + 64 > ARENA + ARENASZ) { violation("stack-overflow", "stack overflow", X.model); endPath("violation"); }
  stackTop = ((b + size + 15) & ~15ull) + 16; if (size == 0) stackTop += 16; newObj(b, size, OK_STACK); memset((void *)b, 0xA5, size); clearSym(b, size); return b;
}
static void memViolation(const char *kind, u64 a, u64 n, const char *acc) {
  char b[300]; uint32_t id = inArena(a) ? gran[(a - ARENA) >> 4] : 0; if (!id && inArena(a) && a - ARENA >= 16) id = gran[(a - ARENA - 16) >> 4];
  if (id) snprintf(b, sizeof b, "%s: %s of %llu bytes at offset %lld of a %llu-byte %s object", kind, acc, (unsigned long long)n, (long long)(a - objs[id].base), (unsigned long long)objs[id].size, objs[id].kind == OK_STACK ? "stack" : objs[id].kind == OK_GLOBAL ? "global" : "heap");
  else snprintf(b, sizeof b, "%s: %s of %llu bytes at address 0x%llx", kind, acc, (unsigned long long)n, (unsigned long long)a);
  violation("memory", b, X.model); endPath("violation");
}
static inline void checkMem(u64 a, u64 n, const char *acc) {
  if (!inArena(a)) { if (a < 65536) memViolation("null dereference", a, n, acc); return; }
  uint32_t id = gran[(a - ARENA) >> 4]; if (!id) memViolation("out-of-bounds", a, n, acc);
  Obj &o = objs[id]; if (!o.alive) memViolation("use after free", a, n, acc);
  if (a < o.base || a + n > o.base + o.size) memViolation("out-of-bounds", a, n, acc);
}
static void setSymBytes(u64 a, Expr *e, unsigned n) {
  bool ar = inArena(a); if (ar) { uint32_t id = gran[(a - ARENA) >> 4]; if (id) objs[id].hasSym = true; }
  for (unsigned i = 0; i < n; i++) { if (ar) symf[a - ARENA + i] = 1; else if (!shadow.count(a + i)) outsideSym++; shadow[a + i] = SB{e, (uint8_t)i}; }
}
static inline bool anySym(u64 a, u64 n) {
  if (inArena(a)) { u64 off = a - ARENA; u64 i = 0; for (; i + 8 <= n; i += 8) if (*(u64 *)(symf + off + i)) return true; for (; i < n; i++) if (symf[off + i]) return true; return false; }
  if (!outsideSym) return false; for (u64 i = 0; i < n; i++) if (shadow.count(a + i)) return true; return false;
}
static Expr *byteExpr(u64 a) {
  auto it = shadow.find(a); if (it == shadow.end()) return X.K(*(uint8_t *)a, 8);
  Expr *e = it->second.e; unsigned lo = it->second.i * 8; unsigned w = e->w; if (lo >= w) return X.K(0, 8);
  if (lo + 8 > w) return X.zext(X.ext(e, lo, w - lo), 8); return X.ext(e, lo, 8);
}
static Expr *loadExpr(u64 a, unsigned n) { // n bytes
  auto it = shadow.find(a);
  if (it != shadow.end() && it->second.i == 0 && ((it->second.e->w + 7) / 8) == n) { bool ok = true; for (unsigned i = 1; i < n; i++) { auto j = shadow.find(a + i); if (j == shadow.end() || j->second.e != it->second.e || j->second.i != i) { ok = false; break; } } if (ok) { Expr *e = it->second.e; return e->w == n * 8 ? e : X.zext(e, n * 8); } }
  Expr *r = byteExpr(a); for (unsigned i = 1; i < n; i++) r = X.concat(byteExpr(a + i), r); return r;
}
static Val loadInt(u64 a, unsigned bytes, unsigned w) {
  u64 c = 0; memcpy(&c, (void *)a, bytes); c &= maskw(w);
  if (!anySym(a, bytes)) return Val(c);
  Expr *e = loadExpr(a, bytes); if (e->w > w) e = X.ext(e, 0, w); if (e->op == O_CONST) return Val(e->k); return Val(c, e);
}
static void storeInt(u64 a, unsigned bytes, const Val &v, unsigned w) {
  u64 c = v.c; memcpy((void *)a, &c, bytes);
  if (v.e) { clearSym(a, bytes); Expr *e = v.e; if (e->w < bytes * 8) e = X.zext(e, bytes * 8); setSymBytes(a, e, bytes); } else clearSym(a, bytes);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  bool sy = anySym(s, n);
  if (!sy) { memmove((void *)d, (void *)s, n); clearSym(d, n); return; }
  std::vector<std::pair<u64, SB>> tmp; for (u64 i = 0; i < n; i++) { auto it = shadow.find(s + i); if (it != shadow.end()) tmp.push_back({i, it->second}); }
  memmove((void *)d, (void *)s, n); clearSym(d, n);
  bool ar = inArena(d); if (ar) { uint32_t id = gran[(d - ARENA) >> 4]; if (id) objs[id].hasSym = true; }
  for (auto &p : tmp) { if (ar) symf[d - ARENA + p.first] = 1; else if (!shadow.count(d + p.first)) outsideSym++; shadow[d + p.first] = p.second; }
}
static void heapFree(u64 p, int kind, bool native) {
  if (!p) return; if (!inArena(p)) { if (native) { ::free((void *)p); return; } ::free((void *)p); return; }
  uint32_t id = gran[(p - ARENA) >> 4]; if (!id || objs[id].base != p || objs[id].kind == OK_STACK || objs[id].kind == OK_GLOBAL) { if (native) return; memViolation("invalid free", p, 0, "free"); }
  if (!objs[id].alive) { if (native) return; memViolation("double free", p, 0, "free"); }
  if (!native && kind >= 0 && objs[id].kind != kind) { if (!(kind == OK_NEW && objs[id].kind == OK_NEW)) memViolation("mismatched deallocation", p, 0, "free"); }
  objs[id].alive = false; clearSym(p, objs[id].size);
}
void *operator new(size_t n) { if (inNative) { u64 p = heapAlloc(n, OK_NEW); if (!p) throw std::bad_alloc(); return (void *)p; } void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { if (inNative) { u64 p = heapAlloc(n, OK_NEWARR); if (!p) throw std::bad_alloc(); return (void *)p; } void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (inArena((u64)p)) heapFree((u64)p, -1, true); else free(p); }
void operator delete[](void *p) noexcept { if (inArena((u64)p)) heapFree((u64)p, -1, true); else free(p); }
void operator delete(void *p, size_t) noexcept { if (inArena((u64)p)) heapFree((u64)p, -1, true); else free(p); }
void operator delete[](void *p, size_t) noexcept { if (inArena((u64)p)) heapFree((u64)p, -1, true); else free(p); }

// ------------------------------------------------------------------ decoded program
struct Opnd { int slot = -1; Val c; };
struct FuncInfo;
struct CallTarget;
struct DInst {
  unsigned op; unsigned w = 0, w2 = 0; TK tk = K_VOID; int dst = -1; unsigned bytes = 0, pred = 0; u64 off = 0; Instruction *I = nullptr;
  std::vector<Opnd> ops; std::vector<std::array<u64, 3>> gep; // (operand index, scale, index width)
  int succ[2] = {-1, -1}; std::vector<std::pair<u64, int>> cases; CallTarget *ct = nullptr; FunctionType *fty = nullptr;
};
struct DPhi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct DBlock { std::vector<DPhi> phis; std::vector<DInst> ins; };
struct FuncInfo { Function *F = nullptr; bool decoded = false; int nslots = 0; std::vector<DBlock> blocks; std::vector<int> argSlots; unsigned idx = 0; };
struct CallCtx; enum Act { A_RET, A_CALL, A_UNWIND };
typedef Act (*Handler)(CallCtx &);
struct CallTarget { enum { INTERP, HANDLER, NATIVE, INTRINSIC, UNRES } kind = UNRES; FuncInfo *fi = nullptr; Handler h = nullptr; u64 addr = 0; Function *F = nullptr; std::string name; FuncInfo *rt = nullptr; bool outOnly = false, pure = false; unsigned iid = 0; };
struct CallCtx { std::vector<Val> &args; Val ret; DInst *di; CallTarget *ct; FuncInfo *callF = nullptr; std::vector<Val> callArgs; };

static LLVMContext LC; static std::unique_ptr<Module> MOD; static const DataLayout *DL;
static std::unordered_map<Function *, FuncInfo *> FI; static std::unordered_map<Function *, CallTarget *> CT;
static std::unordered_map<u64, Function *> funcByAddr; static std::unordered_map<Function *, u64> addrOfFunc; static u64 nextFunc = FUNCS + 16;
static std::unordered_map<GlobalVariable *, u64> addrOfGV; static std::unordered_map<std::string, Handler> handlers;
static u64 errnoAddr;

struct Frame { FuncInfo *f; Val *regs; int bb = 0, pc = 0; u64 stackMark; size_t nobj; std::vector<uint32_t> sobjs; std::vector<Val> varargs; DInst *callInst = nullptr; int retDepth = 0; };
static std::vector<Frame> ST;

static std::string demangle(const std::string &n) { int s; char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &s); if (!d) return n; std::string r = d; free(d); return r; }
static std::string whereAmI() {
  std::string r; int k = 0;
  for (int i = (int)ST.size() - 1; i >= 0 && k < 14; i--) {
    Frame &f = ST[i]; if (!f.f || !f.f->F) continue; std::string n = demangle(f.f->F->getName().str()); if (n.rfind("std::", 0) == 0 || n.find(" std::") != std::string::npos || n.rfind("__gnu", 0) == 0) { if (k > 2) continue; }
    if (n.size() > 80) n = n.substr(0, 80); std::string loc;
    if (f.bb < (int)f.f->blocks.size()) { auto &b = f.f->blocks[f.bb]; int pc = f.pc; if (pc >= (int)b.ins.size()) pc = b.ins.size() - 1; for (int d = 0; d < 2; d++) if (pc - d >= 0 && b.ins.size() && b.ins[pc - d].I) { if (auto &L = b.ins[pc - d].I->getDebugLoc()) { auto *s = L->getScope(); loc = std::string(s->getFilename()) + ":" + std::to_string(L.getLine()); auto p = loc.rfind('/'); if (p != std::string::npos) loc = loc.substr(p + 1); break; } } }
    if (!r.empty()) r += " < "; r += n + (loc.empty() ? "" : "@" + loc); k++;
  }
  return r;
}

static CallTarget *targetOf(Function *F);
static u64 funcAddr(Function *F) {
  auto it = addrOfFunc.find(F); if (it != addrOfFunc.end()) return it->second;
  CallTarget *t = targetOf(F); u64 a;
  if (t->kind == CallTarget::NATIVE && !t->rt) a = t->addr; else { a = nextFunc; nextFunc += 16; }
  addrOfFunc[F] = a; funcByAddr[a] = F; return a;
}
static u64 gvAddr(GlobalVariable *G);
static Val zeroVal(Type *T) {
  if (kindOf(T) != K_AGG) return Val(0); Val v; v.agg = new std::vector<Val>();
  if (auto *S = dyn_cast<StructType>(T)) for (unsigned i = 0; i < S->getNumElements(); i++) v.agg->push_back(zeroVal(S->getElementType(i)));
  else if (auto *A = dyn_cast<ArrayType>(T)) for (u64 i = 0; i < A->getNumElements(); i++) v.agg->push_back(zeroVal(A->getElementType()));
  else if (auto *V = dyn_cast<FixedVectorType>(T)) for (unsigned i = 0; i < V->getNumElements(); i++) v.agg->push_back(zeroVal(V->getElementType()));
  return v;
}
static Val constVal(Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) { Val v(I->getValue().getLoBits(64).getZExtValue()); return v; } return Val(I->getZExtValue()); }
  if (auto *F = dyn_cast<ConstantFP>(C)) { if (F->getType()->isX86_FP80Ty()) { bool li; APFloat v = F->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val(v.bitcastToAPInt().getZExtValue()); } return Val(F->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return Val(0);
  if (isa<UndefValue>(C)) { if (kindOf(C->getType()) == K_AGG) return zeroVal(C->getType()); unsigned w = widthOf(C->getType()); return Val(0xA5A5A5A5A5A5A5A5ull & maskw(w ? w : 64)); }
  if (isa<ConstantAggregateZero>(C)) return zeroVal(C->getType());
  if (auto *F = dyn_cast<Function>(C)) return Val(funcAddr(F));
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) return Val(gvAddr(G));
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    auto op = [&](unsigned i) { return constVal(cast<Constant>(E->getOperand(i))); };
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *G = cast<GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, off)) break; return Val(op(0).c + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = op(0); v.c &= maskw(widthOf(E->getType())); return v; }
    case Instruction::Sub: return Val((op(0).c - op(1).c) & maskw(widthOf(E->getType())));
    case Instruction::Add: return Val((op(0).c + op(1).c) & maskw(widthOf(E->getType())));
    case Instruction::Trunc: return Val(op(0).c & maskw(widthOf(E->getType())));
    default: break;
    }
    std::string s; raw_string_ostream o(s); E->print(o); logf_("unsupported constexpr %s\n", s.c_str()); return Val(0);
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < D->getNumElements(); i++) v.agg->push_back(constVal(D->getElementAsConstant(i))); return v; }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < A->getNumOperands(); i++) v.agg->push_back(constVal(A->getOperand(i))); return v; }
  if (auto *D = dyn_cast<DSOLocalEquivalent>(C)) return constVal(D->getGlobalValue());
  logf_("unsupported constant\n"); return Val(0);
}
static void initMem(u64 a, Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { memset((void *)a, 0, DL->getTypeAllocSize(T)); return; }
  if (isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { unsigned es = D->getElementByteSize(); for (unsigned i = 0; i < D->getNumElements(); i++) { u64 v = constVal(D->getElementAsConstant(i)).c; memcpy((void *)(a + i * es), &v, es); } return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initMem(a + L->getElementOffset(i), S->getOperand(i)); return; }
  if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initMem(a + i * es, A->getOperand(i)); return; }
  u64 v = constVal(C).c; memcpy((void *)a, &v, std::min<u64>(8, DL->getTypeStoreSize(T)));
}
static u64 gvAddr(GlobalVariable *G) {
  auto it = addrOfGV.find(G); if (it != addrOfGV.end()) return it->second;
  std::string n = G->getName().str(); u64 a = 0;
  if (G->isDeclaration() || G->hasAvailableExternallyLinkage()) { a = (u64)dlsym(RTLD_DEFAULT, n.c_str()); if (!a && n == "__dso_handle") a = ARENA; if (!a && G->isDeclaration()) { logf_("ASYM: unresolved global %s\n", n.c_str()); a = 8; } }
  if (!a) { u64 sz = DL->getTypeAllocSize(G->getValueType()); u64 al = G->getAlign().valueOrOne().value(); if (al < 16) al = 16; u64 b = (heapTop + al - 1) & ~(al - 1); heapTop = ((b + sz + 15) & ~15ull) + 32; newObj(b, sz, OK_GLOBAL); a = b; }
  addrOfGV[G] = a; return a;
}

// ------------------------------------------------------------------ decoding
static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool preferNative(const std::string &n) {
  static const char *P[] = {"_ZNSo", "_ZNSi", "_ZNSd", "_ZNKSo", "_ZNKSi", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_fstream", "_ZNKSt14basic_", "_ZNSt13basic_filebuf", "_ZNKSt13basic_filebuf",
    "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_istringstream", "_ZNKSt7__cxx1119basic_istringstream",
    "_ZNSt6locale", "_ZNKSt6locale", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZSt7getline", "_ZStlsISt11char_traits", "_ZStrs", "_ZSt9use_facet", "_ZSt9has_facet", "_ZNKSt5ctype", "_ZNSt5ctype", "_ZSt13__check_facet"};
  for (auto p : P) if (startsWith(n, p)) return true; return false;
}
static FuncInfo *infoOf(Function *F) { auto it = FI.find(F); if (it != FI.end()) return it->second; auto *fi = new FuncInfo; fi->F = F; fi->idx = FI.size(); FI[F] = fi; return fi; }
static std::set<std::string> rtAlways;
static CallTarget *targetOf(Function *F) {
  auto it = CT.find(F); if (it != CT.end()) return it->second;
  auto *t = new CallTarget; CT[F] = t; t->F = F; t->name = F->getName().str();
  if (F->isIntrinsic()) { t->kind = CallTarget::INTRINSIC; t->iid = F->getIntrinsicID(); return t; }
  auto h = handlers.find(t->name); if (h != handlers.end()) { t->kind = CallTarget::HANDLER; t->h = h->second; Function *R = MOD->getFunction("rt_" + t->name); if (R && !R->isDeclaration()) t->rt = infoOf(R); return t; }
  bool hasBody = !F->isDeclaration();
  Function *R = MOD->getFunction("rt_" + t->name); if (R && !R->isDeclaration()) t->rt = infoOf(R);
  if (t->rt && rtAlways.count(t->name)) { t->kind = CallTarget::INTERP; t->fi = t->rt; return t; }
  if (hasBody && !(preferNative(t->name) && F->hasAvailableExternallyLinkage())) {
    if (preferNative(t->name) && dlsym(RTLD_DEFAULT, t->name.c_str())) { t->kind = CallTarget::NATIVE; t->addr = (u64)dlsym(RTLD_DEFAULT, t->name.c_str()); return t; }
    t->kind = CallTarget::INTERP; t->fi = infoOf(F); return t; }
  t->addr = (u64)dlsym(RTLD_DEFAULT, t->name.c_str());
  if (t->addr) { t->kind = CallTarget::NATIVE; return t; }
  if (hasBody) { t->kind = CallTarget::INTERP; t->fi = infoOf(F); return t; }
  t->kind = CallTarget::UNRES; return t;
}
static void decode(FuncInfo *fi) {
  Function &F = *fi->F; fi->decoded = true; DenseMap<Value *, int> slot; DenseMap<BasicBlock *, int> bbi; int ns = 0;
  for (auto &A : F.args()) { slot[&A] = ns; fi->argSlots.push_back(ns++); }
  for (auto &B : F) { int k = bbi.size(); bbi[&B] = k; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = ns++; }
  fi->nslots = ns; fi->blocks.resize(bbi.size());
  auto opnd = [&](Value *V) { Opnd o; if (auto *C = dyn_cast<Constant>(V)) o.c = constVal(C); else if (slot.count(V)) o.slot = slot[V]; return o; };
  for (auto &B : F) {
    DBlock &db = fi->blocks[bbi[&B]];
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) { DPhi d; d.dst = slot[P]; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) d.in.push_back({bbi[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))}); db.phis.push_back(std::move(d)); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
      DInst d; d.op = I.getOpcode(); d.I = &I; d.tk = kindOf(I.getType()); d.w = widthOf(I.getType()); if (!I.getType()->isVoidTy()) d.dst = slot[&I];
      if (auto *C = dyn_cast<CallBase>(&I)) {
        for (auto &a : C->args()) { if (isa<MetadataAsValue>(a.get())) d.ops.push_back(Opnd()); else d.ops.push_back(opnd(a.get())); }
        d.fty = C->getFunctionType(); Value *cv = C->getCalledOperand()->stripPointerCasts();
        if (auto *A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
        if (auto *G = dyn_cast<Function>(cv)) d.ct = targetOf(G); else d.ops.push_back(opnd(C->getCalledOperand()));
        if (auto *V = dyn_cast<InvokeInst>(&I)) { d.succ[0] = bbi[V->getNormalDest()]; d.succ[1] = bbi[V->getUnwindDest()]; }
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) { d.ops.push_back(opnd(Br->getCondition())); d.succ[0] = bbi[Br->getSuccessor(0)]; d.succ[1] = bbi[Br->getSuccessor(1)]; } else d.succ[0] = bbi[Br->getSuccessor(0)];
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(opnd(Sw->getCondition())); d.w = widthOf(Sw->getCondition()->getType()); d.succ[0] = bbi[Sw->getDefaultDest()];
        for (auto &c : Sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opnd(G->getPointerOperand())); u64 off = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *S = gi.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc; else { d.gep.push_back({d.ops.size(), sc, widthOf(ix->getType())}); d.ops.push_back(opnd(ix)); } }
        }
        d.off = off;
      } else {
        for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) d.ops.push_back(Opnd()); else d.ops.push_back(opnd(o.get())); }
        if (auto *L = dyn_cast<LoadInst>(&I)) d.bytes = DL->getTypeStoreSize(L->getType());
        if (auto *S = dyn_cast<StoreInst>(&I)) { Type *T = S->getValueOperand()->getType(); d.bytes = DL->getTypeStoreSize(T); d.tk = kindOf(T); d.w = widthOf(T); }
        if (auto *C = dyn_cast<CmpInst>(&I)) { d.pred = C->getPredicate(); d.w = widthOf(C->getOperand(0)->getType()); d.w2 = kindOf(C->getOperand(0)->getType()); }
        if (isa<CastInst>(&I)) { d.w2 = widthOf(I.getOperand(0)->getType()); }
        if (auto *A = dyn_cast<AllocaInst>(&I)) { d.bytes = DL->getTypeAllocSize(A->getAllocatedType()); d.off = A->getAlign().value(); }
      }
      db.ins.push_back(std::move(d));
    }
  }
}

// ------------------------------------------------------------------ forking
static void copyTree(const std::string &a, const std::string &b) {
  mkdir(b.c_str(), 0700); DIR *d = opendir(a.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string x = a + "/" + e->d_name, y = b + "/" + e->d_name; struct stat s; if (lstat(x.c_str(), &s)) continue;
    if (S_ISDIR(s.st_mode)) copyTree(x, y); else { int i = open(x.c_str(), O_RDONLY | O_CLOEXEC), o = open(y.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, s.st_mode & 0777); char buf[8192]; ssize_t n; while ((n = read(i, buf, sizeof buf)) > 0) if (write(o, buf, n)) {} close(i); close(o); } }
  closedir(d);
}
static void rmTree(const std::string &a) {
  DIR *d = opendir(a.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string x = a + "/" + e->d_name; struct stat s; if (!lstat(x.c_str(), &s)) { if (S_ISDIR(s.st_mode)) rmTree(x); else unlink(x.c_str()); } }
  closedir(d); rmdir(a.c_str());
}
static void flushStats() { SH->insts += instCount - instTotalFlushed; instTotalFlushed = instCount; }
static bool scratchUsed = false;
// Returns true in the child.
static bool forkPath() {
  if (SH->stop) { endPath("stopped"); }
  SH->forks++;
  bool tok = sem_trywait(&SH->tokens) == 0;
  SH->livePaths++;
  // The child's copy of the scratch directory is made before either side goes on.
  static int seq = 0; std::string ns = optScratch + "/p" + std::to_string(getpid()) + "_" + std::to_string(seq++);
  // Open files of the scratch directory: their offsets are shared after a fork, so they are read before it.
  struct OF { int fd, fl; off_t off; std::string path; }; std::vector<OF> ofs;
  if (scratchUsed) {
    copyTree(scratch, ns); DIR *d = opendir("/proc/self/fd");
    if (d) { while (dirent *e = readdir(d)) { int fd = atoi(e->d_name); char l[1024]; ssize_t n = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), l, 1023); if (n > 0) { l[n] = 0; if (!strncmp(l, scratch.c_str(), scratch.size()) && l[scratch.size()] == '/') ofs.push_back({fd, fcntl(fd, F_GETFL), lseek(fd, 0, SEEK_CUR), ns + (l + scratch.size())}); } } closedir(d); }
  }
  pid_t p = fork();
  if (p < 0) { SH->livePaths--; if (tok) sem_post(&SH->tokens); noteIncomplete("fork failed"); return false; }
  if (p == 0) {
    ownToken = tok; scratch = ns; instCount = instCount; instTotalFlushed = instCount;
    if (!scratchUsed) mkdir(ns.c_str(), 0700);
    else for (auto &f : ofs) { int n = open(f.path.c_str(), (f.fl & (O_ACCMODE | O_APPEND)) | O_CLOEXEC); if (n >= 0) { if (f.off >= 0) lseek(n, f.off, SEEK_SET); dup2(n, f.fd); close(n); } }
    if (chdir(ns.c_str())) {}
    return true;
  }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { SH->livePaths--; noteIncomplete("path process killed by signal " + std::to_string(WTERMSIG(st))); } if (SH->stop) endPath("stopped"); }
  return false;
}
static void reconcretize() {
  X.epoch++;
  for (auto &f : ST) for (int i = 0; i < f.f->nslots; i++) { Val &v = f.regs[i]; if (v.e) v.c = X.eval(v.e); if (v.agg) for (auto &x : *v.agg) if (x.e) x.c = X.eval(x.e); }
  for (auto &f : ST) for (auto &v : f.varargs) if (v.e) v.c = X.eval(v.e);
  for (auto &p : shadow) { u64 v = X.eval(p.second.e); *(uint8_t *)p.first = (uint8_t)(p.second.i * 8 < 64 ? v >> (p.second.i * 8) : 0); }
}
static void setModel(const std::vector<u64> &m) { X.model = m; modelCache.push_back(m); if (modelCache.size() > 64) modelCache.erase(modelCache.begin()); reconcretize(); }
// Decide a symbolic condition: explores both sides if feasible, returns the side of this path.
static bool decide(Expr *cond) {
  if (cond->op == O_CONST) return cond->k;
  bool cur = X.eval(cond); Expr *other = cur ? X.Not(cond) : cond; std::vector<u64> m;
  SH->branches++;
  Sat r = checkSat({other}, m);
  if (r == UNKNOWN) noteIncomplete("solver gave no answer for a branch");
  if (r == SAT) {
    if (forkPath()) { PC.push_back(other); setModel(m); return !cur; }
  }
  if (r != UNSAT) PC.push_back(cur ? cond : X.Not(cond));
  return cur;
}
// e has the value c on this path: registers and memory that hold e become concrete.
static void nowConst(Expr *e, u64 c) {
  PC.push_back(X.Eq(e, X.K(c, e->w)));
  for (auto &f : ST) { for (int i = 0; i < f.f->nslots; i++) { Val &v = f.regs[i]; if (v.e == e) { v.e = nullptr; v.c = c; } } for (auto &v : f.varargs) if (v.e == e) { v.e = nullptr; v.c = c; } }
  std::vector<u64> as; for (auto &p : shadow) if (p.second.e == e) { as.push_back(p.first); *(uint8_t *)p.first = (uint8_t)(p.second.i * 8 < 64 ? c >> (p.second.i * 8) : 0); }
  for (u64 a : as) clearSym(a, 1);
}
// Make the value of e concrete by enumerating its feasible values over forked paths.
static u64 enumerate(Expr *e, const char *why) {
  int n = 0;
  while (true) {
    u64 c = X.eval(e); Expr *eq = X.Eq(e, X.K(c, e->w)); if (eq->op == O_CONST) return c;
    std::vector<u64> m; Sat r = checkSat({X.Not(eq)}, m); SH->branches++;
    if (r == UNSAT) { nowConst(e, c); return c; } // implied, but lets later terms be simplified
    if (r == UNKNOWN || ++n > optEnum) { noteIncomplete(std::string("value not enumerated completely: ") + why); nowConst(e, c); return c; }
    if (forkPath()) { PC.push_back(X.Not(eq)); setModel(m); continue; }
    nowConst(e, c); return c;
  }
}
static u64 concretizeVal(Val &v, const char *why) { if (!v.e) return v.c; u64 c = enumerate(v.e, why); v.c = c; v.e = nullptr; return c; }
static void pinTo(Expr *e) { u64 c = X.eval(e); Expr *eq = X.Eq(e, X.K(c, e->w)); if (eq->op != O_CONST) PC.push_back(eq); }

// ------------------------------------------------------------------ results
static void dumpInputs(FILE *o, const std::vector<u64> &m) {
  for (auto &in : inputs) { fprintf(o, "%s %u ", in.name.c_str(), in.n); for (unsigned i = 0; i < in.n; i++) { u64 v; if (in.vars.size() == 1) v = (in.vars[0] < m.size() ? m[in.vars[0]] : 0) >> (8 * i); else v = in.vars[i] < m.size() ? m[in.vars[i]] : 0; fprintf(o, "%02x", (unsigned)(v & 255)); } fprintf(o, "\n"); }
}
static void violation(const char *kind, const std::string &msg, const std::vector<u64> &model) {
  std::string w = whereAmI();
  // one record per (kind,msg) up to 3
  int same = 0, n = SH->nviol.load(); for (int i = 0; i < n && i < 64; i++) if (!strncmp(SH->viol[i].msg, msg.c_str(), 399) && !strncmp(SH->viol[i].kind, kind, 23)) same++;
  if (same >= 3) return;
  int i = SH->nviol.fetch_add(1); if (i >= 64) return;
  u64 z = 0; SH->firstViolNs.compare_exchange_strong(z, (u64)(nowS() * 1e9));
  ViolRec &v = SH->viol[i]; strncpy(v.kind, kind, 23); strncpy(v.msg, msg.c_str(), 399); strncpy(v.where, w.c_str(), 599); v.n = i;
  FILE *o = fopen((optOut + "/viol-" + std::to_string(i) + ".inputs").c_str(), "w"); if (o) { dumpInputs(o, model); fclose(o); }
  if (optVerbose) logf_("[violation %d] %s: %s\n   at %s\n", i, kind, msg.c_str(), w.c_str());
  if (i + 1 >= optMaxViol) SH->stop = 1;
}
static bool endHookRunning = false;
static void finishObs();
static void endPath(const char *status) {
  flushStats();
  if (!strcmp(status, "ok")) { finishObs(); SH->okPaths++; int k = SH->ndump.load(); bool genuine = true; if (ufFix) { auto g = X.model; genuine = ufFix(g); } if (k < optKeepPaths && !pathIncomplete && genuine) { k = SH->ndump.fetch_add(1); if (k < optKeepPaths) { FILE *o = fopen((optOut + "/path-" + std::to_string(k) + ".inputs").c_str(), "w"); if (o) { dumpInputs(o, X.model); fclose(o); } o = fopen((optOut + "/path-" + std::to_string(k) + ".obs").c_str(), "w"); if (o) { for (auto &s : reachLog) fprintf(o, "%s\n", s.c_str()); fclose(o); } } } }
  else if (!strcmp(status, "infeasible")) SH->infeasible++; else if (!strcmp(status, "budget")) SH->budget++; else if (!strcmp(status, "error")) SH->errors++; else if (!strcmp(status, "stopped")) SH->timeouts++;
  SH->npath++; if (!scratch.empty()) rmTree(scratch); SH->livePaths--;
  if (ownToken) sem_post(&SH->tokens);
  _exit(0);
}

// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj, tinfo, dtor; int handlers; bool native; };
static std::unordered_map<u64, Exc> excs; static std::vector<std::pair<u64, u64>> caught; // (obj, adjusted)
static std::unordered_map<u64, u64> adjusted; static u64 curExc = 0; static std::map<u64, int> typeIds;
static int typeIdOf(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; typeIds[ti] = k; return k; }
static bool catches(u64 catchTi, u64 excTi, u64 obj, u64 &adj) {
  adj = obj; if (!catchTi) return true; void *p = (void *)obj;
  const std::type_info *c = (const std::type_info *)catchTi, *t = (const std::type_info *)excTi; if (t->__is_pointer_p()) p = *(void **)obj;
  bool r = c->__do_catch(t, &p, 1); if (r) adj = t->__is_pointer_p() ? obj : (u64)p; return r;
}
static Val getv(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.regs[o.slot] : o.c; }
static void popFrame();
static u64 onAbortFn = 0; static void runNested(FuncInfo *fi, const std::vector<Val> &args);
static void abnormal(const std::string &what) {
  if (onAbortFn && !endHookRunning) { endHookRunning = true; auto it = funcByAddr.find(onAbortFn); if (it != funcByAddr.end()) { trail.push_back(what); runNested(targetOf(it->second)->fi, {}); SH->expectedAborts++; endPath("ok"); } }
  violation("abort", what, X.model); endPath("violation");
}
static std::string excWhat(u64 obj, u64 ti) {
  std::string s = demangle(((const std::type_info *)ti)->name()); void *p = (void *)obj;
  if (typeid(std::exception).__do_catch((const std::type_info *)ti, &p, 1)) s += std::string(": ") + ((std::exception *)p)->what(); return s;
}
// Unwind to the next landing pad; ST.back() is the frame whose current call raised.
static void unwind(u64 obj, int minDepth) {
  Exc &ex = excs[obj];
  // phase 1: is there a handler at all?
  bool found = false;
  for (int i = (int)ST.size() - 1; i >= 0 && !found; i--) {
    Frame &f = ST[i]; DInst *d = f.callInst; if (!d || d->op != Instruction::Invoke) continue;
    auto *LP = cast<InvokeInst>(d->I)->getLandingPadInst(); for (unsigned k = 0; k < LP->getNumClauses(); k++) if (LP->isCatch(k)) { u64 adj; if (catches(constVal(LP->getClause(k)).c, ex.tinfo, obj, adj)) { found = true; break; } }
  }
  if (!found) abnormal("uncaught exception " + excWhat(obj, ex.tinfo));
  while (!ST.empty()) {
    Frame &f = ST.back(); DInst *d = f.callInst;
    if (d && d->op == Instruction::Invoke) {
      auto *LP = cast<InvokeInst>(d->I)->getLandingPadInst(); bool go = false; int sel = 0; u64 adj = obj;
      for (unsigned k = 0; k < LP->getNumClauses() && !go; k++) if (LP->isCatch(k)) { u64 ct = constVal(LP->getClause(k)).c; if (catches(ct, ex.tinfo, obj, adj)) { go = true; sel = typeIdOf(ct); } }
      if (!go && LP->isCleanup()) { go = true; sel = 0; }
      if (go) { adjusted[obj] = adj; int ub = d->succ[1]; int from = f.bb; f.callInst = nullptr;
        auto &B = f.f->blocks[ub]; std::vector<Val> tmp; for (auto &p : B.phis) for (auto &in : p.in) if (in.first == from) { tmp.push_back(getv(f, in.second)); break; } for (size_t i = 0; i < B.phis.size(); i++) f.regs[B.phis[i].dst] = tmp[i];
        f.bb = ub; f.pc = 0;
        while (B.ins[f.pc].op != Instruction::LandingPad) f.pc++;
        DInst &lp = B.ins[f.pc]; Val v; v.agg = new std::vector<Val>{Val(obj), Val((u64)sel)}; f.regs[lp.dst] = v; f.pc++; return; }
    }
    if ((int)ST.size() <= minDepth) abnormal("exception escaped a nested engine call");
    popFrame();
  }
}

// ------------------------------------------------------------------ native calls
struct R2 { u64 a, b; }; struct D2 { double a, b; };
static jmp_buf segvJmp; static volatile int segvArmed = 0; static volatile u64 segvAddr = 0;
static void onSegv(int sig, siginfo_t *si, void *) {
  if (segvArmed) { segvAddr = (u64)si->si_addr; segvArmed = 0; sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0); longjmp(segvJmp, sig); }
  logf_("ASYM-ERROR: signal %d in engine at %p; %s\n", sig, si->si_addr, "engine crash"); if (SH) { SH->errors++; SH->fatals++; SH->livePaths--; if (ownToken) sem_post(&SH->tokens); } _exit(3);
}
// lim: bytes the callee may reach through p (dereferenceable attribute of the parameter); 0 = the whole object
static bool symReachable(u64 p, int depth, u64 lim = 0) {
  if (!inArena(p)) return false; uint32_t id = gran[(p - ARENA) >> 4]; if (!id || !objs[id].alive) return false; Obj &o = objs[id];
  u64 lo = lim ? p : o.base, hi = lim ? std::min<u64>(p + lim, o.base + o.size) : o.base + o.size; if (lo >= hi) return false;
  if (o.hasSym && anySym(lo, hi - lo)) return true;
  if (depth > 0) for (u64 a = lo; a + 8 <= hi && a < lo + 128; a += 8) { u64 q = *(u64 *)a; if (inArena(q) && !(lim && q >= lo && q < hi) && !(lim && q >= o.base && q < o.base + o.size && (q < lo || q >= hi)) && symReachable(q, 0)) return true; } return false;
}
static void pinSymReachable(u64 p, int depth, u64 lim = 0) {
  if (!inArena(p)) return; uint32_t id = gran[(p - ARENA) >> 4]; if (!id || !objs[id].alive) return; Obj o = objs[id];
  u64 lo = lim ? p : o.base, hi = lim ? std::min<u64>(p + lim, o.base + o.size) : o.base + o.size; if (lo >= hi) return;
  if (o.hasSym) for (u64 a = lo; a < hi; a++) if (symf[a - ARENA]) { Expr *b = byteExpr(a); pinTo(b); clearSym(a, 1); }
  if (depth > 0) for (u64 a = lo; a + 8 <= hi && a < lo + 128; a += 8) { u64 q = *(u64 *)a; if (inArena(q) && !(lim && q >= o.base && q < o.base + o.size)) pinSymReachable(q, 0); }
}
static bool nativeSafe(const std::string &n) { // reads no program data through its pointers, or output only
  static const char *P[] = {"_ZSt18_Rb_tree", "_ZSt28_Rb_tree", "_ZSt29_Rb_tree", "_ZNKSt8__detail20_Prime_rehash", "_ZNSt8__detail15_List_node_base", "_ZSt9terminate", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "puts", "printf", "putchar", "fflush", "_ZNSt6locale", "_ZSt20__throw", "_ZSt24__throw", "_ZSt19__throw", "_ZSt17__throw", "_ZSt16__throw", "_ZNSt9exception", "_ZNSt13runtime_errorD", "_ZNSt11logic_errorD", "_ZNSt16invalid_argumentD", "_ZNSt12out_of_rangeD", "_ZNSolsEPFRSoS_E", "_ZNSo3putEc", "_ZNSo5flushEv", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "strto", "__isoc23_strto", "atoi", "atol", "atof", "_ZSt7getline", "_ZNSi6ignore", "_ZNSi3getEv", "_ZNSi4peekEv", "_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE9underflowEv", "_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE7seek", "_ZNSi5tellgEv", "_ZNSi5seekgE", "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED", "_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEED", "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED"};
  for (auto p : P) if (startsWith(n, p)) return true; return false;
}
static std::string curNative;
static Act nativeCall(u64 addr, CallCtx &cc, FunctionType *ft, const std::string &name) {
  SH->nativeCalls++;
  bool outOnly = startsWith(name, "printf") || startsWith(name, "puts") || startsWith(name, "fprintf");
  if (startsWith(name, "_ZStlsISt11char_traits") || startsWith(name, "_ZSt16__ostream_insert") || startsWith(name, "_ZNSo")) { u64 os = cc.args.empty() ? 0 : cc.args[0].c; if (os == (u64)&std::cout || os == (u64)&std::cerr || os == (u64)&std::clog) outOnly = true; }
  auto derefOf = [&](size_t i) -> u64 { auto *CB = cc.di ? dyn_cast_or_null<CallBase>(cc.di->I) : nullptr; return CB && i < CB->arg_size() ? CB->getParamDereferenceableBytes(i) : 0; };
  // std::string functions read exactly n characters of a (pointer, n) argument pair
  bool strFn = startsWith(name, "_ZSt16__ostream_insert") || startsWith(name, "_ZNSo5writeEPKcl") || startsWith(name, "_ZNSt7__cxx1112basic_string") || startsWith(name, "_ZNKSt7__cxx1112basic_string");
  auto chars = [&](size_t i) { return strFn && i > 0 && i + 1 < cc.args.size() && i + 1 < ft->getNumParams() && ft->getParamType(i)->isPointerTy() && ft->getParamType(i + 1)->isIntegerTy(64) && !cc.args[i + 1].e && cc.args[i + 1].c > 0; };
  auto limOf = [&](size_t i) -> u64 { return chars(i) ? cc.args[i + 1].c : derefOf(i); }; auto depthOf = [&](size_t i) { return chars(i) ? 0 : 1; };
  for (size_t i = 0; i < cc.args.size(); i++) {
    Val &a = cc.args[i];
    if (a.e && !outOnly) { SH->concretized++; concretizeVal(a, ("native argument of " + demangle(name)).c_str()); }
    if (!outOnly && !nativeSafe(name) && a.c > 65536 && (i >= ft->getNumParams() || ft->getParamType(i)->isPointerTy()) && symReachable(a.c, depthOf(i), limOf(i))) { SH->concretized++; noteIncomplete("symbolic memory passed to native " + demangle(name)); pinSymReachable(a.c, depthOf(i), limOf(i)); }
  }
  u64 g[6] = {0}; double f[8] = {0}; u64 s[24] = {0}; int ng = 0, nf = 0, ns = 0;
  auto pushI = [&](u64 v) { if (ng < 6) g[ng++] = v; else if (ns < 24) s[ns++] = v; };
  for (size_t i = 0; i < cc.args.size(); i++) {
    Type *T = i < ft->getNumParams() ? ft->getParamType(i) : cc.di->I ? cast<CallBase>(cc.di->I)->getArgOperand(i)->getType() : Type::getInt64Ty(LC); TK k = kindOf(T);
    if (cc.di && cc.di->I && cast<CallBase>(cc.di->I)->isByValArgument(i)) { Type *BT = cast<CallBase>(cc.di->I)->getParamByValType(i); u64 sz = DL->getTypeAllocSize(BT); for (u64 o = 0; o < sz; o += 8) { u64 v = 0; memcpy(&v, (void *)(cc.args[i].c + o), std::min<u64>(8, sz - o)); if (ns < 24) s[ns++] = v; } continue; }
    if (k == K_F32 || k == K_F64) { u64 b = cc.args[i].c; double d; memcpy(&d, &b, 8); if (nf < 8) f[nf++] = d; else if (ns < 24) s[ns++] = b; }
    else if (k == K_INT || k == K_PTR) { u64 v = cc.args[i].c; if (k == K_INT && T->getIntegerBitWidth() < 64) { bool sg = cc.di && cc.di->I && cast<CallBase>(cc.di->I)->paramHasAttr(i, Attribute::SExt); if (sg) v = (u64)sx(v, T->getIntegerBitWidth()); } pushI(v); }
    else if (k == K_AGG) { for (auto &x : *cc.args[i].agg) pushI(x.c); }
    else fatal("native call with unsupported argument type: " + name);
  }
  Type *RT = ft->getReturnType(); TK rk = kindOf(RT); if (rk == K_LD) fatal("native long double result: " + name);
  bool fpret = rk == K_F32 || rk == K_F64; if (rk == K_AGG) { Type *e0 = RT->isStructTy() ? RT->getStructElementType(0) : RT->isVectorTy() ? cast<FixedVectorType>(RT)->getElementType() : nullptr; if (e0 && (e0->isDoubleTy() || e0->isFloatTy() || RT->isVectorTy())) fpret = true; }
  R2 r{0, 0}; D2 d{0, 0}; u64 excObj = 0, excTi = 0; bool threw = false; curNative = name; segvAddr = 0;
  if (!scratchUsed) scratchUsed = true;
  int errno0 = *(int *)errnoAddr; errno = errno0; int sj = setjmp(segvJmp);
  if (sj == 0) {
    segvArmed = 1; inNative = true;
    try {
      if (fpret) d = ((D2(*)(u64, ...))addr)(g[0], g[1], g[2], g[3], g[4], g[5], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]);
      else r = ((R2(*)(u64, ...))addr)(g[0], g[1], g[2], g[3], g[4], g[5], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]);
      inNative = false;
    } catch (...) {
      inNative = false; threw = true; excTi = (u64)abi::__cxa_current_exception_type(); static std::vector<std::exception_ptr> keep; keep.push_back(std::current_exception()); memcpy(&excObj, &keep.back(), 8);
    }
    segvArmed = 0;
  } else { inNative = false; violation("memory", "signal " + std::to_string(sj) + " in library call " + demangle(name), X.model); endPath("violation"); }
  if (errno != errno0) { clearSym(errnoAddr, 4); *(int *)errnoAddr = errno; }
  if (threw) { excs[excObj] = Exc{excObj, excTi, 0, 0, true}; curExc = excObj; return A_UNWIND; }
  if (rk == K_INT) cc.ret = Val(r.a & maskw(widthOf(RT))); else if (rk == K_PTR) cc.ret = Val(r.a);
  else if (rk == K_F64) { u64 b; memcpy(&b, &d.a, 8); cc.ret = Val(b); } else if (rk == K_F32) { u64 b; memcpy(&b, &d.a, 8); cc.ret = Val(b & 0xffffffffu); }
  else if (rk == K_AGG) { cc.ret = zeroVal(RT); if (fpret) { u64 x, y; memcpy(&x, &d.a, 8); memcpy(&y, &d.b, 8); if (RT->isVectorTy() && cc.ret.agg->size() == 2 && cast<FixedVectorType>(RT)->getElementType()->isFloatTy()) { (*cc.ret.agg)[0].c = x & 0xffffffff; (*cc.ret.agg)[1].c = x >> 32; } else { (*cc.ret.agg)[0].c = x; if (cc.ret.agg->size() > 1) (*cc.ret.agg)[1].c = y; } } else { (*cc.ret.agg)[0].c = r.a; if (cc.ret.agg->size() > 1) (*cc.ret.agg)[1].c = r.b; } }
  return A_RET;
}

// ------------------------------------------------------------------ interpreter
static void pushFrame(FuncInfo *fi, const std::vector<Val> &args) {
  if (!fi->decoded) decode(fi); if (ST.size() > 20000) { violation("stack-overflow", "call depth exceeds 20000", X.model); endPath("violation"); }
  if (fi->idx < 65536) SH->funcSeen[fi->idx] = 1;
  Frame f; f.f = fi; f.regs = new Val[fi->nslots + 1]; f.stackMark = stackTop;
  for (size_t i = 0; i < fi->argSlots.size() && i < args.size(); i++) { Val v = args[i]; if (v.e) v.c = X.eval(v.e); f.regs[fi->argSlots[i]] = v; }
  // byval arguments are copied
  for (size_t i = 0; i < fi->argSlots.size() && i < args.size(); i++) if (fi->F->getArg(i)->hasByValAttr()) { u64 sz = DL->getTypeAllocSize(fi->F->getArg(i)->getParamByValType()); u64 a = stackAlloc(sz, 16); f.sobjs.push_back(gran[(a - ARENA) >> 4]); copyMem(a, args[i].c, sz); f.regs[fi->argSlots[i]] = Val(a); }
  if (fi->F->isVarArg()) for (size_t i = fi->argSlots.size(); i < args.size(); i++) f.varargs.push_back(args[i]);
  ST.push_back(std::move(f));
}
static void popFrame() {
  Frame &f = ST.back();
  for (auto id : f.sobjs) { Obj &o = objs[id]; clearSym(o.base, o.size); u64 g = (o.base - ARENA) >> 4, n = (o.size + 15) >> 4; if (!n) n = 1; for (u64 i = 0; i < n; i++) gran[g + i] = 0; o.alive = false; freeIds.push_back(id); }
  stackTop = f.stackMark; delete[] f.regs; ST.pop_back();
}
static void jump(Frame &f, int to) {
  auto &B = f.f->blocks[to]; int from = f.bb;
  if (!B.phis.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto &p : B.phis) { bool ok = false; for (auto &in : p.in) if (in.first == from) { tmp.push_back(getv(f, in.second)); ok = true; break; } if (!ok) tmp.push_back(Val(0)); } for (size_t i = 0; i < B.phis.size(); i++) f.regs[B.phis[i].dst] = tmp[i]; }
  f.bb = to; f.pc = 0;
}
static Val loadTyped(u64 a, Type *T) {
  TK k = kindOf(T);
  if (k == K_INT && T->getIntegerBitWidth() > 64) { Val v; v.c = *(u64 *)a; return v; }
  if (k == K_LD) { long double ld; memcpy(&ld, (void *)a, 10); Val v; v.c = db((double)ld); return v; }
  if (k != K_AGG) { unsigned w = widthOf(T); return loadInt(a, (w + 7) / 8, w); }
  Val v; v.agg = new std::vector<Val>();
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) v.agg->push_back(loadTyped(a + L->getElementOffset(i), S->getElementType(i))); }
  else if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) v.agg->push_back(loadTyped(a + i * es, A->getElementType())); }
  else if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) v.agg->push_back(loadTyped(a + i * es, V->getElementType())); }
  return v;
}
static void storeTyped(u64 a, const Val &v, Type *T) {
  TK k = kindOf(T);
  if (k == K_INT && T->getIntegerBitWidth() > 64) { memset((void *)a, 0, 16); *(u64 *)a = v.c; clearSym(a, 16); return; }
  if (k == K_LD) { long double ld = bd(v.c); memcpy((void *)a, &ld, 10); return; }
  if (k != K_AGG) { unsigned w = widthOf(T); storeInt(a, (w + 7) / 8, v, w); return; }
  if (!v.agg) return;
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) storeTyped(a + L->getElementOffset(i), (*v.agg)[i], S->getElementType(i)); }
  else if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) storeTyped(a + i * es, (*v.agg)[i], A->getElementType()); }
  else if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) storeTyped(a + i * es, (*v.agg)[i], V->getElementType()); }
}
static Val binop(Op op, const Val &a, const Val &b, unsigned w) {
  u64 c = evalOp(op, w, w, 0, a.c, b.c, 0); if (!a.e && !b.e) return Val(c);
  Expr *e = X.bin(op, EX(a, w), EX(b, w)); if (e->op == O_CONST) return Val(e->k); return Val(c, e);
}
static u64 addrOf(Val v, u64 n, const char *acc) {
  if (!v.e) return v.c;
  // symbolic address: bounds first (against the object the current value points into), then enumerate
  return enumerate(v.e, "memory address");
}
static Act doIntrinsic(CallCtx &cc, DInst &d, Frame &f);
static Act dispatch(CallTarget *t, CallCtx &cc, DInst &d, FunctionType *ft) {
  switch (t->kind) {
  case CallTarget::INTERP: cc.callF = t->fi; cc.callArgs = cc.args; return A_CALL;
  case CallTarget::HANDLER: return t->h(cc);
  case CallTarget::NATIVE:
    if (t->rt) { bool sy = false; for (auto &a : cc.args) if (a.e || symReachable(a.c, 0)) sy = true; if (sy) { cc.callF = t->rt; cc.callArgs = cc.args; return A_CALL; } }
    return nativeCall(t->addr, cc, ft, t->name);
  case CallTarget::INTRINSIC: return doIntrinsic(cc, d, ST.back());
  default: fatal("call of unresolved function " + demangle(t->name));
  }
}
static void execCall(Frame &f0, DInst &d) {
  size_t depth = ST.size();
  std::vector<Val> args; size_t na = d.ct ? d.ops.size() : d.ops.size() - 1; args.reserve(na);
  for (size_t i = 0; i < na; i++) args.push_back(getv(f0, d.ops[i]));
  CallTarget *t = d.ct; u64 nat = 0;
  if (!t) { Val fp = getv(f0, d.ops.back()); concretizeVal(fp, "function pointer"); auto it = funcByAddr.find(fp.c); if (it != funcByAddr.end()) t = targetOf(it->second); else { nat = fp.c; if (nat < 65536 || inArena(nat)) { violation("memory", "call through invalid function pointer", X.model); endPath("violation"); } } }
  CallCtx cc{args, Val(), &d, t}; f0.callInst = &d;
  Act a; if (t) a = dispatch(t, cc, d, d.fty); else { Dl_info di; std::string n = "indirect"; if (dladdr((void *)nat, &di) && di.dli_sname) n = di.dli_sname; auto h = handlers.find(n); if (h != handlers.end()) { a = h->second(cc); } else a = nativeCall(nat, cc, d.fty, n); }
  if (a == A_CALL) { ST[depth - 1].pc++; pushFrame(cc.callF, cc.callArgs); return; }
  if (a == A_UNWIND) { unwind(curExc, 0); return; }
  Frame &f = ST[depth - 1]; f.callInst = nullptr; if (d.dst >= 0) f.regs[d.dst] = cc.ret;
  if (d.op == Instruction::Invoke) jump(f, d.succ[0]); else f.pc++;
}
static void doReturn(const Val &v, size_t base) {
  popFrame(); if (ST.size() <= base) return;
  Frame &f = ST.back(); DInst *d = f.callInst; if (!d) return; f.callInst = nullptr; if (d->dst >= 0) f.regs[d->dst] = v;
  if (d->op == Instruction::Invoke) jump(f, d->succ[0]); // (pc was advanced for plain calls)
}
static Val lastRet; static u64 nextTick = 100000;
static void step(size_t base);
static void loop(size_t base) { while (ST.size() > base) step(base); }
static void runNested(FuncInfo *fi, const std::vector<Val> &args) {
  size_t base = ST.size(); DInst *save = base ? ST.back().callInst : nullptr; if (base) ST.back().callInst = nullptr; pushFrame(fi, args); loop(base); if (base) ST.back().callInst = save;
}
static const Op icmpOps[] = {O_EQ};
static void step(size_t base) {
  Frame &f = ST.back(); DInst &d = f.f->blocks[f.bb].ins[f.pc];
  if (++instCount >= nextTick) { nextTick = instCount + 100000; if (SH->stop) endPath("stopped"); if (nowS() - T0 > optTimeout) { SH->stop = 2; endPath("stopped"); }
    if (instCount > optMaxInst) { violation("budget", "instruction budget exceeded (possible non-termination)", X.model); endPath("budget"); } flushStats(); }
  auto set = [&](const Val &v) { f.regs[d.dst] = v; f.pc++; };
  auto A = [&](int i) -> Val { return getv(f, d.ops[i]); };
  switch (d.op) {
  case Instruction::Add: set(binop(O_ADD, A(0), A(1), d.w)); break;
  case Instruction::Sub: set(binop(O_SUB, A(0), A(1), d.w)); break;
  case Instruction::Mul: set(binop(O_MUL, A(0), A(1), d.w)); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = A(0), b = A(1); if (b.e) { Expr *z = X.Eq(b.e, X.K(0, d.w)); if (decide(z)) { violation("arith", "division by zero", X.model); endPath("violation"); } a = A(0); b = A(1); } else if (b.c == 0) { violation("arith", "division by zero", X.model); endPath("violation"); }
    set(binop(d.op == Instruction::UDiv ? O_UDIV : d.op == Instruction::SDiv ? O_SDIV : d.op == Instruction::URem ? O_UREM : O_SREM, a, b, d.w)); break; }
  case Instruction::And: set(binop(O_AND, A(0), A(1), d.w)); break;
  case Instruction::Or: set(binop(O_OR, A(0), A(1), d.w)); break;
  case Instruction::Xor: set(binop(O_XOR, A(0), A(1), d.w)); break;
  case Instruction::Shl: set(binop(O_SHL, A(0), A(1), d.w)); break;
  case Instruction::LShr: set(binop(O_LSHR, A(0), A(1), d.w)); break;
  case Instruction::AShr: set(binop(O_ASHR, A(0), A(1), d.w)); break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    Val a = A(0), b = A(1); Op o = d.op == Instruction::FAdd ? O_FADD : d.op == Instruction::FSub ? O_FSUB : d.op == Instruction::FMul ? O_FMUL : O_FDIV;
    if (o == O_FSUB && a.e && a.e == b.e) { long double lo, hi; if (fpRange(a.e, lo, hi)) { set(Val(0)); break; } } // x - x, x finite
    if (d.tk == K_LD) { set(Val(evalOp(o, 64, 64, 0, a.c, b.c, 0))); break; }
    if (d.tk == K_AGG) { Val v; v.agg = new std::vector<Val>(); unsigned ew = widthOf(cast<VectorType>(d.I->getType())->getElementType()); for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(binop(o, (*a.agg)[i], (*b.agg)[i], ew)); set(v); break; }
    set(binop(o, a, b, d.w)); break; }
  case Instruction::FRem: { Val a = A(0), b = A(1); if (a.e || b.e) { concretizeVal(a, "frem"); concretizeVal(b, "frem"); } set(Val(d.w == 32 ? fb(fmodf(bf(a.c), bf(b.c))) : db(fmod(bd(a.c), bd(b.c))))); break; }
  case Instruction::FNeg: set(binop(O_XOR, A(0), Val(1ull << (d.w - 1)), d.w)); break;
  case Instruction::ICmp: {
    Val a = A(0), b = A(1); unsigned w = d.w; if (a.agg || b.agg) fatal("vector icmp"); if (w > 64) w = 64;
    auto cmp = [&](Op o, const Val &x, const Val &y) -> Val { u64 c = evalOp(o, 1, w, 0, x.c, y.c, 0); if (!x.e && !y.e) return Val(c); Expr *e = X.bin(o, EX(x, w), EX(y, w)); if (e->op == O_CONST) return Val(e->k); return Val(c, e); };
    auto neg = [&](Val v) -> Val { if (!v.e) return Val(v.c ^ 1); Expr *e = X.Not(v.e); return e->op == O_CONST ? Val(e->k) : Val(v.c ^ 1, e); };
    Val r;
    switch (d.pred) { case CmpInst::ICMP_EQ: r = cmp(O_EQ, a, b); break; case CmpInst::ICMP_NE: r = neg(cmp(O_EQ, a, b)); break;
    case CmpInst::ICMP_ULT: r = cmp(O_ULT, a, b); break; case CmpInst::ICMP_ULE: r = cmp(O_ULE, a, b); break; case CmpInst::ICMP_UGT: r = cmp(O_ULT, b, a); break; case CmpInst::ICMP_UGE: r = cmp(O_ULE, b, a); break;
    case CmpInst::ICMP_SLT: r = cmp(O_SLT, a, b); break; case CmpInst::ICMP_SLE: r = cmp(O_SLE, a, b); break; case CmpInst::ICMP_SGT: r = cmp(O_SLT, b, a); break; default: r = cmp(O_SLE, b, a); break; }
    set(r); break; }
  case Instruction::FCmp: {
    Val a = A(0), b = A(1); unsigned w = d.w ? d.w : 64; if (a.agg || b.agg) fatal("vector fcmp");
    u64 eq = evalOp(O_FEQ, 1, w, 0, a.c, b.c, 0), lt = evalOp(O_FLT, 1, w, 0, a.c, b.c, 0), gt = evalOp(O_FLT, 1, w, 0, b.c, a.c, 0), un = evalOp(O_FUNO, 1, w, 0, a.c, b.c, 0);
    unsigned p = d.pred; u64 c = ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un); // FCMP predicate bits: 1=eq 2=gt 4=lt 8=uno
    if (!a.e && !b.e) { set(Val(c)); break; }
    Expr *x = EX(a, w), *y = EX(b, w), *e; auto LT = [&](Expr *p, Expr *q) { return X.bin(O_FLT, p, q); }; auto LE = [&](Expr *p, Expr *q) { return X.bin(O_FLE, p, q); };
    switch (p) { case 0: e = X.K(0, 1); break; case 1: e = X.bin(O_FEQ, x, y); break; case 2: e = LT(y, x); break; case 3: e = LE(y, x); break; case 4: e = LT(x, y); break; case 5: e = LE(x, y); break;
    case 6: e = X.And(X.Not(X.bin(O_FEQ, x, y)), X.Not(X.bin(O_FUNO, x, y))); break; case 7: e = X.Not(X.bin(O_FUNO, x, y)); break; case 8: e = X.bin(O_FUNO, x, y); break; case 9: e = X.Or(X.bin(O_FEQ, x, y), X.bin(O_FUNO, x, y)); break;
    case 10: e = X.Not(LE(x, y)); break; case 11: e = X.Not(LT(x, y)); break; case 12: e = X.Not(LE(y, x)); break; case 13: e = X.Not(LT(y, x)); break; case 14: e = X.Not(X.bin(O_FEQ, x, y)); break; default: e = X.K(1, 1); }
    set(e->op == O_CONST ? Val(e->k) : Val(c, e)); break; }
  case Instruction::Trunc: { Val a = A(0); if (a.e) { Expr *e = X.ext(a.e, 0, d.w); set(e->op == O_CONST ? Val(e->k) : Val(a.c & maskw(d.w), e)); } else set(Val(a.c & maskw(d.w))); break; }
  case Instruction::ZExt: { Val a = A(0); set(a.e ? Val(a.c, X.zext(a.e, std::min(64u, d.w))) : Val(a.c)); break; }
  case Instruction::SExt: { Val a = A(0); u64 c = (u64)sx(a.c, d.w2) & maskw(d.w); set(a.e ? Val(c, X.sext(a.e, d.w)) : Val(c)); break; }
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
    Val a = A(0); bool srcLD = d.I->getOperand(0)->getType()->isX86_FP80Ty(), dstLD = d.tk == K_LD; unsigned w = dstLD ? 64 : d.w, ws = srcLD ? 64 : d.w2;
    Op o = d.op == Instruction::FPExt ? O_FPEXT : d.op == Instruction::FPTrunc ? O_FPTRUNC : d.op == Instruction::SIToFP ? O_SITOFP : d.op == Instruction::UIToFP ? O_UITOFP : d.op == Instruction::FPToSI ? O_FPTOSI : O_FPTOUI;
    if ((o == O_FPEXT || o == O_FPTRUNC) && w == ws) { set(a); break; }
    if (a.agg) fatal("vector conversion");
    u64 c = evalOp(o, w, ws, 0, a.c, 0, 0); if (!a.e) { set(Val(c)); break; } Expr *e = X.un(o, a.e, w); set(e->op == O_CONST ? Val(e->k) : Val(c, e)); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = A(0); if (a.e) { Expr *e = d.w <= a.e->w ? X.ext(a.e, 0, d.w) : X.zext(a.e, d.w); set(Val(a.c & maskw(d.w), e)); } else set(Val(a.c & maskw(d.w))); break; }
  case Instruction::BitCast: { Val a = A(0); if ((d.tk == K_AGG) != (a.agg != nullptr)) { // via memory
      alignas(16) static u64 tmpbuf[8]; storeTyped((u64)tmpbuf, a, d.I->getOperand(0)->getType()); Val v = loadTyped((u64)tmpbuf, d.I->getType()); clearSym((u64)tmpbuf, 64); set(v); } else set(a); break; }
  case Instruction::Freeze: case Instruction::AddrSpaceCast: set(A(0)); break;
  case Instruction::Select: { Val c = A(0); if (c.agg) fatal("vector select"); if (!c.e) { set(c.c ? A(1) : A(2)); break; }
    if (d.tk == K_PTR || d.tk == K_AGG || d.tk == K_LD) { bool b = decide(c.e); set(b ? getv(ST.back(), d.ops[1]) : getv(ST.back(), d.ops[2])); break; }
    Val a = A(1), b = A(2); Expr *e = X.ite(c.e, EX(a, d.w), EX(b, d.w)); set(e->op == O_CONST ? Val(e->k) : Val(c.c ? a.c : b.c, e)); break; }
  case Instruction::GetElementPtr: {
    Val p = A(0); if (p.agg) fatal("vector gep"); u64 c = p.c + d.off; Expr *e = p.e ? X.bin(O_ADD, p.e, X.K(d.off, 64)) : nullptr;
    for (auto &g : d.gep) { Val ix = A(g[0]); u64 iv = (u64)sx(ix.c, g[2]) * g[1]; if (ix.e) { Expr *t = X.bin(O_MUL, X.sext(ix.e, 64), X.K(g[1], 64)); e = X.bin(O_ADD, e ? e : X.K(c, 64), t); } else if (e) e = X.bin(O_ADD, e, X.K(iv, 64)); c += iv; }
    if (e && e->op == O_CONST) e = nullptr;
    set(Val(c, e)); break; }
  case Instruction::Load: { Val p = A(0); u64 a = addrOf(p, d.bytes, "load"); Frame &g = ST.back(); checkMem(a, d.bytes, "read");
    if (!inArena(a)) { segvArmed = 1; int sj = setjmp(segvJmp); if (sj) { memViolation("wild pointer", a, d.bytes, "read"); } volatile char ch = *(volatile char *)a; (void)ch; segvArmed = 0; }
    Val v = (d.tk == K_AGG || d.tk == K_LD || d.w > 64) ? loadTyped(a, d.I->getType()) : loadInt(a, d.bytes, d.w); g.regs[d.dst] = v; g.pc++; break; }
  case Instruction::Store: { Val v = A(0), p = A(1); u64 a = addrOf(p, d.bytes, "store"); Frame &g = ST.back(); v = getv(g, d.ops[0]); checkMem(a, d.bytes, "write");
    if (!inArena(a)) { segvArmed = 1; int sj = setjmp(segvJmp); if (sj) { memViolation("wild pointer", a, d.bytes, "write"); } volatile char ch = *(volatile char *)a; *(volatile char *)a = ch; segvArmed = 0; }
    else if (objs[gran[(a - ARENA) >> 4]].kind == OK_GLOBAL) { }
    if (d.tk == K_AGG || d.tk == K_LD || d.w > 64) storeTyped(a, v, d.I->getOperand(0)->getType()); else storeInt(a, d.bytes, v, d.w); g.pc++; break; }
  case Instruction::Alloca: { Val n = A(0); concretizeVal(n, "alloca size"); Frame &g = ST.back(); u64 cnt = (u64)sx(n.c, widthOf(d.I->getOperand(0)->getType())); if (cnt > (1u << 24)) { violation("stack-overflow", "variable-length array with " + std::to_string((i64)cnt) + " elements", X.model); endPath("violation"); } u64 a = stackAlloc(d.bytes * cnt, d.off); g.sobjs.push_back(gran[(a - ARENA) >> 4]); g.regs[d.dst] = Val(a); g.pc++; break; }
  case Instruction::Br: { if (d.ops.empty()) { jump(f, d.succ[0]); break; } Val c = A(0); bool b = c.e ? decide(c.e) : c.c; jump(ST.back(), d.succ[b ? 0 : 1]); break; }
  case Instruction::Switch: { Val c = A(0);
    if (c.e) { int to = -1; for (auto &k : d.cases) { if (decide(X.Eq(c.e, X.K(k.first, d.w)))) { to = k.second; break; } } jump(ST.back(), to >= 0 ? to : d.succ[0]); break; }
    int to = d.succ[0]; for (auto &k : d.cases) if (k.first == c.c) { to = k.second; break; } jump(f, to); break; }
  case Instruction::Call: case Instruction::Invoke: execCall(f, d); break;
  case Instruction::Ret: { Val v; if (!d.ops.empty()) v = A(0); lastRet = v; doReturn(v, base); break; }
  case Instruction::ExtractValue: { Val a = A(0); for (auto i : cast<ExtractValueInst>(d.I)->indices()) { if (!a.agg) fatal("extractvalue of non-aggregate"); a = Val((*a.agg)[i]); } set(a); break; }
  case Instruction::InsertValue: { Val a = A(0), v = A(1); auto ids = cast<InsertValueInst>(d.I)->getIndices();
    std::function<Val(const Val &, size_t)> rec = [&](const Val &x, size_t k) -> Val { if (k == ids.size()) return v; Val r; r.agg = new std::vector<Val>(*x.agg); (*r.agg)[ids[k]] = rec((*x.agg)[ids[k]], k + 1); return r; }; set(rec(a, 0)); break; }
  case Instruction::ExtractElement: { Val a = A(0), i = A(1); concretizeVal(i, "vector index"); set((*getv(ST.back(), d.ops[0]).agg)[i.c]); break; }
  case Instruction::InsertElement: { Val a = A(0), v = A(1), i = A(2); Val r; r.agg = new std::vector<Val>(*a.agg); (*r.agg)[i.c] = v; set(r); break; }
  case Instruction::ShuffleVector: { Val a = A(0), b = A(1); auto m = cast<ShuffleVectorInst>(d.I)->getShuffleMask(); Val r; r.agg = new std::vector<Val>(); size_t n = a.agg->size(); for (int k : m) r.agg->push_back(k < 0 ? Val(0) : (size_t)k < n ? (*a.agg)[k] : (*b.agg)[k - n]); set(r); break; }
  case Instruction::LandingPad: f.pc++; break;
  case Instruction::Resume: { Val a = A(0); u64 obj = (*a.agg)[0].c; f.callInst = nullptr; // continue unwinding from the caller
    if (ST.size() <= base + 1 && base) abnormal("exception escaped a nested engine call"); popFrame(); curExc = obj; if (ST.empty()) abnormal("uncaught exception " + excWhat(obj, excs[obj].tinfo)); unwind(obj, 0); break; }
  case Instruction::Unreachable: violation("unreachable", "reached code marked unreachable", X.model); endPath("violation"); break;
  case Instruction::Fence: f.pc++; break;
  case Instruction::AtomicRMW: { Val p = A(0), v = A(1); checkMem(p.c, d.w / 8, "atomic"); Val o = loadInt(p.c, d.w / 8, d.w); auto *R = cast<AtomicRMWInst>(d.I); Val n; switch (R->getOperation()) { case AtomicRMWInst::Add: n = binop(O_ADD, o, v, d.w); break; case AtomicRMWInst::Sub: n = binop(O_SUB, o, v, d.w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = binop(O_OR, o, v, d.w); break; case AtomicRMWInst::And: n = binop(O_AND, o, v, d.w); break; default: fatal("atomicrmw"); } storeInt(p.c, d.w / 8, n, d.w); set(o); break; }
  case Instruction::AtomicCmpXchg: { Val p = A(0), c = A(1), n = A(2); unsigned w = widthOf(d.I->getOperand(1)->getType()); checkMem(p.c, w / 8, "atomic"); Val o = loadInt(p.c, w / 8, w); bool ok = o.c == c.c; if (ok) storeInt(p.c, w / 8, n, w); Val r; r.agg = new std::vector<Val>{o, Val(ok)}; set(r); break; }
  case Instruction::VAArg: fatal("va_arg");
  default: fatal(std::string("unsupported instruction ") + d.I->getOpcodeName());
  }
}

// ------------------------------------------------------------------ intrinsics
static Act doIntrinsic(CallCtx &cc, DInst &d, Frame &f) {
  auto &a = cc.args; unsigned id = d.ct ? d.ct->iid : cc.ct->iid; unsigned w = d.w;
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { concretizeVal(a[2], "memcpy length"); concretizeVal(a[0], "memcpy address"); concretizeVal(a[1], "memcpy address"); u64 n = a[2].c; if (!n) return A_RET; checkMem(a[1].c, n, "memcpy read"); checkMem(a[0].c, n, "memcpy write"); copyMem(a[0].c, a[1].c, n); return A_RET; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { concretizeVal(a[2], "memset length"); u64 n = a[2].c; if (!n) return A_RET; checkMem(a[0].c, n, "memset write"); memset((void *)a[0].c, (int)a[1].c, n); clearSym(a[0].c, n); if (a[1].e) for (u64 i = 0; i < n; i++) setSymBytes(a[0].c + i, a[1].e, 1); return A_RET; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: cc.ret = a[0]; return A_RET;
  case Intrinsic::stacksave: cc.ret = Val(0); return A_RET; case Intrinsic::stackrestore: return A_RET;
  case Intrinsic::eh_typeid_for: cc.ret = Val(typeIdOf(a[0].c)); return A_RET;
  case Intrinsic::objectsize: cc.ret = Val(maskw(w)); return A_RET; case Intrinsic::is_constant: cc.ret = Val(0); return A_RET;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: abnormal("trap"); return A_RET;
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = widthOf(cast<CallBase>(d.I)->getArgOperand(0)->getType()); concretizeVal(a[0], "overflow intrinsic"); concretizeVal(a[1], "overflow intrinsic"); u64 x = a[0].c, y = a[1].c, r = 0; bool o = false; i64 sr; 
    switch (id) { case Intrinsic::uadd_with_overflow: o = __builtin_add_overflow(x, y, &r) || r > maskw(ww); break; case Intrinsic::usub_with_overflow: o = y > x; r = x - y; break; case Intrinsic::umul_with_overflow: o = __builtin_mul_overflow(x, y, &r) || r > maskw(ww); break;
    case Intrinsic::sadd_with_overflow: o = __builtin_add_overflow(sx(x, ww), sx(y, ww), &sr) || sx(sr, ww) != sr; r = sr; break; case Intrinsic::ssub_with_overflow: o = __builtin_sub_overflow(sx(x, ww), sx(y, ww), &sr) || sx(sr, ww) != sr; r = sr; break; default: o = __builtin_mul_overflow(sx(x, ww), sx(y, ww), &sr) || sx(sr, ww) != sr; r = sr; }
    Val v; v.agg = new std::vector<Val>{Val(r & maskw(ww)), Val(o)}; cc.ret = v; return A_RET; }
  case Intrinsic::fabs: { Expr *e; u64 m = maskw(w) >> 1; if (a[0].e) { e = X.bin(O_AND, a[0].e, X.K(m, w)); cc.ret = e->op == O_CONST ? Val(e->k) : Val(a[0].c & m, e); } else cc.ret = Val(a[0].c & m); return A_RET; }
  case Intrinsic::sqrt: { u64 c = evalOp(O_FSQRT, w, w, 0, a[0].c, 0, 0); cc.ret = a[0].e ? Val(c, X.un(O_FSQRT, a[0].e, w)) : Val(c); return A_RET; }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: { u64 k = id == Intrinsic::floor ? 0 : id == Intrinsic::ceil ? 1 : id == Intrinsic::trunc ? 2 : 3; u64 c = evalOp(O_FRND, w, w, k, a[0].c, 0, 0); cc.ret = a[0].e ? Val(c, X.un(O_FRND, a[0].e, w, k)) : Val(c); return A_RET; }
  case Intrinsic::copysign: { concretizeVal(a[0], "copysign"); concretizeVal(a[1], "copysign"); u64 m = maskw(w) >> 1; cc.ret = Val((a[0].c & m) | (a[1].c & ~m & maskw(w))); return A_RET; }
  case Intrinsic::fmuladd: cc.ret = binop(O_FADD, binop(O_FMUL, a[0], a[1], w), a[2], w); return A_RET;
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { Op o = (id == Intrinsic::smax || id == Intrinsic::smin) ? O_SLT : O_ULT; bool mx = id == Intrinsic::smax || id == Intrinsic::umax; Val c; Expr *e = X.bin(o, EX(a[0], w), EX(a[1], w)); Expr *r = mx ? X.ite(e, EX(a[1], w), EX(a[0], w)) : X.ite(e, EX(a[0], w), EX(a[1], w)); cc.ret = mkv(r); return A_RET; }
  case Intrinsic::abs: { Expr *e = EX(a[0], w); cc.ret = mkv(X.ite(X.bin(O_SLT, e, X.K(0, w)), X.bin(O_SUB, X.K(0, w), e), e)); return A_RET; }
  case Intrinsic::ctpop: concretizeVal(a[0], "ctpop"); cc.ret = Val(__builtin_popcountll(a[0].c)); return A_RET;
  case Intrinsic::ctlz: concretizeVal(a[0], "ctlz"); cc.ret = Val(a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w); return A_RET;
  case Intrinsic::cttz: concretizeVal(a[0], "cttz"); cc.ret = Val(a[0].c ? __builtin_ctzll(a[0].c) : w); return A_RET;
  case Intrinsic::bswap: concretizeVal(a[0], "bswap"); cc.ret = Val(__builtin_bswap64(a[0].c) >> (64 - w)); return A_RET;
  case Intrinsic::fshl: case Intrinsic::fshr: { concretizeVal(a[2], "funnel shift"); unsigned s = a[2].c % w; Expr *r = s == 0 ? (id == Intrinsic::fshl ? EX(a[0], w) : EX(a[1], w)) : id == Intrinsic::fshl ? X.bin(O_OR, X.bin(O_SHL, EX(a[0], w), X.K(s, w)), X.bin(O_LSHR, EX(a[1], w), X.K(w - s, w))) : X.bin(O_OR, X.bin(O_SHL, EX(a[0], w), X.K(w - s, w)), X.bin(O_LSHR, EX(a[1], w), X.K(s, w))); cc.ret = mkv(r); return A_RET; }
  case Intrinsic::vastart: { Frame &fr = ST.back(); u64 n = fr.varargs.size(); u64 area = stackAlloc(8 * n + 8, 16); fr.sobjs.push_back(gran[(area - ARENA) >> 4]); for (u64 i = 0; i < n; i++) storeInt(area + 8 * i, 8, fr.varargs[i], 64); checkMem(a[0].c, 24, "va_start"); *(uint32_t *)a[0].c = 48; *(uint32_t *)(a[0].c + 4) = 176; *(u64 *)(a[0].c + 8) = area; *(u64 *)(a[0].c + 16) = 0; return A_RET; }
  case Intrinsic::vaend: return A_RET; case Intrinsic::vacopy: copyMem(a[0].c, a[1].c, 24); return A_RET;
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: fatal("saturating conversion");
  case Intrinsic::exp: case Intrinsic::pow: case Intrinsic::log: case Intrinsic::powi: { for (auto &x : a) concretizeVal(x, "libm"); double x = bd(a[0].c); cc.ret = Val(db(id == Intrinsic::exp ? exp(x) : id == Intrinsic::log ? log(x) : id == Intrinsic::powi ? pow(x, (int)a[1].c) : pow(x, bd(a[1].c)))); return A_RET; }
  default: fatal("unsupported intrinsic " + d.ct->name);
  }
}

#include "handlers.inc"

// ------------------------------------------------------------------ main
static void runCtors() {
  GlobalVariable *G = MOD->getGlobalVariable("llvm.global_ctors"); if (!G || !G->hasInitializer()) return;
  auto *A = dyn_cast<ConstantArray>(G->getInitializer()); if (!A) return; std::vector<std::pair<u64, Function *>> v;
  for (auto &o : A->operands()) { auto *S = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &p : v) if (p.second) runNested(infoOf(p.second), {});
}
static std::string jsonEsc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = stoi(nx()); else if (a == "--max-inst") optMaxInst = stoull(nx()); else if (a == "--timeout") optTimeout = stod(nx()); else if (a == "--solver-timeout") optSolverTimeout = stod(nx()); else if (a == "--max-viol") optMaxViol = stoi(nx()); else if (a == "--enum") optEnum = stoi(nx()); else if (a == "--keep-paths") optKeepPaths = stoi(nx()); else if (a == "-v") optVerbose = true; else if (a == "--dump-queries") optDumpQ = true; else optBC = a; }
  T0 = nowS(); mkdir(optOut.c_str(), 0755); optScratch = optOut + "/scratch"; mkdir(optScratch.c_str(), 0700);
  { char rp[4096]; if (realpath(optScratch.c_str(), rp)) optScratch = rp; if (realpath(optOut.c_str(), rp)) optOut = rp; if (realpath(optBC.c_str(), rp)) optBC = rp; }
  auto map = [](u64 at, u64 n, int prot) { void *p = mmap((void *)at, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
  map(ARENA, ARENASZ, PROT_READ | PROT_WRITE); map(FUNCS, 1 << 24, PROT_NONE); gran = (uint32_t *)map(0, ARENASZ / 4 + 4096, PROT_READ | PROT_WRITE); symf = (uint8_t *)map(0, ARENASZ + 4096, PROT_READ | PROT_WRITE);
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); memset((void *)SH, 0, sizeof(Shared)); sem_init(&SH->tokens, 1, optJobs - 1);
  SMDiagnostic err; MOD = parseIRFile(optBC, err, LC); if (!MOD) { err.print("asym", errs()); return 3; } DL = &MOD->getDataLayout();
  Function *E = MOD->getFunction(optEntry); if (!E || E->isDeclaration()) { logf_("no entry %s\n", optEntry.c_str()); return 3; }
  prctl(PR_SET_CHILD_SUBREAPER, 1); double tLoad = nowS() - T0;
  LOGFD = fcntl(2, F_DUPFD_CLOEXEC, 50);
  SH->livePaths = 1; pid_t first = fork();
  if (first == 0) {
    rlimit rl{64ull << 20, 64ull << 20}; (void)rl;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; static char alt[65536]; stack_t ss{alt, 0, sizeof alt}; sigaltstack(&ss, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2); dup2(dn, 0);
    scratch = optScratch + "/root"; mkdir(scratch.c_str(), 0700); if (chdir(scratch.c_str())) {}
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); std::clog.setstate(std::ios::failbit);
    Z3D.init(); registerHandlers(); { u64 b = heapAlloc(16, OK_GLOBAL); errnoAddr = b; *(int *)b = 0; }
    for (auto &F : *MOD) infoOf(&F);
    for (auto &G : MOD->globals()) { if (G.getName().startswith("llvm.")) continue; gvAddr(&G); }
    for (auto &G : MOD->globals()) { if (G.getName().startswith("llvm.")) continue; u64 a = gvAddr(&G); if (inArena(a) && G.hasInitializer()) { memset((void *)a, 0, DL->getTypeAllocSize(G.getValueType())); initMem(a, G.getInitializer()); } }
    runCtors(); runNested(infoOf(E), {}); endPath("ok");
  }
  // supervise
  int st; pid_t p; int crashed = 0;
  while (true) { p = waitpid(-1, &st, WNOHANG); if (p > 0) { if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { crashed++; } if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) crashed++; continue; } if (p < 0 && errno == ECHILD) break;
    if (SH->firstViolNs && nowS() * 1e9 - (double)SH->firstViolNs > 15e9) SH->stop = 1; // grace period after the first violation
    if (nowS() - T0 > optTimeout) SH->stop = 2; if (nowS() - T0 > optTimeout + optSolverTimeout + 30) { kill(0, 0); }
    usleep(2000); }
  rmTree(optScratch);
  std::string js = "{\n"; auto N = [&](const char *k, u64 v) { js += std::string("\"") + k + "\": " + std::to_string(v) + ",\n"; };
  auto D = [&](const char *k, double v) { char b[64]; snprintf(b, 64, "\"%s\": %.3f,\n", k, v); js += b; };
  N("paths", SH->npath); N("ok_paths", SH->okPaths); N("infeasible_paths", SH->infeasible); N("budget_paths", SH->budget); N("error_paths", SH->errors + crashed); N("stopped_paths", SH->timeouts); N("forks", SH->forks); N("symbolic_branches", SH->branches); N("instructions", SH->insts);
  N("queries", SH->queries); N("queries_sat", SH->querySat); N("queries_unsat", SH->queryUnsat); N("queries_unknown", SH->queryUnknown); N("queries_fp", SH->fpQueries); N("model_cache_hits", SH->modelHits); N("query_cache_hits", SH->cacheHits); N("propagated", SH->propagated); D("solver_s", SH->solverNs * 1e-9); D("max_query_s", SH->maxSolverNs * 1e-9); N("by_z3", SH->bySolver[0]); N("by_cvc5", SH->bySolver[1]); N("by_z3_new", SH->bySolver[2]);
  N("assertions", SH->asserts); N("assertion_queries", SH->assertQ); N("native_calls", SH->nativeCalls); N("expected_aborts", SH->expectedAborts); N("stop", SH->stop); D("load_s", tLoad); D("wall_s", nowS() - T0);
  js += "\"incomplete\": ["; int ni = std::min(64, SH->ninc.load()); for (int i = 0; i < ni; i++) js += std::string(i ? ", " : "") + "\"" + jsonEsc(SH->inc[i]) + "\""; js += "],\n";
  js += "\"reached\": {"; for (int i = 0; i < SH->nreach && i < 64; i++) js += std::string(i ? ", " : "") + "\"" + jsonEsc(SH->reach[i]) + "\": " + std::to_string(SH->reachCount[i]); js += "},\n";
  js += "\"functions\": ["; bool fst = true; { unsigned k = 0; std::vector<Function *> fs; for (auto &F : *MOD) fs.push_back(&F); for (auto *F : fs) { if (k < 65536 && SH->funcSeen[k]) { auto *SP = F->getSubprogram(); std::string file = SP && SP->getFile() ? (SP->getFile()->getFilename().startswith("/") ? SP->getFile()->getFilename().str() : (SP->getFile()->getDirectory() + "/" + SP->getFile()->getFilename()).str()) : ""; if (file.find("/repo/") == 0) { js += std::string(fst ? "" : ", ") + "\"" + jsonEsc(demangle(F->getName().str())) + "\""; fst = false; } } k++; } } js += "],\n";
  js += "\"violations\": ["; int nv = std::min(64, SH->nviol.load()); for (int i = 0; i < nv; i++) { auto &v = SH->viol[i]; js += std::string(i ? ",\n " : "\n ") + "{\"kind\": \"" + jsonEsc(v.kind) + "\", \"msg\": \"" + jsonEsc(v.msg) + "\", \"where\": \"" + jsonEsc(v.where) + "\", \"inputs\": \"viol-" + std::to_string(i) + ".inputs\"}"; } js += "]\n}\n";
  FILE *o = fopen((optOut + "/result.json").c_str(), "w"); if (o) { fwrite(js.data(), 1, js.size(), o); fclose(o); }
  if (optVerbose) { fwrite(js.data(), 1, js.size(), stdout); }
  return 0;
}
