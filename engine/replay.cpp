// Native side of the harness interface: replays the inputs of one path on the real code.
//   exit 0   the harness ran to its end and every assertion held
//   exit 11  an assertion of the harness failed        exit 12  unexpected abort/terminate/exit
//   exit 13  the inputs do not satisfy the harness' assumptions (not a replay)
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <map>
#include <random>
#include <string>
#include <vector>
#include "sym.h"
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> &insR() { static auto *v = new std::vector<In>; return *v; }
#define ins insR()
static size_t nxt; static std::vector<std::string> *obs; static void (*onAbort)(); static bool done, inHook; static FILE *obsF;
static void out(const char *f, const char *m) { fprintf(stderr, f, m); fflush(stderr); }
static void finish(int rc) { if (obsF) fclose(obsF); obsF = nullptr; done = true; fflush(stdout); _exit(rc); }
extern "C" {
void sym_make(void *p, size_t n, const char *name) {
  if (nxt < ins.size() && ins[nxt].name == name && ins[nxt].b.size() == n) { memcpy(p, ins[nxt].b.data(), n); nxt++; return; }
  if (nxt < ins.size()) { fprintf(stderr, "REPLAY: input mismatch: wanted %s/%zu, have %s/%zu\n", name, n, ins[nxt].name.c_str(), ins[nxt].b.size()); finish(13); }
  memset(p, 0, n); nxt++;
}
void sym_assume(int c) { if (!c) { out("REPLAY: assumption not satisfied%s\n", ""); finish(13); } }
void sym_assert(int c, const char *m) { if (!c) { out("REPLAY-VIOLATION: %s\n", m); finish(11); } }
void sym_fail(const char *m) { out("REPLAY-VIOLATION: %s\n", m); finish(11); }
void sym_reach(const char *l) { if (obsF) fprintf(obsF, "R %s\n", l); }
void sym_observe(uint64_t v) { if (obsF) fprintf(obsF, "O %016llx\n", (unsigned long long)v); }
uint32_t sym_choice(uint32_t n, const char *name) { uint32_t v = 0; sym_make(&v, 4, name); if (v >= n) finish(13); return v; }
uint8_t sym_ite8(int c, uint8_t a, uint8_t b) { return c ? a : b; }
uint32_t sym_ite32(int c, uint32_t a, uint32_t b) { return c ? a : b; }
uint64_t sym_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(const void *, size_t) { return 0; }
void sym_on_abort(void (*fn)()) { onAbort = fn; }
void sym_end() { finish(0); }
void sym_setenv(const char *n, const char *v) { setenv(n, v, 1); }
void sym_incomplete(const char *) {}
int sym_same_number(const char *a, const char *b) { return !strcmp(a, b); }
int sym_number_is(const char *t, double v, int digits) { char *e; double d = strtod(t, &e); if (e == t || *e) return 0; if (d == v || (d != d && v != v)) return 1; double x = d - v, m = v < 0 ? -v : v; if (x < 0) x = -x; double tol = m * .5000001; for (int i = 1; i < digits; i++) tol /= 10; return x <= tol; }
int sym_is_native() { return 1; }
// destructors of static objects registered by the code under test run here
typedef void (*dtor_t)(void *); struct D { dtor_t f; void *a; }; static std::vector<D> *dts; 
int __wrap___cxa_atexit(dtor_t f, void *a, void *) { if (!dts) dts = new std::vector<D>; dts->push_back({f, a}); return 0; }
void sym_run_atexit() { while (dts && !dts->empty()) { D d = dts->back(); dts->pop_back(); d.f(d.a); } }
void sym_main();
}
namespace std { random_device::result_type random_device::_M_getval() { static uint32_t x = 12345; x = x * 1664525u + 1013904223u; return x; } }
static void dying(const char *what) { if (done) return; if (onAbort && !inHook) { inHook = true; onAbort(); finish(0); } out("REPLAY-VIOLATION: unexpected %s\n", what); finish(12); }
static void onSig(int s) { if (s == SIGABRT) dying("abort"); out("REPLAY-VIOLATION: crash (signal %s)\n", s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : "other"); finish(12); }
__attribute__((destructor)) static void onExit() { dying("exit"); }
static void onAlarm(int) { out("REPLAY-VIOLATION: does not terminate%s\n", ""); finish(14); }
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr; if (!f) { fprintf(stderr, "usage: replay INPUTS [OBS]\n"); return 2; }
  char nm[256]; unsigned n; while (fscanf(f, "%255s %u", nm, &n) == 2) { In i; i.name = nm; for (unsigned k = 0; k < n; k++) { unsigned b = 0; if (fscanf(f, "%2x", &b) != 1) break; i.b.push_back(b); } ins.push_back(i); } fclose(f);
  if (argc > 2) obsF = fopen(argv[2], "w");
  signal(SIGABRT, onSig); if (!getenv("REPLAY_ASAN")) { signal(SIGSEGV, onSig); signal(SIGFPE, onSig); signal(SIGBUS, onSig); } signal(SIGALRM, onAlarm); alarm(60);
  sym_main(); done = true; finish(0);
}
