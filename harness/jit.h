// Compiling and linking as seen by the JIT.  In the engine the compiler is a stand-in: the source it
// is given is kept, the dynamic linker hands out a library it has already opened under the same
// name, and the function looked up is an interpreter of the generated C++ (statements if/else,
// return; comparisons of an element of the argument with a literal).  In the native replay the real
// compiler and linker run.
#pragma once
#include "common.h"
static std::string jit_flat(const std::string &s) { std::string r; for (char c : s) r.push_back(c == '\t' || c == '\n' || c == '\r' ? ' ' : c); return r; }
#ifdef SYM_ENGINE
#include <dlfcn.h>
struct JitLib { std::string path, src; };
static std::map<std::string, std::string> *jit_files; static std::vector<JitLib> *jit_open;
static std::map<std::string, std::string> &jitf() { if (!jit_files) jit_files = new std::map<std::string, std::string>; return *jit_files; }
static std::vector<JitLib> &jito() { if (!jit_open) jit_open = new std::vector<JitLib>; return *jit_open; }
extern "C" int system(const char *cmd) {
  std::string c = cmd, src; size_t h = c.find("<<"); std::string head = c.substr(0, h == std::string::npos ? c.size() : h);
  if (h != std::string::npos) { size_t e = c.find('\n', h), b = h + 2; while (c[b] == ' ' || c[b] == '-' || c[b] == '\'' || c[b] == '"') b++; size_t t = b; while (t < e && isalnum((unsigned char)c[t])) t++; std::string tag = c.substr(b, t - b); size_t z = c.rfind("\n" + tag); src = c.substr(e + 1, z - e); }
  std::vector<std::string> w; std::string cur; for (char x : head + " ") { if (x == ' ' || x == '\n') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(x); }
  std::string out; for (size_t i = 0; i < w.size(); i++) { if (w[i] == "-o" && i + 1 < w.size()) out = w[i + 1]; if (h == std::string::npos && w[i].size() > 4 && w[i].substr(w[i].size() - 4) == ".cpp") { std::ifstream f(w[i]); std::string l; while (std::getline(f, l)) src += l + "\n"; } }
  if (out.empty() || src.empty()) sym_incomplete("compiler command not understood");
  jitf()[out] = src; return 0;
}
// characters of the flattened source, one token at a time
struct JitEval { const std::string &s; size_t i; const std::vector<float> &f; int result; bool done;
  void ws() { while (i < s.size() && s[i] == ' ') i++; }
  bool eat(const char *t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t) != 0) return false; i += n; return true; }
  void need(const char *t) { if (!eat(t)) { sym_incomplete("generated source not understood"); sym_end(); } }
  long integer() { ws(); char *e; long v = strtol(s.c_str() + i, &e, 10); if (e == s.c_str() + i) { sym_incomplete("generated source not understood"); sym_end(); } i = e - s.c_str(); return v; }
  // comparison of a float with a literal: the literal has type double, or float with suffix or cast
  int less() { bool cast = eat("(float)") || eat("float("); ws(); size_t b = i; char *e; double d = strtod(s.c_str() + i, &e); float g = 0; bool fl = cast; i = e - s.c_str(); if (i == b) { sym_incomplete("generated source not understood"); sym_end(); }
    if (i < s.size() && (s[i] == 'f' || s[i] == 'F')) { fl = true; i++; g = strtof(s.c_str() + b, nullptr); } else if (cast) { g = (float)d; eat(")"); }
    return fl ? (int)(cur < g) : (int)((double)cur < d); }
  float cur;
  void block(bool live) { need("{"); while (!eat("}")) stmt(live); }
  void stmt(bool live) {
    if (eat("if")) { need("("); need("features["); long k = integer(); need("]"); if (k < 0 || k >= (long)f.size()) { if (live) sym_fail("the generated code reads a feature that does not exist"); sym_end(); } bool le = false; need("<"); if (eat("=")) le = true; cur = f[k]; int c; { size_t b = i; c = less(); if (le) { size_t e = i; i = b; bool cast = eat("(float)"); (void)cast; ws(); double d = strtod(s.c_str() + i, nullptr); c |= (int)((double)cur == d); i = e; } } need(")");
      bool t = live && c, o = live && !t; if (!live) t = o = false; ws(); if (s[i] == '{') block(t); else stmt(t); if (done) return; if (eat("else")) { ws(); if (s[i] == '{') block(o && !done); else stmt(o && !done); } return; }
    if (eat("return")) { long v = integer(); need(";"); if (live && !done) { result = (int)v; done = true; } return; }
    sym_incomplete("generated source not understood"); sym_end();
  } };
static int jit_run(int h, const std::vector<float> &f) {
  static std::map<int, std::string> *flat; if (!flat) flat = new std::map<int, std::string>; auto it = flat->find(h); if (it == flat->end()) it = flat->emplace(h, jit_flat(jito()[h].src)).first;
  const std::string &s = it->second; size_t p = s.find("features)"); if (p == std::string::npos) { sym_incomplete("generated source not understood"); sym_end(); }
  JitEval e{s, p + 9, f, -1, false}; e.need("{"); while (!e.done && !e.eat("}")) e.stmt(true); if (!e.done) sym_fail("the generated function ends without a result"); return e.result; }
#define JITF(n) static int jit_f##n(const std::vector<float> &f) { return jit_run(n, f); }
JITF(0) JITF(1) JITF(2) JITF(3) JITF(4) JITF(5) JITF(6) JITF(7)
typedef int (*JitFn)(const std::vector<float> &);
extern "C" void *dlopen(const char *path, int) noexcept { for (size_t i = 0; i < jito().size(); i++) if (jito()[i].path == path) return (void *)(i + 1); auto it = jitf().find(path); if (it == jitf().end()) return nullptr; jito().push_back(JitLib{path, it->second}); return (void *)jito().size(); }
extern "C" int dlclose(void *h) noexcept { size_t i = (size_t)h - 1; if (i < jito().size()) jito()[i].path = ""; return 0; }
extern "C" char *dlerror() noexcept { static char e[] = "error"; return e; }
extern "C" void *dlsym(void *h, const char *name) noexcept {
  static const JitFn fs[] = {jit_f0, jit_f1, jit_f2, jit_f3, jit_f4, jit_f5, jit_f6, jit_f7}; size_t i = (size_t)h - 1; if (i >= jito().size() || i >= 8) { sym_incomplete("more libraries than the stand-in linker has"); return nullptr; }
  if (jito()[i].src.find(std::string("int ") + name + "(") == std::string::npos) return nullptr; return (void *)fs[i]; }
#endif
