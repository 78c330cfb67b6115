// Models of library functions: allocation, exceptions, byte strings, number formatting and the
// harness interface (sym_*).  Everything else is either interpreted from bitcode or called natively.
#define H(nm) static Act nm(CallCtx &cc)
static Act callRt(CallCtx &cc) { if (!cc.ct || !cc.ct->rt) fatal("no model for " + (cc.ct ? cc.ct->name : std::string("?"))); cc.callF = cc.ct->rt; cc.callArgs = cc.args; return A_CALL; }
static Act goNative(CallCtx &cc) {
  static std::unordered_map<std::string, u64> cache; const std::string &n = cc.ct->name; auto it = cache.find(n);
  if (it == cache.end()) { u64 a = (u64)dlsym(RTLD_DEFAULT, n.c_str()); it = cache.emplace(n, a).first; }
  if (!it->second) fatal("no native " + n); return nativeCall(it->second, cc, cc.di->fty, n);
}
static std::string cstrAt(u64 p) { checkMem(p, 1, "string read"); std::string s; while (*(char *)p) { s += *(char *)p; p++; if (inArena(p)) { uint32_t id = gran[(p - ARENA) >> 4]; if (!id || p >= objs[id].base + objs[id].size) break; } } return s; }
// ---- allocation
static u64 allocSz(CallCtx &cc, int i) { return concretizeVal(cc.args[i], "allocation size"); }
[[noreturn]] static void allocTooBig(u64 n) { abnormal("allocation of " + std::to_string(n) + " bytes (std::bad_alloc)"); exit(3); }
H(h_malloc) { u64 n = allocSz(cc, 0); cc.ret = Val(heapAlloc(n, OK_HEAP)); return A_RET; }
H(h_calloc) { u64 n = allocSz(cc, 0) * allocSz(cc, 1); u64 p = heapAlloc(n, OK_HEAP); if (p) memset((void *)p, 0, n); cc.ret = Val(p); return A_RET; }
H(h_realloc) { u64 o = cc.args[0].c, n = allocSz(cc, 1); u64 p = heapAlloc(n, OK_HEAP); if (o) { uint32_t id = gran[(o - ARENA) >> 4]; copyMem(p, o, std::min<u64>(n, objs[id].size)); heapFree(o, OK_HEAP, false); } cc.ret = Val(p); return A_RET; }
H(h_free) { heapFree(cc.args[0].c, OK_HEAP, false); return A_RET; }
H(h_memalign) { allocSz(cc, 0); u64 n = allocSz(cc, 1); cc.ret = Val(heapAlloc(n, OK_HEAP, cc.args[0].c)); return A_RET; }
static Act throwNamed(const char *sym, CallCtx &cc) { u64 a = (u64)dlsym(RTLD_DEFAULT, sym); std::vector<Val> none; CallCtx c2{none, Val(), cc.di, cc.ct}; auto *ft = FunctionType::get(Type::getVoidTy(LC), false); DInst d0; d0.op = 0; DInst *sv = c2.di; (void)sv; return nativeCall(a, c2, ft, sym); }
H(h_new) { u64 n = allocSz(cc, 0); u64 p = heapAlloc(n, OK_NEW); if (!p) return throwNamed("_ZSt17__throw_bad_allocv", cc); cc.ret = Val(p); return A_RET; }
H(h_newarr) { u64 n = allocSz(cc, 0); u64 p = heapAlloc(n, OK_NEWARR); if (!p) return throwNamed("_ZSt17__throw_bad_allocv", cc); cc.ret = Val(p); return A_RET; }
H(h_newal) { u64 n = allocSz(cc, 0); u64 p = heapAlloc(n, OK_NEW, cc.args[1].c); if (!p) return throwNamed("_ZSt17__throw_bad_allocv", cc); cc.ret = Val(p); return A_RET; }
H(h_delete) { heapFree(cc.args[0].c, OK_NEW, false); return A_RET; }
H(h_deletearr) { heapFree(cc.args[0].c, OK_NEWARR, false); return A_RET; }
// ---- exceptions
H(h_allocexc) { u64 n = allocSz(cc, 0); cc.ret = Val(heapAlloc(n + 16, OK_HEAP)); return A_RET; }
H(h_freeexc) { heapFree(cc.args[0].c, -1, true); return A_RET; }
H(h_throw) { u64 o = cc.args[0].c; excs[o] = Exc{o, cc.args[1].c, cc.args[2].c, 0, false}; curExc = o; return A_UNWIND; }
H(h_begincatch) { u64 o = cc.args[0].c; auto it = excs.find(o); if (it == excs.end()) { cc.ret = Val(o); return A_RET; } it->second.handlers++; u64 adj = adjusted.count(o) ? adjusted[o] : o; caught.push_back({o, adj}); cc.ret = Val(adj); return A_RET; }
H(h_endcatch) {
  if (caught.empty()) return A_RET; u64 o = caught.back().first; caught.pop_back(); Exc &e = excs[o];
  if (--e.handlers <= 0 && e.handlers > -1000) { if (!e.native) { if (e.dtor) { auto it = funcByAddr.find(e.dtor); if (it != funcByAddr.end() && targetOf(it->second)->kind == CallTarget::INTERP) { runNested(targetOf(it->second)->fi, {Val(o)}); } else { inNative = true; ((void (*)(void *))e.dtor)((void *)o); inNative = false; } } heapFree(o, -1, true); } excs.erase(o); }
  return A_RET; }
H(h_rethrow) { if (caught.empty()) abnormal("rethrow without exception"); u64 o = caught.back().first; excs[o].handlers -= 0; curExc = o; return A_UNWIND; }
H(h_getexcptr) { u64 o = cc.args[0].c; cc.ret = Val(adjusted.count(o) ? adjusted[o] : o); return A_RET; }
H(h_terminate) { abnormal("std::terminate"); return A_RET; }
H(h_purevirt) { abnormal("pure virtual call"); return A_RET; }
H(h_guardacq) { cc.ret = Val(*(char *)cc.args[0].c ? 0 : 1); return A_RET; }
H(h_guardrel) { *(char *)cc.args[0].c = 1; return A_RET; }
H(h_nop) { cc.ret = Val(0); return A_RET; }
struct AtE { u64 fn, arg; }; static std::vector<AtE> atexits;
H(h_cxaatexit) { atexits.push_back({cc.args[0].c, cc.args[1].c}); cc.ret = Val(0); return A_RET; }
H(h_atexit) { atexits.push_back({cc.args[0].c, 0}); cc.ret = Val(0); return A_RET; }
static void runAtexit() {
  while (!atexits.empty()) { AtE e = atexits.back(); atexits.pop_back(); auto it = funcByAddr.find(e.fn); if (it == funcByAddr.end()) continue; CallTarget *t = targetOf(it->second); if (t->kind == CallTarget::INTERP) runNested(t->fi, {Val(e.arg)}); }
}
H(h_runatexit) { runAtexit(); return A_RET; }
H(h_abort) { abnormal("abort()"); return A_RET; }
H(h_exit) { abnormal("exit(" + std::to_string((int)cc.args[0].c) + ")"); return A_RET; }
H(h_assertfail) { abnormal("assertion failed: " + cstrAt(cc.args[0].c)); return A_RET; }
H(h_errno) { cc.ret = Val(errnoAddr); return A_RET; }
// ---- byte strings
H(h_memcpy) { concretizeVal(cc.args[2], "memcpy length"); u64 n = cc.args[2].c; if (n) { checkMem(cc.args[1].c, n, "memcpy read"); checkMem(cc.args[0].c, n, "memcpy write"); copyMem(cc.args[0].c, cc.args[1].c, n); } cc.ret = cc.args[0]; return A_RET; }
H(h_memset) { concretizeVal(cc.args[2], "memset length"); u64 n = cc.args[2].c, p = cc.args[0].c; if (n) { checkMem(p, n, "memset write"); memset((void *)p, (int)cc.args[1].c, n); clearSym(p, n); if (cc.args[1].e) for (u64 i = 0; i < n; i++) setSymBytes(p + i, X.ext(cc.args[1].e, 0, 8), 1); } cc.ret = cc.args[0]; return A_RET; }
H(h_memcmp) { concretizeVal(cc.args[2], "memcmp length"); u64 n = cc.args[2].c; if (!n) { cc.ret = Val(0); return A_RET; } checkMem(cc.args[0].c, n, "memcmp read"); checkMem(cc.args[1].c, n, "memcmp read"); if (anySym(cc.args[0].c, n) || anySym(cc.args[1].c, n)) return callRt(cc); int r = memcmp((void *)cc.args[0].c, (void *)cc.args[1].c, n); cc.ret = Val((uint32_t)r); return A_RET; }
// end of the readable object containing p (for concrete scans)
static u64 objEnd(u64 p) { if (!inArena(p)) return ~0ull; uint32_t id = gran[(p - ARENA) >> 4]; checkMem(p, 1, "string read"); return objs[id].base + objs[id].size; }
static bool symString(u64 p) { u64 e = objEnd(p); for (u64 q = p; q < e; q++) { if (inArena(q) ? symf[q - ARENA] : (outsideSym && shadow.count(q))) return true; if (!*(char *)q) return false; } memViolation("out-of-bounds", e, 1, "string read"); return false; }
H(h_strlen) { if (symString(cc.args[0].c)) return callRt(cc); cc.ret = Val(strlen((char *)cc.args[0].c)); return A_RET; }
H(h_strcmp) { if (symString(cc.args[0].c) || symString(cc.args[1].c)) return callRt(cc); cc.ret = Val((uint32_t)strcmp((char *)cc.args[0].c, (char *)cc.args[1].c)); return A_RET; }
H(h_strncmp) { return callRt(cc); }
H(h_strrt) { return callRt(cc); }
H(h_memchr) { concretizeVal(cc.args[2], "memchr length"); u64 n = cc.args[2].c, p = cc.args[0].c; if (n) checkMem(p, n, "memchr read"); if (cc.args[1].e || (n && anySym(p, n))) return callRt(cc); cc.ret = Val(n ? (u64)memchr((void *)p, (int)cc.args[1].c, n) : 0); return A_RET; }
H(h_hashbytes) { cc.ret = Val(0); return A_RET; }
H(h_getval) { static uint32_t x = 12345; x = x * 1664525u + 1013904223u; cc.ret = Val(x); return A_RET; }
H(h_ctype) { if (cc.args[0].e) return callRt(cc); return goNative(cc); }
// ---- numbers as text: symbolic numbers travel through text as tokens  @<id>@
struct Tok { Expr *e; int kind; int prec; bool scientificDefault; }; // kind 0 int (signed, width of e), 1 uint, 2 double
static std::vector<Tok> toks;
static std::string tokText(Expr *e, int kind, int prec, bool def) { toks.push_back({e, kind, prec, def}); return "@" + std::to_string(toks.size() - 1) + "@"; }
static bool isConsole(u64 os) { return os == (u64)&std::cout || os == (u64)&std::cerr || os == (u64)&std::clog; }
static Act putText(CallCtx &cc, const std::string &s) { std::ostream *os = (std::ostream *)cc.args[0].c; os->width(0); inNative = true; os->write(s.data(), s.size()); inNative = false; scratchUsed = true; cc.ret = Val(cc.args[0].c); return A_RET; }
static Act putFP(CallCtx &cc, bool isF) {
  Val v = cc.args[1]; if (isConsole(cc.args[0].c)) { cc.ret = Val(cc.args[0].c); return A_RET; } if (!v.e) return goNative(cc);
  std::ostream *os = (std::ostream *)cc.args[0].c; auto fl = os->flags() & std::ios::floatfield; int prec = os->precision();
  bool gen = fl == std::ios_base::fmtflags(0), sci = fl == std::ios::scientific; int digits = gen ? (prec == 0 ? 1 : prec) : sci ? prec + 1 : 0; // fixed: no significant-digit guarantee
  if (fl == (std::ios::fixed | std::ios::scientific)) digits = 100; // hexfloat is exact
  Expr *e = isF ? X.un(O_FPEXT, v.e, 64) : v.e;
  return putText(cc, tokText(e, 2, digits, gen || sci)); }
H(h_putd) { return putFP(cc, false); }
H(h_putf) { return putFP(cc, true); }
// feasible values of e without forking, up to lim
static std::unordered_set<Expr *> largeDomain;
static bool smallDomain0(Expr *e, int lim);
static bool smallDomain(Expr *e, int lim) { if (largeDomain.count(e)) return false; if (smallDomain0(e, lim)) return true; largeDomain.insert(e); return false; }
static bool smallDomain0(Expr *e, int lim) { std::vector<Expr *> ex; u64 c = X.eval(e); for (int i = 0; i < lim; i++) { ex.push_back(X.Not(X.Eq(e, X.K(c, e->w)))); std::vector<u64> m; Sat r = checkSat(ex, m); if (r == UNSAT) return true; if (r != SAT) return false; uint64_t ep = ++scratchEpoch; c = X.evalM(e, m, ep); } return false; }
static Act putInt(CallCtx &cc, int kind) {
  if (isConsole(cc.args[0].c)) { cc.ret = Val(cc.args[0].c); return A_RET; } if (!cc.args[1].e) return goNative(cc);
  if (smallDomain(cc.args[1].e, 12)) { concretizeVal(cc.args[1], "printed integer"); return goNative(cc); }
  return putText(cc, tokText(cc.args[1].e, kind, 100, false)); }
H(h_puti) { return putInt(cc, 0); }
H(h_putu) { return putInt(cc, 1); }
H(h_putstr) { // ostream << char* / string / char with symbolic content
  if (isConsole(cc.args[0].c)) { cc.ret = Val(cc.args[0].c); return A_RET; } return goNative(cc); }
// Parsing of a token.  Returns the id or -1; end receives the address after it.
static int tokenAt(u64 p, u64 &end) {
  u64 lim = objEnd(p); u64 q = p; while (q < lim && !(inArena(q) && symf[q - ARENA]) && isspace(*(unsigned char *)q)) q++;
  bool neg = false; (void)neg; if (q >= lim || *(char *)q != '@') return -1; q++; int id = 0; bool any = false; while (q < lim && isdigit(*(char *)q)) { id = id * 10 + *(char *)q - '0'; q++; any = true; }
  if (!any || q >= lim || *(char *)q != '@' || id >= (int)toks.size()) return -1; end = q + 1; return id;
}
static Expr *isDenorm(Expr *e) { u64 m = e->w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, mag = maskw(e->w) >> 1; return X.And(X.Eq(X.bin(O_AND, e, X.K(m, e->w)), X.K(0, e->w)), X.Not(X.Eq(X.bin(O_AND, e, X.K(mag, e->w)), X.K(0, e->w)))); }
static std::vector<double> nasty() { return {1000.00006103515625, 1000.0000000000001, 1000.0000305175781, -1000.00006103515625, 1000000.0000000001, 0.1, 1.0 / 3, 16777217.0, 123456.789, 1.0000001, 0.30000001192092896, 1234567.0, 33554431.0, 3.3333333e-5, 9.87654321e10, 7.0000005, 2147483.75, 100.00001, 1e-7 / 3, 65537.0, 1000001.0, 5.5555553436279297, 1.23456789012345678, 0.7, 1e6 + 0.5, 2.0 / 3, 2.5, 0.5, 3.0, 1.5}; }
// value of a token read back as a w-bit float (32/64)
static Val tokAsFP(int id, unsigned w) {
  Tok &t = toks[id];
  if (t.kind != 2) { Expr *e = X.un(t.kind == 0 ? O_SITOFP : O_UITOFP, t.e, w); return mkv(e); }
  Expr *src = t.e; Expr *asF = nullptr; if (src->op == O_FPEXT) asF = src->a;
  Expr *exact = nullptr;
  if (w == 32 && asF && t.prec >= 9) exact = asF; else if (w == 64 && t.prec >= 17) exact = src; else if (w == 32 && !asF && t.prec >= 17) exact = X.un(O_FPTRUNC, src, 32);
  if (exact) { if (exact->op == O_CONST) return Val(exact->k); // a denormal sets errno (as a symbolic value: only code that looks at errno branches on it)
    Expr *dn = isDenorm(exact); Val cur = loadInt(errnoAddr, 4, 32); Expr *ne = X.ite(dn, X.K(ERANGE, 32), EX(cur, 32)); storeInt(errnoAddr, 4, ne->op == O_CONST ? Val(ne->k) : Val(X.eval(ne), ne), 32); return Val(X.eval(exact), exact); }
  // lossy text: look for a value of the source that does not survive, continue with that one; else with the current one
  auto through = [&](u64 sv) -> u64 { double d = bd(sv); char b[128]; snprintf(b, sizeof b, "%.*g", t.prec > 0 ? t.prec : 6, d); return w == 32 ? fb(strtof(b, 0)) : db(strtod(b, 0)); };
  auto same = [&](u64 sv) { u64 r = through(sv); return w == 32 ? r == fb((float)bd(sv)) : r == sv; };
  noteIncomplete("number written with " + std::to_string(t.prec) + " digits and read back: followed for one value only");
  std::vector<u64> m; bool pinned = false;
  for (double d : nasty()) { if (asF) d = (double)(float)d; u64 k = db(d); if (same(k)) continue; Expr *eq = X.Eq(asF ? asF : src, asF ? X.K(fb((float)d), 32) : X.K(k, 64)); if (checkSat({eq}, m) == SAT) { PC.push_back(eq); setModel(m); pinned = true; break; } }
  if (!pinned) pinTo(src);
  return Val(through(X.eval(src)));
}
static Val tokAsInt(int id, unsigned w, bool sg) {
  Tok &t = toks[id]; if (t.kind == 2) { noteIncomplete("floating-point text read as integer"); double d = bd(X.eval(t.e)); pinTo(t.e); char b[64]; snprintf(b, 64, "%.*g", t.prec ? t.prec : 6, d); return Val((u64)strtol(b, 0, 10)); }
  Expr *e = t.kind == 0 ? X.sext(t.e, 64) : X.zext(t.e, 64); if (t.e->w > 64) e = t.e; return mkv(X.ext(e, 0, w)); }
static void storeEnd(CallCtx &cc, size_t i, u64 end) { if (cc.args.size() > i && cc.args[i].c) { checkMem(cc.args[i].c, 8, "write"); storeInt(cc.args[i].c, 8, Val(end), 64); } }
static Act strtoFP(CallCtx &cc, unsigned w) { u64 p = cc.args[0].c, end; int id = tokenAt(p, end); if (id >= 0) { Val v = tokAsFP(id, w); storeEnd(cc, 1, end); cc.ret = v; return A_RET; } if (symString(p)) return callRt(cc); return goNative(cc); }
static Act strtoInt(CallCtx &cc, bool sg) { u64 p = cc.args[0].c, end; int id = tokenAt(p, end); if (id >= 0) { Val v = tokAsInt(id, 64, sg); storeEnd(cc, 1, end); cc.ret = v; return A_RET; } if (symString(p)) return callRt(cc); return goNative(cc); }
H(h_strtod) { return strtoFP(cc, 64); }
H(h_strtof) { return strtoFP(cc, 32); }
H(h_strtol) { return strtoInt(cc, true); }
H(h_strtoul) { return strtoInt(cc, false); }
H(h_atoi) { u64 p = cc.args[0].c, end; int id = tokenAt(p, end); if (id >= 0) { cc.ret = tokAsInt(id, 32, true); return A_RET; } if (symString(p)) return callRt(cc); return goNative(cc); }
H(h_atof) { u64 p = cc.args[0].c, end; int id = tokenAt(p, end); if (id >= 0) { cc.ret = tokAsFP(id, 64); return A_RET; } if (symString(p)) return callRt(cc); return goNative(cc); }
// std::to_string of a symbolic number: small domains are enumerated
H(h_tostring) {
  if (cc.args[1].e && !smallDomain(cc.args[1].e, 12)) { u64 p = cc.args[0].c; checkMem(p, 32, "write"); bool sg = cc.ct->name.back() == 'i' || cc.ct->name.back() == 'l'; std::string t = tokText(cc.args[1].e, sg ? 0 : 1, 100, false); clearSym(p, 32); *(u64 *)p = p + 16; *(u64 *)(p + 8) = t.size(); memcpy((void *)(p + 16), t.c_str(), t.size() + 1); return A_RET; }
  if (cc.args[1].e) concretizeVal(cc.args[1], "std::to_string"); cc.callF = infoOf(cc.ct->F); cc.callArgs = cc.args; return A_CALL; }
// ---- input streams
struct SBHack : std::streambuf { char *b() { return eback(); } char *g() { return gptr(); } char *e() { return egptr(); } };
static bool symStream(u64 is) { std::istream *s = (std::istream *)is; SBHack *b = (SBHack *)s->rdbuf(); if (!b) return false; u64 g = (u64)b->g(), e = (u64)b->e(); return g && e > g && anySym(g, e - g); }
H(h_istream) { // unformatted/formatted input on a stream whose buffer may hold symbolic bytes
  if (symStream(cc.args[0].c)) { if (cc.ct->rt) return callRt(cc); SBHack *b = (SBHack *)((std::istream *)cc.args[0].c)->rdbuf(); noteIncomplete("symbolic input consumed by native " + demangle(cc.ct->name)); for (u64 a = (u64)b->g(); a < (u64)b->e(); a++) if (anySym(a, 1)) { pinTo(byteExpr(a)); clearSym(a, 1); } }
  if (cc.ct->name.compare(0, 11, "_ZSt7getline", 11) == 0) { std::string *o = (std::string *)cc.args[1].c; clearSym((u64)o->data(), o->capacity() + 1); } // overwritten
  return goNative(cc); }
// Binary files: words with symbolic bytes are written as recognisable 8-byte (or, at the end, 4-byte)
// tokens and become the same expressions again where they are read.
struct BTok { Expr *e; unsigned k; }; static std::vector<BTok> btoks; static const unsigned char BM[4] = {0xC3, 0xA7, 0x5E, 0x91};
H(h_write) { u64 p = cc.args[1].c, n = concretizeVal(cc.args[2], "size written"); if (isConsole(cc.args[0].c) || !n) return goNative(cc); checkMem(p, n, "file write"); if (!anySym(p, n)) return goNative(cc);
  std::string t((char *)p, n);
  for (u64 i = 0; i < n; i += 8) { unsigned k = n - i >= 8 ? 8 : n - i; if (!anySym(p + i, k)) continue; if (k != 8 && k != 4) { noteIncomplete("symbolic bytes in a binary file"); for (u64 a = p + i; a < p + i + k; a++) if (anySym(a, 1)) pinTo(byteExpr(a)); continue; }
    BTok b{loadExpr(p + i, k), k}; uint32_t id = btoks.size(); btoks.push_back(b); memcpy(&t[i], BM, k / 2); if (k == 8) memcpy(&t[i + 4], &id, 4); else { uint16_t s = id; memcpy(&t[i + 2], &s, 2); } }
  std::ostream *os = (std::ostream *)cc.args[0].c; inNative = true; os->write(t.data(), n); inNative = false; scratchUsed = true; cc.ret = Val(cc.args[0].c); return A_RET; }
static void binTokens(u64 p, u64 n) { for (u64 i = 0; i + 4 <= n; ) { unsigned k = 0; uint32_t id = 0; if (i + 8 <= n && !memcmp((void *)(p + i), BM, 4)) { memcpy(&id, (void *)(p + i + 4), 4); if (id < btoks.size() && btoks[id].k == 8) k = 8; } else if (i + 4 == n && !memcmp((void *)(p + i), BM, 2)) { uint16_t s; memcpy(&s, (void *)(p + i + 2), 2); id = s; if (id < btoks.size() && btoks[id].k == 4) k = 4; }
    if (!k) { i++; continue; } Expr *e = btoks[id].e; u64 c = X.eval(e); memcpy((void *)(p + i), &c, k); setSymBytes(p + i, e, k); i += k; } }
H(h_read) { if (symStream(cc.args[0].c)) return h_istream(cc); u64 p = cc.args[1].c, n = concretizeVal(cc.args[2], "size read"); if (!n) return goNative(cc); checkMem(p, n, "file read");
  std::istream *s = (std::istream *)cc.args[0].c; std::vector<char> t(n); inNative = true; s->read(t.data(), n); u64 g = s->gcount(); inNative = false; clearSym(p, g); memcpy((void *)p, t.data(), g); if (!btoks.empty()) binTokens(p, g); scratchUsed = true; cc.ret = Val(cc.args[0].c); return A_RET; }
H(h_putcstr) { u64 os = cc.args[0].c; if (os != (u64)&std::cout && os != (u64)&std::cerr && os != (u64)&std::clog && cc.args[1].c > 65536 && symString(cc.args[1].c)) return callRt(cc); return goNative(cc); }
static Act extract(CallCtx &cc, int what) { // what: 0 double 1 float 2 int32 3 uint32 4 int64 5 uint64
  if (symStream(cc.args[0].c)) return h_istream(cc);
  std::istream *s = (std::istream *)cc.args[0].c; inNative = true; if (s->good()) { *s >> std::ws; } int c = s->good() ? s->peek() : EOF; inNative = false;
  if (c != '@') return goNative(cc);
  inNative = true; s->get(); int id = 0; while (isdigit(s->peek())) id = id * 10 + s->get() - '0'; s->get(); inNative = false; if (id >= (int)toks.size()) fatal("bad token");
  static const unsigned W[] = {64, 32, 32, 32, 64, 64}; Val v = what < 2 ? tokAsFP(id, W[what]) : tokAsInt(id, W[what], what == 2 || what == 4); checkMem(cc.args[1].c, W[what] / 8, "write"); storeInt(cc.args[1].c, W[what] / 8, v, W[what]); cc.ret = Val(cc.args[0].c); return A_RET; }
H(h_exd) { return extract(cc, 0); }
H(h_exf) { return extract(cc, 1); }
H(h_exi) { return extract(cc, 2); }
H(h_exj) { return extract(cc, 3); }
H(h_exl) { return extract(cc, 4); }
H(h_exm) { return extract(cc, 5); }
// ---- libm with symbolic arguments: an uninterpreted function (same argument, same result) with the
// facts below; a model that needs other values than the library gives is not reproduced natively
struct UF { std::string fn; std::vector<Expr *> args; uint32_t var; Expr *v; double (*f1)(double); double (*f2)(double, double); };
static std::vector<UF> ufs;
static u64 ufValue(const UF &u, const std::vector<u64> &m) { double a[2]; for (size_t i = 0; i < u.args.size(); i++) { uint64_t ep = ++scratchEpoch; a[i] = bd(X.evalM(u.args[i], m, ep)); } return db(u.f1 ? u.f1(a[0]) : u.f2(a[0], a[1])); }
// the model with the library's own values of these functions
static bool ufGenuine(std::vector<u64> &m) { bool same = true; for (auto &u : ufs) { u64 v = ufValue(u, m); if (u.var < m.size() && m[u.var] != v) { m[u.var] = v; same = false; } } return same; }
H(h_libm) {
  bool sy = false; for (auto &a : cc.args) sy |= a.e != nullptr; if (!sy) return goNative(cc); const std::string &n = cc.ct->name; void *fp = dlsym(RTLD_DEFAULT, n.c_str());
  if (n == "pow" && !cc.args[1].e && cc.args[1].c == db(2.0)) { Expr *x = cc.args[0].e; cc.ret = Val(db(bd(cc.args[0].c) * bd(cc.args[0].c)), X.bin(O_FMUL, x, x)); return A_RET; } // as the compiler does
  if (n.back() == 'f' || !fp || cc.args.size() > 2) { noteIncomplete("libm function " + n + " of a symbolic value: followed for one value only"); for (auto &a : cc.args) if (a.e) { pinTo(a.e); a.c = X.eval(a.e); a.e = nullptr; } return goNative(cc); }
  UF u; u.fn = n; for (auto &a : cc.args) u.args.push_back(EX(a, 64)); u.f1 = cc.args.size() == 1 ? (double (*)(double))fp : nullptr; u.f2 = cc.args.size() == 2 ? (double (*)(double, double))fp : nullptr;
  for (auto &o : ufs) if (o.fn == n && o.args == u.args) { cc.ret = Val(X.eval(o.v), o.v); return A_RET; }
  u64 c = ufValue(u, X.model); Expr *v = X.var(n, 64, c); u.var = X.vars.size() - 1; u.v = v; Expr *x = u.args[0], *zero = X.K(0, 64), *one = X.K(db(1.0), 64); auto imp = [&](Expr *a, Expr *b) { PC.push_back(X.Or(X.Not(a), b)); };
  for (auto &o : ufs) if (o.fn == n && ufs.size() < 24) { Expr *eq = X.K(1, 1); for (size_t i = 0; i < u.args.size(); i++) eq = X.And(eq, X.Eq(o.args[i], u.args[i])); if (!(eq->op == O_CONST && !eq->k)) imp(eq, X.Eq(v, o.v)); }
  if (n == "exp") { PC.push_back(X.Eq(X.bin(O_FUNO, v, v), X.bin(O_FUNO, x, x))); imp(X.Not(X.bin(O_FUNO, x, x)), X.bin(O_FLE, zero, v)); long double lo, hi; Expr *neg = X.bin(O_FLE, x, zero); if (fpRange(x, lo, hi) && hi <= 0) { PC.push_back(X.bin(O_FLE, zero, v)); PC.push_back(X.bin(O_FLE, v, one)); } else imp(neg, X.bin(O_FLE, v, one)); imp(X.bin(O_FLE, zero, x), X.bin(O_FLE, one, v)); imp(X.bin(O_FEQ, x, zero), X.bin(O_FEQ, v, one)); }
  ufs.push_back(u); ufFix = ufGenuine; cc.ret = Val(c, v); return A_RET; }
static Act rnd(CallCtx &cc, u64 k, unsigned w) { Val a = cc.args[0]; u64 c = evalOp(O_FRND, w, w, k, a.c, 0, 0); cc.ret = a.e ? Val(c, X.un(O_FRND, a.e, w, k)) : Val(c); return A_RET; }
H(h_floor) { return rnd(cc, 0, 64); } H(h_floorf) { return rnd(cc, 0, 32); } H(h_ceil) { return rnd(cc, 1, 64); } H(h_ceilf) { return rnd(cc, 1, 32); } H(h_trunc) { return rnd(cc, 2, 64); }
H(h_sqrt) { Val a = cc.args[0]; u64 c = evalOp(O_FSQRT, 64, 64, 0, a.c, 0, 0); cc.ret = a.e ? Val(c, X.un(O_FSQRT, a.e, 64)) : Val(c); return A_RET; }
H(h_sqrtf) { Val a = cc.args[0]; u64 c = evalOp(O_FSQRT, 32, 32, 0, a.c, 0, 0); cc.ret = a.e ? Val(c, X.un(O_FSQRT, a.e, 32)) : Val(c); return A_RET; }
// ---- environment
static std::map<std::string, u64> symEnv;
H(h_getenv) { std::string n = cstrAt(cc.args[0].c); auto it = symEnv.find(n); if (it != symEnv.end()) { cc.ret = Val(it->second); return A_RET; } return goNative(cc); }
// ---- harness interface
static std::string uniq(const std::string &n) { return n.empty() ? "x" : n; }
H(h_symmake) {
  u64 p = cc.args[0].c, n = concretizeVal(cc.args[1], "sym_make size"); std::string nm = uniq(cstrAt(cc.args[2].c)); checkMem(p, n, "sym_make");
  InputRec r; r.name = nm; r.n = n; clearSym(p, n);
  if (n == 1 || n == 2 || n == 4 || n == 8) { Expr *v = X.var(nm, n * 8, 0); r.vars.push_back(X.vars.size() - 1); memset((void *)p, 0, n); setSymBytes(p, v, n); }
  else for (u64 i = 0; i < n; i++) { Expr *v = X.var(nm + "[" + std::to_string(i) + "]", 8, 0); r.vars.push_back(X.vars.size() - 1); *(char *)(p + i) = 0; setSymBytes(p + i, v, 1); }
  inputs.push_back(r); return A_RET; }
static Expr *condOf(Val &v) { unsigned w = v.e->w; return w == 1 ? v.e : X.Not(X.Eq(v.e, X.K(0, w))); }
H(h_symassume) {
  Val v = cc.args[0]; if (!v.e) { if (!v.c) endPath("infeasible"); return A_RET; }
  Expr *c = condOf(v); if (c->op == O_CONST) { if (!c->k) endPath("infeasible"); return A_RET; }
  if (X.eval(c)) { PC.push_back(c); return A_RET; }
  std::vector<u64> m; Sat r = checkSat({c}, m); if (r == UNSAT) endPath("infeasible"); if (r == UNKNOWN) { noteIncomplete("solver gave no answer for an assumption"); endPath("infeasible"); }
  PC.push_back(c); setModel(m); return A_RET; }
H(h_symassert) {
  Val v = cc.args[0]; SH->asserts++; std::string msg = cstrAt(cc.args[1].c);
  if (!v.e) { if (!v.c) { violation("assert", msg, X.model); endPath("violation"); } return A_RET; }
  Expr *c = condOf(v); if (c->op == O_CONST) { if (!c->k) { violation("assert", msg, X.model); endPath("violation"); } return A_RET; }
  SH->assertQ++; std::vector<u64> m; if (!X.eval(c)) { violation("assert", msg, X.model); if (checkSat({c}, m) != SAT) endPath("violation"); PC.push_back(c); setModel(m); return A_RET; }
  Sat r = checkSat({X.Not(c)}, m); if (r == SAT) violation("assert", msg, m); else if (r == UNKNOWN) noteIncomplete("assertion not decided: " + msg);
  if (r != UNSAT) PC.push_back(c); return A_RET; }
H(h_symfail) { violation("assert", cstrAt(cc.args[0].c), X.model); endPath("violation"); return A_RET; }
H(h_symreach) { std::string l = cstrAt(cc.args[0].c); int n = SH->nreach.load(), i; for (i = 0; i < n && i < 64; i++) if (l == SH->reach[i]) break; if (i == n && n < 64) { i = SH->nreach.fetch_add(1); if (i < 64) strncpy(SH->reach[i], l.c_str(), 63); } if (i < 64) SH->reachCount[i]++; reachLog.push_back("R " + l); return A_RET; }
struct ObsRec { size_t at; Expr *e; u64 c; }; static std::vector<ObsRec> obsPending;
H(h_symobserve) { Val v = cc.args[0]; obsPending.push_back({reachLog.size(), v.e, v.c}); reachLog.push_back("O"); return A_RET; }
static void finishObs() { for (auto &o : obsPending) { char b[40]; snprintf(b, 40, "O %016llx", (unsigned long long)(o.e ? X.eval(o.e) : o.c)); reachLog[o.at] = b; } }
H(h_symchoice) {
  u64 n = cc.args[0].c; std::string nm = cstrAt(cc.args[1].c); InputRec r; r.name = nm; r.n = 4; Expr *v = X.var(nm, 32, 0); r.vars.push_back(X.vars.size() - 1); inputs.push_back(r);
  if (n == 0) endPath("infeasible");
  u64 vid = X.vars.size() - 1;
  for (u64 i = 0; i + 1 < n; i++) { // a fresh variable: every value below n is feasible
    if (forkPath()) { PC.push_back(X.Eq(v, X.K(i, 32))); auto m = X.model; m[vid] = i; setModel(m); cc.ret = Val(i); return A_RET; } }
  PC.push_back(X.Eq(v, X.K(n - 1, 32))); auto m = X.model; m[vid] = n - 1; setModel(m); cc.ret = Val(n - 1); return A_RET; }
H(h_symite) { Val c = cc.args[0]; unsigned w = cc.di->w; if (!c.e) { cc.ret = c.c ? cc.args[1] : cc.args[2]; return A_RET; } cc.ret = mkv(X.ite(condOf(c), EX(cc.args[1], w), EX(cc.args[2], w))); return A_RET; }
H(h_symconc) { Val v = cc.args[0]; cc.ret = Val(v.e ? enumerate(v.e, "sym_concretize") : v.c); return A_RET; }
H(h_symissym) { u64 p = cc.args[0].c, n = cc.args[1].c; cc.ret = Val(anySym(p, n)); return A_RET; }
H(h_symonabort) { onAbortFn = cc.args[0].c; endHookRunning = false; return A_RET; }
H(h_symend) { finishObs(); endPath("ok"); return A_RET; }
H(h_symenv) { symEnv[cstrAt(cc.args[0].c)] = cc.args[1].c; return A_RET; }
// numbers in text: the same value written in the same format (tokens), else the same characters
H(h_symsamenum) { u64 e1, e2; int a = tokenAt(cc.args[0].c, e1), b = tokenAt(cc.args[1].c, e2); std::string x = cstrAt(cc.args[0].c), y = cstrAt(cc.args[1].c);
  if (a < 0 || b < 0) { cc.ret = Val(x == y); return A_RET; } if (cstrAt(e1) != cstrAt(e2)) { cc.ret = Val(0); return A_RET; }
  Tok &s = toks[a], &t = toks[b]; if (s.kind != t.kind || s.prec != t.prec || s.e->w != t.e->w) { cc.ret = Val(0); return A_RET; }
  Expr *c = X.Eq(s.e, t.e); if (s.e->op == O_FPEXT && t.e->op == O_FPEXT && s.e->a->w == t.e->a->w) c = X.Eq(s.e->a, t.e->a); Expr *z = X.zext(c, 32); cc.ret = z->op == O_CONST ? Val(z->k) : Val(X.eval(z), z); return A_RET; }
H(h_symnumberis) { u64 e1; int a = tokenAt(cc.args[0].c, e1); std::string x = cstrAt(cc.args[0].c); Val v = cc.args[1]; int digits = (int)cc.args[2].c; Expr *ve = v.e ? v.e : X.K(v.c, 64);
  if (a < 0) { char *e; double d = strtod(x.c_str(), &e), w = bd(v.e ? X.eval(v.e) : v.c); if (v.e) noteIncomplete("text of a symbolic number compared by value"); bool ok = !(e == x.c_str() || *e); if (ok && !(d == w || (d != d && w != w))) { double tol = fabs(w) * .5000001; for (int i = 1; i < digits; i++) tol /= 10; ok = fabs(d - w) <= tol; } cc.ret = Val(ok); return A_RET; }
  if (*(char *)e1) { cc.ret = Val(0); return A_RET; } Tok &s = toks[a]; int prec = s.prec ? s.prec : 6;
  if (s.kind != 2) { Expr *n = X.un(s.kind == 0 ? O_SITOFP : O_UITOFP, s.e, 64); Expr *z = X.zext(X.bin(O_FEQ, n, ve), 32); cc.ret = z->op == O_CONST ? Val(z->k) : Val(X.eval(z), z); return A_RET; }
  if (prec < digits) { // fewer digits: look for a value whose text is too far off, continue with that one
    Expr *src = s.e->w == 32 ? X.un(O_FPEXT, s.e, 64) : s.e; Expr *asF = src->op == O_FPEXT ? src->a : nullptr; std::vector<u64> m;
    for (double d : nasty()) { if (asF) d = (double)(float)d; char b[128]; snprintf(b, sizeof b, "%.*g", prec, d); double tol = fabs(d) * .5000001; for (int i = 1; i < digits; i++) tol /= 10; if (fabs(strtod(b, 0) - d) <= tol) continue;
      Expr *eq = X.And(X.Eq(asF ? asF : src, asF ? X.K(fb((float)d), 32) : X.K(db(d), 64)), X.bin(O_FEQ, src, ve)); if (checkSat({eq}, m) == SAT) { PC.push_back(eq); setModel(m); cc.ret = Val(0); return A_RET; } }
    noteIncomplete("number written with few digits"); cc.ret = Val(1); return A_RET; }
  Expr *se = s.e->w == 32 ? X.un(O_FPEXT, s.e, 64) : s.e; Expr *c = X.Eq(se, ve); if (se->op == O_FPEXT && ve->op == O_FPEXT) c = X.Eq(se->a, ve->a); c = X.Or(c, X.bin(O_FEQ, se, ve)); Expr *z = X.zext(c, 32); cc.ret = z->op == O_CONST ? Val(z->k) : Val(X.eval(z), z); return A_RET; }
H(h_symincomplete) { noteIncomplete(cstrAt(cc.args[0].c)); return A_RET; }
H(h_symnative) { cc.ret = Val(0); return A_RET; }

static void registerHandlers() {
  auto R = [](Handler h, std::initializer_list<const char *> ns) { for (auto n : ns) handlers[n] = h; };
  R(h_malloc, {"malloc"}); R(h_calloc, {"calloc"}); R(h_realloc, {"realloc"}); R(h_free, {"free", "cfree"}); R(h_memalign, {"aligned_alloc", "memalign"});
  R(h_new, {"_Znwm", "_ZnwmRKSt9nothrow_t"}); R(h_newarr, {"_Znam", "_ZnamRKSt9nothrow_t"}); R(h_newal, {"_ZnwmSt11align_val_t"});
  R(h_delete, {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}); R(h_deletearr, {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"});
  R(h_allocexc, {"__cxa_allocate_exception"}); R(h_freeexc, {"__cxa_free_exception"}); R(h_throw, {"__cxa_throw"}); R(h_begincatch, {"__cxa_begin_catch"}); R(h_endcatch, {"__cxa_end_catch"}); R(h_rethrow, {"__cxa_rethrow"}); R(h_getexcptr, {"__cxa_get_exception_ptr"});
  R(h_terminate, {"_ZSt9terminatev"}); R(h_purevirt, {"__cxa_pure_virtual", "__cxa_deleted_virtual"}); R(h_guardacq, {"__cxa_guard_acquire"}); R(h_guardrel, {"__cxa_guard_release"}); R(h_nop, {"__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy"});
  R(h_cxaatexit, {"__cxa_atexit", "__cxa_thread_atexit"}); R(h_atexit, {"atexit"}); R(h_runatexit, {"sym_run_atexit"}); R(h_abort, {"abort"}); R(h_exit, {"exit", "_exit", "quick_exit", "_Exit"}); R(h_assertfail, {"__assert_fail"}); R(h_errno, {"__errno_location"});
  R(h_memcpy, {"memcpy", "memmove"}); R(h_memset, {"memset"}); R(h_memcmp, {"memcmp", "bcmp"}); R(h_strlen, {"strlen"}); R(h_strcmp, {"strcmp"}); R(h_strrt, {"strncmp", "strncpy", "strcpy", "strcat", "strchr", "strrchr", "strdup", "strstr", "strnlen"}); R(h_memchr, {"memchr"});
  R(h_hashbytes, {"_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm"}); R(h_getval, {"_ZNSt13random_device9_M_getvalEv"}); R(h_ctype, {"isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower"});
  R(h_putd, {"_ZNSolsEd", "_ZNSo9_M_insertIdEERSoT_"}); R(h_putf, {"_ZNSolsEf"}); R(h_puti, {"_ZNSolsEi", "_ZNSolsEl", "_ZNSolsEx", "_ZNSolsEs", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIxEERSoT_"}); R(h_putu, {"_ZNSolsEj", "_ZNSolsEm", "_ZNSolsEy", "_ZNSolsEt", "_ZNSolsEb", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIyEERSoT_", "_ZNSo9_M_insertIbEERSoT_"});
  R(h_strtod, {"strtod", "__strtod_internal"}); R(h_strtof, {"strtof"}); R(h_strtol, {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll"}); R(h_strtoul, {"strtoul", "strtoull", "__isoc23_strtoul", "__isoc23_strtoull"}); R(h_atoi, {"atoi", "atol"}); R(h_atof, {"atof"});
  R(h_tostring, {"_ZNSt7__cxx119to_stringEi", "_ZNSt7__cxx119to_stringEj", "_ZNSt7__cxx119to_stringEl", "_ZNSt7__cxx119to_stringEm"});
  R(h_exd, {"_ZNSirsERd", "_ZNSi10_M_extractIdEERSiRT_"}); R(h_exf, {"_ZNSirsERf", "_ZNSi10_M_extractIfEERSiRT_"}); R(h_exi, {"_ZNSirsERi"}); R(h_exj, {"_ZNSirsERj", "_ZNSi10_M_extractIjEERSiRT_"}); R(h_exl, {"_ZNSirsERl", "_ZNSi10_M_extractIlEERSiRT_"}); R(h_exm, {"_ZNSirsERm", "_ZNSi10_M_extractImEERSiRT_"});
  R(h_istream, {"_ZNSi6ignoreEl", "_ZNSi6ignoreEli", "_ZNSi6ignoreEv", "_ZNSi3getEv", "_ZNSi3getERc", "_ZNSi4peekEv", "_ZNSi5ungetEv", "_ZNSi7getlineEPcl", "_ZNSi7getlineEPclc", "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_", "_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_"});
  R(h_libm, {"exp", "log", "pow", "expf", "logf", "powf", "tanh", "log2", "log10", "sin", "cos", "fmod"}); R(h_floor, {"floor"}); R(h_floorf, {"floorf"}); R(h_ceil, {"ceil"}); R(h_ceilf, {"ceilf"}); R(h_trunc, {"trunc"}); R(h_sqrt, {"sqrt"}); R(h_sqrtf, {"sqrtf"});
  R(h_putcstr, {"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"});
  R(h_write, {"_ZNSo5writeEPKcl"}); R(h_read, {"_ZNSi4readEPcl"});
  R(h_getenv, {"getenv", "secure_getenv"});
  R(h_symmake, {"sym_make"}); R(h_symassume, {"sym_assume"}); R(h_symassert, {"sym_assert"}); R(h_symfail, {"sym_fail"}); R(h_symreach, {"sym_reach"}); R(h_symobserve, {"sym_observe"}); R(h_symchoice, {"sym_choice"}); R(h_symite, {"sym_ite32", "sym_ite64", "sym_ite8"}); R(h_symconc, {"sym_concretize"}); R(h_symissym, {"sym_is_symbolic"}); R(h_symonabort, {"sym_on_abort"}); R(h_symend, {"sym_end"}); R(h_symenv, {"sym_setenv"}); R(h_symsamenum, {"sym_same_number"}); R(h_symnumberis, {"sym_number_is"}); R(h_symincomplete, {"sym_incomplete"}); R(h_symnative, {"sym_is_native"});
}
