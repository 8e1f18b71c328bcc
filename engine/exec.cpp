// Symbolic interpreter for the internal code.  One process per path; the
// children of a symbolic branch are real fork()s.
#include "ir.h"
#include "shm.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <ctype.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>

Shm *SHM;
static std::vector<std::string> gKnownIds;     // ids listed in the known-findings file
static double gDeadline; static u64 gMaxInst = 400000000ULL; static u64 gMaxPaths = ~0ULL; static int gConcLimit = 300;
static bool gHangViol = false;
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------ state
struct Frame { Func *f; Val *regs; const Inst *ret; u64 sp; u64 serial; u64 va; };
struct Jmp { int depth; u64 serial; const Inst *pc; };
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DEAD };
struct Th { int id; std::vector<Frame> fr; Val *regTop; u64 sp, spBase; const Inst *pc; int st; u64 waitOn; u64 waitMx; bool signaled; u64 retval; bool detached; bool joined; u64 order; bool timed; };
static std::vector<Th *> th; static Th *T;
static std::unordered_map<u64, Jmp> jmps; static u64 jmpCtr = 1;
struct SB { Expr *e; u8 i; };
static std::unordered_map<u64, SB> symMem;
static Model model; static u64 gen;
static std::unordered_map<u32, bool> decided;
static u64 heapTop = HEAP_BASE, serialCtr = 1, instCount, pathInst;
static std::string curKnown;
static std::vector<std::string> notes;
static int expectExit = 0;
static u64 mallocCount = 0; static i64 mallocFailAt = -1;
static u64 outBuf, outLen; static const u64 OUTCAP = 1 << 20;
static bool isRoot = true; static bool haveTok = true; static pid_t rootPid;
static std::unordered_map<u64, int> mxOwner; static std::unordered_map<u64, int> mxDepth;
static int schedOn = 0, preemptLeft = 0; static u64 orderCtr = 1;
static std::map<std::string, std::vector<Func *>> hooks;

[[noreturn]] static void endPath(bool complete);
static void shLock() { while (__sync_lock_test_and_set(&SHM->lock, 1)) usleep(50); }
static void shUnlock() { __sync_lock_release(&SHM->lock); }
[[noreturn]] static void engErr(const char *fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string s = b; if (T) { s += " at"; for (int i = (int)T->fr.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) s += " " + T->fr[i].f->name; }
  shLock(); if (!SHM->engineErr) strncpy(SHM->errMsg, s.c_str(), sizeof SHM->errMsg - 1);
  SHM->engineErr++; shUnlock();
  void recordEngine(const std::string &); recordEngine(s);
  endPath(false);
}
static std::string modelText(const Model &m) {
  std::string s; char b[256];
  for (size_t i = 0; i < gSyms.size(); i++) { snprintf(b, sizeof b, "%s %d 0x%llx\n", gSyms[i].name.c_str(), gSyms[i].w, (unsigned long long)(i < m.v.size() ? m.v[i] & maskw(gSyms[i].w) : 0)); s += b; }
  return s;
}
static std::string btrace() { std::string s; if (T) for (int i = (int)T->fr.size() - 1, n = 0; i >= 0 && n < 10; i--, n++) { s += (n ? " < " : "") + T->fr[i].f->name; } return s; }
static void recordViol(const char *kind, const char *label, const std::string &detail, const Model &m) {
  std::string kn; for (auto &k : gKnownIds) if (k == curKnown) kn = k;
  shLock();
  int same = 0, nk = 0; for (int i = 0; i < SHM->nviol; i++) { if (!strcmp(SHM->viol[i].label, label) && !strcmp(SHM->viol[i].kind, kind) && kn == SHM->viol[i].known) same++; if (SHM->viol[i].known[0]) nk++; }
  if (SHM->nviol < MAXVIOL && same < (kn.empty() ? 3 : 1)) {
    Viol &v = SHM->viol[SHM->nviol];
    strncpy(v.kind, kind, sizeof v.kind - 1); strncpy(v.label, label, sizeof v.label - 1);
    std::string d = detail + " [" + btrace() + "]"; for (auto &n : notes) d = n + "; " + d;
    strncpy(v.detail, d.c_str(), sizeof v.detail - 1); strncpy(v.known, kn.c_str(), sizeof v.known - 1);
    strncpy(v.model, modelText(m).c_str(), sizeof v.model - 1);
    SHM->nviol++;
  }
  shUnlock();
}
// a path the engine could not finish: its model is kept so that the check can run it natively
void recordEngine(const std::string &s) { if (SHM->nviol < MAXVIOL - 4) recordViol("engine", s.substr(0, 60).c_str(), s, model); }
// innermost function that is not the reporting machinery itself
static const char *crashSite() { if (!T) return "?"; for (int i = (int)T->fr.size() - 1; i >= 0; i--) { const char *n = T->fr[i].f->name.c_str(); if (strncmp(n, "diePrint", 8)) return n; } return "?"; }
[[noreturn]] static void crash(const char *kind, const char *fmt, ...) {
  char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  char lab[160]; snprintf(lab, sizeof lab, "%s in %s", kind, crashSite());
  recordViol(kind, lab, b, model);
  endPath(true);
}
static int labelIdx(const char *name, int kind) {
  for (int i = 0; i < SHM->nlabel; i++) if (SHM->labels[i].kind == kind && !strcmp(SHM->labels[i].name, name)) return i;
  shLock();
  int r = -1;
  for (int i = 0; i < SHM->nlabel; i++) if (SHM->labels[i].kind == kind && !strcmp(SHM->labels[i].name, name)) r = i;
  if (r < 0) { if (SHM->nlabel >= MAXLBL) r = MAXLBL - 1; else { r = SHM->nlabel; strncpy(SHM->labels[r].name, name, 119); SHM->labels[r].kind = kind; __sync_synchronize(); SHM->nlabel++; } }
  shUnlock(); return r;
}
static void flushCounters() { __sync_fetch_and_add(&SHM->insts, instCount); instCount = 0; }
static void endPath(bool complete) {
  flushCounters();
  __sync_fetch_and_add(complete ? &SHM->paths : &SHM->pathsCut, 1);
  if (haveTok && !isRoot) __sync_fetch_and_add(&SHM->tokens, 1);
  if (!isRoot) _exit(0);
  // root: wait for every descendant (orphans are re-parented to us)
  for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
    if (WIFSIGNALED(st)) { shLock(); if (!SHM->engineErr) snprintf(SHM->errMsg, sizeof SHM->errMsg, "path process died with signal %d", WTERMSIG(st)); SHM->engineErr++; shUnlock(); } }
  extern void report(); report(); exit(0);
}
static void checkLimits() {
  if (SHM->stop || nowS() > gDeadline) { SHM->stop = 1; endPath(false); }
  if (SHM->paths + SHM->pathsCut > gMaxPaths) { SHM->stop = 2; endPath(false); }
  int unk = 0; for (int i = 0; i < SHM->nviol; i++) if (!SHM->viol[i].known[0] && strcmp(SHM->viol[i].kind, "engine")) unk++;
  if (unk >= 12) { SHM->stop = 3; endPath(false); }
}
// returns true in the child
static bool doFork() {
  checkLimits();
  __sync_fetch_and_add(&SHM->forks, 1);
  bool par = false;
  for (;;) { int t = SHM->tokens; if (t <= 0) break; if (__sync_bool_compare_and_swap(&SHM->tokens, t, t - 1)) { par = true; break; } }
  flushCounters();
  pid_t p; int st0;
  while ((p = waitpid(-1, &st0, WNOHANG)) > 0) if (WIFSIGNALED(st0)) { shLock(); if (!SHM->engineErr) snprintf(SHM->errMsg, sizeof SHM->errMsg, "path process died with signal %d", WTERMSIG(st0)); SHM->engineErr++; shUnlock(); }
  for (int i = 0; (p = fork()) < 0 && errno == EAGAIN && i < 200; i++) usleep(20000);
  if (p < 0) { if (par) __sync_fetch_and_add(&SHM->tokens, 1); engErr("fork failed: %s", strerror(errno)); }
  if (p == 0) { isRoot = false; haveTok = par; return true; }
  if (!par) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { shLock(); if (!SHM->engineErr) snprintf(SHM->errMsg, sizeof SHM->errMsg, "path process died with signal %d", WTERMSIG(st)); SHM->engineErr++; shUnlock(); } }
  return false;
}
static u64 ev(Expr *e) { return eEval(e, model, gen); }
static void setModel(const Model &m) { model = m; gen = newEvalGen(); }
static void assertE(Expr *e) { solverAssert(e); }
static void decide(Expr *e, bool v) { decided[e->id] = v; if (e->k == K_XOR && e->w == 1 && e->b->k == K_CONST && e->b->c) decided[e->a->id] = !v; else { Expr *n = eNot(e); decided[n->id] = !v; } }
static bool branchOn(Expr *e) {
  if (e->k == K_CONST) return e->c;
  auto it = decided.find(e->id); if (it != decided.end()) return it->second;
  bool v = ev(e);
  Expr *other = v ? eNot(e) : e;
  Model m2; SatRes r = solverCheck(other, &m2);
  if (r == SR_SAT) {
    if (doFork()) { setModel(m2); assertE(other); decide(e, !v); return !v; }
    assertE(v ? e : eNot(e));
  }
  decide(e, v);
  return v;
}
static u64 concretize(Expr *e) {
  if (e->k == K_CONST) return e->c;
  __sync_fetch_and_add(&SHM->concretizations, 1);
  for (int n = 0;; n++) {
    u64 v = ev(e);
    Expr *eq = eCmp(K_EQ, e, eConst(v, e->w));
    if (eq->k == K_CONST) return v;
    auto it = decided.find(eq->id); if (it != decided.end() && it->second) return v;
    Expr *ne = eNot(eq); Model m2;
    SatRes r = solverCheck(ne, &m2);
    if (r != SR_SAT) { decide(eq, true); return v; }
    if (n >= gConcLimit) engErr("concretization limit (%s)", eStr(e, 5).c_str());
    if (doFork()) { setModel(m2); assertE(ne); decide(eq, false); continue; }
    assertE(eq); decide(eq, true); return v;
  }
}
static inline u64 C(const Val &v) { return v.s ? concretize(v.s) : v.c; }
static inline Expr *X(const Val &v, int w) { if (v.s) { if (v.s->w == w) return v.s; if (v.s->w > w) return eExtract(v.s, 0, w); return eZext(v.s, w); } return eConst(v.c, w); }
static inline Val mk(Expr *e) { if (e->k == K_CONST) return Val{e->c, nullptr}; return Val{0, e}; }
static inline Val mk(u64 v) { return Val{v, nullptr}; }
static inline Val mk(int v) { return Val{(u64)(i64)v, nullptr}; }
static inline Val mk(long v) { return Val{(u64)v, nullptr}; }
static inline Val mk(unsigned v) { return Val{(u64)v, nullptr}; }
static inline Val mk(unsigned long long v) { return Val{(u64)v, nullptr}; }

// ------------------------------------------------------------ memory
static void chk(u64 a, u64 n, bool wr) {
  if (!n) return;
  if (!inArena(a) || !inArena(a + n - 1)) crash(a < 4096 ? "null-deref" : "bad-address", "%s of %llu bytes at 0x%llx", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a);
  u8 *s = SHADOW(a);
  for (u64 i = 0; i < n; i++) if (!(s[i] & SH_OK)) crash(s[i] & SH_FREED ? "use-after-free" : "out-of-bounds", "%s of %llu bytes at 0x%llx (+%llu)", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a, (unsigned long long)i);
}
static inline bool anySym(u64 a, u64 n) { u8 *s = SHADOW(a); u64 i = 0; for (; i + 8 <= n; i += 8) { u64 x; memcpy(&x, s + i, 8); if (x & 0x8080808080808080ULL) return true; } for (; i < n; i++) if (s[i] & SH_SYM) return true; return false; }
static Expr *byteAt(u64 a) { if (*SHADOW(a) & SH_SYM) { SB &b = symMem[a]; return eExtract(b.e, b.i * 8, 8); } return eConst(*(u8 *)a, 8); }
static Val loadMem(u64 a, int w) {
  int n = (w + 7) / 8;
  u8 *sh = SHADOW(a);
  if (inArena(a)) {
    if (n == 8) { u64 x; memcpy(&x, sh, 8); if (x == 0x0101010101010101ULL) { u64 v; memcpy(&v, (void *)a, 8); return mk(v & maskw(w)); } }
    else if (n == 4) { u32 x; memcpy(&x, sh, 4); if (x == 0x01010101U) { u32 v; memcpy(&v, (void *)a, 4); return mk((u64)v & maskw(w)); } }
    else if (n == 1) { if (*sh == 1) return mk(*(u8 *)a & maskw(w)); }
  }
  chk(a, n, false);
  if (!anySym(a, n)) { u64 v = 0; memcpy(&v, (void *)a, n); return mk(v & maskw(w)); }
  if (sh[0] & SH_SYM) { SB b = symMem[a]; if (b.i == 0 && b.e->w == 8 * n) { bool all = true; for (int i = 1; i < n && all; i++) { if (!(sh[i] & SH_SYM)) all = false; else { SB &q = symMem[a + i]; all = q.e == b.e && q.i == i; } } if (all) return mk(w == b.e->w ? b.e : eExtract(b.e, 0, w)); } }
  // runs of consecutive bytes of the same expression
  Expr *r = nullptr;
  for (int i = 0; i < n;) {
    Expr *p; int len = 1;
    if (sh[i] & SH_SYM) { SB b = symMem[a + i]; while (i + len < n && (sh[i + len] & SH_SYM)) { SB &q = symMem[a + i + len]; if (q.e != b.e || q.i != b.i + len) break; len++; } p = eExtract(b.e, b.i * 8, len * 8); }
    else p = eConst(*(u8 *)(a + i), 8);
    r = r ? eConcat(p, r) : p; i += len;
  }
  if (r->w > w) r = eExtract(r, 0, w);
  return mk(r);
}
static void storeMem(u64 a, int w, const Val &v) {
  int n = (w + 7) / 8; u8 *sh = SHADOW(a);
  if (!v.s && inArena(a)) {
    if (n == 8) { u64 x; memcpy(&x, sh, 8); if (x == 0x0101010101010101ULL) { memcpy((void *)a, &v.c, 8); return; } }
    else if (n == 4) { u32 x; memcpy(&x, sh, 4); if (x == 0x01010101U) { memcpy((void *)a, &v.c, 4); return; } }
    else if (n == 1) { if (*sh == 1) { *(u8 *)a = v.c; return; } }
  }
  chk(a, n, true);
  if (!v.s) { memcpy((void *)a, &v.c, n); for (int i = 0; i < n; i++) sh[i] &= ~SH_SYM; return; }
  Expr *e = v.s; if (e->w < n * 8) e = eZext(e, n * 8);
  if (e->k == K_CONST) { storeMem(a, w, mk(e->c)); return; }
  for (int i = 0; i < n; i++) {
    Expr *b = n <= 2 || e->k == K_CONCAT ? eExtract(e, i * 8, 8) : nullptr;
    if (b && b->k == K_CONST) { *(u8 *)(a + i) = b->c; sh[i] &= ~SH_SYM; }
    else { sh[i] |= SH_SYM; symMem[a + i] = SB{e, (u8)i}; }
  }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  chk(s, n, false); chk(d, n, true);
  if (!anySym(s, n)) { memmove((void *)d, (void *)s, n); u8 *sh = SHADOW(d); if (anySym(d, n)) for (u64 i = 0; i < n; i++) sh[i] &= ~SH_SYM; return; }
  std::vector<std::pair<bool, SB>> t(n); u8 *ss = SHADOW(s);
  for (u64 i = 0; i < n; i++) if (ss[i] & SH_SYM) t[i] = {true, symMem[s + i]}; else t[i] = {false, SB{nullptr, 0}};
  memmove((void *)d, (void *)s, n); u8 *ds = SHADOW(d);
  for (u64 i = 0; i < n; i++) if (t[i].first) { ds[i] |= SH_SYM; symMem[d + i] = t[i].second; } else ds[i] &= ~SH_SYM;
}
static void setMem(u64 d, const Val &v, u64 n) {
  if (!n) return; chk(d, n, true);
  if (v.s) { for (u64 i = 0; i < n; i++) storeMem(d + i, 8, mk(X(v, 8))); return; }
  memset((void *)d, (int)v.c, n); if (anySym(d, n)) { u8 *sh = SHADOW(d); for (u64 i = 0; i < n; i++) sh[i] &= ~SH_SYM; }
}
static u64 heapLive = 0;
static u64 gMalloc(u64 n, int fill) {
  mallocCount++;
  if (n > (1ULL << 30)) { return 0; }
  u64 a = heapTop + 32; u64 end = (a + n + 15) & ~15ULL; heapTop = end;
  if (heapTop > ARENA + ARENA_SZ - 4096) engErr("guest heap exhausted");
  *(u64 *)(a - 16) = n; *(u64 *)(a - 8) = 0xA110CA7EDULL;
  memset(SHADOW(a), SH_OK, n); 
  if (fill && n <= (1 << 20)) memset((void *)a, fill, n);
  heapLive++;
  return a;
}
static void gFree(u64 a) {
  if (!a) return;
  if (!inArena(a) || a < HEAP_BASE || *(u64 *)(a - 8) != 0xA110CA7EDULL) {
    if (inArena(a) && a >= HEAP_BASE && *(u64 *)(a - 8) == 0xDEADULL) crash("double-free", "free of 0x%llx", (unsigned long long)a);
    crash("bad-free", "free of 0x%llx", (unsigned long long)a);
  }
  u64 n = *(u64 *)(a - 16); *(u64 *)(a - 8) = 0xDEADULL; memset(SHADOW(a), SH_FREED, n); heapLive--;
}
static u64 gRealloc(u64 p, u64 n) {
  if (!p) return gMalloc(n, 0xAA);
  if (!inArena(p) || p < HEAP_BASE || *(u64 *)(p - 8) != 0xA110CA7EDULL) crash("bad-free", "realloc of 0x%llx", (unsigned long long)p);
  u64 o = *(u64 *)(p - 16); u64 a = gMalloc(n, 0xAA); if (!a) return 0;
  copyMem(a, p, std::min(o, n)); gFree(p); return a;
}
static u64 cstrLen(u64 a) { // forks on symbolic bytes
  u64 n = 0;
  for (;; n++) { chk(a + n, 1, false); if (*SHADOW(a + n) & SH_SYM) { Expr *z = eCmp(K_EQ, byteAt(a + n), eConst(0, 8)); if (branchOn(z)) return n; } else if (!*(u8 *)(a + n)) return n; if (n > (1 << 24)) engErr("runaway string"); }
}
static std::string cstr(u64 a) { // concrete copy
  u64 n = cstrLen(a); std::string s(n, 0); for (u64 i = 0; i < n; i++) s[i] = (char)concretize(byteAt(a + i)); return s;
}
static void outByte(Expr *e) { if (outLen + 1 < OUTCAP) { storeMem(outBuf + outLen, 8, mk(e)); outLen++; } }

// ------------------------------------------------------------ loads through symbolic addresses
static bool symLoad(Expr *addr, int w, Val *out) {
  u64 lo = addr->ulo, hi = addr->uhi; int n = (w + 7) / 8;
  if (hi - lo > 4096 || !inArena(lo) || !inArena(hi + n)) return false;
  for (u64 a = lo; a < hi + n; a++) if (*SHADOW(a) != SH_OK) return false;
  // group runs of equal values; addresses not aligned to stride are infeasible in practice but harmless
  u64 stride = 1; // detect alignment from low constant bits
  Expr *z = eExtract(addr, 0, 3); if (z->k == K_CONST && n == 8) stride = 8; else { z = eExtract(addr, 0, 2); if (z->k == K_CONST && n >= 4) stride = 4; else { z = eExtract(addr, 0, 1); if (z->k == K_CONST && n >= 2) stride = 2; } }
  u64 first = lo; if (stride > 1) { u64 al = z->c; while ((first & (stride - 1)) != al) first++; }
  struct Run { u64 end; u64 v; }; std::vector<Run> runs;
  for (u64 a = first; a <= hi; a += stride) { u64 v = 0; memcpy(&v, (void *)a, n); v &= maskw(w); if (runs.empty() || runs.back().v != v) runs.push_back({a, v}); else runs.back().end = a; }
  if (runs.size() > 300) return false;
  Expr *r = eConst(runs.back().v, w);
  for (int i = (int)runs.size() - 2; i >= 0; i--) r = eIte(eCmp(K_ULE, addr, eConst(runs[i].end, 64)), eConst(runs[i].v, w), r);
  *out = mk(r); return true;
}

// ------------------------------------------------------------ printf
struct VA { u64 ap; int idx; };
static Val vaNext(u64 ap) { // ap: guest va_list; all varargs live in the overflow area
  u64 ov = loadMem(ap + 8, 64).c; Val v = loadMem(ov, 64); storeMem(ap + 8, 64, mk(ov + 8)); return v;
}
static void fmtG(u64 fmt, u64 ap, std::vector<Expr *> &out) {
  std::string f = cstr(fmt);
  auto puts_ = [&](const char *s) { for (; *s; s++) out.push_back(eConst((u8)*s, 8)); };
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { out.push_back(eConst((u8)f[i], 8)); i++; continue; }
    if (f[i + 1] == '%') { out.push_back(eConst('%', 8)); i += 2; continue; }
    std::string sp = "%"; i++; int lng = 0;
    int prec = -1; bool inprec = false;
    while (i < f.size() && !isalpha((u8)f[i])) {
      if (f[i] == '*') { int v = (int)C(vaNext(ap)); char b[16]; snprintf(b, 16, "%d", v); sp += b; if (inprec) prec = v; i++; continue; }
      if (f[i] == '.') { inprec = true; prec = 0; } else if (inprec && isdigit((u8)f[i])) prec = prec * 10 + f[i] - '0';
      sp += f[i++];
    }
    while (i < f.size() && strchr("hlzjtq", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng++; sp += f[i++]; }
    char c = f[i++]; sp += c; char buf[600];
    switch (c) {
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': {
      Val v = vaNext(ap);
      if (c == 'c' && sp == "%c") { out.push_back(X(v, 8)); break; }
      u64 x = C(v); if (lng) snprintf(buf, sizeof buf, sp.c_str(), x); else snprintf(buf, sizeof buf, sp.c_str(), (int)x); puts_(buf); break; }
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { u64 x = C(vaNext(ap)); snprintf(buf, sizeof buf, sp.c_str(), u2d(x)); puts_(buf); break; }
    case 'p': { u64 x = C(vaNext(ap)); snprintf(buf, sizeof buf, "%p", (void *)x); puts_(buf); break; }
    case 's': { u64 x = C(vaNext(ap)); if (!x) { puts_("(null)"); break; }
      std::vector<Expr *> tmp;
      for (u64 k = 0; prec < 0 || (int)k < prec; k++) { chk(x + k, 1, false); Expr *b = byteAt(x + k); if (branchOn(eCmp(K_EQ, b, eConst(0, 8)))) break; tmp.push_back(b); }
      int width = 0; bool left = false; for (size_t q = 1; q < sp.size(); q++) { if (sp[q] == '-') left = true; else if (isdigit((u8)sp[q])) width = width * 10 + sp[q] - '0'; else break; }
      if (!left) for (int q = tmp.size(); q < width; q++) out.push_back(eConst(' ', 8));
      for (auto *b : tmp) out.push_back(b);
      if (left) for (int q = tmp.size(); q < width; q++) out.push_back(eConst(' ', 8));
      break; }
    default: engErr("printf spec %s", sp.c_str());
    }
  }
}
static u64 writeFmt(u64 dst, u64 cap, const std::vector<Expr *> &o) {
  if (cap) { u64 n = std::min<u64>(o.size(), cap - 1); for (u64 i = 0; i < n; i++) storeMem(dst + i, 8, mk(o[i])); storeMem(dst + n, 8, mk(0)); }
  return o.size();
}

// ------------------------------------------------------------ builtins
enum { SW_NEXT, SW_SWITCHED };
typedef Val (*BI)(std::vector<Val> &a, const CallInfo *ci);
static std::unordered_map<std::string, BI> bis;
static std::vector<BI> biByFn; 
static bool reschedule = false;      // set by builtins that changed the running thread
static const Inst *modelCallPc = nullptr;
static Func *tailFn = nullptr;       // builtin asks to run this guest function instead
static std::unordered_map<std::string, Func *> fnByName;
static Func *gf(const char *n) { auto it = fnByName.find(n); return it == fnByName.end() ? nullptr : it->second; }
static u64 stdoutF, stderrF, stdinF;
static u64 fakeTime = 1000000000ULL;
static bool rangeConc(u64 a, u64 n) { chk(a, n, false); return !anySym(a, n); }
static bool strConc(u64 a, u64 *len) { u64 n = 0; for (;; n++) { chk(a + n, 1, false); if (*SHADOW(a + n) & SH_SYM) return false; if (!*(u8 *)(a + n)) { *len = n; return true; } } }
#define B(name) bis[#name] = [](std::vector<Val> &a, const CallInfo *ci) -> Val
#define A(i) C(a[i])
static u64 newSym(const std::string &nm, int w) { gSyms.push_back({nm, w}); model.v.resize(gSyms.size(), 0); return gSyms.size() - 1; }
static std::string symName(u64 p) { std::string s = p ? cstr(p) : "v"; for (auto &c : s) if (c == ' ' || c == '\n') c = '_'; char b[16]; snprintf(b, 16, "#%zu", gSyms.size()); return s + b; }
static void assume(Expr *e) {
  if (e->k == K_CONST) { if (!e->c) endPath(true); return; }
  auto it = decided.find(e->id); if (it != decided.end()) { if (!it->second) endPath(true); return; }
  if (!ev(e)) { Model m2; SatRes r = solverCheck(e, &m2); if (r == SR_UNK) { endPath(false); } if (r != SR_SAT) endPath(true); setModel(m2); }
  assertE(e); decide(e, true);
}
static void wake(Th *t) { t->st = T_RUN; }
static void pickThread(bool canStay);
static void thYield(bool canStay) { pickThread(canStay); }
// a timed wait ends: the thread needs its mutex again
static bool timedOut(Th *t) {
  if (t->st != T_COND || !t->timed) return false;
  if (mxDepth[t->waitMx]) return false;
  t->timed = false; t->signaled = true; t->st = T_RUN; mxOwner[t->waitMx] = t->id; mxDepth[t->waitMx] = 1; return true;
}
static void pickThread(bool canStay) {
  std::vector<Th *> r; for (auto *t : th) if (t->st == T_RUN || (schedOn && t->st == T_COND && t->timed && !mxDepth[t->waitMx])) r.push_back(t);
  if (r.empty()) { for (auto *t : th) if (timedOut(t)) r.push_back(t); }
  if (r.empty()) { T->pc = nullptr; crash("deadlock", "all %d threads are blocked", (int)th.size()); }
  if (canStay && T->st == T_RUN && (!schedOn || preemptLeft <= 0)) return;
  Th *nx = nullptr;
  if (!schedOn || r.size() == 1) { for (auto *t : r) if (!nx || t->order < nx->order) nx = t; if (canStay && T->st == T_RUN) nx = T; }
  else {
    int w = 1; while ((1u << w) < r.size()) w++;
    u64 s = newSym("sched#" + std::to_string(gSyms.size()), w); Expr *e = eSym(s, w);
    gen = newEvalGen();
    if (r.size() < (1u << w)) { assume(eCmp(K_ULT, e, eConst(r.size(), w))); }
    u64 k = concretize(e); nx = r[k];
    if (canStay && nx != T) preemptLeft--;
  }
  if (nx->st == T_COND) timedOut(nx);
  nx->order = orderCtr++;
  if (nx != T) { T = nx; reschedule = true; }
}
static void mxLock(u64 m) {
  // called with T about to own m
  mxOwner[m] = T->id; mxDepth[m] = 1;
}
static void pushFrame(Func *f, const Inst *ret, std::vector<Val> &args, int nfixed);
static void setBuiltins() {
  B(malloc) { return mk(gMalloc(A(0), 0xAA)); };
  B(calloc) { u64 n = A(0) * A(1); u64 p = gMalloc(n, 0); if (p) memset((void *)p, 0, 0); return mk(p); };
  B(realloc) { return mk(gRealloc(A(0), A(1))); };
  B(free) { gFree(A(0)); return mk(0); };
  auto memcpy_ = [](std::vector<Val> &a, const CallInfo *) -> Val { copyMem(A(0), A(1), A(2)); return mk(C(a[0])); };
  bis["memcpy"] = bis["memmove"] = memcpy_;
  B(memset) { setMem(A(0), a[1], A(2)); return mk(A(0)); };
  B(strlen) { u64 n; if (strConc(A(0), &n)) return mk(n); return mk(cstrLen(A(0))); };
  // comparison helpers: native on concrete data, guest model otherwise
#define CMP2(name, expr) B(name) { u64 n1, n2; u64 p = A(0), q = A(1); if (strConc(p, &n1) && strConc(q, &n2)) { const char *x = (char *)p, *y = (char *)q; (void)x; (void)y; return mk((u64)(expr) & 0xffffffffULL); } tailFn = gf("m_" #name); return mk(0); }
  auto sgn = [](int x) -> i64 { return x < 0 ? -1 : x > 0; }; (void)sgn;
  CMP2(strcmp, (i64)strcmp(x, y));
  CMP2(strcasecmp, (i64)strcasecmp(x, y));
  B(strncmp) { u64 p = A(0), q = A(1), n = A(2); u64 k = 0; bool sym = false; for (; k < n; k++) { chk(p + k, 1, false); chk(q + k, 1, false); if ((*SHADOW(p + k) | *SHADOW(q + k)) & SH_SYM) { sym = true; break; } if (*(u8 *)(p + k) != *(u8 *)(q + k) || !*(u8 *)(p + k)) break; }
    if (!sym) return mk((u64)(k < n ? (int)*(u8 *)(p + k) - (int)*(u8 *)(q + k) : 0) & 0xffffffffULL); tailFn = gf("m_strncmp"); return mk(0); };
  auto memcmp_ = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 p = A(0), q = A(1), n = A(2); if (!n) return mk(0); if (rangeConc(p, n) && rangeConc(q, n)) return mk((u64)(i64)memcmp((void *)p, (void *)q, n) & 0xffffffffULL); tailFn = gf("m_memcmp"); return mk(0); };
  bis["memcmp"] = bis["bcmp"] = memcmp_;
  auto strchr_ = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 n; u64 p = A(0); if (strConc(p, &n) && !a[1].s) return mk((u64)strchr((char *)p, (int)a[1].c)); tailFn = gf("m_strchr"); return mk(0); };
  bis["strchr"] = bis["index"] = strchr_;
  auto strrchr_ = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 n; u64 p = A(0); if (strConc(p, &n) && !a[1].s) return mk((u64)strrchr((char *)p, (int)a[1].c)); tailFn = gf("m_strrchr"); return mk(0); };
  bis["strrchr"] = bis["rindex"] = strrchr_;
  B(strstr) { u64 n, m; u64 p = A(0), q = A(1); if (strConc(p, &n) && strConc(q, &m)) return mk((u64)strstr((char *)p, (char *)q)); tailFn = gf("m_strstr"); return mk(0); };
  B(memchr) { u64 p = A(0), n = A(2); if (!a[1].s && rangeConc(p, n)) return mk((u64)memchr((void *)p, (int)a[1].c, n)); tailFn = gf("m_memchr"); return mk(0); };
  B(strcpy) { u64 n = cstrLen(A(1)); copyMem(A(0), A(1), n + 1); return mk(A(0)); };
  B(strcat) { u64 d = cstrLen(A(0)); u64 n = cstrLen(A(1)); copyMem(A(0) + d, A(1), n + 1); return mk(A(0)); };
  B(strncpy) { u64 lim = A(2), k = 0; u64 d = A(0), s = A(1); for (; k < lim; k++) { chk(s + k, 1, false); Expr *b = byteAt(s + k); bool z = branchOn(eCmp(K_EQ, b, eConst(0, 8))); if (z) break; storeMem(d + k, 8, mk(b)); } for (; k < lim; k++) storeMem(d + k, 8, mk(0)); return mk(d); };
  B(strncat) { u64 lim = A(2), k = 0; u64 d = A(0) + cstrLen(A(0)), s = A(1); for (; k < lim; k++) { chk(s + k, 1, false); Expr *b = byteAt(s + k); bool z = branchOn(eCmp(K_EQ, b, eConst(0, 8))); if (z) break; storeMem(d + k, 8, mk(b)); } storeMem(d + k, 8, mk(0)); return mk(A(0)); };
  B(strdup) { u64 n = cstrLen(A(0)); u64 p = gMalloc(n + 1, 0xAA); copyMem(p, A(0), n + 1); return mk(p); };
  auto atoi_ = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 n; if (strConc(A(0), &n)) return mk((u64)(i64)atoi((char *)C(a[0])) & 0xffffffffULL); tailFn = gf("m_atoi"); return mk(0); };
  bis["atoi"] = atoi_;
  auto strtol_ = [](std::vector<Val> &a, const CallInfo *) -> Val { std::string s = cstr(A(0)); char *e; errno = 0; long v = strtol(s.c_str(), &e, (int)A(2)); if (A(1)) storeMem(A(1), 64, mk(A(0) + (e - s.c_str()))); return mk((u64)v); };
  bis["strtol"] = bis["__isoc23_strtol"] = bis["__isoc23_strtoll"] = strtol_;
  B(strtod) { u64 n; std::string s; if (strConc(A(0), &n)) s = std::string((char *)A(0), n);
    else { // longest prefix that could be part of a number is concretised byte by byte
      for (u64 k = 0;; k++) { chk(A(0) + k, 1, false); u8 c = concretize(byteAt(A(0) + k)); if (!c) break; s += (char)c; } }
    char *e; double v = strtod(s.c_str(), &e); if (A(1)) storeMem(A(1), 64, mk(A(0) + (e - s.c_str()))); return mk(d2u(v)); };
  B(abs) { if (!a[0].s) return mk((u64)(u32)abs((int)a[0].c)); Expr *e = X(a[0], 32); return mk(eIte(eCmp(K_SLT, e, eConst(0, 32)), eBin(K_SUB, eConst(0, 32), e), e)); };
  B(fabs) { if (!a[0].s) return mk(a[0].c & ~(1ULL << 63)); return mk(eBin(K_AND, X(a[0], 64), eConst(~(1ULL << 63), 64))); };
  B(floor) { return mk(eFUn(K_FFLOOR, X(a[0], 64))); }; B(ceil) { return mk(eFUn(K_FCEIL, X(a[0], 64))); };
  B(trunc) { return mk(eFUn(K_FTRUNC, X(a[0], 64))); };
  B(fmod) { return mk(eFBin(K_FREM, X(a[0], 64), X(a[1], 64))); };
  B(pow) { return mk(d2u(pow(u2d(A(0)), u2d(A(1))))); };
  B(sqrt) { return mk(d2u(sqrt(u2d(A(0))))); };
  B(qsort) { tailFn = gf("m_qsort"); return mk(0); };
  auto vfprintf_ = [](std::vector<Val> &a, const CallInfo *) -> Val { std::vector<Expr *> o; fmtG(A(1), A(2), o); if (A(0) == stdoutF) for (auto *e : o) outByte(e); if (A(0) == stderrF && getenv("SYMEX_STDERR")) for (auto *e : o) fputc(e->k == K_CONST ? (int)e->c : '?', stderr); return mk(o.size()); };
  bis["vfprintf"] = vfprintf_;
  B(vsnprintf) { std::vector<Expr *> o; fmtG(A(2), A(3), o); return mk(writeFmt(A(0), A(1), o)); };
  B(vsprintf) { std::vector<Expr *> o; fmtG(A(1), A(2), o); return mk(writeFmt(A(0), o.size() + 1, o)); };
  // variadic ones: the call site has already spilled the variadic part (see doCall), last arg = va_list
  B(fprintf) { std::vector<Expr *> o; fmtG(A(1), A(a.size() - 1), o); if (A(0) == stdoutF) for (auto *e : o) outByte(e); if (A(0) == stderrF && getenv("SYMEX_STDERR")) for (auto *e : o) fputc(e->k == K_CONST ? (int)e->c : '?', stderr); return mk(o.size()); };
  B(printf) { std::vector<Expr *> o; fmtG(A(0), A(a.size() - 1), o); for (auto *e : o) outByte(e); return mk(o.size()); };
  B(snprintf) { std::vector<Expr *> o; fmtG(A(2), A(a.size() - 1), o); return mk(writeFmt(A(0), A(1), o)); };
  B(sprintf) { std::vector<Expr *> o; fmtG(A(1), A(a.size() - 1), o); return mk(writeFmt(A(0), o.size() + 1, o)); };
  B(sscanf) { engErr("sscanf"); }; bis["__isoc23_sscanf"] = bis["sscanf"];
  B(puts) { u64 p = A(0); u64 n = cstrLen(p); for (u64 i = 0; i < n; i++) outByte(byteAt(p + i)); outByte(eConst('\n', 8)); return mk(1); };
  auto fputs_ = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 p = A(0); u64 n = cstrLen(p); if (A(1) == stdoutF) for (u64 i = 0; i < n; i++) outByte(byteAt(p + i)); return mk(1); };
  bis["fputs"] = fputs_;
  B(putchar) { outByte(X(a[0], 8)); return a[0]; };
  auto fputc_ = [](std::vector<Val> &a, const CallInfo *) -> Val { if (A(1) == stdoutF) outByte(X(a[0], 8)); return a[0]; };
  bis["fputc"] = bis["putc"] = fputc_;
  B(fwrite) { u64 n = A(1) * A(2); chk(A(0), n, false); if (A(3) == stdoutF) for (u64 i = 0; i < n; i++) outByte(byteAt(A(0) + i)); return mk(A(2)); };
  B(fflush) { return mk(0); }; B(ferror) { return mk(0); }; B(setvbuf) { return mk(0); };
  B(fileno) { return mk(A(0) == stdinF ? 0 : A(0) == stdoutF ? 1 : 2); };
  B(isatty) { return mk(0); };
  B(getenv) { return mk(0); };
  B(getpid) { return mk(4242); }; B(getppid) { return mk(4241); };
  auto t0 = [](std::vector<Val> &a, const CallInfo *) -> Val { return mk(0); };
  for (const char *n : {"sigaction", "sigemptyset", "sigaddset", "sigprocmask", "pthread_sigmask", "signal", "atexit", "setenv", "srandom", "srand", "pthread_attr_init", "pthread_attr_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_setdetachstate", "umask", "usleep", "nanosleep", "perror", "setlocale", "pthread_setname_np", "backtrace_symbols_fd", "tzset", "close", "sleep"}) bis[n] = t0;
  B(backtrace) { return mk(0); }; B(backtrace_symbols) { u64 p = gMalloc(8, 0); return mk(p); };
  B(sysconf) { return mk(4096); };
  B(time) { u64 t = fakeTime / 1000000; if (A(0)) storeMem(A(0), 64, mk(t)); return mk(t); };
  B(clock) { fakeTime += 1000; return mk(fakeTime); };
  B(gettimeofday) { fakeTime += 10; storeMem(A(0), 64, mk(fakeTime / 1000000)); storeMem(A(0) + 8, 64, mk(fakeTime % 1000000)); return mk(0); };
  B(clock_gettime) { fakeTime += 10; storeMem(A(1), 64, mk(fakeTime / 1000000)); storeMem(A(1) + 8, 64, mk(fakeTime % 1000000 * 1000)); return mk(0); };
  B(random) { static u64 s = 12345; s = s * 6364136223846793005ULL + 1442695040888963407ULL; return mk((s >> 33) & 0x7fffffff); }; bis["rand"] = bis["random"];
  B(__errno_location) { static u64 p = 0; if (!p) { p = globAlloc(8, 16); } return mk(p); };
  B(__ctype_b_loc) { static u64 p = 0; if (!p) { p = globAlloc(8, 16); u64 t = globAlloc(384 * 2, 16); const unsigned short *src = *__ctype_b_loc(); memcpy((void *)t, src - 128, 384 * 2); *(u64 *)p = t + 256; } return mk(p); };
  B(__ctype_tolower_loc) { static u64 p = 0; if (!p) { p = globAlloc(8, 16); u64 t = globAlloc(384 * 4, 16); memcpy((void *)t, *__ctype_tolower_loc() - 128, 384 * 4); *(u64 *)p = t + 512; } return mk(p); };
  B(__ctype_toupper_loc) { static u64 p = 0; if (!p) { p = globAlloc(8, 16); u64 t = globAlloc(384 * 4, 16); memcpy((void *)t, *__ctype_toupper_loc() - 128, 384 * 4); *(u64 *)p = t + 512; } return mk(p); };
  auto tl = [](std::vector<Val> &a, const CallInfo *) -> Val { Expr *e = X(a[0], 32); Expr *up = eBin(K_AND, eCmp(K_SLE, eConst('A', 32), e), eCmp(K_SLE, e, eConst('Z', 32))); return mk(eIte(up, eBin(K_ADD, e, eConst(32, 32)), e)); };
  bis["tolower"] = tl;
  auto tu = [](std::vector<Val> &a, const CallInfo *) -> Val { Expr *e = X(a[0], 32); Expr *lo = eBin(K_AND, eCmp(K_SLE, eConst('a', 32), e), eCmp(K_SLE, e, eConst('z', 32))); return mk(eIte(lo, eBin(K_SUB, e, eConst(32, 32)), e)); };
  bis["toupper"] = tu;
  B(strerror) { static u64 p = 0; if (!p) { p = globAlloc(32, 16); strcpy((char *)p, "Some error"); } return mk(p); };
  auto ex = [](std::vector<Val> &a, const CallInfo *) -> Val { u64 st = A(0); if (expectExit) { if (expectExit == 2 && (int)st != 0) { crash("exit", "process exits with status %d", (int)st); } endPath(true); } crash("exit", "process exits with status %d", (int)st); };
  bis["exit"] = bis["_exit"] = ex;
  B(abort) { crash("abort", "abort() called"); };
  B(write) { chk(A(1), A(2), false); if (A(0) == 1) for (u64 i = 0; i < A(2); i++) outByte(byteAt(A(1) + i)); return mk(A(2)); };
  B(__assert_fail) { crash("assert", "assertion %s failed", cstr(A(0)).c_str()); };
  B(getcwd) { if (A(0) && A(1) > 8) { strcpy((char *)A(0), "/tmp"); } return mk(A(0)); };
  // ---- harness interface
  B(sym_native) { return mk(0); };
  B(sym_int) { i64 lo = (i64)A(1), hi = (i64)A(2); u64 span = (u64)hi - (u64)lo; if (!span) return mk((u64)lo); int w = 64 - __builtin_clzll(span); u64 i = newSym(symName(A(0)), w); Expr *s = eSym(i, w); gen = newEvalGen(); if (span != maskw(w)) assume(eCmp(K_ULE, s, eConst(span, w))); if (w < 64) return mk(eBin(K_ADD, eZext(s, 64), eConst((u64)lo, 64))); return mk(eBin(K_ADD, s, eConst((u64)lo, 64))); };
  B(sym_bits) { int w = (int)A(1); u64 i = newSym(symName(A(0)), w); gen = newEvalGen(); return mk(eZext(eSym(i, w), 64)); };
  B(sym_double) { u64 i = newSym(symName(A(0)), 64); Expr *s = eSym(i, 64); s->flags |= EF_NUM; gen = newEvalGen(); Expr *q = eConst(0x7ffc000000000000ULL, 64);
    // written without eBin's AND rule depending on EF_NUM
    assume(eNot(eCmp(K_EQ, eBin(K_AND, eExtract(s, 50, 14), eConst(0x1fff, 14)), eConst(0x1fff, 14)))); (void)q; return mk(s); };
  B(sym_choice) { u64 n = A(1); if (n <= 1) return mk(0); int w = 64 - __builtin_clzll(n - 1); u64 i = newSym(symName(A(0)), w); Expr *s = eSym(i, w);
    // a fresh symbol can take each of its values, whatever the path condition: no query needed
    u64 v = 0; while (v + 1 < n && !doFork()) v++;
    Model m = model; if (m.v.size() <= i) m.v.resize(i + 1, 0); m.v[i] = v; setModel(m); Expr *eq = eCmp(K_EQ, s, eConst(v, w)); assertE(eq); decide(eq, true); return mk(v); };
  B(sym_bytes) { u64 p = A(0), n = A(1); for (u64 i = 0; i < n; i++) { u64 k = newSym(symName(A(2)), 8); storeMem(p + i, 8, mk(eSym(k, 8))); } gen = newEvalGen(); return mk(0); };
  B(sym_concrete) { return mk(A(0)); };
  B(sym_is_symbolic) { return mk(a[0].s ? 1 : 0); };
  B(sym_assume) { assume(eNot(eCmp(K_EQ, X(a[0], 32), eConst(0, 32)))); return mk(0); };
  B(sym_check) {
    Expr *e = eNot(eCmp(K_EQ, X(a[0], 32), eConst(0, 32)));
    std::string l = cstr(A(1)); int li = labelIdx(l.c_str(), 0);
    __sync_fetch_and_add(&SHM->labels[li].reached, 1); __sync_fetch_and_add(&SHM->checks, 1);
    if (e->k == K_CONST) { if (e->c) { __sync_fetch_and_add(&SHM->labels[li].proved, 1); return mk(0); } recordViol("check", l.c_str(), "check failed", model); endPath(true); }
    __sync_fetch_and_add(&SHM->checksSym, 1);
    Model m2; if (!ev(e)) { recordViol("check", l.c_str(), "check failed: " + eStr(e, 4), model); __sync_fetch_and_add(&SHM->labels[li].sat, 1); assume(e); return mk(0); }
    SatRes r = solverCheck(eNot(e), &m2);
    if (r == SR_UNSAT) { __sync_fetch_and_add(&SHM->labels[li].proved, 1); decide(e, true); }
    else if (r == SR_SAT) { __sync_fetch_and_add(&SHM->labels[li].sat, 1); recordViol("check", l.c_str(), "check failed: " + eStr(e, 4), m2); assume(e); }
    return mk(0); };
  B(sym_cover) { int li = labelIdx(cstr(A(0)).c_str(), 1); __sync_fetch_and_add(&SHM->labels[li].reached, 1); return mk(0); };
  B(sym_known) { if (a[0].s) { Expr *e = eNot(eCmp(K_EQ, X(a[0], 32), eConst(0, 32))); if (branchOn(e)) curKnown = cstr(A(1)); } else if (a[0].c & 0xffffffff) curKnown = cstr(A(1)); return mk(0); };
  B(sym_unknown) { curKnown.clear(); return mk(0); };
  B(sym_note) { notes.push_back(cstr(A(0))); return mk(0); };
  B(sym_expect_exit) { expectExit = (int)A(0); return mk(0); };
  B(sym_done) { u64 dn = __sync_fetch_and_add(&SHM->doneN, 1); if (curKnown.empty() && (dn < 3 || (dn & (dn - 1)) == 0) && SHM->samplesN < 12) { u64 n = __sync_fetch_and_add(&SHM->samplesN, 1); if (n < 12) { std::string m = modelText(model), s = m; for (auto &c : s) if (c == '\n') c = ';'; std::string nt; for (auto &x : notes) nt = x + "; " + nt; s = nt + s; if (m.size() < 5999) strcpy(SHM->sampleModels[n], m.c_str()); strncpy(SHM->samples[n], s.c_str(), 399); } } endPath(true); };
  B(sym_sched) { schedOn = 1; preemptLeft = (int)A(0); return mk(0); };
  B(sym_heap_live) { return mk(heapLive); };
  B(sym_malloc_count) { return mk(mallocCount); };
  B(sym_out_reset) { outLen = 0; return mk(0); };
  B(sym_out_len) { return mk(outLen); };
  B(sym_out) { storeMem(outBuf + outLen, 8, mk(0)); return mk(outBuf); };
  B(sym_inst_limit) { gMaxInst = A(0); gHangViol = A(1); pathInst = 0; return mk(0); };
  B(sym_poison) { u64 p = A(0), n = A(1); memset(SHADOW(p), SH_FREED, n); return mk(0); };
  B(sym_unpoison) { u64 p = A(0), n = A(1); memset(SHADOW(p), SH_OK, n); return mk(0); };
  B(sym_debug) { fprintf(stderr, "[%d] %s %s\n", getpid(), cstr(A(0)).c_str(), a[1].s ? eStr(a[1].s, 6).c_str() : std::to_string((i64)a[1].c).c_str()); return mk(0); };
  // ---- setjmp / longjmp handled in doCall
  // ---- threads
  B(pthread_self) { return mk(T->id + 1); };
  B(pthread_mutex_init) { return mk(0); }; B(pthread_mutex_destroy) { return mk(0); };
  B(pthread_mutex_lock) { u64 m = A(0); chk(m, 40, true); 
    if (mxDepth.count(m) && mxDepth[m]) { T->st = T_MUTEX; T->waitOn = m; pickThread(false); return mk(0); }
    mxLock(m); if (schedOn) pickThread(true); return mk(0); };
  B(pthread_mutex_trylock) { u64 m = A(0); chk(m, 40, true); if (mxDepth.count(m) && mxDepth[m]) return mk(EBUSY); mxLock(m); return mk(0); };
  B(pthread_mutex_unlock) { u64 m = A(0); chk(m, 40, true); if (!mxDepth[m] || mxOwner[m] != T->id) { if (schedOn) crash("bad-unlock", "unlock of a mutex the thread does not hold"); return mk(0); }
    mxDepth[m] = 0; 
    std::vector<Th *> w; for (auto *t : th) if (t->st == T_MUTEX && t->waitOn == m) w.push_back(t);
    if (!w.empty()) { Th *n = w[0]; for (auto *t : w) if (t->order < n->order) n = t; 
      if (schedOn && w.size() > 1) { int wd = 1; while ((1u << wd) < w.size()) wd++; u64 s = newSym("mx#" + std::to_string(gSyms.size()), wd); Expr *e = eSym(s, wd); gen = newEvalGen(); if (w.size() < (1u << wd)) assume(eCmp(K_ULT, e, eConst(w.size(), wd))); n = w[concretize(e)]; }
      n->st = T_RUN; mxOwner[m] = n->id; mxDepth[m] = 1; }
    if (schedOn) pickThread(true); return mk(0); };
  auto cwait = [](std::vector<Val> &a, const CallInfo *ci) -> Val { u64 c = A(0), m = A(1); 
    T->st = T_COND; T->waitOn = c; T->waitMx = m; T->signaled = false; T->timed = a.size() > 2;
    mxDepth[m] = 0; for (auto *t : th) if (t->st == T_MUTEX && t->waitOn == m) { t->st = T_RUN; mxOwner[m] = t->id; mxDepth[m] = 1; break; }
    pickThread(false); return mk(0); };
  bis["pthread_cond_wait"] = bis["pthread_cond_timedwait"] = cwait;
  auto csig = [](u64 c, bool all) { for (auto *t : th) if (t->st == T_COND && t->waitOn == c) { u64 m = t->waitMx; if (mxDepth[m]) { t->st = T_MUTEX; t->waitOn = m; } else { t->st = T_RUN; mxOwner[m] = t->id; mxDepth[m] = 1; } if (!all) break; } };
  static auto csigF = csig;
  B(pthread_cond_signal) { csigF(A(0), false); if (schedOn) pickThread(true); return mk(0); };
  B(pthread_cond_broadcast) { csigF(A(0), true); if (schedOn) pickThread(true); return mk(0); };
  B(sched_yield) { if (schedOn) pickThread(true); else { // round robin
      Th *n = nullptr; for (auto *t : th) if (t->st == T_RUN && t != T && (!n || t->order < n->order)) n = t; if (n) { T->order = orderCtr++; n->order = orderCtr++; T = n; reschedule = true; } } return mk(0); };
  B(pthread_detach) { return mk(0); };
  for (auto *f : gFuncs) fnByName[f->name] = f;
  biByFn.assign(gFuncs.size(), nullptr);
  for (auto *f : gFuncs) {
    if (!f->decl) continue;
    std::string n = f->name;
    if (n.rfind("llvm.memcpy", 0) == 0) n = "memcpy"; else if (n.rfind("llvm.memmove", 0) == 0) n = "memmove"; else if (n.rfind("llvm.memset", 0) == 0) n = "memset";
    else if (n.rfind("llvm.floor", 0) == 0) n = "floor"; else if (n.rfind("llvm.ceil", 0) == 0) n = "ceil"; else if (n.rfind("llvm.fabs", 0) == 0) n = "fabs"; else if (n.rfind("llvm.trunc", 0) == 0) n = "trunc";
    auto it = bis.find(n); if (it != bis.end()) biByFn[f->idx] = it->second;
  }
}
static Th *newThread() {
  Th *t = new Th; t->id = th.size(); t->spBase = t->sp = STACK_BASE + t->id * STACK_SZ; t->st = T_RUN; t->pc = nullptr; t->order = orderCtr++; t->detached = t->joined = false; t->retval = 0; t->timed = false; t->signaled = false; t->waitOn = t->waitMx = 0;
  t->regTop = (Val *)mmap(0, 256 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->fr.reserve(4096); th.push_back(t); return t;
}
static void pushFrame(Func *f, const Inst *ret, std::vector<Val> &args, int nfixed) {
  if (f->code.empty()) engErr("call of undefined function %s", f->name.c_str());
  if (T->fr.size() > 30000) crash("stack-overflow", "native recursion deeper than 30000 frames");
  SHM->fnHit[f->idx] = 1;
  Frame fr; fr.f = f; fr.ret = ret; fr.sp = T->sp; fr.serial = serialCtr++; fr.va = 0;
  fr.regs = T->regTop; T->regTop += f->nregs;
  int n = std::min<int>(args.size(), f->nargs);
  for (int i = 0; i < n; i++) fr.regs[i] = args[i];
  for (int i = n; i < f->nargs; i++) fr.regs[i] = mk(0);
  if (f->vararg) { // spill variadic part
    int nv = (int)args.size() - f->nargs; if (nv < 0) nv = 0;
    u64 p = (T->sp + 15) & ~15ULL; memset(SHADOW(p), SH_OK, nv * 8 + 8); T->sp = p + nv * 8 + 16;
    for (int i = 0; i < nv; i++) { Val v = args[f->nargs + i]; if (v.s && v.s->w < 64) v = mk(eZext(v.s, 64)); storeMem(p + 8 * i, 64, v); }
    fr.va = p;
  }
  T->fr.push_back(fr); T->pc = f->code.data();
}
static u64 spillVa(std::vector<Val> &args, int nfixed) { // builds a va_list for a variadic builtin
  u64 p = (T->sp + 15) & ~15ULL; int nv = (int)args.size() - nfixed; memset(SHADOW(p), SH_OK, 24 + nv * 8 + 8);
  for (int i = 0; i < nv; i++) { Val v = args[nfixed + i]; if (v.s && v.s->w < 64) v = mk(eZext(v.s, 64)); storeMem(p + 24 + 8 * i, 64, v); }
  storeMem(p, 32, mk(48)); storeMem(p + 4, 32, mk(176)); storeMem(p + 8, 64, mk(p + 24)); storeMem(p + 16, 64, mk(0));
  return p;
}
static void popFrame() { Frame &f = T->fr.back(); if (T->sp > f.sp) memset(SHADOW(f.sp), 0, T->sp - f.sp); T->sp = f.sp; T->regTop = f.regs; T->fr.pop_back(); }
static void threadDone(u64 rv) {
  T->st = T_DEAD; T->retval = rv;
  while (!T->fr.empty()) popFrame();
  for (auto *t : th) if (t->st == T_JOIN && t->waitOn == (u64)T->id) { t->st = T_RUN; if (t->waitMx) { *(u64 *)t->waitMx = rv; } }
  pickThread(false);
}

static Expr *icmp(int pred, Expr *a, Expr *b) {
  switch (pred) {
  case 32: return eCmp(K_EQ, a, b); case 33: return eNot(eCmp(K_EQ, a, b));
  case 34: return eCmp(K_ULT, b, a); case 35: return eCmp(K_ULE, b, a); case 36: return eCmp(K_ULT, a, b); case 37: return eCmp(K_ULE, a, b);
  case 38: return eCmp(K_SLT, b, a); case 39: return eCmp(K_SLE, b, a); case 40: return eCmp(K_SLT, a, b); case 41: return eCmp(K_SLE, a, b);
  }
  abort();
}
static inline bool icmpC(int pred, u64 a, u64 b, int w) {
  i64 x = sextw(a, w), y = sextw(b, w);
  switch (pred) { case 32: return a == b; case 33: return a != b; case 34: return a > b; case 35: return a >= b; case 36: return a < b; case 37: return a <= b; case 38: return x > y; case 39: return x >= y; case 40: return x < y; case 41: return x <= y; }
  abort();
}
static Expr *fcmp(int pred, Expr *a, Expr *b) {
  Expr *un = eFCmp(K_FUNO, a, b);
  switch (pred) {
  case 0: return eConst(0, 1); case 1: return eFCmp(K_FEQ, a, b); case 2: return eFCmp(K_FLT, b, a); case 3: return eFCmp(K_FLE, b, a); case 4: return eFCmp(K_FLT, a, b); case 5: return eFCmp(K_FLE, a, b);
  case 6: return eBin(K_AND, eNot(un), eNot(eFCmp(K_FEQ, a, b))); case 7: return eNot(un); case 8: return un;
  case 9: return eBin(K_OR, un, eFCmp(K_FEQ, a, b)); case 10: return eNot(eFCmp(K_FLE, a, b)); case 11: return eNot(eFCmp(K_FLT, a, b)); case 12: return eNot(eFCmp(K_FLE, b, a)); case 13: return eNot(eFCmp(K_FLT, b, a)); case 14: return eNot(eFCmp(K_FEQ, a, b)); case 15: return eConst(1, 1);
  }
  abort();
}

#define RD(x) ((x) >= 0 ? regs[x] : gConsts[~(x)])
static void takeEdge(Edge *e, Val *regs) {
  size_t n = e->moves.size();
  if (n == 1) regs[e->moves[0].first] = RD(e->moves[0].second);
  else if (n) { Val tmp[64]; if (n > 64) { std::vector<Val> t(n); for (size_t i = 0; i < n; i++) t[i] = RD(e->moves[i].second); for (size_t i = 0; i < n; i++) regs[e->moves[i].first] = t[i]; }
    else { for (size_t i = 0; i < n; i++) tmp[i] = RD(e->moves[i].second); for (size_t i = 0; i < n; i++) regs[e->moves[i].first] = tmp[i]; } }
  T->pc = T->fr.back().f->code.data() + e->target;
}
// performs the call instruction at T->pc
static void doCall(const Inst *in, Val *regs) {
  CallInfo *ci = (CallInfo *)in->aux;
  Func *f;
  if (ci->callee >= 0) f = gFuncs[ci->callee];
  else { u64 a = C(RD(in->a)); auto it = gFuncByAddr.find(a); if (it == gFuncByAddr.end()) crash(a < 4096 ? "null-call" : "bad-call", "indirect call to 0x%llx", (unsigned long long)a); f = it->second; }
  std::vector<Val> args; args.reserve(ci->args.size());
  for (int x : ci->args) args.push_back(RD(x));
  if (!f->decl) { pushFrame(f, in, args, ci->nfixed); return; }
  const std::string &nm = f->name;
  BI b = biByFn[f->idx];
  if (!b) {
    if (nm == "_setjmp" || nm == "setjmp" || nm == "__sigsetjmp") {
      u64 buf = C(args[0]); chk(buf, 64, true); u64 id = jmpCtr++; *(u64 *)buf = id; jmps[id] = Jmp{(int)T->fr.size(), T->fr.back().serial, in};
      if (in->dst >= 0) regs[in->dst] = mk(0); T->pc = in + 1; return; }
    if (nm == "longjmp" || nm == "_longjmp" || nm == "siglongjmp") {
      u64 buf = C(args[0]); chk(buf, 64, false); u64 id = *(u64 *)buf; auto it = jmps.find(id); if (it == jmps.end()) crash("bad-longjmp", "longjmp through an uninitialised buffer");
      Jmp j = it->second; if ((int)T->fr.size() < j.depth || T->fr[j.depth - 1].serial != j.serial) crash("bad-longjmp", "longjmp into a frame that has returned");
      u64 v = C(args[1]) & 0xffffffff; if (!v) v = 1;
      while ((int)T->fr.size() > j.depth) popFrame();
      Val *r2 = T->fr.back().regs; if (j.pc->dst >= 0) r2[j.pc->dst] = mk(v); T->pc = j.pc + 1; return; }
    if (nm == "pthread_create") {
      Th *t = newThread(); Th *me = T; u64 fn = C(args[2]); auto it = gFuncByAddr.find(fn); if (it == gFuncByAddr.end()) crash("bad-call", "pthread_create");
      if (in->dst >= 0) regs[in->dst] = mk(0); storeMem(C(args[0]), 64, mk(t->id + 1)); T->pc = in + 1;
      std::vector<Val> a2{args[3]}; T = t; pushFrame(it->second, nullptr, a2, 1); T = me; if (schedOn) { pickThread(true); } return; }
    if (nm == "pthread_join") {
      u64 id = C(args[0]) - 1; if (id >= th.size()) crash("bad-join", "pthread_join"); if (in->dst >= 0) regs[in->dst] = mk(0); T->pc = in + 1;
      u64 rp = C(args[1]); if (th[id]->st == T_DEAD) { if (rp) storeMem(rp, 64, mk(th[id]->retval)); return; }
      T->st = T_JOIN; T->waitOn = id; T->waitMx = rp; pickThread(false); return; }
    if (nm == "pthread_exit") { u64 rv = C(args[0]); if (T->id == 0) { endPath(true); } threadDone(rv); return; }
    engErr("no model for external function %s", nm.c_str());
  }
  if (f->vararg) { u64 va = spillVa(args, ci->nfixed); args.resize(ci->nfixed); args.push_back(mk(va)); }
  SHM->fnHit[f->idx] = 1;
  tailFn = nullptr;
  Th *me = T;
  me->pc = in + 1;                      // builtins may switch threads
  Val v = b(args, ci);
  if (f->vararg) { u64 p = (me->sp + 15) & ~15ULL; memset(SHADOW(p), 0, 24 + 8 * 64); }
  if (tailFn) { Func *g = tailFn; tailFn = nullptr; pushFrame(g, in, args, ci->nfixed); return; }
  if (in->dst >= 0) { if (v.s) { if (in->w && v.s->w != in->w) v = mk(v.s->w > in->w ? eExtract(v.s, 0, in->w) : eZext(v.s, in->w)); } else if (in->w) v.c &= maskw(in->w); me->fr.back().regs[in->dst] = v; }
  reschedule = false;
}

static void run() {
  for (;;) {
    if (!T->fr.size()) { if (T->id == 0) endPath(true); pickThread(false); continue; }
    const Inst *in = T->pc; Val *regs = T->fr.back().regs;
    for (;;) {
      if (++instCount >= 1000000) { pathInst += instCount; flushCounters(); checkLimits(); if (pathInst > gMaxInst) { if (gHangViol) crash("hang", "no result after %llu instructions", (unsigned long long)gMaxInst); engErr("instruction limit"); } }
      switch (in->op) {
#define BINC(OP, expr, K) case OP: { Val a = RD(in->a), b = RD(in->b); if (!a.s && !b.s) { u64 x = a.c, y = b.c; (void)x; (void)y; regs[in->dst] = mk((u64)(expr) & maskw(in->w)); } else regs[in->dst] = mk(eBin(K, X(a, in->w), X(b, in->w))); in++; break; }
      BINC(O_ADD, x + y, K_ADD) BINC(O_SUB, x - y, K_SUB) BINC(O_MUL, x * y, K_MUL)
      BINC(O_AND, x & y, K_AND) BINC(O_OR, x | y, K_OR) BINC(O_XOR, x ^ y, K_XOR)
      BINC(O_SHL, y >= in->w ? 0 : x << y, K_SHL) BINC(O_LSHR, y >= in->w ? 0 : x >> y, K_LSHR)
      BINC(O_ASHR, sextw(x, in->w) >> (y >= in->w ? 63 : y), K_ASHR)
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
        Val a = RD(in->a), b = RD(in->b); EK k = in->op == O_UDIV ? K_UDIV : in->op == O_SDIV ? K_SDIV : in->op == O_UREM ? K_UREM : K_SREM;
        T->pc = in; Expr *bx = X(b, in->w), *ax = X(a, in->w);
        if (branchOn(eCmp(K_EQ, bx, eConst(0, in->w)))) crash("div-by-zero", "integer division by zero");
        if (k == K_SDIV || k == K_SREM) if (branchOn(eBin(K_AND, eCmp(K_EQ, bx, eConst(~0ULL, in->w)), eCmp(K_EQ, ax, eConst(1ULL << (in->w - 1), in->w))))) crash("div-overflow", "INT_MIN / -1");
        regs[in->dst] = mk(eBin(k, ax, bx)); in++; break; }
      case O_ICMP: { Val a = RD(in->a), b = RD(in->b); if (!a.s && !b.s) regs[in->dst] = mk((u64)icmpC(in->pred, a.c, b.c, in->w)); else regs[in->dst] = mk(icmp(in->pred, X(a, in->w), X(b, in->w))); in++; break; }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
        Val a = RD(in->a), b = RD(in->b); T->pc = in;
        if (in->w == 32) { float x, y; u32 p = C(a), q = C(b); memcpy(&x, &p, 4); memcpy(&y, &q, 4); float r = in->op == O_FADD ? x + y : in->op == O_FSUB ? x - y : in->op == O_FMUL ? x * y : in->op == O_FDIV ? x / y : fmodf(x, y); memcpy(&p, &r, 4); regs[in->dst] = mk((u64)p); in++; break; }
        EK k = in->op == O_FADD ? K_FADD : in->op == O_FSUB ? K_FSUB : in->op == O_FMUL ? K_FMUL : in->op == O_FDIV ? K_FDIV : K_FREM;
        if (!a.s && !b.s) regs[in->dst] = mk(fpop(k, a.c, b.c)); else regs[in->dst] = mk(eFBin(k, X(a, 64), X(b, 64))); in++; break; }
      case O_FNEG: { Val a = RD(in->a); if (!a.s) regs[in->dst] = mk(a.c ^ (1ULL << (in->w - 1))); else regs[in->dst] = mk(eFNeg(X(a, 64))); in++; break; }
      case O_FCMP: { Val a = RD(in->a), b = RD(in->b); T->pc = in;
        if (in->w == 32) { u32 p = C(a), q = C(b); float x, y; memcpy(&x, &p, 4); memcpy(&y, &q, 4); a = mk(d2u(x)); b = mk(d2u(y)); }
        regs[in->dst] = mk(fcmp(in->pred, X(a, 64), X(b, 64))); in++; break; }
      case O_TRUNC: { Val a = RD(in->a); if (a.s) regs[in->dst] = mk(eExtract(X(a, in->w2), 0, in->w)); else regs[in->dst] = mk(a.c & maskw(in->w)); in++; break; }
      case O_ZEXT: { Val a = RD(in->a); if (a.s) regs[in->dst] = mk(eZext(X(a, in->w2), in->w)); else regs[in->dst] = a; in++; break; }
      case O_SEXT: { Val a = RD(in->a); if (a.s) regs[in->dst] = mk(eSext(X(a, in->w2), in->w)); else regs[in->dst] = mk((u64)sextw(a.c, in->w2) & maskw(in->w)); in++; break; }
      case O_FPTOSI: case O_FPTOUI: { Val a = RD(in->a); T->pc = in; if (in->w2 == 32) { u32 p = C(a); float x; memcpy(&x, &p, 4); a = mk(d2u(x)); } if (a.s) regs[in->dst] = mk(eFtoI(X(a, 64), in->w, in->op == O_FPTOSI)); else regs[in->dst] = mk(ftoi(a.c, in->w, in->op == O_FPTOSI)); in++; break; }
      case O_SITOFP: case O_UITOFP: { Val a = RD(in->a); T->pc = in; bool sg = in->op == O_SITOFP;
        if (in->w == 32) { u64 x = C(a); float f = sg ? (float)sextw(x, in->w2) : (float)x; u32 p; memcpy(&p, &f, 4); regs[in->dst] = mk((u64)p); in++; break; }
        if (a.s) regs[in->dst] = mk(eItoF(X(a, in->w2), sg)); else regs[in->dst] = mk(d2u(sg ? (double)sextw(a.c, in->w2) : (double)a.c)); in++; break; }
      case O_FPTRUNC: { T->pc = in; u64 x = C(RD(in->a)); float f = (float)u2d(x); u32 p; memcpy(&p, &f, 4); regs[in->dst] = mk((u64)p); in++; break; }
      case O_FPEXT: { T->pc = in; u32 x = C(RD(in->a)); float f; memcpy(&f, &x, 4); regs[in->dst] = mk(d2u((double)f)); in++; break; }
      case O_MOV: { Val a = RD(in->a); regs[in->dst] = a; in++; break; }
      case O_SELECT: { Val c = RD(in->a), x = RD(in->b), y = RD(in->c); if (!c.s) regs[in->dst] = c.c & 1 ? x : y; else regs[in->dst] = mk(eIte(X(c, 1), X(x, in->w), X(y, in->w))); in++; break; }
      case O_LOAD: { Val a = RD(in->a); T->pc = in;
        if (a.s) { Expr *ad = in->imm ? eBin(K_ADD, a.s, eConst(in->imm, 64)) : a.s; Val o; if (symLoad(ad, in->w, &o)) { regs[in->dst] = o; in++; break; } regs[in->dst] = loadMem(concretize(ad), in->w); in++; break; }
        regs[in->dst] = loadMem(a.c + in->imm, in->w); in++; break; }
      case O_STORE: { Val v = RD(in->a), a = RD(in->b); T->pc = in; storeMem(C(a) + in->imm, in->w, v); in++; break; }
      case O_ALLOCA: { u64 n = C(RD(in->a)) * in->imm; u64 al = in->w2 < 16 ? 16 : in->w2; u64 p = (T->sp + 16 + al - 1) & ~(al - 1); T->sp = p + n + 16; if (T->sp > T->spBase + STACK_SZ) { T->pc = in; crash("stack-overflow", "guest stack exhausted"); } memset(SHADOW(p), SH_OK, n); regs[in->dst] = mk(p); in++; break; }
      case O_GEP: { Val a = RD(in->a); 
        if (!in->aux) { if (!a.s) regs[in->dst] = mk(a.c + in->imm); else regs[in->dst] = mk(eBin(K_ADD, a.s, eConst(in->imm, 64))); in++; break; }
        auto *ps = (std::vector<GepPart> *)in->aux; u64 acc = in->imm; Expr *se = nullptr; if (a.s) se = a.s; else acc += a.c;
        for (auto &p : *ps) { Val v = RD(p.op); if (!v.s) acc += (u64)sextw(v.c, p.w) * p.scale; else { Expr *t = eBin(K_MUL, eSext(X(v, p.w), 64), eConst(p.scale, 64)); se = se ? eBin(K_ADD, se, t) : t; } }
        if (!se) regs[in->dst] = mk(acc); else regs[in->dst] = mk(eBin(K_ADD, se, eConst(acc, 64))); in++; break; }
      case O_BR: takeEdge((Edge *)in->aux, regs); in = T->pc; break;
      case O_CONDBR: { Val c = RD(in->a); bool v; if (c.s) { T->pc = in; v = branchOn(X(c, 1)); } else v = c.c & 1; takeEdge(((Edge **)in->aux)[v ? 0 : 1], regs); in = T->pc; break; }
      case O_SWITCH: { Val c = RD(in->a); auto *v = (std::vector<std::pair<u64, Edge *>> *)in->aux; Edge *tk = nullptr;
        if (!c.s) { for (size_t i = 1; i < v->size(); i++) if ((*v)[i].first == c.c) { tk = (*v)[i].second; break; } if (!tk) tk = (*v)[0].second; }
        else { T->pc = in; Expr *e = X(c, in->w); std::map<int, Expr *> byT; std::vector<std::pair<int, Edge *>> ord;
          for (size_t i = 1; i < v->size(); i++) { Expr *q = eCmp(K_EQ, e, eConst((*v)[i].first, in->w)); if (q->k == K_CONST && !q->c) continue; Edge *ed = (*v)[i].second; bool simple = ed->moves.empty(); int key = simple ? ed->target : -(int)i; auto it = byT.find(key); if (it == byT.end()) { byT[key] = q; ord.push_back({key, ed}); } else it->second = eBin(K_OR, it->second, q); }
          for (auto &o : ord) if (branchOn(byT[o.first])) { tk = o.second; break; }
          if (!tk) tk = (*v)[0].second; }
        takeEdge(tk, regs); in = T->pc; break; }
      case O_INDIRECTBR: { T->pc = in; u64 a = C(RD(in->a)); auto *v = (std::vector<std::pair<u64, Edge *>> *)in->aux; Edge *tk = nullptr; for (auto &p : *v) if (p.first == a) { tk = p.second; break; } if (!tk) crash("bad-jump", "indirect jump to 0x%llx", (unsigned long long)a); takeEdge(tk, regs); in = T->pc; break; }
      case O_CALL: { T->pc = in; Th *me = T; doCall(in, regs); (void)me; goto reload; }
      case O_RET: { auto *s = (std::vector<int> *)in->aux; Val rv[16]; int n = s->size(); for (int i = 0; i < n && i < 16; i++) rv[i] = RD((*s)[i]);
        const Inst *ret = T->fr.back().ret; T->pc = in; popFrame();
        if (T->fr.empty()) { if (T->id == 0) endPath(true); threadDone(n ? C(rv[0]) : 0); goto reload; }
        Val *r2 = T->fr.back().regs; if (ret->dst >= 0) for (int i = 0; i < n; i++) { Val v = rv[i]; if (n == 1 && ret->w) { if (v.s && v.s->w != ret->w) v = mk(X(v, ret->w)); else if (!v.s) v.c &= maskw(ret->w); } r2[ret->dst + i] = v; }
        T->pc = ret + 1; goto reload; }
      case O_UNREACHABLE: T->pc = in; crash("unreachable", "unreachable code executed");
      case O_NOP: in++; break;
      case O_OVF: { Val a = RD(in->a), b = RD(in->b); int w = in->w; T->pc = in;
        if (!a.s && !b.s) { u64 r = 0; bool ov = false; i64 x = sextw(a.c, w), y = sextw(b.c, w); __int128 q; unsigned __int128 uq;
          switch (in->pred) { case 0: q = (__int128)x + y; break; case 2: q = (__int128)x - y; break; case 4: q = (__int128)x * y; break; default: q = 0; }
          if (in->pred % 2 == 0) { r = (u64)q & maskw(w); ov = (__int128)sextw(r, w) != q; }
          else { switch (in->pred) { case 1: uq = (unsigned __int128)a.c + b.c; break; case 3: uq = (unsigned __int128)a.c - b.c; break; default: uq = (unsigned __int128)a.c * b.c; } r = (u64)uq & maskw(w); ov = (unsigned __int128)r != uq; }
          regs[in->dst] = mk(r); regs[in->dst + 1] = mk((u64)ov); }
        else { Expr *x = X(a, w), *y = X(b, w);
          if (in->pred == 1) { Expr *r = eBin(K_ADD, x, y); regs[in->dst] = mk(r); regs[in->dst + 1] = mk(eCmp(K_ULT, r, x)); }
          else if (in->pred == 3) { regs[in->dst] = mk(eBin(K_SUB, x, y)); regs[in->dst + 1] = mk(eCmp(K_ULT, x, y)); }
          else if (w <= 32) { bool sg = in->pred % 2 == 0; Expr *X2 = sg ? eSext(x, 64) : eZext(x, 64), *Y2 = sg ? eSext(y, 64) : eZext(y, 64); Expr *r = eBin(in->pred < 2 ? K_ADD : in->pred < 4 ? K_SUB : K_MUL, X2, Y2); Expr *lo = eExtract(r, 0, w); regs[in->dst] = mk(lo); regs[in->dst + 1] = mk(eNot(eCmp(K_EQ, sg ? eSext(lo, 64) : eZext(lo, 64), r))); }
          else { u64 p = concretize(x), q = concretize(y); __int128 r; if (in->pred == 0) r = (__int128)(i64)p + (i64)q; else if (in->pred == 2) r = (__int128)(i64)p - (i64)q; else if (in->pred == 4) r = (__int128)(i64)p * (i64)q; else { unsigned __int128 z = (unsigned __int128)p * q; regs[in->dst] = mk((u64)z); regs[in->dst + 1] = mk((u64)(z >> 64 != 0)); in++; break; } regs[in->dst] = mk((u64)r); regs[in->dst + 1] = mk((u64)((__int128)(i64)(u64)r != r)); } }
        in++; break; }
      case O_MINMAX: { Val a = RD(in->a), b = RD(in->b); Expr *x = X(a, in->w), *y = X(b, in->w); Expr *c = in->pred < 2 ? eCmp(K_ULT, x, y) : eCmp(K_SLT, x, y); regs[in->dst] = mk(in->pred % 2 == 0 ? eIte(c, x, y) : eIte(c, y, x)); in++; break; }
      case O_ABS: { Expr *x = X(RD(in->a), in->w); regs[in->dst] = mk(eIte(eCmp(K_SLT, x, eConst(0, in->w)), eBin(K_SUB, eConst(0, in->w), x), x)); in++; break; }
      case O_BSWAP: { Expr *x = X(RD(in->a), in->w), *r = nullptr; for (int i = 0; i < in->w; i += 8) { Expr *b = eExtract(x, i, 8); r = r ? eConcat(r, b) : b; } regs[in->dst] = mk(r); in++; break; }
      case O_CTPOP: { T->pc = in; regs[in->dst] = mk((u64)__builtin_popcountll(C(RD(in->a)))); in++; break; }
      case O_CTLZ: { T->pc = in; u64 x = C(RD(in->a)); regs[in->dst] = mk(x ? (u64)(__builtin_clzll(x) - (64 - in->w)) : in->w); in++; break; }
      case O_CTTZ: { T->pc = in; u64 x = C(RD(in->a)); regs[in->dst] = mk(x ? (u64)__builtin_ctzll(x) : in->w); in++; break; }
      case O_FSH: { T->pc = in; u64 s = C(RD(in->c)) % in->w; Expr *x = X(RD(in->a), in->w), *y = X(RD(in->b), in->w); Expr *r;
        if (!s) r = in->pred ? y : x; else if (!in->pred) r = eBin(K_OR, eBin(K_SHL, x, eConst(s, in->w)), eBin(K_LSHR, y, eConst(in->w - s, in->w))); else r = eBin(K_OR, eBin(K_SHL, x, eConst(in->w - s, in->w)), eBin(K_LSHR, y, eConst(s, in->w)));
        regs[in->dst] = mk(r); in++; break; }
      case O_LOADREL: { Val a = RD(in->a), o = RD(in->b); T->pc = in;
        if (o.s) { o = mk(concretize(o.s)); } u64 base = C(a); i64 rel = (i64)(int32_t)loadMem(base + o.c, 32).c; regs[in->dst] = mk(base + rel); in++; break; }
      case O_VAINTR: { T->pc = in; if (in->pred == 0) { u64 p = C(RD(in->a)); storeMem(p, 32, mk(48)); storeMem(p + 4, 32, mk(176)); storeMem(p + 8, 64, mk(T->fr.back().va)); storeMem(p + 16, 64, mk(0)); } else copyMem(C(RD(in->a)), C(RD(in->b)), 24); in++; break; }
      case O_UNSUPPORTED: T->pc = in; engErr("unsupported instruction %s", (char *)in->aux);
      default: T->pc = in; engErr("opcode %d", in->op);
      }
    }
  reload:;
  }
}

// ------------------------------------------------------------ report
static std::string jstr(const char *s) { std::string o = "\""; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static const char *outPath; static double tStart;
void report() {
  FILE *f = fopen(outPath, "w"); if (!f) { perror(outPath); exit(3); }
  fprintf(f, "{\"paths\":%llu,\"paths_cut\":%llu,\"forks\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"unknowns\":%llu,\"insts\":%llu,\"concretizations\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"engine_errors\":%llu,\"stop\":%d,\"wall_s\":%.2f,\n", (unsigned long long)SHM->paths, (unsigned long long)SHM->pathsCut, (unsigned long long)SHM->forks, (unsigned long long)SHM->queries, SHM->solverUs / 1e6, SHM->maxQueryUs / 1e6, (unsigned long long)SHM->unknowns, (unsigned long long)SHM->insts, (unsigned long long)SHM->concretizations, (unsigned long long)SHM->checks, (unsigned long long)SHM->checksSym, (unsigned long long)SHM->engineErr, SHM->stop, nowS() - tStart);
  fprintf(f, "\"error\":%s,\n\"labels\":[", jstr(SHM->errMsg).c_str());
  for (int i = 0; i < SHM->nlabel; i++) fprintf(f, "%s{\"name\":%s,\"kind\":%d,\"reached\":%llu,\"proved\":%llu,\"sat\":%llu}", i ? "," : "", jstr(SHM->labels[i].name).c_str(), SHM->labels[i].kind, (unsigned long long)SHM->labels[i].reached, (unsigned long long)SHM->labels[i].proved, (unsigned long long)SHM->labels[i].sat);
  fprintf(f, "],\n\"violations\":[");
  for (int i = 0; i < SHM->nviol; i++) { Viol &v = SHM->viol[i]; fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"detail\":%s,\"known\":%s,\"model\":%s}", i ? ",\n" : "", jstr(v.kind).c_str(), jstr(v.label).c_str(), jstr(v.detail).c_str(), jstr(v.known).c_str(), jstr(v.model).c_str()); }
  fprintf(f, "],\n\"samples\":["); int ns = (int)std::min<u64>((u64)SHM->samplesN, 12); for (int i = 0; i < ns; i++) fprintf(f, "%s%s", i ? "," : "", jstr(SHM->samples[i]).c_str());
  fprintf(f, "],\n\"sample_models\":["); for (int i = 0; i < ns; i++) fprintf(f, "%s%s", i ? "," : "", jstr(SHM->sampleModels[i]).c_str());
  fprintf(f, "],\n\"functions\":["); bool first = true;
  for (auto *fn : gFuncs) if (!fn->decl && SHM->fnHit[fn->idx]) { fprintf(f, "%s%s", first ? "" : ",", jstr(fn->name.c_str()).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
static bool gParseOk(int argc, char **argv);
int main(int argc, char **argv) {
  const char *bc = nullptr; int jobs = 8; double tmo = 60; u64 seedArg = 0; (void)seedArg; std::vector<std::pair<std::string, u64>> params; const char *entry = "harness";
  for (int i = 1; i < argc; i++) { std::string s = argv[i];
    if (s == "-o") outPath = argv[++i]; else if (s == "-j") jobs = atoi(argv[++i]); else if (s == "-t") tmo = atof(argv[++i]); else if (s == "-k") gKnownIds.push_back(argv[++i]);
    else if (s == "-I") gMaxInst = strtoull(argv[++i], 0, 10); else if (s == "-P") gMaxPaths = strtoull(argv[++i], 0, 10); else if (s == "-r") gRlimit = atoi(argv[++i]);
    else if (s == "-e") entry = argv[++i]; else if (s == "-C") gConcLimit = atoi(argv[++i]); else bc = argv[i]; }
  if (!bc || !outPath) { fprintf(stderr, "usage: symex -o out.json [-j n] [-t s] file.bc\n"); return 3; }
  tStart = nowS(); gDeadline = tStart + tmo;
  if (mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap arena"); return 3; }
  if (mmap((void *)SHADOW(ARENA), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap shadow"); return 3; }
  SHM = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SHM->tokens = jobs - 1; rootPid = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct rlimit st; getrlimit(RLIMIT_STACK, &st);
  loadModule(bc);
  if (gFuncs.size() >= MAXFN) { fprintf(stderr, "too many functions\n"); return 3; }
  setBuiltins();
  solverInit(); gen = newEvalGen();
  outBuf = globAlloc(OUTCAP, 16);
  auto mkFile = [](const char *n, u64 &v) { v = globAlloc(256, 16); auto it = gGlobalAddr.find(n); if (it != gGlobalAddr.end()) *(u64 *)it->second = v; };
  mkFile("stdout", stdoutF); mkFile("stderr", stderrF); mkFile("stdin", stdinF);
  if (gGlobalAddr.count("environ")) { u64 e = globAlloc(8, 16); *(u64 *)gGlobalAddr["environ"] = e; }
  Func *h = gf(entry); if (!h || h->decl) { fprintf(stderr, "no entry %s\n", entry); return 3; }
  T = newThread(); std::vector<Val> none; pushFrame(h, nullptr, none, 0);
  run();
}
