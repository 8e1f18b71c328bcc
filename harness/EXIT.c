// Leaving the interpreter: the real main() runs a script that ends in any of the ways a script can end, with any exit handlers and finalizers.
// The order of everything that ran, the exit status, and that all output has reached the file by then.
#include "hx.h"
#define main clox_main
#include "main.c"
#undef main
#ifndef NH
#define NH 2
#endif
static char src[6000]; static int sl, isleft;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static char want[400]; static int nw, wantst; static uint64_t flushed; static int guard;
static void W(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); nw += vsnprintf(want + nw, sizeof want - nw, f, ap); __builtin_va_end(ap); }
static int st[8];
static void left(int status) {
  if (isleft) return; isleft = 1; guard = 1;
  uint64_t n = sym_out_len(); char *o = sym_out(), got[400]; int i, same = n == (uint64_t)nw;
  for (i = 0; i < (int)n && i < 399; i++) got[i] = o[i]; got[i] = 0;
  for (i = 0; i < (int)n && i < nw; i++) same &= o[i] == want[i];
  if (!same) { char b[900]; snprintf(b, 900, "printed '%s' want '%s'", got, want); for (i = 0; b[i]; i++) if (b[i] == '\n') b[i] = ' '; sym_note(b); }
  sym_check(same, "everything that has to run at exit ran once, in order");
  sym_check(flushed == n, "all output has been written when the process ends");
  sym_check(status == wantst, "exit status");
  sym_cover("exit");
  sym_done();
}
void __wrap__exit(int s) { left(s); for (;;); }
void __wrap_exit(int s) { if (!guard) flushed = sym_out_len(); left(s); for (;;); }
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) { if (!guard && (f == stdout || f == NULL)) { guard = 1; flushed = sym_out_len(); guard = 0; } return __real_fflush(f); }
ObjFunction *__wrap_compile_file(char *name, CompileErr *err) {
  for (int i = 0; i < 8; i++) { char b[8]; snprintf(b, 8, "e%d", i); tableSet(&vm.globals, OBJ_VAL(INTERN(b)), NUMBER_VAL((double)st[i])); }
  return compile_src(src, err);
}
int harness(void) {
  int i, nh = sym_choice("handlers", NH + 1), kind[4], nfin = sym_choice("finalizer", 2), over = 0, skip = 0;
  sym_expect_exit(1);
  for (i = 0; i < 8; i++) { char b[8]; snprintf(b, 8, "e%d", i); st[i] = (int)sym_int(b, 0, 255); }
  P("fun tr(x) { print(x); } class I {} ");
  if (nfin) P("var obj = I(); GC.setFinalizer(obj, fun(x) { tr(\"fin\"); }); fun gone() { GC.setFinalizer(I(), fun(x) { tr(\"gone\"); }); } ");
  for (i = 0; i < nh; i++) {
    kind[i] = sym_choice("handler", 6);
    P("atExit(fun() { tr(\"h%d\"); ", i);
    switch (kind[i]) {
    case 1: P("exit(e%d); ", i); break;
    case 2: P("throw Error(\"in handler\"); "); break;
    case 3: P("atExit(fun() { tr(\"n%d\"); }); ", i); break;
    case 4: P("fun inner() { try { exit(e%d); } ensure { tr(\"bad\"); } } inner(); tr(\"bad\"); ", i); break;
    case 5: P("try { throw Error(\"x\"); } catch (Error e) { tr(\"c%d\"); } ", i); break;
    }
    P("}); ");
  }
  P("tr(\"m1\"); "); W("m1\n");
  int end = sym_choice("end", 17);
  switch (end) {
  case 0: wantst = 0; break;
  case 1: P("exit(e4); tr(\"bad\"); "); wantst = st[4]; break;
  case 2: P("exit(); tr(\"bad\"); "); wantst = 0; break;
  case 3: P("fun f(n) { if (n == 0) { exit(e4); } try { f(n - 1); } catch (Error e) { tr(\"bad\"); } tr(\"bad\"); } f(2); "); wantst = st[4]; break;
  case 4: P("throw Error(\"uncaught\"); tr(\"bad\"); "); wantst = 1; break;
  case 5: P("fun g() { try { throw Error(\"a\"); } catch (Error e) { tr(\"c\"); exit(e4); } } g(); tr(\"bad\"); "); W("c\n"); wantst = st[4]; break;
  case 6: P("_exit(e4); tr(\"bad\"); "); wantst = st[4]; skip = 1; break;
  case 7: P("[1, 2].each() -> (x) { tr(x); exit(e4); }; tr(\"bad\"); "); W("1\n"); wantst = st[4]; break;
  case 8: P("try { throw Error(\"b\"); } catch (Error e) { tr(\"c\"); } "); W("c\n"); wantst = 0; break;
  case 9: P("class D { init() { exit(e4); } } tr(String(D())); "); wantst = st[4]; break;
  case 10: P("fun h() { throw Error(\"deep\"); } [1].map() -> (x) { h(); }; tr(\"bad\"); "); wantst = 1; break;
  case 11: P("fun t() { tr(\"t\"); exit(e4); tr(\"bad\"); } joinThread(newThread(t)); tr(\"m2\"); exit(e5); "); W("t\nm2\n"); wantst = st[5]; break;
  case 12: P("fun t() { tr(\"t\"); throw Error(\"in thread\"); tr(\"bad\"); } joinThread(newThread(t)); tr(\"m2\"); "); W("t\nm2\n"); wantst = 0; break;
  case 14: P("var = ;"); nw = 0; wantst = 1; skip = 2; break;
  case 15: P("class Q { opAdd(o) { exit(e4); } } fun q(a, b = Q() + 1) { tr(\"bad\"); } q(1); "); wantst = st[4]; break;
  case 16: P("fun r() { foreach (x in [1, 2]) { try { if (x == 2) { exit(e4); } tr(x); continue; } catch (Error e) { tr(\"bad\"); } } } r(); "); W("1\n"); wantst = st[4]; break;
  case 13: P("eval(\"exit(e4);\"); tr(\"bad\"); "); wantst = st[4]; break;
  }
  if (nfin && end == 0) { P("gone(); GC.collect(); GC.collect(); tr(\"m3\"); "); W("gone\nm3\n"); }
  if (!skip) for (i = nh - 1; i >= 0; i--) {
    W("h%d\n", i);
    if (kind[i] == 1 || kind[i] == 4) wantst = st[i], over = 1;
    else if (kind[i] == 2) wantst = wantst ? wantst : 1;
    else if (kind[i] == 3) W("n%d\n", i);
    else if (kind[i] == 5) W("c%d\n", i);
  }
  if (nfin && skip != 2) W("fin\n");
  (void)over;
  sym_note(src);
  sym_out_reset();
  static char *argv[] = { "clox", "-f", "/x.lox", NULL };
  clox_main(3, argv);
  sym_check(0, "main does not return");
  sym_done();
}
