// Closures in closures: variables of three levels captured in any order, read and written at every level.
#include "hx.h"
#ifndef NINNER
#define NINNER 3
#endif
static const char *V[] = { "a", "b", "c", "d", "e", "h" };
static char src[3000]; static int sl;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static Value logv[100]; static int nlog; static double wantv[100]; static int nwant;
static Value nLog(int c, Value *a) { if (nlog < 100) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(double v) { if (nwant < 100) wantv[nwant++] = v; }
static int inner[NINNER], pre, post, kind, route;
static void op(int v, int k) { if (v >= 0) P("%s += %d; log(%s); ", V[v], k, V[v]); }
static double L0[3], L1[2][2];
static double *cell(int v, int inst, double *h) { return v < 3 ? &L0[v] : v < 5 ? &L1[inst][v - 3] : h; }
static void evop(int v, int k, int inst, double *h) { if (v < 0) return; *cell(v, inst, h) += k; want(*cell(v, inst, h)); }
static double calls(int inst) { double h = 500; int i; for (i = 0; i < NINNER; i++) evop(inner[i], i + 1, inst, &h); return h; }
static double make(int inst, double d) { L1[inst][0] = d; L1[inst][1] = d + 20; evop(pre, 7, inst, 0); if (kind != 1) evop(post, 9, inst, 0); return 0; }
int harness(void) {
  int i; hx_init(); addGlobalFunction("log", nLog);
  double A = (double)sym_int("A", -9, 9), B = (double)sym_int("B", -9, 9), D = (double)sym_int("D", -9, 9); hx_set("pa", NUMBER_VAL(A)); hx_set("pb", NUMBER_VAL(B)); hx_set("pd", NUMBER_VAL(D));
  kind = sym_choice("kind", 3);           // closures returned, called where they are written, or methods of blocks
  for (i = 0; i < NINNER; i++) inner[i] = sym_choice("inner", 6);
  pre = (int)sym_choice("pre", 6) - 1; post = (int)sym_choice("post", 4) * 2 - 1; if (post == 5) post = 4;
  P("fun junk(x, y) { var p = 50; var q = 60; return x + y + p + q; } ");
  P("fun run(a, b) { var c = 30; ");
  const char *head = kind == 2 ? "var gs = []; [pd, pd + 1].each() -> (d) { var e = d + 20; " : "var f = fun(d) { var e = d + 20; ";
  P("%s", head); op(pre, 7);
  P("var g = fun() { var h = 500; "); for (i = 0; i < NINNER; i++) op(inner[i], i + 1); P("return h; }; ");
  if (kind == 0) { op(post, 9); P("return g; }; var g1 = f(pd); var g2 = f(pd + 1); c += 100; log(g1()); log(g2()); return [g1, g2, fun() { return a + b * 100 + c * 10000; }]; } "); }
  else if (kind == 1) { P("log(g()); "); op(post, 9); P("log(g()); return g; }; var g1 = f(pd); var g2 = f(pd + 1); c += 100; return [g1, g2, fun() { return a + b * 100 + c * 10000; }]; } "); }
  else { op(post, 9); P("gs.push(g); }; c += 100; var g1 = gs[0]; var g2 = gs[1]; log(g1()); log(g2()); return [g1, g2, fun() { return a + b * 100 + c * 10000; }]; } "); }
  P("var r = run(pa, pb); junk(1, 2); log(r[0]()); junk(3, 4); log(r[1]()); log(r[0]()); log(r[2]()); var done = true;");
  sym_note(src);
  L0[0] = A; L0[1] = B; L0[2] = 30;
  for (i = 0; i < 2; i++) { make(i, D + i); if (kind == 1) { double h = calls(i); want(h); evop(post, 9, i, 0); want(calls(i)); } }
  L0[2] += 100;
  if (kind != 1) { want(calls(0)); want(calls(1)); }
  want(calls(0)); want(calls(1)); want(calls(0)); want(L0[0] + L0[1] * 100 + L0[2] * 10000);
  sym_check(hx_run(src), "the program runs to its end");
  sym_check(nlog == nwant, "every statement ran");
  for (i = 0; i < nlog && i < nwant; i++) sym_check(IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i], "every closure sees its own variables");
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_cover("nested closures");
  sym_done();
}
