// Closures: generated nestings of scopes whose variables are captured, left in every way,
// against a reference with one cell per variable instance.
#include "hx.h"
#ifndef CONS
#define CONS {0,1,2,3,4,5,6,7,8,9}
#endif
#ifndef STMTS
#define STMTS {0,1,2,3,4,5,6,7,8}
#endif
#ifndef SLOTS
#define SLOTS 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
static const int cons[] = CONS, stmts[] = STMTS;
enum { WHILE, FOR, FOREACH1, FOREACH2, BLOCK, IF, TRY, CATCH, CALL, YBLK };
enum { NORMAL, BREAK, CONT, RET, THROW };
typedef struct Nd { int k, n, s[4]; struct Nd *in[4]; } Nd;
static Nd pool[10]; static int npool, uid;
static int64_t p[3];
static char src[9000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static Value logv[300]; static int nlog;
static double wantv[300]; static int nwant;
static Value nLog(int c, Value *a) { if (nlog < 300) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(double v) { if (nwant < 300) wantv[nwant++] = v; }
static double cell[300]; static int ncell;
static struct { int kind, a, b; } fn[80]; static int nfn;
static int newcell(double v) { cell[ncell] = v; return ncell++; }
static void addFn(int kind, int a, int b) { fn[nfn].kind = kind; fn[nfn].a = a; fn[nfn++].b = b; }
static double callFn(int f) {
  double *a = &cell[fn[f].a], *b = &cell[fn[f].b];
  switch (fn[f].kind) { case 0: *a = *a + 1; return *a; case 1: return *a; case 2: *b = *b + *a; return *b; default: *a = *a * 2; *b = *b + 1; return *a + *b; }
}
static Nd *gen(int depth) {
  Nd *x = &pool[npool++]; int i;
  x->k = cons[sym_choice(depth ? "inner construct" : "construct", sizeof cons / sizeof *cons)]; x->n = depth < DEPTH ? SLOTS : 1;
  for (i = 0; i < x->n; i++) {
    x->s[i] = stmts[sym_choice("statement", sizeof stmts / sizeof *stmts)];
    if (x->s[i] == 8) { if (depth >= DEPTH || i > 0) sym_assume(0); x->in[i] = gen(depth + 1); }
    if ((x->s[i] == 4 || x->s[i] == 5) && x->k >= IF && x->k != YBLK) sym_assume(0);
  }
  return x;
}
static void emit(Nd *x, int d);
static void body(Nd *x, int d) {
  int i;
  for (i = 0; i < x->n; i++) switch (x->s[i]) {
    case 0: O("var l%d%d = 100 + i%d; fns.push(fun() { l%d%d += 1; return l%d%d; }); ", d, i, d, d, i, d, i); break;
    case 1: O("fns.push(fun() { i%d += 1; return i%d; }); ", d, d); break;
    case 2: O("fns.push(fun() { return a; }); a = a + 1; "); break;
    case 3: O("var m%d%d = 200 + i%d; fns.push((fun() { return fun() { a = a + m%d%d; return a; }; })()); m%d%d = m%d%d + 5; ", d, i, d, d, i, d, i, d, i); break;
    case 4: O("var k%d%d = 300; if (i%d == p0) { fns.push(fun() { k%d%d += 1; return k%d%d; }); break; } ", d, i, d, d, i, d, i); break;
    case 5: O("var k%d%d = 400; fns.push(fun() { k%d%d += 1; return k%d%d; }); if (i%d == p1) { continue; } ", d, i, d, i, d, i, d); break;
    case 6: O("if (i%d == p2) { var t = 500; fns.push(fun() { t += 1; return t; }); throw Error(\"x\"); } ", d); break;
    case 7: O("var u%d%d = 600; var v%d%d = 700; fns.push(fun() { u%d%d = u%d%d * 2; v%d%d += 1; return u%d%d + v%d%d; }); log(fns.last()()); ", d, i, d, i, d, i, d, i, d, i, d, i, d, i); break;
    default: emit(x->in[i], d + 1); O("log(i%d); ", d); break;
  }
}
static void emit(Nd *x, int d) {
  switch (x->k) {
  case WHILE: O("var w%d = 0; while (w%d < 2) { var i%d = w%d; w%d += 1; ", d, d, d, d, d); body(x, d); O("} log(w%d); ", d); break;
  case FOR: O("for (var i%d = 0; i%d < 3; i%d += 1) { ", d, d, d); body(x, d); O("} "); break;
  case FOREACH1: O("foreach (i%d in [0, 1, 2]) { ", d); body(x, d); O("} "); break;
  case FOREACH2: O("foreach (i%d, j%d in [[0, 10], [1, 11]]) { fns.push(fun() { j%d += 1; return j%d; }); ", d, d, d, d); body(x, d); O("} "); break;
  case BLOCK: O("[0, 1, 2].each() -> (i%d) { ", d); body(x, d); O("nil; }; "); break;
  case YBLK: O("yb() -> (i%d) { ", d); body(x, d); O("nil; }; "); break;
  case IF: O("if (p0 > 0) { var i%d = 1; ", d); body(x, d); O("} else { var i%d = 2; ", d); body(x, d); O("} "); break;
  case TRY: O("try { var q%d = 800; var i%d = 1; ", d, d); body(x, d); O("fns.push(fun() { q%d += 1; return q%d; }); } catch (Error e) { var r%d = 900; fns.push(fun() { r%d += 1; return r%d; }); log(91); } ", d, d, d, d, d); break;
  case CATCH: O("try { var i9 = 44; fns.push(fun() { i9 += 1; return i9; }); throw Error(\"y\"); } catch (Error e) { var i%d = 1; ", d); body(x, d); O("} "); break;
  default: O("(fun(i%d) { ", d); body(x, d); O("})(1); "); break;
  }
}
static int A; // the cell of a
static int ev(Nd *x, int d);
static int evBody(Nd *x, int d, int iv) {
  int i, s, c, c2;
  for (i = 0; i < x->n; i++) switch (x->s[i]) {
    case 0: addFn(0, newcell(100 + cell[iv]), 0); break;
    case 1: addFn(0, iv, 0); break;
    case 2: addFn(1, A, 0); cell[A] = cell[A] + 1; break;
    case 3: c = newcell(200 + cell[iv] + 5); addFn(2, c, A); break;
    case 4: c = newcell(300); if (cell[iv] == (double)p[0]) { addFn(0, c, 0); return BREAK; } break;
    case 5: addFn(0, newcell(400), 0); if (cell[iv] == (double)p[1]) return CONT; break;
    case 6: if (cell[iv] == (double)p[2]) { addFn(0, newcell(500), 0); return THROW; } break;
    case 7: c = newcell(600); c2 = newcell(700); addFn(3, c, c2); want(callFn(nfn - 1)); break;
    default: s = ev(x->in[i], d + 1); if (s != NORMAL) return s; want(cell[iv]); break;
  }
  return NORMAL;
}
static int ev(Nd *x, int d) {
  int i, s, c;
  switch (x->k) {
  case WHILE: for (i = 0; i < 2; i++) { s = evBody(x, d, newcell(i)); if (s == BREAK) { i++; break; } if (s == THROW) return s; } want(i); return NORMAL;
  case FOR: c = newcell(0); for (; cell[c] < 3; cell[c] = cell[c] + 1) { s = evBody(x, d, c); if (s == BREAK) break; if (s == THROW) return s; } return NORMAL;
  case FOREACH1: for (i = 0; i < 3; i++) { s = evBody(x, d, newcell(i)); if (s == BREAK) break; if (s == THROW) return s; } return NORMAL;
  case FOREACH2: for (i = 0; i < 2; i++) { c = newcell(i); addFn(0, newcell(10 + i), 0); s = evBody(x, d, c); if (s == BREAK) break; if (s == THROW) return s; } return NORMAL;
  case BLOCK: for (i = 0; i < 3; i++) { s = evBody(x, d, newcell(i)); if (s == BREAK) break; if (s == THROW) return s; } return NORMAL;
  case YBLK: for (i = 0; i < 2; i++) { s = evBody(x, d, newcell(i)); if (s == THROW) return s; } return NORMAL;
  case IF: return evBody(x, d, newcell(p[0] > 0 ? 1 : 2));
  case TRY: c = newcell(800); s = evBody(x, d, newcell(1)); if (s == THROW) { addFn(0, newcell(900), 0); want(91); } else if (s == NORMAL) addFn(0, c, 0); return NORMAL;
  case CATCH: addFn(0, newcell(44), 0); return evBody(x, d, newcell(1));
  default: return evBody(x, d, newcell(1));
  }
}
int harness(void) {
  int i, j;
  hx_init(); addGlobalFunction("log", nLog);
  Nd *x = gen(0);
  for (i = 0; i < 3; i++) { char t[4] = { 'p', '0' + i, 0 }; p[i] = sym_int(t, -1, 3); hx_set(t, NUMBER_VAL((double)p[i])); }
  O("fun yb() { var i = 0; while (i < 2) { var t = i; yield(t); i = i + 1; } return i; } var done = nil; "
    "fun run(fns) { var b1 = 1; var a = 10; try { "); emit(x, 0); O("} catch (Error e) { log(92); } var z1 = 21; var z2 = z1 + 1; a = a + 1; foreach (f in fns) { log(f()); } log(z1); log(z2); log(a); log(b1); return a; } "
    "var fs = []; log(run(fs)); fun other() { var x1 = -1; var x2 = -2; var x3 = -3; var x4 = -4; foreach (f in fs) { log(f()); } return x1 + x2 + x3 + x4; } log(other()); done = true;");
  sym_note(src);
  A = newcell(10);
  if (ev(x, 0) == THROW) want(92);
  cell[A] = cell[A] + 1;
  for (i = 0; i < nfn; i++) want(callFn(i));
  want(21); want(22); want(cell[A]); want(1); want(cell[A]);
  for (i = 0; i < nfn; i++) want(callFn(i));
  want(-10);
  sym_inst_limit(20000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  sym_check(nlog == nwant, "the statements that ran are the ones");
  for (j = 0; j < nlog; j++) sym_check(IS_NUMBER(logv[j]) && AS_NUMBER(logv[j]) == wantv[j], "every variable instance has its own value, shared by its closures");
  sym_cover(nfn ? "closures called" : "no closures");
  sym_done();
}
