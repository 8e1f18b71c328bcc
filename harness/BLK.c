// Blocks and iterators: generated blocks given to every kind of iterator, against a
// reference of what the block sees and does.
#include "hx.h"
#ifndef ITERS
#define ITERS {0,1,2,3,4,5,6,7,8,9,10,11}
#endif
#ifndef STMTS
#define STMTS {0,1,2,3,4,5,6,7,8,9,10}
#endif
#ifndef INITERS
#define INITERS {0,1,3}
#endif
#ifndef INSTMTS
#define INSTMTS {0,1,3,4,5,8}
#endif
#ifndef SLOTS
#define SLOTS 2
#endif
static const int iters[] = ITERS, stmts[] = STMTS, initers[] = INITERS, instmts[] = INSTMTS;
enum { EACH, YFUN, BFUN, MAP, SELECT, REJECT, FIND, MEACH, METH, SEND, REDUCE, SELFEACH };
enum { NORMAL, BREAK, CONT, RET, THROW };
typedef struct Blk { int it, n, s[4]; struct Blk *in[4]; } Blk;
static Blk pool[10]; static int npool;
static int64_t E[3], p;
static char src[6000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static Value logv[400]; static int nlog;
static double wantv[400]; static int nwant; static int wantnil[400];
static Value nLog(int c, Value *a) { if (nlog < 400) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(double v) { if (nwant < 400) wantv[nwant++] = v; }
static void wantNil(void) { if (nwant < 400) { wantnil[nwant] = 1; nwant++; } }
static Blk *gen(int depth) {
  Blk *b = &pool[npool++]; int i;
  b->it = depth ? initers[sym_choice("inner iterator", sizeof initers / sizeof *initers)] : iters[sym_choice("iterator", sizeof iters / sizeof *iters)];
  b->n = depth ? 1 : SLOTS;
  for (i = 0; i < b->n; i++) {
    b->s[i] = depth ? instmts[sym_choice("inner statement", sizeof instmts / sizeof *instmts)] : stmts[sym_choice("statement", sizeof stmts / sizeof *stmts)];
    if (b->s[i] == 4 && b->it == REDUCE) sym_assume(0);
    if (b->s[i] == 6) b->in[i] = gen(depth + 1);
  }
  return b;
}
static void block(Blk *b, int d);
static void use(Blk *b, int d) {
  const char *a = d ? "[x, e1]" : "[e0, e1, e2]"; if (d) a = "[x0, e1]";
  switch (b->it) {
  case EACH: O("%s.each()", a); break;
  case YFUN: O("yfun(%s)", a); break;
  case BFUN: O("bfun(%s)", a); break;
  case MAP: O("%s.map()", a); break;
  case SELECT: O("%s.select()", a); break;
  case REJECT: O("%s.reject()", a); break;
  case FIND: O("%s.find()", a); break;
  case MEACH: O("%%{\"k\": e0}.each()"); break;
  case METH: O("obj.run3(%s)", a); break;
  case SEND: O("obj.send(\"run3\", %s)", a); break;
  case REDUCE: O("%s.reduce(10)", a); break;
  default: O("mine.each()"); break;
  }
  block(b, d);
}
static void block(Blk *b, int d) {
  int i;
  O(b->it == MEACH ? " -> (k%d, x%d) { " : b->it == REDUCE ? " -> (x%d, sum%d) { " : " -> (x%d) { ", d, d);
  for (i = 0; i < b->n; i++) switch (b->s[i]) {
    case 0: O("log(x%d); ", d); break;
    case 1: O("acc = acc + x%d; ", d); break;
    case 2: O("var l%d = x%d + 1; log(l%d); log(loc); ", i, d, i); break;
    case 3: O("if (x%d > p) { log(31); break; } ", d); break;
    case 4: O("if (x%d > p) { log(32); continue; } ", d); break;
    case 5: O("if (x%d > p) { log(33); return x%d + 100; } ", d, d); break;
    case 6: O("var r%d = ", i); use(b->in[i], d + 1); O("; log(size(r%d)); log(x%d); ", i, d); break;
    case 7: O("try { if (x%d > p) { throw Error(\"e\"); } log(x%d); } catch (Error e) { log(71); } ", d, d); break;
    case 8: O("if (x%d > p) { throw Error(\"b\"); } ", d); break;
    case 9: O("log(sum2(x%d)); ", d); break;
    default: O("fns.push(fun() { acc = acc + 1; return x%d + acc; }); ", d); break;
  }
  if (b->it >= SELECT && b->it <= FIND) O("x%d > p; }", d); else if (b->it == REDUCE) O("x%d + sum%d; }", d, d); else O("x%d + 1; }", d);
}
// the reference
static double acc, fnx[20]; static int nfn;
typedef struct { int nil, n, nils[3]; double v, el[3]; } Res; // what log(size(result)) gives
static int run(Blk *b, int d, double x0, Res *res);
static void wantRes(Res *r) { int i; if (r->nil) { wantNil(); return; } for (i = 0; i < r->n; i++) if (r->nils[i]) wantNil(); else want(r->el[i]); want(r->v); }
static int body(Blk *b, double x, double *v) {
  int i; Res r;
  for (i = 0; i < b->n; i++) switch (b->s[i]) {
    case 0: want(x); break;
    case 1: acc += x; break;
    case 2: want(x + 1); want(5); break;
    case 3: if (x > (double)p) { want(31); return BREAK; } break;
    case 4: if (x > (double)p) { want(32); return CONT; } break;
    case 5: if (x > (double)p) { want(33); *v = x + 100; return RET; } break;
    case 6: if (run(b->in[i], 1, x, &r) == THROW) return THROW; wantRes(&r); want(x); break;
    case 7: if (x > (double)p) want(71); else want(x); break;
    case 8: if (x > (double)p) return THROW; break;
    case 9: want(x); break;
    default: fnx[nfn++] = x; break;
  }
  return NORMAL;
}
static int run(Blk *b, int d, double x0, Res *res) {
  double el[3] = { d ? x0 : (double)E[0], (double)E[1], (double)E[2] }, v = 0, sum = 10; int ne = d ? 2 : 3, i, s, cnt = 0;
  if (b->it == MEACH) { el[0] = (double)E[0]; ne = 1; }
  res->nil = 0; res->v = 0; res->n = 0; for (i = 0; i < 3; i++) res->nils[i] = 0;
  for (i = 0; i < ne; i++) {
    s = body(b, el[i], &v);
    if (s == THROW) return THROW;
    switch (b->it) {
    case EACH: case MEACH: case SELFEACH:
      if (s == BREAK) { res->nil = 1; return NORMAL; }
      if (s == RET) { res->v = v; return NORMAL; }
      break;
    case YFUN: case BFUN: case METH: case SEND:
      if (s == BREAK || s == CONT) wantNil(); else want(s == RET ? v : el[i] + 1);
      break;
    case MAP: case REDUCE:
      if (s == BREAK) { res->nil = 1; return NORMAL; }
      sum = s == RET ? v : el[i] + sum;
      res->nils[cnt] = s == CONT; res->el[cnt++] = s == RET ? v : el[i] + 1;
      break;
    default: { // select, reject, find: a number (returned) is true
      if (s == BREAK) { res->nil = 1; return NORMAL; }
      int t = s == RET ? 1 : s == CONT ? 0 : el[i] > (double)p;
      if (b->it == SELECT && t) res->el[cnt++] = el[i];
      if (b->it == REJECT && !t) res->el[cnt++] = el[i];
      if (b->it == FIND && t) { res->v = el[i]; return NORMAL; }
    } }
  }
  switch (b->it) {
  case EACH: case SELFEACH: res->v = 1000 + ne; res->n = ne; for (i = 0; i < ne; i++) res->el[i] = el[i]; break;
  case MEACH: res->v = 2001; break;
  case MAP: case SELECT: case REJECT: res->v = 1000 + cnt; res->n = cnt; break;
  case REDUCE: res->v = sum; break;
  case FIND: res->nil = 1; break;
  case YFUN: res->v = 1000 + ne; res->n = ne; for (i = 0; i < ne; i++) res->el[i] = el[i]; break;
  default: res->v = 41; break;
  }
  return NORMAL;
}
static Value nSize(int c, Value *a) {
  if (IS_ARRAY(a[0])) for (int i = 0; i < ARRAY_SIZE(a[0]); i++) if (nlog < 400) logv[nlog++] = ARRAY_GET(a[0], i);
  if (IS_ARRAY(a[0])) return NUMBER_VAL(1000 + ARRAY_SIZE(a[0]));
  if (IS_MAP(a[0])) return NUMBER_VAL(2001);
  return a[0];
}
int harness(void) {
  int i;
  hx_init(); addGlobalFunction("log", nLog); addGlobalFunction("size", nSize);
  Blk *b = gen(0);
  for (i = 0; i < 3; i++) { char t[4] = { 'e', '0' + i, 0 }; E[i] = sym_int(t, -4, 4); hx_set(t, NUMBER_VAL((double)E[i])); }
  p = sym_int("p", -4, 4); hx_set("p", NUMBER_VAL((double)p));
  const char *lg = "log(yield(a[i]))", *lg2 = "log(b.yield(a[i]))";
  O("fun yfun(a) { var t0 = 1; for (var i = 0; i < a.size; i += 1) { var t1 = i; %s; if (t1 != i or t0 != 1) { log(9999); } } return a; } ", lg);
  O("fun bfun(a, &b) { var t0 = 3; var i = 0; while (i < a.size) { %s; if (t0 != 3) { log(9998); } i = i + 1; } return 41; } ", lg2);
  O("class Obj { init() { this.z = 4; } run3(a) { var t0 = 2; var i = 0; while (i < a.size) { %s; i = i + 1; if (this.z != 4 or t0 != 2) { log(9997); } } return 41; } } ", lg);
  O("class Mine < Array { } fun sum2(y) { var s = 1; var t = nil; [y, 5].each() -> (q) { s = s + 1; if (t == nil) { t = q; } }; if (s == 3) { return t; } return nil; } ");
  O("var out = nil; var done = nil; fun run() { var loc = 5; var acc = 0; var fns = []; var obj = Obj(); var mine = Mine(); mine.push(e0); mine.push(e1); mine.push(e2); var after = 6; try { var res = ");
  use(b, 0);
  O("; log(size(res)); } catch (Error e) { log(77); } var l2 = 8; log(acc); foreach (f in fns) { log(f()); } log(acc); log(loc); log(after); log(l2); return 12; } out = run(); done = true;");
  sym_note(src);
  Res r; int s = run(b, 0, 0, &r);
  if (s == THROW) want(77); else wantRes(&r);
  want(acc); for (i = 0; i < nfn; i++) { acc++; want(fnx[i] + acc); } want(acc); want(5); want(6); want(8);
  sym_inst_limit(20000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  Value o = hx_glob("out");
  sym_check(IS_NUMBER(o) && AS_NUMBER(o) == 12, "the caller goes on after the call");
  sym_check(nlog == nwant, "blocks ran for the elements they had to");
  for (i = 0; i < nlog; i++) sym_check(wantnil[i] ? IS_NIL(logv[i]) : IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i], "blocks see and give the prescribed values");
  sym_cover(s == THROW ? "thrown out of a block" : r.nil ? "left by break" : "ran through");
  sym_done();
}
