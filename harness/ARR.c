// Arrays behave as lists under any sequence of operations, and an array literal always denotes the same list.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef OPSET
#define OPSET {0,1,2,3,4,5,6,7,8,9,10,11,12,13}
#endif
#ifndef INIT
#define INIT {0,1,2,3,4}
#endif
static const int opset[] = OPSET, initset[] = INIT;
#define N(a) (int)(sizeof a / sizeof *a)
typedef struct { int n; int64_t v[40]; } Ref;    // elements: numbers, or codes for other values
#define NIL 90001
#define FALS 90002
#define STR 90003
static char src[12000]; static int sl;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static Value logv[300]; static int nlog; static int64_t wantv[300]; static int nwant;
static Value nLog(int c, Value *a) { if (nlog < 300) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(int64_t v) { if (nwant < 300) wantv[nwant++] = v; }
static int same(Value v, int64_t w) {
  if (IS_NIL(v)) return w == NIL; if (v == FALSE_VAL) return w == FALS; if (IS_STRING(v)) return w == STR && !strcmp(AS_STRING(v)->chars, "s");
  return IS_NUMBER(v) && AS_NUMBER(v) == w;
}
static void verify(const char *a, Ref *r) {
  int i;
  P("log(%s.size); ", a); want(r->n);
  for (i = -1; i <= r->n; i++) { P("log(%s[%d]); ", a, i); want(i < 0 || i >= r->n ? NIL : r->v[i]); }
  P("foreach (x in %s) { log(x); } ", a); for (i = 0; i < r->n; i++) want(r->v[i]);
  P("%s.each() -> (x) { log(x); }; ", a); for (i = 0; i < r->n; i++) want(r->v[i]);
  P("log(%s.first()); log(%s.last()); ", a, a); want(r->n ? r->v[0] : NIL); want(r->n ? r->v[r->n - 1] : NIL);
  P("log(b(%s == %s.dup())); log(b(%s.dup().push(1) == %s)); log(b(%s == %s.dup().push(1))); ", a, a, a, a, a, a); want(1); want(0); want(0);
  if (r->n) { P("var c_%s = %s.dup(); c_%s[%d] = \"no\"; log(b(%s == c_%s)); log(b(c_%s != %s)); ", a, a, a, r->n - 1, a, a, a, a); want(0); want(1); }
}
#if MODE == 1   // any numbers: sorting, searching, comparing, folding with blocks
#ifndef LEN
#define LEN 3
#endif
static int cnt(Value arr, int n, double x) { int i, c = 0; for (i = 0; i < n; i++) c += AS_NUMBER(arrayGet(arr, i)) == x; return c; }
int harness(void) {
  int i, n; double x[8], k;
  hx_init(); addGlobalFunction("log", nLog);
  n = 1 + sym_choice("n", LEN);
  P("var a = [");
  for (i = 0; i < n; i++) { char b[8]; snprintf(b, 8, "x%d", i); x[i] = (double)sym_int(b, -3, 3);
#ifdef FRAC
    static const double fr[] = { 0.25, -0.5, 0, 1, 0.5 }; x[i] = fr[(int)x[i] + 3 < 5 ? (int)x[i] + 3 : 0];   // fractions
#endif
    hx_set(b, NUMBER_VAL(x[i])); P("%sx%d", i ? ", " : "", i); }
  k = (double)sym_int("k", -3, 3); hx_set("k", NUMBER_VAL(k));
  P("]; var r = nil; var done = nil; ");
  #ifdef FRAC
  int op = sym_choice("op", 2), brk = 0;
#else
  int op = sym_choice("op", 12), brk = 0;
#endif
  static const char *ops[] = { "r = a.sort()", "r = a.sortBy() -> (x, y) { return y - x; }", "r = a.map() -> (x) { return x * 2; }", "r = a.select() -> (x) { return x > k; }", "r = a.reject() -> (x) { return x > k; }",
    "r = a.find() -> (x) { return x > k; }", "r = a.reduce(100) -> (x, s) { return x + s; }", "r = a.sum()", "r = a.delete(k)", "r = 0; a.each() -> (x) { if (x == k) { continue; } r += x; }", "r = 0; a.each() -> (x) { if (x == k) { break; } r += x; }", "r = a.reverse() == a" };
  P("%s; done = true;", ops[op]);
  sym_note(src);
  sym_check(hx_run(src), "array operations raise no error");
  Value r = hx_glob("r"), a = hx_glob("a");
  if (op != 8) { sym_check(ARRAY_SIZE(a) == n, "the receiver keeps its size"); for (i = 0; i < n; i++) sym_check(AS_NUMBER(arrayGet(a, i)) == x[i], "the receiver keeps its elements"); }
  if (op < 5) sym_check(IS_ARRAY(r) && r != a, "the result is a new array");
  double s = 0; int m = 0, pal = 1;
  switch (op) {
  case 0: case 1: sym_check(ARRAY_SIZE(r) == n, "sorting keeps the number of elements");
    for (i = 0; i + 1 < n; i++) { double p = AS_NUMBER(arrayGet(r, i)), q = AS_NUMBER(arrayGet(r, i + 1)); sym_check(op ? p >= q : p <= q, "sorted"); }
    for (i = 0; i < n; i++) sym_check(cnt(r, n, x[i]) == cnt(a, n, x[i]), "sorting permutes the elements");
    break;
  case 2: sym_check(ARRAY_SIZE(r) == n, "map gives one result per element"); for (i = 0; i < n; i++) sym_check(AS_NUMBER(arrayGet(r, i)) == x[i] * 2, "map gives the block's results in order"); break;
  case 3: case 4: for (i = 0; i < n; i++) if ((x[i] > k) == (op == 3)) { sym_check(m < ARRAY_SIZE(r) && AS_NUMBER(arrayGet(r, m)) == x[i], "select and reject keep the right elements in order"); m++; } sym_check(ARRAY_SIZE(r) == m, "select and reject keep nothing else"); break;
  case 5: for (i = 0; i < n && !(x[i] > k); i++); sym_check(i < n ? IS_NUMBER(r) && AS_NUMBER(r) == x[i] : IS_NIL(r), "find gives the first match"); break;
  case 6: s = 100; for (i = 0; i < n; i++) s += x[i]; sym_check(IS_NUMBER(r) && AS_NUMBER(r) == s, "reduce folds from the left"); break;
  case 7: for (i = 0; i < n; i++) s += x[i]; sym_check(IS_NUMBER(r) && AS_NUMBER(r) == s, "sum"); break;
  case 8: for (i = 0; i < n && x[i] != k; i++); sym_check(i < n ? IS_NUMBER(r) && AS_NUMBER(r) == i : IS_NIL(r), "delete gives the index of the element"); sym_check(ARRAY_SIZE(a) == n - (i < n), "delete removes one element"); { int j; for (j = 0; j < ARRAY_SIZE(a); j++) sym_check(AS_NUMBER(arrayGet(a, j)) == x[j < i ? j : j + 1], "delete keeps the other elements in order"); } break;
  case 9: case 10: for (i = 0; i < n; i++) { if (x[i] == k) { if (op == 10) break; continue; } s += x[i]; } sym_check(IS_NUMBER(r) && AS_NUMBER(r) == s, "each with break and continue"); break;
  case 11: for (i = 0; i < n; i++) pal &= x[i] == x[n - 1 - i]; sym_check(r == BOOL_VAL(pal), "arrays are equal when their elements are"); break;
  }
  (void)brk;
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_cover("array");
  sym_done();
}
#else
int harness(void) {
  int i, j, isnum = 1;
  hx_init();
  addGlobalFunction("log", nLog);
  P("fun b(x) { if (x == true) { return 1; } if (x == false) { return 0; } return 5; } "
    "fun lit0() { return []; } fun lit1() { return [31]; } fun lit2() { return [11, 12, 13]; } fun lit3() { return [nil, false, 0, \"s\"]; } fun lit4() { return [5, 3, 9, 1, 7, 2, 8, 4]; } ");
  static const Ref I[] = { { 0 }, { 1, { 31 } }, { 3, { 11, 12, 13 } }, { 4, { NIL, FALS, 0, STR } }, { 8, { 5, 3, 9, 1, 7, 2, 8, 4 } }, { 3, { 11, 12, 13 } }, { 0 } };
  int in = initset[sym_choice("init", N(initset))];
  Ref r = I[in];
  if (in == 5) P("var a = Array(11, 12, 13); "); else if (in == 6) P("var a = Array(); "); else P("var a = lit%d(); ", in);
  isnum = in != 3;
  int64_t sv[6]; for (i = 0; i < NOPS; i++) { char b[8]; snprintf(b, 8, "v%d", i); sv[i] = sym_int(b, 100 + 100 * i, 150 + 100 * i); hx_set(b, NUMBER_VAL((double)sv[i])); }
  for (j = 0; j < NOPS; j++) {
    int op = opset[sym_choice("op", N(opset))], ix, k; int64_t v = sv[j];
    switch (op) {
    case 0: P("log(b(a.push(v%d) == a)); ", j); want(1); r.v[r.n++] = v; break;
    case 1: P("log(a.pop()); "); want(r.n ? r.v[r.n - 1] : NIL); if (r.n) r.n--; break;
    case 2: P("log(b(a.pushFront(v%d) == a)); ", j); want(1); for (i = r.n++; i > 0; i--) r.v[i] = r.v[i - 1]; r.v[0] = v; break;
    case 3: P("log(a.popFront()); "); want(r.n ? r.v[0] : NIL); if (r.n) { r.n--; for (i = 0; i < r.n; i++) r.v[i] = r.v[i + 1]; } break;
    case 4: ix = sym_choice("ix", 5) - 1; P("var t%d = a[%d] = v%d; ", j, ix, j); if (ix >= 0 && ix < r.n) { P("log(t%d); ", j); want(v); r.v[ix] = v; } break;
    case 5: ix = sym_choice("ix", 4); { int f = -1; int64_t e = ix < r.n ? r.v[ix] : 77; for (i = r.n - 1; i >= 0; i--) if (r.v[i] == e) f = i;
        P("log(a.delete(%s)); ", ix < r.n ? ix == 0 ? "a[0]" : ix == 1 ? "a[1]" : ix == 2 ? "a[2]" : "a[3]" : "77"); want(f < 0 ? NIL : f); if (f >= 0) { r.n--; for (i = f; i < r.n; i++) r.v[i] = r.v[i + 1]; } } break;
    case 6: ix = sym_choice("ix", 5) - 1; P("log(a.deleteAt(%d)); ", ix); want(ix >= 0 && ix < r.n ? r.v[ix] : NIL); if (ix >= 0 && ix < r.n) { r.n--; for (i = ix; i < r.n; i++) r.v[i] = r.v[i + 1]; } break;
    case 7: P("a.clear(); "); r.n = 0; break;
    case 8: P("var d%d = a.dup(); d%d.push(v%d); d%d[0] = v%d; d%d.popFront(); log(d%d.size); ", j, j, j, j, j, j, j); want(r.n); break;
    case 9: if (!isnum) break; P("log(a.sort().size); a = a.sort(); "); want(r.n);
        for (i = 1; i < r.n; i++) { int64_t x = r.v[i]; for (k = i; k > 0 && r.v[k - 1] > x; k--) r.v[k] = r.v[k - 1]; r.v[k] = x; } break;
    case 10: P("var o%d = a; a = a.reverse(); log(o%d.size); ", j, j); want(r.n); for (i = 0; i < r.n / 2; i++) { int64_t x = r.v[i]; r.v[i] = r.v[r.n - 1 - i]; r.v[r.n - 1 - i] = x; } break;
    case 11: P("a << v%d << %d; ", j, j); r.v[r.n++] = v; r.v[r.n++] = j; break;
    case 12: P("var w%d = Array.wrap(a); log(b(w%d == a)); var e%d = []; foreach (x in a) { e%d << x; } a = e%d; ", j, j, j, j, j); want(1); break;
    case 13: P("var z%d = lit%d(); z%d.push(1); z%d[0] = 5; z%d.pop(); ", j, in < 5 ? in : 0, j, j, j); break;
    case 14: ix = sym_choice("ix", 4); P("a = Array.fill(%d, v%d); ", ix, j); r.n = ix; for (i = 0; i < ix; i++) r.v[i] = v; isnum = 1; break;
    case 15: if (!isnum) break; P("var o%d = a; var q%d = a.sortBy() -> (x, y) { y - x; }; a = q%d; ", j, j, j);
        for (i = 1; i < r.n; i++) { int64_t x = r.v[i]; for (k = i; k > 0 && r.v[k - 1] < x; k--) r.v[k] = r.v[k - 1]; r.v[k] = x; } break;
    }
  }
  verify("a", &r);
  if (in < 5) { P("var l = lit%d(); ", in); verify("l", (Ref *)&I[in]); }
  P("var done = true;");
  sym_note(strstr(src, "var a = "));
  sym_check(hx_run(src), "array operations raise no error");
  sym_check(nlog == nwant, "every operation ran");
  for (i = 0; i < nlog && i < nwant; i++) { if (!same(logv[i], wantv[i])) { char b[60]; snprintf(b, 60, "log %d want %d got %d", i, (int)wantv[i], IS_NUMBER(logv[i]) ? (int)AS_NUMBER(logv[i]) : -777); sym_note(b); } sym_check(same(logv[i], wantv[i]), "array operation results and contents"); }
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_cover("array");
  sym_done();
}
#endif
