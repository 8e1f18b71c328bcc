// Maps behave as finite maps under any sequence of operations.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef OPSET
#define OPSET {0,1,2,3,4,5,6,7,8,9}
#endif
#ifndef KEYSET
#define KEYSET {0,1,2,6,7,9}
#endif
#ifndef FILL
#define FILL {0,5,6}
#endif
static const char *K[] = { "4", "12", "5", "0.5", "0", "-3", "'a'", "nil", "true", "h1", "h2", "[1,2]", "o", "'b' + 'c'", "20", "false" };
#define NK 16
#ifndef KLO
#define KLO 0
#define KHI 10
#endif
static const int keyset[] = KEYSET, opset[] = OPSET, fillset[] = FILL;
#define N(a) (int)(sizeof a / sizeof *a)
typedef struct { int k[24]; int64_t v[24]; int n; } Ref;
static int find(Ref *r, int k) { for (int i = 0; i < r->n; i++) if (r->k[i] == k) return i; return -1; }
static void set(Ref *r, int k, int64_t v) { int i = find(r, k); if (i < 0) { i = r->n++; r->k[i] = k; } r->v[i] = v; }
static int del(Ref *r, int k) { int i = find(r, k); if (i < 0) return 0; r->n--; r->k[i] = r->k[r->n]; r->v[i] = r->v[r->n]; return 1; }
static char src[12000]; static int sl;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static Value logv[300]; static int nlog; static double wantv[300]; static int nwant;
static Value nLog(int c, Value *a) { if (nlog < 300) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(double v) { if (nwant < 300) wantv[nwant++] = v; }
static void verify(const char *m, Ref *r) {
  int i;
  P("log(%s.size); ", m); want(r->n);
  for (i = 0; i < N(keyset); i++) {
    int k = keyset[i], f = find(r, k);
    P("log(get(%s, %s)); log(b(%s.hasKey(%s))); ", m, K[k], m, K[k]); want(f < 0 ? -99 : r->v[f]); want(f >= 0);
  }
  P("log(has(%s, %s.values())); log(%s.keys().size); log(b(allIn(%s))); ", m, m, m, m); want(r->n); want(r->n); want(1);
  P("s = 0; foreach (k, v in %s) { if (v == %s[k]) { s += 1; } } log(s); s = 0; %s.each() -> (k, v) { if (v == %s[k]) { s += 1; } }; log(s); ", m, m, m, m); want(r->n); want(r->n);
  P("other = %%{}; "); for (i = r->n - 1; i >= 0; i--) P("other[%s] = m[%s]; ", K[r->k[i]], K[r->k[i]]);
  P("log(b(%s == other)); log(b(other == %s)); other['zz'] = 77; log(b(%s == other)); log(b(other == %s)); ", m, m, m, m); want(1); want(1); want(0); want(0);
  if (r->n) { P("other.delete('zz'); other[%s] = -7000; log(b(%s == other)); log(b(other == %s)); other.delete(%s); other['zz'] = m[%s]; log(b(%s == other)); log(b(other != %s)); ", K[r->k[r->n / 2]], m, m, K[r->k[r->n / 2]], K[r->k[r->n / 2]], m, m); want(0); want(0); want(0); want(1); }
}
#if MODE == 1   // any integer and quarter keys, in a table of any fill: set, set, delete, look up
int harness(void) {
  static const char *fills[] = { "", "m[0] = -1; m[8] = -2; m[1] = -3; ", "m[5] = -1; m[13] = -2; m[6] = -3; m['z'] = -4; m[14] = -5; " };
  static const double F[3][6] = { { 99, 99, 99, 99, 99, 99 }, { 0, 8, 1, 99, 99, 99 }, { 5, 13, 6, 99, 14, 99 } };
  int i; hx_init(); addGlobalFunction("log", nLog);
  int fl = sym_choice("fill", 3), div = 1;
  double k[4]; for (i = 0; i < 4; i++) { char b[8]; snprintf(b, 8, "k%d", i); k[i] = (double)sym_int(b, KLO, KHI) / div; hx_set(b, NUMBER_VAL(k[i])); }
  snprintf(src, sizeof src, "fun get(m, k) { var v = m[k]; if (v == nil) { return -99; } return v; } var m = %%{}; %s m[k0] = 10; m[k1] = 11; var d = m.delete(k2); var g = get(m, k3); var h = m.hasKey(k3); var n = m.size; var u = 0; var c = 0; foreach (a, b in m) { c += 1; } var done = true;", fills[fl]);
  sym_note(src);
  sym_check(hx_run(src), "map operations raise no error");
  double g = -99; int n = 0, c0 = 0, c1 = 0, cd = 0;
  for (i = 0; i < 6; i++) if (F[fl][i] != 99 || (fl == 2 && i == 3)) { double f = F[fl][i]; int dead = (f == k[2]) & (f != 99), over = ((f == k[0]) | (f == k[1])) & (f != 99); n += !(dead | over); g = (f == k[3] && !dead && !over) ? -(i + 1) : g; cd |= dead; }
  c0 = (k[0] != k[2]) & (k[0] != k[1]); c1 = k[1] != k[2]; n += c0 + c1;
  cd |= (k[0] == k[2]) | (k[1] == k[2]);
  g = (c0 && k[0] == k[3]) ? 10 : g; g = (c1 && k[1] == k[3]) ? 11 : g;
#define G(x) AS_NUMBER(hx_glob(x))
  sym_check(G("d") == cd, "delete counts the keys it removed");
  sym_check(G("g") == g, "a key maps to the value set last");
  sym_check(hx_glob("h") == BOOL_VAL(g != -99), "hasKey tells whether the key is in the map");
  sym_check(G("n") == n && G("c") == n, "size and iteration agree with the contents");
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_cover("number keys");
  sym_done();
}
#else
int harness(void) {
  int i, j;
  hx_init();
  addGlobalFunction("log", nLog);
  P("class H { init(i, c) { this.i = i; this.c = c; } hashKey() { return this.c; } opEquals(o) { if (typeof(o) != \"instance\") { return false; } return this.i == o.i; } }"
    " class O {} var h1 = H(1, 7); var h2 = H(2, 7); var o = O(); var s = 0; var other; var w0 = 0; var w9 = 0;"
    " fun b(x) { if (x == true) { return 1; } if (x == false) { return 0; } return 5; }"
    " fun get(m, k) { var v = m[k]; if (v == nil) { return -99; } return v; }"
    " fun allIn(m) { foreach (k in m.keys()) { if (!m.hasKey(k)) { return false; } } return true; } fun has(m, vs) { var i = 0; foreach (k in m.keys()) { if (m[k] != vs[i]) { return -1; } i += 1; } return i; } var m = %%{}; ");
  Ref r = { .n = 0 }; int64_t sv[4];
  for (i = 0; i < NOPS; i++) { char b[8]; snprintf(b, 8, "v%d", i); sv[i] = sym_int(b, -50, 1000); hx_set(b, NUMBER_VAL((double)sv[i])); }
  int nf = fillset[sym_choice("fill", N(fillset))];
  static const int fillk[] = { 14, 4, 5, 3, 8, 13, 2, 15 };
  for (i = 0; i < nf; i++) { P("m[%s] = %d; ", K[fillk[i]], (i + 1) * 100); set(&r, fillk[i], (i + 1) * 100); }
  for (j = 0; j < NOPS; j++) {
    int op = opset[sym_choice("op", N(opset))], k = keyset[sym_choice("key", N(keyset))], k2 = keyset[(k + 1) % N(keyset)];
    int64_t v = sv[j];
    switch (op) {
    case 0: P("log(m[%s] = v%d); ", K[k], j); want(v); set(&r, k, v); break;
    case 1: P("log(m.delete(%s)); ", K[k]); want(del(&r, k)); break;
    case 2: P("log(m.delete(%s, %s)); ", K[k], K[k2]); i = del(&r, k); want(i + del(&r, k2)); break;
    case 3: P("m.clear(); "); r.n = 0; break;
    case 4: P("m.rehash(); "); break;
    case 5: P("var d%d = m.dup(); d%d[%s] = 5; d%d.delete(%s); log(b(d%d.hasKey(%s))); ", j, j, K[k2], j, K[k], j, K[k2]); want(k2 != k); break;
    case 6: P("m.mergeWith(%%{%s: v%d, 20: v%d}); ", K[k], j, j); set(&r, k, v); set(&r, 14, v); break;
    case 7: P("var q%d = m; m = m.merge(%%{%s: v%d}); log(b(q%d.hasKey(%s))); ", j, K[k], j, j, K[k]); want(find(&r, k) >= 0); set(&r, k, v); break;
    case 8: P("m = m.slice(%s, %s, 20); ", K[k], K[k2]); { Ref q = { .n = 0 }; int ks[3] = { k, k2, 14 }; for (i = 0; i < 3; i++) { int f = find(&r, ks[i]); if (f >= 0) set(&q, ks[i], r.v[f]); } r = q; } break;
    case 9: P("m = Map([[%s, v%d], [20, v%d]]); ", K[k], j, j); r.n = 0; set(&r, k, v); set(&r, 14, v); break;
    }
  }
  verify("m", &r);
  P("var done = true;");
  sym_note(strstr(src, "var m = "));
  sym_check(hx_run(src), "map operations raise no error");
  sym_check(nlog == nwant, "every operation ran");
  for (i = 0; i < nlog && i < nwant; i++) { if (!(IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i])) { char b[60]; snprintf(b, 60, "log %d want %d got %d", i, (int)wantv[i], IS_NUMBER(logv[i]) ? (int)AS_NUMBER(logv[i]) : -777); sym_note(b); } sym_check(IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i], "map operation results and contents"); }
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_cover("map");
  sym_done();
}
#endif
