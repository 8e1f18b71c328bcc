// Assignment: every form of target, plain and compound, evaluated once from left to right.
#include "hx.h"
static const char *ops[] = { "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "|=", "^=", "&=" };
static int64_t a0, e0;
static double got[40]; static int ngot;
static Value nT(int c, Value *a) { if (ngot < 40) got[ngot++] = AS_NUMBER(a[0]); return a[1]; }
static double res(int o, double x, double y) {
  int i = (int)x, j = (int)y;
  switch (o) { case 0: return y; case 1: return x + y; case 2: return x - y; case 3: return x * y; case 4: return x / y; case 5: return i % j; case 6: return i << j; case 7: return i >> j; case 8: return i | j; case 9: return i ^ j; default: return i & j; }
}
int harness(void) {
  char src[2000], tgt[100]; int n = 0, o, form;
  hx_init();
  addGlobalFunction("t", nT);
  a0 = sym_int("a", 0, 7); e0 = sym_int("e", 1, 4);
  form = sym_choice("target", 8);
  o = sym_choice("op", form >= 5 && form <= 6 ? 1 : 11);
  if (o == 3 || o == 4) { a0 = sym_concrete(a0); e0 = sym_concrete(e0); }
  hx_set("ga", NUMBER_VAL((double)a0)); hx_set("ge", NUMBER_VAL((double)e0));
  int ctx = sym_choice("context", 4);   // statement, value used, nested in an expression, chained
  static const char *T[] = { "loc", "glob", "cap", "t(1, obj).prop", "t(1, obj).sett", "t(1, arr)[t(2, 1)]", "t(1, mp)[t(2, \"k\")]", "this.own" };
  int rl = form < 3 || form == 7 ? 0 : form < 5 ? 1 : 2;       // operands logged for the target
  n += snprintf(src + n, sizeof src - n,
    "class C { init(v) { this.prop = v; this._s = v; this.own = v; this.gets = 0; } sett { this.gets += 1; return this._s; } sett=(v) { this._s = v; } doit() { var x1 = 1; var r = nil; %s%s %s t(3, ge)%s; return [x1, r, this.own]; } } "
    "var glob = ga; var out = nil; var done = nil; var rr = nil; "
    "fun f(p) { var loc = p; var cap = p; var x1 = 21; var obj = C(p); var arr = [p + 1, p, p + 2]; var mp = %%{\"j\": 1, \"k\": p}; var r = nil; var oth = 5; var h = fun() { cap; %s%s%s%s%s }; ",
    form == 7 ? (ctx == 0 ? "" : ctx == 1 ? "r = " : ctx == 2 ? "r = 100 + (" : "r = t(0, this).prop = ") : "", form == 7 ? T[7] : "r", form == 7 ? ops[o] : "=", form == 7 && ctx == 2 ? ")" : "",
    form == 2 ? (ctx == 0 ? "" : ctx == 1 ? "r = " : ctx == 2 ? "r = 100 + (" : "oth = r = ") : "", form == 2 ? T[2] : "", form == 2 ? ops[o] : "", form == 2 ? " t(3, ge)" : "", form == 2 ? (ctx == 2 ? ");" : ";") : "");
  if (form == 7) n += snprintf(src + n, sizeof src - n, "var q = obj.doit(); r = q[1]; x1 += q[0] - 1; ");
  else if (form == 2) n += snprintf(src + n, sizeof src - n, "h(); ");
  else n += snprintf(src + n, sizeof src - n, "%s%s %s t(3, ge)%s; ", ctx == 0 ? "" : ctx == 1 ? "r = " : ctx == 2 ? "r = 100 + (" : "oth = r = ", T[form], ops[o], ctx == 2 ? ")" : "");
  snprintf(src + n, sizeof src - n, "return [x1, r, %s, arr[0], arr[2], arr.size, mp.size, oth, obj.gets, p]; } rr = f(ga); done = true;",
    form == 0 ? "loc" : form == 1 ? "glob" : form == 2 ? "cap" : form == 3 ? "obj.prop" : form == 4 ? "obj._s" : form == 5 ? "arr[1]" : form == 6 ? "mp[\"k\"]" : "obj.own");
  sym_note(src);
  sym_check(hx_run(src), "the program runs to its end");
  Value R = hx_glob("rr");
  sym_check(IS_ARRAY(R) && ARRAY_SIZE(R) == 10, "the program gives its result");
  double w = res(o, (double)a0, (double)e0);
#define RV(i) AS_NUMBER(arrayGet(R, i))
  sym_check(IS_NUMBER(arrayGet(R, 2)) && RV(2) == w, "the target holds the assigned value");
  if (ctx == 1 || ctx == 3) sym_check(IS_NUMBER(arrayGet(R, 1)) && RV(1) == w, "an assignment's value is the value assigned");
  if (ctx == 2) sym_check(IS_NUMBER(arrayGet(R, 1)) && RV(1) == w + 100, "an assignment's value is the value assigned");
  if (ctx == 3 && form != 7) sym_check(RV(7) == w, "chained assignment");
  sym_check(RV(0) == 21 && RV(3) == a0 + 1 && RV(4) == a0 + 2 && RV(5) == 3 && RV(6) == 2 && RV(9) == a0, "nothing else changes");
  if (form == 4) sym_check(RV(8) == (o > 0), "the getter runs once for a compound assignment");
  int k, base = form == 7 && ctx == 3, wl[4], nw = 0;
  if (base) wl[nw++] = 0;
  for (k = 1; k <= rl; k++) wl[nw++] = k;
  wl[nw++] = 3;
  sym_check(ngot == nw, "each operand of an assignment is evaluated once");
  for (k = 0; k < ngot && k < nw; k++) sym_check(got[k] == wl[k], "operands of an assignment are evaluated from left to right");
  sym_cover(o ? "compound" : "plain");
  sym_done();
}
