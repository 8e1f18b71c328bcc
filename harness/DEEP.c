// Recursion of any depth gives its result or a "Stack overflow" error, whatever the calls
// on the way are, and the program goes on normally.
#include "hx.h"
#ifndef KINDS
#define KINDS {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
#endif
#ifndef LO
#define LO 0
#define HI 20
#endif
#ifndef SURE
#define SURE 200
#endif
// calls itself with n - 1 (rec(n) counts the calls on the way)
static const char *prog[] = {
  "fun rec(n) { if (n <= 0) { return 0; } return 1 + rec(n - 1); }",
  "class R { m(n) { if (n <= 0) { return 0; } return 1 + this.m(n - 1); } } var robj = R(); fun rec(n) { return robj.m(n); }",
  "var g = nil; fun rec(n) { var a = 1; g = fun(k) { if (k <= 0) { return 0; } return a + g(k - 1); }; return g(n); }",
  "fun rec(n) { if (n <= 0) { return 0; } var s = 0; [1].each() -> (x) { s = rec(n - 1) + x; }; return s; }",
  "fun y1(n) { return yield(n); } fun rec(n) { if (n <= 0) { return 0; } var s = 0; y1(n - 1) -> (x) { s = 1 + rec(x); }; return s; }",
  "fun rec(n) { if (n <= 0) { return 0; } try { return 1 + rec(n - 1); } catch (TypeError e) { return 0; } }",
  "class R { init(n) { this.n = 0; if (n > 0) { this.sub = R(n - 1); this.n = this.sub.n + 1; } } } fun rec(n) { return R(n).n; }",
  "class R { init(n) { this.n = n; } opAdd(o) { if (this.n <= 0) { return 0; } return 1 + (R(this.n - 1) + o); } } fun rec(n) { return R(n) + 1; }",
  "class R { init(n) { this.n = n; } toString() { if (this.n <= 0) { return \"\"; } return \"a${R(this.n - 1)}\"; } } fun rec(n) { return String(R(n)).size; }",
  "fun rec(n, *r) { if (n <= 0) { return r.size; } return rec(n - 1, 1, *r); }",
  "class P { m(n) { if (n <= 0) { return 0; } return 1 + this.m(n - 1); } } class R < P { m(n) { return super.m(n); } } fun rec(n) { return R().m(n); }",
  "class R { methodMissing(name, n) { if (n <= 0) { return 0; } return 1 + this.other(n - 1); } } fun rec(n) { return R().foo(n); }",
  "fun rec(n) { if (n <= 0) { return 0; } return [n].map() -> (x) { 1 + rec(x - 1); }.first(); }",
  "class R { init(n) { this.n = n; } up { if (this.n <= 0) { return 0; } return 1 + R(this.n - 1).up; } } fun rec(n) { return R(n).up; }",
  "class R { init(n) { this.n = n; } opEquals(o) { if (this.n <= 0) { return true; } return R(this.n - 1) == o; } } fun rec(n) { if (R(n) == 1) { if (n < 0) { return 0; } return n; } return -1; }",
  "var gn = 0; class R { init(n) { this.n = n; } opCmp(o) { if (this.n <= 0) { return 0; } gn = gn + 1; var c = R(this.n - 1) < o; return -1; } } fun rec(n) { gn = 0; var x = R(n) < R(1); return gn; }",
};
int harness(void) {
  static const int kinds[] = KINDS; static char src[3000];
  int k = kinds[sym_choice("program", sizeof kinds / sizeof *kinds)];
  hx_init();
  int64_t n = sym_int("n", LO, HI); hx_set("n", NUMBER_VAL((double)n));
  snprintf(src, sizeof src, "%s var out = nil; var msg = nil; var again = nil; var done = nil; "
    "fun run() { var a = 41; var res = nil; try { res = rec(n); } catch (Error e) { msg = e.message; } var b = 42; if (a != 41 or b != 42) { return nil; } return [res]; } "
    "out = run(); again = rec(7); done = true;", prog[k]);
  sym_note(src);
  sym_check(hx_run(src), "the program runs to its end");
  Value out = hx_glob("out"), msg = hx_glob("msg"), again = hx_glob("again");
  sym_check(IS_ARRAY(out), "the variables of the function that caught the error are unchanged");
  sym_check(IS_NUMBER(again) && AS_NUMBER(again) == 7, "later calls work");
  Value r = arrayGet(out, 0);
  if (IS_NIL(msg)) { sym_check(IS_NUMBER(r) && AS_NUMBER(r) == (n < 0 ? 0 : (double)n), "a recursion that ends gives its result"); sym_cover("result"); }
  else {
    sym_check(hx_is_str(msg, "Stack overflow", 14), "a recursion too deep is a stack overflow");
    sym_check(n > SURE, "no stack overflow at an ordinary depth");
    sym_cover("stack overflow");
  }
  sym_done();
}
