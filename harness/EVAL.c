// Evaluated code: a function whose body evaluates one or two pieces of code with eval(), against the same function with the code written there;
// a function's binding that evaluates code, against a function called with the same variables. All values are symbolic.
#include "hx.h"
#ifndef CODES2
#define CODES2 {0,3,12}
#endif
#ifndef CTXS
#define CTXS {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27}
#endif
static const int ctxs[] = CTXS, codes2[] = CODES2;
// the code, and how it reads in place where that differs
static const char *codes[][2] = {
  { "rec(a); rec(b); rec(c);" },
  { "a = b;" },
  { "var n = a; var m = b; a = m; b = n; rec(n);" },
  { "if (a < b) { var t = a; a = b; b = t; } else { rec(c); }" },
  { "for (var i = 0; i < 3; i += 1) { if (i == 1) { continue; } rec(i); c = a; }" },
  { "foreach (x in [a, b]) { rec(x); c = x; }" },
  { "foreach (k, v in %{1: a, 2: c}) { b = v; rec(k); }" },
  { "try { throw Error(\"e\"); } catch (Error er) { rec(er.message); a = c; } ensure { rec(b); }" },
  { "fun h(x, y = x) { var z = y; return z; } b = h(a); rec(h(c, b));" },
  { "rec([c].map() -> (x) { var w = b; rec(w); x; }[0]); rec(a);" },
  { "var k = fun() { return a; }; rec(k()); a = b; rec(k());" },
  { "var w = b; gk = fun() { w += 1; c = a; return w; }; rec(w);" },
  { "var n = 5; var m = 6; eval(cd2); rec(n); rec(m);", "var n = 5; var m = 6; if (true) { var n = a; a = b; rec(n); var q = n; b = q; } rec(n); rec(m);" },
  { "while (true) { var o = a; if (o == a) { break; } rec(0); }" },
  { "class Q { m(x) { return x; } } rec(Q().m(b)); c = Q().m(a);" },
  { "b = a; return 3; b = c;", "b = a;" },
  { "foreach (x in [1, 2]) { b = a; if (x == 1) { return 1; } rec(x); } rec(0);", "b = a; " },
  { "var n0 = a; var n1 = b; var n2 = c; var n3 = a; var n4 = b; var n5 = c; var n6 = a; rec([n0, n1, n2, n3, n4, n5, n6][5]); a = n6; b = n5; c = n4; " },
  { "var q = 1; q += 1; rec(q); var r = [b, c]; r[0] = a; c = r[0]; rec(%{1: r[1]}[1]); " },
  { "n = a; rec(n);" },
  { "fun sum(*xs) { var l = nil; foreach (x in xs) { l = x; } return l; } rec(sum(a, b, c)); rec(sum(c, b, a)); b = sum(b, a);" },
  { "" },
  { "a;" },
  { "rec(b > c); var b = c; rec(b); b = a; rec(b); ", "rec(b > c); if (true) { var b2 = c; rec(b2); b2 = a; rec(b2); } " },
  { "rec(\"${a == a}\"); if (a != b and c == c) { c = a; } else { rec(a == b or c); } " },
  { "throw Error(\"out\"); a = b;" },
  { "a = ;", "throw SyntaxError(\"Syntax error\");" },
  { "a = b; eval(cd3); rec(0);", "a = b; throw Error(\"deep\");" },
  { "fun f2() { throw Error(\"f2\"); } try { f2(); } catch (NameError er) { rec(0); }" },
  { "rec(undefinedName); a = b;" },
#ifdef INST
  { "rec(this.v); this.v = a; fun th(x) { return x; } rec(th(b)); rec(this.v); var n = this.v; a = n;", "rec(ob.v); ob.v = a; rec(b); rec(ob.v); a = ob.v;" },
#endif
};
enum { NCODE = sizeof codes / sizeof *codes, THROWING = 25 };
// @ is the first evaluated code, % the second; J the place of a variable whose code in place differs
static const char *ctx[][2] = {
  { "var a = g0; var b = g1; var c = g2; @ rec(a); rec(b); rec(c); %" },
  { "fun f(a) { var b = g1; var c = g2; @ var d = g1; rec(a); rec(b); % rec(c); rec(d); return d; } rec(f(g0));" },
  { "class A { init(v) { this.v = v; } m(a, b) { var c = g2; @ rec(this.v); this.v = c; % rec(a); rec(b); return this.v; } } rec(A(g1).m(g0, g1));" },
  { "class A { init(a) { var b = g1; var c = g2; @ this.v = a; % this.w = b; } class sm(a) { var b = g1; var c = g2; @ return a; } } var o = A(g0); rec(o.v); rec(o.w); rec(A.sm(g2));" },
  { "fun f(z) { var r = [g0, g1].map() -> (a) { var b = g1; var c = g2; @ var d = b; % rec(c); rec(d); a; }; rec(r[0]); rec(r[1]); rec(z); } f(g2);" },
  { "fun f(z) { for (var i = 0; i < 2; i += 1) { var a = g0; var b = i; var c = z; @ rec(a); rec(b); % rec(c); rec(i); } return z; } rec(f(g2));" },
  { "fun f(a) { var b = g1; var c = g2; for (var i = 0; i < 2; i += 1) { var y = i; @ rec(y); var x = a; % rec(x); } rec(a); rec(b); rec(c); } f(g0);" },
  { "fun f(a) { foreach (b in [g1, g2]) { var c = g0; @ var d = c; % rec(a); rec(b); rec(d); if (a == g1) { continue; } rec(7); } rec(a); } f(g0);" },
  { "fun f(z) { foreach (a, b in %{1: g1, 2: g0}) { var c = z; @ var d = c; rec(a); rec(b); % rec(d); } } f(g2);" },
  { "fun f(a) { var b = g1; try { var c = g2; @ rec(c); throw Error(\"t\"); } catch (Error e) { var c = e.message; rec(c); % rec(c); c = e.message; rec(c); } rec(a); rec(b); } f(g0);" },
  { "fun f(a) { var b = g1; var c = g2; try { rec(a); @ } catch (NameError e) { rec(9); } else { var d = a; % rec(d); } ensure { rec(c); } rec(b); } f(g0);" },
  { "fun f(a) { var b = g1; try { var c = g0; @ throw Error(\"q\"); } catch (Error e) { rec(b); } ensure { var y = a; var c = g2; % rec(y); rec(c); } rec(a); } f(g0);" },
  { "fun f(z) { 1; 2; z; var s = 1 + 2 + 3 * 4; var a = z; 5; 6; var b = g1; 7; var t = 2 * 3 - 1; var c = g2; 8; @ rec(s); rec(t); 9; var d = 1 + 1; rec(a); rec(b); % rec(c); rec(d); } f(g0);" },
  { "fun f(a) { if (a == a) { 1; var s = 4 + 5; rec(s); } else { var s = 7; rec(s + 8); } if (g1 == g2) { var u = 3 * 3; rec(u); } var b = g1; var c = g2; @ if (a == b) { var u = 1; rec(u); } var d = a; % rec(b); rec(d); } f(g0);" },
  { "fun f(z) { var y = z; if (true) { var a = g1; var w = 4; rec(a); } var a = z; if (true) { var b = g1; var x = 3; if (true) { var c = g2; @ rec(c); } var c = g0; % rec(b); rec(c); rec(x); } rec(a); rec(y); } f(g0);" },
  { "fun f(a) { var b = g1; var c = g2; if (true) { var b = g0; @ rec(b); var a = g2; % rec(a); } rec(a); rec(b); rec(c); } f(g0);", "fun f(a) { var b = g1; var c = g2; if (true) { var b = g0; @ rec(b); var a = g2; % rec(a); } rec(a); rec(b); rec(c); } f(g0);" },
  { "fun f(a, b = g1, *c) { var d = c[0]; c = g2; @ rec(a); rec(b); % rec(c); rec(d); return a; } rec(f(g0)); rec(f(g2, g0, g1));" },
  { "fun f(a, b, c: g2) { @ var d = a; rec(d); % rec(a); rec(b); rec(c); } f(g0, g1); f(g1, g2, c: g0);" },
  { "fun g(x, y, z) { rec(x); rec(y); return y; } fun f(a) { var b = g1; var c = g2; var d = g(a, b, eval(cd0)); rec(a); rec(b); rec(c); rec(d); % }  f(g0);",
    "fun g(x, y, z) { rec(x); rec(y); return y; } fun f(a) { var b = g1; var c = g2; var t0 = a; var t1 = b; if (true) { @ } var d = g(t0, t1, nil); rec(a); rec(b); rec(c); rec(d); % }  f(g0);" },
  { "fun f(a) { var b = g1; var c = g2; var p = a; var q = b; var d = [p, [q, p, eval(cd0), c == c, 1], q]; rec(d[0]); rec(d[1][0]); rec(d[1][1]); rec(d[2]); % rec(a); }  f(g0);",
    "fun f(a) { var b = g1; var c = g2; var p = a; var q = b; if (true) { @ } var d = [p, [q, p, nil, c == c, 1], q]; rec(d[0]); rec(d[1][0]); rec(d[1][1]); rec(d[2]); % rec(a); }  f(g0);" },
  { "class A { m(x, y) { rec(x); return x; } } fun f(a) { var b = g1; var c = g2; var p = a; var q = b; var d = %{1: A().m(p, eval(cd0)), 2: q}; rec(d[1]); rec(d[2]); % rec(b); } f(g0);",
    "class A { m(x, y) { rec(x); return x; } } fun f(a) { var b = g1; var c = g2; var p = a; var q = b; if (true) { @ } var d = %{1: A().m(p, nil), 2: q}; rec(d[1]); rec(d[2]); % rec(b); } f(g0);" },
  { "fun f(a) { var b = g1; var c = g2; if (a == b and eval(cd0) == nil) { rec(a); } else { rec(b); } var d = a; % rec(c); rec(d); return d; } rec(f(g0));",
    "fun f(a) { var b = g1; var c = g2; if (a == b) { @ rec(a); } else { rec(b); } var d = a; % rec(c); rec(d); return d; } rec(f(g0));" },
  { "fun f(a) { var b = g1; var c = g2; var k = fun() { return [a, b, c]; }; @ rec(k()[0]); rec(k()[1]); a = g2; % rec(k()[0]); rec(k()[2]); return k; } var k = f(g0); rec(k()[1]);" },
  { "fun o(y) { var z = y; fun f(a) { var b = g1; var c = g2; @ rec(a); % rec(b); return c; } rec(f(g0)); rec(z); return f(y); } rec(o(g1));" },
  { "fun r(n, a) { var b = n; var c = g2; if (n > 0) { r(n - 1, g1); } @ rec(a); rec(b); % rec(c); } r(2, g0);" },
  { "fun it() { yield(g0, g1); rec(8); } fun f(z) { it() -> (a, b) { var c = z; @ rec(a); % rec(b); rec(c); }; rec(z); } f(g2);" },
  { "fun f(a) { var b = g1; var c = g2; [g2].each() -> (x) { rec(x); }; @ rec([a].map() -> (x) { x; }[0]); [1].each() -> (x) { b = a; }; % rec(b); rec(c); } f(g0);" },
  { "class A { v { var b = g1; var c = g2; var a = this.w; @ return a; } s=(a) { var b = g1; var c = g2; this.w = a; @ rec(b); % rec(a); } } var o = A(); o.s = g0; rec(o.v);" },
};
#ifdef BINDING
// where the binding is made
static const char *mk[][2] = {
  { "fun mk(a, b) { var c = g2; return Binding(); } var bd = mk(g0, g1); ", "fun p(a, b) { var c = g2; @ % rec(a); rec(b); rec(c); } p(g0, g1); " },
  { "fun mk(a, b) { var c = g2; var d = fun() { return c; }; var e = Binding(); rec2(d() == c); return e; } var bd = mk(g0, g1); ", "rec2(g0 == g0); fun p(a, b) { var c = g2; @ % rec(a); rec(b); rec(c); } p(g0, g1); " },
  { "class M { init() { this.v = g0; } mk(a, b = g1) { var y = a; var c = g2; foreach (x in [1, 2]) { y = x; } return Binding(); } } var bd = M().mk(g0); rec(bd.receiver().v); bd.eval(\"this.v = a;\"); rec(bd.receiver().v);",
    "class M { init() { this.v = g0; } p(a, b = g1) { var c = g2; rec(this.v); this.v = a; rec(this.v); @ % rec(a); rec(b); rec(c); } } M().p(g0); " },
  { "fun mk(b) { var bd = nil; foreach (a in [g1, g0]) { var c = g2; bd = Binding(); } return bd; } var bd = mk(g1); bd.localVariableSet(\"a\", g0); ", "fun p(a, b) { var c = g2; @ % rec(a); rec(b); rec(c); } p(g0, g1); " },
};
// where it evaluates code
static const char *use[] = {
  "@ %",
  "fun u(l) { var k = fun() { l = l == g0; return l; }; @ rec2(k()); % rec2(l); } u(g0);",
  "fun u(l) { [1].map() -> (x) { var m = l; @ rec2(m); x; }; foreach (y in [l]) { % rec2(y); } } u(g0);",
  "fun v(x, y, z) { rec2(x); rec2(z); } fun u(a) { var b = g2; v(a, bd.eval(cd0), b); rec2([a, bd.eval(cd1), b][0]); } u(g1);",
};
static const char *after[] = { "", "rec2(g0 == g0); rec2(g0 == g0);", "rec2(g0); rec2(g0); ", "rec2(g1); rec2(g2); rec2(g1);" };
#endif
static char src[6000]; static int n; static int c0, c1;
static Value logv[2][400]; static int nlog[2], phase;
static Value nRec(int c, Value *a) { if (nlog[phase] < 400) logv[phase][nlog[phase]++] = a[0]; return NIL_VAL; }
static void add(const char *s) { while (*s) src[n++] = *s++; src[n] = 0; }
static const char *inplace(int c) { return codes[c][1] ? codes[c][1] : codes[c][0]; }
static void build(const char *t, int inl, int top) {
  for (; *t; t++) {
    if (*t == '@' || (*t == '%' && t[1] == ' ') || (*t == '%' && t[1] == 0)) {
      int c = *t == '@' ? c0 : c1;
      int guard = c >= THROWING;
      if (guard) add("try { ");
#ifdef BINDING
      if (!inl) add("bd.");
#endif
#ifdef INST
      if (!inl) add(*t == '@' ? "ob.instanceEval(cd0); " : "ob.instanceEval(cd1); ");
#else
      if (!inl) add(*t == '@' ? "eval(cd0); " : "eval(cd1); ");
#endif
      else { if (!top) add("if (true) { "); add(inplace(c)); if (!top) add(" } "); }
      if (guard) add("} catch (Error ee) { rec(String(ee.class.name)); rec(ee.message); } ");
      else add(" ");
    } else src[n++] = *t, src[n] = 0;
  }
}
static Value log2v[2][20]; static int nlog2[2];
static Value nRec2(int c, Value *a) { if (nlog2[phase] < 20) log2v[phase][nlog2[phase]++] = a[0]; return NIL_VAL; }
static int same(Value x, Value y) {
  if (IS_NUMBER(x) || IS_NUMBER(y)) return IS_NUMBER(x) && IS_NUMBER(y) && sameNum(AS_NUMBER(x), AS_NUMBER(y));
  if (IS_A_STRING(x) && IS_A_STRING(y)) return hx_is_str(x, AS_CSTRING(y), (int)strlen(AS_CSTRING(y)));
  return x == y;
}
static void setup(void) {
  hx_set("n", NUMBER_VAL(0)); hx_set("gk", NIL_VAL);
  hx_set("a", NUMBER_VAL(-1)); hx_set("b", NUMBER_VAL(-2)); hx_set("c", NUMBER_VAL(-3));
}
int harness(void) {
  int i;
  hx_init();
  addGlobalFunction("rec", nRec); addGlobalFunction("rec2", nRec2);
#ifndef BINDING
  int cx = ctxs[sym_choice("context", sizeof ctxs / sizeof *ctxs)];
  const char *t = ctx[cx][0], *u = ctx[cx][1] ? ctx[cx][1] : t;
#endif
  c0 = sym_choice("code", NCODE); c1 = codes2[sym_choice("code 2", sizeof codes2 / sizeof *codes2)];
#ifdef BINDING
  int cm = sym_choice("binding", sizeof mk / sizeof *mk), cu = sym_choice("use", sizeof use / sizeof *use);
  if (c0 >= THROWING && cu == 3) sym_assume(0);
#else
  if (c0 >= THROWING && cx >= 18 && cx <= 21) sym_assume(0); // evaluated within an expression, without a try
#endif
  for (i = 0; i < 3; i++) { char b[4]; snprintf(b, 4, "g%d", i); double d = sym_double(b); sym_assume(d == d); hx_set(b, NUMBER_VAL(d)); }
  hx_set("cd0", hx_str(codes[c0][0], (int)strlen(codes[c0][0]))); hx_set("cd1", hx_str(codes[c1][0], (int)strlen(codes[c1][0])));
  const char *d2 = "var n = a; a = b; rec(n); var q = n; b = q; rec(q);", *d3 = "throw Error(\"deep\");";
  hx_set("cd2", hx_str("var n = a; a = b; rec(n); var q = n; b = q;", 43)); hx_set("cd3", hx_str(d3, (int)strlen(d3))); (void)d2;
  char two[9000];
  for (phase = 0; phase < 2; phase++) {
    setup(); n = 0;
#ifdef INST
    add("class Ob { init() { this.v = g2; } } var ob = Ob(); ");
#endif
#ifndef BINDING
    build(phase ? u : t, phase, cx == 0);
#else
    if (!phase) { add(mk[cm][0]); build(use[cu], 0, 0); add(" rec(bd.localVariableGet(\"a\")); rec(bd.localVariableGet(\"b\")); rec(bd.localVariableGet(\"c\"));"); }
    else { build(mk[cm][1], 1, 0); add(after[cu]); }
#endif
    add(" if (gk) { rec(gk()); rec(gk()); } ");
    if (!phase) strcpy(two, src); else { strcat(two, " | "); strcat(two, src); }
    if (phase) sym_note(two);
    Value *top = EC->stackTop; int fr = EC->frameCount; VMExecContext *ec = EC; size_t depth = vm.curThread->v_ecs.length;
    int ok = hx_run(src);
    sym_check(ok, "the script runs to its end");
    sym_check(EC == ec && vm.curThread->v_ecs.length == depth && EC->stackTop == top && EC->frameCount == fr, "stacks as before");
  }
  if (nlog[0] != nlog[1]) sym_check(0, "the same things are computed");
  for (i = 0; i < nlog[0] && i < nlog[1]; i++) sym_check(same(logv[0][i], logv[1][i]), "evaluated code computes what it computes in place");
  if (nlog2[0] != nlog2[1]) sym_check(0, "the code around it computes the same");
  for (i = 0; i < nlog2[0] && i < nlog2[1]; i++) sym_check(same(log2v[0][i], log2v[1][i]), "the code around it computes the same");
  sym_cover(c0 >= THROWING ? "throws" : "plain");
  return 0;
}
