// The bytecode optimizer: every generated program behaves the same with and without it.
#include "hx.h"
static Value logs[2][400]; static int nl[2], which;
static Value nLog(int c, Value *a) { if (nl[which] < 400) logs[which][nl[which]++] = a[0]; return NIL_VAL; }
static char src[9000]; static int sl, id;
static void o(const char *s) { while (*s && sl < (int)sizeof src - 2) src[sl++] = *s++; src[sl] = 0; }
static void on(int n) { char b[20]; snprintf(b, sizeof b, "%d", n); o(b); }
static void lg(void) { o("log("); on(++id); o("); "); }
#ifdef FEWK
static const char *K[] = { "true", "nil", "p0 == 1", "true and p0 == 1", "1 + 1 == 2" };
#else
static const char *K[] = { "true", "false", "nil", "1", "1 + 1 == 2", "p0 == 1", "true and p0 == 1", "false or p0 == 1", "nil or false", "p1 == 1 and true", "!true", "1 and nil" };
#endif
static void konst(void) { o(K[sym_choice("cond", sizeof K / sizeof *K)]); }
#ifndef SLOTS
#define SLOTS 2
#endif
static void stmt(int inloop) {
  int k = sym_choice("stmt", inloop ? 14 : 12);
  switch (k) {
  case 0: o("1; "); lg(); break;
  case 1: o("2 + 3 * 4; nil; \"s\"; "); break;
  case 2: o("if ("); konst(); o(") { "); lg(); o("} else { 1; 2; "); lg(); o("} "); break;
  case 3: o("if ("); konst(); o(") { 3; } "); lg(); break;
  case 4: o("while ("); o(sym_choice("wc", 2) ? "false" : "p1 == 1 and false"); o(") { "); lg(); o("} "); break;
  case 5: o("while (true) { "); lg(); o("4; if ("); konst(); o(") { 1; break; } "); lg(); o("break; } "); break;
  case 6: o("for (var i"); on(++id); o(" = 0; i"); on(id); o(" < 2; i"); on(id); o(" += 1) { 5; log(i"); on(id); o("); if ("); konst(); o(") { 1 + 1; continue; } "); lg(); o("} "); break;
  case 7: o("try { 1; if (p0 == 1) { throw Error(\"e\"); } "); lg(); o("2; } catch (Error e) { 3; "); lg(); o("} else { 4; "); lg(); o("} "); break;
  case 8: { int f = ++id; o("fun f"); on(f); o("(a = 1 + 2, b = a + 2 * 3, c = "); konst(); o(") { 1; log(a); log(b); log(c); 2; return b; } log(f"); on(f); o(sym_choice("args", 2) ? "(7)); " : "()); "); break; }
  case 9: { int v = ++id; o("var v"); on(v); o(" = 1 + 2 * 3 - 4 / 2; log(v"); on(v); o("); log("); konst(); o("); "); break; }
  case 10: o("log(7); 7 + 1; log(7); log(8 - 1); log(-(3)); log(1 < 2); "); break;
  case 11: o("[1, 2].each() -> (x) { 1; if ("); konst(); o(") { 2; log(x); } 3; }; "); break;
  case 12: o("if ("); konst(); o(") { 1; continue; } "); lg(); break;
  case 13: o("if ("); konst(); o(") { var q1 = 1; 2; break; } "); lg(); break;
  }
}
// expressions of two operators whose operands are constants or not, in every place an expression can be
static const char *ATOM[] = { "1", "p0", "nil", "p1 == 1", "true", "false" };
#ifndef NATOM
#define NATOM 4
#endif
static int natom;
static void atom(void) { int k = sym_choice("atom", NATOM); natom++; if (k) o(ATOM[k]); else on(natom); }
static void bop(void) { static const char *B[] = { " and ", " or ", " + ", " == " }; o(B[sym_choice("operator", 4)]); }
static void expr(void) {
  switch (sym_choice("shape", 3)) {
  case 0: atom(); bop(); atom(); break;
  case 1: o("("); atom(); bop(); atom(); o(")"); bop(); atom(); break;
  case 2: atom(); bop(); o("("); atom(); bop(); atom(); o(")"); break;
  }
}
#define OPVALS { "0", "1", "2", "3", "7", "31", "0.5", "2.5", "1000000", "2147483647", "4294967296", "123456789012" }
int harness(void) {
  int i;
  hx_init();
  addGlobalFunction("log", nLog);
  double p0 = (double)sym_int("p0", 0, 1), p1 = (double)sym_int("p1", 0, 1);
  hx_set("p0", NUMBER_VAL(p0)); hx_set("p1", NUMBER_VAL(p1));
  o("var done = nil; ");
#if MODE == 0
  int ctx = sym_choice("context", 4);
  if (ctx == 0) { for (i = 0; i < SLOTS; i++) stmt(0); }
  else {
    o("fun prog() { var o1 = 51; ");
    if (ctx == 2) o("for (var i = 0; i < 2; i += 1) { ");
    if (ctx == 3) o("[1, 2].each() -> (y) { var m = y; ");
    for (i = 0; i < SLOTS; i++) stmt(ctx == 2);
    if (ctx == 2) o("log(i); } ");
    if (ctx == 3) o("log(m); }; ");
    o("var o2 = 52; log(o1); log(o2); return "); o(i & 1 ? "1 and 2" : "1 + 2"); o("; } var ret = prog(); log(ret); ");
  }
#elif MODE == 2
  o("fun prog() { var a = 51; try { ");
  switch (sym_choice("place", 5)) {
  case 0: expr(); o("; "); break;
  case 1: o("log("); expr(); o("); "); break;
  case 2: o("if ("); expr(); o(") { var x = 3; 2; log(x); } else { log(4); } "); break;
  case 3: o("var v = "); expr(); o("; log(v); "); break;
  case 4: o("while ("); expr(); o(") { var y = 5; log(y); break; } "); break;
  }
  o("log(hxStack()); var b = 52; log(a); log(b); } catch (Error e) { log(-1); } log(hxStack()); var c = 53; log(a); log(c); return 1; } var ret = prog(); log(ret); ");
#else
  // two literals: folded at compile time, or computed at run time
  static const char *L[] = OPVALS, *ops[] = { "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>" };
  int op = sym_choice("op", 10), a = sym_choice("a", 12), b = sym_choice("b", 12);
  if (op >= 4) sym_assume(a < 10 && b < 10);     // operands must be integers in range
  if (op >= 8) sym_assume(b < 6);
  if (op == 8) sym_assume(a < 8 && (a < 5 || b < 4) && (a == 0 || b < 5));
  o("log(5); try { log("); o(L[a]); o(" "); o(ops[op]); o(" "); o(L[b]); o("); } catch (Error e) { log(-1); } log(5); log("); o(L[a]); o("); log("); o(L[b]); o("); ");
#endif
  o("done = 1;");
  sym_note(src);
  sym_inst_limit(6000000, 1);
  compilerOpts.noOptimize = true; which = 0;
  sym_check(hx_run(src), "the program runs to its end without the optimizer");
  hx_set("done", NIL_VAL);
  compilerOpts.noOptimize = false; which = 1;
  sym_check(hx_run(src), "the program runs to its end with the optimizer");
  sym_check(AS_NUMBER(hx_glob("done")) == 1, "the optimized program reaches its end");
  sym_check(nl[0] == nl[1], "both versions log the same number of values");
  for (i = 0; i < nl[0] && i < nl[1]; i++) {
    if (IS_NUMBER(logs[0][i]) && IS_NUMBER(logs[1][i])) sym_check(AS_NUMBER(logs[0][i]) == AS_NUMBER(logs[1][i]) || (AS_NUMBER(logs[0][i]) != AS_NUMBER(logs[0][i])), "both versions log the same values");
    else sym_check(logs[0][i] == logs[1][i], "both versions log the same values");
  }
  sym_cover("compared");
  sym_done();
}
