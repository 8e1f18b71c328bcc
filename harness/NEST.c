// Code nested to any depth around the limits is compiled or rejected; class bodies evaluated
// at run time are compiled or throw SyntaxError.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#define N(a) (int)(sizeof a / sizeof *a)
#if MODE == 0
#ifndef LO
#define LO 995
#define HI 1003
#endif
static const char *nest[][4] = { // head, repeated opening, repeated close, tail
  { "x = ", "(", ")", ";" }, { "x = ", "[", "]", ";" }, { "x = 1", " + 1", "", ";" }, { "x = ", "!", "", "1;" }, { "", "if (x) { ", "} ", "" }, { "", "x = ", "", "1;" }, { "", "x += ", "", "1;" },
  { "x", ".y", "", ";" }, { "x = 1", " and 1", "", ";" }, { "", "while (x) { ", "} ", "" }, { "if (x) { } ", "else if (x) { } ", "", "" }, { "x = ", "f(", ")", ";" }, { "x", "()", "", ";" }, { "x", "[1]", "", ";" },
  { "x = \"", "${1}", "", "\";" }, { "x = ", "%{1: ", "}", ";" }, { "fun f(a = 1", " + 1", "", ") { }" }, { "", "f() -> { ", "}; ", "" }, { "x = ", "fun() { return ", "; }", ";" }, { "", "try { ", "} catch (Error e) { } ", "" }, { "x = ", "-", "", "1;" },
};
#ifndef NESTS
#define NESTS {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}
#endif
#endif
int harness(void) {
  static char src[60000]; int i, n = 0; hx_init();
#if MODE == 0
  static const int nests[] = NESTS;
  const char **k = nest[nests[sym_choice("construct", N(nests))]];
  int64_t d = sym_int("depth", LO, HI);
  n += snprintf(src + n, sizeof src - n, "%s", k[0]);
  for (i = 0; i < d; i++) n += snprintf(src + n, sizeof src - n, "%s", k[1]);
  if (!strcmp(k[1], "(") || !strcmp(k[1], "f(")) src[n++] = '1';
  if (!strcmp(k[1], "%{1: ")) src[n++] = '1';
  if (!strcmp(k[2], "; }")) src[n++] = '1';
  if (*k[2]) for (i = 0; i < d; i++) n += snprintf(src + n, sizeof src - n, "%s", k[2]);
  n += snprintf(src + n, sizeof src - n, "%s", k[3]);
  src[n] = 0;
  int ok = hx_compile(src) != NULL;
  sym_cover(ok ? "compiled" : "rejected");
  sym_check(ok || d > 100, "code of an ordinary depth is compiled");
  sym_check(hx_compile("fun f(a) { return a; } var r = f(1);") != NULL, "the compiler still works");
#else
  static const char *tok[] = { "m() {", "}", "class", "sm()", "getter {", "s=(v) {", "var x = 1;", "this.y = 2;", "return 1;", "(", ")", "{", ";", "1", "\"${", "'", "..", "fun g() { }", "class I {", "print 1;", "x +", "throw Error(\"z\");", "-> {", "=", "super.m();", "yield(1);", "break;" };
  static const char *on[] = { "A", "o", "Mod" };
  static char body[400]; int l = 0;
  int t = sym_choice("on", N(on));
  for (i = 0; i < LEN; i++) l += snprintf(body + l, sizeof body - l, "%s ", tok[sym_choice("token", N(tok))]);
  hx_set("body", hx_str(body, l));
  snprintf(src, sizeof src, "class B { } class A < B { m0() { return 5; } } module Mod { } var o = A(); var done = nil; var out = nil; var name = nil; "
    "fun run() { var a = 1; try { %s.instanceEval(body); out = \"done\"; } catch (SyntaxError e) { out = \"syntax\"; } catch (Error e) { out = \"error\"; } var b = 2; return a + b; } "
    "var r = run(); var r2 = o.m0(); eval(\"r2 = r2 + 1;\"); done = true;", on[t]);
  sym_note(body);
  sym_inst_limit(20000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  Value out = hx_glob("out"), r = hx_glob("r"), r2 = hx_glob("r2");
  sym_check(IS_STRING(out), "the evaluation ends or throws");
  sym_check(IS_NUMBER(r) && AS_NUMBER(r) == 3 && IS_NUMBER(r2) && AS_NUMBER(r2) == 6, "the program goes on");
  sym_cover(AS_CSTRING(out));
#endif
  sym_done();
}
