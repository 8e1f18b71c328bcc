// Names: different names denote different variables, properties, methods, constants and map keys, also when their hashes are equal; equal names denote the same.
#include "hx.h"
int harness(void) {
  int i; char w[12] = "costar", src[3000]; hx_init();
  int same = sym_choice("same", 2), kind = sym_choice("kind", 7);
  for (i = 6; i < 10; i++) w[i] = (char)sym_int("c", 'a', 'z'); w[10] = 0;
  const char *o = "liquid", *v = w;
  uint32_t x = hashString((char *)o, 6), y = hashString(w, 10); sym_assume(x == y);
  for (i = 6; i < 10; i++) w[i] = (char)sym_concrete(w[i]);
  char cap[2][12]; snprintf(cap[0], 12, "%s", o); snprintf(cap[1], 12, "%s", w);
  if (same) v = o;
  static const char *T[] = {
    "var # = 1; var r1; var r2; ~ r1 = #; r2 = @;",
    "class C {} var o = C(); o.# = 1; o.@ = 2; var r1 = o.#; var r2 = o.@;",
    "class C { #() { return 1; } } class D < C { @() { return 2; } } var r1 = D().#(); var r2 = D().@();",
    "var m = %{}; m[\"#\"] = 1; m[\"@\"] = 2; var r1 = m[\"#\"]; var r2 = m[\"@\"];",
    "fun f() { var # = 1; if (true) { var @ = 2; return [#, @]; } } var r0 = f(); var r1 = r0[0]; var r2 = r0[1];",
    "fun #() { return 1; } fun @() { return 2; } var r1 = #(); var r2 = @();",
    "fun f(#: 1, zz: 0, @`: 2) { return [#, @`]; } var r0 = f(@`: 2, #: 1); var r1 = r0[0]; var r2 = r0[1];" };
  char decl[60]; snprintf(decl, sizeof decl, same ? "%s = 2;" : "var %s = 2;", v);
  int one = same && kind != 6;
  int n = 0; const char *t;
  for (t = T[kind]; *t; t++) n += snprintf(src + n, sizeof src - n, "%s", *t == '#' ? o : *t == '@' ? v : *t == '~' ? decl : *t == '`' ? kind == 6 && same ? "x" : "" : (char[]){ *t, 0 });
  sym_note(src);
  sym_check(hx_run(src), "the program runs to its end");
  Value r1 = hx_glob("r1"), r2 = hx_glob("r2");
  sym_check(IS_NUMBER(r2) && AS_NUMBER(r2) == 2, "the name denotes its own value");
  sym_check(IS_NUMBER(r1) && AS_NUMBER(r1) == (one ? 2 : 1), "another name denotes another thing");
  sym_cover(same ? "same name" : "colliding names");
  sym_done();
}
