// The text of values: nested values with symbolic characters, printed, converted, interpolated, joined and inspected, against a recursive reference.
#include "hx.h"
#ifndef KINDS
#define KINDS 24
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef LEN
#define LEN 2
#endif
enum { NIL, T, F, NUM, STR, ARRAY, MAP, PLAIN, TOSTR, INSP, CLASS, NESTED, MODULE, FUN, NATIVE, METHOD, ANON, SELFARR, SELFMAP, SUB, NMETHOD, ERR, SUBSTR, SUBARR };
typedef struct V { int k, n; struct V *c[4]; char s[8]; int num; Value v; } V;
static V pool[40]; static int npool;
static const double nums[] = { 0, -1, 42, 0.5, 100000, 1e6, 1.0 / 3, -0.25 };
static const char *numtext[] = { "0", "-1", "42", "0.5", "100000", "1e+06", "0.333333", "-0.25" };
static char src[3000]; static int sl, order;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static V *gen(int d) {
  V *x = &pool[npool++]; int i, k = sym_choice(d ? "inner" : "value", d == DEPTH ? 5 : KINDS);
  x->k = k; x->n = 0;
  switch (k) {
  case NUM: x->num = sym_choice("number", d ? 2 : 8) + (d ? 2 : 0); break;
  case STR: case SUBSTR: x->n = sym_choice("length", LEN + 1 - (d > 1)); for (i = 0; i < x->n; i++) { x->s[i] = (char)sym_int("char", 1, 127); sym_assume((x->s[i] == '"') | (x->s[i] == '\\') | (x->s[i] == '\n') | (x->s[i] == '\t') | (x->s[i] == '$') | (x->s[i] == 'q')); } x->s[x->n] = 0; break;
  case ARRAY: case SUBARR: x->n = sym_choice("elements", d ? 2 : 3); for (i = 0; i < x->n; i++) x->c[i] = gen(d + 1); break;
  case MAP: x->n = sym_choice("entries", d ? 2 : 3); for (i = 0; i < x->n; i++) x->c[i] = gen(d + 1); break;
  case SELFARR: x->n = sym_choice("after", 3); for (i = 0; i < x->n; i++) x->c[i] = gen(DEPTH); break;
  }
  if (d > 0 && k > TOSTR && k != CLASS) sym_assume(0);
  return x;
}
static int nv;
static void make(V *x) {   // an expression for x
  char b[8]; int i;
  switch (x->k) {
  case NIL: P("nil"); break; case T: P("true"); break; case F: P("false"); break;
  case NUM: snprintf(b, 8, "v%d", nv++); hx_set(b, NUMBER_VAL(nums[x->num])); P("%s", b); break;
  case STR: snprintf(b, 8, "v%d", nv++); hx_set(b, hx_str(x->s, x->n)); P("%s", b); break;
  case ARRAY: P("["); for (i = 0; i < x->n; i++) { if (i) P(", "); make(x->c[i]); } P("]"); break;
  case SUBARR: P("Arr("); for (i = 0; i < x->n; i++) { if (i) P(", "); make(x->c[i]); } P(")"); break;
  case SUBSTR: snprintf(b, 8, "v%d", nv++); hx_set(b, hx_str(x->s, x->n)); P("Str(%s)", b); break;
  case MAP: P("%%{"); for (i = 0; i < x->n; i++) { if (i) P(", "); P(i ? "\"k\": " : "7: "); make(x->c[i]); } P("}"); break;
  case PLAIN: P("A()"); break; case TOSTR: P("B()"); break; case INSP: P("C()"); break; case CLASS: P("A"); break; case NESTED: P("M::D()"); break; case MODULE: P("M"); break;
  case FUN: P("fn"); break; case NATIVE: P("clock"); break; case METHOD: P("B().toString"); break; case ANON: P("fun() { return 1; }"); break;
  case SELFARR: P("(fun() { var a = [1]; a.push(a); "); for (i = 0; i < x->n; i++) { P("a.push("); make(x->c[i]); P("); "); } P("return a; })()"); break;
  case SELFMAP: P("(fun() { var m = Map(); m[1] = m; return m; })()"); break;
  case SUB: P("S()"); break; case NMETHOD: P("[].push"); break; case ERR: P("Error(\"msg\")"); break;
  }
}
static char out[2][600]; static int no;
static void W(char *o, const char *s, int n) { for (int i = 0; i < n; i++) o[no++] = s[i]; o[no] = 0; }
static void w(char *o, const char *s) { W(o, s, (int)strlen(s)); }
static void text(V *x, char *o, int insp) {
  int i;
  switch (x->k) {
  case NIL: w(o, "nil"); break; case T: w(o, "true"); break; case F: w(o, "false"); break;
  case NUM: w(o, numtext[x->num]); break;
  case STR: case SUBSTR: if (!insp) { W(o, x->s, x->n); break; }
    w(o, "\""); for (i = 0; i < x->n; i++) { if (x->s[i] == '\n') w(o, "\\n"); else if (x->s[i] == '\t') w(o, "\\t"); else if (x->s[i] == '"') w(o, "\\\""); else W(o, x->s + i, 1); } w(o, "\""); break;
  case ARRAY: case SUBARR: w(o, "["); for (i = 0; i < x->n; i++) { if (i) w(o, ","); text(x->c[i], o, insp); } w(o, "]"); break;
  case MAP: w(o, insp ? "%{" : "{"); for (i = 0; i < x->n; i++) { int e = order && x->n == 2 ? 1 - i : i; if (i) w(o, insp ? "," : ", "); w(o, e ? insp ? "\"k\"" : "k" : "7"); w(o, insp ? ":" : " => "); text(x->c[e], o, insp); } w(o, "}"); break;
  case PLAIN: w(o, insp ? "#<A>" : "<instance A>"); break;
  case TOSTR: w(o, insp ? "#<B>" : "bee"); break;
  case INSP: w(o, insp ? "see" : "<instance C>"); break;
  case CLASS: w(o, insp ? "A" : "<class A>"); break;
  case NESTED: w(o, insp ? "#<M::D>" : "<instance M::D>"); break;
  case MODULE: w(o, insp ? "M" : "<module M>"); break;
  case FUN: w(o, "<fun fn>"); break; case NATIVE: w(o, "<fn clock (native)>"); break; case METHOD: w(o, "<method B#toString>"); break; case ANON: w(o, "<fun (Anon)>"); break;
  case SELFARR: w(o, "[1,[...]"); for (i = 0; i < x->n; i++) { w(o, ","); text(x->c[i], o, insp); } w(o, "]"); break;
  case SELFMAP: w(o, "{1 => {...}}"); break;
  case SUB: w(o, insp ? "#<S>" : "bee!"); break; case NMETHOD: w(o, "<method push>"); break; case ERR: w(o, insp ? "#<Error>" : "<instance Error>"); break;
  }
}
static Value logv[8]; static int nlog;
static Value nRec(int c, Value *a) { if (nlog < 8) logv[nlog++] = a[0]; return NIL_VAL; }
// the text without the numbers that identify objects
static int strip(const char *s, int n, char *o) { int i, k = 0; for (i = 0; i < n; i++) { if (s[i] == ' ' && s[i + 1] == '(' && s[i + 2] >= '0' && s[i + 2] <= '9') { while (s[i] != ')') i++; continue; } o[k++] = s[i]; } o[k] = 0; return k; }
int harness(void) {
  int i, j, n; hx_init(); addGlobalFunction("rec", nRec);
  order = sym_choice("order", 2);
  V *x = gen(0);
  int hasmap = x->k == MAP && x->n == 2;
  if (order && !hasmap) sym_assume(0);
  int noinsp = x->k == SELFARR || x->k == SELFMAP || x->k == NIL || x->k == T || x->k == F || x->k == NUM || (x->k >= FUN && x->k <= ANON) || x->k == NMETHOD;
  sl = 0; P("class A {} class B { toString() { return \"bee\"; } } class S < B { toString() { var s = super.toString(); return s + \"!\"; } } class C { inspect() { return \"see\"; } } module M { class D {} } class Str < String {} class Arr < Array {} fun fn() {} ");
  P("fun id(x) { return x; } var x = "); make(x); P("; var first = 0; ");
  if (hasmap) P("foreach (k, v in x) { if (first == 0) { first = k; } } ");
  P("print(x); rec(String(x)); rec(\"<${x}>\"); rec([x].join(\"-\")); rec(\"\" + String([x, 1])); ");
  if (!noinsp) P("rec(x.inspect()); rec([x].inspect()); ");
  sym_out_reset();
  sym_note(src);
  sym_check(hx_run(src), "the script runs to its end");
  if (hasmap) { int kfirst = !IS_NUMBER(hx_glob("first")); if (kfirst != order) sym_assume(0); }
  char *t = out[0], *u = out[1]; no = 0; text(x, t, 0); n = no;
  uint64_t pn = sym_out_len(); char *po = sym_out(); int same = (int)pn == n + 1;
  for (i = 0; i < n && same; i++) same &= sym_concrete(po[i] == t[i]);
  if (!same) sym_note(t);
  sym_check(same, "print");
  sym_check(nlog == (noinsp ? 4 : 6), "every conversion ran");
  for (j = 0; j < nlog; j++) {
    no = 0; u[0] = 0;
    if (j == 1) w(u, "<"); if (j == 3 || j == 5) w(u, "[");
    text(x, u, j > 3);
    if (j == 1) w(u, ">"); if (j == 3) w(u, ",1]"); if (j == 5) w(u, "]");
    sym_check(IS_A_STRING(logv[j]), "conversions give strings");
    ObjString *s = VAL_TO_STRING(logv[j]); char b[700]; int l = j > 3 ? strip(s->chars, (int)s->length, b) : (int)s->length; const char *c = j > 3 ? b : s->chars;
    int ok = l == no; for (i = 0; i < l && ok; i++) ok &= sym_concrete(c[i] == u[i]);
    if (!ok) { char m[900]; snprintf(m, 900, "conversion %d gives '%s' want '%s' | %s", j, c, u, src); sym_note(m); }
    sym_check(ok, j > 3 ? "inspect" : "text");
  }
  sym_cover("text");
  return 0;
}
