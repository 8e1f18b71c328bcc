// Expressions: precedence, associativity, order of evaluation and short circuit.
#include "hx.h"
#ifndef NOPS
#define NOPS 2
#endif
enum { OR, AND, EQ, NE, LT, LE, GT, GE, ADD, SUB, BOR, BAND, BXOR, SHL, SHR, MUL, DIV, MOD, NOPER };
static const char *optxt[] = { "or", "and", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "&", "^", "<<", ">>", "*", "/", "%" };
static const int level[] = { 0, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 5, 5, 5, 6, 6, 6 };
#ifndef OPSET
#define OPSET { OR, AND, EQ, NE, LT, LE, GT, GE, ADD, SUB, BOR, BAND, BXOR, SHL, SHR, MUL, DIV, MOD }
#endif
static const int opset[] = OPSET;
typedef struct { int k; double d; } V;    // 0 number, 1 boolean, 2 TypeError, 3 division by zero
static int un[NOPS + 1], op[NOPS], form[NOPS + 1], po = -1, pc = -1;
static int64_t val[NOPS + 1];
static int wantlog[40], nwant; static double gotlog[40]; static int ngot;
static Value nT(int c, Value *a) { if (ngot < 40) gotlog[ngot++] = AS_NUMBER(a[0]); return a[1]; }
static int truthy(V v) { return v.k == 0 || v.d != 0; }
static V bin(int o, V a, V b) {
  V r = { 1, 0 };
  if (o == EQ || o == NE) { int e = a.k == b.k && a.d == b.d; r.d = (o == EQ) == e; return r; }
  if (a.k || b.k) { r.k = 2; return r; }
  int x = (int)a.d, y = (int)b.d;
  switch (o) {
  case LT: r.d = a.d < b.d; return r;
  case LE: r.d = a.d <= b.d; return r;
  case GT: r.d = a.d > b.d; return r;
  case GE: r.d = a.d >= b.d; return r;
  }
  r.k = 0;
  switch (o) {
  case ADD: r.d = a.d + b.d; break;
  case SUB: r.d = a.d - b.d; break;
  case MUL: r.d = a.d * b.d; break;
  case DIV: if (b.d == 0) { r.k = 3; break; } r.d = a.d / b.d; break;
  case MOD: if (y == 0) { r.k = 3; break; } r.d = y == -1 ? 0 : x % y; break;
  case BOR: r.d = x | y; break;
  case BAND: r.d = x & y; break;
  case BXOR: r.d = x ^ y; break;
  case SHL: sym_assume(y >= 0 && y < 16 && x >= 0 && x < 4096); r.d = (int)((unsigned)x << y); break;
  case SHR: sym_assume(y >= 0 && y < 31); r.d = x >> y; break;
  }
  return r;
}
static int pos;   // next operand
static V parse(int lv);
static V operand(int skip) {
  int i = pos++; V v = { 0, (double)val[i] };
  if (form[i] == 1) { if (!skip && nwant < 40) wantlog[nwant++] = i; }
  return v;
}
static int dead;
static V unary(void) {
  int u = un[pos]; V v;
  if (po == pos) { int s = po, q = pos; po = -1; un[q] = 0; v = parse(0); un[q] = u; po = s; } else v = operand(dead);
  if (u == 1 && v.k < 2) { if (v.k == 1) v.k = 2; else v.d = -v.d; }
  if (u == 2 && v.k < 2) { v.d = !truthy(v); v.k = 1; }
  return v;
}
static int lim(void) { return po == -1 && pc >= 0 ? pc : NOPS; }   // last operand of the current group
static V parse(int lv) {
  V a = lv == 7 ? unary() : parse(lv + 1);
  if (lv == 7) return a;
  while (pos <= lim() && level[op[pos - 1]] == lv) {
    int o = op[pos - 1], d0 = dead;
    if (o == OR && a.k < 2 && truthy(a)) dead = 1;
    if (o == AND && a.k < 2 && !truthy(a)) dead = 1;
    if (a.k >= 2) dead = 1;
    int sk = dead; V b = parse(lv + 1); dead = d0;
    if (sk || a.k >= 2) continue;
    if (b.k >= 2) { a = b; continue; }
    if (o == OR) { if (truthy(b)) a = b; }
    else if (o == AND) { if (truthy(b)) a = b; else { a.k = 1; a.d = 0; } }
    else a = bin(o, a, b);
  }
  return a;
}
int harness(void) {
  char src[1200], b[60]; int i, n = 0;
  hx_init();
  addGlobalFunction("t", nT);
  for (i = 0; i < NOPS; i++) op[i] = opset[sym_choice("op", sizeof opset / sizeof *opset)];
#ifdef PLAIN       // every operator pair, variables only
  int up = 0;
#else
  int up = sym_choice("unary-at", 2 * (NOPS + 1) + 1);
#endif
  for (i = 0; i <= NOPS; i++) un[i] = up == 2 * i + 1 ? 1 : up == 2 * i + 2 ? 2 : 0;
  int pp = sym_choice("parens", NOPS == 2 ? 3 : 6);
  if (pp) { static const int P3[][2] = { {0,1},{1,2},{2,3},{0,2},{1,3} }; po = P3[pp - 1][0]; pc = P3[pp - 1][1]; }
#ifdef PLAIN
  int fm = 1;
#else
  int fm = up ? (up & 1 ? 0 : 2) : sym_choice("operands", 3);     // calls, variables, literals
#endif
  int hard = 0, set = 0;                  // products and quotients: three operand tuples instead of ranges
  for (i = 0; i < NOPS; i++) hard |= op[i] == DIV || op[i] == MUL || op[i] == MOD;
  if (hard && fm == 1) set = sym_choice("tuple", 3);
  for (i = 0; i <= NOPS; i++) {
    form[i] = fm == 0 ? 1 : 0;
    snprintf(b, sizeof b, "p%d", i);
    if (fm == 2) val[i] = (i * 3 + 2) % 5;
    else if (hard) { static const int T[][4] = { { 5, 2, 3, 1 }, { 0, 6, 4, 3 }, { 7, 1, 0, 2 } }; val[i] = T[set][i]; hx_set(b, NUMBER_VAL((double)val[i])); }
    else { val[i] = sym_int(b, 0, 3); hx_set(b, NUMBER_VAL((double)val[i])); }
  }
  n += snprintf(src + n, sizeof src - n, "var r = nil; var er = nil; fun f(x) { var l1 = 11; var l2 = ");
  for (i = 0; i <= NOPS; i++) {
    if (i) n += snprintf(src + n, sizeof src - n, " %s ", optxt[op[i - 1]]);
    // the unary operator of a group applies to the whole group
    if (un[i]) n += snprintf(src + n, sizeof src - n, un[i] == 1 ? "-" : "!");
    if (i == po) n += snprintf(src + n, sizeof src - n, "(");
    if (fm == 0) n += snprintf(src + n, sizeof src - n, "t(%d, p%d)", i, i); else if (fm == 1) n += snprintf(src + n, sizeof src - n, "p%d", i); else n += snprintf(src + n, sizeof src - n, "%d", (int)val[i]);
    if (i == pc) n += snprintf(src + n, sizeof src - n, ")");
  }
  snprintf(src + n, sizeof src - n, "; return [l1, l2, x]; } var done = nil; try { r = f(7); } catch (Error e) { er = e; } done = true;");
  sym_note(src);
  V w = parse(0);
  sym_check(hx_run(src), "the program runs to its end");
  Value r = hx_glob("r"), er = hx_glob("er");
  sym_check(ngot == nwant, "each operand is evaluated once, and only when needed");
  for (i = 0; i < ngot && i < nwant; i++) sym_check(gotlog[i] == wantlog[i], "operands are evaluated from left to right");
  if (w.k >= 2) { sym_cover(w.k == 2 ? "type error" : "division by zero"); sym_check(!IS_NIL(er) && (w.k == 2) == (strcmp(hx_errName(er), "TypeError") == 0), "the expression raises"); sym_done(); }
  sym_check(IS_NIL(er), "the expression does not raise");
  sym_check(IS_ARRAY(r) && ARRAY_SIZE(r) == 3 && AS_NUMBER(arrayGet(r, 0)) == 11 && AS_NUMBER(arrayGet(r, 2)) == 7, "other locals keep their values");
  Value v = arrayGet(r, 1);
  if (w.k == 0) { sym_cover("number"); sym_check(IS_NUMBER(v) && AS_NUMBER(v) == w.d, "value of the expression"); }
  else { sym_cover("boolean"); sym_check(IS_BOOL(v) && (v == TRUE_VAL) == (w.d != 0), "value of the expression"); }
  sym_done();
}
