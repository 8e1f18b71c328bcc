// Number operators: every operator applied to two operands of any type.
#include "hx.h"
static const char *ops[] = { "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=" };
static const char *script =
  "class Plain { } class Ops { opAdd(o) { return [1,o]; } opDiff(o) { return [2,o]; } opMul(o) { return [3,o]; } opDiv(o) { return [4,o]; } opShovelLeft(o) { return [5,o]; } opShovelRight(o) { return [6,o]; } opCmp(o) { return o; } opEquals(o) { return o; } }"
  "var r = nil; var err = nil; var after = 0;";
static int isInt32(double d) { return (d >= -2147483648.0) & (d <= 2147483647.0); }
static int typeErr(void) { return strcmp(hx_errName(hx_glob("err")), "TypeError") == 0; }
static double mkNum(const char *n, int kind) {
  if (kind == 0) return sym_double(n);
  if (kind == 1) return (double)sym_int(n, -2147483648LL, 2147483647LL);
  return (double)sym_int(n, -100, 100) / 4.0;   // quarters
}
int harness(void) {
  char src[600];
  hx_init();
  sym_check(hx_run(script), "prelude runs");
#if MODE == 0
  // both numbers
  int op = sym_choice("op", 16);
  int kind = op < 4 || op >= 10 ? 0 : op == 8 || op == 9 ? 1 : 1 + sym_choice("kind", 2);
  double a = mkNum("a", kind), b = mkNum("b", kind);
  if (op >= 10) sym_assume((a == a) & (b == b));
  hx_set("a", NUMBER_VAL(a)); hx_set("b", NUMBER_VAL(b));
  if (op == 8 || op == 9) { sym_assume((b >= 0) & (b < 32)); }
  if (op == 8) sym_assume((a >= 0) & (a < 1024) & (b < 21));
  snprintf(src, sizeof src, "fun f(x, y) { var q = x %s y; return q; } try { r = f(a, b); } catch (Error e) { err = e; } after = 1;", ops[op]);
  sym_note(ops[op]);
  sym_check(hx_run(src), "script runs to its end");
  sym_check(AS_NUMBER(hx_glob("after")) == 1, "execution continues after the operator");
  Value R = hx_glob("r"), E = hx_glob("err");
  if (!IS_NIL(E)) {
    sym_cover("division by zero reported");
    sym_check(op == 3 || op == 4, "only division and modulo of numbers may raise");
    if (op == 3) sym_check(b == 0.0, "division raises only for a zero divisor");
    else sym_check((b > -1.0) & (b < 1.0), "modulo raises only for a divisor that truncates to zero");
    sym_check(strcmp(hx_errName(E), "Error") == 0, "division by zero is an Error");
    sym_done();
  }
  if (op < 10) {
    sym_check(IS_NUMBER(R), "number operators give numbers");
    double r = AS_NUMBER(R);
    int ia = kind ? (int)a : 0, ib = kind ? (int)b : 0;
    switch (op) {
    case 0: sym_check(sameNum(r, a + b), "sum"); break;
    case 1: sym_check(sameNum(r, a - b), "difference"); break;
    case 2: sym_check(sameNum(r, a * b), "product"); break;
    case 3: sym_check(b != 0.0, "division by zero must raise"); sym_check(sameNum(r, a / b), "quotient"); break;
    case 4: sym_check(ib != 0, "modulo by zero must raise"); sym_cover("modulo"); sym_check(ib == -1 ? r == 0.0 : r == (double)(ia % ib), "remainder of the truncated operands"); break;
    case 5: sym_check(r == (double)(ia | ib), "bitwise or"); break;
    case 6: sym_check(r == (double)(ia & ib), "bitwise and"); break;
    case 7: sym_check(r == (double)(ia ^ ib), "bitwise xor"); break;
    case 8: sym_cover("shift left"); sym_check(r == (double)(int)((unsigned)ia << ib), "left shift"); break;
    case 9: sym_cover("shift right"); sym_check(r == (double)(ia >> ib), "right shift"); break;
    }
  } else {
    sym_cover("comparison");
    int want = op == 10 ? a < b : op == 11 ? a <= b : op == 12 ? a > b : op == 13 ? a >= b : op == 14 ? a == b : a != b;
    sym_check(IS_BOOL(R), "comparisons give booleans");
    sym_check(R == (want ? TRUE_VAL : FALSE_VAL), "comparison result");
  }
#elif MODE == 1
  // at least one operand is not a number
  int op = sym_choice("op", 14);
  int k1 = sym_choice("lhs", 7), k2 = sym_choice("rhs", 7);
  sym_assume(k1 != 0 || k2 != 0);
  static const char *lit[] = { "a", "nil", "true", "\"str\"", "[1]", "Plain()", "Ops()" };
  hx_set("a", NUMBER_VAL((double)sym_int("a", -9, 9)));
  snprintf(src, sizeof src, "var vl = %s; var vq = %s; try { r = vl %s vq; } catch (Error e) { err = e; } after = 1;", lit[k1], lit[k2], ops[op]);
  sym_note(src);
  sym_check(hx_run(src), "script runs to its end");
  Value R = hx_glob("r"), E = hx_glob("err"), Q = hx_glob("vq");
  sym_check(AS_NUMBER(hx_glob("after")) == 1, "execution continues after the operator");
  static const int ovl[] = { 1, 2, 3, 4, 0, 0, 0, 0, 5, 6 };
  if (k1 <= 2) { // number/nil/bool on the left and the pair is not two numbers
    sym_check(!IS_NIL(E), "mixed operands raise");
    sym_check(typeErr(), "mixed operands raise TypeError");
    sym_cover("type error");
  } else if (k1 == 6 && op < 10) {
    if (ovl[op]) {
      sym_cover("operator method");
      sym_check(IS_NIL(E), "operator method found");
      sym_check(IS_ARRAY(R) && AS_NUMBER(arrayGet(R, 0)) == ovl[op] && arrayGet(R, 1) == Q, "operator method receives the right operand");
    } else sym_check(strcmp(hx_errName(E), "NameError") == 0, "operator without a method raises NameError");
  } else if (k1 == 5 && op < 10) {
    sym_check(strcmp(hx_errName(E), "NameError") == 0, "operator without a method raises NameError");
  } else if (k1 == 6 && op >= 10) {
    if (k2 == 0) { double o = AS_NUMBER(Q); int want = op == 10 ? o < 0 : op == 11 ? o <= 0 : op == 12 ? o > 0 : o >= 0; sym_cover("opCmp"); sym_check(R == (want ? TRUE_VAL : FALSE_VAL), "comparison follows opCmp"); }
    else sym_check(typeErr(), "opCmp must return a number");
  } else if (k1 == 3 && k2 == 3 && op >= 10) {
    sym_check(R == (op == 11 || op == 13 ? TRUE_VAL : FALSE_VAL), "string comparison");
  }
#elif MODE == 2
  // unary minus, logical not, truthiness, and/or
  static const char *lit[] = { "a", "nil", "true", "false", "\"\"", "[]" };
  int k = sym_choice("kind", 6), k2 = sym_choice("kind2", 6);
  double a = sym_double("a");
  hx_set("a", NUMBER_VAL(a));
  snprintf(src, sizeof src, "var vx = %s; var vy = %s; var n = 0; var vz = 5; var vw = 5; fun g() { n += 1; return vy; } vz = vx and g(); var vn1 = n; n = 0; vw = vx or g(); var vn2 = n; var vt = !vx; var vi = 0; if (vx) { vi = 1; } else { vi = 2; } try { r = -vx; } catch (Error e) { err = e; }", lit[k], lit[k2]);
  sym_note(src);
  sym_check(hx_run(src), "script runs to its end");
  int truthy = k != 1 && k != 3, t2 = k2 != 1 && k2 != 3;
  Value X = hx_glob("vx"), Y = hx_glob("vy");
  sym_check(hx_glob("vt") == (truthy ? FALSE_VAL : TRUE_VAL), "not");
  sym_check(AS_NUMBER(hx_glob("vi")) == (truthy ? 1 : 2), "if takes the right arm");
  sym_check(AS_NUMBER(hx_glob("vn1")) == truthy, "and evaluates its right operand only when needed");
  sym_check(AS_NUMBER(hx_glob("vn2")) == !truthy, "or evaluates its right operand only when needed");
  Value Z = hx_glob("vz"), W = hx_glob("vw");
  sym_check(isTruthy(Z) == (truthy && t2), "and truth");
  sym_check(isTruthy(W) == (truthy || t2), "or truth");
  if (truthy && t2) sym_check(Z == Y, "and gives its right operand");
  if (truthy) sym_check(W == X, "or gives its left operand"); else if (t2) sym_check(W == Y, "or gives its right operand");
  if (k == 0) { sym_cover("negate"); sym_check(IS_NIL(hx_glob("err")), "negating a number works"); sym_check(sameNum(AS_NUMBER(hx_glob("r")), -a), "unary minus"); }
  else sym_check(typeErr(), "negating a non-number raises TypeError");
#endif
  sym_done();
}
