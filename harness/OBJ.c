// Methods that are defined, aliased, included or shadowed while the program runs, dup() and
// methodMissing: calls, send, bound methods and reflection against a reference of the classes.
#include "hx.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef OPS
#define OPS {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}
#endif
enum { Z, A, B, M, S, NPL };
enum { MA, MB, MM, NNM };
static char src[12000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static const int opsel[] = OPS;
typedef struct { int id, owner, sup; } Def;
static Def defs[NPL][NNM];
static int incA, incB, extS, hasS, field[2], duped, added, hook = 1;
static int64_t x, y;
static int mro(int o, int *out) { // o: has the object's own methods
  int c = 0;
  if (o) { out[c++] = S; if (extS) out[c++] = M; }
  out[c++] = B; if (incB) out[c++] = M; out[c++] = A; if (incA) out[c++] = M; out[c++] = Z; return c;
}
static int find(const int *m, int c, int from, int nm) { int i; for (i = from; i < c; i++) if (defs[m[i]][nm].id) return i; return -1; }
// value of the method found at position i without the tag; NAN: an error
static double value(const int *m, int c, int i, int nm, int viaSuper, int *tags, int *sizes) {
  Def *d = &defs[m[i]][nm]; double v = d->id; int j = i;
  (*tags)++; (*sizes)++;
  if (!d->sup) return v;
  if (!viaSuper || m[i] != d->owner) for (j = 0; j < c && m[j] != d->owner; j++) ;
  j = find(m, c, j + 1, MA); if (j < 0) return NAN;
  return v + value(m, c, j, MA, 1, tags, sizes);
}
// -1: an error
static double call(int obj, int nm, int na, int mayMiss) {
  int m[10], c = mro(!obj && hasS, m), i = find(m, c, 0, nm), tags = 0, sizes = 0; double t = obj ? (double)y : (double)x, v;
  if (i < 0) { if (mayMiss && find(m, c, 0, MM) >= 0) return t + 50000 + na * 10 + nm; return -1; }
  v = value(m, c, i, nm, 0, &tags, &sizes); return isnan(v) ? -1 : v + tags * t + sizes * na;
}
static void body(const char *nm, int id, int sup) { O("%s(*a) { return this.tag + %d + a.size%s; } ", nm, id, sup ? " + super.ma(*a)" : ""); }
static void def(int pl, int nm, int id, int sup) { Def d = {id, pl, sup}; defs[pl][nm] = d; if (pl <= B) added++; if (pl == S) { hasS = 1; hook = 0; } }
void harness(void) {
  int k, i, o; char msg[120];
  hx_init(); x = sym_int("x", 1, 40); y = sym_int("y", 1, 40); hx_set("x", inum(x)); hx_set("y", inum(y));
  O("var added = 0; var errs = 0; class Z { class methodAdded(nm) { added += 1; } "); body("ma", 1000, 0); def(Z, MA, 1000, 0);
  O("} class A < Z { } class B < A { init() { this.tag = y; } } module M { "); body("mb", 20, 0); def(M, MB, 20, 0);
  O("} var o = B(); o.tag = x; var o2 = B(); var f = fun(*a) { return this.tag + 300 + a.size + super.ma(*a); }; added = 0; "); added = 0; int errs = 0;
  for (k = 0; k < NOPS; k++) {
    int op = opsel[sym_choice("operation", sizeof opsel / sizeof *opsel)], m[10], c, id = 3000 * (k + 1);
    switch (op) {
    case 0: O("class A { "); body("ma", id, 1); O("} "); def(A, MA, id, 1); break;
    case 1: O("class B { "); body("ma", id, 1); O("} "); def(B, MA, id, 1); break;
    case 2: O("module M { "); body("ma", id, 1); O("} "); def(M, MA, id, 1); break;
    case 3: O("fun own%d(obj) { in (obj) { ", k); body("ma", id, 1); O("} } own%d(B()); own%d(o); own%d(B()); ", k, k, k); def(S, MA, id, 1); break;
    case 4: O("B.defineMethod(\"mb\", f); "); def(B, MB, 300, 1); break;
    case 5: O("A.defineMethod(\"ma\", f); "); def(A, MA, 300, 1); break;
    case 6: case 7: { int pl = op == 6 ? B : A, from = op == 6 ? MA : MB, to = op == 6 ? MB : MA;
      O("try { %s.aliasMethod(\"%s\", \"%s\"); } catch (ArgumentError e) { errs += 1; } ", op == 6 ? "B" : "A", op == 6 ? "ma" : "mb", op == 6 ? "mb" : "ma");
      c = mro(0, m); for (i = 0; m[i] != pl; i++) ; i = find(m, c, i, from);
      if (i < 0) errs++; else { defs[pl][to] = defs[m[i]][from]; added++; } } break;
    case 8: O("B.include(M); "); incB = 1; break;
    case 9: O("A.include(M); "); incA = 1; break;
    case 10: O("o.extend(M); "); extS = hasS = 1; break;
    case 11: O("o2 = o.dup(); o2.tag = y; "); field[1] = field[0]; duped = 1; break;
    case 12: O("o.setProperty(\"mb\", x + 7); "); field[0] = 1; break;
    case 13: O("class B { methodMissing(nm, *a) { if (nm == \"mb\") { return this.tag + 50001 + a.size * 10; } return -5; } } "); def(B, MM, 1, 0); break;
    default: O("class A { "); body("mb", id + 700, 0); O("} "); def(A, MB, id + 700, 0);
    }
  }
  O("fun calls(ob) { var r = []; var i = 0; var fs = [fun() { return ob.ma(); }, fun() { return ob.ma(1, 2); }, fun() { return ob.mb(); }, fun() { return ob.mb(5); }, fun() { return ob.send(\"ma\", 3); }, fun() { return ob.send(\"mb\"); }, fun() { var b = ob.ma; return b(1); }, fun() { var b = ob.getProperty(\"mb\"); if (typeof(b) == \"number\") { return b; } if (b == nil) { return -2; } return b(1, 2, 3); }]; "
    "foreach (g in fs) { try { r.push(g()); } catch (Error e) { r.push(-1); } } return r; } "
    "var r = calls(o); var r2 = calls(o2); fun ref(ob) { return [ob.respondsTo(\"ma\"), ob.respondsTo(\"mb\"), ob.respondsTo(\"mc\"), ob.hasProperty(\"mb\"), ob.hasProperty(\"tag\"), ob.hasProperty(\"ma\"), ob.class == B, ob.hasGetter(\"ma\")]; } var q = ref(o); var q2 = ref(o2); "
    "var anc = B.ancestors(); var cls = [B.superClass == A, A.superClass == Z, B.isA(Z), !Z.isA(B), o.isSame(o), !o.isSame(o2)]; var done = 1;");
  sym_note(src);
  int ok = hx_run(src); sym_check(ok && isnum(hx_glob("done")), "the program runs"); if (!ok) sym_done();
  static const char *what[] = {"a call", "a call with arguments", "a call of the other method", "a call of the other method with an argument", "send with an argument", "send", "a bound method", "getProperty"};
  for (o = 0; o < 2; o++) {
    Value r = hx_glob(o ? "r2" : "r"), q = hx_glob(o ? "q2" : "q"); double w[8];
    w[0] = call(o, MA, 0, 1); w[1] = call(o, MA, 2, 1); w[2] = call(o, MB, 0, 1); w[3] = call(o, MB, 1, 1); w[4] = call(o, MA, 1, 0); w[5] = call(o, MB, 0, 0); w[6] = call(o, MA, 1, 0);
    int mm[10], c = mro(!o && hasS, mm), hasMB = find(mm, c, 0, MB) >= 0;
    w[7] = field[o] ? (double)x + 7 : hasMB ? call(o, MB, 3, 0) : -2;
    for (i = 0; i < 8; i++) { if (i == 5 && !hasMB) continue; snprintf(msg, sizeof msg, "%s", what[i]); sym_check(IS_AN_ARRAY(r) && ARRAY_SIZE(r) == 8 && isnum(ARRAY_GET(r, i)) && AS_NUMBER(ARRAY_GET(r, i)) == w[i], msg); }
    int wq[] = {1, hasMB, 0, field[o], 1, 0, 1, 0};
    for (i = 0; i < 8; i++) sym_check(IS_BOOL(ARRAY_GET(q, i)) && AS_BOOL(ARRAY_GET(q, i)) == wq[i], "what the object says it has");

  }
  Value cls = hx_glob("cls"); for (i = 0; i < 6; i++) sym_check(IS_BOOL(ARRAY_GET(cls, i)) && AS_BOOL(ARRAY_GET(cls, i)), "classes and identity");
  { int m[10], c = mro(0, m); static const char *nm[] = {"Z", "A", "B", "M"}; Value anc = hx_glob("anc"); Value v; int good = ARRAY_SIZE(anc) == c + 1;
    for (i = 0; good && i < c; i++) { tableGet(&vm.constants, OBJ_VAL(INTERN(nm[m[i]])), &v); good = v == ARRAY_GET(anc, i); }
    sym_check(good, "ancestors are in the order of the lookup"); }
  Value v = hx_glob("errs"); sym_check(isnum(v) && AS_NUMBER(v) == errs, "aliasMethod of a method that isn't there is an error");
  v = hx_glob("added"); if (hook) sym_check(isnum(v) && AS_NUMBER(v) == added, "methodAdded is called for each method");
  sym_cover(duped ? "copied" : "ran"); sym_done();
}
