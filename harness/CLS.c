// Method resolution: generated hierarchies of classes, modules and an object's own methods,
// against a reference that walks the ancestors.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef KINDS
#define KINDS {0,1,2,3}
#endif
#ifndef INCS
#define INCS {0,1,2,3,4,5,6,7}
#endif
enum { A, B, C, M, N, S, NENT, OBJ };
static char src[9000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static const int kinds[] = KINDS, incs[] = INCS;
enum { METHOD, GETTER, SETTER, STATIC };
static int kind, opt[NENT], mro[20], nmro, stat[20];
static int logv[100], nlog, want[100], nwant, bad;
static int64_t x;
static Value nLog(int c, Value *a) { if (nlog < 100) { logv[nlog] = IS_NUMBER(a[0]) ? (int)AS_NUMBER(a[0]) : -7777; nlog++; } return NIL_VAL; }
static void def(int e) {
  if (opt[e] == 0) return;
  int sup = opt[e] == 2, thr = opt[e] == 3;
  // B calls super for some arguments only
  const char *cond = e == B && sup ? kind == GETTER ? "if (x < 25) {" : "if (v < 25) {" : "", *own = e == B && sup ? "return this.x + 2; " : "";
  const char *call = thr ? "(fun() { return super.m(v); })()" : "super.m(v)";
  switch (kind) {
  case METHOD: O("m(v) { log(%d + v); ", e * 100); if (sup || thr) O("%s return %s + %d; %s %s", cond, call, e + 1, *cond ? "}" : "", own); else O("return this.x + %d; ", e + 1); O("} "); break;
  case GETTER: O("m { log(%d); ", e * 100); if (sup) O("%s return super.m() + %d; %s %s", cond, e + 1, *cond ? "}" : "", own); else O("return this.x + %d; ", e + 1); O("} "); break;
  case SETTER: O("m=(v) { log(%d + v); this.y = v + this.x + %d; } ", e * 100, e + 1); break;
  default: O("class m(v) { log(%d + v); ", e * 100); if (sup || thr) O("%s return %s + %d; %s %s", cond, call, e + 1, *cond ? "}" : "", own); else O("return this.x + %d; ", e + 1); O("} "); break;
  }
}
static void addAnc(int e, const int *inc, int ninc) {
  int i, j, seen[2] = {0, 0};
  mro[nmro++] = e;
  for (i = ninc - 1; i >= 0; i--) { // the module included last comes first
    int t[] = {-1, A, B, B, C, C, S, S}, mod[] = {0, M, M, N, M, N, M, N};
    int k = inc[i];
    if (k && t[k] == e) {
      int first = 1; for (j = 0; j < i; j++) if (inc[j] == k) first = 0; // the second time does nothing
      if (first) mro[nmro++] = mod[k];
    }
  }
  (void)seen;
}
// value of a call starting at position i, -1: not found
static double call(int i) {
  for (; i < nmro; i++) if (opt[mro[i]]) {
    int e = mro[i];
    want[nwant++] = e * 100 + (kind == GETTER ? 0 : (int)x);
    if (opt[e] >= 2 && kind != SETTER && !(e == B && opt[e] == 2 && x >= 25)) { double r = call(i + 1); return r == -1 ? -1 : r + e + 1; }
    return (kind == SETTER ? (double)x : 0) + 3 + e + 1;
  }
  return -1;
}
static int cmpLog(void) { int i, ok = nlog == nwant; for (i = 0; ok && i < nlog; i++) ok = logv[i] == want[i]; return ok; }
void harness(void) {
  int i, ninc = 2, inc[2]; char msg[300];
  hx_init(); addGlobalFunction("log", nLog);
  kind = kinds[sym_choice("kind", sizeof kinds / sizeof *kinds)];
  x = sym_int("x", 0, 50);
  for (i = 0; i < NENT; i++) { static const char *nm[] = {"A", "B", "C", "M", "N", "the object"}; opt[i] = sym_choice(nm[i], kind == SETTER ? 2 : kind == GETTER ? 3 :
#ifdef NESTED
   4
#else
   3
#endif
   ); }
  if (kind == STATIC && opt[S]) sym_assume(0);
  for (i = 0; i < ninc; i++) { inc[i] = incs[sym_choice(i ? "second include" : "first include", sizeof incs / sizeof *incs)]; if (kind == STATIC && inc[i] >= 6) sym_assume(0); }
  if (inc[0] == 0 && inc[1] != 0) sym_assume(0);
  static const char *inctxt[] = {"", "A.include(M); ", "B.include(M); ", "B.include(N); ", "C.include(M); ", "C.include(N); ", "o.extend(M); ", "o.extend(N); "};
  O("class A { init() { this.x = 3; } "); if (kind == STATIC) n = 0, O("class A { "); def(A); O("} class B < A { "); def(B); O("} class C < B { "); def(C); O("} module M { "); def(M); O("} module N { "); def(N); O("} ");
  if (kind == STATIC) O("A.x = 3; B.x = 3; C.x = 3; M.x = 3; N.x = 3; var o = C; "); else O("var o = C(); ");
  int late = sym_choice("when the object's methods are defined", kind == STATIC ? 1 : 2);
  if (!late && opt[S]) { O("in (o) { "); def(S); O("} "); }
  for (i = 0; i < ninc; i++) O("%s", inctxt[inc[i]]);
  if (late && opt[S]) { O("in (o) { "); def(S); O("} "); } else if (late) sym_assume(0);
  O("var r = -1; var r2 = -1; var r3 = -1; var q = true; var rt = nil; var depth = 0; ");
  switch (kind) {
  case METHOD: O("rt = o.respondsTo(\"m\"); try { r = o.m(x); } catch (Error e) { r = -1; } try { r2 = o.send(\"m\", x); } catch (Error e) { r2 = -1; } if (rt) { var b = o.m; try { r3 = b(x); } catch (Error e) { r3 = -1; } } "); break;
  case GETTER: O("rt = o.hasGetter(\"m\"); try { r = o.m; } catch (Error e) { r = -1; } if (rt) { try { r2 = o.m(); } catch (Error e) { r2 = -1; } try { r3 = o.getProperty(\"m\"); } catch (Error e) { r3 = -1; } } if (r == nil) { r = -1; } "); break;
  case SETTER: O("rt = o.hasSetter(\"m\"); o.y = -1; o.m = x; r = o.y; o.y = -1; o.setProperty(\"m\", x); r2 = o.y; o.y = -1; o.m = x; r3 = o.y; "); break;
  default: O("rt = true; try { r = o.m(x); } catch (Error e) { r = -1; } try { r2 = o.send(\"m\", x); } catch (Error e) { r2 = -1; } r3 = r2; "); break;
  }
  O("var anc = %s.ancestors(); var sup = C.superClass == B and B.superClass == A and A.superClass == Object; var isA = C.isA(A) and C.isA(B) and !B.isA(C); var done = true;", kind == STATIC ? "C" : "o.class");
  hx_set("x", inum(x));
  sym_note(src);
  // reference
  if (opt[S] || inc[0] >= 6 || inc[1] >= 6) addAnc(S, inc, ninc);
  addAnc(C, inc, ninc); addAnc(B, inc, ninc); addAnc(A, inc, ninc);
  // a module in there twice is called by super once for each time
  int ok = hx_run(src);
  sym_check(ok && IS_BOOL(hx_glob("done")), "the program runs");
  if (!ok) sym_done();
  double r = call(0); int one = nwant, found = 0, k;
  for (i = 0; i < nmro; i++) if (opt[mro[i]]) found = 1;
  int reps = (kind == METHOD || kind == GETTER) ? (found ? 3 : 0) : kind == SETTER ? (found ? 3 : 0) : 2;
  for (k = 1; k < reps; k++) { memcpy(want + nwant, want, one * sizeof *want); nwant += one; }
  snprintf(msg, sizeof msg, "the methods called, in order"); sym_check(cmpLog(), msg);
  Value v = hx_glob("r"), v2 = hx_glob("r2"), v3 = hx_glob("r3");
  sym_check(isnum(v) && AS_NUMBER(v) == r, "result of the call");
  sym_check(!isnum(v2) ? 0 : AS_NUMBER(v2) == (found || kind == STATIC ? r : -1), "result of send, and of calling a getter");
  sym_check(isnum(v3) && AS_NUMBER(v3) == (found || kind == STATIC ? r : -1), "result of the bound method");
  if (kind != STATIC) sym_check(IS_BOOL(hx_glob("rt")) && AS_BOOL(hx_glob("rt")) == found, "responds to it");
  sym_check(IS_BOOL(hx_glob("sup")) && AS_BOOL(hx_glob("sup")), "superclasses");
  sym_check(IS_BOOL(hx_glob("isA")) && AS_BOOL(hx_glob("isA")), "isA");
  { // ancestors of C without the object's own
    Value anc = hx_glob("anc"); int st = mro[0] == S, j; while (st && mro[st] != C) st++;
    static const char *nm[] = {"A", "B", "C", "M", "N"};
    int good = IS_AN_ARRAY(anc) && ARRAY_SIZE(anc) == nmro - st + 1;
    for (j = st; good && j < nmro; j++) { Value e = ARRAY_GET(anc, j - st), c; good = tableGet(&vm.constants, OBJ_VAL(INTERN(nm[mro[j]])), &c) && AS_OBJ(e) == AS_OBJ(c); }
    sym_check(good, "ancestors");
  }
  if (r != -1) sym_cover("found"); else sym_cover("not found");
  sym_done();
}
