// Every builtin method and every operation of the language, given values of every kind: each
// returns a value or throws an Error, and the interpreter goes on normally.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NARGS
#define NARGS {0,1}
#endif
static char src[6000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static int64_t x;
// kinds of values; the first ones are the basic ones
static const char *kinds[] = { "nil", "num", "\"ab\"", "[1, \"a\", nil]", "Object()", "fun1", "Object", "%{\"a\": 1, 2: [3]}", "true", "0.5",
  "\"\"", "[]", "Error(\"e\")", "Modu", "Regex(\"a(b)\")", "bnd", "Mutex()", "Thread.current()", "[1, 2].iter()", "\"ab\".push", "nan", "huge", "frozenS", "frozenA", "Sub()", "clo", "blk", "Regex(\"a\").match(\"ba\", true)", "typeof", "-1", "Strange()", "Inst.sm", "4294967296", "-0.75", "Array", "Strange", "Inst().getp", "[1].each" };
#define NK ((int)(sizeof kinds / sizeof *kinds))
#ifndef K1
#define K1 NK
#endif
#ifndef K2
#define K2 9
#endif
#ifndef K3
#define K3 5
#endif
static const char *skip[] = { "exit", "_exit", "fork", "exec", "sleep", "debugger", "system", "waitpid", "waitall", "detach", "loadScript", "requireScript", "autoload", "atExit", "clock", "newThread", "joinThread", "schedule", "stats", 0 };
static int skipped(const char *s) { int i; if (s[0] == 'h' && s[1] == 'x') return 1; for (i = 0; skip[i]; i++) if (!strcmp(skip[i], s)) return 1; return 0; }
// how to get an instance of each class
static const struct { const char *cls, *recv; } recvs[] = {
  {"String", "\"abc\""}, {"Array", "[3, 1, 2]"}, {"Map", "%{\"a\": 1, 2: 3}"}, {"Regex", "Regex(\"a(b)\")"}, {"Class", "Inst"}, {"Module", "Modu"}, {"Iterator", "[1, 2].iter()"}, {"Error", "Error(\"m\")"}, {"Binding", "bnd"}, {"Block", "blk"},
  {"Mutex", "Mutex()"}, {"Thread", "Thread.current()"}, {"Object", "Inst()"}, {"MatchData", "Regex(\"a\").match(\"ba\", true)"}, {"Timer", "Timer()"}, {"GC", 0}, {"ArgumentError", "ArgumentError(\"m\")"} };
#define NR ((int)(sizeof recvs / sizeof *recvs))
// the name of the i'th method or getter in a table, in the order of the names
static const char *nth(Table *t, int i) {
  const char *last = "", *best = 0; int j;
  for (j = 0; j <= i; j++) { Entry e; int k = 0; best = 0;
    TABLE_FOREACH(t, e, k, {
      if (IS_STRING(e.key)) { const char *s = AS_STRING(e.key)->chars; if (strcmp(s, last) > 0 && (!best || strcmp(s, best) < 0)) best = s; }
    })
    if (!best) return 0;
    last = best; }
  return best;
}
static const char *pick(const char *what, Table *t) {
  int cnt = t->count, i; const char *m;
  if (cnt <= 0) sym_assume(0);
  i = sym_choice(what, cnt); m = nth(t, i);
  if (!m || skipped(m)) sym_assume(0);
  return m;
}
static void prelude(void) {
  O("class Inst { init() { this.p = 1; } class sm(a) { return a; } getp() { return this.p; } g { return 2; } } class Sub < String { init() { } } module Modu { fun mf() { return 1; } } "
    "class Strange { toString() { return 3; } opEquals(o) { return nil; } hashKey() { return \"h\"; } opCmp(o) { return 1; } opAdd(o) { throw Error(\"x\"); } opIndexGet(i) { return i; } iter() { return 4; } inspect() { return nil; } init() { this.frozen = 1; } } "
    "fun fun1(a) { return a; } fun mkb() { var l = 1; return Binding(); } var clo = fun(a, b=2, *c) { return c; }; var bnd = mkb(); var frozenS = \"f\"; frozenS.freeze(); var frozenA = [1]; frozenA.freeze(); var blk = nil; "
    "fun takeb(&b) { blk = b; } takeb() -> (a) { a; }; ");
}
static void args(int na) {
  static const char *nm[] = {"first argument", "second argument", "third argument"}; int i;
  for (i = 0; i < na; i++) { int k = na == 1 ? K1 : na == 2 ? K2 : K3; O("var a%d = %s; ", i, kinds[sym_choice(nm[i], k > NK ? NK : k)]); }
}
static void arglist(int na) { int i; for (i = 0; i < na; i++) O("%sa%d", i ? ", " : "", i); }
static const int nargs[] = NARGS;
// operations of the language over values a0, a1, a2
static const struct { int na; const char *s; } ops[] = {
  {2, "r = a0 + a1;"}, {2, "r = a0 - a1;"}, {2, "r = a0 * a1;"}, {2, "r = a0 / a1;"}, {2, "r = a0 % a1;"}, {2, "r = a0 & a1;"}, {2, "r = a0 | a1;"}, {2, "r = a0 ^ a1;"}, {2, "r = a0 << a1;"}, {2, "r = a0 >> a1;"},
  {2, "r = a0 < a1;"}, {2, "r = a0 <= a1;"}, {2, "r = a0 > a1;"}, {2, "r = a0 >= a1;"}, {2, "r = a0 == a1;"}, {2, "r = a0 != a1;"}, {1, "r = !a0;"}, {1, "r = -a0;"},
  {2, "r = a0[a1];"}, {2, "a0[a1] = 1; r = a0;"}, {1, "r = a0();"}, {2, "r = a0(a1);"}, {1, "r = a0(*a0);"}, {2, "r = fun1(*a0, a1);"}, {1, "r = a0.p;"}, {1, "r = a0.size;"}, {1, "a0.p = 1; r = a0.p;"}, {1, "r = a0.m(1);"},
  {1, "foreach (q in a0) { r = q; }"}, {1, "foreach (q, w in a0) { r = w; }"}, {1, "foreach (q, w in [a0]) { r = w; }"}, {1, "throw a0;"}, {1, "try { throw Error(\"t\"); } catch (Error e) { r = a0; throw e; }"},
  {1, "class X1 < Object { m() { return super.m(a0); } } r = X1().m();"}, {1, "Inst.include(a0); r = Inst();"}, {1, "var t = Inst(); t.extend(a0); r = t;"}, {1, "in (a0) { mm() { return 1; } } r = a0.mm();"}, {1, "r = \"x${a0}y\";"},
  {1, "r = fun1(&a0);"}, {1, "r = [1, 2].map(&a0);"}, {2, "r = %{a0: a1}; r = r[a0];"}, {1, "r = [a0, [a0]].toString();"}, {1, "r = %{a0: a0}.inspect();"}, {2, "r = [a0, a1].sort();"}, {2, "r = [a0, a1].index(a0);"}, {2, "r = [a0, a1] == [a1, a0];"}, {2, "r = %{a0: 1} == %{a1: 1};"},
  {1, "print(a0);"}, {1, "print a0;"}, {1, "r = (a0 and 1) or a0;"}, {1, "while (a0) { r = 1; break; }"}, {1, "r = a0; r += 1;"}, {2, "r = [1, a0].reduce(a1) -> (e, acc) { acc; };"}, {2, "r = [a0, a1].sum();"}, {2, "r = [a0, a1].join(\",\");"}, {2, "r = [a0, a1].join(a0);"},
  {1, "fun ff(k: 1) { return k; } r = ff(k: a0);"}, {1, "fun ff(a=a0) { return a; } r = ff();"}, {1, "fun ff(&b) { return b; } r = ff(&a0);"}, {1, "class X3 { init(a) { this.a = a; } toString() { return a0; } inspect() { return a0; } } r = X3(1); r = \"${r}\"; r = X3(2).inspect(); r = [X3(1)].toString(); r = %{X3(1): X3(2)}.toString(); throw X3(3);"},
  {1, "class X4 { opEquals(o) { return a0; } hashKey() { return a0; } } r = X4() == X4(); r = %{X4(): 1, X4(): 2}; r = r[X4()]; r = [X4()].delete(X4());"},
  {1, "class X5 { opCmp(o) { return a0; } } r = X5() < X5(); r = [X5(), X5()].sort();"}, {1, "r = [1, 2, 3].sortBy() -> (q, w) { a0; };"}, {1, "class X6 { iter() { return a0; } } foreach (q in X6()) { r = q; }"}, {1, "class X7 { iterNext() { return a0; } iter() { return this; } } foreach (q in X7()) { r = q; break; }"},
  {1, "class X8 { methodMissing(m, *a) { return a0; } } r = X8().foo(1);"}, {1, "r = [1, 2].select() -> (q) { a0; }; r = [1, 2].find() -> (q) { a0; }; r = [1, 2].reduce(1) -> (e, acc) { a0; }; r = [1, 2].map() -> (q) { a0; };"},
  {1, "r = a0; r.message = a0; throw r;"}, {1, "r = Error(\"e\"); r.message = a0; throw r;"}, {1, "r = Error(a0); throw r;"}, {1, "r = Error(\"e\"); r.backtrace = a0; throw r;"}, {1, "class X9 < Error { init() {} } throw X9();"}, {2, "try { throw a0; } catch (a1 e) { r = e; }"}, {1, "Const9 = a0; r = Const9;"}, {1, "r = a0::B;"}, {1, "r = a0.class; r = r.name; r = a0.singletonClass; r = a0.objectId;"},
  {1, "var th = newThread(a0); r = joinThread(th);"}, {1, "r = joinThread(a0);"}, {1, "r = eval(a0);"}, {1, "GC.setFinalizer(Inst(), a0); GC.collect();"}, {1, "GC.setFinalizer(a0, fun1); GC.collect();"}, {1, "r = a0.dup(); r = r == a0;"}, {1, "a0.freeze(); a0.p = 1;"}, {1, "a0.push(1); a0[0] = 2; r = a0.dup(); r.push(1);"}, {1, "a0.unfreeze(); r = a0.isFrozen();"},
};
#define NOPS ((int)(sizeof ops / sizeof *ops))
#if MODE == 4
// the contents of an object: its text, elements or entries, and its fields
typedef struct { int len, n; char txt[64]; Value v[64]; } Snap;
static void tsnap(Snap *s, Table *t) { Entry e; int k = 0; TABLE_FOREACH(t, e, k, { if (s->n < 62) { s->v[s->n++] = e.key; s->v[s->n++] = e.value; } }) s->len += t->count * 1000; }
static void osnap(Snap *s, Value v) {
  int i; Obj *o = AS_OBJ(v); memset(s, 0, sizeof *s);
  if (o->type == OBJ_T_STRING) { ObjString *t = (ObjString*)o; s->len = t->length; for (i = 0; i < s->len && i < 63; i++) s->txt[i] = t->chars[i]; }
  else if (o->type == OBJ_T_ARRAY) { ObjArray *t = (ObjArray*)o; s->len = t->valAry.count; for (i = 0; i < s->len && i < 40; i++) s->v[s->n++] = t->valAry.values[i]; }
  else if (o->type == OBJ_T_MAP) tsnap(s, ((ObjMap*)o)->table);
  tsnap(s, ((ObjInstance*)o)->fields);
}
// nothing but the elements themselves may differ when the element's a new object in the other run
static int same(Snap *a, Snap *b) { int i; if (a->len != b->len || a->n != b->n || memcmp(a->txt, b->txt, 64)) return 0; for (i = 0; i < a->n; i++) if (memcmp(&a->v[i], &b->v[i], sizeof(Value))) return 0; return 1; }
static const struct { const char *cls, *recv; } frecvs[] = {
  {"String", "String(\"abc\")"}, {"String", "\"lit\" + \"x${num}\""}, {"String", "\"lit\""}, {"Array", "[3, num, 2]"}, {"Array", "[num, 1].dup()"}, {"Array", "[]"}, {"Map", "%{\"a\": 1, 2: num}"}, {"Map", "Map()"}, {"Object", "Inst()"}, {"Error", "Error(\"m\")"}, {"String", "Sub()"}, {"Array", "SubA(3, 1)"}, {"Regex", "Regex(\"a(b)\")"}, {"MatchData", "Regex(\"a\").match(\"ba\", true)"}, {"Class", "Fields"}, {"Module", "Modu"}, {"Object", "Inst().mk(num)"} };
static const struct { int na; const char *s; } fops[] = {
  {1, "o[a0] = 7;"}, {2, "o[a0] = a1;"}, {1, "o << a0;"}, {1, "o.p = a0;"}, {1, "o.newp = a0;"}, {1, "o.message = a0;"}, {1, "o.setp(a0);"}, {1, "o.sp = a0;"}, {1, "var o2 = o; o2 += a0;"}, {0, "foreach (e in o) { e = 1; }"}, {0, "o.iter();"}, {1, "o.push(a0).push(1);"}, {1, "try { o.push(a0); } ensure { o.push(1); }"}, {1, "[o].each() -> (e) { e.push(a0); e << a0; };"},
  {1, "in (o) { chg(v) { this.p = v; } } o.chg(a0);"}, {1, "o.instanceEval(\"this.p = 3;\");"}, {1, "o.send(\"push\", a0);"}, {1, "var m = o.push; m(a0);"}, {1, "var m = o.setp; m(a0);"}, {1, "o.init(a0);"}, {0, "o.sort(); o.reverse(); o.dup().clear();"}, {1, "o.dup().push(a0);"}, {1, "var d = o.dup(); d[0] = a0;"}, {1, "var d = \"${o}\"; d.push(\"z\"); d = o.toString(); d[0] = \"q\";"}, {1, "var k = %{o: 1}; k.keys()[0].push(a0);"} };
#define NFOPS ((int)(sizeof fops / sizeof *fops))
#define NFR ((int)(sizeof frecvs / sizeof *frecvs))
void harness(void) {
  int i, c, na, blk = 0, ok; char recv[200]; Value v, o, u; Snap f0, f1, u0, u1; const char *m = "";
  hx_init(); x = sym_int("num", -2, 3); hx_set("num", inum(x)); hx_set("nan", num(NAN)); hx_set("huge", num(1e300)); prelude();
  O("class SubA < Array { } class Fields { } class Inst2 { } in (Inst) { mk(v) { this.p = v; this.q = [v]; return this; } setp(v) { this.p = v; return v; } sp=(v) { this.q = v; } } var failed = nil; var o = nil; var u = nil; var vals = nil; ");
  sym_check(hx_run(src), "prelude"); n = 0; *src = 0;
  c = sym_choice("object", NFR); snprintf(recv, sizeof recv, "%s", frecvs[c].recv);
  O("o = %s; u = %s; o.freeze();", recv, recv); sym_check(hx_run(src), "setup"); n = 0; *src = 0;
  o = hx_glob("o"); u = hx_glob("u"); sym_check(isFrozen(AS_OBJ(o)), "freeze() freezes");
  osnap(&f0, o); osnap(&u0, u);
  int what = sym_choice("method or operation", 2);
  if (what) { i = sym_choice("operation", NFOPS); na = fops[i].na; args(na); }
  else {
    na = nargs[sym_choice("arguments", sizeof nargs / sizeof *nargs)];
    if (!tableGet(&vm.constants, OBJ_VAL(INTERN(frecvs[c].cls)), &v)) sym_assume(0);
    m = pick("method", CLASSINFO(AS_OBJ(v))->methods); if (!strcmp(m, "unfreeze") || !strcmp(m, "freeze")) sym_assume(0);
    args(na); blk = sym_choice("block", 2);
  }
  O("fun doit(o) { var ok = false; try { ");
  if (what) O("%s", fops[i].s); else { O("o.%s(", m); arglist(na); O(")%s;", blk ? " -> (e, f=1) { e; }" : ""); }
  O(" ok = true; } catch (Error e) { } return ok; } failed = !doit(o);");
  sym_note(recv); sym_note(src);
  ok = hx_run(src); sym_check(ok, "the program runs to its end");
  osnap(&f1, o);
  sym_check(same(&f0, &f1), "a frozen object keeps its contents");
  sym_check(isFrozen(AS_OBJ(o)), "it stays frozen");
  n = 0; *src = 0; Value fv = hx_glob("failed"); int failed = AS_BOOL(fv);
  if (frecvs[c].recv != frecvs[14].recv && frecvs[c].recv != frecvs[15].recv && !isFrozen(AS_OBJ(u))) {
    sym_check(hx_run("failed = !doit(u);"), "the program runs to its end"); osnap(&u1, u); int chg = !same(&u0, &u1);
    if (chg) { sym_cover("would change"); sym_check(failed, "changing a frozen object throws an Error"); } else sym_cover("would not change");
  }
  sym_done();
}
#else
void harness(void) {
  int na = 0, getter = 0, i; const char *m = ""; char recv[200] = ""; int blk = 0;
  hx_init();
  x = sym_int("num", -2, 3); hx_set("num", inum(x));
  hx_set("nan", num(NAN)); hx_set("huge", num(1e300)); prelude(); sym_check(hx_run(src), "prelude"); n = 0; *src = 0;
#if MODE == 3
  i = sym_choice("operation", NOPS); na = ops[i].na; args(na);
  O("var r = nil; try { %s } catch (Error e) { r = e; } ", ops[i].s);
#else
  na = nargs[sym_choice("arguments", sizeof nargs / sizeof *nargs)];
#if MODE == 1
  int c = sym_choice("class of the static method", NR + 1);
  if (c == NR) m = pick("function", &vm.globals);
  else { Value v; if (!tableGet(&vm.constants, OBJ_VAL(INTERN(recvs[c].cls)), &v)) sym_assume(0);
    Obj *o = AS_OBJ(v); ObjClass *sc = ((ObjClass*)o)->singletonKlass; if (!sc) sym_assume(0);
    m = pick("static method", CLASSINFO(sc)->methods); snprintf(recv, sizeof recv, "%s", recvs[c].cls); }
#elif MODE == 2
  static const char *cls = "Object"; Value v; tableGet(&vm.constants, OBJ_VAL(INTERN(cls)), &v); m = pick("method", CLASSINFO(AS_OBJ(v))->methods);
  snprintf(recv, sizeof recv, "(%s)", kinds[sym_choice("receiver", NK)]);
#else
  int c = sym_choice("class", NR); Value v; if (!recvs[c].recv || !tableGet(&vm.constants, OBJ_VAL(INTERN(recvs[c].cls)), &v)) sym_assume(0);
  getter = sym_choice("method or getter", 2);
  if (getter && na) sym_assume(0);
  m = pick("method", getter ? CLASSINFO(AS_OBJ(v))->getters : CLASSINFO(AS_OBJ(v))->methods);
  i = sym_choice("receiver initialised", 2); if (i && (!strcmp(recvs[c].cls, "Object") || !strcmp(recvs[c].cls, "Class") || !strcmp(recvs[c].cls, "Module"))) sym_assume(0);
  if (i) { O("class NoInit < %s { init() { } } ", recvs[c].cls); snprintf(recv, sizeof recv, "NoInit()"); } else snprintf(recv, sizeof recv, "%s", recvs[c].recv);
#endif
  args(na); if (!getter) blk = sym_choice("block", 2);
  O("var r = nil; var o = nil; try { "); if (*recv) O("o = %s; ", recv); O("r = %s%s", *recv ? "o." : "", m);
  if (!getter) { O("("); arglist(na); O(")"); if (blk) O(" -> (e, f=1) { e; }"); }
  O("; } catch (Error e) { r = e; } try { r = \"${r} ${o}\"; } catch (Error e) { r = e; } ");
#endif
  sym_note(src);
  int ok = hx_run(src);
  sym_check(ok, "the program runs to its end");
  sym_check(vm.curThread->ec->stackTop == vm.curThread->ec->stack && vm.curThread->ec->frameCount == 0 && vm.curThread->inCCall == 0, "nothing is left on the stacks");
  ok = hx_run("var res = nil; fun f5(a) { try { throw Error(\"q\"); } catch (Error e) { return [a, a + 1].map() -> (q) { q * 2; }; } } res = f5(3)[1] + \"ab\".size + %{1: 2}[1];");
  Value r = hx_glob("res");
  sym_check(ok && isnum(r) && AS_NUMBER(r) == 12, "the interpreter works normally afterwards");
  sym_check(hx_run("GC.collect();"), "a collection runs afterwards"); sym_cover("survived");
  sym_done();
}
#endif
