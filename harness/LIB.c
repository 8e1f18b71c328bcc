// The library scripts: Set as a finite set, generated accessors, delegation, OpenStruct, Singleton,
// OptParser, pp and assert, against references. The scripts are embedded from lib/ on every run.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
static char src[9000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static void lib(const char *name, const char *text) { if (!hx_run(text)) { sym_note(name); sym_check(0, "the library script runs"); } }
static int isb(Value v, int b) { return IS_BOOL(v) && AS_BOOL(v) == b; }
static int isd(Value v, double d) { return isnum(v) && AS_NUMBER(v) == d; }
#if MODE == 0
// elements: two numbers (any, also equal), 3, two strings that may be equal, an array, nil
#ifndef NEL
#define NEL 6
#endif
static const char *el[6] = {"x", "3", "p", "\"b\" + \"\"", "y", "[1, x]"};
static int64_t x, y; static int pb, in[NEL + 1], cls[6];
static int eq(int i, int j) { return cls[i] == cls[j]; }
static int cont(int i) { int j; for (j = 0; j < NEL; j++) if (in[j] && eq(i, j)) return 1; return 0; }
static int size(void) { int i, j, c = 0; for (i = 0; i < NEL; i++) if (in[i]) { int f = 1; for (j = 0; j < i; j++) if (in[j] && eq(i, j)) f = 0; c += f; } return c; }
static void rem(int i) { int j; for (j = 0; j < NEL; j++) if (eq(i, j)) in[j] = 0; }
void harness(void) {
  int i, k, ni; char msg[80];
  hx_init(); x = sym_int("x", 1, 4); y = sym_int("y", 1, 4); hx_set("x", inum(x)); hx_set("y", inum(y)); pb = sym_choice("p is the same string", 2); hx_set("p", hx_str(pb ? "b" : "c", 1));
  hx_set("r", NIL_VAL); hx_set("s", NIL_VAL); hx_set("t", NIL_VAL); hx_set("a", NIL_VAL); hx_set("c", NIL_VAL); hx_set("all", NIL_VAL); hx_set("mid", NIL_VAL);
  lib("set", LIB_set);
  // which elements are equal
  cls[0] = 0; cls[1] = x == 3 ? 0 : 1; cls[2] = 2; cls[3] = pb ? 2 : 3; if (NEL > 4) cls[4] = y == x ? 0 : y == 3 ? 1 : 4; cls[5] = 5;
  ni = sym_choice("initial elements", 4); if (NEL < 6 && ni == 1) sym_assume(0);
  if (ni == 3) O("s = Set(); "); else { O("a = ["); for (i = 0; i < ni; i++) { int e = NEL < 6 ? i * 2 : sym_choice("initial element", 5); O("%s%s", i ? ", " : "", el[e]); in[e] = 1; } O("]; s = Set(a); "); }
  O("t = Set(); all = []; ");
  int ops[4], es[4], wc[4], ws[4];
  for (k = 0; k < NOPS; k++) {
    ops[k] = sym_choice("operation", 5); es[k] = ops[k] == 3 ? 0 : sym_choice("element", NEL); const char *e = el[es[k]];
    switch (ops[k]) {
    case 0: O("r = s.add(%s); ", e); rem(es[k]); in[es[k]] = 1; break;
    case 1: O("r = s.delete(%s); ", e); rem(es[k]); break;
    case 2: O("r = s.add(%s).delete(3).add(%s); ", e, e); rem(es[k]); in[es[k]] = 1; rem(1); in[es[k]] = 1; break;
    case 3: O("r = s; s.clear(); "); memset(in, 0, sizeof in); break;
    case 4: O("r = s; foreach (q in s) { if (q == %s) { r = s.delete(q); break; } } ", e); rem(es[k]); break;
    }
    O("all.push([r == s, s.contains(%s), s.size]); ", e); wc[k] = cont(es[k]); ws[k] = size();
  }
  O("var it = []; foreach (q in s) { it.push(q); } c = ["); for (i = 0; i < NEL; i++) O("%ss.contains(%s)", i ? ", " : "", el[i]); O("]; t = t.size + Set().size; var done = 1;");
  sym_note(src);
  int ok = hx_run(src); sym_check(ok && isd(hx_glob("done"), 1), "the program runs"); if (!ok) sym_done();
  Value all = hx_glob("all"), c = hx_glob("c"), it = hx_glob("it");
  for (k = 0; k < NOPS; k++) { Value r = ARRAY_GET(all, k); sym_check(isb(ARRAY_GET(r, 0), 1), "the operation gives the set"); snprintf(msg, sizeof msg, "contains after operation %d", k); sym_check(isb(ARRAY_GET(r, 1), wc[k]), msg); snprintf(msg, sizeof msg, "size after operation %d", k); sym_check(isd(ARRAY_GET(r, 2), ws[k]), msg); }
  for (i = 0; i < NEL; i++) sym_check(isb(ARRAY_GET(c, i), cont(i)), "contains exactly the elements added");
  sym_check(ARRAY_SIZE(it) == size(), "iterates over each element once");
  for (i = 0; i < ARRAY_SIZE(it); i++) { int j, f = 0; Value v = ARRAY_GET(it, i); for (j = 0; j < NEL; j++) if (in[j]) { if (j < 2 || j == 4) f |= isd(v, j == 0 ? x : j == 4 ? y : 3); else if (j == 2) f |= hx_is_str(v, pb ? "b" : "c", 1); else if (j == 3) f |= hx_is_str(v, "b", 1); else f |= IS_AN_ARRAY(v); } sym_check(f, "iterates over the elements"); }
  sym_check(isd(hx_glob("t"), 0), "other sets are not changed");
  if (size() == 0) sym_cover("empty"); else sym_cover("not empty");
  sym_done();
}
#elif MODE == 1
void harness(void) {
  hx_init(); int64_t x = sym_int("x", -3, 9), y = sym_int("y", -3, 9); hx_set("x", inum(x)); hx_set("y", inum(y)); hx_set("r", NIL_VAL); hx_set("q", NIL_VAL);
  int what = sym_choice("library", 7), i;
  if (what == 0) { // accessors
    lib("attrs", LIB_attrs);
    int sub = sym_choice("of an instance of the subclass", 2), k = sym_choice("accessor, reader, writer", 3), two = sym_choice("names", 3), which = two ? sym_choice("which name", two + 1) : 0, sep = two && sym_choice("separate declarations", 2); static const char *nm[] = {"va", "b", "name2"}, *fn[] = {"attrAccessor", "attrReader", "attrWriter"};
    O("class P { "); if (sep) for (i = 0; i <= two; i++) O("this.%s(\"%s\"); ", fn[k], nm[i]); else { O("this.%s(", fn[k]); for (i = 0; i <= two; i++) O("%s\"%s\"", i ? ", " : "", nm[i]); O("); "); }
    O("init() { this._va = 70; this._b = 71; this._name2 = 72; } } class R < P { } var o = %s(); var o2 = P(); ", sub ? "R" : "P");
    const char *f = nm[which];
    if (k == 0) O("r = [o.%s, o.%s = x, o.%s, o2.%s, o._%s]; o2.%s = y; o.%s += 1; q = [o.%s, o2.%s, o._%s];", f, f, f, f, f, f, f, f, f, f);
    else if (k == 1) O("r = [o.%s, nil, nil, o2.%s, nil]; o._%s = x; q = [o.%s + 1, y, o.%s + 1]; q[1] = y;", f, f, f, f, f);
    else O("r = [o._%s, o.%s = x, o._%s, o2._%s, o._%s]; o2.%s = y; o._%s += 1; q = [o._%s, o2._%s, o._%s];", f, f, f, f, f, f, f, f, f, f);
    sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    Value r = hx_glob("r"), q = hx_glob("q"); sym_check(isd(ARRAY_GET(r, 3), 70 + which), "the other object's attribute");
    // array literals are evaluated from the right: all reads of r to the right of the write precede it
    if (k != 1) { sym_check(isd(ARRAY_GET(r, 1), (double)x), "value of the assignment"); sym_check(isd(ARRAY_GET(r, 0), (double)x), "read after write"); sym_check(isd(ARRAY_GET(r, 2), 70 + which) , "read before write"); }
    else sym_check(isd(ARRAY_GET(r, 0), 70 + which), "read");
    sym_check(isd(ARRAY_GET(q, 0), (double)x + 1) && isd(ARRAY_GET(q, 1), (double)y) && isd(ARRAY_GET(q, 2), (double)x + 1), "attributes of two objects");
    sym_cover("attributes");
  } else if (what == 1) { // delegate
    lib("delegate", LIB_delegate);
    int to = sym_choice("to", 2), na = sym_choice("arguments", 3), thr = sym_choice("throws", 2);
    O("class T { m(*a) { this.c = a.size; %s return a; } other() { return 5; } } class D { this.delegate(\"m\"%s); this.delegate(\"other\", to: \"this.t\"); init() { this.delegate = T(); this.t = T(); } } var d = D(); ", thr ? "if (x > 3) { throw Error(\"e\"); }" : "", to ? ", to: \"this.t\"" : "");
    O("try { r = d.m(%s); } catch (Error e) { r = e.message; } q = [d.%s.c, d.%s.c, d.other()];", na == 2 ? "x, y" : na ? "x" : "", to ? "t" : "delegate", to ? "delegate" : "t");
    sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    Value r = hx_glob("r"), q = hx_glob("q");
    sym_check(isd(ARRAY_GET(q, 0), na) && IS_NIL(ARRAY_GET(q, 1)) && isd(ARRAY_GET(q, 2), 5), "the call goes to the object named, and only there");
    if (thr && x > 3) sym_check(hx_is_str(r, "e", 1), "errors come back"); else sym_check(IS_AN_ARRAY(r) && ARRAY_SIZE(r) == na && (na < 1 || isd(ARRAY_GET(r, 0), (double)x)) && (na < 2 || isd(ARRAY_GET(r, 1), (double)y)), "all arguments are passed and the result comes back");
    sym_cover("delegate");
  } else if (what == 2) { // OpenStruct
    lib("openstruct", LIB_openstruct);
    int set = sym_choice("property set", 2), call = sym_choice("how it's read", 4); static const char *c[] = {"o.a()", "o.a", "o.a(1)", "o.a() -> (z) { z; }"};
    O("var o = OpenStruct(); var o2 = OpenStruct(); o2.a = y; %s try { r = %s; } catch (NameError e) { r = \"ne\"; } catch (Error e) { r = \"e\"; } q = [o2.a(), o2.a, o.b()];", set ? "o.a = x;" : "", c[call]);
    sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    Value r = hx_glob("r"), q = hx_glob("q");
    sym_check(isd(ARRAY_GET(q, 0), (double)y) && isd(ARRAY_GET(q, 1), (double)y) && IS_NIL(ARRAY_GET(q, 2)), "other properties");
    if (call < 2) sym_check(set ? isd(r, (double)x) : IS_NIL(r), "the property's value"); else if (!set) sym_check(hx_is_str(r, "ne", 2), "a call with arguments is an undefined method");
    sym_cover("openstruct");
  } else if (what == 3) { // Singleton
    lib("singleton", LIB_singleton);
    int na = sym_choice("arguments", 2), two = sym_choice("second class", 2);
    O("class A { this.include(Singleton); init(v=7) { this.v = v; } } class B { %s init(v=8) { this.v = v; } } var i1 = A.instance(%s); var i2 = A.instance(y); %s r = [i1.isSame(i2), i1.v, i2.v, i1.class == A]; var n1 = A(y); q = [n1.isSame(i1), n1.v, A.instance().v%s];", two ? "this.include(Singleton);" : "", na ? "x" : "", two ? "var b = B.instance(); " : "", two ? ", b.class == B, B.instance(1).v" : "");
    sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    Value r = hx_glob("r"), q = hx_glob("q"); double v = na ? (double)x : 7;
    sym_check(isb(ARRAY_GET(r, 0), 1) && isd(ARRAY_GET(r, 1), v) && isd(ARRAY_GET(r, 2), v) && isb(ARRAY_GET(r, 3), 1), "instance() gives the one instance, made with the first call's arguments");
    sym_check(isb(ARRAY_GET(q, 0), 0) && isd(ARRAY_GET(q, 1), (double)y) && isd(ARRAY_GET(q, 2), v), "other instances"); if (two) sym_check(isb(ARRAY_GET(q, 3), 1) && isd(ARRAY_GET(q, 4), 8), "each class has its own");
    sym_cover("singleton");
  } else if (what == 4) { // OptParser
    lib("optparse", LIB_optparse);
    static const char *args[] = {"-a", "-b", "--long", "-x", "a"}; static const int num[] = {1, 2, 3, 0, 0}; int na = sym_choice("arguments", 4), av[4], bad = 0; double want = 0; int thr = sym_choice("a handler throws", 2), thrown = 0;
    O("var p = OptParser(["); for (i = 0; i < na; i++) { av[i] = sym_choice("argument", 5); O("%s\"%s\"", i ? ", " : "", args[av[i]]); } O("]); var log = 0; q = nil; ");
    O("p.on(\"-a\") -> () { log = log * 10 + 1; }; p.on(\"-b\") -> () { log = log * 10 + 2; %s }; p.on(\"--long\") -> () { log = log * 10 + 3; }; try { p.parse(); } catch (OptParser::Error e) { q = e.message; } catch (Error e) { q = e.message; } r = log;", thr ? "if (x > 2) { throw Error(\"h\"); }" : "");
    for (i = 0; i < na && !bad && !thrown; i++) { if (!num[av[i]]) bad = i + 1; else { want = want * 10 + num[av[i]]; if (thr && av[i] == 1 && x > 2) thrown = 1; } }
    sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    Value r = hx_glob("r"), q = hx_glob("q"); char m[60]; if (bad) snprintf(m, sizeof m, "unhandled argument %s", args[av[bad - 1]]);
    sym_check(isd(r, want), "the handlers run, in the order of the arguments"); if (thrown) sym_check(hx_is_str(q, "h", 1), "errors of handlers"); else if (bad) sym_check(hx_is_str(q, m, strlen(m)), "an argument without handler is an error"); else sym_check(IS_NIL(q), "no error");
    sym_cover("optparse");
  } else if (what == 5) { // assert
    lib("assert", LIB_assert);
    static const char *v[] = {"true", "false", "nil", "x", "\"\"", "x > 2", "[]", "0"}; int k = sym_choice("value", 8), m = sym_choice("message", 2);
    O("r = \"no\"; try { assert(%s%s); } catch (AssertionError e) { r = e.message; }", v[k], m ? ", \"msg\"" : ""); sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs"); if (!ok) sym_done();
    int pass = k == 5 ? x > 2 : k != 1 && k != 2; const char *w = pass ? "no" : m ? "msg" : "failed assertion"; sym_check(hx_is_str(hx_glob("r"), w, strlen(w)), "assert throws exactly when the value is false or nil");
    sym_cover("assert");
  } else { // benchmark and timeout need a clock: only what they give back
    sym_assume(0);
  }
  sym_done();
}
#else
// pp: text of nested values
static char w[3000]; static int wn;
#define W(...) wn += snprintf(w + wn, sizeof w - wn, __VA_ARGS__)
static int depth0;
static void ind(int d) { int i; for (i = 0; i < d; i++) W("  "); }
static void gen(int d) {
  int k = sym_choice("value", d == 2 ? 5 : 8), i, c;
  static const char *lit[] = {"1", "nil", "\"s\"", "true", "0.5"}, *txt[] = {"1", "nil", "\"s\"", "true", "0.5"};
  if (k < 5) { O("%s", lit[k]); ind(d); W("%s", txt[k]); return; }
  if (k == 5 || k == 6) { c = k == 5 ? 0 : d ? 1 : 1 + sym_choice("elements", 2); O("["); ind(d); W("[\n"); for (i = 0; i < c; i++) { if (i) O(", "); gen(d + 1); W(",\n"); } O("]"); ind(d); W("]"); return; }
  O("%%{\"k\": "); ind(d); W("{\n"); ind(d + 1); W("\"k\":\n"); gen(d + 1); O("}"); W(",\n"); ind(d); W("}");
}
void harness(void) {
  hx_init(); lib("pp", LIB_pp); (void)depth0;
  int self = sym_choice("contains itself", 3);
  if (self == 0) { O("var v = "); gen(0); O("; pp(v);"); W("\n"); }
  else if (self == 1) { O("var v = ["); W("[\n"); gen(1); W(",\n"); O("]; v.push(v); pp(v);"); // the outermost one isn't in the list of those seen
    { char in[1000]; int l = wn - 2; memcpy(in, w + 2, l); in[l] = 0; char *p = in, *e; W("  [\n"); while ((e = strchr(p, '\n'))) { W("  %.*s\n", (int)(e - p), p); p = e + 1; } W("    [...],\n  ],\n]\n"); } }
  else { O("var sh = [2]; var v = [sh, sh]; pp(v);"); W("[\n  [\n    2,\n  ],\n  [\n    2,\n  ],\n]\n"); }
  sym_out_reset();
  sym_note(src); int ok = hx_run(src); sym_check(ok, "the program runs");
  const char *out = sym_out(); sym_check(!strcmp(out, w), "the text"); sym_cover("printed");
  sym_done();
}
#endif
