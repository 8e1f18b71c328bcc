// Constants: one name defined in any of seven nested, inherited and included places, read or
// defined from many kinds of code, against the lookup rule.
#include "hx.h"
#ifndef SITES
#define SITES {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25}
#endif
#ifndef ACTS
#define ACTS {0,1,2,3}
#endif
#ifndef CTXS
#define CTXS {0,1,2}
#endif
static char src[9000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
// places: the top level, superclass S, module M, module N, class N::A, class N::A::In, subclass B
enum { G, S, M, N, A, IN, B, NP };
static const char *pname[] = {"the top level", "S", "M", "N", "A", "In", "B"};
enum { READ, ASSIGN, CLASS, CATCH };
static int def[NP], asked[NP], inc, late, act;
// whether the place defines the name (decided when first needed)
static int has(int p) { if (!asked[p]) { asked[p] = 1; def[p] = act == READ || act == CATCH ? sym_choice(pname[p], 2) : 0; } return def[p]; }
static const struct { const char *call; int cref, recv, insite; } sites[] = {
 /* 0*/ {"o.m();", A, 1, 0}, {"N::A.s();", A, 0, 0}, {"o.g;", A, 1, 0}, {"o.st = 1;", A, 1, 0}, {"N::A(1);", A, 0, 0}, {"o.blk();", A, 1, 0}, {"o.clo()();", A, 1, 0}, {"o.ev();", A, 1, 0}, {"o.yl();", A, 1, 0}, {"o.fn();", G, 0, 0},
 /*10*/ {"N::A::In().m();", IN, 0, 1}, {"N::A::In.s();", IN, 0, 1}, {"module N { class A { ACT } }", A, 0, 0}, {"module N { class A { class In { ACT } } }", IN, 0, 1}, {"o.mm();", M, 1, 0}, {"o.sg();", G, 1, 0}, {"o.instanceEval(\"ACT\");", -1, 1, 0}, {"o.th();", A, 1, 0}, {"N.nm();", N, 0, 0}, {"o.bi();", A, 1, 0},
 /*20*/ {"o.dm();", G, 1, 0}, {"var bm = o.m; bm();", A, 1, 0}, {"N::A::In().blk();", IN, 0, 1}, {"o.lp();", A, 1, 0}, {"o.m();", A, 2, 0}, {"bfn() -> (e) { ACT };", G, 0, 0} };
static const char *acts[] = { "r = K;", "W = num; r = W;", "class W { class id() { return num; } } r = W.id();", "for (var i = 0; i < 7; i += 1) { if (insts[i]) { try { throw insts[i]; } catch (KE e) { r = i + 100 * num; } catch (Error e) { } } } if (r == -1) { throw NameError(\"n\"); }" };
// run as methods: if the name isn't defined there, the receiver's class is asked
#define FB (1<<0|1<<2|1<<3|1<<7|1<<14|1<<15|1<<20|1<<21|1<<23|1<<24)
static int mro[20], nmro;
static void put(int p) { mro[nmro++] = p; }
static void chain(int c) { // where a name used in code written in c is looked for
  if (c == IN) { put(IN); c = A; }
  if (c == B) { put(B); put(A); if (inc) put(M); put(S); }
  else if (c == A) { put(A); if (inc) put(M); put(S); put(N); }
  else if (c == M) put(M); else if (c == N) put(N);
  put(G);
}
static void place(int p) { if (p == G && act == READ) { O("if (num > 4) { K = num; } "); asked[G] = 1; return; } if (has(p)) O("K = num + %d; class KE < Error { } insts[%d] = KE(\"e\"); ", 10 * p, p); }
static void subst(const char *s, const char *act, int quoted) {
  const char *q;
  for (; (q = strstr(s, "ACT")); s = q + 3) { O("%.*s%s", (int)(q - s), s, act); } O("%s", s); (void)quoted;
}
static int inTable(Table *t, const char *nm) { Value v; return tableGet(t, OBJ_VAL(INTERN(nm)), &v); }
static Table *tbl(int p) {
  static const char *nm[] = {0, "S", "M", "N", 0, 0, "B"}; Value v, w;
  if (p == G) return &vm.constants;
  if (nm[p]) { if (!tableGet(&vm.constants, OBJ_VAL(INTERN(nm[p])), &v)) return 0; return CLASSINFO(AS_CLASS(v))->constants; }
  if (!tableGet(tbl(N), OBJ_VAL(INTERN("A")), &v)) return 0;
  if (p == A) return CLASSINFO(AS_CLASS(v))->constants;
  if (!tableGet(CLASSINFO(AS_CLASS(v))->constants, OBJ_VAL(INTERN("In")), &w)) return 0;
  return CLASSINFO(AS_CLASS(w))->constants;
}
void harness(void) {
  static const int ss[] = SITES, as[] = ACTS, cs[] = CTXS; char body[800]; int i, p, site, ctx, recvB = 0; const char *a;
  hx_init(); int64_t x = sym_int("num", 1, 9); hx_set("num", inum(x)); hx_set("r", inum(-1)); hx_set("o", NIL_VAL); hx_set("insts", NIL_VAL);
  site = ss[sym_choice("kind of code", sizeof ss / sizeof *ss)]; act = as[sym_choice("what it does", sizeof as / sizeof *as)]; ctx = cs[sym_choice("where it's called from", sizeof cs / sizeof *cs)];
  a = acts[act]; if (act == CATCH && (site == 16 || site == 7 || site == 19)) sym_assume(0); if (ctx == 2 && act != READ) sym_assume(0);
  if (sites[site].recv) recvB = sites[site].recv == 2 || sym_choice("an instance of the subclass", 2);
  inc = site == 14 ? 1 : sym_choice("the module is included", 2);
  O("insts = [nil, nil, nil, nil, nil, nil, nil]; ");
  place(G); O("class S { "); place(S); O("} module M { "); if (inc || site == 14) place(M); O("mm() { %s return r; } } ", a);
  O("fun yld() { return yield(1); } fun top() { %s return r; } ", a); O("var other = fun() { %s return r; }; ", a);
  O("module N { class nm() { %s return r; } class A < S { init(w=nil) { if (w) { %s } } m() { %s return r; } class s() { %s return r; } g { %s return r; } st=(v) { %s } ", a, a, a, a, a, a);
  O("blk() { [1].each() -> (e) { %s }; return r; } clo() { return fun() { %s return r; }; } ev() { eval(\"%s\"); return r; } yl() { yld() -> (e) { %s }; return r; } fn() { return top(); } ", a, a, act == CATCH ? "" : a, a);
  O("th() { var t = newThread(fun() { %s }); joinThread(t); return r; } bi() { var b = Binding(); b.eval(\"%s\"); return r; } lp() { foreach (q in [1]) { try { %s } catch (Nope e) { r = -2; } ensure { var k = 1; } } return r; } ", a, act == CATCH ? "" : a, a);
  O("class In { m() { %s return r; } class s() { %s return r; } blk() { [[1]].each() -> (e) { e.map() -> (f) { %s }; }; return r; } } } } ", a, a, a);
  O("ZA = N::A; class B < ZA { "); if (recvB || act == READ) { if (recvB) place(B); } if (site == 24) O("m() { return super.m(); } "); O("} class Q { K = 99; class KE < Error { } run(f) { return f(); } class blkrun(f) { [1].each() -> (e) { f(); }; } } ");
  if (inc) O("N::A.include(M); ");
  late = act == READ ? 1 : sym_choice("defined after the code", 2);
  // reopened to define the rest
  if (late) { O("module N { "); place(N); O("class A { "); place(A); if (sites[site].insite) { O("class In { "); place(IN); O("} "); } O("} } "); }
  else { // before: a fresh run of the definitions would be needed, so define by reopening each on its own
    O("module N { class A { "); if (sites[site].insite) { O("class In { "); place(IN); O("} "); } place(A); O("} } module N { "); place(N); O("} "); }
  O("o = %s(); ", recvB ? "B" : "N::A"); if (site == 15) { O("in (o) { sg() { %s return r; } } ", a); } if (site == 20) O("N::A.defineMethod(\"dm\", top); ");
  O("r = -1; fun bfn() { return yield(1); } ");
  if (!hx_run(src)) { sym_note(src); sym_check(0, "the definitions run"); }
  n = 0; *src = 0; { char b2[400]; const char *q = strstr(sites[site].call, "ACT"); if (q) snprintf(body, sizeof body, "%.*s%s%s", (int)(q - sites[site].call), sites[site].call, a, q + 3); else snprintf(body, sizeof body, "%s", sites[site].call); (void)b2; }
  if (ctx == 0 || !strncmp(body, "module", 6)) O("%s", body);
  else { O("fun site() { %s return r; } ", body); if (ctx == 1) O("Q().run(site);"); else O("Q.blkrun(site);"); }
  sym_note(src); subst("", "", 0);
  int ok = hx_run(src);
  Value r = hx_glob("r"); int cref = sites[site].cref, want = -1;
  if (cref == -1) cref = recvB ? B : A;
  if (act == ASSIGN || act == CLASS) {
    sym_check(ok, "the definition runs"); sym_check(isnum(r) && AS_NUMBER(r) == (double)x, "the constant's value where it was defined");
    for (p = 0; p < NP; p++) { Table *t = tbl(p); sym_check(t != 0, "the place exists"); sym_check(inTable(t, "W") == (p == cref), p == cref ? "defined in the class or module it's written in" : "not defined anywhere else"); }
    sym_cover("defined"); sym_done();
  }
  if (act == READ) def[G] = x > 4;
  chain(cref);
  if (cref != -1 && ((FB >> site) & 1)) chain(recvB ? B : A); // methods of other classes: the receiver's
  for (i = 0; i < nmro && want < 0; i++) if (asked[mro[i]] && def[mro[i]]) want = mro[i];
  if (want < 0) { sym_check(site == 17 ? isnum(r) && AS_NUMBER(r) == -1 : !ok, "an undefined constant is an error"); sym_cover("not found"); }
  else { sym_check(ok, "the constant is found"); sym_check(isnum(r) && AS_NUMBER(r) == (act == CATCH ? 100 * (double)x + want : (double)x + 10 * want), "the constant found is the one the rule names"); sym_cover("found"); }
  sym_done();
}
