// Arguments and parameters: every signature (required, default, rest, keyword and block
// parameters) called with every number of arguments, splats, keywords and blocks.
#include "hx.h"
#ifndef KINDS
#define KINDS {0}
#endif
#ifndef SIGS
#define SIGS 0
#endif
#ifndef MAXPOS
#define MAXPOS 4
#endif
static int64_t v[6], kv[2];
static int tlog[20], nt;
static Value nT(int c, Value *a) { if (nt < 20) tlog[nt++] = (int)AS_NUMBER(a[0]); return NUMBER_VAL(AS_NUMBER(a[0]) + 50); }
static char src[4000]; static int n;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
int harness(void) {
  static const int kinds[] = KINDS;
  int i, j;
  hx_init(); addGlobalFunction("t", nT);
  int kind = kinds[sym_choice("callee", sizeof kinds / sizeof *kinds)];
  int lenient = kind >= 7;
  int nreq, ndef, rest, nkw, kreq, hasb;
#if SIGS == 0
  nreq = sym_choice("required", 3); ndef = sym_choice("defaults", 3); rest = sym_choice("rest", 2);
  nkw = lenient ? 0 : sym_choice("keywords", 3); kreq = nkw ? sym_choice("last keyword required", 2) : 0; hasb = lenient ? 0 : sym_choice("block parameter", 2);
#else
  static const int S[][6] = { {0,0,0,0,0,0}, {1,0,0,0,0,0}, {1,1,0,0,0,1}, {0,0,1,0,0,0}, {1,1,1,0,0,0}, {1,0,0,1,0,0}, {0,0,1,1,0,1}, {1,1,0,2,1,0}, {2,0,0,0,0,1}, {0,2,1,1,1,0} };
  int s = sym_choice("signature", sizeof S / sizeof *S);
  nreq = S[s][0]; ndef = S[s][1]; rest = S[s][2]; nkw = S[s][3]; kreq = S[s][4]; hasb = S[s][5];
  if (lenient && (nkw || hasb)) sym_assume(0);
#endif
  int npos = sym_choice("arguments", MAXPOS + 1), splat = 0;
#ifdef SPLAT
  splat = sym_choice("splat", 4);   // all of them, the last ones, an empty one first, one made by a call among others
  if (splat == 2 && npos == 0) sym_assume(0);
#endif
  int kw = nkw ? sym_choice("keywords given", 6) : 0; // none, k0, k1, k0 k1, k1 k0, unknown
  int blk = lenient ? 0 : sym_choice("block given", 3);
  for (i = 0; i < 6; i++) { char b[8]; snprintf(b, sizeof b, "v%d", i); v[i] = sym_int(b, -1000, 1000); hx_set(b, NUMBER_VAL((double)v[i])); }
  for (i = 0; i < 2; i++) { char b[8]; snprintf(b, sizeof b, "w%d", i); kv[i] = sym_int(b, 2000, 4000); hx_set(b, NUMBER_VAL((double)kv[i])); }
  static char P[300], B[800]; int p = 0, q = 0;
#define PA(...) p += snprintf(P + p, sizeof P - p, "%s", p ? ", " : ""), p += snprintf(P + p, sizeof P - p, __VA_ARGS__)
  P[0] = 0;
  for (i = 0; i < nreq; i++) PA("a%d", i);
  for (i = 0; i < ndef; i++) if (i == 0) PA("d0 = t(1)"); else PA("d1 = t(d0 * 0 + 2)");
  if (rest) PA("*r");
  for (i = 0; i < nkw; i++) if (kreq && i == nkw - 1) PA("k%d:", i); else PA("k%d: t(%d)", i, 3 + i);
  if (hasb) PA("&b");
  q += snprintf(B + q, sizeof B - q, "var z1 = 71; var z2 = z1 + 1; var bv = nil; %s%s this_res = [",
    kind < 7 ? "if (blockGiven()) { bv = yield(v5); } " : "", hasb ? "if (b != nil) { bv = [bv, b.yield(v5)]; } " : "");
  for (i = 0; i < nreq; i++) q += snprintf(B + q, sizeof B - q, "a%d, ", i);
  for (i = 0; i < ndef; i++) q += snprintf(B + q, sizeof B - q, "d%d, ", i);
  if (rest) q += snprintf(B + q, sizeof B - q, "r, ");
  for (i = 0; i < nkw; i++) q += snprintf(B + q, sizeof B - q, "k%d, ", i);
  q += snprintf(B + q, sizeof B - q, "z1, z2, bv, %s]; ", npos > 0 && nreq + ndef > 0 ? (nreq ? "a0 < v5" : "d0 < v5") : "nil");
  static char A[300]; int a = 0;
#define AA(...) a += snprintf(A + a, sizeof A - a, "%s", a ? ", " : ""), a += snprintf(A + a, sizeof A - a, __VA_ARGS__)
  A[0] = 0;
  if (kind == 5) AA("\"m\"");
  if (splat == 1) { int from = npos / 2; for (i = 0; i < from; i++) AA("v%d", i); char L[80]; int l = 0; L[0] = 0; for (; i < npos; i++) l += snprintf(L + l, sizeof L - l, "%sv%d", i > from ? ", " : "", i); AA("*[%s]", L); }
  else if (splat == 2) { AA("*[]"); for (i = 0; i + 1 < npos; i++) AA("v%d", i); AA("*[v%d]", npos - 1); }
  else if (splat == 3) { char L[80]; int l = 0; L[0] = 0; for (i = 0; i < npos && i < 2; i++) l += snprintf(L + l, sizeof L - l, "%sv%d", i ? ", " : "", i); AA("*[%s]", L); for (; i < npos; i++) AA("idn(*[v%d])", i); }
  else for (i = 0; i < npos; i++) AA("v%d", i);
  static const char *K[] = { NULL, "k0: w0", "k1: w1", "k0: w0, k1: w1", "k1: w1, k0: w0", "z: w0" };
  if (K[kw]) AA("%s", K[kw]);
  if (blk == 1) AA("&inc");
  { int c = 1; for (const char *x = A; *x; x++) c += *x == ',' && x[1] == ' '; if (c > 8) sym_assume(0); } // the compiler's limit
  const char *lit = blk == 2 ? " -> (x) { x + loc; }" : "";
  O("var out = nil; var done = nil; var this_res = nil; fun inc(x) { if (x > 400) { return x - 3; } return x + 3; } fun idn(x) { return x; } fun call(&bb) { return bb; } ");
  if (kind == 0) O("fun f(%s) { %sreturn this_res; } ", P, B);
  if (kind >= 2 && kind <= 6) O("class S { m(%s) { %sreturn this_res; } init(%s) { %s } class st(%s) { %sreturn this_res; } } class C < S { init() { } m(*q) { return 1; } call2() { var loc = 3; return [7, super.m(%s)%s, 8]; } } ", P, B, P, B, P, B, A, lit);
  O("fun run() { var loc = 3; var after = 41; var i = 0; var got = nil; ");
  if (kind == 1) O("var cap = 1; var f = fun(%s) { cap = cap + 1; %sreturn this_res; }; ", P, B);
  if (kind == 2 || kind == 5 || kind == 3) O("var o = S.st; ");   // placeholder, replaced below
  if (kind == 7) O("var yl = fun() { return yield(%s); }; ", A);
  static char R[700];
  switch (kind) {
  case 0: case 1: snprintf(R, sizeof R, "f(%s)%s", A, lit); break;
  case 2: snprintf(R, sizeof R, "obj.m(%s)%s", A, lit); break;
  case 3: snprintf(R, sizeof R, "S.st(%s)%s", A, lit); break;
  case 4: snprintf(R, sizeof R, "mkS(S(%s)%s)", A, lit); break;
  case 5: snprintf(R, sizeof R, "obj.send(%s)%s", A, lit); break;
  case 6: snprintf(R, sizeof R, "C().call2()"); break;
  case 7: snprintf(R, sizeof R, "yl() -> (%s) { %sthis_res; }", P, B); break;
  default: snprintf(R, sizeof R, "bl.yield(%s)", A); break;
  }
  // the class is defined first; an object is made without its initializer's parameters mattering
  char *ph = strstr(src, "var o = S.st; "); if (ph) { memmove(ph, ph + 14, strlen(ph + 14) + 1); n -= 14; }
  if (kind == 2 || kind == 5) O("var obj = T(); ");
  if (kind == 8) O("var bl = call() -> (%s) { %sthis_res; }; ", P, B);
  O("while (i < 2) { i = i + 1; try { got = [7, %s, 8]; } catch (ArgumentError e) { got = \"arg\"; } } return [got, i, after]; } ", R);
  if (kind == 4) O("fun mkS(x) { return this_res; } ");
  if (kind == 2 || kind == 5) O("class T < S { init() { } } ");
  O("out = run(); done = true;");
  sym_note(src);
  sym_check(hx_run(src), "the program runs to its end");
  Value G = hx_glob("out");
  sym_check(IS_ARRAY(G) && ARRAY_SIZE(G) == 3 && IS_NUMBER(arrayGet(G, 1)) && AS_NUMBER(arrayGet(G, 1)) == 2 && AS_NUMBER(arrayGet(G, 2)) == 41, "the caller's variables are as they were");
  Value got = arrayGet(G, 0);
  // the rules
  int surplus = rest ? 0 : npos - (nreq + ndef); if (surplus < 0) surplus = 0;
  int g0 = kw == 1 || kw == 3 || kw == 4, g1 = kw >= 2 && kw <= 4, bad = 0;
  if (!lenient && (npos < nreq || surplus > nkw)) bad = 1;
  if (kw == 5 || (g1 && nkw < 2)) bad = 1;                                          // unknown
  if ((surplus > 0 && g0) || (surplus > 1 && g1)) bad = 1;                          // twice
  if (kreq && (nkw == 1 ? !(g0 || surplus > 0) : !(g1 || surplus > 1))) bad = 1;    // missing
  if (bad) {
    sym_check(IS_STRING(got) && hx_is_str(got, "arg", 3), "wrong arguments are an ArgumentError");
    sym_cover("argument error"); sym_done();
  }
  sym_check(!IS_STRING(got), "good arguments are no ArgumentError");
  if (kind == 6) got = arrayGet(got, 1);
  sym_check(IS_ARRAY(got) && ARRAY_SIZE(got) == 3 && AS_NUMBER(arrayGet(got, 0)) == 7 && AS_NUMBER(arrayGet(got, 2)) == 8, "values around a call stay");
  Value r = arrayGet(got, 1);
  int np = nreq + ndef + rest + nkw + 4, x = 0, wl[20], nw = 0, rep;
  sym_check(IS_ARRAY(r) && ARRAY_SIZE(r) == np, "the call gives the function's result");
#define IS(val, d) (IS_NUMBER(val) && AS_NUMBER(val) == (double)(d))
  for (i = 0; i < nreq; i++, x++) { if (i < npos) sym_check(IS(arrayGet(r, x), v[i]), "required parameters get their arguments"); else sym_check(IS_NIL(arrayGet(r, x)), "missing arguments of a block are nil"); }
  for (i = 0; i < ndef; i++, x++) { if (nreq + i < npos) sym_check(IS(arrayGet(r, x), v[nreq + i]), "default parameters get their arguments"); else { sym_check(IS(arrayGet(r, x), 51 + i), "missing arguments get the default"); wl[nw++] = 1 + i; } }
  if (rest) {
    Value R2 = arrayGet(r, x++); int nr = npos - nreq - ndef; if (nr < 0) nr = 0;
    sym_check(IS_ARRAY(R2) && ARRAY_SIZE(R2) == nr, "the rest parameter gets the other arguments");
    for (i = 0; i < nr; i++) sym_check(IS(arrayGet(R2, i), v[nreq + ndef + i]), "the rest parameter gets the other arguments in order");
    sym_cover("rest");
  }
  for (i = 0; i < nkw; i++, x++) {
    Value k = arrayGet(r, x);
    if (i < surplus) sym_check(IS(k, v[nreq + ndef + i]), "surplus arguments are for the keyword parameters in order");
    else if (i == 0 ? g0 : g1) { sym_check(IS(k, kv[i]), "keyword parameters get the argument of that name"); sym_cover("keyword"); }
    else { sym_check(IS(k, 53 + i), "missing keyword arguments get the default"); wl[nw++] = 3 + i; }
  }
  sym_check(IS(arrayGet(r, x), 71) && IS(arrayGet(r, x + 1), 72), "local variables are apart from the parameters");
  Value bv = arrayGet(r, x + 2);
  if (!blk) sym_check(IS_NIL(bv), "no block, no block value");
  int64_t want = blk == 1 && v[5] > 400 ? v[5] - 3 : v[5] + 3;
  if (!blk) ; else if (!hasb) sym_check(IS(bv, want), "yield calls the block given");
  else sym_check(IS_ARRAY(bv) && ARRAY_SIZE(bv) == 2 && IS(arrayGet(bv, 0), want) && IS(arrayGet(bv, 1), want), "the block parameter is the block given");
  Value cmp = arrayGet(r, x + 3);
  if (npos > 0 && nreq + ndef > 0) sym_check(IS_BOOL(cmp) && AS_BOOL(cmp) == (v[0] < v[5]), "the first parameter computes with the first argument");
  sym_check(nt == 2 * nw, "defaults are evaluated once per call that needs them");
  for (rep = 0; rep < 2; rep++) for (j = 0; j < nw; j++) sym_check(rep * nw + j >= nt || tlog[rep * nw + j] == wl[j], "defaults are evaluated in order");
  sym_cover("bound");
  sym_done();
}
