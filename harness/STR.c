// Strings: every method against a reference on byte sequences.
// MODE 0: sequences of mutating operations, with aliases, copies and the literal observed. MODE 1: pure methods on symbolic characters. MODE 2: equality and map keys.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef LEN
#define LEN 3
#endif
#define N(a) (int)(sizeof a / sizeof *a)
typedef struct { int n; char c[60]; } S;
typedef struct { int t; double d; S s; } W;   // 0 number 1 string 2 nil 3 boolean
static char src[12000]; static int sl;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static Value logv[120]; static int nlog; static W wantv[120]; static int nwant;
// logged strings are copied: later mutations must not change what was seen
static Value nLog(int c, Value *a) { if (nlog < 120) { Value v = a[0]; if (IS_STRING(v)) { ObjString *o = AS_STRING(v); v = OBJ_VAL(hiddenString(o->chars, o->length, 0)); } logv[nlog++] = v; } return NIL_VAL; }
static void wn(double d) { wantv[nwant].t = 0; wantv[nwant++].d = d; }
static void wb(int b) { wantv[nwant].t = 3; wantv[nwant++].d = b; }
static void wnil(void) { wantv[nwant++].t = 2; }
static void ws(const char *p, int n) { W *w = &wantv[nwant++]; w->t = 1; w->s.n = n; int i; for (i = 0; i < n; i++) w->s.c[i] = p[i]; }
static int ok(Value v, W *w) {
  switch (w->t) { case 0: return IS_NUMBER(v) && AS_NUMBER(v) == w->d; case 1: return hx_is_str(v, w->s.c, w->s.n); case 2: return IS_NIL(v); default: return v == BOOL_VAL(w->d != 0); }
}
static void run(void) {
  int i; P("var done = true;"); sym_note(src);
  sym_check(hx_run(src), "string operations raise no error");
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_check(nlog == nwant, "every operation ran");
  for (i = 0; i < nlog && i < nwant; i++) { if (sym_concrete(ok(logv[i], &wantv[i])) == 0) { char b[200]; snprintf(b, 200, "log %d want (%d) %g '%.*s' got '%s'", i, wantv[i].t, wantv[i].d, wantv[i].t == 1 ? wantv[i].s.n : 0, wantv[i].s.c, IS_STRING(logv[i]) ? AS_STRING(logv[i])->chars : "?"); sym_note(b); } sym_check(ok(logv[i], &wantv[i]), "string results and contents"); }
  sym_cover("string");
  sym_done();
}
#if MODE == 0
#ifndef OPSET
#define OPSET {0,1,2,3,4,5,6,7,8,9,10,11}
#endif
#ifndef INIT
#define INIT {0,1,2,3,4}
#endif
static const int opset[] = OPSET, initset[] = INIT;
static void verify(const char *v, S *r) {
  int i; P("log(%s); log(%s.size); ", v, v); ws(r->c, r->n); wn(r->n);
  for (i = 0; i <= r->n; i += r->n > 3 ? 3 : 1) { P("log(%s[%d]); ", v, i); ws(r->c + i, i < r->n); }
  P("log(%s == %s.dup()); log(%s + \"x\" == %s); ", v, v, v, v); wb(1); wb(0);
}
static void ins(S *r, int at, const char *c, int n) { int i; for (i = r->n - 1; i >= at; i--) r->c[i + n] = r->c[i]; for (i = 0; i < n; i++) r->c[at + i] = c[i]; r->n += n; }
int harness(void) {
  int i, j, ix; hx_init(); addGlobalFunction("log", nLog);
  P("fun lit0() { return \"\"; } fun lit1() { return \"q\"; } fun lit2() { return \"pqr\"; } fun lit3() { var ab = \"ab\"; return \"${ab}c\"; } fun lit4() { return String(\"pqr\"); } ");
  static const S I[] = { { 0, "" }, { 1, "q" }, { 3, "pqr" }, { 3, "abc" }, { 3, "pqr" } };
  int in = initset[sym_choice("init", N(initset))];
  S r = I[in], o = r, p; int alias = 1;      // o: the object first bound to s (and to t)
  p.n = 2; 
#ifdef HASH
  p.c[0] = 'w';
#else
  p.c[0] = (char)sym_int("p0", 'a', 'c');
#endif
  p.c[1] = 'z'; { char t[3] = { p.c[0], 'z', 0 }; hx_set("p", hx_str(t, 2)); hx_set("p1", hx_str("y", 1)); }
#ifdef HASH    // the string has been used as a key before it is changed
  P("var hm = %%{}; hm[\"q\"] = 7; fun hk(x) { return hm[x]; } ");
  P("var s = lit%d(); var t = s; hk(s); ", in);
#else
  P("var s = lit%d(); var t = s; ", in);
#endif
  for (j = 0; j < NOPS; j++) {
    int op = opset[sym_choice("op", N(opset))];
    switch (op) {
    case 0: P("log(s.push(p)); "); ins(&r, r.n, p.c, 2); ws(r.c, r.n); break;
    case 1: P("s << p1 << p1; "); ins(&r, r.n, "yy", 2); break;
    case 2: ix = sym_choice("ix", 5); if (ix > r.n) { P("try { s.insertAt(p, %d); log(1); } catch (Error e) { log(0); } ", ix); wn(0); } else { P("s.insertAt(p, %d); ", ix); ins(&r, ix, p.c, 2); } break;
    case 3: ix = sym_choice("ix", 4); if (ix >= r.n) { P("try { s[%d] = p1; log(1); } catch (Error e) { log(0); } ", ix); wn(0); } else { P("s[%d] = p1; ", ix); r.c[ix] = 'y'; } break;
    case 4: ix = sym_choice("ix", 3); if (ix >= r.n) break; P("s[%d] = p; ", ix); for (i = ix; i + 1 < r.n; i++) r.c[i] = r.c[i + 1]; r.n--; ins(&r, ix, p.c, 2); break;
    case 5: P("log(s.clear()); "); r.n = 0; ws("", 0); break;
    case 6: ix = sym_choice("ix", 6) + 1; { S q = r; while (q.n < ix) q.c[q.n++] = '-'; P("log(s.padRight(%d, \"-\")); ", ix); r = q; ws(q.c, q.n); } break;
    case 7: P("s = s + p; "); if (alias) o = r, alias = 0; ins(&r, r.n, p.c, 2); break;
    case 8: P("s += p1; "); if (alias) o = r, alias = 0; ins(&r, r.n, "y", 1); break;
    case 9: P("s = s.dup(); "); if (alias) o = r, alias = 0; break;
    case 10: P("s = String(s); s.push(p1); "); if (alias) o = r, alias = 0; ins(&r, r.n, "y", 1); break;
    case 11: P("var w%d = \"${s}\"; w%d.push(\"k\"); var u%d = s.dup(); u%d.clear(); var x%d = lit%d(); x%d.push(\"m\"); x%d[0] = \"n\"; ", j, j, j, j, j, in, j, j); break;
    }
    if (alias) o = r;
  }
  verify("s", &r); P("log(t); "); ws(o.c, o.n);
#ifdef HASH
  P("var z = \"\"; for (var i = 0; i < s.size; i += 1) { z << s[i]; } hm[z] = 8; log(hm[s]); log(z == s); log(hm.size); "); wn(8); wb(1); wn(r.n == 1 && r.c[0] == 'q' ? 1 : 2);
#endif
  P("var l = lit%d(); ", in); verify("l", (S *)&I[in]); P("log(\"pqr\"); log(p); "); ws("pqr", 3); ws(p.c, 2);
  run();
}
#elif MODE == 1
// results are new strings: changing them changes nothing else
static Value nLogm(int c, Value *a) { nLog(c, a); if (IS_STRING(a[0])) pushString(a[0], OBJ_VAL(hiddenString("Z", 1, 0))); return NIL_VAL; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static const char *alpha = " \tab,";
static char ch(const char *nm, const char *al, int n) { int c = (int)sym_int(nm, 1, 127), i, in = 0; for (i = 0; i < n; i++) in |= c == al[i]; sym_assume(in); return (char)c; }
static int at(S *h, S *n, int i) { int k, e = 1; if (i + n->n > h->n) return 0; for (k = 0; k < n->n; k++) e &= h->c[i + k] == n->c[k]; return e; }
#ifndef OPS
#define OPS {0,1,2,3,4,5,6,7,8,9,10,11,12}
#endif
static const int ops[] = OPS;
int harness(void) {
  int i, k, m; S s, q; hx_init(); addGlobalFunction("log", nLog); addGlobalFunction("logm", nLogm);
  int op = ops[sym_choice("op", N(ops))];
  s.n = sym_choice("n", LEN + 1); q.n = 0;
  const char *al = op == 0 ? ",ab" : op == 1 || op == 2 ? " \tab\n" : op == 3 || op == 4 ? "ab" : op == 11 ? "\"\n\\a" : op == 12 ? " -+09a" : 0;
  for (i = 0; i < s.n; i++) s.c[i] = al ? ch("c", al, (int)strlen(al)) : (char)sym_int("c", 1, 255); s.c[s.n] = 0;
  if (op == 0 || op == 3 || op == 4) { q.n = sym_choice("m", 3); for (i = 0; i < q.n; i++) q.c[i] = ch("d", al, (int)strlen(al)); q.c[q.n] = 0; hx_set("q", hx_str(q.c, q.n)); }
  hx_set("s", hx_str(s.c, s.n));
  switch (op) {
  case 0: if (q.n == 0) { P("try { s.split(q); log(1); } catch (Error e) { log(0); } "); wn(0); break; }
    P("foreach (x in s.split(q)) { logm(x); } "); for (i = k = 0; i < s.n; ) { if (at(&s, &q, i)) { ws(s.c + k, i - k); i += q.n; k = i; } else i++; } if (k < s.n) ws(s.c + k, s.n - k); break;
  case 1: P("logm(s.compact()); "); for (i = 0; i < s.n && sp(s.c[i]); i++); for (k = s.n; k > i && sp(s.c[k - 1]); k--); ws(s.c + i, k - i); break;
  case 2: P("logm(s.compactLeft()); "); for (i = 0; i < s.n && sp(s.c[i]); i++); ws(s.c + i, s.n - i); break;
  case 3: P("log(s.index(q)); "); for (i = 0; i <= s.n && !at(&s, &q, i); i++); if (i <= s.n) wn(i); else wnil(); break;
  case 4: P("log(s.endsWith(q)); "); wb(s.n >= q.n && at(&s, &q, s.n - q.n)); break;
  case 5: k = sym_choice("at", 5); m = sym_choice("len", 7) - 3; P("logm(s.substr(%d, %d)); ", k, m);
    { int mx = k < s.n ? s.n - k : 0, l = m < 0 ? mx + m + 1 : m; if (l < 0) l = 0; if (l > mx) l = mx; ws(s.c + (k < s.n ? k : 0), l); } break;
  case 6: k = sym_choice("at", 6) - 1; P("logm(s.rest(%d)); ", k); if (k < 0 || k >= s.n) ws("", 0); else ws(s.c + k, s.n - k); break;
  case 7: k = sym_choice("at", 5); P("logm(s[%d]); ", k); ws(s.c + k, k < s.n); break;
  case 8: k = sym_choice("times", 5) - 1; P("logm(s * %d); ", k); { S r; r.n = 0; for (i = 0; i < k; i++) for (m = 0; m < s.n; m++) r.c[r.n++] = s.c[m]; ws(r.c, r.n); } break;
  case 9: P("logm(s + s); logm(\"<${s}>\"); logm(String(s)); log(s.toString()); logm(s.dup()); "); { S r; r.n = 0; for (k = 0; k < 2; k++) for (m = 0; m < s.n; m++) r.c[r.n++] = s.c[m]; ws(r.c, r.n);
      r.n = 0; r.c[r.n++] = '<'; for (m = 0; m < s.n; m++) r.c[r.n++] = s.c[m]; r.c[r.n++] = '>'; ws(r.c, r.n); for (k = 0; k < 3; k++) ws(s.c, s.n); } break;
  case 10: P("var n = s.size; log(n); var z = \"\"; for (var i = 0; i < n; i += 1) { z << s[i]; } log(z); log(z == s); "); wn(s.n); ws(s.c, s.n); wb(1); break;
  case 11: P("logm(s.inspect()); "); { S r; r.n = 0; r.c[r.n++] = '"'; for (m = 0; m < s.n; m++) { int c = s.c[m]; if (c == '\n') { r.c[r.n++] = '\\'; r.c[r.n++] = 'n'; } else if (c == '"') { r.c[r.n++] = '\\'; r.c[r.n++] = '"'; } else r.c[r.n++] = (char)c; } r.c[r.n++] = '"'; ws(r.c, r.n); } break;
  case 12: P("log(String.parseInt(s)); "); { int neg = 0, v = 0; i = 0; while (i < s.n && sp(s.c[i])) i++; if (i < s.n && s.c[i] == '-') { neg = 1; i++; } else if (i < s.n && s.c[i] == '+') i++; while (i < s.n && s.c[i] >= '0' && s.c[i] <= '9') v = v * 10 + (s.c[i++] - '0'); wn(neg ? -v : v); } break;
  }
  P("log(s); "); ws(s.c, s.n);
  run();
}
#else
// equality is equality of the characters, also for strings whose hash is known; a map keeps different strings apart
int harness(void) {
  int i, how, e = 1; char a[16], b[16]; hx_init(); addGlobalFunction("log", nLog);
  how = sym_choice("hashed", 3);
  int mx = how ? 2 : LEN, n = how == 2 ? 6 : sym_choice("n", mx + 1), m = how == 2 ? 10 : sym_choice("m", mx + 1);
  for (i = 0; i < n; i++) a[i] = how == 2 ? "liquid"[i] : (char)sym_int("a", 32, 126); a[n] = 0;
  for (i = 0; i < m; i++) b[i] = how == 2 && i < 6 ? "costar"[i] : (char)(how == 2 ? sym_int("b", 'a', 'z') : sym_int("b", 32, 126)); b[m] = 0;
  e = n == m; for (i = 0; i < n && i < m; i++) e &= a[i] == b[i];
  if (how == 2) { sym_assume(!e); uint32_t x = hashString(a, n), y = hashString(b, m); sym_assume(x == y); }   // a hash collision
  hx_set("a", hx_str(a, n)); hx_set("b", hx_str(b, m));
  if (how) { P("var hm = Map(); "); hx_run("var hm1 = Map();"); (void)0; valHash(hx_glob("a")); valHash(hx_glob("b")); }
  P("log(a == b); log(b == a); log(a != b); log(a.opEquals(b)); "); wb(e); wb(e); wb(!e); wb(e);
  if (how == 2) { P("var mp = Map(); mp[a] = 1; mp[b] = 2; log(mp[a]); log(mp[b]); log(mp.size); log([a] == [b]); "); wn(1); wn(2); wn(2); wb(0); }
  run();
}
#endif
