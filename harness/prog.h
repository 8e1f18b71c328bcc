// Programs generated from symbolic choices, their Lox text, and a reference
// interpreter giving the sequence of values they must log.
#pragma once
#include "hx.h"
enum { N_SEQ, N_LOG, N_LOCAL, N_BRK, N_CONT, N_RET, N_WHILE, N_FOR, N_FOREACH, N_FOREVER, N_IF, N_IFELSE, N_BLOCK, N_TRY, N_THROW, N_CALLTHROW, N_IFCONST, N_JUNK, N_TRYFIN, N_BLK, N_UNC };
typedef struct Nd { int k, id, opt, n; struct Nd *c[6]; } Nd;
static Nd pool[400]; static int npool, nid;
static char src[16000]; static int slen;
static int lv;                 // nesting of loops while generating
static Value logv[600]; static int nlog;
static double wantv[600]; static int nwant;
static int64_t P[8];           // symbolic inputs, also globals p0..p7
static Nd *mk(int k) { Nd *n = &pool[npool++]; memset(n, 0, sizeof *n); n->k = k; n->id = ++nid; return n; }
static void out(const char *s) { while (*s && slen < (int)sizeof src - 2) src[slen++] = *s++; src[slen] = 0; }
static void outn(int n) { char b[20]; snprintf(b, sizeof b, "%d", n); out(b); }
static Value nLog(int c, Value *a) { if (nlog < 600) logv[nlog++] = a[0]; return NIL_VAL; }
// variable of the innermost loop at depth d
static void lvar(int d) { out("i"); outn(d); }
static void cond(Nd *n, int d) { if (n->opt < 0) out("true"); else { lvar(d); out(" == p"); outn(n->opt); } }
static void emit(Nd *n, int d, int infn) {
  int i;
  switch (n->k) {
  case N_SEQ: for (i = 0; i < n->n; i++) emit(n->c[i], d, infn); break;
  case N_LOG: out("log("); outn(n->id * 100); if (d >= 0) { out(" + "); lvar(d); } out("); "); break;
  case N_LOCAL: out("var l"); outn(n->id); out(" = "); outn(n->id * 100 + 50); if (d >= 0) { out(" + "); lvar(d); } out("; log(l"); outn(n->id); out("); "); break;
  case N_BRK: out("if ("); cond(n, d); out(") { log("); outn(n->id); out("); break; } "); break;
  case N_CONT: out("if ("); cond(n, d); out(") { log("); outn(n->id); out("); continue; } "); break;
  case N_RET: out("if ("); if (d >= 0) cond(n, d); else { out("p"); outn(n->opt); out(" == 1"); } out(") { return "); outn(n->id * 7); out("; } "); break;
  case N_THROW: out("if ("); if (d >= 0) cond(n, d); else { out("p"); outn(n->opt); out(" == 1"); } out(") { throw "); out(n->n ? "OtherErr" : "MyErr2"); out("(\"m\"); } "); break;
  case N_UNC: if (n->opt == 2) { out("return "); outn(n->id * 7); out("; "); } else { out("throw "); out(n->opt ? "OtherErr" : "MyErr2"); out("(\"m\"); "); } break;
  case N_CALLTHROW: out("thrower("); if (d >= 0) { out("i"); outn(d); out(" == p"); } else out("1 == p"); outn(n->opt); out("); "); break;
  case N_IFCONST: out(n->opt == 0 ? "if (true) { " : n->opt == 1 ? "if (false) { " : n->opt == 2 ? "if (nil) { " : "if (1) { "); emit(n->c[0], d, infn); out("} "); if (n->n > 1) { out("else { "); emit(n->c[1], d, infn); out("} "); } break;
  case N_JUNK: out(n->opt == 0 ? "1; " : n->opt == 1 ? "2 + 3 * 4; " : n->opt == 2 ? "nil; \"s\"; " : "p0 and 1; p0 or 2; "); break;
  case N_IF: out("if ("); if (d >= 0) cond(n, d); else { out("p"); outn(n->opt); out(" == 1"); } out(") { "); emit(n->c[0], d, infn); out("} "); break;
  case N_IFELSE: out("if ("); if (d >= 0) cond(n, d); else { out("p"); outn(n->opt); out(" == 1"); } out(") { "); emit(n->c[0], d, infn); out("} else { "); emit(n->c[1], d, infn); out("} "); break;
  case N_BLOCK: out("{ "); emit(n->c[0], d, infn); out("} "); break;
  case N_WHILE: out("var w"); outn(n->id); out(" = 0; while (w"); outn(n->id); out(" < 3) { var i"); outn(d + 1); out(" = w"); outn(n->id); out("; w"); outn(n->id); out(" += 1; "); emit(n->c[0], d + 1, infn); out("} "); break;
  case N_BLK: out(n->opt == 0 ? "[0, 1, 2].each() -> (i" : n->opt == 1 ? "yielder() -> (i" : "iterm() -> (i"); outn(d + 1); out(") { "); emit(n->c[0], d + 1, infn); out("}; "); break;
  case N_FOREVER: out("var w"); outn(n->id); out(" = 0; while (true) { var i"); outn(d + 1); out(" = w"); outn(n->id); out("; w"); outn(n->id); out(" += 1; if (w"); outn(n->id); out(" > 3) { break; } "); emit(n->c[0], d + 1, infn); out("} "); break;
  case N_FOR: out("for (var i"); outn(d + 1); out(" = 0; i"); outn(d + 1); out(" < 3; i"); outn(d + 1); out(" += 1) { "); emit(n->c[0], d + 1, infn); out("} "); break;
  case N_FOREACH: out("foreach (i"); outn(d + 1); out(" in [0, 1, 2]) { "); emit(n->c[0], d + 1, infn); out("} "); break;
  case N_TRY: out("try { "); emit(n->c[0], d, infn); out("} "); 
    if (n->opt & 1) { out("catch (MyErr e) { log("); outn(n->id * 10 + 1); out("); "); emit(n->c[1], d, infn); out("} "); }
    if (n->opt & 2) { out("catch (Error e) { log("); outn(n->id * 10 + 2); out("); "); emit(n->c[1], d, infn); out("} "); }
    if (n->opt & 4) { out("else { log("); outn(n->id * 10 + 3); out("); } "); }
    if (n->opt & 8) { out("ensure { log("); outn(n->id * 10 + 4); out("); "); if (n->c[2]) emit(n->c[2], d, infn); out("} "); }
    break;
  }
}
enum { S_OK, S_BRK, S_CONT, S_RET, S_MY, S_OTHER };
static int ensureSkipped, skipMode;   // recorded finding: break, continue or return leaves a try without running its ensure block
static int64_t cur[8]; static int64_t retv; static int curd = -1;
static void want(double v) { if (nwant < 600) wantv[nwant++] = v; }
static int taken(Nd *n, int d) { return n->opt < 0 ? 1 : d >= 0 ? cur[d] == P[n->opt] : P[n->opt] == 1; }
static int ev(Nd *n, int d) {
  int i, s;
  switch (n->k) {
  case N_SEQ: for (i = 0; i < n->n; i++) if ((s = ev(n->c[i], d)) != S_OK) return s; return S_OK;
  case N_LOG: want(n->id * 100 + (d >= 0 ? cur[d] : 0)); return S_OK;
  case N_LOCAL: want(n->id * 100 + 50 + (d >= 0 ? cur[d] : 0)); return S_OK;
  case N_BRK: if (taken(n, d)) { want(n->id); return S_BRK; } return S_OK;
  case N_CONT: if (taken(n, d)) { want(n->id); return S_CONT; } return S_OK;
  case N_RET: if (taken(n, d)) { retv = n->id * 7; return S_RET; } return S_OK;
  case N_THROW: return taken(n, d) ? n->n ? S_OTHER : S_MY : S_OK;
  case N_UNC: if (n->opt == 2) retv = n->id * 7; return n->opt == 2 ? S_RET : n->opt ? S_OTHER : S_MY;
  case N_CALLTHROW: want(3); if (d >= 0 ? cur[d] == P[n->opt] : P[n->opt] == 1) return S_MY; want(4); return S_OK;
  case N_IFCONST: if (n->opt == 0 || n->opt == 3) return ev(n->c[0], d); return n->n > 1 ? ev(n->c[1], d) : S_OK;
  case N_JUNK: return S_OK;
  case N_IF: return taken(n, d) ? ev(n->c[0], d) : S_OK;
  case N_IFELSE: return ev(n->c[taken(n, d) ? 0 : 1], d);
  case N_BLOCK: return ev(n->c[0], d);
  case N_BLK: case N_WHILE: case N_FOREVER: case N_FOR: case N_FOREACH:
    for (i = 0; i < 3; i++) { cur[d + 1] = i; s = ev(n->c[0], d + 1); if (s == S_BRK) break; if (s != S_OK && s != S_CONT) return s; }
    return S_OK;
  case N_TRY:
    s = ev(n->c[0], d);
    if (s == S_MY && (n->opt & 3)) { want(n->id * 10 + ((n->opt & 1) ? 1 : 2)); s = ev(n->c[1], d); }
    else if (s == S_OTHER && (n->opt & 2)) { want(n->id * 10 + 2); s = ev(n->c[1], d); }
    else if (s == S_OK && (n->opt & 4)) want(n->id * 10 + 3);
    if (n->opt & 8) { if (s == S_BRK || s == S_CONT || s == S_RET) { ensureSkipped = 1; if (skipMode) return s; } want(n->id * 10 + 4); if (n->c[2]) { int s2 = ev(n->c[2], d); if (s2 != S_OK) s = s2; } }
    return s;
  }
  return S_OK;
}
static int sameLogs(void) {
  int i;
  if (nlog != nwant) return 0;
  for (i = 0; i < nlog; i++) if (!IS_NUMBER(logv[i]) || AS_NUMBER(logv[i]) != wantv[i]) return 0;
  return 1;
}
static void cmpLogs(void) {
  int i;
  char b[120];
  sym_check(nlog == nwant, "the statements that ran are the ones the program prescribes");
  for (i = 0; i < nlog && i < nwant; i++) sym_check(IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i], "values logged in the prescribed order");
}
