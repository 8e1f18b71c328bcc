// Exceptions: generated try/catch/else/ensure programs against the reference interpreter.
#include "prog.h"
static int ensureN;
static int inblk;
static Nd *leaf(int d) {
  Nd *n; int k = sym_choice("stmt", d >= 0 ? 7 : 5);
  if (inblk && (k == 4 || (inblk == 2 && k == 5))) k = 6;   // return, and break out of a yield, only end the block call
  switch (k) {
  case 0: return mk(N_LOG);
  case 1: return mk(N_LOCAL);
  case 2: n = mk(N_THROW); n->opt = 0; n->n = sym_choice("class", 2); return n;
  case 3: n = mk(N_CALLTHROW); n->opt = 0; return n;
  case 4: n = mk(N_RET); n->opt = 1; return n;
  case 5: n = mk(N_BRK); n->opt = 1; return n;
  default: n = mk(N_CONT); n->opt = 1; return n;
  }
}
#ifndef TSLOTS
#define TSLOTS 1
#endif
#ifndef OPTS
#define OPTS { 1, 2, 3, 6, 5, 7 }
#endif
static const int opts[] = OPTS;
static Nd *seq(int n, int d) { Nd *s = mk(N_SEQ); while (n--) s->c[s->n++] = leaf(d); return s; }
static Nd *tryN(int d, int slots, int nest) {
  Nd *t = mk(N_TRY);
  t->opt = opts[sym_choice("clauses", sizeof opts / sizeof *opts)];
  t->c[0] = mk(N_SEQ);
  int at = nest ? sym_choice("nested-at", 2) : -1;
  int i;
  for (i = 0; i < slots; i++) t->c[0]->c[t->c[0]->n++] = i == slots - 1 && at == 0 ? tryN(d, 1, 0) : leaf(d);
  if (t->opt & 3) { t->c[1] = mk(N_SEQ); t->c[1]->c[t->c[1]->n++] = at == 1 ? tryN(d, 1, 0) : leaf(d); }
#ifdef ENSBODY
  if (t->opt & 8) { t->c[2] = mk(N_SEQ); t->c[2]->c[t->c[2]->n++] = leaf(d); }
#endif
  return t;
}
static void unc(Nd *s) { int k = sym_choice("always", 4); if (k < 3) { Nd *n = mk(N_UNC); n->opt = k; s->c[s->n++] = n; } }
static Nd *tryU(void) {
  Nd *t = mk(N_TRY); int k = sym_choice("in try", 5); static const int o5[] = { 1, 2, 3, 5, 9 };
  t->opt = o5[sym_choice("clauses", 5)]; t->c[0] = mk(N_SEQ); t->c[1] = mk(N_SEQ); t->c[1]->c[t->c[1]->n++] = mk(N_LOCAL);
  if (k < 3) { Nd *n = mk(N_UNC); n->opt = k; t->c[0]->c[t->c[0]->n++] = n; } else if (k == 3) { Nd *n = mk(N_CALLTHROW); n->opt = 0; t->c[0]->c[t->c[0]->n++] = n; } else t->c[0]->c[t->c[0]->n++] = mk(N_LOCAL);
  return t;
}
static int expect(Nd *body) {
  nwant = 0; retv = 5; int s = ev(body, -1);
  if (s == S_OK) { want(101); want(102); retv = 5; }
  if (s == S_MY) retv = 1;
  if (s == S_OTHER) retv = 2;
  want(retv); want(103);
  return s;
}
int harness(void) {
  int i; char b[40];
  hx_init();
  addGlobalFunction("log", nLog);
  for (i = 0; i < 2; i++) { snprintf(b, sizeof b, "p%d", i); P[i] = sym_int(b, 0, 2); hx_set(b, NUMBER_VAL((double)P[i])); }
  Nd *body = mk(N_SEQ);
#if MODE == 0       // one try statement in a function
  body->c[body->n++] = tryN(-1, TSLOTS, 0); body->c[body->n++] = mk(N_LOCAL);
#elif MODE == 1     // inside a loop
  { Nd *l = mk(N_WHILE + sym_choice("loop", 4)); l->c[0] = mk(N_SEQ); l->c[0]->c[l->c[0]->n++] = mk(N_LOCAL); l->c[0]->c[l->c[0]->n++] = tryN(0, TSLOTS, 0); l->c[0]->c[l->c[0]->n++] = mk(N_LOCAL); body->c[body->n++] = l; }
#elif MODE == 4     // inside a block passed to an iterator
  { Nd *l = mk(N_BLK); l->opt = sym_choice("iterator", 2); inblk = 1 + l->opt; l->c[0] = mk(N_SEQ); l->c[0]->c[l->c[0]->n++] = mk(N_LOCAL); l->c[0]->c[l->c[0]->n++] = tryN(0, TSLOTS, 0); l->c[0]->c[l->c[0]->n++] = mk(N_LOCAL); body->c[body->n++] = l; }
#elif MODE == 2     // nested tries
  body->c[body->n++] = mk(N_LOCAL); body->c[body->n++] = tryN(-1, TSLOTS, 1); body->c[body->n++] = mk(N_LOCAL);
#elif MODE == 3     // a loop inside the try
  { Nd *t = mk(N_TRY); t->opt = opts[sym_choice("clauses", sizeof opts / sizeof *opts)]; t->c[0] = mk(N_SEQ); t->c[1] = mk(N_SEQ); t->c[1]->c[t->c[1]->n++] = mk(N_LOCAL);
    Nd *l = mk(N_WHILE + sym_choice("loop", 4)); l->c[0] = seq(2, 0); t->c[0]->c[t->c[0]->n++] = mk(N_LOCAL); t->c[0]->c[t->c[0]->n++] = l;
    body->c[body->n++] = t; body->c[body->n++] = mk(N_LOCAL); }
#elif MODE == 5     // statements that always leave, right before, in and after a try
  { static const int o5[] = { 1, 2, 3, 5 };
    Nd *t = tryU(), *q = mk(N_SEQ); int w = sym_choice("where", 4);
    unc(q); q->c[q->n++] = t; unc(q);
    if (w == 0) body = q;
    else if (w == 1) { Nd *o = mk(N_TRY); o->opt = o5[sym_choice("outer", 4)]; o->c[0] = q; o->c[1] = mk(N_SEQ); o->c[1]->c[o->c[1]->n++] = mk(N_LOCAL); body->c[body->n++] = o; }
    else if (w == 2) { Nd *o = mk(N_TRY); o->opt = o5[sym_choice("outer", 3)]; o->c[0] = mk(N_SEQ); Nd *x = mk(N_THROW); x->opt = 0; o->c[0]->c[o->c[0]->n++] = x; o->c[1] = q; body->c[body->n++] = o; }
    else { Nd *l = mk(N_WHILE + sym_choice("loop", 4)); l->c[0] = q; body->c[body->n++] = l; }
    body->c[body->n++] = mk(N_LOCAL); }
#endif
  out("class MyErr < Error { } class MyErr1 < MyErr { } class MyErr2 < MyErr1 { } class OtherErr1 < Error { } class OtherErr < OtherErr1 { } fun deep(c) { var d1 = 1; if (c) { throw MyErr1(\"m\"); } return d1; } fun thrower(c) { log(3); var t1 = 5; deep(c); log(4); return t1; } ");
#if MODE == 4
  out("fun yielder() { var y1 = 7; for (var i = 0; i < 3; i += 1) { var y2 = i; yield(y2); } return y1; } ");
#endif
  out("fun prog() { var o1 = 101; "); emit(body, -1, 1); out("var o2 = 102; log(o1); log(o2); return 5; } ");
  out("var rv = nil; try { rv = prog(); } catch (MyErr e) { rv = 1; } catch (OtherErr e) { rv = 2; } log(rv); var o3 = 103; log(o3); var done = true;");
  sym_note(src);
  int s = expect(body);
  sym_inst_limit(3000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  if (ensureSkipped && !sameLogs()) {   // exactly the recorded behaviour, or something else?
    skipMode = 1; expect(body);
    if (sameLogs()) sym_known(1, "ensure-skipped");
    skipMode = 0; expect(body);
  }
  cmpLogs();
  sym_cover(s == S_OK ? "ran through" : s == S_RET ? "returned" : "error left the function");
  sym_done();
}
