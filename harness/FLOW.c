// Control flow: generated programs against the reference interpreter.
#include "prog.h"
#ifndef SLOTS
#define SLOTS 3
#endif
static Nd *leaf(int d) {
  Nd *n; int k = sym_choice("stmt", d >= 0 ? 6 : 3);
  switch (k) {
  case 0: return mk(N_LOG);
  case 1: return mk(N_LOCAL);
  case 2: n = mk(N_RET); n->opt = d >= 0 ? 1 : 0; return n;
  case 3: n = mk(N_BRK); n->opt = d & 1; return n;
  case 4: n = mk(N_CONT); n->opt = d & 1; return n;
  default: n = mk(N_IFCONST); n->opt = sym_choice("konst", 4); n->c[n->n++] = mk(N_LOG); if (sym_choice("else", 2)) n->c[n->n++] = mk(N_LOCAL); return n;
  }
}
static Nd *loop(int d, int slots, int nest) {
  Nd *l = mk(N_WHILE + sym_choice("loop", 4)), *s = mk(N_SEQ); int i;
  l->c[0] = s;
  int at = nest ? sym_choice("inner-at", slots) : -1;
  for (i = 0; i < slots; i++) s->c[s->n++] = i == at ? loop(d + 1, 1, 0) : leaf(d + 1);
  return l;
}
int harness(void) {
  int i; char b[40];
  hx_init();
  addGlobalFunction("log", nLog);
  for (i = 0; i < 3; i++) { snprintf(b, sizeof b, "p%d", i); P[i] = sym_int(b, -1, 3); hx_set(b, NUMBER_VAL((double)P[i])); }
  Nd *body = mk(N_SEQ);
#if MODE == 0
  body->c[body->n++] = loop(-1, SLOTS, 0);
#elif MODE == 1
  body->c[body->n++] = loop(-1, 2, 1);
#elif MODE == 3
  // leaving a loop after another loop in it, with statements before and after
  { Nd *l = mk(N_WHILE + sym_choice("loop", 4)), *q = mk(N_SEQ); l->c[0] = q;
    if (sym_choice("before", 2)) q->c[q->n++] = mk(N_LOCAL);
    q->c[q->n++] = loop(0, 1, 0);
    Nd *n = mk(sym_choice("leave", 2) ? N_BRK : N_CONT); n->opt = 0; q->c[q->n++] = n;
    q->c[q->n++] = mk(sym_choice("after", 2) ? N_LOG : N_LOCAL);
    body->c[body->n++] = l; }
#elif MODE == 2
  { Nd *n = mk(N_IFELSE); n->opt = 0; n->c[0] = mk(N_SEQ); n->c[1] = mk(N_SEQ);
    n->c[0]->c[n->c[0]->n++] = leaf(-1); n->c[1]->c[n->c[1]->n++] = leaf(-1);
    Nd *m = mk(N_IF); m->opt = 1; m->c[0] = mk(N_SEQ); m->c[0]->c[m->c[0]->n++] = leaf(-1); m->c[0]->c[m->c[0]->n++] = n; 
    Nd *o = mk(N_IF); o->opt = 2; o->c[0] = mk(N_SEQ); o->c[0]->c[o->c[0]->n++] = leaf(-1);
    Nd *k = mk(N_IFCONST); k->opt = sym_choice("konst", 4); k->c[k->n++] = leaf(-1); if (sym_choice("else", 2)) k->c[k->n++] = leaf(-1);
    body->c[body->n++] = m; body->c[body->n++] = o; body->c[body->n++] = k; Nd *j = mk(N_JUNK); j->opt = k->opt; body->c[body->n++] = j; body->c[body->n++] = mk(N_LOCAL); }
#endif
  int infn = 1;
  out("fun prog() { var o1 = 101; "); emit(body, -1, infn); out("var o2 = 102; log(o1); log(o2); return 5; } var rv = prog(); log(rv); var done = true;");
  sym_note(src);
  retv = 5; int s = ev(body, -1);
  if (s != S_RET) { want(101); want(102); retv = 5; }
  want(retv);
  sym_inst_limit(3000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  cmpLogs();
  sym_cover(s == S_RET ? "returned from inside" : "ran through");
  sym_done();
}
