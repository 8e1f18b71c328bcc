// Threads: generated bodies under symbolic schedules. The VM switches threads after a symbolic
// number of instructions, the scheduler picks any runnable thread, and preempts at pthread calls.
#include "hx.h"
#ifndef NTH
#define NTH 2
#endif
#ifndef BODIES
#define BODIES {0,1,2,3,4,5,6,7,8,9,10}
#endif
#ifndef SWITCHES
#define SWITCHES 1
#endif
#ifndef OPS
#define OPS 40
#endif
#ifndef PREEMPT
#define PREEMPT 0
#endif
static char src[9000]; static int n, switches, on;
#define O(...) n += snprintf(src + n, sizeof src - n, __VA_ARGS__)
static const int bodies[] = BODIES;
int verifOpsUntilSwitch(void) {
  if (!on || switches <= 0) return 1000000;
  int k = sym_choice("instructions until a thread switch", OPS + 1);
  if (k == 0) return 1000000;
  switches--; return k;
}
static Value nOn(int c, Value *a) { on = AS_NUMBER(a[0]) != 0; vm.curThread->opsRemaining = THREAD_OPS_UNTIL_SWITCH; return NIL_VAL; }
static int incs;
static void body(int id, int b) {
  O("var t%d = newThread(fun() { var id = %d; ", id, id);
  switch (b) {
  case 0: O("m.lock(); var v = c; v = v + 1; c = v; m.unlock(); rs[id] = x + id; "); incs++; break;
  case 1: O("try { m.lock(); var v = c; throw Error(\"e\" + String(id)); } catch (Error e) { c = v1(e, id); } ensure { m.unlock(); } rs[id] = x + id; "); incs++; break;
  case 2: O("var s = x; var f = fun(d) { s = s + d; return s; }; f(id); f(0); rs[id] = s; "); break;
  case 3: O("var p = P(x); rs[id] = p.get(id); "); break;
  case 4: O("m.lock(); c = c + 1; rs[id] = x + id; "); incs++; break; // ends while it's locked
  case 5: O("Thread.current()[\"k\"] = x + id; Thread.schedule(); rs[id] = Thread.current()[\"k\"]; "); break;
  case 6: O("var a = []; foreach (q in [1, 2]) { a << q; } var s = 0; a.each() -> (q) { s = s + q; }; rs[id] = s - 3 + x + id; "); break;
  case 7: O("rs[id] = x + id; throw Error(\"uncaught\"); "); break;
  case 8: O("var a = [x, [id]]; hxGC(%d); rs[id] = a[0] + a[1][0]; ", id & 1); break;
  case 9: O("fun inner() { rs[0]; return __FUNC__; } var g = inner(); rs[id] = x; if (g == \"inner\") { rs[id] = x + id; } "); break;
  case 10: O("var t = newThread(fun() { rs[id] = x + id; }); joinThread(t); "); break;
  case 11: O("rs[id] = tc(id); "); break;
  case 12: O("var s = \"\"; for (var i = 0; i < 2; i += 1) { s = s + \"${i}\"; } var mm = %%{\"a\": s}; if (mm[\"a\"] == \"01\") { rs[id] = x + id; } "); break;
  default: O("m.lock(); m2.lock(); var v = c; c = v + 1; m2.unlock(); var w = c; m.unlock(); rs[id] = x + id; "); incs++; break;
  }
  O("}); ");
}
void harness(void) {
  int i, b[4]; char nm[40];
  hx_init(); addGlobalFunction("hxOn", nOn);
  int64_t x = sym_int("x", -100, 100);
  for (i = 0; i < NTH; i++) { snprintf(nm, sizeof nm, "body of thread %d", i + 1); b[i] = bodies[sym_choice(nm, sizeof bodies / sizeof *bodies)]; if (i && b[i] < b[i - 1]) sym_assume(0); }
  O("var c = 0; var m = Mutex(); var m2 = Mutex(); var rs = [nil, nil, nil, nil]; fun v1(e, id) { if (e.message == \"e\" + String(id)) { return c + 1; } return -100; } class P { init(x) { this.x = x; } get(id) { return this.add(id); } add(id) { return this.x + id; } } class TE < Error { init(v) { this.v = v; super.init(\"te\"); } } fun tc(id) { try { throw TE(x + id); } catch (TE e) { return e.v; } } hxOn(1); ");
  for (i = 0; i < NTH; i++) body(i + 1, b[i]);
  for (i = 0; i < NTH; i++) O("joinThread(t%d); ", i + 1);
  O("hxOn(0); m.lock(); var free = c; m.unlock(); var done = true;");
  hx_set("x", inum(x));
  sym_note(src);
  switches = SWITCHES;
  sym_sched(PREEMPT);
  int ok = hx_run(src);
  sym_check(ok && IS_BOOL(hx_glob("done")), "the program runs to its end");
  Value rs = hx_glob("rs");
  sym_check(IS_AN_ARRAY(rs), "results");
  for (i = 1; i <= NTH; i++) { Value v = ARRAY_GET(rs, i); snprintf(nm, sizeof nm, "what thread %d computed", i); sym_check(isnum(v) ? AS_NUMBER(v) == (double)(x + i) : 0, nm); }
  Value c = hx_glob("c");
  sym_check(isnum(c) && AS_NUMBER(c) == incs, "increments under the lock");
  Value f = hx_glob("free"); sym_check(isnum(f) && AS_NUMBER(f) == incs, "the lock is free at the end");
  if (switches < SWITCHES) sym_cover("switched inside a thread");
  sym_done();
}
