// Native replay of a counterexample: the same harness, compiled with the real
// sources by gcc (address sanitizer), with the symbolic inputs taken from a
// model file.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
static struct { char name[120]; int w; unsigned long long v; } M[20000]; static int n, pos;
static int exitMode; static int armed;
static char *obuf; static size_t olen; static FILE *realout; static FILE *mem;
static int schedOn, preemptLeft;
static uint64_t next(const char *nm) {
  // scheduling symbols are only used when the schedule is replayed
  while (!schedOn && pos < n && (!strncmp(M[pos].name, "sched#", 6) || !strncmp(M[pos].name, "mx#", 3))) pos++;
  if (pos >= n) { fprintf(stderr, "REPLAY: no value for %s\n", nm); return 0; }
  return M[pos++].v;
}
int sym_native(void) { return 1; }
int64_t sym_int(const char *nm, int64_t lo, int64_t hi) { if (lo == hi) return lo; int64_t v = (int64_t)((uint64_t)lo + next(nm)); return v; }
uint64_t sym_bits(const char *nm, int w) { return next(nm); }
double sym_double(const char *nm) { uint64_t u = next(nm); double d; memcpy(&d, &u, 8); return d; }
int sym_choice(const char *nm, int k) { return k <= 1 ? 0 : (int)next(nm); }
void sym_bytes(void *p, size_t k, const char *nm) { for (size_t i = 0; i < k; i++) ((unsigned char *)p)[i] = (unsigned char)next(nm); }
int64_t sym_concrete(int64_t v) { return v; }
int sym_is_symbolic(int64_t v) { return 0; }
void __real__exit(int);
static void fin(int code) { armed = 0; fflush(stderr); __real__exit(code); for (;;); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); fin(0); } }
void sym_check(int c, const char *label) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION check: %s\n", label); fin(7); } }
void sym_cover(const char *l) { }
void sym_known(int c, const char *f) { if (c) fprintf(stderr, "REPLAY: in the region of finding %s\n", f); }
void sym_unknown(void) { }
void sym_note(const char *t) { fprintf(stderr, "REPLAY: %s\n", t); }
void sym_expect_exit(int m) { exitMode = m; }
void sym_done(void) { fprintf(stderr, "REPLAY: finished without violation\n"); fin(0); for (;;); }
void sym_sched(int p) { schedOn = 1; preemptLeft = p; }
uint64_t sym_heap_live(void) { return 0; }
uint64_t sym_malloc_count(void) { return 0; }
void sym_out_reset(void) { fflush(stdout); if (!mem) { mem = open_memstream(&obuf, &olen); stdout = mem; } fflush(mem); fseek(mem, 0, SEEK_SET); fflush(mem); olen = 0; }
uint64_t sym_out_len(void) { if (mem) fflush(mem); return olen; }
char *sym_out(void) { if (mem) fflush(mem); if (obuf) obuf[olen] = 0; return obuf ? obuf : ""; }
void sym_inst_limit(uint64_t k, int v) { }
#ifdef __SANITIZE_ADDRESS__
void __asan_poison_memory_region(void const volatile *addr, size_t size); void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
void sym_poison(void *p, size_t k) { __asan_poison_memory_region(p, k); }
void sym_unpoison(void *p, size_t k) { __asan_unpoison_memory_region(p, k); }
#else
void sym_poison(void *p, size_t k) { }
void sym_unpoison(void *p, size_t k) { }
#endif
void sym_debug(const char *s, int64_t v) { fprintf(stderr, "%s %lld\n", s, (long long)v); }
// the executor's model of pthreads: one thread runs at a time, the same choices as there
#include <pthread.h>
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DEAD };
typedef struct { int st; void *waitOn, *waitMx; int timed; uint64_t order; pthread_t tid; void *(*fn)(void *), *arg; } Th;
static Th th[64]; static int nth = 1; static __thread int me; static int cur; static uint64_t orderCtr = 1;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bigc = PTHREAD_COND_INITIALIZER;
static struct { void *m; int depth, owner; } mx[4000]; static int nmx;
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); void __real_pthread_exit(void *);
static int mxi(void *m) { int i; for (i = 0; i < nmx; i++) if (mx[i].m == m) return i; mx[nmx].m = m; return nmx++; }
static void violation(const char *t) { fprintf(stderr, "REPLAY-VIOLATION %s\n", t); fin(7); }
static int bits(int k) { int w = 1; while ((1 << w) < k) w++; return w; }
static void waitTurn(void) { __real_pthread_mutex_lock(&big); while (cur != me) __real_pthread_cond_wait(&bigc, &big); __real_pthread_mutex_unlock(&big); }
static int timedOut(Th *t) { int i = mxi(t->waitMx); if (t->st != T_COND || !t->timed || mx[i].depth) return 0; t->timed = 0; t->st = T_RUN; mx[i].owner = t - th; mx[i].depth = 1; return 1; }
static void pick(int canStay) {
  int r[64], k = 0, i, nx = -1;
  for (i = 0; i < nth; i++) if (th[i].st == T_RUN || (th[i].st == T_COND && th[i].timed && !mx[mxi(th[i].waitMx)].depth)) r[k++] = i;
  if (!k) violation("deadlock");
  if (canStay && th[me].st == T_RUN && preemptLeft <= 0) return;
  if (k == 1) { nx = r[0]; if (canStay && th[me].st == T_RUN) nx = me; }
  else { (void)bits; nx = r[next("sched")]; if (canStay && nx != me) preemptLeft--; }
  if (th[nx].st == T_COND) timedOut(&th[nx]);
  th[nx].order = orderCtr++;
  if (nx != me) { int dead = th[me].st == T_DEAD; __real_pthread_mutex_lock(&big); cur = nx; __real_pthread_cond_broadcast(&bigc); __real_pthread_mutex_unlock(&big); if (!dead) waitTurn(); }
}
static void own(int i, int t) { mx[i].owner = t; mx[i].depth = 1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!schedOn) return __real_pthread_mutex_lock(m);
  int i = mxi(m); if (mx[i].depth) { th[me].st = T_MUTEX; th[me].waitOn = m; pick(0); return 0; }
  own(i, me); pick(1); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!schedOn) return __real_pthread_mutex_unlock(m);
  int i = mxi(m), w[64], k = 0, t, b; if (!mx[i].depth || mx[i].owner != me) violation("bad-unlock");
  mx[i].depth = 0;
  for (t = 0; t < nth; t++) if (th[t].st == T_MUTEX && th[t].waitOn == m) w[k++] = t;
  if (k) { b = w[0]; for (t = 0; t < k; t++) if (th[w[t]].order < th[b].order) b = w[t]; if (k > 1) b = w[next("mx")]; th[b].st = T_RUN; own(i, b); }
  pick(1); return 0; }
static int cwait(void *c, void *m, int timed) { int i = mxi(m), t;
  th[me].st = T_COND; th[me].waitOn = c; th[me].waitMx = m; th[me].timed = timed; mx[i].depth = 0;
  for (t = 0; t < nth; t++) if (th[t].st == T_MUTEX && th[t].waitOn == m) { th[t].st = T_RUN; own(i, t); break; }
  pick(0); return 0; }
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return schedOn ? cwait(c, m, 0) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return schedOn ? cwait(c, m, 1) : __real_pthread_cond_timedwait(c, m, t); }
static void csig(void *c, int all) { int t; for (t = 0; t < nth; t++) if (th[t].st == T_COND && th[t].waitOn == c) { int i = mxi(th[t].waitMx); if (mx[i].depth) { th[t].st = T_MUTEX; th[t].waitOn = th[t].waitMx; } else { th[t].st = T_RUN; own(i, t); } if (!all) break; } }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!schedOn) return __real_pthread_cond_signal(c); csig(c, 0); pick(1); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!schedOn) return __real_pthread_cond_broadcast(c); csig(c, 1); pick(1); return 0; }
static void threadDone(void) { int t; th[me].st = T_DEAD; for (t = 0; t < nth; t++) if (th[t].st == T_JOIN && th[t].waitOn == (void *)&th[me]) th[t].st = T_RUN; pick(0); }
static void *tramp(void *a) { me = (int)(long)a; waitTurn(); th[me].fn(th[me].arg); threadDone(); return NULL; }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg) { if (!schedOn) return __real_pthread_create(p, at, fn, arg);
  int t = nth++; th[t].st = T_RUN; th[t].fn = fn; th[t].arg = arg; th[t].order = orderCtr++; if (__real_pthread_create(&th[t].tid, at, tramp, (void *)(long)t)) abort(); *p = th[t].tid; pick(1); return 0; }
int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t); int __real_sched_yield(void);
int __wrap_pthread_join(pthread_t p, void **v) { if (!schedOn) return __real_pthread_join(p, v); int t; for (t = 1; t < nth && !pthread_equal(th[t].tid, p); t++) ; if (t >= nth) violation("bad-join"); if (th[t].st == T_DEAD) return 0; th[me].st = T_JOIN; th[me].waitOn = &th[t]; pick(0); return 0; }
int __wrap_pthread_detach(pthread_t p) { return schedOn ? 0 : __real_pthread_detach(p); }
int __wrap_sched_yield(void) { if (!schedOn) return __real_sched_yield(); pick(1); return 0; }
void __wrap_pthread_exit(void *v) { if (schedOn) { if (me == 0) { fprintf(stderr, "REPLAY: finished without violation\n"); fin(0); } threadDone(); } __real_pthread_exit(v); for (;;) ; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *m) { return 0; }
// interposed process exits
void __real__exit(int);
static void onExit(int st, const char *what) {
  if (armed && !(exitMode == 1 || (exitMode == 2 && st == 0))) { fprintf(stderr, "REPLAY-VIOLATION %s with status %d\n", what, st); armed = 0; fflush(stderr); __real__exit(8); }
}
__attribute__((weak)) void __wrap__exit(int st) { onExit(st, "_exit"); fflush(stderr); __real__exit(st); }
void __real_exit(int);
__attribute__((weak)) void __wrap_exit(int st) { onExit(st, "exit"); fflush(stderr); __real__exit(st); }
static void onAlarm(int s) { static const char m[] = "REPLAY-VIOLATION hang\n"; (void)!write(2, m, sizeof m - 1); __real__exit(9); }
int harness(void);
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  char line[400];
  if (f) { while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; if (sscanf(line, "%119s %d %llx", M[n].name, &M[n].w, &M[n].v) == 3) n++; } fclose(f); }
  armed = 1;
  signal(SIGALRM, onAlarm); alarm(argc > 2 ? atoi(argv[2]) : 20);
  harness();
  fprintf(stderr, "REPLAY: finished without violation\n"); fin(0);
}
