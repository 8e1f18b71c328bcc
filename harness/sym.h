// Interface between harnesses and the symbolic executor (and, natively, the
// counterexample replayer in replay.c).
#pragma once
#include <stdint.h>
#include <stddef.h>
int     sym_native(void);                                  // 1 when replaying natively
int64_t sym_int(const char *name, int64_t lo, int64_t hi); // any integer in [lo,hi]
uint64_t sym_bits(const char *name, int w);
double  sym_double(const char *name);                      // any double that is a Lox number
int     sym_choice(const char *name, int n);               // 0..n-1, one path per value
void    sym_bytes(void *p, size_t n, const char *name);
int64_t sym_concrete(int64_t v);
int     sym_is_symbolic(int64_t v);
void    sym_assume(int cond);
void    sym_check(int cond, const char *label);
void    sym_cover(const char *label);
void    sym_known(int cond, const char *finding);          // region of a recorded finding
void    sym_unknown(void);
void    sym_note(const char *text);
void    sym_expect_exit(int mode);                         // 1: exits are fine, 2: exit(0) is fine
void    sym_done(void) __attribute__((noreturn));
void    sym_sched(int preemptions);
uint64_t sym_heap_live(void);
uint64_t sym_malloc_count(void);
void    sym_out_reset(void);
uint64_t sym_out_len(void);
char   *sym_out(void);
void    sym_inst_limit(uint64_t n, int isViolation);
void    sym_poison(void *p, size_t n);
void    sym_unpoison(void *p, size_t n);
void    sym_debug(const char *s, int64_t v);
