// Scripts loading scripts: a virtual directory tree, against a reference of what is loaded when.
#include "hx.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
#ifndef ABODIES
#define ABODIES {0,1,2,3,4,5,6,7}
#endif
#ifndef CTXS
#define CTXS 2
#endif
static const int abodies[] = ABODIES;
static const char *path[] = { "/v0/a.lox", "/v1/a.lox", "/v0/b.lox", "/v1/b.lox", "/v0/a" };
#define NP 5
static int exists[NP], body[NP], unread = -1;
static char text[NP][500];
static int fds[16], off[16], nopen, nopened, nclosed, bad;
static int which(const char *p) { for (int i = 0; i < NP; i++) if (exists[i] && !strcmp(p, path[i])) return i; return -1; }
int __real_stat(const char *, struct stat *); int __real_open(const char *, int, ...); int __real_fstat(int, struct stat *); ssize_t __real_read(int, void *, size_t); int __real_close(int);
int __wrap_stat(const char *p, struct stat *s) { if (p[0] != '/' || p[1] != 'v' || p[2] > '9') return __real_stat(p, s); int i = which(p); if (i < 0) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG; s->st_size = (long)strlen(text[i]); return 0; }
int __wrap_open(const char *p, int fl, ...) { int i = which(p); if (p[0] != '/' || p[1] != 'v') return __real_open(p, fl, 0); if (i < 0) { errno = ENOENT; return -1; } if (i == unread) { errno = EACCES; return -1; } int f; for (f = 0; f < 16 && fds[f]; f++) ; if (f == 16) { bad = 1; return -1; } fds[f] = i + 1; off[f] = 0; nopened++; return 500 + f; }
int __wrap_fstat(int fd, struct stat *s) { if (fd < 500) return __real_fstat(fd, s); memset(s, 0, sizeof *s); s->st_mode = S_IFREG; s->st_size = (long)strlen(text[fds[fd - 500] - 1]); return 0; }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd < 500) return __real_read(fd, b, n); const char *t = text[fds[fd - 500] - 1] + off[fd - 500]; size_t l = strlen(t); if (n > l) n = l; memcpy(b, t, n); off[fd - 500] += (int)n; return (ssize_t)n; }
int __wrap_close(int fd) { if (fd < 500) return __real_close(fd); fds[fd - 500] = 0; nclosed++; return 0; }
static char src[6000]; static int sl;
static void P(const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); sl += vsnprintf(src + sl, sizeof src - sl, f, ap); __builtin_va_end(ap); }
static Value logv[300]; static int nlog; static double wantv[300]; static int nwant;
static Value nLog(int c, Value *a) { if (nlog < 300) logv[nlog++] = a[0]; return NIL_VAL; }
static void want(double v) { if (nwant < 300) wantv[nwant++] = v; }
// number of the path, or -7
static Value nPath(int c, Value *a) { if (IS_STRING(a[0])) for (int i = 0; i < NP; i++) if (hx_is_str(a[0], path[i], (int)strlen(path[i]))) return NUMBER_VAL(i); return NUMBER_VAL(-7); }
// the reference
enum { OK, FALSE_, ERR, LOADERR, SYNERR };
static int loaded[NP], threw[NP], cnt[NP], kx; static int64_t p;
static const char *names[] = { "a", "b", "a.lox", "/v1/a.lox", "nope", "b.lox" };
static int resolve(int nm) {
  int i;
  switch (nm) {
  case 0: if (exists[4]) return 4; return exists[0] ? 0 : exists[1] ? 1 : -1;
  case 1: case 5: return exists[2] ? 2 : exists[3] ? 3 : -1;
  case 2: return exists[0] ? 0 : exists[1] ? 1 : -1;
  case 3: return exists[1] ? 1 : -1;
  default: return -1;
  }
}
static int exec(int i);
static int load(int nm, int req) {
  int i = resolve(nm), s;
  if (i < 0) return LOADERR;
  if (req && threw[i]) sym_assume(0);      // whether a script that failed counts as loaded is not specified
  if (req && loaded[i]) return FALSE_;
  if (i == unread) return LOADERR;
  if (body[i] == 4) return SYNERR;
  if (req) loaded[i] = 1;
  s = exec(i);
  if (s != OK && req) threw[i] = 1;
  return s;
}
static void wantRes(int s) { want(s == OK ? 1 : s == FALSE_ ? 0 : -s); }
static int exec(int i) {
  int s = OK, b = body[i];
  cnt[i]++; want(i * 10 + 100); want(i); want(cnt[i]);
  if (cnt[i] == p) switch (b) {
    case 1: s = load(1, 1); if (s <= FALSE_) wantRes(s); break;
    case 2: s = load(1, 0); if (s <= FALSE_) wantRes(s); break;
    case 3: return ERR;
    case 5: return OK;
    case 7: s = load(1, 1); wantRes(s); s = OK; break;
    case 8: s = load(0, 1); if (s <= FALSE_) wantRes(s); break;
    case 9: s = load(2, 0); if (s <= FALSE_) wantRes(s); break;
  }
  if (b == 6) kx = cnt[i];
  if (s > FALSE_) return s;
  want(i * 10 + 101); want(i);
  return OK;
}
static const char *TRY = "try { %s } catch (LoadError e) { log(-3); } catch (SyntaxError e) { log(-4); } catch (Error e) { log(-2); } ";
static void gentext(int i) {
  char *t = text[i]; int n = 0; size_t z = sizeof text[i]; char tr[200];
  if (body[i] == 4) { snprintf(t, z, "log(55); var q = (1 + ; "); return; }
  n += snprintf(t + n, z - n, "log(%d); log(path(__FILE__)); c%d = c%d + 1; log(c%d); if (c%d == p) { var loc = 5; ", i * 10 + 100, i, i, i, i);
  switch (body[i]) {
  case 1: n += snprintf(t + n, z - n, "log(b(requireScript(\"b\"))); "); break;
  case 2: n += snprintf(t + n, z - n, "log(b(loadScript(\"b\"))); "); break;
  case 3: n += snprintf(t + n, z - n, "throw Error(\"t\"); "); break;
  case 5: n += snprintf(t + n, z - n, "return; "); break;
  case 7: snprintf(tr, sizeof tr, TRY, "log(b(requireScript(\"b\"))); "); n += snprintf(t + n, z - n, "%s", tr); break;
  case 8: n += snprintf(t + n, z - n, "log(b(requireScript(\"a\"))); "); break;
  case 9: n += snprintf(t + n, z - n, "log(b(loadScript(\"a.lox\"))); "); break;
  }
  n += snprintf(t + n, z - n, "} ");
  if (body[i] == 6) n += snprintf(t + n, z - n, "class Kx { } Kx.v = c%d; ", i);
  snprintf(t + n, z - n, "log(%d); log(path(__FILE__)); ", i * 10 + 101);
}
int harness(void) {
  static const int cfg[][NP] = { { 1, 1, 1, 0, 0 }, { 0, 1, 1, 1, 0 }, { 1, 0, 0, 1, 1 }, { 1, 0, 0, 0, 0 } };
  static const int bb[] = { 0, 3, 4, 8, 9 };
  int i, j, s; hx_init(); addGlobalFunction("log", nLog); addGlobalFunction("path", nPath);
  p = sym_int("p", 1, 3); hx_set("p", NUMBER_VAL((double)p));
  int c = sym_choice("files", 4), ba = abodies[sym_choice("a", sizeof abodies / sizeof *abodies)], b = bb[sym_choice("b", 5)];
  for (i = 0; i < NP; i++) { exists[i] = cfg[c][i]; body[i] = i == 2 || i == 3 ? b : ba; }
  if (c == 3) unread = (int)sym_choice("unreadable", 2) - 1;
  if (c == 3 && b) sym_assume(0);
  for (i = 0; i < NP; i++) gentext(i);
  for (i = 0; i < NP; i++) { char t[4] = { 'c', '0' + i, 0 }; hx_set(t, NUMBER_VAL(0)); }
  P("fun b(x) { if (x == true) { return 1; } if (x == false) { return 0; } return -9; } loadPath.clear(); loadPath.push(\"/v0\"); loadPath.push(\"/v1/\"); ");
  int ctx = sym_choice("context", CTXS);
  P("fun main() { var l1 = 11; var t = fun() { l1 += 1; return l1; }; ");
  if (ctx == 1) P("[0].each() -> (x) { var l2 = 5; ");
  int want11 = 11;
  for (j = 0; j < 2; j++) {
    int op = sym_choice("op", 8); char st[200]; 
    if (op == 7) { snprintf(st, sizeof st, "autoload(\"Kx\", \"a\"); log(Kx.v); "); if (!kx) { s = load(0, 1); if (s > FALSE_) wantRes(s); else if (kx) want(kx); else want(-2); } else want(kx); }
    else {
      static const int nm[] = { 0, 0, 1, 2, 3, 4, 5 }, rq[] = { 1, 0, 1, 1, 1, 0, 1 };
      const char *f = rq[op] ? "requireScript" : "loadScript";
      snprintf(st, sizeof st, ctx ? "log(b(%s(\"%s\"))); " : "log(1000 + b(%s(\"%s\"))); ", f, names[nm[op]]);
      s = load(nm[op], rq[op]); if (s <= FALSE_ && !ctx) want(1000 + (s == OK)); else wantRes(s);
    }
    P(TRY, st); P("log(l1); log(t()); "); want(want11); want(++want11);
    if (ctx == 1) { P("log(l2); "); want(5); }
  }
  if (ctx == 1) P("}; ");
  P("log(l1); return 12; } var out = main(); log(path(__FILE__)); var done = true;"); want(want11); want(-7);
  sym_note(src); for (i = 0; i < NP; i++) if (exists[i]) sym_note(text[i]);
  sym_inst_limit(20000000, 1);
  sym_check(hx_run(src), "the program runs to its end");
  if (nlog != nwant) { char t[200]; int k = 0; for (i = 0; i < nlog; i++) k += snprintf(t + k, sizeof t - k, "%d ", IS_NUMBER(logv[i]) ? (int)AS_NUMBER(logv[i]) : -9); sym_note(t); }
  sym_check(nlog == nwant, "scripts ran as often as they had to");
  for (i = 0; i < nlog && i < nwant; i++) sym_check(IS_NUMBER(logv[i]) && AS_NUMBER(logv[i]) == wantv[i], "loading gives what is prescribed, in the prescribed order");
  sym_check(hx_glob("done") == TRUE_VAL && IS_NUMBER(hx_glob("out")) && AS_NUMBER(hx_glob("out")) == 12, "the caller goes on");
  sym_check(nopened == nclosed && !bad, "files that were opened are closed");
  sym_cover("loaded");
  sym_done();
}
