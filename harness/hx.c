#include "hx.h"
static int inited;
// instructions until the VM lets another thread run; harnesses with threads have their own
int __attribute__((weak)) verifOpsUntilSwitch(void) { return 10000; }
static char *rd(Value v, char *buf, int n) { const char *s = VAL_TO_STRING(v)->chars; int i = 0; for (; s[i] && i < n - 1; i++) buf[i] = s[i]; buf[i] = 0; return buf; }
// hxInt(name, lo, hi), hxDouble(name), hxChoice(name, n), hxCheck(cond, label), hxCover(label), hxAssume(cond), hxFail(label)
static Value nInt(int c, Value *a) { char b[100]; return NUMBER_VAL((double)sym_int(rd(a[0], b, 100), (int64_t)AS_NUMBER(a[1]), (int64_t)AS_NUMBER(a[2]))); }
static Value nDouble(int c, Value *a) { char b[100]; return NUMBER_VAL(sym_double(rd(a[0], b, 100))); }
static Value nChoice(int c, Value *a) { char b[100]; return NUMBER_VAL((double)sym_choice(rd(a[0], b, 100), (int)AS_NUMBER(a[1]))); }
static Value nBool(int c, Value *a) { char b[100]; return sym_choice(rd(a[0], b, 100), 2) ? TRUE_VAL : FALSE_VAL; }
static Value nCheck(int c, Value *a) { char b[100]; sym_check(isTruthy(a[0]), rd(a[1], b, 100)); return NIL_VAL; }
static Value nCover(int c, Value *a) { char b[100]; sym_cover(rd(a[0], b, 100)); return NIL_VAL; }
static Value nAssume(int c, Value *a) { sym_assume(isTruthy(a[0])); return NIL_VAL; }
// hxEq(a, b, label): numbers compared by value without forking; everything else by identity of the representation
static Value nEq(int c, Value *a) { char b[100]; rd(a[2], b, 100);
  if (IS_NUMBER(a[0]) && IS_NUMBER(a[1])) sym_check(AS_NUMBER(a[0]) == AS_NUMBER(a[1]), b);
  else if (IS_STRING(a[0]) && IS_STRING(a[1])) { const char *x = AS_STRING(a[0])->chars, *y = AS_STRING(a[1])->chars; int ok = strcmp(x, y) == 0; if (!ok) { char m[300]; snprintf(m, sizeof m, "got '%.120s' want '%.120s'", x, y); sym_note(m); } sym_check(ok, b); }
  else sym_check(a[0] == a[1], b);
  return NIL_VAL; }
static Value nNote(int c, Value *a) { char b[200]; sym_note(rd(a[0], b, 200)); return NIL_VAL; }
// hxStr(name, n, set): a string of n symbolic characters; set 0: any byte but NUL, 1: printable ASCII, 2: a..d
static Value nStr(int c, Value *a) { char b[100], t[64]; rd(a[0], b, 100); int n = (int)AS_NUMBER(a[1]), k = c > 2 ? (int)AS_NUMBER(a[2]) : 0, i;
  for (i = 0; i < n; i++) t[i] = (char)(k == 0 ? sym_int(b, 1, 255) : k == 1 ? sym_int(b, 32, 126) : sym_int(b, 'a', 'd'));
  return OBJ_VAL(copyString(t, n, NEWOBJ_FLAG_NONE)); }
static Value nErr(int c, Value *a) { const char *s = hx_errName(a[0]); return OBJ_VAL(copyString((char *)s, strlen(s), NEWOBJ_FLAG_NONE)); }
static Value nSame(int c, Value *a) { return a[0] == a[1] ? TRUE_VAL : FALSE_VAL; }
static Value nGC(int c, Value *a) { if (c > 0 && IS_NUMBER(a[0]) && AS_NUMBER(a[0]) == 1) collectYoungGarbage(); else collectGarbage(); return NIL_VAL; }
static Value nStack(int c, Value *a) { return NUMBER_VAL((double)(vm.curThread->ec->stackTop - vm.curThread->ec->stack)); }
static Value nFrames(int c, Value *a) { return NUMBER_VAL((double)vm.curThread->ec->frameCount); }
void hx_init(void) {
  if (inited) return; inited = 1;
  static char *argv[] = { "clox", NULL };
  initOptions(1, argv);
  initVM();
  addGlobalFunction("hxInt", nInt); addGlobalFunction("hxDouble", nDouble); addGlobalFunction("hxChoice", nChoice); addGlobalFunction("hxBool", nBool);
  addGlobalFunction("hxCheck", nCheck); addGlobalFunction("hxCover", nCover); addGlobalFunction("hxAssume", nAssume); addGlobalFunction("hxEq", nEq); addGlobalFunction("hxNote", nNote);
  addGlobalFunction("hxStr", nStr); addGlobalFunction("hxErr", nErr); addGlobalFunction("hxSame", nSame); addGlobalFunction("hxGC", nGC); addGlobalFunction("hxStack", nStack); addGlobalFunction("hxFrames", nFrames);
}
ObjFunction *hx_compile(const char *src) {
  CompileErr err = COMPILE_ERR_NONE;
  ObjFunction *f = compile_src((char *)src, &err);
  return err == COMPILE_ERR_NONE ? f : NULL;
}
int hx_run(const char *src) {
  ObjFunction *f = hx_compile(src);
  if (!f) return 0;
  vm.exited = false; THREAD()->hadError = false; resetStack();
  InterpretResult r = interpret(f, "harness");
  resetStack();
  return r == INTERPRET_OK;
}
Value hx_str(const char *s, int n) { return OBJ_VAL(copyString((char *)s, n, NEWOBJ_FLAG_NONE)); }
Value hx_glob(const char *name) { Value v = NIL_VAL; tableGet(&vm.globals, OBJ_VAL(INTERN(name)), &v); return v; }
int hx_is_str(Value v, const char *s, int n) {
  if (!IS_STRING(v)) return 0;
  ObjString *o = AS_STRING(v); int i, ok = (int)o->length == n;
  if (!ok) return 0;
  for (i = 0; i < n && o->chars[i]; i++) ok &= o->chars[i] == s[i];
  return ok & (i == n) & (o->chars[n] == 0);
}
int hx_errIs(Value err, const char *cls) { return IS_INSTANCE(err) && AS_INSTANCE(err)->klass && strcmp(className(AS_INSTANCE(err)->klass), cls) == 0; }

void hx_set(const char *name, Value v) { tableSet(&vm.globals, OBJ_VAL(INTERN(name)), v); }
const char *hx_errName(Value err) { return IS_INSTANCE(err) && AS_INSTANCE(err)->klass ? className(AS_INSTANCE(err)->klass) : ""; }
