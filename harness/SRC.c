// Any source text is compiled or rejected with an error: no crash, no access out of bounds, no hang.
#include "hx.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef LEN
#define LEN 3
#endif
#define N(a) (int)(sizeof a / sizeof *a)
static const char *ctx[][2] = { { "", "" }, { "fun f(a, b) { ", " }" }, { "class A < B { ", " }" }, { "x = ", ";" }, { "f(", ");" }, { "f() -> (x) { ", " };" }, { "while (true) { ", " }" }, { "try { ", " } catch (E e) { }" }, { "class A { m() { ", " } }" }, { "\"a${", "}\";" }, { "if (", ") {}" }, { "a[", "];" }, { "var z = \"", "\";" }, { "fun f(", ") {}" }, { "foreach (", " in x) {}" } };
#ifndef CTXSET
#define CTXSET {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}
#endif
static const int ctxs[] = CTXSET;
static const char *tok[] = { "a", "1", ";", "(", ")", "{", "}", "[", "]", ",", ".", "=", "-", "->", "!", "|", "*", "&", "\"s\"", "%{", ":", "..", "var", "fun", "class", "return", "if", "else", "for", "break", "this", "super", "try", "catch", "B", "print", "throw", "nil",
 "yield", "in", "foreach", "while", "continue", "and", "or", "<", "==", "+=", "module", "__LINE__", "__FUNC__", "__ARGS__", "ensure", "foreach", "forever", "autoload", "self", "s'x'", "%\"re\"", "<<", "<<<E\nE", "'", "\"", "#", "/*", "//", "static", "=>", "import", "0x", "getter", "?", "\\", "`", "$", "@", "_", "%", "/", "^", "~", "nil", "true", "case", "switch" };
#if MODE == 2      // phrases: deeper programs
#define tok phr
static const char *phr[] = { "a", "super.x", "super(1)", "a.b", "= 1;", "+= 1;", "= a;", "break;", "continue;", "return 1;", "return;", "var v;", "var v, w = [1, 2];", "fun g() {", "class C {", "}", "};", "-> (x) {", "a[0]", ".m()", "(1, *a)", "(&b)", "(k: 1)", "try {", "catch (E e) {", "ensure {", "if (a) {", "else {", "while (a) {", "foreach (k, v in a) {", "throw a;", "static", "getter {", "setter = (v) {", "module M {", "in (a) {", "yield(1);", "fun (z, y = 1, *r) {", "k: 1,", "B::C", "A", "::", "case (a) {", "print", "and", "!", "[1, 2];", "%{\"a\": 1};", "init(x) {", "m(&blk) {" };
#endif
#ifndef NTOK
#define NTOK N(tok)
#endif
int harness(void) {
  char src[400]; int i, n = 0; hx_init();
  int c = ctxs[sym_choice("context", N(ctxs))];
  n += snprintf(src, sizeof src, "%s", ctx[c][0]);
#if MODE == 0
  int len = 1 + sym_choice("len", LEN);
  for (i = 0; i < len; i++) { int x = (int)sym_int("c", 1, 131); sym_assume((x < '0') | (x == '0') | (x == '1') | ((x > '9') & (x < 'A')) | (x == 'E') | ((x > 'Z') & (x < 'd')) | (x == 'x') | (x == 's') | ((x > 'z') & (x < 131))); src[n++] = (char)x; }
  src[n] = 0;
#else
  for (i = 0; i < LEN; i++) n += snprintf(src + n, sizeof src - n, "%s ", tok[sym_choice("token", NTOK)]);
#endif
  n += snprintf(src + n, sizeof src - n, "%s", ctx[c][1]);
#if MODE > 0
  sym_note(src);
#endif
  sym_inst_limit(20000000, 1);
  char *exact = malloc(n + 1); memcpy(exact, src, n + 1);     // reading past the end is an error
  sym_cover(hx_compile(exact) ? "compiled" : "rejected");
  sym_check(1, "the compiler returns");
#ifdef SECOND    // and it still works afterwards
  sym_check(hx_compile("fun f(a) { return a; } var r = f(1);") != NULL, "the compiler still works");
#endif
  sym_done();
}
