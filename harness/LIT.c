// Literals and lexical structure: the text of a literal denotes its value.
#include "hx.h"
#ifndef LEN
#define LEN 4
#endif
static char txt[40];
static int digitv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static void pick(int n, const char *set) { int i, m = strlen(set); for (i = 0; i < n; i++) txt[i] = set[sym_choice("ch", m)]; txt[n] = 0; }
int harness(void) {
  char src[900]; int i, n;
  hx_init();
#if MODE == 0      // numbers: decimal, fraction, hexadecimal, octal, binary
  n = 1 + sym_choice("len", LEN);
  pick(n, "0179.xcbfA");
  double want = 0; int ok = 1, base = 10;
  if (n >= 2 && txt[0] == '0' && (txt[1] == 'x' || txt[1] == 'c' || txt[1] == 'b')) {
    base = txt[1] == 'x' ? 16 : txt[1] == 'c' ? 8 : 2; ok = n > 2;
    for (i = 2; i < n; i++) { int d = digitv(txt[i]); if (d >= base) ok = 0; want = want * base + d; }
  } else {
    double sc = 1; int frac = 0;
    for (i = 0; i < n; i++) {
      if (txt[i] == '.') { if (frac || i == 0 || i == n - 1) ok = 0; frac = 1; continue; }
      int d = digitv(txt[i]); if (d > 9) ok = 0;
      want = want * 10 + d; if (frac) sc *= 10;
    }
    want = want / sc;
  }
  sym_assume(ok);
  const char *form = sym_choice("negated", 2) ? "-" : "";
  snprintf(src, sizeof src, "var v = %s%s; var w = [%s, %s][1]; var u = %s+1; var done = true;", form, txt, txt, txt, txt);
  sym_note(src);
  sym_check(hx_run(src), "program with number literals compiles and runs");
  sym_check(IS_NUMBER(hx_glob("v")) && AS_NUMBER(hx_glob("v")) == (*form ? -want : want), "value of a number literal");
  sym_check(IS_NUMBER(hx_glob("w")) && AS_NUMBER(hx_glob("w")) == want, "value of a number literal in an array literal");
  sym_check(IS_NUMBER(hx_glob("u")) && AS_NUMBER(hx_glob("u")) == want + 1, "value of a number literal in an expression");
  sym_cover(base == 16 ? "hexadecimal" : base == 8 ? "octal" : base == 2 ? "binary" : "decimal");
#elif MODE == 1    // string literals with escapes
  n = sym_choice("len", LEN + 1);
  pick(n, "a\\nt\"'r\n");
  int q = sym_choice("quote", 3); char qc = q == 0 ? '"' : '\'';
  char want[40]; int m = 0, ok = 1;
  for (i = 0; i < n; i++) {
    if (txt[i] == '\\' && i == n - 1) ok = 0;
    if (txt[i] == '\\' && i + 1 < n && txt[i + 1] == qc) { want[m++] = qc; i++; }
    else if (txt[i] == '\\' && !q && i + 1 < n && (txt[i + 1] == 'n' || txt[i + 1] == 't' || txt[i + 1] == 'r')) { want[m++] = txt[i + 1] == 'n' ? '\n' : txt[i + 1] == 't' ? '\t' : '\r'; i++; }
    else if (txt[i] == qc) ok = 0;
    else want[m++] = txt[i];
  }
  want[m] = 0;
  sym_assume(ok);
  snprintf(src, sizeof src, "var v = %s%c%s%c; var w = [%s%c%s%c, 1]; var l = v.size; var done = true;", q == 2 ? "s" : "", qc, txt, qc, q == 2 ? "s" : "", qc, txt, qc);
  sym_note(src);
  sym_check(hx_run(src), "program with string literals compiles and runs");
  sym_check(hx_is_str(hx_glob("v"), want, m), "value of a string literal");
  sym_check(IS_ARRAY(hx_glob("w")) && hx_is_str(arrayGet(hx_glob("w"), 0), want, m), "value of a string literal in an array literal");
  sym_cover(q == 0 ? "double quoted" : q == 1 ? "single quoted" : "static");
#elif MODE == 2    // interpolation
  static const char *P[] = { "x", "$", "{", "}", "${g}", "${1 + g}", "${s}", "${", "\\n", "${[g].size}" };
  char body[100] = ""; n = sym_choice("pieces", LEN + 1);
  for (i = 0; i < n; i++) strcat(body, P[sym_choice("piece", 10)]);
  int64_t g = sym_concrete(sym_int("g", -1, 2)); hx_set("g", NUMBER_VAL((double)g));
  char want[200]; int m = 0; const char *p = body; int ok = 1;
  while (*p) {
    if (p[0] == '$' && p[1] == '{') {
      const char *e = strchr(p, '}');
      if (e) {
        char ex[60]; int l = e - p - 2; memcpy(ex, p + 2, l); ex[l] = 0;
        if (!strcmp(ex, "g")) m += snprintf(want + m, sizeof want - m, "%d", (int)g);
        else if (!strcmp(ex, "1 + g")) m += snprintf(want + m, sizeof want - m, "%d", (int)g + 1);
        else if (!strcmp(ex, "s")) m += snprintf(want + m, sizeof want - m, "S");
        else if (!strcmp(ex, "[g].size")) m += snprintf(want + m, sizeof want - m, "1");
        else { ok = 0; break; }
        p = e + 1; continue;
      }
    }
    if (p[0] == '\\') { want[m++] = '\n'; p += 2; continue; }
    want[m++] = *p++;
  }
  want[m] = 0;
  sym_assume(ok);
  snprintf(src, sizeof src, "var s = \"S\"; fun f(s) { var a = \"%s\"; return [a, s]; } var v = f(\"S\"); var done = true;", body);
  sym_note(src);
  sym_check(hx_run(src), "program with interpolation compiles and runs");
  Value v = hx_glob("v");
  sym_check(IS_ARRAY(v) && hx_is_str(arrayGet(v, 0), want, m), "value of an interpolated string");
  sym_check(hx_is_str(arrayGet(v, 1), "S", 1), "interpolation leaves its operands alone");
  sym_cover("interpolated");
#elif MODE == 3    // white space, comments, line numbers, keywords as prefixes of names
  static const char *F[] = { " ", "\n", "/* var v = 9; */", "// v = 9;\n", "/**/", "\t\r\n", " /* \n * / */ ", "/* // */" };
  static const char *T[] = { "var", "\1", "v", "", "=", "", "1", "", "+", "", "g", "", ";", "" };
  int line = 1; n = 0; src[0] = 0;
  hx_set("g", NUMBER_VAL(5));
  int at = sym_choice("at", 6), f1 = sym_choice("filler", 8), f2 = sym_choice("filler2", 8);
  for (i = 0; i < 7; i++) {
    strcat(src, T[2 * i]);
    const char *f = i == at ? F[f1] : i == at + 1 ? F[f2] : T[2 * i + 1][0] ? " " : "";
    strcat(src, f); for (const char *c = f; *c; c++) line += *c == '\n';
  }
  int l0 = line;
  strcat(src, "var l = __LINE__; var orx = 3; var inn = 4; var iffy = orx and inn; var _v1 = 6; var nilly = nil or 7; var done = true;");
  sym_note(src);
  sym_check(hx_run(src), "program with comments compiles and runs");
  sym_check(IS_NUMBER(hx_glob("v")) && AS_NUMBER(hx_glob("v")) == 6, "white space and comments do not change the program");
  sym_check(AS_NUMBER(hx_glob("l")) == l0, "line numbers count every line");
  sym_check(AS_NUMBER(hx_glob("iffy")) == 4 && AS_NUMBER(hx_glob("_v1")) == 6 && AS_NUMBER(hx_glob("nilly")) == 7, "names may start with keywords");
  sym_cover("comments");
#elif MODE == 4    // heredocs
  n = sym_choice("len", LEN + 1);
  pick(n, "aE\n \\n");
  int pat = sym_choice("pattern", 2); const char *pt = pat ? "EE" : "E";
  // the text ends at the first line starting with the pattern
  char body[80]; snprintf(body, sizeof body, "%s\n%s", txt, pt);
  int end = -1, st = 0; 
  for (i = 0; body[i]; i++) { if ((i == 0 || body[i - 1] == '\n') && !strncmp(body + i, pt, strlen(pt))) { end = i; break; } }
  sym_assume(end == (int)strlen(txt) + 1);
  char want[80]; int m = 0;
  for (i = 0; i < end; i++) { if (body[i] == '\\' && body[i + 1] == 'n' && i + 1 < end) { want[m++] = '\n'; i++; } else want[m++] = body[i]; }
  want[m] = 0;
  snprintf(src, sizeof src, "var v = <<<%s\n%s; var k = 3; var done = true;", pt, body);
  sym_note(src);
  sym_check(hx_run(src), "program with a heredoc compiles and runs");
  sym_check(hx_is_str(hx_glob("v"), want, m), "value of a heredoc");
  sym_cover("heredoc");
#endif
  sym_check(hx_glob("done") == TRUE_VAL, "last statement reached");
  sym_done();
}
