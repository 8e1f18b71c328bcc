// Plain C models of libc functions, executed symbolically when their
// operands are symbolic (otherwise the executor runs the native function).
#include <stddef.h>
int m_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int m_strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int m_strcasecmp(const char *a, const char *b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int m_memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return (int)*a - (int)*b; return 0; }
char *m_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *m_strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *m_memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *m_strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char *)h; } return 0; }
int m_atoi(const char *s) { int neg = 0; unsigned v = 0; while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return (int)(neg ? 0u - v : v); }
// stable insertion sort: one of the orders qsort may legally produce
void m_qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *p = b;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
