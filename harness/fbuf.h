// building input files: text with symbolic fields at fixed columns
#pragma once
#include "util.h"
struct FBuf {
  char *b; size_t n, cap;
  explicit FBuf(size_t c) : b((char *)malloc(c)), n(0), cap(c) {}
  // one line: text padded with blanks to width w (0: no padding)
  char *line(const char *t, int w = 0) {
    char *p = b + n; int i = 0;
    for (; t[i]; i++) b[n++] = t[i];
    for (; i < w; i++) b[n++] = ' ';
    b[n++] = '\n';
    return p;
  }
  void raw(const char *t) { while (*t) b[n++] = *t++; }
  const char *install(const char *name) { return vf_file(name, b, n); }
};
static inline void put(char *p, const char *t) { while (*t) *p++ = *t++; }
// n decimal digits (leading zeros allowed), any value
static inline int digs(char *p, int n, const char *name) {
  unsigned long v = 0;
  vf_sym(p, n, name);
  for (int i = 0; i < n; i++) { vf_assume((p[i] >= '0') & (p[i] <= '9')); v = v * 10 + (unsigned long)(p[i] & 15); }
  return (int)v;
}
// characters that may stand in a text field
static inline void text(char *p, int n, const char *name) {
  vf_sym(p, n, name);
  for (int i = 0; i < n; i++) vf_assume((p[i] >= ' ') & (p[i] <= '~'));
}
