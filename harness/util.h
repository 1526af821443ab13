#pragma once
#include "vf.h"
#include <cstring>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
// n arbitrary non-NUL characters in a heap block that ends right after the
// terminator (so that any overrun is visible)
static inline char *vf_str(int n, const char *name) {
  char *s = (char *)malloc(n + 1);
  if (n) vf_sym(s, n, name);
  for (int i = 0; i < n; i++) vf_assume(s[i] != 0);
  s[n] = 0;
  return s;
}
static inline int vf_pick(const int *v, int n, const char *name) { return v[vf_choice(n, name)]; }
static inline bool vf_same(const char *a, const char *b, int n) { bool e = true; for (int i = 0; i < n; i++) e &= (a[i] == b[i]); return e; }
static inline bool vf_is(const std::string &s, const char *b, int n) { if ((int)s.size() != n) return false; return vf_same(s.data(), b, n); }
#ifdef VF_THOROUGH
#define VF_T(q, t) (t)
#else
#define VF_T(q, t) (q)
#endif
