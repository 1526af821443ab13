// C09: text field trimming; C10: fixed-width numeric fields
#include "util.h"
#include "nvarstr.hpp"
#include <cerrno>
using namespace ngpt;
using namespace ngpt::str_algorithm_details;
static const int N9 = VF_T(9, 14);
struct In { int n; char *s; std::size_t stop; int len; };
static In input() {
  In i; i.n = vf_choice(N9, "n"); i.s = vf_str(i.n, "s");
  int k = vf_choice(N9 + 2, "stop");
  i.stop = k == N9 + 1 ? (std::size_t)-1 : (std::size_t)k;
  i.len = k == N9 + 1 || k > i.n ? i.n : k;
  return i;
}
H(c09_rtrim_end) {
  In i = input(); std::size_t pos = 777;
  std::string r = i.stop == (std::size_t)-1 ? rtrim<StrSearchPolicyEnd>(i.s, pos) : rtrim<StrSearchPolicyEnd>(i.s, pos, i.stop);
  int e = i.len; while (e > 0 && i.s[e - 1] == ' ') e--;
  vf_assert((int)pos == e, "rtrim-end-position"); vf_assert(vf_is(r, i.s, e), "rtrim-end-text"); vf_reach("done");
}
H(c09_rtrim_start) {
  In i = input(); std::size_t pos = 777;
  std::string r = vf_choice(2, "dflt") ? rtrim(i.s, pos, i.stop) : rtrim<StrSearchPolicyStart>(i.s, pos, i.stop);
  int e = 0; while (e < i.len && i.s[e] != ' ') e++;
  vf_assert((int)pos == e, "rtrim-start-position"); vf_assert(vf_is(r, i.s, e), "rtrim-start-text"); vf_reach("done");
}
H(c09_ltrim) {
  In i = input(); std::size_t pos = 777;
  std::string r = i.stop == (std::size_t)-1 ? ltrim(i.s, pos) : ltrim(i.s, pos, i.stop);
  int b = 0; while (b < i.len && i.s[b] == ' ') b++;
  vf_assert((int)pos == b, "ltrim-position"); vf_assert(vf_is(r, i.s + b, i.len - b), "ltrim-text"); vf_reach("done");
}
H(c09_is_empty) {
  In i = input();
  bool e = true; for (int k = 0; k < i.len; k++) e &= i.s[k] == ' ';
  vf_assert((i.stop == (std::size_t)-1 ? string_is_empty(i.s) : string_is_empty(i.s, i.stop)) == e, "string-is-empty"); vf_reach("done");
}
// long strings: the text begins and ends anywhere, two of its characters arbitrary
H(c09_long) {
  static const int ns[] = {16, 21, 60, 81, 257}, bs[] = {0, 1, 15, 20}, es[] = {0, 1, 17, 40};
  int n = ns[vf_choice(5, "n")], b = bs[vf_choice(4, "leading")], t = es[vf_choice(4, "trailing")];
  if (b + t > n) t = n - b < 0 ? 0 : n - b;
  if (b > n) b = n;
  char *s = (char *)malloc(n + 1);
  for (int i = 0; i < n; i++) s[i] = i < b || i >= n - t ? ' ' : i % 5 == 3 ? ' ' : 'a' + i % 26;
  s[n] = 0;
  vf_sym(s + (b < n ? b : 0), 1, "first"); vf_assume(s[b < n ? b : 0] != 0);
  vf_sym(s + (n - t > 0 ? n - t - 1 : 0), 1, "last"); vf_assume(s[n - t > 0 ? n - t - 1 : 0] != 0);
  int k = vf_choice(3, "stop");
  std::size_t stop = k == 0 ? (std::size_t)-1 : k == 1 ? (std::size_t)n : (std::size_t)(n - n / 3);
  int len = k == 2 ? n - n / 3 : n;
  std::size_t pos = 777;
  int e = len; while (e > 0 && s[e - 1] == ' ') e--;
  std::string r = rtrim<StrSearchPolicyEnd>(s, pos, stop);
  vf_assert((int)pos == e, "rtrim-end-position"); vf_assert(vf_is(r, s, e), "rtrim-end-text");
  int f = 0; while (f < len && s[f] != ' ') f++;
  pos = 777; r = rtrim<StrSearchPolicyStart>(s, pos, stop);
  vf_assert((int)pos == f, "rtrim-start-position"); vf_assert(vf_is(r, s, f), "rtrim-start-text");
  f = 0; while (f < len && s[f] == ' ') f++;
  pos = 777; r = ltrim(s, pos, stop);
  vf_assert((int)pos == f, "ltrim-position"); vf_assert(vf_is(r, s + f, len - f), "ltrim-text");
  vf_assert(string_is_empty(s, stop) == (e == 0), "string-is-empty");
  vf_reach("done");
}
// --------------------------------------------------------------------- C10
static double dec(uint64_t N, int e) { // N*10^e rounded once
  static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  if (e >= 0 && e <= 22) return (double)N * t[e];
  if (e < 0 && e >= -22) return (double)N / t[-e];
  return 0;
}
static bool dig(char c) { return (c >= '0') & (c <= '9'); }
// blank* [sign] digits [. digits] [E[sign]digits] blank*; 0 blank, 1 number, 2 other
static int refnum(const char *f, int n, double *v) {
  int i = 0;
  while (i < n && f[i] == ' ') i++;
  if (i == n) return 0;
  bool neg = f[i] == '-';
  if (f[i] == '-' || f[i] == '+') i++;
  uint64_t N = 0; int nd = 0, e = 0;
  while (i < n && dig(f[i])) { N = N * 10 + ((int)(unsigned char)f[i++] - '0'); nd++; }
  if (i < n && f[i] == '.') { i++; while (i < n && dig(f[i])) { N = N * 10 + ((int)(unsigned char)f[i++] - '0'); nd++; e--; } }
  if (!nd) return 2;
  if (i < n && f[i] == 'E') {
    i++;
    bool en = false;
    if (i < n && (f[i] == '-' || f[i] == '+')) en = f[i++] == '-';
    int x = 0, k = 0;
    while (i < n && dig(f[i])) { x = x * 10 + ((int)(unsigned char)f[i++] - '0'); k++; }
    if (!k) return 2;
    e += en ? -vf_concrete(x) : vf_concrete(x);
  }
  while (i < n) if (f[i++] != ' ') return 2;
  vf_assume((e >= -22) & (e <= 22)); // larger scales are not modelled exactly
  double r = dec(N, e);
  *v = neg ? -r : r;
  return 1;
}
// N numbers of width M in a line of len characters against the reference
template <int N, int M> static void fields(const char *line, int len) {
  double d[N + 1], ref[N];
  for (double &x : d) x = -777;
  int st = 1, i = 0;
  for (; i < N; i++) {
    int b = i * M, m = len - b < M ? len - b : M;
    st = m <= 0 ? 0 : refnum(line + b, m, &ref[i]);
    if (st != 1) break;
  }
  errno = vf_choice(2, "errno") ? ERANGE : 0; // whatever an earlier call left behind
  bool ok = vf_choice(2, "which") ? __char2double__<N, M>(line, d) : __char2double__<M>(line, d, N);
  if (st == 2) { vf_reach("malformed"); }
  else { vf_assert(ok == (st == 1), st == 1 ? "valid-fields-rejected" : "blank-or-missing-field-accepted"); vf_reach(st == 1 ? "ok" : "blank"); }
  for (int k = 0; k < i; k++) vf_assert_eqd(d[k], ref[k], "field-value");
  vf_assert_eqd(d[N], -777, "writes-only-its-fields");
}
template <int N, int M> static void anytext() {
  int n = vf_choice(N * M + 3, "n");
  char *s = vf_str(n, "s");
  for (int i = 0; i < n; i++) vf_assume(dig(s[i]) | (s[i] == ' ') | (s[i] == '.') | (s[i] == '-') | (s[i] == '+') | (s[i] == 'E'));
  fields<N, M>(s, n);
}
H(c10_any_2x2) { anytext<2, 2>(); }
H(c10_any_1x4) { anytext<1, 4>(); }
H(c10_any_2x3) { anytext<2, 3>(); }
// the columns RINEX uses: each field blank or a number in Fortran notation
static int put(char *f, int M, int kind) { // fills a field; returns kind
  for (int i = 0; i < M; i++) f[i] = ' ';
  const char *lay[] = {"", "s9.999999999999E-05", " 9.99999999999E+09 ", "s99999.9999", "s.999E+1"};
  const char *l = lay[kind];
  int n = (int)strlen(l), off = M >= n ? (kind == 4 ? 0 : M - n) : 0;
  for (int i = 0; i < n && i < M; i++) {
    char c = l[i];
    if (c == '9' ) { unsigned char b = vf_byte("digit"); vf_assume(b < 10); c = '0' + b; }
    else if (c == 's') { c = vf_bool("minus") ? '-' : ' '; }
    f[off + i] = c;
  }
  return kind;
}
template <int N, int M> static void columns(int cut) {
  char buf[N * M];
  for (int i = 0; i < N; i++) put(buf + i * M, M, vf_choice(5, "kind"));
  int len = N * M - vf_choice(cut, "cut");
  char *s = (char *)malloc(len + 1);
  for (int i = 0; i < len; i++) s[i] = buf[i];
  s[len] = 0;
  fields<N, M>(s, len);
}
H(c10_columns_2x19) { columns<2, 19>(20); }
H(c10_columns_3x14) { columns<3, 14>(2); }
H(c10_exponent_letter) {
  int n = vf_choice(VF_T(10, 20), "n");
  char *s = vf_str(n, "s");
  std::string o(s, n);
  __for2cpp__(s);
  bool ok = true;
  for (int i = 0; i < n; i++) ok &= s[i] == (((o[i] == 'D') | (o[i] == 'd')) ? 'E' : o[i]);
  vf_assert(ok, "d-exponents-become-e"); vf_assert(s[n] == 0, "length-kept"); vf_reach("done");
}
