// Library functions for the symbolic executor, written as plain loops so that
// they are executed like any other code. Linked (as bitcode) to every harness.
#include "vf.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <charconv>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
template class std::allocator<char>;
template class std::basic_string<char>;
extern "C" {
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char *)h;
    if (!*h) return nullptr;
  }
}
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
void *memrchr(const void *s, int c, size_t n) { const char *p = (const char *)s; while (n--) if (p[n] == (char)c) return (void *)(p + n); return nullptr; }

static unsigned long parse_u(const char *s, char **end, int base, bool sgn_, bool &neg, bool &over) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  neg = false;
  over = false;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  bool any = false;
  int nd = 0;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (base <= 10) { if (!((c >= '0') & (c < '0' + base))) break; d = c & 15; }
    else {
      if (isdigit(c)) d = c - '0'; else if (islower(c)) d = c - 'a' + 10; else if (isupper(c)) d = c - 'A' + 10; else break;
      if (d >= base) break;
    }
    any = true;
    nd++;
    if (nd > 18) { if (v > (~0ul - d) / base) over = true; }
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
long strtol(const char *s, char **end, int base) {
  bool neg, over;
  unsigned long v = parse_u(s, end, base, true, neg, over);
  if (over || v > (neg ? 1ul << 63 : (1ul << 63) - 1)) { errno = ERANGE; return neg ? (long)(1ul << 63) : (long)((1ul << 63) - 1); }
  return neg ? -(long)v : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base) {
  bool neg, over;
  unsigned long v = parse_u(s, end, base, false, neg, over);
  if (over) { errno = ERANGE; return ~0ul; }
  return neg ? -v : v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
// the plain symbols (glibc headers redirect the names above to __isoc23_*)
long vfrt_strtol(const char *s, char **e, int b) __asm__("strtol");
unsigned long vfrt_strtoul(const char *s, char **e, int b) __asm__("strtoul");
long long vfrt_strtoll(const char *s, char **e, int b) __asm__("strtoll");
unsigned long long vfrt_strtoull(const char *s, char **e, int b) __asm__("strtoull");
long vfrt_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long vfrt_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long vfrt_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long vfrt_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }

// digits*10^e, correctly rounded: exact operands and a single rounding when
// the significand is below 2^53 and |e|<=22, the executor's decimal function
// otherwise.
static double p10(int e) {
  static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  return t[e];
}
double vfrt_dec(uint64_t N, int e, int nd) {
  if (nd <= 15 && e >= 0 && e <= 22) return (double)N * p10(e);
  if (nd <= 15 && e < 0 && e >= -22) return (double)N / p10(-e);
  return vf_dec10(N, e);
}
static bool ieq(const char *s, const char *w) { for (; *w; s++, w++) if (tolower((unsigned char)*s) != *w) return false; return true; }
static double parse_d(const char *s, const char *stop, const char **end, bool ws) {
  const char *p = s;
#define AT(q) ((stop && (q) >= stop) ? '\0' : *(q))
  if (ws) while (isspace((unsigned char)AT(p))) p++;
  bool neg = false;
  if (AT(p) == '-') { neg = true; p++; } else if (AT(p) == '+' && ws) p++;
  if (AT(p) == 'i' || AT(p) == 'I') {
    if (ieq(p, "inf")) { p += ieq(p, "infinity") ? 8 : 3; *end = p; return neg ? -INFINITY : INFINITY; }
    *end = s; return 0;
  }
  if (AT(p) == 'n' || AT(p) == 'N') {
    if (ieq(p, "nan")) { *end = p + 3; return NAN; }
    *end = s; return 0;
  }
  if (ws && AT(p) && ((AT(p) == '0') & ((AT(p + 1) | 32) == 'x')) && isxdigit((unsigned char)AT(p + 2))) {
    // hexadecimal notation: significand digits, optional point and p-exponent
    p += 2;
    uint64_t v = 0; int e = 0; bool pt = false;
    for (;; p++) {
      int c = (unsigned char)AT(p);
      if (c == '.' && !pt) { pt = true; continue; }
      if (!isxdigit(c)) break;
      v = v * 16 + (isdigit(c) ? c - '0' : (c | 32) - 'a' + 10);
      if (pt) e -= 4;
    }
    double r = (double)v;
    if ((AT(p) | 32) == 'p') {
      const char *q = p + 1; bool en = false;
      if (AT(q) == '-') { en = true; q++; } else if (AT(q) == '+') q++;
      if (isdigit((unsigned char)AT(q))) { int x = 0; while (isdigit((unsigned char)AT(q))) { if (x < 10000) x = x * 10 + (AT(q) - '0'); q++; } e += en ? -x : x; p = q; }
    }
    for (; e > 0; e--) r *= 2;
    for (; e < 0; e++) r /= 2;
    *end = p;
    return neg ? -r : r;
  }
  uint64_t N = 0;
  int nd = 0, e = 0, z = 0;
  bool any = false, pt = false;
  for (;; p++) {
    int c = (unsigned char)AT(p);
    if (c == '.') { if (pt) break; pt = true; continue; }
    if (!isdigit(c)) break;
    any = true;
    // zeros that end the fraction do not change the value
    if (pt && vf_is_concrete(c) && c == '0' && nd < 19) { z++; continue; }
    for (; z > 0 && nd < 19; z--) { N = N * 10; if (nd) nd++; e--; }
    z = 0;
    if (nd < 19) { N = N * 10 + (unsigned)(c & 15); if (nd || !vf_is_concrete(c) || c != '0') nd++; if (pt) e--; }
    else if (!pt) e++;
  }
  if (!any) { *end = s; return 0; }
  const char *q = p;
  int c = AT(q);
  if ((c == 'e') | (c == 'E')) {
    q++;
    bool en = false;
    if (AT(q) == '-') { en = true; q++; } else if (AT(q) == '+') q++;
    if (isdigit((unsigned char)AT(q))) {
      int x = 0;
      while (isdigit((unsigned char)AT(q))) { if (x < 10000) x = x * 10 + (AT(q) - '0'); q++; }
      p = q;
      e += en ? -vf_concrete(x) : vf_concrete(x);
    }
  }
  *end = p;
  double r = vfrt_dec(N, e, nd);
  if (nd + e > 308 && std::isinf(r)) errno = ERANGE;
  if (e < -290 && r == 0 && N != 0) errno = ERANGE;
  return neg ? -r : r;
}
double strtod(const char *s, char **end) { const char *e; double r = parse_d(s, nullptr, &e, true); if (end) *end = (char *)e; return r; }
double atof(const char *s) { return strtod(s, nullptr); }
float strtof(const char *s, char **end) { return (float)strtod(s, end); }

struct Out { char *b; size_t cap, n; void put(char c) { if (n + 1 < cap) b[n] = c; n++; } };
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  Out o{buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { o.put(*f); continue; }
    f++;
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    (void)alt;
    int w = 0, prec = -1, lng = 0;
    if (*f == '*') { w = vf_concrete(va_arg(ap, int)); if (w < 0) { left = true; w = -w; } f++; } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = vf_concrete(va_arg(ap, int)); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
    char tmp[420];
    int n = 0;
    const char *src = tmp;
    char sg = 0;
    switch (*f) {
    case '%': o.put('%'); continue;
    case 'c': tmp[n++] = (char)va_arg(ap, int); zero = false; break;
    case 's': { src = va_arg(ap, const char *); while ((prec < 0 || n < prec) && src[n]) n++; zero = false; break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'd' || *f == 'i') {
        long sv = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
        if (lng == -1) sv = (short)sv; else if (lng == -2) sv = (signed char)sv;
        if (sv < 0) { sg = '-'; v = -(unsigned long)sv; } else { v = sv; if (plus) sg = '+'; else if (space) sg = ' '; }
      } else if (*f == 'p') v = (unsigned long)va_arg(ap, void *);
      else { v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng == -2) v = (unsigned char)v; }
      char r[32]; int k = 0;
      while (v) { unsigned d = v % base; r[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; }
      if (prec < 0) { if (!k) r[k++] = '0'; } else { while (k < prec && k < 31) r[k++] = '0'; zero = false; }
      while (k) tmp[n++] = r[--k];
      break;
    }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
      double v = va_arg(ap, double);
      n = vf_fmtd(tmp, v, prec < 0 ? 6 : prec, *f);
      if (n && tmp[0] == '-' && vf_is_concrete((unsigned char)tmp[0])) { sg = '-'; src = tmp + 1; n--; } else if (plus) sg = '+'; else if (space) sg = ' ';
      break;
    }
    default: return -1;
    }
    int pad = w - n - (sg ? 1 : 0);
    if (!left && !zero) while (pad-- > 0) o.put(' ');
    if (sg) o.put(sg);
    if (!left && zero) while (pad-- > 0) o.put('0');
    for (int i = 0; i < n; i++) o.put(src[i]);
    if (left) while (pad-- > 0) o.put(' ');
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 20, f, ap); va_end(ap); return r; }
}
namespace std {
from_chars_result from_chars(const char *a, const char *b, double &v, chars_format fmt) noexcept {
  const char *e;
  double r = parse_d(a, b, &e, false);
  (void)fmt;
  if (e == a) return {a, errc::invalid_argument};
  v = r;
  return {e, errc{}};
}
// ---- red-black trees (unbalanced here: order is what is observable)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto replace = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    auto *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else {
    auto *a = h._M_parent; while (a->_M_left) a = a->_M_left; h._M_left = a;
    auto *b = h._M_parent; while (b->_M_right) b = b->_M_right; h._M_right = b;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t k = 11; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize || nb == 1) { if (ne + ni >= nb || nb == 1) { std::size_t k = ne + ni + 1 > 2 * nb ? ne + ni + 1 : 2 * nb; return {true, _M_next_bkt(k)}; } }
  return {false, 0};
}
} // namespace __detail
} // namespace std
