// C03: observables as linear combinations
#include "util.h"
#include "gnssobsrv.hpp"
using namespace ngpt;
struct P { int sys, type, band; char attr; double coef; };
static GnssRawObservable raw(const P &p) { return GnssRawObservable((SATELLITE_SYSTEM)p.sys, ObservationCode((OBSERVABLE_TYPE)p.type, p.band, ObservationAttribute(p.attr))); }
static bool same(const P &a, const P &b) { return (a.sys == b.sys) & (a.type == b.type) & (a.band == b.band) & (a.attr == b.attr) & (a.coef == b.coef); }
static bool sameraw(const P &a, const P &b) { return (a.sys == b.sys) & (a.type == b.type) & (a.band == b.band) & (a.attr == b.attr); }
static P symp(const char *n) {
  P p;
  p.sys = vf_range(0, 7, n); p.type = vf_range(0, 6, n); p.band = vf_range(0, 9, n); p.attr = (char)vf_byte(n); p.coef = vf_dbl(n);
  vf_assume(!std::isnan(p.coef));
  return p;
}
static GnssObservable build(const P *p, int n, int how) {
  GnssObservable o = how ? GnssObservable(raw(p[0]), p[0].coef) : GnssObservable((SATELLITE_SYSTEM)p[0].sys, raw(p[0]).code(), p[0].coef);
  for (int i = 1; i < n; i++) if (how) o.add(raw(p[i]), p[i].coef); else o.add((SATELLITE_SYSTEM)p[i].sys, raw(p[i]).code(), p[i].coef);
  return o;
}
static int cnt(const P *p, int n, const P &x) { int k = 0; for (int i = 0; i < n; i++) k += same(p[i], x); return k; }
static void eq(int na, int nb) {
  P a[3], b[3];
  for (int i = 0; i < na; i++) a[i] = symp("a");
  for (int i = 0; i < nb; i++) b[i] = symp("b");
  GnssObservable x = build(a, na, 0), y = build(b, nb, 1);
  bool want = na == nb;
  if (want) for (int i = 0; i < na; i++) want &= cnt(a, na, a[i]) == cnt(b, nb, a[i]);
  vf_assert((x == y) == want, "observable-equality");
  vf_assert((y == x) == want, "observable-equality-symmetric");
  vf_assert((x != y) == !want, "observable-inequality");
  vf_reach("done");
}
H(c03_eq11) { eq(1, 1); }
H(c03_eq_sizes) { int k = vf_choice(3, "k"); if (k == 0) eq(1, 2); else if (k == 1) eq(2, 1); else eq(2, 3); }
H(c03_eq22) { eq(2, 2); }
H(c03_eq33) { eq(3, 3); }
// many parts, one of each side arbitrary: any order, equal parts repeated
H(c03_many) {
  static const int ns[] = {4, 5, 8, 9, 17, 33};
  int n = ns[vf_choice(6, "n")], rot = vf_choice(3, "order"), k = vf_choice(2, "where") ? n - 1 : n / 2;
  P a[33], b[33];
  for (int i = 0; i < n; i++) { a[i].sys = i % 5 % 3; a[i].type = i % 5; a[i].band = i % 5 + 1; a[i].attr = (char)('A' + i % 5); a[i].coef = i % 5 - 1.5; }
  a[k] = symp("a");
  for (int i = 0; i < n; i++) b[rot == 2 ? n - 1 - i : (i + rot) % n] = a[i];
  b[rot == 0 ? k : 0] = symp("b");
  GnssObservable x = build(a, n, 0), y = build(b, n, 1);
  bool want = true, mixed = false;
  for (int i = 0; i < n; i++) want &= cnt(a, n, a[i]) == cnt(b, n, a[i]);
  vf_assert((x == y) == want, "observable-equality");
  vf_assert((y == x) == want, "observable-equality-symmetric");
  vf_assert((x != y) == !want, "observable-inequality");
  auto v = x.underlying_vector();
  vf_assert((int)v.size() == n, "parts-kept");
  for (int i = 0; i < n; i++) {
    vf_assert(v[i].__coef == a[i].coef && v[i].type() == raw(a[i]), "parts-kept-in-order");
    mixed |= a[i].sys != a[0].sys;
  }
  vf_assert(x.is_of_mixed_satsys() == mixed, "mixed-systems");
  vf_reach("done");
}
H(c03_parts) {
  int n = 1 + vf_choice(3, "n"), how = vf_choice(2, "how");
  P p[3];
  for (int i = 0; i < n; i++) p[i] = symp("p");
  GnssObservable o = build(p, n, how);
  const GnssObservable &c = o;
  auto v = c.underlying_vector();
  vf_assert((int)v.size() == n && (int)o.underlying_vector().size() == n, "parts-kept");
  bool mixed = false;
  for (int i = 0; i < n; i++) {
    vf_assert(v[i].__coef == p[i].coef && v[i].type() == raw(p[i]) && v[i].type().satsys() == (SATELLITE_SYSTEM)p[i].sys && v[i].type().band() == p[i].band && v[i].type().code() == raw(p[i]).code(), "parts-kept-in-order");
    mixed |= p[i].sys != p[0].sys;
  }
  vf_assert(o.is_of_mixed_satsys() == mixed, "mixed-systems");
  vf_reach("done");
}
H(c03_raw) {
  P a = symp("a"), b = symp("b");
  GnssRawObservable x = raw(a), y = raw(b);
  vf_assert((x == y) == sameraw(a, b), "raw-equality");
  vf_assert((x != y) == !sameraw(a, b), "raw-inequality");
  __ObsPart u(x, a.coef), w((SATELLITE_SYSTEM)b.sys, y.code(), b.coef);
  vf_assert((u == w) == same(a, b), "part-equality");
  vf_assert((u != w) == !same(a, b), "part-inequality");
  vf_assert(x.get<0>() == (SATELLITE_SYSTEM)a.sys && x.get<1>() == raw(a).code(), "raw-accessors");
  x.satsys() = (SATELLITE_SYSTEM)b.sys;
  x.get<1>() = y.code();
  vf_assert(x == y, "raw-mutators");
  __ObsPart d(y);
  vf_assert(d.__coef == 1e0, "default-coefficient");
  vf_reach("done");
}
static const char SC[8] = {'G', 'R', 'S', 'E', 'C', 'J', 'I', 'M'}, TC[7] = {'C', 'L', 'D', 'S', 'I', 'X', '?'};
H(c03_string) {
  int n = 1 + vf_choice(3, "n");
  P p[3];
  std::string ref;
  for (int i = 0; i < n; i++) {
    p[i] = symp("p");
    if (i) ref += "+";
    ref.push_back(SC[p[i].sys]); ref += "::"; ref.push_back(TC[p[i].type]); ref.push_back((char)('0' + p[i].band)); ref.push_back(p[i].attr);
    ref += "*"; ref += std::to_string(p[i].coef);
  }
  std::string s = build(p, n, 0).to_string();
  vf_assert(vf_is(s, ref.data(), (int)ref.size()), "observable-to-string");
  vf_reach("done");
}
