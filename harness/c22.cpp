// C22 SP3 header, C23 SP3 epochs, C24 SP3 flags
#include "fbuf.h"
#include "cout.h"
#include "sp3c.hpp"
#include <cerrno>
using namespace ngpt;
typedef datetime<microseconds> T;
struct Day { const char *ymd; int y, m, d, wk, dow, mjd; };
static const Day days[] = {{"2016  3 13", 2016, 3, 13, 1888, 0, 57460}, {"2009 12 31", 2009, 12, 31, 1564, 4, 55196}, {"2020  2 29", 2020, 2, 29, 2094, 6, 58908},
  {"2018  8  8", 2018, 8, 8, 2013, 3, 58338}, {"1999  1  1", 1999, 1, 1, 990, 5, 51179}, {"2023 10  9", 2023, 10, 9, 2283, 1, 60226}};
struct Time { const char *hms; int s; long us; const char *frac, *sfrac; };
static const Time times[] = {{" 0  0  0.00000000", 0, 0, ".0000000000000", ".00000000"}, {"12  0  0.00000000", 43200, 43200000000, ".5000000000000", ".00000000"}, {" 8  9  0.00000000", 29340, 29340000000, ".3395833333333", ".00000000"},
  {"23 59 59.00000000", 86399, 86399000000, ".9999884259259", ".00000000"}, {" 0 15 30.50000000", 930, 930500000, ".0107696759259", ".50000000"}};
static char *first(FBuf &f) { return f.line("#cP2016  3 13  0  0  0.00000000      96 ORBIT IGb08 HLM  IGS"); }
static void satlines(FBuf &f, const char *n, int k) {
  for (int i = 0; i < k; i++) { char *p = f.line("+        G01G02G03G04G05G06G07G08G09G10G11G12G13G14G15R01R02"); if (!i) put(p + 3, n); }
}
static void rest(FBuf &f, int acc, int com, const char *ts = "GPS") {
  for (int i = 0; i < acc; i++) f.line("++         2  2  2  2  2  2  2  2  2  2  2  2  2  2  2  2  2");
  char *p = f.line("%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  put(p + 9, ts);
  f.line("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  for (int i = 0; i < 2; i++) f.line("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000");
  for (int i = 0; i < 2; i++) f.line("%i    0    0    0    0      0      0      0      0         0");
  for (int i = 0; i < com; i++) f.line("/* COMMENT PCV:IGS08_1888 OL/AL:FES2004  NONE     YN CLK:CoN");
}
static const char *second = "## 1888      0.00000000   900.00000000 57460 0.0000000000000";
// ------------------------------------------------------------------- header
static bool opened(const char *fn, Sp3c *&s) {
  errno = vf_choice(2, "errno") ? ERANGE : 0;
  try { s = new Sp3c(fn); } catch (std::runtime_error &) { s = nullptr; }
  return s != nullptr;
}
H(c22_values) { // everything the header states is what is reported
  FBuf f(8000);
  int w = vf_choice(30, "start");
  const Day &D = days[w % 6];
  const Time &H = times[w % 5];
  char *p = first(f);
  p[1] = vf_choice(2, "version") ? 'd' : 'c';
  put(p + 3, D.ymd);
  put(p + 14, H.hms);
  int nep = digs(p + 32, 7, "nepochs");
  vf_assume(nep > 0);
  char crd[5], orb[3], ag[4], ts[4];
  text(crd, 5, "crd"); text(orb, 3, "orb"); text(ag, 4, "agency"); text(ts, 3, "timesys"); ts[3] = 0;
  for (int i = 0; i < 5; i++) p[46 + i] = crd[i];
  for (int i = 0; i < 3; i++) p[52 + i] = orb[i];
  for (int i = 0; i < 4; i++) p[56 + i] = ag[i];
  char *q = f.line(second);
  char b[16];
  snprintf(b, sizeof b, "%4d %6d", D.wk, D.dow * 86400 + H.s); put(q + 3, b); put(q + 14, H.sfrac);
  snprintf(b, sizeof b, "%5d", D.mjd); put(q + 39, b);
  put(q + 46, H.frac);
  int iv = digs(q + 24, 5, "interval");
  char ns[4]; int n = digs(ns, 3, "nsats"); ns[3] = 0;
  vf_assume(n > 0);
  satlines(f, "", 0);
  char *r = nullptr;
  int nl = 5 + vf_choice(2, "idlines");
  for (int i = 0; i < nl; i++) { r = f.line("+        G01G02G03G04G05G06G07G08G09G10G11G12G13G14G15R01R02"); if (!i) for (int j = 0; j < 3; j++) r[3 + j] = ns[j]; }
  size_t at = f.n;
  rest(f, 5 + vf_choice(2, "acclines"), vf_choice(3, "comments") * 2);
  for (size_t i = at; i + 1 < f.n; i++) if (f.b[i] == '%' && f.b[i + 1] == 'c') { for (int j = 0; j < 3; j++) f.b[i + 9 + j] = ts[j]; break; }
  f.line("*  2016  3 13  0  0  0.00000000"); f.line("EOF");
  Sp3c *s;
  bool ok = opened(f.install("igs.sp3"), s);
  if (iv == 0) { vf_assert(!ok, "interval-of-zero-refused"); return; }
  vf_assert(ok, "valid-header-accepted");
  vf_assert(s->num_sats() == n, "number-of-satellites");
  vf_assert(s->interval().as_underlying_type() == iv * 1000000L, "interval");
  std::vf_cout.v.clear();
  s->print_members();
  const VfItem *e = shown("Version");
  vf_assert(e && e->s.size() == 1 && e->s[0] == p[1], "version");
  e = shown("# Epochs"); vf_assert(e && e->i == nep, "number-of-epochs");
  e = shown("Coordinate"); vf_assert(e && vf_is(e->s, crd, 5), "coordinate-system");
  e = shown("Orbit"); vf_assert(e && vf_is(e->s, orb, 3), "orbit-type");
  e = shown("Agency"); vf_assert(e && vf_is(e->s, ag, 4), "agency");
  e = shown("Time System"); vf_assert(e && vf_is(e->s, ts, 3), "time-system");
  T want(year(D.y), month(D.m), day_of_month(D.d), microseconds(H.us));
  std::string sw = strftime_ymd_hms(want);
  e = shown("Start Epoch"); vf_assert(e && e->s == sw, "start-epoch");
  vf_reach("done");
}
H(c22_lines) { // any number of satellites and comments the format allows
  static const int ids[] = {5, 6, 17, 59}, coms[] = {0, 1, 5, 30, 120, 400};
  FBuf f(48000);
  first(f); f.line(second);
  int k = ids[vf_choice(4, "idlines")], c = coms[vf_choice(6, "comments")];
  char ns[4]; int n = digs(ns, 3, "nsats"); ns[3] = 0;
  vf_assume((n > (k == 5 ? 0 : 17 * (k - 1))) & (n <= 17 * k));
  size_t at = f.n;
  satlines(f, "", k);
  for (int j = 0; j < 3; j++) f.b[at + 3 + j] = ns[j];
  rest(f, k, c);
  f.line("*  2016  3 13  0  0  0.00000000");
  f.line("PG01  15402.861700  21607.418200  -1269.290900    -14.135600"); f.line("EOF");
  Sp3c *s;
  vf_assert(opened(f.install("igs.sp3"), s), "valid-header-accepted");
  vf_assert(s->num_sats() == n, "number-of-satellites");
  auto e = s->allocate_epoch_vector();
  vf_assert((int)e.size() == n, "room-for-every-satellite");
  T t; int m = -1;
  int st = s->get_next_epoch(t, e, m);
  vf_assert((st == 0 || st == -1) && m == 1 && e[0].prn_ == 1, "first-epoch");
  vf_reach("done");
}
H(c22_interval) { // fractions of a second
  static const char *t[] = {"    0.10000000", "    1.00100000", "   30.50000000", "86400.00000000", "    0.00000700"};
  static const long us[] = {100000, 1001000, 30500000, 86400000000L, 7};
  FBuf f(8000);
  first(f);
  char *q = f.line(second);
  int k = vf_choice(5, "interval");
  put(q + 24, t[k]);
  satlines(f, "  2", 5); rest(f, 5, 2);
  f.line("EOF");
  Sp3c *s;
  vf_assert(opened(f.install("igs.sp3"), s), "valid-header-accepted");
  vf_assert(s->interval().as_underlying_type() == us[k], "interval");
  vf_reach("done");
}
H(c22_consistency) { // the second line has to agree with the start epoch
  FBuf f(8000);
  int k = vf_choice(3, "day"), half = vf_choice(2, "time");
  const Day &D = days[k];
  char *p = first(f);
  put(p + 3, D.ymd);
  if (half) put(p + 14, "12");
  char *q = f.line(second);
  int wk = digs(q + 3, 4, "week"), sow = digs(q + 8, 6, "sow"), mjd = digs(q + 39, 5, "mjd");
  int fr = vf_choice(2, "fraction");
  if (fr) q[47] = '5';
  satlines(f, "  2", 5); rest(f, 5, 2);
  f.line("EOF");
  Sp3c *s;
  bool ok = opened(f.install("igs.sp3"), s);
  bool want = (wk == D.wk) & (sow == D.dow * 86400 + half * 43200) & (mjd == D.mjd) & (fr == half);
  vf_assert(ok == want, "accepted-exactly-when-consistent");
  vf_reach(want ? "accepted" : "refused");
}
H(c22_format) { // lines in the wrong place are refused
  int bad = vf_choice(11, "bad");
  FBuf f(8000);
  char *p = first(f);
  if (bad == 1) p[0] = '*';
  if (bad == 2) { vf_sym(p + 1, 1, "version"); vf_assume((p[1] != 'c') & (p[1] != 'd') & (p[1] != '\n')); }
  if (bad == 3) put(p + 3, "2015  2 29");
  if (bad == 4) put(p + 3, "2016 13 13");
  p = f.line(second);
  if (bad == 5) p[1] = ' ';
  if (bad != 6) satlines(f, "  2", 5);
  size_t at = f.n;
  rest(f, bad == 7 ? 0 : 5, 2);
  if (bad >= 8) for (size_t i = at; i + 1 < f.n; i++) if (f.b[i] == '%' && f.b[i + 1] == "cfi"[bad - 8]) { f.b[i + 1] = 'x'; break; }
  f.line("EOF");
  Sp3c *s;
  bool ok = opened(f.install("igs.sp3"), s);
  vf_assert(ok == (bad == 0), "accepted-exactly-when-well-formed");
  vf_reach("done");
}
H(c22_missing) {
  Sp3c *s;
  vf_assert(!opened("no-such-file", s), "missing-file-is-an-error");
  vf_reach("done");
}
// ------------------------------------------------------------------- epochs
static void header(FBuf &f, const char *n) { first(f); f.line(second); satlines(f, n, 5); rest(f, 5, 2); }
struct Rec { SATELLITE_SYSTEM s; int prn; double v[4]; bool nopos, noclk; int len; char *p; };
// a number with a integer and b decimal digits ending at column e
static double number(char *e, int a, int b, const char *name, bool anysign, uint64_t *raw = nullptr) {
  char *p = e - a - b - 1;
  unsigned long v = 0;
  vf_sym(p, a, name);
  p[a] = '.';
  vf_sym(p + a + 1, b, name);
  for (int i = 0; i < a + b + 1; i++) if (i != a) { vf_assume((p[i] >= '0') & (p[i] <= '9')); v = v * 10 + (unsigned long)(p[i] & 15); }
  static const double t[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12};
  double d = (double)v / t[b];
  bool neg = anysign && vf_choice(2, "sign");
  if (neg) { p[-1] = '-'; d = -d; }
  if (raw) *raw = v;
  return d;
}
static const char letters[] = "GRECJSI";
static const SATELLITE_SYSTEM systems[] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::irnss};
static Rec position(FBuf &f, bool signs, int len, int sys = -1) {
  const int a = 5, b = 6;
  Rec r;
  r.p = f.line("P", len); r.len = len;
  int k = sys < 0 ? vf_choice(7, "system") : sys;
  r.p[1] = letters[k]; r.s = systems[k];
  r.prn = digs(r.p + 2, 2, "prn");
  uint64_t n[4];
  for (int i = 0; i < 4; i++) r.v[i] = number(r.p + 18 + 14 * i, i == 3 ? 6 : a, b, i == 3 ? "clk" : "pos", signs, &n[i]);
  r.nopos = (n[0] == 0) | (n[1] == 0) | (n[2] == 0);
  r.noclk = r.v[3] >= 999999e0;
  for (int i = 0; i < 3; i++) r.v[i] = r.v[i] * 1e3;
  return r;
}
static T epoch(FBuf &f, int k) {
  const Day &D = days[k];
  char *p = f.line("*  2016  3 13  0  0  0.00000000");
  put(p + 3, D.ymd);
  int d = digs(p + 11, 2, "day"), h = digs(p + 14, 2, "hour"), m = digs(p + 17, 2, "min"), s = digs(p + 20, 2, "sec");
  vf_assume((d >= 1) & (d <= (k == 2 ? 29 : 31)) & (h < 24) & (m < 60) & (s < 60));
  return T(year(D.y), month(D.m), day_of_month(d), hours(h), minutes(m), microseconds(s * 1000000L));
}
static void check(const Sp3EpochSvRecord &g, const Rec &r) {
  vf_assert(g.s_ == r.s, "system-of-the-record");
  vf_assert(g.prn_ == r.prn, "prn-of-the-record");
  for (int i = 0; i < 3; i++) vf_assert_eqd(g.vals_[i], r.v[i], "position-of-the-record");
  vf_assert_eqd(g.vals_[3], r.v[3], "clock-of-the-record");
}
static void other_line(FBuf &f) { f.line("EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000"); }
static void other(FBuf &f) {
  switch (vf_choice(4, "between")) {
  case 1: f.line("VG01  20298.880364 -18462.044804   1381.387685     -4.534317 14 14 14 191"); break;
  case 2: f.line("EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000"); break;
  case 3: f.line("EV  22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567"); break;
  default: break;
  }
}
static void read_all(FBuf &f, const T *t, Rec (*r)[3], const int *n, int ne, bool again) {
  Sp3c s(f.install("igs.sp3"));
  auto vec = s.allocate_epoch_vector();
  for (int pass = 0; pass < (again ? 2 : 1); pass++) {
    if (pass) s.rewind();
    for (int e = 0; e < ne; e++) {
      T got; int m = -7;
      errno = e || pass || !vf_choice(2, "errno") ? 0 : ERANGE;
      int st = s.get_next_epoch(got, vec, m);
      vf_assert(e + 1 < ne ? st == 0 : st < 0, "status");
      vf_assert(got == t[e], "time-of-the-epoch");
      vf_assert(m == n[e], "number-of-records");
      for (int i = 0; i < n[e]; i++) check(vec[i], r[e][i]);
    }
  }
}
H(c23_one) {
  FBuf f(8000); header(f, "  1");
  T t[1]; Rec r[1][3]; int n[1] = {1};
  t[0] = epoch(f, vf_choice(3, "month")); r[0][0] = position(f, false, vf_choice(2, "length") ? 80 : 60);
  f.line("EOF");
  read_all(f, t, r, n, 1, false);
  vf_reach("done");
}
H(c23_signs) {
  FBuf f(8000); header(f, "  1");
  T t[1]; Rec r[1][3]; int n[1] = {1};
  t[0] = epoch(f, 1); r[0][0] = position(f, true, 80, 1);
  f.line("EOF");
  read_all(f, t, r, n, 1, false);
  vf_reach("done");
}
H(c23_three) {
  FBuf f(8000); header(f, "  3");
  T t[2]; Rec r[2][3]; int n[2];
  for (int e = 0; e < 2; e++) {
    n[e] = vf_choice(4, "records");
    t[e] = epoch(f, e);
    for (int i = 0; i < n[e]; i++) {
      r[e][i].p = f.line("P", 60); r[e][i].p[1] = i ? 'R' : 'G'; r[e][i].s = i ? SATELLITE_SYSTEM::glonass : SATELLITE_SYSTEM::gps;
      r[e][i].prn = digs(r[e][i].p + 2, 2, "prn");
      for (int j = 0; j < 4; j++) { r[e][i].v[j] = number(r[e][i].p + 18 + 14 * j, j == 3 ? 6 : 5, 6, "value", false); char c = r[e][i].p[18 + 14 * j - (j == 3 ? 13 : 12)]; vf_assume(j == 3 ? c < '9' : c > '0'); if (j < 3) r[e][i].v[j] *= 1e3; }
      if (i == n[e] - 1) other(f);
    }
  }
  f.line("EOF");
  read_all(f, t, r, n, 2, true);
  vf_reach("done");
}
H(c23_large) { // many epochs, many satellites; the last record is arbitrary
  static const int ne[] = {97, 300, 3, 2}, ns[] = {12, 2, 85, 120};
  static const char *no[] = {" 12", "  2", " 85", "120"};
  int w = vf_choice(4, "size");
  FBuf f(8000 + ne[w] * (ns[w] + 1) * 82); first(f); f.line(second); satlines(f, no[w], ns[w] > 85 ? 8 : 5); rest(f, ns[w] > 85 ? 8 : 5, 2);
  Rec r;
  for (int e = 0; e < ne[w]; e++) {
    char *p = f.line("*  2016  3 13  0  0  0.00000000"); p[12] = '0' + (3 + e / 96) % 10; p[11] = '1';
    p[14] = '0' + e / 4 % 24 / 10; p[15] = '0' + e / 4 % 24 % 10; p[17] = '0' + e % 4 * 15 / 10; p[18] = '0' + e % 4 * 15 % 10;
    for (int i = 0; i < ns[w]; i++) {
      if (e == ne[w] - 1 && i == ns[w] - 1) { r = position(f, true, 80, i % 2); break; }
      char *q = f.line("PG01 -12345.000000  12345.000000  23456.000000    123.000000", i % 2 ? 80 : 60);
      q[1] = letters[i / 30]; q[2] = '0' + (i % 30 + 1) / 10; q[3] = '0' + (i % 30 + 1) % 10; q[12] = '0' + e / 100; q[13] = '0' + e / 10 % 10; q[14] = '0' + e % 10;
      if (i % 5 == 4) other_line(f);
    }
  }
  f.line("EOF");
  Sp3c s(f.install("igs.sp3"));
  auto vec = s.allocate_epoch_vector();
  for (int pass = 0; pass < 2; pass++) {
    if (pass) s.rewind();
    for (int e = 0; e < ne[w]; e++) {
      T got; int m = -7;
      int st = s.get_next_epoch(got, vec, m);
      bool last = e == ne[w] - 1;
      vf_assert(last ? st < 0 : st == 0, "status");
      vf_assert(got == T(year(2016), month(3), day_of_month(13 + e / 96), microseconds(e % 96 * 900000000L)), "time-of-the-epoch");
      vf_assert(m == ns[w], "number-of-records");
      for (int i = 0; i < ns[w]; i += last ? 1 : ns[w] / 3 + 1) {
        if (last && i == ns[w] - 1) check(vec[i], r);
        else {
          vf_assert(vec[i].s_ == systems[i / 30] && vec[i].prn_ == i % 30 + 1, "prn-of-the-record");
          vf_assert(vec[i].vals_[0] == -((12345000 + e) / 1e3) * 1e3, "position-of-the-record");
        }
      }
    }
  }
  vf_reach("done");
}
H(c23_fraction) { // epochs with a fraction of a second
  static const char *x[] = {" 0.10000000", " 1.00100000", "12.34567800", "59.99999900", " 0.00000700", "30.00000000"};
  static const long us[] = {100000, 1001000, 12345678, 59999999, 7, 30000000};
  FBuf f(8000); header(f, "  1");
  int k = vf_choice(6, "seconds");
  char *p = f.line("*  2016  3 13  0  0  0.00000000");
  put(p + 20, x[k]);
  f.line("EOF");
  Sp3c s(f.install("igs.sp3"));
  auto vec = s.allocate_epoch_vector();
  T got; int m = -7;
  int st = s.get_next_epoch(got, vec, m);
  vf_assert(st < 0 && m == 0, "status");
  vf_assert(got == T(year(2016), month(3), day_of_month(13), microseconds(us[k])), "time-of-the-epoch");
  vf_reach("done");
}
H(c23_interpolator) { // the interpolator's first window: 2*900/900+2 epochs are needed
  FBuf f(20000); header(f, "  2");
  int ne = 1 + vf_choice(6, "epochs");
  for (int e = 0; e < ne; e++) {
    char *p = f.line("*  2016  3 13  0  0  0.00000000"); p[18] = '0' + e % 4; p[15] = '0' + e / 4;
    for (int i = 0; i < 2; i++) f.line(i ? "PG02  10000.000000 -20000.000000    300.000000     -1.000000" : "PG01 -12345.000000  12345.000000  23456.000000    123.000000");
  }
  f.line("EOF");
  Sp3c s(f.install("igs.sp3"));
  LagrangeSp3Interpolator<900> l(s);
  int st = l.initialize();
  vf_assert((st == 0) == (ne > 4), "window-is-filled-exactly-when-the-file-has-enough-epochs");
  vf_reach("done");
}
// -------------------------------------------------------------------- flags
static int bits(const Sp3Flag &g) { int v = 0; for (int i = 0; i < 6; i++) v |= g.is_set((Sp3Event)i) << i; return v; }
static void flags(const int *len, int n, bool zero) {
  FBuf f(8000); header(f, "  3");
  T t = epoch(f, 0);
  (void)t;
  Rec r[3]; int want[3];
  for (int i = 0; i < n; i++) {
    r[i].p = f.line(i ? "PR01 -12345.000000  12345.000000  23456.000000    123.000000" : "PG01  10000.000000 -20000.000000    300.000000     -1.000000", len[i]);
    uint64_t v[4]; double d = 0;
    if (zero) for (int j = 0; j < 4; j++) { d = number(r[i].p + 18 + 14 * j, j == 3 ? 6 : 1, 6, "value", true, &v[j]); if (j < 3) for (int c = 18 + 14 * j - 13; c < 18 + 14 * j - 9; c++) r[i].p[c] = ' '; }
    want[i] = zero ? ((v[0] == 0) | (v[1] == 0) | (v[2] == 0)) | (d >= 999999e0) << 1 : 0;
    static const int col[] = {74, 75, 78, 79};
    static const char let[] = "EPMP";
    for (int j = 0; j < 4; j++) if (col[j] < len[i]) { text(r[i].p + col[j], 1, "flag"); want[i] |= (r[i].p[col[j]] == let[j]) << (2 + j); }
  }
  f.line("EOF");
  Sp3c s(f.install("igs.sp3"));
  auto vec = s.allocate_epoch_vector();
  T got; int m = -7;
  int st = s.get_next_epoch(got, vec, m);
  vf_assert(st < 0 && m == n, "status");
  for (int i = 0; i < n; i++) {
    int g = bits(vec[i].flag_);
    vf_assert((g & 1) == (want[i] & 1), "absent-position"); vf_assert((g & 2) == (want[i] & 2), "absent-clock");
    vf_assert((g & 4) == (want[i] & 4), "clock-event"); vf_assert((g & 8) == (want[i] & 8), "clock-prediction");
    vf_assert((g & 16) == (want[i] & 16), "maneuver"); vf_assert((g & 32) == (want[i] & 32), "orbit-prediction");
  }
  vf_reach("done");
}
H(c24_letters) { int l[] = {80, 80}; flags(l, 2, false); }
H(c24_missing) { int l[] = {80}; flags(l, 1, true); }
H(c24_short) { static const int w[] = {60, 73, 75, 76, 79}; int l[] = {80, w[vf_choice(5, "length")], 80}; flags(l, 3, false); }
H(c24_set) { // the flag set itself
  Sp3Flag g; int m = 0;
  for (int i = 0; i < VF_T(3, 4); i++) {
    int e = vf_choice(6, "event");
    if (vf_choice(2, "op")) { g.set((Sp3Event)e); m |= 1 << e; } else { g.clear((Sp3Event)e); m &= ~(1 << e); }
    vf_assert(bits(g) == m, "set-and-clear");
  }
  g.reset();
  vf_assert(bits(g) == 0, "reset");
  vf_reach("done");
}
