// C17 walking through a navigation file, C21 validity
#include "nav.h"
#include <cerrno>
typedef NavigationRnx::pos_type Pos;
struct R { char sys; int prn; double id; };
static R rec(NavFile &f, const char *sys, int ns, int k, bool symprn) {
  R r; r.sys = sys[vf_choice(ns, "sys")];
  Nav q = navrec(f, r.sys, k);
  if (symprn) { r.prn = digs(q.p + 1, 2, "prn"); vf_assume(r.prn > 0); } else { r.prn = 5 + k % 2; q.p[2] = '0' + r.prn; }
  r.id = val(q.f[0]);
  return r;
}
static int readq(NavigationRnx &n, const R *r, int nr, int i) { // expects record i
  NavDataFrame d;
  int st = n.read_next_record(d);
  if (i < nr) {
    vf_assert(st == 0, "record-read");
    vf_assert(d.system() == char_to_satsys(r[i].sys) && d.prn() == r[i].prn && d.data(0) == r[i].id, "the-next-record");
    return i + 1;
  }
  vf_assert(st == -1, "end-of-file");
  return i;
}
static void walk(int nmax, int steps, int ns, bool nonl) {
  NavFile f; f.head();
  int nr = vf_choice(nmax + 1, "records"); R r[4];
  for (int i = 0; i < nr; i++) r[i] = rec(f, "GRS", ns, i, false);
  if (nonl && vf_choice(2, "no-newline-at-the-end")) f.n--;
  NavigationRnx n(f.install("x.rnx"));
  int i = 0;
  for (int s = 0; s < steps; s++) {
    if (s == 1) errno = ERANGE;
    int st = 0;
    switch (vf_choice(4, "step")) {
    case 0: i = readq(n, r, nr, i); vf_reach("read"); break;
    case 1: {
      SATELLITE_SYSTEM y = n.peak_satsys(st);
      if (i < nr) vf_assert(st == 0 && y == char_to_satsys(r[i].sys), "system-of-the-next-record"); else vf_assert(st == -1, "end-of-file");
      break;
    }
    case 2:
      st = n.ignore_next_block();
      if (i < nr) { vf_assert(st == 0, "record-skipped"); i++; } else vf_assert(st == -1, "end-of-file");
      break;
    case 3: n.rewind(); i = 0; break;
    }
  }
  readq(n, r, nr, i);
  vf_reach("done");
}
H(c17_walk) { walk(2, 4, 2, true); }
H(c17_walk_3) { walk(3, 3, 3, false); }
H(c17_systems) { // a record of every system, read, skipped or searched past, then one of every system
  NavFile f; f.head(); R r[2];
  for (int i = 0; i < 2; i++) { r[i] = rec(f, "GRECJSI", 7, i, false); }
  NavigationRnx n(f.install("x.rnx"));
  int how = vf_choice(3, "how"), st = 0;
  if (how == 0) readq(n, r, 2, 0);
  else if (how == 1) vf_assert(n.ignore_next_block() == 0, "record-skipped");
  else { NavDataFrame d; Pos p; st = n.find_next(p, d, char_to_satsys(r[1].sys), r[1].prn); vf_assert(st == 0 && d.data(0) == r[1].id && d.prn() == r[1].prn, "found"); readq(n, r, 2, 2); vf_reach("done"); return; }
  vf_assert(n.peak_satsys(st) == char_to_satsys(r[1].sys) && st == 0, "system-of-the-next-record");
  readq(n, r, 2, 1); readq(n, r, 2, 2);
  vf_reach("done");
}
static int findq(NavigationRnx &n, const R *r, int nr, int i, bool back) {
  char y = "GR"[vf_choice(2, "qsys")];
  int prn = vf_choice(2, "any") ? -1 : vf_range(1, 99, "qprn"), k = i;
  while (k < nr && !((r[k].sys == y) & ((prn == -1) | (r[k].prn == prn)))) k++;
  NavDataFrame d; Pos p;
  int st = n.find_next(p, d, char_to_satsys(y), prn);
  if (k < nr) {
    vf_assert(st == 0, "record-found"); vf_assert(d.system() == char_to_satsys(y) && d.prn() == r[k].prn && d.data(0) == r[k].id, "the-record-asked-for");
    vf_reach("found"); k++;
  } else { vf_assert(st == -1, "no-such-record"); vf_reach("none"); }
  if (back && vf_choice(2, "back")) { n.rewind(p); return i; }
  return k;
}
H(c17_find) {
  NavFile f; f.head(); R r[3];
  for (int i = 0; i < 3; i++) r[i] = rec(f, "GR", 2, i, true);
  NavigationRnx n(f.install("x.rnx"));
  int i = findq(n, r, 3, 0, true);
  if (vf_choice(2, "again")) i = findq(n, r, 3, i, false);
  readq(n, r, 3, i);
}
// files as long as those in use: many records of other satellites before the two that matter
H(c17_many) {
  static const int many[] = {7, 42, 210, 5040};
  int w = vf_choice(4, "records"), n = many[w]; // multiples of 21 when more than 7
  NavFile f(90000 + (n + 3) * 660); f.head("M: MIXED            ", w == 1 ? 970 : w == 2 ? 100 : 0);
  size_t from = f.n;
  for (int i = 0; i < n; i++) {
    if (i < 21) {
      Nav q = navrec(f, w == 3 ? 'R' : "GRECJSI"[i % 7], i);
      q.p[2] = '0' + 2 + i % 3;
      if (i == 20) from = f.n - from;
    } else if (i % 21 == 0) { // the same again
      memcpy(f.b + f.n, f.b + f.n - from, from); f.n += from;
    }
  }
  R r[2];
  for (int i = 0; i < 2; i++) { r[i] = rec(f, w == 3 ? "G" : "GRE", w == 3 ? 1 : 3, i, true); vf_assume(r[i].prn > 9); }
  NavigationRnx nav(f.install("x.rnx"));
  if (w == 3 || vf_choice(2, "how") == 0) { // one satellite's records
    char y = w == 3 ? 'G' : "GRE"[vf_choice(3, "qsys")];
    int prn = vf_range(10, 99, "qprn"), st;
    NavDataFrame d; Pos p;
    for (int k = 0; k < 2; k++)
      if (r[k].sys == y && r[k].prn == prn) {
        st = nav.find_next(p, d, char_to_satsys(y), prn);
        vf_assert(st == 0, "record-found"); vf_assert(d.system() == char_to_satsys(y) && d.prn() == prn && d.data(0) == r[k].id, "the-record-asked-for");
        vf_reach("found");
      }
    vf_assert(nav.find_next(p, d, char_to_satsys(y), prn) == -1, "no-such-record"); vf_reach("none");
  } else { // one after the other
    for (int i = 0; i < n; i++) {
      NavDataFrame d; int st = 0;
      char y = "GRECJSI"[i % 7];
      if (i % 3 == 0) vf_assert(nav.ignore_next_block() == 0, "record-skipped");
      else {
        vf_assert(nav.peak_satsys(st) == char_to_satsys(y) && st == 0, "system-of-the-next-record");
        vf_assert(nav.read_next_record(d) == 0 && d.system() == char_to_satsys(y) && d.prn() == 2 + i % 3, "the-next-record");
      }
    }
    readq(nav, r, 2, 0); readq(nav, r, 2, 1); readq(nav, r, 2, 2);
  }
}
H(c17_find_all) { // every record of one satellite, then from the start
  NavFile f; f.head(); R r[3];
  for (int i = 0; i < 3; i++) r[i] = rec(f, i % 2 ? "ER" : "G", i % 2 ? 2 : 1, i, true);
  NavigationRnx n(f.install("x.rnx"));
  int prn = vf_range(1, 99, "qprn");
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i <= 3; i++) {
      NavDataFrame d; Pos p;
      while (i < 3 && !((r[i].sys == 'G') & (r[i].prn == prn))) i++;
      int st = n.find_next(p, d, SATELLITE_SYSTEM::gps, prn);
      if (i < 3) vf_assert(st == 0 && d.data(0) == r[i].id && d.prn() == prn, "every-record-in-order");
      else vf_assert(st == -1, "end-of-file");
    }
    n.rewind();
  }
  vf_reach("done");
}
H(c17_header) {
  NavFile f(6000);
  int bad = vf_choice(7, "bad"), nc = vf_choice(3, "comments");
  static const char *L0[] = {"     3.04           N: GNSS NAV DATA    M: MIXED            RINEX VERSION / TYPE", "     3.04           O: OBSERVATION DATA M: MIXED            RINEX VERSION / TYPE",
                             "     3.04           N: GNSS NAV DATA    X: WHAT             RINEX VERSION / TYPE", "                    N: GNSS NAV DATA    M: MIXED            RINEX VERSION / TYPE"};
  f.line(L0[bad < 4 ? bad : 0]);
  for (int i = 0; i < nc; i++) f.lab("END OF HEADER", "COMMENT");
  if (bad == 5) f.line("short");
  if (bad != 4) { if (bad == 6) f.line("                                                            END OF HEADER      "); else f.lab("", "END OF HEADER"); }
  R r = rec(f, "GR", 2, 0, false);
  const char *fn = f.install("x.rnx");
  bool ok = true;
  try { NavigationRnx n(fn); readq(n, &r, 1, 0); } catch (std::runtime_error &) { ok = false; }
  vf_assert(ok == (bad == 0 || bad >= 5), "accepted-exactly-when-a-navigation-file");
  vf_reach("done");
}
H(c17_missing) {
  bool ok = true;
  try { NavigationRnx n("none.rnx"); } catch (std::runtime_error &) { ok = false; }
  vf_assert(!ok, "missing-file-refused"); vf_reach("done");
}
// ---- C21
struct V { char sys; int prn, health, fit; Tms toc, toe; double id; };
static V vrec(NavFile &f, char sys, int k, int month, bool symprn, bool symfit, bool symhealth) {
  V v; v.sys = sys;
  Nav q = navrec(f, sys, k);
  v.prn = 5; q.p[2] = '5';
  if (symprn) { v.prn = digs(q.p + 1, 2, "prn"); vf_assume(v.prn > 0); }
  T toc = navdate(q.p, month, symprn);
  v.toc = toc.cast_to<milliseconds>();
  v.health = symhealth ? intfield(q.f[sys == 'R' ? 6 : 24], 2, "health") : 0;
  v.fit = 4;
  if (sys == 'G') { if (symfit) { v.fit = intfield(q.f[28], 2, "fit"); if (vf_choice(2, "known")) vf_assume(v.fit > 0); else { vf_assume(v.fit == 0); v.fit = 4; } } else put(q.f[28], " 4.000000000000D+00"); }
  v.toe = v.toc;
  if (sys == 'R') { // message time: a quarter before, or the same
    long w = (toc.mjd().as_underlying_type() - 44244) % 7 * 86400 + toc.sec().as_underlying_type();
    // the second of the week is written digit by digit
    int sow = intfield(q.f[2], 6, "sow");
    vf_assume(sow == w);
  }
  v.id = val(q.f[0]);
  return v;
}
static int verdict(const V *v, int n, char y, int prn, const Tms &t) { // index, -1: end, -2: stopped
  for (int i = 0; i < n; i++) {
    if (v[i].sys != y || (prn != -1 && v[i].prn != prn)) continue;
    Tms lim(t); lim.add_seconds(seconds(4 * 3600L));
    if (v[i].toc > lim) return -1;
    if (v[i].health) continue;
    Tms a(v[i].toc), b(v[i].toc);
    if (y == 'R') { a = v[i].toe; b = v[i].toe; a.remove_seconds(seconds(900)); b.add_seconds(seconds(900)); } else b.add_seconds(seconds(v[i].fit * 3600L));
    if (a <= t && t < b) return i;
  }
  return -1;
}
static Tms anytime(int month) {
  static const long d0[] = {58849, 57419, 55166, 59519};
  return Tms(modified_julian_day(d0[month] + vf_range(-1, 33, "qday")), milliseconds(vf_range(0, 86399999, "qms")));
}
static void valid(NavigationRnx &n, const V *v, int nr, char y, int month, bool symprn, bool any) {
  Tms t = anytime(month);
  int prn = any ? -1 : symprn ? vf_range(1, 99, "qprn") : 5;
  int k = verdict(v, nr, y, prn, t);
  NavDataFrame d; Pos p;
  int st = n.find_next_valid(t, p, d, char_to_satsys(y), prn);
  if (k >= 0) { vf_assert(st == 0, "valid-record-found"); vf_assert(d.data(0) == v[k].id && d.prn() == v[k].prn && d.system() == char_to_satsys(y), "first-valid-record"); vf_reach("found"); }
  else { vf_assert(st == -1, "no-valid-record"); vf_reach("none"); }
  n.rewind(p);
  NavDataFrame e;
  vf_assert(n.read_next_record(e) == 0 && e.data(0) == v[0].id, "position-before-the-search");
}
static void one(char y) {
  NavFile f; f.head(); V v = vrec(f, y, 0, 1, true, true, true);
  NavigationRnx n(f.install("x.rnx"));
  valid(n, &v, 1, y, 1, true, vf_choice(2, "any"));
}
H(c21_gps) { one('G'); }
H(c21_galileo) { one('E'); }
H(c21_beidou) { one('C'); }
H(c21_glonass) { one('R'); }
H(c21_two) {
  NavFile f; f.head(); V v[2];
  for (int i = 0; i < 2; i++) v[i] = vrec(f, i ? 'G' : "GE"[vf_choice(2, "sys")], i, 0, true, false, true);
  NavigationRnx n(f.install("x.rnx"));
  valid(n, v, 2, 'G', 0, true, vf_choice(2, "any"));
}
H(c21_three) { // successive records of one day
  NavFile f; f.head(); V v[3];
  for (int i = 0; i < 3; i++) v[i] = vrec(f, 'E', i, 0, false, false, false);
  NavigationRnx n(f.install("x.rnx"));
  valid(n, v, 3, 'E', 0, false, false);
}
H(c21_many) { // after many records of other systems
  static const int ns[] = {100, 5100};
  int w = vf_choice(2, "records"), n = ns[w], k = w ? 1 : 2;
  NavFile f(8000 + n * 660); f.head();
  char *p = f.b + f.n; size_t len = 0;
  for (int i = 0; i < n; i++) {
    if (i == 0) { Nav q = navrec(f, n == 5100 ? 'R' : 'G', 0); (void)q; len = f.b + f.n - p; }
    else { memcpy(f.b + f.n, p, len); f.n += len; }
  }
  V v[2];
  for (int i = 0; i < k; i++) v[i] = vrec(f, 'E', i, 0, false, false, false);
  NavigationRnx nav(f.install("x.rnx"));
  valid(nav, v, k, 'E', 0, false, false);
}
H(c21_glonass_two) {
  NavFile f; f.head(); V v[2];
  for (int i = 0; i < 2; i++) v[i] = vrec(f, 'R', i, 0, false, false, false);
  NavigationRnx n(f.install("x.rnx"));
  valid(n, v, 2, 'R', 0, false, false);
}
// what a record says about itself
H(c21_reports) {
  NavFile f; f.head();
  char y = "GREC"[vf_choice(4, "sys")];
  Nav q = navrec(f, y);
  int health = intfield(q.f[y == 'R' ? 6 : 24], 3, "health"), iod = intfield(q.f[3], 4, "iod"), fit = 0, ura = 0;
  if (y == 'G') fit = intfield(q.f[28], 3, "fit");
  if (y != 'R') ura = intfield(q.f[23], 3, "accuracy");
  NavigationRnx n(f.install("x.rnx"));
  NavDataFrame d;
  vf_assert(n.read_next_record(d) == 0, "record-read");
  vf_assert(d.sv_health() == health, "health");
  if (y == 'R') vf_assert(d.fit_interval() == 900, "glonass-interval");
  if (y == 'E' || y == 'C') vf_assert(d.fit_interval() == 14400, "nominal-interval");
  if (y == 'G') { vf_assert(d.fit_interval() == (fit ? fit * 3600L : 14400L) && d.gps_fit_interval() == d.fit_interval(), "fit-interval"); vf_assert(d.gps_ura() == (float)ura, "gps-accuracy"); }
  if (y == 'E') { vf_assert(d.gal_sisa() == (float)ura, "galileo-accuracy"); vf_assert(d.gal_iod_nav() == iod, "issue-of-data"); }
  vf_reach("done");
}
H(c21_other_systems) { // no model for these: an exception, never a number
  NavFile f; f.head();
  char y = "JIS"[vf_choice(3, "sys")];
  navrec(f, y);
  NavigationRnx n(f.install("x.rnx"));
  NavDataFrame d;
  vf_assert(n.read_next_record(d) == 0, "record-read");
  int what = vf_choice(4, "what"); bool threw = false;
  double st[6], c;
  try {
    if (what == 0) d.sv_health(); else if (what == 1) d.fit_interval(); else if (what == 2) d.toe2date<seconds>(); else d.stateNclock(Tms(modified_julian_day(58854), milliseconds(0)), st, c);
  } catch (std::runtime_error &) { threw = true; }
  vf_assert(threw, "refused"); vf_reach("done");
}
