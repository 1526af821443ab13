// C18 Keplerian satellite positions, C19 satellite clocks, C20 GLONASS
#include "nav.h"
#include <cmath>
struct Sys { double mu, we, F; };
static Sys consts(char y) {
  if (y == 'G') return {3.986005e14, 7.2921151467e-5, -4.442807633e-10};
  if (y == 'E') return {3.986004418e14, 7.2921151467e-5, -4.442807309e-10};
  double mu = 3.986004418e14, c = 299792458e0;
  return {mu, 7.2921150e-5, -2e0 * std::sqrt(mu) / (c * c)};
}
static const long TOE[] = {86400, 0, 352800}; // seconds of the week
static const char *TOC[] = {"2020 01 06 00 00 00", "2020 01 05 00 00 00", "2020 01 09 02 00 00"}; // the same instants
static const double TK[] = {7200e0, 0e0, -5400.5e0, 86400e0, 302400e0, -302400e0};
static NavDataFrame frame(char y, int prn, long sow, const char *toc = nullptr) {
  NavFile f(3000); f.head();
  Nav q = navrec(f, y);
  q.p[1] = '0' + prn / 10; q.p[2] = '0' + prn % 10;
  if (y == 'R') { put(q.p + 4, toc); put(q.f[6], " 0.000000000000D+00"); }
  else if (toc) put(q.p + 4, toc);
  if (y == 'C') put(q.f[21], " 7.310000000000D+02");
  char *w = q.f[y == 'R' ? 2 : 11];
  for (int i = 0; i < 19; i++) w[i] = ' ';
  for (int i = 18; i >= 12; i--) { w[i] = '0' + sow % 10; sow /= 10; }
  NavigationRnx n(f.install("x.rnx"));
  NavDataFrame d;
  vf_assert(n.read_next_record(d) == 0, "record-read");
  return d;
}
static Tms at(char y, long sow, double tk) { // the instant tk after the time of ephemeris
  long day = 44244L + 7L * 2087, ms = sow * 1000 + (long)(tk * 1000e0), D = 86400000L;
  long d = ms / D; ms -= d * D; if (ms < 0) { ms += D; d--; }
  return Tms(modified_julian_day(day + d), milliseconds(ms));
}
struct Pt { double x[3], clock; };
// the user algorithm of the interface documents
static Pt reference(const NavDataFrame &d, char y, double tk, double dtc) {
  const NavDataFrame &c = d; Sys s = consts(y);
  double A = c.data(10) * c.data(10), n = std::sqrt(s.mu / (A * A * A)) + c.data(5), M = c.data(6) + n * tk, e = c.data(8), E = M;
  if (!(e == 0)) for (int i = 0; i < 60; i++) E = std::sin(E) * e + M;
  double nu = e == 0 ? std::atan2(std::sin(E), std::cos(E)) : std::atan2(std::sqrt(1e0 - e * e) * std::sin(E), std::cos(E) - e);
  double phi = nu + c.data(17), s2 = std::sin(2e0 * phi), c2 = std::cos(2e0 * phi);
  double u = phi + (c.data(9) * s2 + c.data(7) * c2);
  double r = A * (1e0 - e * std::cos(E)) + (c.data(4) * s2 + c.data(16) * c2);
  double i = c.data(15) + (c.data(14) * s2 + c.data(12) * c2) + c.data(19) * tk;
  double xp = r * std::cos(u), yp = r * std::sin(u);
  Pt p;
  bool geo = y == 'C' && (d.prn() <= 5 || d.prn() >= 59);
  if (!geo) {
    double O = c.data(13) + (c.data(18) - s.we) * tk - s.we * c.data(11);
    p.x[0] = xp * std::cos(O) - yp * std::sin(O) * std::cos(i);
    p.x[1] = xp * std::sin(O) + yp * std::cos(O) * std::cos(i);
    p.x[2] = yp * std::sin(i);
  } else {
    double O = c.data(13) + c.data(18) * tk - s.we * c.data(11);
    double X = xp * std::cos(O) - yp * std::sin(O) * std::cos(i), Y = xp * std::sin(O) + yp * std::cos(O) * std::cos(i), Z = yp * std::sin(i);
    double f = -5e0 * M_PI / 180e0, w = s.we * tk;
    double yt = Y * std::cos(f) + Z * std::sin(f);
    p.x[0] = X * std::cos(w) + yt * std::sin(w);
    p.x[1] = -X * std::sin(w) + yt * std::cos(w);
    p.x[2] = -Y * std::sin(f) + Z * std::cos(f);
  }
  p.clock = c.data(0) + c.data(1) * dtc + (c.data(2) * dtc) * dtc + s.F * (e * c.data(10) * std::sin(E));
  return p;
}
static void angles(NavDataFrame &d, bool neg) { // every element but the ones of the mean motion
  static const struct { int j; double lo, hi; const char *n; } V[] = {
      {4, 10, 500, "Crs"}, {16, 600, 900, "Crc"}, {7, 1e-5, 1e-3, "Cuc"}, {9, 2e-3, 1e-2, "Cus"}, {12, 2e-2, 5e-2, "Cic"}, {14, 6e-2, 9e-2, "Cis"},
      {13, 0.2, 3, "OMEGA0"}, {15, 0.3, 1.2, "i0"}, {17, 0.4, 3, "omega"}, {18, 1e-7, 1e-5, "OMEGADOT"}, {19, 2e-5, 3e-5, "IDOT"}};
  for (auto &v : V) d.data(v.j) = neg ? vf_drange(-v.hi, -v.lo, v.n) : vf_drange(v.lo, v.hi, v.n);
}
static void compare(const NavDataFrame &d, char y, double tk, long sow) {
  double st[6] = {}, ck = 0;
  int s = d.stateNclock(at(y, sow, tk), st, ck);
  vf_assert(s == 0, "position-given");
  Pt p = reference(d, y, tk, tk);
  vf_assert_close(st[0], p.x[0], 1e-9, "x"); vf_assert_close(st[1], p.x[1], 1e-9, "y"); vf_assert_close(st[2], p.x[2], 1e-9, "z");
  vf_reach("done");
}
static const int PRN[] = {7, 5, 58, 59, 1, 6, 63};
// circular orbits: every element arbitrary
static void circular(char y) {
  int prn = y == 'C' ? PRN[vf_choice(7, "prn")] : 7;
  int w = vf_choice(3, "toe"); long sow = TOE[w]; double tk = TK[vf_choice(6, "tk")];
  NavDataFrame d = frame(y, prn, sow, TOC[w]);
  angles(d, vf_choice(2, "negative"));
  d.data(8) = 0e0; d.data(10) = vf_drange(5000, 7000, "sqrtA"); d.data(5) = vf_drange(1e-9, 1e-8, "dn"); d.data(6) = vf_drange(1, 3, "M0");
  compare(d, y, tk, sow);
}
H(c18_circular_G) { circular('G'); }
H(c18_circular_E) { circular('E'); }
H(c18_circular_C) { circular('C'); }
// elliptic orbits: a few mean motions, everything else arbitrary
static void elliptic(char y) {
  static const double el[][4] = {{0.0123, 5153.6, 4.3e-9, 1.234}, {0.3, 5440.6, -4.3e-9, -2.5}, {1e-5, 6493.4, 0e0, 6.1}, {0.4, 5282.6, 1e-9, 0.1}};
  int prn = y == 'C' ? PRN[vf_choice(7, "prn")] : 7;
  int w = vf_choice(3, "toe"); long sow = TOE[w]; double tk = TK[vf_choice(6, "tk")];
  int k = vf_choice(4, "orbit");
  NavDataFrame d = frame(y, prn, sow, TOC[w]);
  angles(d, vf_choice(2, "negative"));
  d.data(8) = el[k][0]; d.data(10) = el[k][1]; d.data(5) = el[k][2]; d.data(6) = el[k][3];
  compare(d, y, tk, sow);
}
H(c18_elliptic_G) { elliptic('G'); }
H(c18_elliptic_E) { elliptic('E'); }
H(c18_elliptic_C) { elliptic('C'); }
H(c18_too_far) { // debug builds: no position more than half a week from the time of ephemeris
  char y = "GEC"[vf_choice(3, "sys")];
  NavDataFrame d = frame(y, 7, 86400);
  long ms = vf_bool("before") ? -(long)vf_range(302400001, 2000000000, "ms") : (long)vf_range(302400001, 2000000000, "ms");
  Tms t = at(y, 86400, 0);
  if (ms < 0) t.remove_seconds(milliseconds(-ms)); else t.add_seconds(milliseconds(ms));
  double st[6], ck;
  vf_assert(d.stateNclock(t, st, ck) < 0, "no-position-so-far-away");
  vf_reach("done");
}

// ---- C19: the clock of a satellite, the time of clock away from the time of ephemeris
static void clocks(char y) {
  static const double el[][4] = {{0.0123, 5153.6, 4.3e-9, 1.234}, {0.3, 5440.6, -4.3e-9, -2.5}, {0.02, 6493.4, 0e0, 6.1}, {0e0, 5282.6, 1e-9, 0.1}};
  static const char *toc[] = {"2020 01 06 00 00 00", "2020 01 05 22 00 00", "2020 01 06 02 00 00", "2020 01 08 11 59 44"};
  static const double off[] = {0e0, -7200e0, 7200e0, 215984e0}; // from the time of ephemeris
  int w = vf_choice(4, "toc"), k = vf_choice(4, "orbit");
  double tk = TK[vf_choice(6, "tk")], dt = tk - off[w];
  vf_assume((dt <= 302400e0) & (dt >= -302400e0));
  NavDataFrame d = frame(y, 7, 86400, toc[w]);
  d.data(8) = el[k][0]; d.data(10) = el[k][1]; d.data(5) = el[k][2]; d.data(6) = el[k][3];
  bool neg = vf_choice(2, "negative");
  d.data(0) = neg ? vf_drange(-1e-2, -1e-5, "af0") : vf_drange(1e-5, 1e-2, "af0"); d.data(1) = neg ? vf_drange(-1e-8, -1e-9, "af1") : vf_drange(1e-9, 1e-8, "af1"); d.data(2) = vf_drange(1e-14, 1e-13, "af2");
  double st[6] = {}, ck = 0;
  vf_assert(d.stateNclock(at(y, 86400, tk), st, ck) == 0, "clock-given");
  Pt p = reference(d, y, tk, dt);
  vf_assert_close(1e6 * ck, 1e6 * p.clock, 1e-8, "clock"); // microseconds
  vf_reach("done");
}
H(c19_clock_G) { clocks('G'); }
H(c19_clock_E) { clocks('E'); }
H(c19_clock_C) { clocks('C'); }
// ---- C20: GLONASS, numerical integration of the published equations of motion
static void motion(const double *x, const double *acc, double *v) {
  const double GM = 398600441.8e06, AE = 6378136e0, J2 = 1082625.75e-9, W = 7.2921151467e-5;
  double r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r3 = r2 * std::sqrt(r2);
  double a = 1.5e0 * J2 * GM * (AE * AE) / r2 / r3, z = 5e0 * x[2] * x[2] / r2, c = -GM / r3 - a * (1e0 - z), w2 = W * W;
  for (int i = 0; i < 3; i++) v[i] = x[3 + i];
  v[3] = (c + w2) * x[0] + 2e0 * W * x[4] + acc[0];
  v[4] = (c + w2) * x[1] - 2e0 * W * x[3] + acc[1];
  v[5] = (c - 2e0 * a) * x[2] + acc[2];
}
static void integrate(double *x, const double *acc, double dt) { // steps of a minute, the last one shorter
  for (double done = 0; done != dt;) {
    double h = dt > 0 ? 60e0 : -60e0;
    if (std::fabs(dt - done) < 60e0) h = dt - done;
    double k[4][6], y[6];
    motion(x, acc, k[0]);
    for (int j = 1; j < 4; j++) {
      double s = j == 3 ? h : h / 2e0;
      for (int i = 0; i < 6; i++) y[i] = x[i] + s * k[j - 1][i];
      motion(y, acc, k[j]);
    }
    for (int i = 0; i < 6; i++) x[i] += (h / 6) * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
    done += h;
  }
}
static const long GTOE[] = {86400 + 8100, 86400 + 85500, 900}; // 02:15, a quarter before midnight, just after the week began
static const char *GTOC[] = {"2020 01 06 02 15 00", "2020 01 06 23 45 00", "2020 01 05 00 15 00"};
static const double GTK[] = {100e0, 0e0, -60e0, 15.25, -899.5, 900e0, 60e0, 240e0, -900e0};
static Tms gat(int w, double tk) { return at('R', GTOE[w], tk); }
static void state(NavDataFrame &d, double *x, double *acc) {
  static const double lo[] = {1e7, -1.9e7, 1.2e7, -1500, 800, 2500}, hi[] = {1.1e7, -1.8e7, 1.3e7, -1400, 900, 2600};
  static const char *nm[] = {"x", "y", "z", "vx", "vy", "vz"};
  static const int ix[] = {3, 7, 11, 4, 8, 12}, ia[] = {5, 9, 13};
  for (int i = 0; i < 6; i++) d.data(ix[i]) = x[i] = vf_drange(lo[i], hi[i], nm[i]);
  for (int i = 0; i < 3; i++) d.data(ia[i]) = acc[i] = vf_drange((i + 1) * 1e-6, (i + 2) * 1e-6, "acc");
}
static void glonass(int n0, int n1) {
  int w = vf_choice(3, "toe"); double tk = GTK[n0 + vf_choice(n1 - n0, "tk")];
  NavDataFrame d = frame('R', 7, GTOE[w], GTOC[w]);
  double x[6], acc[3];
  state(d, x, acc);
  d.data(0) = vf_drange(1e-5, 1e-2, "tau"); d.data(1) = vf_drange(1e-11, 1e-9, "gamma");
  double st[6] = {}, ck = 0;
  vf_assert(d.stateNclock(gat(w, tk), st, ck) == 0, "position-given");
  integrate(x, acc, tk);
  static const char *nm[] = {"x", "y", "z", "vx", "vy", "vz"};
  for (int i = 0; i < 6; i++) vf_assert_close(st[i], x[i], 1e-10, nm[i]);
  vf_assert_close(1e6 * ck, 1e6 * (d.data(0) + d.data(1) * tk), 1e-8, "clock");
  vf_reach("done");
}
H(c20_near) { glonass(0, 4); }
H(c20_interval) { glonass(4, 9); }
H(c20_too_far) { // beyond a quarter of an hour
  int w = vf_choice(3, "toe");
  NavDataFrame d = frame('R', 7, GTOE[w], GTOC[w]);
  static const double far[] = {900.001, -900.001, 1800e0, 3600e0, -7200e0, 43200e0};
  double tk = far[vf_choice(6, "tk")], st[6], ck;
  vf_assert(d.stateNclock(gat(w, tk), st, ck) < 0, "reported-as-too-far");
  vf_reach("done");
}
