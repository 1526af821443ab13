// C25 receiver antennas, C26 satellite antennas, C27 phase centre offsets of an ANTEX file
#include "fbuf.h"
#include "antex.hpp"
#include <iomanip>
#include <sstream>
using namespace ngpt;
typedef datetime<seconds> T;
#include "pcoseen.h"
// ---- writing the file
struct Atx : FBuf {
  int cols = 5, rows = 1; // of a grid, besides the azimuth-independent line
  explicit Atx(size_t room = 16000) : FBuf(room) {}
  char *lab(const char *t, const char *label) {
    char *p = line(t, 60);
    n--;
    raw(label); b[n++] = '\n';
    return p;
  }
  void head(int comments = 0) {
    lab("     1.4            M", "ANTEX VERSION / SYST");
    lab("A", "PCV TYPE / REFANT");
    for (int i = 0; i < comments; i++) lab("a comment", "COMMENT");
    lab("", "END OF HEADER");
  }
  void grid() {
    static const char *const v[] = {"    0.00", "   -0.23", "   -0.89", "   -1.85", "   -2.92"};
    for (int r = 0; r <= rows; r++) { raw(r ? "     5.0" : "   NOAZI"); for (int c = 0; c < cols; c++) raw(v[c % 5]); raw("\n"); }
  }
  char *start(const char *type) { lab("", "START OF ANTENNA"); return lab(type, "TYPE / SERIAL NO"); }
  char *nfreq(int nf) {
    lab("ROBOT               Geo++ GmbH              1    09-AUG-07", "METH / BY / # / DATE");
    lab("     5.0", "DAZI"); lab("     0.0  90.0   5.0", "ZEN1 / ZEN2 / DZEN");
    char *p = lab("     0", "# OF FREQUENCIES");
    if (nf > 9) p[4] = '0' + nf / 10;
    p[5] = '0' + nf % 10;
    return p;
  }
  // one frequency; north offset k.25
  char *freq(const char *code, int k, bool rms = false) {
    lab(code, "START OF FREQUENCY");
    char *p = lab("      0.25      1.50     59.75", "NORTH / EAST / UP");
    p[6] = '0' + k;
    grid(); lab(code, "END OF FREQUENCY");
    if (rms) { lab(code, "START OF FREQ RMS"); lab("      0.09      0.09      0.09", "NORTH / EAST / UP"); grid(); lab(code, "END OF FREQ RMS"); }
    return p;
  }
  void end() { lab("", "END OF ANTENNA"); }
};
// ---- C25
static const char *MODEL[] = {"TRM29659.00     NONE", "TRM29659.00     SNOW", "TRM29659.0     NONE ", "TRM29659.00         "};
static const int SER[] = {0, 1, 5, 20};
static void model(char *s, int k) { // 20 characters as a receiver antenna would be stored
  memcpy(s, MODEL[k], 20);
  if (k == 3) memcpy(s + 16, "NONE", 4);
}
struct Ant { int m, sl; char s[20]; };
static void rec(Atx &f, Ant &a, int k, int nm, int ns) {
  a.m = vf_choice(nm, "model"); a.sl = SER[vf_choice(ns, "serial")];
  char *p = f.start(MODEL[a.m]);
  for (int i = 0; i < 20; i++) a.s[i] = ' ';
  if (a.sl) {
    vf_sym(a.s, a.sl, "ser");
    for (int i = 0; i < a.sl; i++) vf_assume((a.s[i] >= '0') & (a.s[i] <= 'Z'));
    memcpy(p + 20, a.s, 20);
  }
  f.nfreq(1); f.lab("COMMENT", "COMMENT"); f.freq("   G01", k); f.end();
}
static bool sameModel(const Ant &a, const Ant &b) { char x[20], y[20]; model(x, a.m); model(y, b.m); return !memcmp(x, y, 20); }
static void query(Antex &x, const Ant *r, int n, int nm, int ns, bool must) {
  Ant q; q.m = vf_choice(nm, "qmodel"); q.sl = SER[vf_choice(ns, "qserial")];
  for (int i = 0; i < 20; i++) q.s[i] = ' ';
  ReceiverAntenna ra(MODEL[q.m]);
  if (q.sl) {
    vf_sym(q.s, q.sl, "qser");
    for (int i = 0; i < q.sl; i++) vf_assume((q.s[i] >= '0') & (q.s[i] <= 'Z'));
    char t[21]; memcpy(t, q.s, q.sl); t[q.sl] = 0;
    ra.set_serial_nr(t);
  }
  int want = -1, exact = -1;
  for (int i = n - 1; i >= 0; i--)
    if (sameModel(r[i], q)) {
      if (r[i].sl && q.sl && vf_same(r[i].s, q.s, 20)) exact = i; // without serials there is nothing to match
      if (r[i].sl == 0) want = i;
    }
  AntennaPcoList l(AntennaPco(ObservationCode("L1C"), SATELLITE_SYSTEM::gps));
  int st = x.get_antenna_pco(ra, l, must);
  auto &v = l.__vecref__();
  if (exact >= 0 || (want >= 0 && !must)) {
    vf_assert(st == 0, "antenna-found"); vf_assert(v.size() == 1, "only-its-offsets");
    int k = exact >= 0 ? exact : want;
    double nv = seen(v[0]).v[0];
    bool ok = nv == k + 0.25;
    if (exact < 0) for (int i = 0; i < n; i++) ok |= sameModel(r[i], q) && r[i].sl == 0 && nv == i + 0.25;
    vf_assert(ok, "offsets-of-the-antenna");
    if (exact >= 0) vf_reach("exact"); else vf_reach("model");
  } else {
    vf_assert(st == (want >= 0 ? 10 : 1), want >= 0 ? "serial-differs" : "not-in-file"); vf_assert(v.empty(), "no-offsets");
    vf_reach("none");
  }
}
H(c25_one) {
  Atx f; f.head(); Ant r; rec(f, r, 0, 4, 4);
  Antex x(f.install("x.atx"));
  query(x, &r, 1, 4, 4, vf_choice(2, "must"));
}
H(c25_two) {
  Atx f; f.head(1); Ant r[2];
  for (int i = 0; i < 2; i++) rec(f, r[i], i, 2, 3);
  Antex x(f.install("x.atx"));
  query(x, r, 2, 2, 3, vf_choice(2, "must"));
}
H(c25_three) { // a whole calibration between
  Atx f; f.head(); Ant r[3];
  for (int i = 0; i < 3; i++) rec(f, r[i], i, 1, 2);
  Antex x(f.install("x.atx"));
  query(x, r, 3, 1, 2, vf_choice(2, "must"));
}
H(c25_again) { // the answer does not depend on what was asked before
  Atx f; f.head(); Ant r[2];
  for (int i = 0; i < 2; i++) rec(f, r[i], i, 2, 2);
  Antex x(f.install("x.atx"));
  int which = vf_choice(3, "before");
  AntennaPcoList l; Satellite sv;
  if (which == 0) query(x, r, 2, 2, 2, vf_choice(2, "must"));
  else if (which == 1) x.get_satellite_info(1, SATELLITE_SYSTEM::gps, T(modified_julian_day(50000), seconds(0)), sv);
  else { x.get_antenna_pco(ReceiverAntenna("NOSUCHANTENNA   NONE"), l); vf_assert(l.__vecref__().empty(), "no-offsets"); }
  query(x, r, 2, 2, 2, vf_choice(2, "must"));
}
H(c25_reset) { // another file
  Atx f, g; f.head(); g.head(3); Ant r[2];
  rec(f, r[0], 0, 2, 2); rec(g, r[1], 0, 2, 2);
  Antex x(f.install("a.atx"));
  const char *gn = g.install("b.atx");
  if (vf_choice(2, "ask")) query(x, r, 1, 2, 2, false);
  x.reset_to_file(gn);
  query(x, r + 1, 1, 2, 2, false);
}
H(c25_header) {
  Atx f; int bad = vf_choice(5, "bad");
  f.lab(bad == 1 ? "     2.0            M" : "     1.4            M", "ANTEX VERSION / SYST");
  if (bad != 2) f.lab(bad == 3 ? "R" : "A", "PCV TYPE / REFANT");
  if (bad != 4) f.lab("", "END OF HEADER");
  Ant r; r.m = 0; r.sl = 0; memset(r.s, ' ', 20);
  f.start(MODEL[0]); f.nfreq(1); f.freq("   G01", 0); f.end();
  const char *n = f.install("x.atx");
  bool ok = true;
  try { Antex x(n); } catch (std::runtime_error &) { ok = false; }
  vf_assert(ok == (bad == 0), "accepted-exactly-when-absolute-antex-1.4");
  vf_reach("done");
}
H(c25_missing) {
  bool ok = true;
  try { Antex x("none.atx"); } catch (std::runtime_error &) { ok = false; }
  vf_assert(!ok, "missing-file-refused"); vf_reach("done");
}
// ---- C26
static T date(char *p, int k) {
  static const char *ym[] = {"  2009    12", "  2016     2", "  2016     3"};
  static const int y[] = {2009, 2016, 2016}, m[] = {12, 2, 3}, nd[] = {31, 29, 31};
  put(p, ym[k]); put(p + 12, "    00    00    00   00.0000000");
  int d = digs(p + 16, 2, "day"), h = digs(p + 22, 2, "hour"), mi = digs(p + 28, 2, "min"), s = digs(p + 33, 2, "sec");
  vf_assume((d >= 1) & (d <= nd[k]) & (h < 24) & (mi < 60) & (s < 60));
  return T(year(y[k]), month(m[k]), day_of_month(d), hours(h), minutes(mi), seconds(s));
}
struct Sat { char sys; int prn, svn; bool hassvn, hascos, rx, all, open; T from, to; const char *type; char cos[10]; };
static const char *SYS = "GREC";
static const char *TYPE[] = {"BLOCK IIA           ", "GLONASS-M           "};
// kinds: 0 complete, 1 without SVN and COSPAR, 2 a receiver antenna, 3 without satellite code, 4 with the SVN of another system
static Sat satrec(Atx &f, int kinds, int nsys, int k0, int k1, int num, bool openq = true) {
  Sat s; int kind = vf_choice(kinds, "kind");
  s.rx = kind == 2; s.all = kind >= 3; s.hascos = kind == 0; s.hassvn = kind == 0 || kind == 4;
  s.type = TYPE[kinds == 5 && nsys == 4 ? vf_choice(2, "type") : num & 1];
  if (s.rx) { f.start(MODEL[0]); f.nfreq(1); f.freq("   G01", num); f.end(); return s; }
  char *p = f.start(s.type);
  s.sys = SYS[vf_choice(nsys, "sys")]; s.prn = 0; s.svn = -1;
  if (kind != 3) {
    p[20] = s.sys; s.prn = digs(p + 21, 2, "prn");
    if (s.hassvn) { p[40] = kind == 4 ? SYS[(strchr(SYS, s.sys) - SYS + 1 + vf_choice(3, "other")) % 4] : s.sys; s.svn = digs(p + 41, 3, "svn"); }
    if (s.hascos) {
      vf_sym(s.cos, 9, "cospar");
      for (int i = 0; i < 9; i++) { vf_assume((s.cos[i] > ' ') & (s.cos[i] <= 'Z')); p[50 + i] = s.cos[i]; }
    }
  }
  f.nfreq(1);
  s.from = date(f.lab("", "VALID FROM"), k0);
  s.open = openq && vf_choice(2, "open");
  if (!s.open) s.to = date(f.lab("", "VALID UNTIL"), k1);
  f.lab("IGS08_1604", "SINEX CODE"); f.lab("a comment", "COMMENT");
  f.freq("   G01", num); f.end();
  return s;
}
static void ask(Antex &x, const Sat *r, int n, int nsys, int nhow = 3) {
  char sys = SYS[vf_choice(nsys, "qsys")];
  int prn = vf_range(0, 99, "qprn");
  T at(modified_julian_day(vf_range(50000, 60000, "qday")), seconds(vf_range(0, 86399, "qsec")));
  int want = -1;
  for (int i = n - 1; i >= 0; i--)
    if (!r[i].rx && !r[i].all && r[i].sys == sys && r[i].prn == prn && r[i].from <= at && (r[i].open || at <= r[i].to)) want = i;
  int how = nhow == 3 ? vf_choice(3, "how") : nhow;
  Satellite sv; AntennaPcoList l(AntennaPco(ObservationCode("L1C"), SATELLITE_SYSTEM::gps));
  int st = how == 0 ? x.get_satellite_info(prn, char_to_satsys(sys), at, sv) : x.get_antenna_pco(prn, char_to_satsys(sys), at, l, how == 1 ? &sv : nullptr);
  if (want < 0) {
    vf_assert(st > 0, "no-antenna-valid-at-the-epoch"); if (how) vf_assert(l.__vecref__().empty(), "no-offsets");
    vf_reach("none");
    return;
  }
  const Sat &s = r[want];
  vf_assert(st == 0, "antenna-found");
  if (how) { auto &v = l.__vecref__(); vf_assert(v.size() == 1 && seen(v[0]).v[0] == want + 0.25, "offsets-of-the-record"); }
  if (how != 2) {
    vf_assert(sv.prn() == s.prn && sv.system() == char_to_satsys(sys), "satellite-of-the-record");
    vf_assert(sv.svn() == s.svn, "svn-of-the-record");
    
    vf_assert(sv.antenna().is_same(s.type), "antenna-type-of-the-record");
    if (s.hascos) vf_assert(vf_same(sv.cospar(), s.cos, 9) & (sv.cospar()[9] == 0 || sv.cospar()[9] == ' '), "cospar-of-the-record");
    else vf_assert(sv.cospar()[0] == Satellite().cospar()[0], "no-cospar");
  }
  vf_reach("found");
}
H(c26_one) {
  Atx f; f.head();
  Sat s = satrec(f, 5, 4, vf_choice(3, "m0"), vf_choice(3, "m1"), 0);
  Antex x(f.install("x.atx"));
  ask(x, &s, 1, 4);
}
H(c26_two) {
  Atx f; f.head(1); Sat s[2];
  s[0] = satrec(f, 4, 2, 0, 1, 0); s[1] = satrec(f, 2, 2, 1, 2, 1);
  Antex x(f.install("x.atx"));
  ask(x, s, 2, 2, 1);
}
H(c26_three) { // successive users of one PRN
  Atx f; f.head(); Sat s[3];
  for (int i = 0; i < 3; i++) s[i] = satrec(f, 1, 1, i, i, i, i == 2);
  Antex x(f.install("x.atx"));
  ask(x, s, 3, 1, 1);
}
H(c26_again) {
  Atx f; f.head(); Sat s[2];
  s[0] = satrec(f, 2, 1, 0, 1, 0); s[1] = satrec(f, 1, 1, 1, 2, 1);
  Antex x(f.install("x.atx"));
  if (vf_choice(2, "other")) { AntennaPcoList l; x.get_antenna_pco(ReceiverAntenna("NOSUCHANTENNA   NONE"), l); }
  else ask(x, s, 2, 1, 0);
  ask(x, s, 2, 1, 1);
}
H(c26_no_interval) { // without VALID FROM no satellite record is ever valid
  Atx f; f.head();
  f.start("BLOCK IIA           G05"); f.nfreq(1);
  if (vf_choice(2, "until")) date(f.lab("", "VALID UNTIL"), 2);
  f.freq("   G01", 0); f.end();
  Sat s = satrec(f, 1, 1, 0, 1, 1);
  Antex x(f.install("x.atx"));
  Sat all[2]; all[0] = s; all[0].rx = true; all[1] = s;
  ask(x, all, 2, 1);
}
// ---- C27
// a F10.2 field of any digits; returns its value
static double f10(char *p, int k) {
  static const int nd[] = {1, 3, 6};
  for (int i = 0; i < 7; i++) p[i] = ' ';
  int n = nd[k], c = 7 - n;
  char sg = vf_byte("sign"); vf_assume((sg == '-') | (sg == ' '));
  p[c - 1] = sg;
  int w = digs(p + c, n, "whole"); p[7] = '.'; int fr = digs(p + 8, 2, "frac");
  (void)w; (void)fr;
  char t[11]; memcpy(t, p, 10); t[10] = 0;
  return strtod(t, nullptr);
}
struct Fq { char sys; int band; double v[3]; };
static Fq freqrec(Atx &f, int nsys, bool sym, bool rms) {
  Fq q; q.sys = "GRECJS"[vf_choice(nsys, "sys")];
  char code[8] = "   G01";
  code[3] = q.sys;
  f.lab(code, "START OF FREQUENCY"); 
  char *p = f.lab("      0.25      1.50     59.75", "NORTH / EAST / UP");
  // band digit of the line before
  char *bl = p; do bl--; while (bl > f.b && bl[-1] != '\n');
  q.band = digs(bl + 5, 1, "band"); vf_assume(q.band >= 1);
  for (int i = 0; i < 3; i++) q.v[i] = sym ? f10(p + 10 * i, vf_choice(3, "width")) : 0;
  if (!sym) { p[6] = (char)('0' + digs(p + 6, 1, "north")); char t[11]; memcpy(t, p, 10); t[10] = 0; q.v[0] = strtod(t, nullptr); q.v[1] = 1.5; q.v[2] = 59.75; }
  f.grid(); f.lab(code, "END OF FREQUENCY");
  if (rms) { f.lab(code, "START OF FREQ RMS"); f.lab("      0.09      0.09      0.09", "NORTH / EAST / UP"); f.grid(); f.lab(code, "END OF FREQ RMS"); }
  return q;
}
static void check(AntennaPcoList &l, const Fq *q, int n) {
  auto &v = l.__vecref__();
  vf_assert((int)v.size() == n, "one-offset-per-frequency");
  for (int i = 0; i < n; i++) {
    Pco p = seen(v[i]);
    vf_assert(p.sys == q[i].sys, "system-of-the-frequency");
    vf_assert(p.code.size() > 1 && p.code[1] == (char)('0' + q[i].band), "band-of-the-frequency");
    for (int j = 0; j < 3; j++) vf_assert_eqd(p.v[j], q[i].v[j], "offset-as-written");
  }
  vf_reach("done");
}
H(c27_values) {
  Atx f; f.head(); f.start(MODEL[0]); f.nfreq(1);
  Fq q = freqrec(f, 1, true, false); f.end();
  Antex x(f.install("x.atx"));
  AntennaPcoList l;
  vf_assert(x.get_antenna_pco(ReceiverAntenna(MODEL[0]), l) == 0, "antenna-found");
  check(l, &q, 1);
}
static void many(int nmax, bool sat, int nsys) {
  Atx f; f.head(); int n = vf_choice(nmax + 1, "nfreq"); Fq q[4];
  char *p = f.start(sat ? "BLOCK IIA           G05                 G022      1990-088A" : MODEL[0]); (void)p;
  f.nfreq(n);
  if (sat) f.lab("  1992    11    22     0     0    0.0000000", "VALID FROM");
  if (vf_choice(2, "comment")) f.lab("a comment", "COMMENT");
  for (int i = 0; i < n; i++) q[i] = freqrec(f, nsys, false, vf_choice(2, "rms"));
  if (n == 0) f.freq("   G01", 1);
  f.end();
  f.start("OTHER           NONE"); f.nfreq(1); f.freq("   G02", 7); f.end();
  Antex x(f.install("x.atx"));
  AntennaPcoList l;
  int st = sat ? x.get_antenna_pco(5, SATELLITE_SYSTEM::gps, T(modified_julian_day(55000), seconds(0)), l) : x.get_antenna_pco(ReceiverAntenna(MODEL[0]), l);
  vf_assert(st == 0, "antenna-found");
  check(l, q, n);
}
H(c27_receiver) { many(2, false, 6); }
H(c27_satellite) { many(2, true, 6); }
H(c27_three) { many(3, vf_choice(2, "sat"), 1); }
// calibrations of the size that is published: many frequencies, fine grids, many other antennas before
static void large(bool sat) {
  static const struct { int nf, cols, rows; } SH[] = {{1, 19, 181}, {6, 19, 73}, {25, 62, 1}, {1, 61, 73}, {12, 19, 0}, {25, 19, 73}};
  int k = vf_choice(6, "shape"), nf = SH[k].nf, before = vf_choice(2, "before") ? 60 : 1;
  Atx f(1600000); f.head(vf_choice(2, "comments") ? 970 : 0);
  const char *me = sat ? "BLOCK IIA           G05                 G022      1990-088A" : MODEL[0];
  for (int i = 0; i <= before; i++) {
    bool big = i + 1 >= before; // the one before is as large
    f.cols = big ? SH[k].cols : 5; f.rows = big ? SH[k].rows : 1;
    f.start(i < before ? sat ? "BLOCK IIA           G06                 G023      1991-088A" : "OTHER           NONE" : me);
    f.nfreq(big ? nf : 1);
    if (sat) f.lab("  1992    11    22     0     0    0.0000000", "VALID FROM");
    if (i < before) { for (int j = 0; j < (big ? nf : 1); j++) f.freq("   G01", 7); f.end(); }
  }
  Fq q[25];
  for (int j = 0; j < nf; j++) {
    char *p = f.freq(j % 2 ? "   E05" : "   G02", 0);
    q[j].sys = j % 2 ? 'E' : 'G'; q[j].band = j % 2 ? 5 : 2; q[j].v[1] = 1.5; q[j].v[2] = 59.75;
    int n = (j + 3) % 10;
    if (j + 1 == nf) {
      char *bl = p; do bl--; while (bl > f.b && bl[-1] != '\n');
      q[j].band = digs(bl + 5, 1, "band"); vf_assume(q[j].band >= 1);
    }
    p[6] = (char)('0' + n); q[j].v[0] = n + .25;
  }
  f.end();
  Antex x(f.install("x.atx"));
  AntennaPcoList l;
  int st = sat ? x.get_antenna_pco(5, SATELLITE_SYSTEM::gps, T(modified_julian_day(55000), seconds(0)), l) : x.get_antenna_pco(ReceiverAntenna(MODEL[0]), l);
  vf_assert(st == 0, "antenna-found");
  check(l, q, nf);
}
H(c25_large) { large(false); }
H(c26_large) { large(true); }
H(c27_large) { large(vf_choice(2, "sat")); }
