// C12 observation header, C13 observation types, C14 epochs, C15 combinations
#include "fbuf.h"
#include "cout.h"
#include "obsrnx.hpp"
#include <cerrno>
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
struct Obs : FBuf {
  Obs(int cap = 12000) : FBuf(cap) {}
  char *lab(const char *t, const char *l) { char *p = line(t, 60); n--; raw(l); b[n++] = '\n'; return p; }
  void first(char sys = 'M') { char *p = line("     3.04           OBSERVATION DATA    M (MIXED)", 60); p[40] = sys; n--; raw("RINEX VERSION / TYPE\n"); }
  void eoh() { lab("", "END OF HEADER"); }
};
static bool opened(const char *fn, ObservationRnx *&s) {
  errno = vf_choice(2, "errno") ? ERANGE : 0;
  try { s = new ObservationRnx(fn); } catch (std::runtime_error &) { s = nullptr; }
  return s != nullptr;
}
static std::string trimmed(const char *p, int n) { while (n > 0 && p[n - 1] == ' ') n--; return std::string(p, n); }
static double num(const char *p, int n) { char t[32]; memcpy(t, p, n); t[n] = 0; return strtod(t, nullptr); }
struct Head { Obs f; char *name, *number, *rec, *ant, *pos, *ecc, *first; };
static void others(Obs &f) { // lines about something else, with different contents
  f.lab("ngpt                NTUA                20200107 000000 UTC", "PGM / RUN BY / DATE"); f.lab("GEODETIC", "MARKER TYPE"); f.lab("observer            agency", "OBSERVER / AGENCY");
  f.lab("        9.1000        9.0200        9.0030", "ANTENNA: DELTA X/Y/Z"); f.lab("DBHZ", "SIGNAL STRENGTH UNIT"); f.lab("    30.000", "INTERVAL");
  f.lab("  2021    02    07    01    01   31.0000000     GPS", "TIME OF LAST OBS"); f.lab("    18", "LEAP SECONDS"); f.lab("    40", "# OF SATELLITES"); f.lab("   G05   321   322   323", "PRN / # OF OBS");
  f.lab("G L1C  0.25000", "SYS / PHASE SHIFT"); f.lab("     9     MARKER NAME", "COMMENT");
}
static void header(Head &h, int perm, bool clk) {
  Obs &f = h.f;
  f.first();
  int other = vf_choice(VF_T(2, 3), "others");
  if (other != 1) others(f);
  for (int i = 0; i < 8; i++) {
    int k = (i * (perm ? 3 : 1) + perm) % 8;
    switch (k) {
    case 0: h.name = f.lab("DYNG", "MARKER NAME"); break;
    case 1: h.number = f.lab("12602M006", "MARKER NUMBER"); break;
    case 2: h.rec = f.lab("5218K84761          TRIMBLE NETR9       5.45", "REC # / TYPE / VERS"); break;
    case 3: h.ant = f.lab("1441112501          TRM59900.00     SCIS", "ANT # / TYPE"); break;
    case 4: h.pos = f.lab("  4595219.9670  2039453.0690  3912626.7850", "APPROX POSITION XYZ"); break;
    case 5: h.ecc = f.lab("        0.1000        0.0200        0.0030", "ANTENNA: DELTA H/E/N"); break;
    case 6: f.lab("a comment", "COMMENT"); f.lab("G    3 C1C L1C D1C", "SYS / # / OBS TYPES"); break;
    default: f.lab(clk ? "     1" : "     0", "RCV CLOCK OFFS APPL");
    }
  }
  h.first = f.lab("  2020    01    06    00    00    0.0000000     GPS", "TIME OF FIRST OBS");
  if (other) others(f);
  f.eoh();
}
H(c12_names) { // text fields are reported in full, without trailing blanks
  Head h;
  header(h, vf_choice(VF_T(2, 4), "order"), false);
  int k = vf_choice(4, "field");
  char *p = k == 0 ? h.name : k == 1 ? h.number : k == 2 ? h.rec : h.rec + 20;
  int n = k == 0 ? VF_T(24, 60) : 20;
  text(p, n, "field");
  ObservationRnx *s;
  vf_assert(opened(h.f.install("o.rnx"), s), "header-read");
  std::vf_cout.v.clear();
  s->print_members();
  const VfItem *a = shown("Marker Name"), *b = shown("Marker Number"), *c = shown("Receiver Sn"), *d = shown("Receiver Type");
  vf_assert(a && a->s == trimmed(h.name, 60), "marker-name");
  vf_assert(b && b->s == trimmed(h.number, 20), "marker-number");
  vf_assert(c && c->s == trimmed(h.rec, 20), "receiver-number");
  vf_assert(d && d->s == trimmed(h.rec + 20, 20), "receiver-type");
  vf_reach("done");
}
H(c12_long) { // a header of nearly a thousand lines, the fields at its start or end
  static const int ns[] = {40, 480, 950};
  int n = ns[vf_choice(3, "lines")], at = vf_choice(3, "where");
  Obs f(4000 + n * 85); f.first();
  char *a = nullptr, *c = nullptr;
  for (int i = 0; i <= n; i++) {
    if (i == (at == 0 ? 0 : at == 1 ? n / 2 : n)) {
      a = f.lab("DYNG", "MARKER NAME"); f.lab("12602M006", "MARKER NUMBER"); c = f.lab("5218K84761          TRIMBLE NETR9       5.45", "REC # / TYPE / VERS"); f.lab("1441112501          TRM59900.00     SCIS", "ANT # / TYPE");
      f.lab("  4595219.9670  2039453.0690  3912626.7850", "APPROX POSITION XYZ"); f.lab("        0.1000        0.0200        0.0030", "ANTENNA: DELTA H/E/N"); f.lab("G    3 C1C L1C D1C", "SYS / # / OBS TYPES"); f.lab("  2020    01    06    00    00    0.0000000     GPS", "TIME OF FIRST OBS");
    }
    f.lab(i % 3 ? "   G05   321   322   323" : "     9     MARKER NAME", i % 3 ? "PRN / # OF OBS" : "COMMENT");
  }
  f.eoh();
  text(a, 3, "name"); text(c + 22, 4, "receiver");
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  std::vf_cout.v.clear();
  s->print_members();
  const VfItem *x = shown("Marker Name"), *y = shown("Receiver Type");
  vf_assert(x && x->s == trimmed(a, 60), "marker-name");
  vf_assert(y && y->s == trimmed(c + 20, 20), "receiver-type");
  vf_reach("done");
}
H(c12_antenna) { // the antenna of the header: model, radome and whether it has a serial number
  Head h;
  header(h, 1, false);
  int form = vf_choice(3, "form");
  text(h.ant, 20, "serial"); text(h.ant + 20, 16, "model");
  vf_assume(h.ant[20] != ' ');
  if (form == 0) text(h.ant + 36, 4, "radome"); else put(h.ant + 36, form == 1 ? "    " : "NONE");
  for (int i = 21; i < 36; i++) if (i % 4 != 2) vf_assume(h.ant[i] != ' ');
  if (form == 0) for (int i = 36; i < 40; i++) vf_assume(h.ant[i] != ' ');
  ObservationRnx *s;
  vf_assert(opened(h.f.install("o.rnx"), s), "header-read");
  std::vf_cout.v.clear();
  s->print_members();
  const VfItem *a = shown("Antenna Type"), *b = shown("Antenna Sn");
  char w[20]; memcpy(w, h.ant + 20, 20);
  if (form == 1) put(w + 16, "NONE");
  vf_assert(a && a->s.size() >= 20 && vf_same(a->s.data(), w, 20), "antenna-type");
  bool any = false;
  for (int i = 0; i < 20; i++) any |= h.ant[i] != ' ';
  vf_assert(b && (b->i != 0) == any, "antenna-serial");
  vf_reach("done");
}
H(c12_numbers) { // coordinates and eccentricities as written, whatever stands next to them
  Head h;
  header(h, vf_choice(2, "order"), false);
  int k = vf_choice(6, "field");
  char *p = (k < 3 ? h.pos : h.ecc) + 14 * (k % 3);
  static const char *form[] = {"  4595219.9670", "-34595219.9670", "        0.0000"};
  int g = vf_choice(3, "form");
  put(p, form[g]);
  digs(p + 10, 4, "fraction");
  digs(p + 8, 1, "unit");
  if (g < 2) digs(p + 3, 1, "large");
  ObservationRnx *s;
  vf_assert(opened(h.f.install("o.rnx"), s), "header-read");
  vf_assert(s->x_approx() == num(h.pos, 14), "x");
  vf_assert(s->y_approx() == num(h.pos + 14, 14), "y");
  vf_assert(s->z_approx() == num(h.pos + 28, 14), "z");
  std::vf_cout.v.clear();
  s->print_members();
  auto &v = std::vf_cout.v;
  bool seen = false;
  for (size_t i = 0; i + 6 < v.size(); i++) if (v[i].kind == 1 && v[i].s.find("Eccentricity") != std::string::npos) {
    seen = true;
    for (int j = 0; j < 3; j++) vf_assert(v[i + 1 + 2 * j].d == num(h.ecc + 14 * j, 14), "eccentricity");
  }
  vf_assert(seen, "eccentricity-shown");
  vf_reach("done");
}
H(c12_first) { // system, clock correction and time of first observation
  Head h;
  bool clk = vf_choice(2, "clock") == 1;
  header(h, 0, clk);
  int mi = digs(h.first + 28, 2, "minute"), hh = digs(h.first + 22, 2, "hour"), sc = digs(h.first + 33, 2, "second");
  vf_assume((hh < 24) & (mi < 60) & (sc < 60));
  put(h.first + 35, "        ");
  put(h.first + 48, "GPS");
  char c; vf_sym(&c, 1, "system");
  static const char sys[] = "GRESCJIM";
  static const S want[] = {S::gps, S::glonass, S::galileo, S::sbas, S::beidou, S::qzss, S::irnss, S::mixed};
  int k = -1;
  for (int i = 0; i < 8; i++) if (c == sys[i]) k = i;
  h.f.b[40] = c;
  vf_assume(c != '\n');
  ObservationRnx *s;
  bool ok = opened(h.f.install("o.rnx"), s);
  if (k < 0) { vf_assert(!ok, "unknown-system-refused"); vf_reach("refused"); return; }
  vf_assert(ok, "header-read");
  std::vf_cout.v.clear();
  s->print_members();
  const VfItem *a = shown("Satellite Sys"), *b = shown("Rcv Clk Off");
  vf_assert(a && a->s.size() == 1 && a->s[0] == satsys_to_char(want[k]), "system");
  vf_assert(b && b->s == (clk ? "Yes" : "No"), "clock-offset-applied");
  datetime<microseconds> t = s->time_of_first_obs();
  vf_assert(t.mjd().as_underlying_type() == 58854, "first-day");
  vf_assert(t.sec().as_underlying_type() == (hh * 3600L + mi * 60 + sc) * 1000000L, "first-second");
  vf_reach("done");
}
// ---------------------------------------------------------- observation types
static const char *types[] = {"C1C", "L1C", "D1C", "S1C", "C1W", "L1W", "C2W", "L2W", "D2W", "S2W", "C2L", "L2L", "D2L", "S2L", "C5Q", "L5Q", "D5Q", "S5Q",
                              "C1P", "L1P", "C2P", "L2P", "C2C", "L2C", "C7Q", "L7Q", "C8Q", "L8Q", "C6C", "L6C"};
static void table(Obs &f, char sys, int n, char **at, int from = 0) { // at[i]: where type i stands
  for (int i = 0; i < n; i++) {
    if (i % 13 == 0) {
      char b[8]; snprintf(b, sizeof b, "%c  %3d", sys, n);
      char *p = f.lab(i ? "" : b, "SYS / # / OBS TYPES");
      for (int j = 0; j < 13 && i + j < n; j++) { at[i + j] = p + 7 + 4 * j; put(at[i + j], types[(from + i + j) % 30]); }
    }
  }
}
typedef std::map<S, std::vector<GnssObservable>> Req;
static GnssObservable one(S s, const char *c, double k = 1e0) { return GnssObservable(s, ObservationCode(c), k); }
// column of a type in a system's table, or -1
static int column(char **at, int n, const char *c) { int r = -1; for (int i = n; i-- > 0;) if (vf_same(at[i], c, 3)) r = i; return r; }
H(c13_columns) { // the read map gives the column of each requested type
  static const int cnt[] = {1, 13, 14, 27, 26, 12, 3};
  Obs f; f.first();
  char *g[100], *r[100];
  int ng = vf_pick(cnt, VF_T(4, 7), "ngps"), nr = vf_pick(cnt, VF_T(3, 6), "nglo");
  table(f, 'G', ng, g); f.lab("x", "COMMENT"); table(f, 'R', nr, r, 11);
  f.eoh();
  char c[4] = {0};
  int k = vf_choice(3, "which");
  if (k < 2) { int nt = k ? nr : ng, i0 = vf_choice(std::min(nt, VF_T(7, 27)), "type"); char *t = (k ? r : g)[nt <= VF_T(7, 27) ? i0 : i0 < 3 ? i0 : i0 < 5 ? std::min(12 + i0 - 3, nt - 1) : nt - 1 - (i0 - 5)]; for (int i = 0; i < 3; i++) c[i] = t[i]; } // a type one of the systems has
  else { put(c, "C9X"); }
  // one type of the GPS table is arbitrary
  int v = vf_choice(3, "at") * (ng - 1) / 2;
  vf_sym(g[v], 3, "code");
  vf_assume((g[v][0] == 'C') | (g[v][0] == 'L') | (g[v][0] == 'D') | (g[v][0] == 'S'));
  vf_assume((g[v][1] >= '1') & (g[v][1] <= '8'));
  vf_assume((g[v][2] >= 'A') & (g[v][2] <= 'Z'));
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  vf_assert(s->max_obs() == (ng > nr ? ng : nr), "max-obs");
  Req q;
  bool skip = vf_choice(2, "skip") == 1;
  q[S::gps].push_back(one(S::gps, c));
  q[S::glonass].push_back(one(S::glonass, c, 0.5));
  int ig = column(g, ng, c), ir = column(r, nr, c);
  auto m = s->set_read_map(q, skip);
  if (!skip && (ig < 0 || ir < 0)) { vf_assert(m.empty(), "missing-type-gives-empty-map"); vf_reach("empty"); return; }
  vf_assert((m.count(S::gps) == 1) == (ig >= 0) && (m.count(S::glonass) == 1) == (ir >= 0), "systems-of-the-map");
  vf_assert(q[S::gps].size() == (ig >= 0 ? 1 : 0) && q[S::glonass].size() == (ir >= 0 ? 1 : 0), "request-keeps-what-is-read");
  if (ig >= 0) { auto &x = m[S::gps]; vf_assert(x.size() == 1 && x[0].size() == 1 && (long)x[0][0].first == ig && x[0][0].second == 1e0, "gps-column"); vf_reach("gps"); }
  if (ir >= 0) { auto &x = m[S::glonass]; vf_assert(x.size() == 1 && x[0].size() == 1 && (long)x[0][0].first == ir && x[0][0].second == 0.5, "glonass-column"); vf_reach("glonass"); }
}
H(c13_large) { // many types of many systems, and the values in their columns
  static const int cnt[] = {39, 40, 65, 99};
  static const char sy[] = "RECJSG";
  static const S ss[] = {S::glonass, S::galileo, S::beidou, S::qzss, S::sbas, S::gps};
  int n = cnt[vf_choice(4, "types")], k = vf_choice(6, "system"), of[6];
  Obs f(40000); f.first();
  char *g[6][100];
  for (int i = 0; i < 6; i++) { of[i] = i == k ? n : 13 + i; table(f, sy[i], of[i], g[i]); for (int j = 0; j < of[i]; j++) { int x = j + 7 * i; g[i][j][0] = "CLDS"[x % 4]; g[i][j][1] = '1' + x / 4 % 8; g[i][j][2] = 'A' + x / 32; } }
  f.eoh();
  static const int at[] = {0, 12, 13, 25, 38, -1};
  int c = at[vf_choice(6, "column")]; if (c < 0) c = n - 1;
  char code[4] = {0}; for (int i = 0; i < 3; i++) code[i] = g[k][c][i];
  f.line("> 2020 01 06 00 00  0.0000000  0  2");
  char *p[2];
  for (int j = 0; j < 2; j++) {
    int y = j ? k : (k + 1) % 6;
    char b[24] = {sy[y], '0', (char)('3' + j), 0};
    p[j] = f.line(b, 3 + 16 * of[y]);
    for (int i = 0; i < of[y]; i++) { put(p[j] + 3 + 16 * i + 2, "20123456.789"); p[j][3 + 16 * i + 12] = '0' + i / 10; p[j][3 + 16 * i + 13] = '0' + i % 10; }
  }
  digs(p[1] + 3 + 16 * c + 7, 2, "value");
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  vf_assert(s->max_obs() == n, "max-obs");
  Req q; q[ss[k]].push_back(one(ss[k], code, 0.5));
  auto m = s->set_read_map(q);
  vf_assert(m.size() == 1 && m[ss[k]].size() == 1 && m[ss[k]][0].size() == 1 && (long)m[ss[k]][0][0].first == c && m[ss[k]][0][0].second == 0.5, "column");
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec = -1;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 1, "epoch");
  vf_assert(v[0].first.system() == ss[k] && v[0].first.prn() == 4, "satellite");
  vf_assert(v[0].second[0] == 0.5 * num(p[1] + 3 + 16 * c, 14), "value");
  vf_reach("done");
}
H(c13_combination) { // columns and coefficients of a combination; mixed systems are refused
  Obs f; f.first();
  char *g[40], *e[40];
  table(f, 'G', 18, g); table(f, 'E', 14, e, 7);
  f.eoh();
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  double k1 = vf_range(1, 2000000000, "k1") / 1048576.0, k2 = -(vf_range(1, 2000000000, "k2") / 262144.0);
  int a = vf_choice(18, "a"), b = vf_choice(20, "b"), z = vf_choice(2, "mixed");
  GnssObservable o = one(S::gps, types[a], k1);
  o.add(z ? S::galileo : S::gps, ObservationCode(types[b]), k2);
  Req q;
  bool skip = vf_choice(2, "skip") == 1;
  int pre = vf_choice(2, "before");
  if (pre) q[S::gps].push_back(one(S::gps, "D1C"));
  q[S::gps].push_back(o); q[S::gps].push_back(one(S::gps, "S5Q")); q[S::galileo].push_back(one(S::galileo, "L2W"));
  auto m = s->set_read_map(q, skip);
  if (z || (b >= 18 && !skip)) { vf_assert(m.empty(), "refused"); vf_reach("refused"); return; }
  vf_assert(m.size() == 2 && m.count(S::gps) && m.count(S::galileo), "systems");
  auto &x = m[S::gps];
  size_t i = pre, np = pre;
  if (b < 18) {
    vf_assert(x.size() == 2 + np && q[S::gps].size() == 2 + np, "observables");
    vf_assert(x[i].size() == 2, "terms");
    vf_assert((long)x[i][0].first == a && x[i][0].second == k1, "first-term");
    vf_assert((long)x[i][1].first == b && x[i][1].second == k2, "second-term");
    i++; vf_reach("combination");
  } else { vf_assert(x.size() == 1 + np && q[S::gps].size() == 1 + np && q[S::gps][pre] == one(S::gps, "S5Q"), "incomplete-one-left-out"); vf_reach("left-out"); }
  if (pre) vf_assert(x[0].size() == 1 && x[0][0].first == 2 && x[0][0].second == 1e0 && q[S::gps][0] == one(S::gps, "D1C"), "before");
  vf_assert(x[i].size() == 1 && x[i][0].first == 17 && x[i][0].second == 1e0, "last");
  vf_assert(m[S::galileo].size() == 1 && m[S::galileo][0].size() == 1 && m[S::galileo][0][0].first == 0, "other-system");
}
H(c13_bad_header) { // tables that cannot be right
  int k = vf_choice(8, "kind");
  Obs f; f.first();
  char *g[40];
  table(f, 'G', 14, g); f.lab("R    2 C1C L1C", "SYS / # / OBS TYPES");
  char *p = f.b + 81;
  if (k == 0) { vf_sym(p, 1, "system"); for (const char *c = "GRESCJIM\n"; *c; c++) vf_assume(*p != *c); }
  else if (k == 1) p[0] = 'R';                                                       // twice
  else if (k == 2) put(p + 3, vf_choice(2, "n") ? "  0" : " -1");
  else if (k == 3) put(p + 3, "   ");
  else if (k == 4) put(p + 3, " 15");                                               // fewer types than announced
  else if (k == 5) { char *q = g[0] + 4 * vf_choice(13, "type"); vf_sym(q, 1, "letter"); for (const char *c = "CLDSIX\n"; *c; c++) vf_assume(*q != *c); vf_assume(*q != 0); }
  else if (k == 6) put(g[13] - 7, "E");                                             // continuation of another system
  else put(g[13] - 7 + 60, "COMMENT            ");
  f.eoh();
  ObservationRnx *s;
  vf_assert(!opened(f.install("o.rnx"), s), "refused");
  vf_reach("done");
}
// -------------------------------------------------------------------- epochs
static const char *eps[] = {"> 2020 01 06 00 00  0.0000000  0  3", "> 2020 01 06 00 00 30.0000000  0  1"};
static void obshead(Obs &f, int ng = 5, int ne = 3, int nr = 2) {
  char *g[40];
  f.first(); table(f, 'G', ng, g); table(f, 'E', ne, g, 14); table(f, 'R', nr, g, 0); f.eoh();
}
// a satellite record: distinct values in every column
static char *sat(Obs &f, const char *name, int n, int seed) {
  char *p = f.line(name, 3 + 16 * n);
  for (int i = 0; i < n; i++) { char b[24]; snprintf(b, sizeof b, "%14s", "20123456.789"); put(p + 3 + 16 * i, b); p[3 + 16 * i + 3] = '0' + i % 10; p[3 + 16 * i + 4] = '0' + seed; }
  return p;
}
static const double miss = RNXOBS_MISSING_VAL;
H(c14_values) { // the value of each requested type of each satellite, from its own columns
  Obs f; obshead(f);
  f.line(eps[0]);
  char *a = sat(f, "G05", 5, 1), *b = sat(f, "R11", 2, 2), *c = sat(f, "E24", 3, 3);
  bool nl = vf_choice(2, "newline") == 1;
  // one field with any contents
  int k = vf_choice(4, "field");
  char *p = k < 2 ? a + 3 + 16 * (k * 4) : c + 3 + 16 * (k - 2) * 2;
  static const char *form[] = {"  20123456.789", "-123456789.012", "          .000", "              "};
  int g = vf_choice(4, "form");
  put(p, form[g]);
  if (g < 3) digs(p + 11, 3, "fraction");
  if (g == 0) { digs(p + 9, 1, "units"); digs(p + 2, 1, "top"); }
  if (g == 1) digs(p + 1, 1, "top");
  vf_sym(p + 14, 2, "indicators");
  for (int i = 14; i < 16; i++) vf_assume((p[i] == ' ') | ((p[i] >= '0') & (p[i] <= '9')));
  if (!nl) f.n--;
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req q;
  q[S::gps].push_back(one(S::gps, "C1W")); q[S::gps].push_back(one(S::gps, "C1C")); q[S::gps].push_back(one(S::gps, "D1C"));
  q[S::galileo].push_back(one(S::galileo, "C5Q")); q[S::galileo].push_back(one(S::galileo, "D5Q"));
  auto m = s->set_read_map(q);
  vf_assert(m.size() == 2, "map");
  auto v = s->initialize_epoch_vector(m);
  int n = -1; modified_julian_day d; double sec = -1;
  errno = vf_choice(2, "errno2") ? ERANGE : 0;
  vf_assert(s->read_next_epoch(m, v, n, d, sec) == 0, "epoch-read");
  vf_assert(d.as_underlying_type() == 58854 && sec == 0, "time");
  vf_assert(n == 2, "satellites");
  vf_assert(v[0].first.system() == S::gps && v[0].first.prn() == 5 && v[1].first.system() == S::galileo && v[1].first.prn() == 24, "which-satellites");
  const char *w[] = {a + 3 + 64, a + 3, a + 3 + 32, c + 3, c + 3 + 32};
  for (int i = 0; i < 5; i++) {
    double x = i < 3 ? v[0].second[i] : v[1].second[i - 3];
    double want = w[i] == p && g == 3 ? miss : num(w[i], 14);
    vf_assert(x == want, "value");
  }
  (void)b;
  vf_assert(s->read_next_epoch(m, v, n, d, sec) == -1, "then-the-end");
  vf_assert(s->read_next_epoch(m, v, n, d, sec) == -1, "still-the-end");
  vf_reach("done");
}
H(c14_time) { // epoch line
  Obs f; obshead(f);
  char *p = f.line("> 2020 01 06 00 00 00.0000000  0  1      ", 41); f.n--; 
  char *z = f.b + f.n; f.raw("               \n");
  static const char *ym[] = {"2020 01", "2016 02", "2009 12", "2021 11"};
  static const int mjd0[] = {58848, 57418, 55165, 59518}, nd[] = {31, 29, 31, 30};
  int k = vf_choice(4, "month");
  put(p + 2, ym[k]);
  int day = digs(p + 10, 2, "day"), hh = digs(p + 13, 2, "hour"), mi = digs(p + 16, 2, "minute"), ss = digs(p + 19, 2, "second"); // seconds: columns 19 to 29
  vf_assume((day <= nd[k]) & (hh < 24) & (mi < 60) & (ss < 60) & (day > 0));
  int cents = vf_choice(4, "fraction");
  static const char *fr[] = {"0000000", "5000000", "1250000", "9990000"};
  put(p + 22, fr[cents]);
  if (vf_choice(2, "flag")) p[31] = '1';
  if (vf_choice(2, "clock")) { put(z, " -.123456789012"); digs(z + 3, 3, "clk"); }
  sat(f, "G05", 5, 1);
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req q; q[S::gps].push_back(one(S::gps, "C1W"));
  auto m = s->set_read_map(q);
  auto v = s->initialize_epoch_vector(m);
  int n = -1; modified_julian_day d; double sec = -1;
  errno = vf_choice(2, "errno2") ? ERANGE : 0;
  vf_assert(s->read_next_epoch(m, v, n, d, sec) == 0, "epoch-read");
  vf_assert(d.as_underlying_type() == mjd0[k] + day, "day");
  double want = (hh * 60e0 + mi) * 60e0 + num(p + 18, 11);
  vf_assert((sec == want) | (std::fabs(sec - want) < 1e-9), "second-of-day");
  vf_assert(n == 1 && v[0].first.prn() == 5, "satellites");
  vf_reach("done");
}
H(c14_systems) { // satellites come in file order, the ones not asked for are left out
  Obs f(20000); obshead(f);
  int n = 1 + vf_choice(VF_T(3, 4), "n");
  char *p = f.line(eps[0]); p[34] = '0' + n;
  static const char sy[] = "GREC";
  static const S en[] = {S::gps, S::glonass, S::galileo, S::beidou};
  static const int no[] = {5, 2, 3, 4};
  int id[4], prn[4]; char *q[4];
  for (int i = 0; i < n; i++) {
    id[i] = vf_choice(4, "system");
    q[i] = sat(f, "G05", no[id[i]], 1 + i); q[i][0] = sy[id[i]];
    prn[i] = digs(q[i] + 1, 2, "prn"); vf_assume(prn[i] > 0);
    if (vf_choice(2, "blank")) { vf_assume(q[i][1] == '0'); q[i][1] = ' '; }
  }
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; r[S::gps].push_back(one(S::gps, "L1C")); r[S::glonass].push_back(one(S::glonass, "C1C"));
  bool gal = vf_choice(2, "galileo") == 1;
  if (gal) r[S::galileo].push_back(one(S::galileo, "L5Q"));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0, "epoch-read");
  int j = 0;
  for (int i = 0; i < n; i++) {
    if (id[i] == 3 || (id[i] == 2 && !gal)) continue;
    vf_assert(j < got && v[j].first.system() == en[id[i]], "system");
    vf_assert(v[j].first.prn() == prn[i], "prn");
    vf_assert(v[j].second[0] == num(q[i] + 3 + (id[i] == 1 ? 0 : 16), 14), "value");
    j++;
  }
  vf_assert(got == j, "count");
  vf_reach("done");
}
H(c14_prn) { // the number of a satellite
  Obs f(20000); obshead(f);
  char *e = f.line(eps[0]); e[34] = '2';
  char *a[2]; for (int i = 0; i < 2; i++) a[i] = sat(f, "G05", 5, 1 + i);
  int k = vf_choice(2, "which");
  vf_sym(a[k] + 1, 2, "prn");
  char c = a[k][1], d = a[k][2];
  vf_assume((c != '\n') & (d != '\n'));
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; r[S::gps].push_back(one(S::gps, "L1C"));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day day; double sec;
  int rc = s->read_next_epoch(m, v, got, day, sec);
  bool cd = (c >= '0') & (c <= '9'), dd = (d >= '0') & (d <= '9');
  if (((c == ' ') | cd) & dd) {
    int n = (cd ? c - '0' : 0) * 10 + (d - '0');
    vf_assert((n > 0) == (rc == 0), "given-when-from-1-to-99");
    if (!rc) vf_assert(got == 2 && v[k].first.prn() == n && v[1 - k].first.prn() == 5, "number");
    vf_reach("number");
  } else {
    if (!cd && !dd) vf_assert(rc > 0, "refused-when-not-a-number");
    if (!rc) vf_assert(got == 2 && v[k].first.prn() >= 1 && v[k].first.prn() <= 99, "from-1-to-99");
    vf_reach("other");
  }
}
H(c14_many) { // every satellite of a large epoch
  Obs f(20000); obshead(f, 2, 2, 2);
  static const int cnt[] = {36, 62, 80, 81};
  int n = cnt[vf_choice(4, "count")], k[2] = {vf_choice(3, "k") * 10 + 5, n - 1};
  char *p = f.line(eps[0]), b[8]; snprintf(b, sizeof b, "%3d", n); put(p + 32, b);
  char *a[100];
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%c%02d", "GRE"[i / 30], i % 30 + 1); a[i] = sat(f, b, 2, i % 10); }
  for (int i = 0; i < 2; i++) digs(a[k[i]] + 3 + 16 + 7, 3, "value");
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; r[S::gps].push_back(one(S::gps, "L1C")); r[S::glonass].push_back(one(S::glonass, "L1C")); r[S::galileo].push_back(one(S::galileo, types[15]));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec = -1;
  int rc = s->read_next_epoch(m, v, got, d, sec);
  if (n > 80 && rc > 0) return; // beyond what the reader provides for
  vf_assert(rc == 0 && got == n, "all-satellites");
  for (int i = 0; i < n; i++) { vf_assert(v[i].first.system() == (i < 30 ? S::gps : i < 60 ? S::glonass : S::galileo) && v[i].first.prn() == i % 30 + 1, "satellite"); vf_assert(v[i].second[0] == num(a[i] + 3 + 16, 14), "value"); }
  vf_reach("done");
}
H(c14_sequence) { // epochs come one after the other, again after rewinding; events are left out
  Obs f(20000); obshead(f);
  int n = 1 + vf_choice(3, "epochs"), ev = vf_choice(4, "event"), evk = vf_choice(5, "kind");
  char *a[3]; int mins[3], k = 0;
  for (int i = 0; i < n; i++) {
    if (ev == i) { // special event with its own records
      char *e = f.line(vf_choice(2, "dated") ? "> 2020 01 06 00 00  0.0000000  4  2" : ">                              4  2"); e[31] = '2' + evk;
      f.lab("G OTHER", "COMMENT"); f.lab("moving", "MARKER NAME");
    }
    char *p = f.line(eps[1]);
    mins[k] = digs(p + 16, 2, "minute"); vf_assume(mins[k] < 60);
    a[k] = sat(f, "G05", 5, 1 + i); digs(a[k] + 3 + 16 + 11, 2, "value"); k++;
  }
  if (vf_choice(2, "newline")) f.n--;
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; r[S::gps].push_back(one(S::gps, "L1C"));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int stop = vf_choice(2, "early") ? 1 : k + 1;
  for (int pass = 0; pass < 2; pass++) {
    for (int i = 0; i < (pass ? k + 1 : stop); i++) {
      int got = -1; modified_julian_day d; double sec = -1;
      int rc = s->read_next_epoch(m, v, got, d, sec);
      if (i == k) { vf_assert(rc == -1, "end"); break; }
      vf_assert(rc == 0 && got == 1, "epoch");
      vf_assert(sec == mins[i] * 60 + 30, "time");
      vf_assert(v[0].second[0] == num(a[i] + 3 + 16, 14), "value");
    }
    s->rewind();
  }
  vf_reach("done");
}
H(c14_long) { // long headers, many epochs, events with many records
  static const int coms[] = {0, 60, 480}, eps_[] = {2, 121, 480}, evs[] = {0, 2, 70};
  int w = vf_choice(3, "size"), nc = coms[vf_choice(3, "lines")], ne = eps_[w], nev = evs[vf_choice(3, "event")];
  Obs f(4000 + nc * 170 + ne * 300 + 4 * nev * 90);
  char *g[40];
  f.first();
  for (int i = 0; i < nc; i++) f.lab(i % 2 ? "     9     MARKER NAME" : "G    2 L2W L5Q", "COMMENT");
  table(f, 'G', 5, g); table(f, 'E', 3, g, 14); table(f, 'R', 2, g, 0);
  for (int i = 0; i < nc; i++) f.lab("   G05   321   322   323", "PRN / # OF OBS");
  f.eoh();
  char *a = nullptr; int mn = 0;
  for (int i = 0; i < ne; i++) {
    if (nev && i % 100 == 1) {
      char *e = f.line("> 2020 01 06 00 00  0.0000000  4   "), b[8]; snprintf(b, sizeof b, "%3d", nev); put(e + 32, b);
      for (int k = 0; k < nev; k++) f.lab("> 2020 01 06 00 00  0.0000000  0  1", "COMMENT");
    }
    char *p = f.line(i % 2 ? "> 2020 01 06 00 00 30.0000000  0  2" : "> 2020 01 06 00 00  0.0000000  0  3");
    p[13] = '0' + i / 120 / 10; p[14] = '0' + i / 120 % 10; p[16] = '0' + i / 2 % 60 / 10; p[17] = '0' + i / 2 % 60 % 10;
    if (i == ne - 1) { mn = digs(p + 16, 2, "minute"); vf_assume(mn < 60); }
    sat(f, "R11", 2, i % 10);
    if (i % 2 == 0) sat(f, "E24", 3, 1);
    a = sat(f, "G05", 5, i % 10);
    if (i == ne - 1) digs(a + 3 + 16 + 11, 3, "value");
  }
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; r[S::gps].push_back(one(S::gps, "L1C")); r[S::glonass].push_back(one(S::glonass, "L1C"));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  for (int pass = 0; pass < 2; pass++) {
    for (int i = 0; i < ne; i++) {
      int got = -1; modified_julian_day d; double sec = -1;
      int rc = s->read_next_epoch(m, v, got, d, sec);
      vf_assert(rc == 0 && got == 2, "epoch");
      vf_assert(sec == i / 120 * 3600 + (i == ne - 1 ? mn : i / 2 % 60) * 60 + i % 2 * 30, "time");
      vf_assert(v[0].first.system() == S::glonass && v[0].first.prn() == 11 && v[1].first.system() == S::gps && v[1].first.prn() == 5, "satellite");
      if (i == ne - 1) vf_assert(v[1].second[0] == num(a + 3 + 16, 14), "value");
      else vf_assert(v[0].second[0] == (21023456789 + i % 10 * 100000000L) / 1e3, "value");
    }
    int got = -1; modified_julian_day d; double sec = -1;
    vf_assert(s->read_next_epoch(m, v, got, d, sec) == -1, "end");
    s->rewind();
  }
  vf_reach("done");
}
// -------------------------------------------------------------- combinations
H(c15_combination) { // a linear combination of the columns, in the order of its terms
  Obs f; obshead(f, 14, 3, 2);
  f.line(eps[1]);
  char *a = sat(f, "G05", 14, 1);
  ObservationRnx *s;
  static const int col[] = {0, 1, 6, 12, 13};
  int i = vf_pick(col, 5, "i"), j = vf_pick(col, 5, "j");
  for (int c : {i, j}) { put(a + 3 + 16 * c, "   0000000.000"); digs(a + 3 + 16 * c + 5, 4, "value"); put(a + 3 + 16 * c + 11, "500"); }
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  double k1 = vf_drange(1.5, 3.5, "k1"), k2 = vf_drange(-2.5, -0.25, "k2");
  GnssObservable o = one(S::gps, types[i], k1);
  o.add(S::gps, ObservationCode(types[j]), k2);
  Req r; r[S::gps].push_back(one(S::gps, "C2W", 2.0)); r[S::gps].push_back(o);
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 1, "epoch-read");
  vf_assert_close(v[0].second[1], k1 * num(a + 3 + 16 * i, 14) + k2 * num(a + 3 + 16 * j, 14), 1e-12, "combination");
  vf_assert_close(v[0].second[0], 2.0 * num(a + 3 + 16 * 6, 14), 1e-12, "scaled");
  vf_reach("done");
}
H(c15_many) { // combinations of more terms: the sum in the order of the terms, missing when any one of them is
  Obs f; obshead(f, 14, 3, 2);
  f.line(eps[1]);
  char *a = sat(f, "G05", 14, 1);
  ObservationRnx *s;
  int n = vf_choice(VF_T(4, 10), "terms") + 4, off = vf_choice(3, "first"), b = vf_choice(VF_T(2, 3), "blank") ? vf_choice(n, "which") : -1;
  bool small = vf_choice(2, "small") == 1; // values of one digit, that can cancel exactly
  int x = small ? 0 : vf_choice(n, "arbitrary");
  auto col = [&](int i) { return (off + 3 * i) % 14; }; // distinct columns, not ascending
  if (small) for (int i = 0; i < n; i++) { int c = col(i); put(a + 3 + 16 * c, "         0.000"); if (i < 4) digs(a + 3 + 16 * c + 9, 1, "digit"); }
  if (!small && x != b) { int c = col(x); put(a + 3 + 16 * c, "   0000000.000"); digs(a + 3 + 16 * c + 5, 4, "value"); put(a + 3 + 16 * c + 11, "500"); }
  if (b >= 0) put(a + 3 + 16 * col(b), "              ");
  double k[14]; for (int i = 0; i < n; i++) k[i] = 0.5 + 0.25 * i - (i % 3 == 1 ? 4.125 : 0);
  if (!small) k[x] = vf_drange(-2.5, 3.5, "coefficient");
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  GnssObservable o = one(S::gps, types[col(0)], k[0]);
  for (int i = 1; i < n; i++) o.add(S::gps, ObservationCode(types[col(i)]), k[i]);
  Req r; r[S::gps].push_back(o); r[S::gps].push_back(one(S::gps, "C2W", 2.0));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 1, "epoch-read");
  double sum = 0; for (int i = 0; i < n; i++) if (i != b) sum = sum + k[i] * num(a + 3 + 16 * col(i), 14);
  if (b >= 0) vf_assert(v[0].second[0] == miss, "one-term-missing");
  else vf_assert_close(v[0].second[0], sum, 1e-12, "combination");
  bool w = b >= 0 && col(b) == 6;
  if (w) vf_assert(v[0].second[1] == miss, "single-missing");
  else vf_assert_close(v[0].second[1], 2.0 * num(a + 3 + 16 * 6, 14), 1e-12, "single");
  vf_reach("done");
}
static const double K1 = 2.5457277801631601, K2 = -1.5457277801631601; // no single precision numbers
H(c15_missing) { // a combination is missing as soon as one of its columns is; the others are not affected
  Obs f; obshead(f, 6, 3, 2);
  f.line(eps[1]);
  char *a = sat(f, "G05", 6, 1);
  bool blank[6];
  for (int i = 0; i < 6; i++) if ((blank[i] = vf_choice(2, "blank") == 1)) { put(a + 3 + 16 * i, "              "); if (vf_choice(VF_T(1, 2), "lli")) a[3 + 16 * i + 15] = '7'; }
  // the line may end anywhere after its last value
  int last = 2; for (int i = 0; i < 6; i++) if (!blank[i]) last = 3 + 16 * i + 13;
  for (int i = 0; i < 6; i++) if (blank[i] && a[3 + 16 * i + 15] != ' ') last = std::max(last, 3 + 16 * i + 15);
  int cut = vf_choice(3, "cut");
  int len = cut == 0 ? last + 1 : cut == 1 ? std::min(3 + 96, last + 2 + vf_choice(3, "more")) : 3 + 96;
  a[len] = '\n'; f.n = a + len + 1 - f.b;
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  GnssObservable o = one(S::gps, "C1C", K1); o.add(S::gps, ObservationCode("D1C"), K2);
  GnssObservable t = one(S::gps, "L1W", 1.0); t.add(S::gps, ObservationCode("S1C"), -1.0); t.add(S::gps, ObservationCode("L1C"), 0.5);
  Req r; r[S::gps].push_back(o); r[S::gps].push_back(one(S::gps, "L1W")); r[S::gps].push_back(t); r[S::gps].push_back(one(S::gps, "C1W", 3.0));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 1, "epoch-read");
  double x[6]; for (int i = 0; i < 6; i++) x[i] = num(a + 3 + 16 * i, 14);
  auto &w = v[0].second;
  vf_assert(blank[0] || blank[2] ? w[0] == miss : std::fabs(w[0] - (K1 * x[0] + K2 * x[2])) < 1e-6, "two-terms");
  vf_assert(blank[5] ? w[1] == miss : w[1] == x[5], "one-term");
  vf_assert(blank[5] || blank[3] || blank[1] ? w[2] == miss : std::fabs(w[2] - (x[5] - x[3] + .5 * x[1])) < 1e-6, "three-terms");
  vf_assert(blank[4] ? w[3] == miss : w[3] == 3 * x[4], "scaled");
  vf_reach("done");
}
H(c15_stale) { // a missing value is not the value of an earlier satellite or epoch
  Obs f; obshead(f, 3, 3, 2);
  char *p = f.line(eps[0]); p[34] = '2';
  sat(f, "G05", 3, 1);
  char *b = sat(f, "G06", 3, 2);
  f.line(eps[1]);
  char *c = sat(f, "G07", 3, 3);
  int k = vf_choice(3, "col"), l = vf_choice(3, "col2");
  put(b + 3 + 16 * k, "              "); put(c + 3 + 16 * l, "              ");
  ObservationRnx *s;
  vf_assert(opened(f.install("o.rnx"), s), "header-read");
  Req r; for (int i = 0; i < 3; i++) r[S::gps].push_back(one(S::gps, types[i]));
  auto m = s->set_read_map(r);
  auto v = s->initialize_epoch_vector(m);
  int got = -1; modified_julian_day d; double sec;
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 2, "epoch-read");
  for (int i = 0; i < 3; i++) vf_assert(v[1].second[i] == (i == k ? miss : num(b + 3 + 16 * i, 14)), "second-satellite");
  vf_assert(s->read_next_epoch(m, v, got, d, sec) == 0 && got == 1, "epoch-read");
  for (int i = 0; i < 3; i++) vf_assert(v[0].second[i] == (i == l ? miss : num(c + 3 + 16 * i, 14)), "next-epoch");
  vf_reach("done");
}
