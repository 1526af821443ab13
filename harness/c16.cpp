// C16 navigation records
#include "nav.h"
#include <cerrno>
static void same(const NavDataFrame &f, const Nav &r) {
  vf_assert(f.system() == char_to_satsys(r.sys), "system");
  for (int j = 0; j < 31; j++)
    if (j < r.nf) vf_assert_eqd(f.data(j), want(r, j), "field");
    else vf_assert_eqd(f.data(j), 0e0, "field-not-in-the-record");
}
// any number in one field of 19 characters
static void anyfield(char *p, int k) {
  static const char *form[] = {" 0.000000000000D+00", "-0.000000000000D-09", " 0.0000000000D+00  ", "     000000.0000000", "-.000000000000E+01 "};
  put(p, form[k]);
  bool exp = false;
  for (int i = 0; i < 19; i++) {
    if (p[i] == 'D' || p[i] == 'E') exp = true;
    if (p[i] == '0' && !exp) digs(p + i, 1, "digit");
  }
  if (vf_choice(2, "negative")) { for (int i = 0; i < 19; i++) if (p[i] != ' ') { if (p[i] == '-') p[i] = ' '; else if (i) p[i - 1] = '-'; break; } }
}
static const char *SYS = "GREJCIS";
static int readone(NavFile &f, NavDataFrame &d) {
  NavigationRnx n(f.install("x.rnx"));
  errno = vf_choice(2, "errno") ? ERANGE : 0;
  return n.read_next_record(d);
}
static bool isint(char s, int j) { return s == 'R' ? j == 2 || j == 6 : (s == 'G' || s == 'E' || s == 'C') && (j == 11 || j == 21); }
static void fields(char sys) {
  NavFile f; f.head();
  Nav r = navrec(f, sys);
  int j = vf_choice(r.nf, "which"), k = vf_choice(VF_T(3, 5), "form");
  if (!isint(sys, j)) anyfield(r.f[j], k);
  NavDataFrame d;
  NavigationRnx n(f.install("x.rnx"));
  vf_assert(n.read_next_record(d) == 0, "record-read");
  same(d, r);
  vf_assert(n.read_next_record(d) == -1, "end-of-file");
  vf_reach("done");
}
H(c16_fields_G) { fields('G'); }
H(c16_fields_R) { fields('R'); }
H(c16_fields_E) { fields('E'); }
H(c16_fields_C) { fields('C'); }
H(c16_fields_J) { fields('J'); }
H(c16_fields_I) { fields('I'); }
H(c16_fields_S) { fields('S'); }
H(c16_first) {
  NavFile f; f.head();
  Nav r = navrec(f, SYS[vf_choice(7, "sys")]);
  int prn = digs(r.p + 1, 2, "prn"); vf_assume(prn > 0);
  T toc = navdate(r.p, vf_choice(4, "month"));
  NavDataFrame d;
  vf_assert(readone(f, d) == 0, "record-read");
  vf_assert(d.prn() == prn, "prn"); vf_assert(d.toc() == toc, "time-of-clock"); vf_assert(d.system() == char_to_satsys(r.sys), "system");
  vf_reach("done");
}
H(c16_toe) { // any week and second
  NavFile f; f.head();
  char s = "GEC"[vf_choice(3, "sys")];
  Nav r = navrec(f, s);
  int wk = intfield(r.f[21], 4, "week"), sow = intfield(r.f[11], 6, "sow");
  vf_assume(sow < 604800);
  NavDataFrame d;
  vf_assert(readone(f, d) == 0, "record-read");
  T want(modified_julian_day(44244L + 7L * (wk + (s == 'C' ? 1356 : 0)) + sow / 86400), seconds(sow % 86400));
  vf_assert(d.toe<seconds>() == want, "time-of-ephemeris"); vf_assert(d.toe2date<seconds>() == want, "time-of-ephemeris-2");
  vf_reach("done");
}
H(c16_glonass_time) { // message time of any day near the time of clock
  NavFile f; f.head();
  Nav r = navrec(f, 'R');
  T toc = navdate(r.p, vf_choice(4, "month"));
  int sow = intfield(r.f[2], 6, "sow"); vf_assume(sow < 604800);
  if (vf_choice(2, "unhealthy")) put(r.f[6], " 1.0");
  NavDataFrame d;
  vf_assert(readone(f, d) == 0, "record-read");
  T toe = d.toe<seconds>();
  long day = toe.mjd().as_underlying_type(), dc = toc.mjd().as_underlying_type();
  vf_assert(toe.sec().as_underlying_type() == sow % 86400, "second-of-the-day");
  vf_assert((day - dc <= 3) & (dc - day <= 3), "within-half-a-week");
  vf_assert((day - 44244) % 7 == sow / 86400, "day-of-the-week");
  vf_reach("done");
}
H(c16_reuse) { // nothing is kept from the record before
  NavFile f; f.head();
  Nav a = navrec(f, SYS[vf_choice(7, "first")], 1), b = navrec(f, SYS[vf_choice(7, "second")], 2);
  NavigationRnx n(f.install("x.rnx"));
  NavDataFrame d, e;
  vf_assert(n.read_next_record(d) == 0, "record-read"); same(d, a);
  vf_assert(n.read_next_record(d) == 0, "record-read"); same(d, b);
  n.rewind();
  vf_assert(n.read_next_record(e) == 0 && n.read_next_record(e) == 0, "record-read");
  vf_assert(d.toe<seconds>() == e.toe<seconds>() && d.toc() == e.toc(), "times");
  vf_reach("done");
}
H(c16_spare) { // spare fields may be blank, or the line may end before them
  NavFile f(4000); f.head();
  char s = SYS[vf_choice(7, "sys")];
  Nav r = navrec(f, s);
  bool trim = vf_choice(2, "trim");
  for (int j = 0; j < r.nf; j++) if (spare(s, j)) put(r.f[j], "                   ");
  if (trim) { // cut trailing blanks of every line of the record
    size_t w = r.p - f.b, i = w;
    while (i < f.n) {
      size_t e = i; while (f.b[e] != '\n') e++;
      size_t k = e; while (k > i && f.b[k - 1] == ' ') k--;
      for (size_t x = i; x < k; x++) f.b[w++] = f.b[x];
      f.b[w++] = '\n';
      i = e + 1;
    }
    f.n = w;
  }
  double v[31];
  NavFile g(4000); Nav q = navrec(g, s);
  for (int j = 0; j < 31; j++) v[j] = j >= q.nf || spare(s, j) ? 0e0 : want(q, j);
  NavDataFrame d;
  vf_assert(readone(f, d) == 0, "record-read");
  for (int j = 0; j < 31; j++) vf_assert_eqd(d.data(j), v[j], "field");
  vf_reach("done");
}
// a number missing or malformed, or a date that does not exist, is an error
H(c16_incomplete) {
  NavFile f; f.head();
  char s = SYS[vf_choice(7, "sys")];
  Nav r = navrec(f, s);
  int j = vf_choice(r.nf, "which"), how = vf_choice(2, "how");
  if (how == 0) put(r.f[j], "                   "); else { put(r.f[j], "    "); r.f[j][4] = (char)vf_byte("c"); vf_assume((r.f[j][4] > ' ') & (r.f[j][4] <= '~') & (r.f[j][4] != '.') & ((r.f[j][4] < '0') | (r.f[j][4] > '9')) & (r.f[j][4] != '-') & (r.f[j][4] != '+') & ((r.f[j][4] & ~32) != 'I') & ((r.f[j][4] & ~32) != 'N')); }
  NavDataFrame d;
  int st = readone(f, d);
  vf_assert(how == 0 && spare(s, j) ? st == 0 : st > 0, "incomplete-record-refused");
  vf_reach("done");
}
H(c16_bad_first_line) {
  NavFile f; f.head();
  Nav r = navrec(f, SYS[vf_choice(7, "sys")]);
  switch (vf_choice(5, "bad")) {
  case 0: vf_sym(r.p, 1, "letter"); for (int i = 0; i < 8; i++) vf_assume(r.p[0] != "GRECJSIM"[i]); vf_assume((r.p[0] != '\n') & (r.p[0] != -1)); break;
  case 1: put(r.p + 1, "  "); break;
  case 2: put(r.p + 1, "00"); break;
  case 3: { int m = digs(r.p + 9, 2, "month"); vf_assume((m < 1) | (m > 12)); break; }
  case 4: { int d = digs(r.p + 12, 2, "day"); vf_assume((d < 1) | (d > 31)); break; }
  }
  NavDataFrame d;
  vf_assert(readone(f, d) > 0, "bad-record-refused");
  vf_reach("done");
}
