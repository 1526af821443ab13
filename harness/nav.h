// building RINEX 3 navigation files
#pragma once
#include "fbuf.h"
#include "navrnx.hpp"
using namespace ngpt;
typedef datetime<seconds> T;
typedef datetime<milliseconds> Tms;
struct NavFile : FBuf {
  NavFile(int cap = 16000) : FBuf(cap) {}
  void lab(const char *t, const char *l) { line(t, 60); n--; raw(l); b[n++] = '\n'; }
  void head(const char *sys = "M: MIXED            ", int comments = 0) {
    line("     3.04           N: GNSS NAV DATA    ", 40); n--; raw(sys); raw("RINEX VERSION / TYPE\n");
    lab("converter           agency              20200102 030405 UTC", "PGM / RUN BY / DATE");
    lab("GPSA   4.6566D-09  1.4901D-08 -5.9605D-08 -1.1921D-07", "IONOSPHERIC CORR");
    for (int i = 0; i < comments; i++) lab("END OF HEADER", "COMMENT");
    lab("", "END OF HEADER");
  }
};
static inline int nlines(char s) { return s == 'R' || s == 'S' ? 4 : 8; }
static inline int nlast(char s) { return s == 'R' || s == 'S' ? 4 : s == 'E' || s == 'I' ? 1 : 2; }
static inline int nfields(char s) { return 3 + 4 * (nlines(s) - 2) + nlast(s); }
// spare fields of a system
static inline bool spare(char s, int j) { return ((s == 'E' || s == 'I') && j == 22) || (s == 'C' && (j == 20 || j == 22)) || (s == 'I' && (j == 20 || j == 26)) || ((s == 'G' || s == 'J') && j == 28); }
struct Nav {
  char *p;        // first line
  char *f[31];    // fields of 19 characters
  char sys; int nf;
};
// a record with arbitrary but fixed contents: every field different
static inline Nav navrec(NavFile &o, char sys, int seed = 0, bool lastnl = true) {
  Nav r; r.sys = sys; r.nf = nfields(sys);
  r.p = o.line("G05 2020 01 06 00 00 00", 80); r.p[0] = sys;
  for (int j = 0; j < 3; j++) r.f[j] = r.p + 23 + 19 * j;
  int j = 3;
  for (int l = 1; l < nlines(sys); l++) {
    char *q = o.line("", 80);
    int k = l == nlines(sys) - 1 ? nlast(sys) : 4;
    for (int i = 0; i < k; i++) r.f[j++] = q + 4 + 19 * i;
  }
  for (j = 0; j < r.nf; j++) {
    put(r.f[j], "-1.234567890100D-03");
    r.f[j][12] = '0' + j % 10; r.f[j][13] = '0' + j / 10; r.f[j][14] = '0' + seed % 10;
  }
  if (sys == 'R' || sys == 'S') { put(r.f[2], " 8.640000000000D+04"); put(r.f[6], " 0.000000000000D+00"); }
  else { put(r.f[11], " 8.640000000000D+04"); put(r.f[21], " 2.087000000000D+03"); put(r.f[24], " 0.000000000000D+00"); }
  (void)lastnl;
  return r;
}
static inline double val(const char *f) { // the number a field holds
  char t[20]; memcpy(t, f, 19); t[19] = 0;
  for (int i = 0; i < 19; i++) if (t[i] == 'D' || t[i] == 'd') t[i] = 'E';
  return strtod(t, nullptr);
}
// what data(j) must be
static inline double want(const Nav &r, int j) {
  double v = val(r.f[j]);
  if (r.sys == 'R' && j >= 3 && j <= 13 && j != 6 && j != 10) v *= 1e3;
  return v;
}
// a date: any day and time of one of 4 months
static inline T navdate(char *p, int k, bool anyday = true) { // p: line; columns 4..22
  static const char *ym[] = {"2020 01", "2016 02", "2009 12", "2021 11"};
  static const int y[] = {2020, 2016, 2009, 2021}, m[] = {1, 2, 12, 11}, nd[] = {31, 29, 31, 30};
  put(p + 4, ym[k]);
  int d = 6;
  if (anyday) { d = digs(p + 12, 2, "day"); vf_assume((d >= 1) & (d <= nd[k])); }
  int h = digs(p + 15, 2, "hour"), mi = digs(p + 18, 2, "min"), s = digs(p + 21, 2, "sec");
  vf_assume((h < 24) & (mi < 60) & (s < 60));
  return T(year(y[k]), month(m[k]), day_of_month(d), hours(h), minutes(mi), seconds(s));
}
// an arbitrary integer of n digits in a field
static inline int intfield(char *f, int n, const char *name) {
  for (int i = 0; i < 19; i++) f[i] = ' ';
  return digs(f + 19 - n, n, name);
}
