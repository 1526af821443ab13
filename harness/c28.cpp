// C28: Bernese satellite information file
#include "fbuf.h"
#include "bern_utils.hpp"
#include <cerrno>
using namespace ngpt;
typedef datetime<seconds> T;
static const char *H0 = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
static const char *H1 = "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
static const char *H2 = "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>";
static void head(FBuf &f) {
  f.line(H0); f.line("----"); f.line(""); f.line("PART 1: PHYSICAL SATELLITE PARAMETERS"); f.line("  1  MW    BLOCK IIA          9 MW"); f.line("");
  f.line("PART 2: ON-BOARD SENSORS"); f.line("------------------------"); f.line(H1); f.line(H2); f.line("");
}
// a date: arbitrary day and time of one of three months
static T date(char *p, int k) {
  static const char *ym[] = {"2009 12", "2016 02", "2016 03"};
  static const int y[] = {2009, 2016, 2016}, m[] = {12, 2, 3}, nd[] = {31, 29, 31};
  put(p, ym[k]);
  int d = digs(p + 8, 2, "day"), h = digs(p + 11, 2, "hour"), mi = digs(p + 14, 2, "min"), s = digs(p + 17, 2, "sec");
  vf_assume((d >= 1) & (d <= nd[k]) & (h < 24) & (mi < 60) & (s < 60));
  return T(year(y[k]), month(m[k]), day_of_month(d), hours(h), minutes(mi), seconds(s));
}
struct Rec { bool mw, open; int svn, prn, chan; T from, to; };
// len: characters of the line (trailing blanks cut)
static Rec record(FBuf &f, int types, int k0, int k1, bool anyopen, bool anyneg, int len = 215) {
  Rec r;
  char *p = f.line("", len);
  put(p + 11, "GLONASS-M");
  r.prn = digs(p, 3, "prn");
  int ty = vf_choice(types, "type");
  put(p + 5, ty == 0 ? "MW" : ty == 1 ? "SLR" : "ME");
  r.mw = ty == 0;
  if (ty != 1) r.svn = digs(p + 28, 3, "svn"); else r.svn = -1;
  put(p + 34, "1");
  r.from = date(p + 41, k0);
  r.open = anyopen && vf_choice(2, "open");
  if (r.open) r.to = T::max(); else r.to = date(p + 62, k1);
  put(p + 88, "-0.5450    0.0000    2.2900   0.00000 0.00000 1.00000    0.00000 1.00000 0.00000      GLONASS-M");
  int neg = anyneg && vf_choice(2, "neg");
  r.chan = digs(p + 194, 2, "chan");
  p[193] = neg ? '-' : ' ';
  if (neg) r.chan = -r.chan;
  if (len > 205) put(p + 199, "L1 L2");
  return r;
}
static int mon(int k) { return k < 0 ? vf_choice(3, "month") : k; }
static void ask(BernSatellit &b, const Rec *r, int nrec) {
  int svn = vf_range(0, 999, "qsvn"), chan = -777, prn = -777;
  T at(modified_julian_day(vf_range(50000, 60000, "qday")), seconds(vf_range(0, 86399, "qsec")));
  errno = vf_choice(2, "errno") ? ERANGE : 0;
  int st = b.get_frequency_channel(svn, at, chan, prn);
  int want = -1;
  for (int i = nrec - 1; i >= 0; i--)
    if (r[i].mw && r[i].svn == svn && r[i].from <= at && at < r[i].to) want = i;
  if (want < 0) { vf_assert(st == -1, "no-record-matches"); vf_reach("none"); }
  else {
    vf_assert(st == 0, "record-found"); vf_assert(chan == r[want].chan, "channel-of-the-record"); vf_assert(prn == r[want].prn, "prn-of-the-record");
    vf_reach("found");
  }
}
H(c28_one) {
  FBuf f(8000); head(f);
  Rec r = record(f, 3, mon(-1), mon(-1), true, true);
  f.line(""); f.line("PART 3: ...");
  BernSatellit b(f.install("SATELLIT.I14"));
  ask(b, &r, 1);
}
H(c28_two) {
  FBuf f(8000); head(f);
  Rec r[2];
  r[0] = record(f, 2, 0, 1, true, false); r[1] = record(f, 2, 1, 2, true, false);
  f.line(""); f.line("PART 3: ...");
  BernSatellit b(f.install("SATELLIT.I14"));
  ask(b, r, 2);
}
H(c28_three) { // same satellite, successive channels
  FBuf f(8000); head(f);
  Rec r[3];
  for (int i = 0; i < 3; i++) r[i] = record(f, i == 1 ? 3 : 1, i, i, false, false);
  f.line(""); f.line("PART 3: ...");
  BernSatellit b(f.install("SATELLIT.I14"));
  ask(b, r, 3);
}
static void again(bool part3, int len) {
  FBuf f(8000); head(f);
  Rec r = record(f, 2, 0, 2, true, true, len);
  if (part3) { f.line(""); f.line("PART 3: ..."); }
  BernSatellit b(f.install("SATELLIT.I14"));
  ask(b, &r, 1); ask(b, &r, 1);
}
// files as long as those in use: PART 1 of many lines, many records of other satellites before
H(c28_many) {
  static const int before[] = {0, 1, 64, 301, 900}, part1[] = {0, 1, 100, 900};
  int n = before[vf_choice(5, "before")], m = part1[vf_choice(4, "part1")];
  FBuf f(500 + (size_t)m * 60 + 2000 + (size_t)(n + 4) * 260);
  f.line(H0); f.line("----"); f.line(""); f.line("PART 1: PHYSICAL SATELLITE PARAMETERS");
  for (int i = 0; i < m; i++) f.line("  1  MW    BLOCK IIA          9 MW");
  f.line("");
  f.line("PART 2: ON-BOARD SENSORS"); f.line("------------------------"); f.line(H1); f.line(H2); f.line("");
  for (int i = 0; i < n; i++) {
    char *p = f.line("", 215);
    put(p, "101"); put(p + 5, i % 7 == 3 ? "SLR" : i % 7 == 5 ? "ME" : "MW"); put(p + 11, "GLONASS-M");
    char num[4] = {(char)('5' + i / 100 % 3), (char)('0' + i / 10 % 10), (char)('0' + i % 10), 0};
    if (i % 7 != 3) put(p + 28, num);
    put(p + 34, "1"); put(p + 41, "2009 12 01 00 00 00");
    if (i % 2) put(p + 62, "2016 03 01 12 00 00");
    put(p + 88, "-0.5450    0.0000    2.2900   0.00000 0.00000 1.00000    0.00000 1.00000 0.00000      GLONASS-M");
    put(p + 194, "07");
  }
  Rec r = record(f, 1, 1, 2, true, true);
  vf_assume((r.svn < 500) | (r.svn >= 800));
  f.line(""); f.line("PART 3: ...");
  BernSatellit b(f.install("SATELLIT.I14"));
  int svn = vf_range(0, 999, "qsvn"), chan = -777, prn = -777;
  vf_assume((svn < 500) | (svn >= 800));
  T at(modified_julian_day(vf_range(50000, 60000, "qday")), seconds(vf_range(0, 86399, "qsec")));
  int st = b.get_frequency_channel(svn, at, chan, prn);
  if (svn == r.svn && r.from <= at && at < r.to) {
    vf_assert(st == 0, "record-found"); vf_assert(chan == r.chan, "channel-of-the-record"); vf_assert(prn == r.prn, "prn-of-the-record");
    vf_reach("found");
  } else { vf_assert(st == -1, "no-record-matches"); vf_reach("none"); }
}
H(c28_requery) { again(true, 215); }
H(c28_end_of_file) { again(false, 215); }
H(c28_trimmed) { again(true, 196); }
// only a file of this kind is accepted
H(c28_header) {
  FBuf f(8000);
  int bad = vf_choice(5, "bad");
  f.line(bad == 1 ? "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.0" : H0); f.line("----"); f.line("");
  if (bad != 2) f.line("PART 2: ON-BOARD SENSORS");
  f.line("------------------------"); f.line(bad == 3 ? H2 : H1); f.line(bad == 4 ? H1 : H2); f.line("");
  f.line("");
  const char *fn = f.install("SATELLIT.I14");
  bool ok = true;
  try { BernSatellit b(fn); } catch (std::runtime_error &) { ok = false; }
  vf_assert(ok == (bad == 0), "accepted-exactly-when-a-satellite-information-file");
  vf_reach("done");
}
H(c28_missing) {
  bool ok = true;
  try { BernSatellit b("no-such-file"); } catch (std::runtime_error &) { ok = false; }
  vf_assert(!ok, "missing-file-is-an-error");
  vf_reach("done");
}
