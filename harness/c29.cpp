// C29 damaged files, C30 files cut short
#include "fbuf.h"
#include "cout.h"
#include "sp3c.hpp"
#include "navrnx.hpp"
#include "obsrnx.hpp"
#include "bern_utils.hpp"
#include <cerrno>
using namespace ngpt;
#define GNSSBLANK -999.99
#include "damage.h"
typedef SATELLITE_SYSTEM S;
typedef datetime<microseconds> Tus;
typedef datetime<seconds> Ts;
#include "files.h"
// ------------------------------------------------- what is read from a file
static Out rd_sp3(const char *fn) {
  Out o;
  try {
    Sp3c s(fn);
    auto v = s.allocate_epoch_vector();
    for (int i = 0; i < MAXREAD; i++) {
      Tus t; int n = -1;
      int st = s.get_next_epoch(t, v, n);
      Got g{st, {}, false};
      if (st <= 0) {
        vf_assert(n >= 0 && n <= (int)v.size(), "records-fit");
        g.v.push_back(t.mjd().as_underlying_type()); g.v.push_back(t.sec().as_underlying_type()); g.v.push_back(n);
        for (int j = 0; j < n; j++) { g.v.push_back((int)v[j].s_); g.v.push_back(v[j].prn_); for (int k = 0; k < 4; k++) g.v.push_back(v[j].vals_[k]); }
      }
      o.push_back(g);
      if (st) break;
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
static Out rd_win(const char *fn) {
  try {
    Sp3c s(fn);
    LagrangeSp3Interpolator<450> l(s);
    return Out{{l.initialize(), {}, false}};
  } catch (std::runtime_error &) { return Out{{99, {}, true}}; }
}
static Out rd_nav(const char *fn) {
  Out o;
  try {
    NavigationRnx n(fn);
    for (int i = 0; i < MAXREAD; i++) {
      NavDataFrame d;
      Got g{n.read_next_record(d), {}, false};
      if (!g.st) { g.v.push_back((int)d.system()); g.v.push_back(d.prn()); for (int k = 0; k < 31; k++) g.v.push_back(d.data(k)); }
      o.push_back(g);
      if (g.st) break;
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
// the same file searched: records skipped, looked for by system, satellite and epoch
static Out rd_navs(const char *fn) {
  Out o;
  try {
    NavigationRnx n(fn);
    for (int i = 0; i < MAXREAD; i++) if (n.ignore_next_block()) break;
    for (int i = 0; i < 3; i++) {
      NavDataFrame d; NavigationRnx::pos_type p;
      n.rewind();
      o.push_back({i < 2 ? n.find_next(p, d, i ? S::glonass : S::gps, i ? -1 : 6) : n.find_next_valid(Ts(modified_julian_day(58854), seconds(7500)), p, d, S::glonass, 11), {}, false});
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
static Out rd_obs(const char *fn) {
  Out o;
  try {
    ObservationRnx s(fn);
    std::map<S, std::vector<GnssObservable>> q;
    const char *c[] = {"C1C", "S1C", "C1P"};
    for (int i = 0; i < 3; i++) q[i < 2 ? S::gps : S::glonass].push_back(GnssObservable(i < 2 ? S::gps : S::glonass, ObservationCode(c[i]), 1e0));
    auto m = s.set_read_map(q, true);
    auto v = s.initialize_epoch_vector(m);
    for (int i = 0; i < MAXREAD; i++) {
      int n = -1; modified_julian_day d; double sec = 0;
      Got g{s.read_next_epoch(m, v, n, d, sec), {}, false};
      if (!g.st) {
        vf_assert(n >= 0 && n <= (int)v.size(), "satellites-fit");
        g.v.push_back(d.as_underlying_type()); g.v.push_back(sec); g.v.push_back(n);
        for (int j = 0; j < n; j++) { g.v.push_back((int)v[j].first.system()); g.v.push_back(v[j].first.prn()); for (double x : v[j].second) g.v.push_back(x); }
      }
      o.push_back(g);
      if (g.st) break;
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
static Out rd_bern(const char *fn) {
  Out o;
  try {
    BernSatellit b(fn);
    for (int i = 0; i < 3; i++) {
      int c = -1, p = -1;
      Got g{b.get_frequency_channel(i == 0 ? 701 : i == 1 ? 712 : 720, Ts(modified_julian_day(53100), seconds(0)), c, p), {}, false};
      if (!g.st) { g.v.push_back(c); g.v.push_back(p); }
      o.push_back(g);
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
// ---------------------------------------------------------------- C29
#define DMG(x) H(c29_##x##_lines) { lines(x, rd_##x); } H(c29_##x##_short) { shortened(x, rd_##x); }
DMG(sp3) DMG(nav) DMG(obs) DMG(bern)
PART(sp3, 0, 4) PART(sp3, 1, 4) PART(sp3, 2, 4) PART(sp3, 3, 4)
PART(nav, 0, 2) PART(nav, 1, 2)
static size_t navs(Txt &f) { return nav(f); }
DMG(navs) PART(navs, 0, 2) PART(navs, 1, 2)
PART(obs, 0, 2) PART(obs, 1, 2)
PART(bern, 0, 2) PART(bern, 1, 2)
// ---------------------------------------------------------------- C30
H(c30_sp3) { cut(sp3, rd_sp3, true, false); }
H(c30_nav) { cut(nav, rd_nav, true, true); }
H(c30_obs) { cut(obs, rd_obs, true, true); }
H(c30_bern) { cut(bern, rd_bern, false, false); }
// the window of an interpolator over a damaged file: satellites, epochs and the interval
H(c29_sp3_window) {
  third = true;
  Txt f; size_t h = sp3(f);
  size_t iv = 0; while (f.b[iv] != '\n') iv++;
  iv += 25;
  int k = vf_choice(14 + (int)(f.n - h) - (WIDTH - 1), "where");
  vf_sym(f.b + (k < 14 ? iv + k : h + k - 14), WIDTH, "damage");
  vf_limit(3000000);
  Out o = rd_win(f.install("x.dat"));
  vf_assert(o.size() == 1, "ends");
  vf_reach("done");
}
