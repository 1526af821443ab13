// C31 moved readers, C32 readers side by side
// (c31a.cpp includes this file with WITH_ANTEX, for ANTEX files and others beside them)
#include "fbuf.h"
#ifdef WITH_ANTEX
#include "antex.hpp"
#else
#include "cout.h"
#include "sp3c.hpp"
#include "obsrnx.hpp"
#include "navrnx.hpp"
#endif
#include "bern_utils.hpp"
#include <cerrno>
#include <iomanip>
#include <memory>
#include <sstream>
using namespace ngpt;
#define GNSSBLANK -999.99
typedef SATELLITE_SYSTEM S;
typedef datetime<microseconds> Tus;
typedef datetime<seconds> Ts;
#include "files.h"
#ifdef WITH_ANTEX
#include "pcoseen.h"
#endif
typedef std::vector<double> V;
// one reader of a file, seen through what it reports and delivers
struct Ses {
  virtual ~Ses() {}
  virtual V read(int k) = 0;
  virtual V rewound(int k) = 0; // another place or question, then read
  virtual V said() = 0;
  virtual void move(int how, const char *other) = 0;
};
template <class R> struct Base : Ses {
  std::unique_ptr<R> r, old;
  explicit Base(const char *f) : r(new R(f)) {}
  // 0 constructed from the old one, which goes at once; 1 the same, the old one stays; 2 assigned to a reader of another file
  void move(int how, const char *other) override {
    std::unique_ptr<R> q;
    if (how < 2) q.reset(new R(std::move(*r)));
    else { q.reset(new R(other)); *q = std::move(*r); }
    if (how == 1) old = std::move(r);
    r = std::move(q);
  }
};
#ifndef WITH_ANTEX
struct Sp3S : Base<Sp3c> {
  using Base::Base;
  V read(int) override {
    auto v = r->allocate_epoch_vector();
    Tus t; int n = -1, st = r->get_next_epoch(t, v, n);
    V g{(double)st, (double)v.size()};
    if (st > 0) return g;
    g.push_back(t.mjd().as_underlying_type()); g.push_back(t.sec().as_underlying_type()); g.push_back(n);
    for (int j = 0; j < n && j < (int)v.size(); j++) { g.push_back((int)v[j].s_); g.push_back(v[j].prn_); g.push_back(v[j].flag_.is_set(Sp3Event::clock_event)); for (double x : v[j].vals_) g.push_back(x); }
    return g;
  }
  V rewound(int k) override { r->rewind(); return read(k); }
  V said() override { return V{(double)r->num_sats(), (double)r->interval().as_underlying_type()}; }
};
struct NavS : Base<NavigationRnx> {
  using Base::Base;
  V read(int) override {
    int ps = 0; S p = r->peak_satsys(ps);
    V g{(double)ps, (double)(int)p};
    if (ps) return g;
    NavDataFrame d; int st = r->read_next_record(d);
    g.push_back(st);
    if (!st) { g.push_back((int)d.system()); g.push_back(d.prn()); g.push_back(d.toc().mjd().as_underlying_type()); g.push_back(d.toc().sec().as_underlying_type()); for (int k = 0; k < 31; k++) g.push_back(d.data(k)); }
    return g;
  }
  V rewound(int k) override { r->rewind(); if (k & 1) { NavDataFrame d; NavigationRnx::pos_type p; int st = r->find_next(p, d, S::glonass, -1); return V{(double)st, (double)d.prn(), d.data(0)}; } return read(k); }
  V said() override { return V(); }
};
struct ObsS : Base<ObservationRnx> {
  using Base::Base;
  V read(int) override {
    std::map<S, std::vector<GnssObservable>> q;
    const char *c[] = {"S1C", "C1C", "C1P"};
    for (int i = 0; i < 3; i++) q[i < 2 ? S::gps : S::glonass].push_back(GnssObservable(i < 2 ? S::gps : S::glonass, ObservationCode(c[i]), 1e0));
    auto m = r->set_read_map(q, true);
    auto v = r->initialize_epoch_vector(m);
    int n = -1; modified_julian_day d; double sec = 0;
    int st = r->read_next_epoch(m, v, n, d, sec);
    V g{(double)st, (double)v.size(), (double)m.size()};
    if (!st) {
      g.push_back(d.as_underlying_type()); g.push_back(sec); g.push_back(n);
      for (int j = 0; j < n && j < (int)v.size(); j++) { g.push_back((int)v[j].first.system()); g.push_back(v[j].first.prn()); for (double x : v[j].second) g.push_back(x); }
    }
    return g;
  }
  V rewound(int k) override { r->rewind(); return read(k); }
  V said() override { return V{r->x_approx(), r->y_approx(), r->z_approx(), (double)r->max_obs(), (double)r->time_of_first_obs().mjd().as_underlying_type()}; }
};
#endif
struct BernS : Base<BernSatellit> {
  using Base::Base;
  V ask(int svn) { int c = -1, p = -1, st = r->get_frequency_channel(svn, Ts(modified_julian_day(53100), seconds(0)), c, p); V g{(double)st}; if (!st) { g.push_back(c); g.push_back(p); } return g; }
  V read(int k) override { return ask(k & 1 ? 712 : 701); }
  V rewound(int) override { return ask(720); }
  V said() override { return V(); }
};
#ifdef WITH_ANTEX
struct AtxS : Base<Antex> {
  using Base::Base;
  V list(int st, AntennaPcoList &l) { V g{(double)st}; if (!st) { g.push_back(l.__vecref__().size()); for (auto &p : l.__vecref__()) { Pco e = seen(p); for (double x : e.v) g.push_back(x); } } return g; }
  V read(int k) override { AntennaPcoList l(AntennaPco(ObservationCode("L1C"), S::gps)); return list(r->get_antenna_pco(ReceiverAntenna(k & 1 ? "TRM59900.00     NONE" : "TRM59900.00     SCIS"), l), l); }
  V rewound(int) override {
    AntennaPcoList l(AntennaPco(ObservationCode("L1C"), S::gps)); Satellite sv;
    V g = list(r->get_antenna_pco(5, S::gps, Ts(modified_julian_day(58000), seconds(0)), l, &sv), l);
    g.push_back(sv.prn()); g.push_back(sv.svn());
    return g;
  }
  V said() override { return V{(double)r->filename().size()}; }
};
#endif
enum { SP3, NAV, OBS, BERN, ATX, KINDS };
static Ses *open(int kind, const char *f) {
  if (kind == BERN) return new BernS(f);
#ifdef WITH_ANTEX
  return new AtxS(f);
#else
  if (kind == NAV) return new NavS(f);
  if (kind == SP3) return new Sp3S(f);
  return new ObsS(f);
#endif
}
static size_t make(int kind, Txt &f) { return kind == SP3 ? sp3(f) : kind == NAV ? nav(f) : kind == OBS ? obs(f) : kind == BERN ? bern(f) : atx(f); }
static const char *file(int kind, bool other) {
  static const char *const name[2][KINDS] = {{"a.sp3", "a.nav", "a.obs", "a.bern", "a.atx"}, {"b.sp3", "b.nav", "b.obs", "b.bern", "b.atx"}};
  Txt f; third = other; make(kind, f);
  if (other && kind != SP3 && kind != BERN) { // the header is of another length
    size_t e = 0; for (int i = 0; i < 2; e++) i += f.b[e] == '\n';
    memmove(f.b + e + 81, f.b + e, f.n - e); f.n += 81;
    memset(f.b + e, ' ', 80); put(f.b + e + 60, "COMMENT"); f.b[e + 80] = '\n';
  }
  return f.install(name[other][kind]);
}
static void same(const V &a, const V &b, const char *id) {
  vf_assert(a.size() == b.size(), id);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) vf_assert_eqd(a[i], b[i], id);
}
// ---------------------------------------------------------------- C31
static void moved(int kind) {
  static const int N = VF_T(4, 5);
  const char *f = file(kind, false), *g = file(kind, true);
  int op[N], at = vf_choice(N, "at"), how = vf_choice(3, "how"), again = vf_choice(3, "again");
  for (int i = 0; i < N; i++) op[i] = vf_choice(2, "op");
  std::vector<V> want;
  std::unique_ptr<Ses> a(open(kind, f)), b(open(kind, f));
  for (int i = 0; i < N; i++) want.push_back(op[i] ? a->rewound(i) : a->read(i));
  for (int i = 0; i < N; i++) {
    if (i == at) { b->move(how, g); same(b->said(), a->said(), "reported-after-move"); }
    if (again && i == at + 1) b->move(again, g);
    same(op[i] ? b->rewound(i) : b->read(i), want[i], i < at ? "before-move" : "read-after-move");
  }
  a.reset();
  b.reset();
  vf_reach("done");
}
#ifdef WITH_ANTEX
H(c31_atx) { moved(ATX); }
#else
H(c31_sp3) { moved(SP3); }
H(c31_nav) { moved(NAV); }
H(c31_obs) { moved(OBS); }
H(c31_bern) { moved(BERN); }
#endif
// ---------------------------------------------------------------- C32
static void beside(int ka, int kb) {
  static const int N = VF_T(3, 4);
  const char *f = file(ka, false), *g = file(kb, true);
  std::vector<V> wa, wb;
  int opa = vf_choice(2, "opa"), opb = vf_choice(2, "opb");
  auto step = [](Ses *s, int i, int o) { return o && i == N - 1 ? s->rewound(i) : s->read(i); };
  bool other = vf_choice(2, "order");
  auto alone = [&](bool first) {
    std::unique_ptr<Ses> s(open(first ? ka : kb, first ? f : g)); std::vector<V> &w = first ? wa : wb;
    for (int i = 0; i < N; i++) w.push_back(step(s.get(), i, first ? opa : opb));
    w.push_back(s->said());
  };
  alone(!other); alone(other);
  if (vf_choice(2, "errno")) errno = ERANGE;
  // any interleaving of opening, reading and closing
  std::unique_ptr<Ses> a, b;
  int i = -1, j = -1;
  while (i <= N || j <= N) {
    bool first = j > N || (i <= N && vf_choice(2, "turn"));
    std::unique_ptr<Ses> &s = first ? a : b;
    int &k = first ? i : j;
    const std::vector<V> &w = first ? wa : wb;
    if (k < 0) s.reset(open(first ? ka : kb, first ? f : g));
    else if (k < N) same(step(s.get(), k, first ? opa : opb), w[k], "read-beside");
    else { same(s->said(), w[k], "reported-beside"); s.reset(); }
    k++;
  }
  vf_reach("done");
}
#define BESIDE(x, X, y, Y) H(c32_##x##_##y) { beside(X, Y); }
#ifdef WITH_ANTEX
BESIDE(atx, ATX, atx, ATX) BESIDE(atx, ATX, bern, BERN)
#else
BESIDE(sp3, SP3, sp3, SP3) BESIDE(nav, NAV, nav, NAV) BESIDE(obs, OBS, obs, OBS) BESIDE(bern, BERN, bern, BERN)
BESIDE(sp3, SP3, nav, NAV) BESIDE(sp3, SP3, obs, OBS) BESIDE(nav, NAV, obs, OBS) BESIDE(bern, BERN, nav, NAV)
#endif
