// C05, C06, C07: receiver and satellite antennas; C08: satellites
#include "util.h"
#include "antenna.hpp"
#include "satellite.hpp"
#include <new>
using namespace ngpt;
// objects live in separate, exactly sized heap blocks with arbitrary previous content
template <class T, class... A> static T *mk(A &&... a) { void *p = malloc(sizeof(T)); vf_sym(p, sizeof(T), "old"); return new (p) T(a...); }
static void expect20(const char *s, int n, char *e) {
  for (int i = 0; i < 20; i++) e[i] = i < n ? s[i] : ' ';
  if ((e[16] == ' ') & (e[17] == ' ') & (e[18] == ' ') & (e[19] == ' ')) { e[16] = 'N'; e[17] = 'O'; e[18] = 'N'; e[19] = 'E'; }
}
H(c05_construct) {
  int n = vf_choice(46, "n");
  char *s = vf_str(n, "s");
  ReceiverAntenna *a = vf_choice(2, "how") ? mk<ReceiverAntenna>(std::string(s)) : mk<ReceiverAntenna>((const char *)s);
  char e[20];
  expect20(s, n, e);
  const char *u = a->__underlying_char__();
  vf_assert(vf_same(u, e, 15), "model-copied-and-padded");
  vf_assert(vf_same(u + 15, e + 15, 5), "radome-copied-or-NONE");
  vf_assert(u[20] == 0, "no-serial-after-construction");
  vf_assert(!a->has_serial(), "no-serial-after-construction");
  vf_reach("done");
}
H(c05_default) {
  ReceiverAntenna *a = mk<ReceiverAntenna>();
  const char *u = a->__underlying_char__();
  bool b = true; for (int i = 0; i < 20; i++) b &= u[i] == ' ';
  vf_assert(b && u[20] == 0 && !a->has_serial(), "default-antenna-is-blank");
  vf_reach("done");
}
H(c05_equivalent) { // two spellings of one model+radome compare equal, different ones do not
  int n = vf_choice(25, "n"), m = vf_choice(25, "m");
#ifndef VF_THOROUGH
  vf_assume((n <= 3) | ((n >= 14) & (n <= 21)));
  vf_assume((m <= 2) | ((m >= 15) & (m <= 20)));
#endif
  char *s = vf_str(n, "s"), *t = vf_str(m, "t");
  ReceiverAntenna *a = mk<ReceiverAntenna>((const char *)s), *b = mk<ReceiverAntenna>(std::string(t));
  char e[20], f[20];
  expect20(s, n, e); expect20(t, m, f);
  bool eq = vf_same(e, f, 20);
  vf_assert(a->compare_model(*b) == eq, "compare-model");
  vf_assert(b->compare_model(*a) == eq, "compare-model");
  vf_assert(!a->is_same(*b), "no-serial-never-same");
  vf_reach("done");
}
// ------------------------------------------------------------------- serials
static bool blank20(const char *s, int n) { bool b = true; for (int i = 0; i < n && i < 20; i++) b &= s[i] == ' '; return b; }
static char at20(const char *s, int n, int i) { return i < n ? s[i] : ' '; }
static bool eq20(const char *s, int n, const char *t, int m) { bool e = true; for (int i = 0; i < 20; i++) e &= at20(s, n, i) == at20(t, m, i); return e; }
H(c06_set) {
  int m = vf_choice(26, "m"), k = vf_choice(3, "k0");
  const char *model = "TRM29659.00     SCIS";
  ReceiverAntenna *a = mk<ReceiverAntenna>(model);
  if (k) { char *o = vf_str(k == 1 ? 20 : 25, "old_serial"); a->set_serial_nr(o); }
  char *s = vf_str(m, "s");
  a->set_serial_nr(s);
  const char *u = a->__underlying_char__();
  bool same = true;
  for (int i = 0; i < 20; i++) same &= u[20 + i] == at20(s, m, i);
  vf_assert(same, "serial-stored-blank-padded");
  vf_assert(u[40] == 0, "serial-terminated");
  vf_assert(vf_same(u, model, 20), "serial-leaves-model");
  vf_assert(a->has_serial() == !blank20(s, m), "has-serial");
  vf_reach("done");
}
static const int KS[] = {0, 1, 2, 5, 19, 20, 21, 25}, MS[] = {0, 1, 2, 5, 19, 20};
H(c06_compare_serial) {
  int n = VF_T(vf_pick(KS, 8, "n"), vf_choice(26, "n")), m = VF_T(vf_pick(MS, 6, "m"), vf_choice(21, "m"));
  ReceiverAntenna *a = mk<ReceiverAntenna>("TRM29659.00     SCIS");
  char *s = vf_str(n, "s"), *t = vf_str(m, "t");
  a->set_serial_nr(s);
  vf_assert(a->compare_serial(t) == eq20(s, n, t, m), "compare-serial");
  vf_reach("done");
}
H(c06_compare_none) {
  int m = VF_T(vf_pick(MS, 6, "m"), vf_choice(21, "m"));
  char *t = vf_str(m, "t");
  ReceiverAntenna *a = vf_choice(2, "how") ? mk<ReceiverAntenna>("TRM29659.00     SCIS") : mk<ReceiverAntenna>();
  vf_assert(a->compare_serial(t) == blank20(t, m), "compare-serial-of-none");
  vf_reach("done");
}
static const int SN[] = {0, 1, 5, 20, 23};
static void is_same(int n1) { // -1: no serial set
  char *m1 = vf_str(20, "m1"), *m2 = vf_str(20, "m2");
  int n2 = vf_choice(6, "n2") - 1;
  ReceiverAntenna *a = mk<ReceiverAntenna>((const char *)m1), *b = mk<ReceiverAntenna>((const char *)m2);
  char *s = nullptr, *t = nullptr; int ns = 0, nt = 0;
  if (n1 >= 0) { ns = SN[n1]; s = vf_str(ns, "s"); a->set_serial_nr(s); }
  if (n2 >= 0) { nt = SN[n2]; t = vf_str(nt, "t"); b->set_serial_nr(t); }
  char e[20], f[20];
  expect20(m1, 20, e); expect20(m2, 20, f);
  bool model = vf_same(e, f, 20);
  bool want = (n1 >= 0) & (n2 >= 0) & !blank20(s, ns) & !blank20(t, nt) & model & eq20(s, ns, t, nt);
  vf_assert(a->is_same(*b) == want, "is-same");
  vf_assert(b->is_same(*a) == want, "is-same");
  vf_assert(a->compare_model(*b) == model, "compare-model-ignores-serial");
  if (want) vf_reach("same"); else vf_reach("different");
}
H(c06_is_same_none) { is_same(-1); }
H(c06_is_same_0) { is_same(0); }
H(c06_is_same_1) { is_same(1); }
H(c06_is_same_5) { is_same(2); }
H(c06_is_same_20) { is_same(3); }
H(c06_is_same_23) { is_same(4); }
// -------------------------------------------------------- satellite antennas
H(c07_satellite_antenna) {
  int n = vf_choice(26, "n"), m = VF_T(vf_pick(KS, 8, "m"), vf_choice(26, "m"));
  char *s = vf_str(n, "s"), *t = vf_str(m, "t");
  int how = vf_choice(3, "how");
  SatelliteAntenna *a;
  if (how == 0) a = mk<SatelliteAntenna>((const char *)s);
  else if (how == 1) { a = mk<SatelliteAntenna>(); a->set_from_cstr(s); }
  else { a = mk<SatelliteAntenna>("BLOCK IIR-M LONGER THAN TWENTY"); a->set_from_cstr(s); }
  int ns = n < 20 ? n : 20, nt = m < 20 ? m : 20;
  const char *u = a->__underlying_char__();
  vf_assert(vf_same(u, s, ns) && u[ns] == 0, "satellite-antenna-copied");
  vf_assert(vf_is(a->to_string(), s, ns), "satellite-antenna-to-string");
  vf_assert(a->is_same(t) == (ns == nt && vf_same(s, t, ns)), "satellite-antenna-compare");
  vf_reach("done");
}
H(c07_default) {
  SatelliteAntenna *a = mk<SatelliteAntenna>();
  vf_assert(a->__underlying_char__()[0] == 0 && a->to_string().empty() && a->is_same(""), "satellite-antenna-default");
  vf_reach("done");
}
// ---------------------------------------------------------------- satellites
static const char SC[8] = {'G', 'R', 'S', 'E', 'C', 'J', 'I', 'M'};
H(c08_string) {
  int sys = vf_range(0, 7, "sys"), prn = vf_range(0, 999, "prn"), svn = vf_range(0, 9999, "svn"), nc = vf_choice(10, "nc");
  char *id = vf_str(nc, "cospar");
  Satellite *s = mk<Satellite>((SATELLITE_SYSTEM)sys, prn);
  s->svn() = svn;
  memcpy(s->cospar(), id, nc + 1);
  std::string a;
  a.push_back(SC[sys]);
  if (prn >= 100) a.push_back('0' + prn / 100);
  a.push_back('0' + prn / 10 % 10); a.push_back('0' + prn % 10);
  vf_assert(vf_is(s->to_string(), a.data(), (int)a.size()) && vf_is(s->to_string(true), a.data(), (int)a.size()), "compact-name");
  a.push_back('-');
  if (svn >= 1000) a.push_back('0' + svn / 1000);
  a.push_back('0' + svn / 100 % 10); a.push_back('0' + svn / 10 % 10); a.push_back('0' + svn % 10);
  a.push_back('/');
  for (int i = 0; i < nc; i++) a.push_back(id[i]);
  vf_assert(vf_is(s->to_string(false), a.data(), (int)a.size()), "full-name");
  vf_reach("done");
}
H(c08_accessors) {
  int sys = vf_range(0, 7, "sys"), prn = vf_int("prn"), svn = vf_int("svn"), s2 = vf_range(0, 7, "s2");
  int how = vf_choice(2, "how");
  Satellite *a = how ? mk<Satellite>((SATELLITE_SYSTEM)sys, prn) : mk<Satellite>((SATELLITE_SYSTEM)sys);
  const Satellite &c = *a;
  vf_assert(c.system() == (SATELLITE_SYSTEM)sys && c.svn() == -1 && c.prn() == (how ? prn : -1), "constructed-satellite");
  vf_assert(c.antenna().to_string().empty() && a->cospar()[0] == 0, "constructed-satellite-has-no-antenna-or-cospar");
  a->prn() = prn; a->svn() = svn; a->system() = (SATELLITE_SYSTEM)s2; a->antenna().set_from_cstr("BLOCK IIF");
  memcpy(a->cospar(), "2019-045A", 10);
  vf_assert(c.prn() == prn && c.svn() == svn && c.system() == (SATELLITE_SYSTEM)s2 && c.antenna().is_same("BLOCK IIF"), "satellite-accessors");
  Satellite b(*a), d;
  d = *a;
  vf_assert(b.prn() == prn && b.svn() == svn && b.system() == (SATELLITE_SYSTEM)s2 && b.antenna().is_same("BLOCK IIF") && !strcmp(b.cospar(), "2019-045A") && !strcmp(d.cospar(), "2019-045A"), "satellite-copy");
  Satellite z;
  vf_assert(z.system() == SATELLITE_SYSTEM::mixed && z.prn() == -1 && z.svn() == -1, "default-satellite");
  vf_reach("done");
}
