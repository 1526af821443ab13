// C04: nominal frequencies
#include "util.h"
#include "gnssobsrv.hpp"
using namespace ngpt;
struct F { int sys, band; double mhz; };
static const F TAB[] = {{0, 1, 1575.42}, {0, 2, 1227.60}, {0, 5, 1176.45}, {2, 1, 1575.42}, {2, 5, 1176.45}, {3, 1, 1575.42}, {3, 5, 1176.45}, {3, 7, 1207.14}, {3, 8, 1191.795},
                        {3, 6, 1278.75}, {4, 1, 1561.098}, {4, 2, 1207.14}, {4, 3, 1268.52}, {5, 1, 1575.42}, {5, 2, 1227.60}, {5, 5, 1176.45}, {5, 6, 1278.75}, {6, 5, 1176.45}, {6, 9, 2492.028}};
static bool lookup(int sys, int band, double *f) {
  if (sys == 1 || sys == 7) { *f = 0; return true; }
  bool ok = false; double r = 0;
  for (const F &t : TAB) { bool hit = (t.sys == sys) & (t.band == band); r = hit ? t.mhz : r; ok |= hit; }
  *f = r;
  return ok;
}
static void sum(int n) {
  double ref = 0; bool ok = true;
  int sys[3], band[3]; double coef[3];
  for (int i = 0; i < n; i++) {
    sys[i] = vf_choice(8, "sys"); band[i] = vf_int("band"); coef[i] = vf_drange(-1e6, 1e6, "coef");
    double f; ok &= lookup(sys[i], band[i], &f);
    ref += coef[i] * f;
  }
  auto code = [&](int i) { return ObservationCode(OBSERVABLE_TYPE::carrier_phase, band[i], ObservationAttribute('C')); };
  GnssObservable o((SATELLITE_SYSTEM)sys[0], code(0), coef[0]);
  for (int i = 1; i < n; i++) o.add((SATELLITE_SYSTEM)sys[i], code(i), coef[i]);
  try {
    double f = o.frequency();
    vf_reach("value");
    vf_assert(ok, "unknown-band-has-frequency");
    vf_assert_close(f, ref, 1e-9, "frequency-is-weighted-sum");
  } catch (std::exception &) {
    vf_reach("exception");
    vf_assert(!ok, "known-band-rejected");
  }
}
H(c04_one) { sum(1); }
H(c04_two) { sum(2); }
H(c04_three) { // one system
  double ref = 0; int band[3]; double coef[3]; bool ok = true; int sys = vf_choice(8, "sys");
  for (int i = 0; i < 3; i++) { band[i] = vf_range(-1, 12, "band"); coef[i] = vf_drange(-1e6, 1e6, "coef"); double f; ok &= lookup(sys, band[i], &f); ref += coef[i] * f; }
  auto code = [&](int i) { return ObservationCode(OBSERVABLE_TYPE::pseudorange, band[i], ObservationAttribute('X')); };
  GnssObservable o((SATELLITE_SYSTEM)sys, code(0), coef[0]);
  for (int i = 1; i < 3; i++) o.add(GnssRawObservable((SATELLITE_SYSTEM)sys, code(i)), coef[i]);
  try { double f = o.frequency(); vf_reach("value"); vf_assert(ok, "unknown-band-has-frequency"); vf_assert_close(f, ref, 1e-9, "frequency-is-weighted-sum"); } catch (std::exception &) { vf_assert(!ok, "known-band-rejected"); }
}
H(c04_many) { // 4..12 parts of different systems, any band of one of them
  static const int sb[][2] = {{0, 1}, {3, 8}, {4, 2}, {0, 5}, {6, 9}, {3, 6}, {5, 2}, {4, 3}, {0, 2}, {3, 7}, {2, 5}, {6, 5}};
  static const int ns[] = {4, 5, 8, 12};
  int n = ns[vf_choice(4, "n")], k = vf_choice(2, "where") ? n - 1 : 1;
  double ref = 0, coef[12]; bool ok = true; int band[12], sys[12];
  for (int i = 0; i < n; i++) {
    sys[i] = sb[i][0]; band[i] = i == k ? vf_int("band") : sb[i][1]; coef[i] = vf_drange(-1e6, 1e6, "coef");
    double f; ok &= lookup(sys[i], band[i], &f); ref += coef[i] * f;
  }
  auto code = [&](int i) { return ObservationCode(OBSERVABLE_TYPE::carrier_phase, band[i], ObservationAttribute('C')); };
  GnssObservable o((SATELLITE_SYSTEM)sys[0], code(0), coef[0]);
  for (int i = 1; i < n; i++) o.add((SATELLITE_SYSTEM)sys[i], code(i), coef[i]);
  try { double f = o.frequency(); vf_reach("value"); vf_assert(ok, "unknown-band-has-frequency"); vf_assert_close(f, ref, 1e-9, "frequency-is-weighted-sum"); } catch (std::exception &) { vf_reach("exception"); vf_assert(!ok, "known-band-rejected"); }
}
template <class T> static void table(const T &m, int sys) {
  int band = vf_int("band");
  double f = 0; bool ok = false;
  if (sys == 1) { ok = (band >= 1) & (band <= 3); f = band == 1 ? 1602.0 : band == 2 ? 1246.0 : 1202.025; }
  else ok = lookup(sys, band, &f);
  auto it = m.find(band);
  vf_assert((it != m.end()) == ok, "band-table-keys");
  if (it != m.end()) { vf_reach("hit"); vf_assert_eqd(it->second, f, "band-table-frequency"); }
}
H(c04_tables) {
  switch (vf_choice(7, "sys")) {
  case 0: table(satellite_system_traits<SATELLITE_SYSTEM::gps>::frequency_map, 0); break;
  case 1: table(satellite_system_traits<SATELLITE_SYSTEM::glonass>::frequency_map, 1); break;
  case 2: table(satellite_system_traits<SATELLITE_SYSTEM::sbas>::frequency_map, 2); break;
  case 3: table(satellite_system_traits<SATELLITE_SYSTEM::galileo>::frequency_map, 3); break;
  case 4: table(satellite_system_traits<SATELLITE_SYSTEM::beidou>::frequency_map, 4); break;
  case 5: table(satellite_system_traits<SATELLITE_SYSTEM::qzss>::frequency_map, 5); break;
  case 6: table(satellite_system_traits<SATELLITE_SYSTEM::irnss>::frequency_map, 6); break;
  }
}
struct A { int sys, band; const char *att; };
static const A ATT[] = {{0, 1, "CSLXPWYMN?"}, {0, 2, "CDSLXPWYMN?"}, {0, 5, "IQX?"}, {1, 1, "CP?"}, {1, 2, "CP?"}, {1, 3, "IQX?"}, {2, 1, "C?"}, {2, 5, "IQX?"}, {3, 1, "ABCXZ?"}, {3, 5, "IQX?"},
                        {3, 7, "IQX?"}, {3, 8, "IQX?"}, {3, 6, "ABCXZ?"}, {4, 1, "IQX?"}, {4, 2, "IQX?"}, {4, 3, "IQX?"}, {5, 1, "CSLXZ?"}, {5, 2, "SLX?"}, {5, 5, "IQX?"}, {5, 6, "SLX?"}, {6, 5, "ABCX?"}, {6, 9, "ABCX?"}};
template <class T> static void attrs(const T &m, int sys) { // which characters are valid per band
  int band = vf_concrete(vf_range(-1, 12, "band"));
  char c = (char)vf_byte("c");
  vf_assume(c != 0);
  const char *ref = nullptr;
  for (const A &a : ATT) if (a.sys == sys && a.band == band) ref = a.att;
  auto it = m.find(band);
  vf_assert((it != m.end()) == (ref != nullptr), "attribute-table-bands");
  if (ref && it != m.end()) {
    bool in = false, got = false;
    for (const char *p = ref; *p; p++) in |= *p == c;
    for (char x : it->second) got |= x == c;
    vf_assert(in == got, "valid-attributes"); vf_reach("hit");
  }
}
H(c04_attributes) {
  switch (vf_choice(7, "sys")) {
  case 0: attrs(satellite_system_traits<SATELLITE_SYSTEM::gps>::valid_atributes, 0); break;
  case 1: attrs(satellite_system_traits<SATELLITE_SYSTEM::glonass>::valid_atributes, 1); break;
  case 2: attrs(satellite_system_traits<SATELLITE_SYSTEM::sbas>::valid_atributes, 2); break;
  case 3: attrs(satellite_system_traits<SATELLITE_SYSTEM::galileo>::valid_atributes, 3); break;
  case 4: attrs(satellite_system_traits<SATELLITE_SYSTEM::beidou>::valid_atributes, 4); break;
  case 5: attrs(satellite_system_traits<SATELLITE_SYSTEM::qzss>::valid_atributes, 5); break;
  case 6: attrs(satellite_system_traits<SATELLITE_SYSTEM::irnss>::valid_atributes, 6); break;
  }
}
