// C01: satellite system <-> identifier character
#include "vf.h"
#include "satsys.hpp"
#include <stdexcept>
using namespace ngpt;
static const char IDS[8] = {'G', 'R', 'S', 'E', 'C', 'J', 'I', 'M'};
static const SATELLITE_SYSTEM SYS[8] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::galileo,
                                        SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::irnss, SATELLITE_SYSTEM::mixed};
// every char: accepted iff it is an identifier, and mapped to the right system
H(c01_parse) {
  char c = (char)vf_byte("c");
  int want = -1;
  for (int i = 0; i < 8; i++) if (IDS[i] == c) want = i;
  try {
    SATELLITE_SYSTEM s = char_to_satsys(c);
    vf_reach("parsed");
    vf_assert(want >= 0, "foreign-char-accepted");
    vf_assert(want >= 0 && s == SYS[want], "char-maps-to-its-system");
    vf_assert(satsys_to_char(s) == c, "char-system-char-roundtrip");
  } catch (std::exception &) {
    vf_reach("rejected");
    vf_assert(want < 0, "identifier-rejected");
  }
}
H(c01_format) {
  int i = vf_range(0, 7, "sys");
  SATELLITE_SYSTEM s = SYS[i];
  char c = satsys_to_char(s);
  vf_assert(c == IDS[i], "system-maps-to-its-char");
  try { vf_assert(char_to_satsys(c) == s, "system-char-system-roundtrip"); vf_reach("rt"); } catch (std::exception &) { vf_assert(0, "system-char-system-roundtrip"); }
}
H(c01_traits) {
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier == 'G', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::glonass>::identifier == 'R', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::sbas>::identifier == 'S', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::galileo>::identifier == 'E', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::beidou>::identifier == 'C', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::qzss>::identifier == 'J', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::irnss>::identifier == 'I', "trait-identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::mixed>::identifier == 'M', "trait-identifier");
  vf_reach("traits");
}
// physical constants of the broadcast-ephemeris user algorithms
H(c01_constants) {
  using GPS = satellite_system_traits<SATELLITE_SYSTEM::gps>;
  using GAL = satellite_system_traits<SATELLITE_SYSTEM::galileo>;
  using BDS = satellite_system_traits<SATELLITE_SYSTEM::beidou>;
  vf_assert(GPS::mi() == 3.986005e14, "gps-gravitational-parameter");
  vf_assert(GPS::omegae_dot() == 7.2921151467e-5, "gps-earth-rotation");
  vf_assert(GPS::f_clock() == -4.442807633e-10, "gps-relativistic-constant");
  vf_assert(GAL::mi() == 3.986004418e14, "galileo-gravitational-parameter");
  vf_assert(GAL::omegae_dot() == 7.2921151467e-5, "galileo-earth-rotation");
  vf_assert(GAL::f_clock() == -4.442807309e-10, "galileo-relativistic-constant");
  vf_assert(BDS::mi() == 3.986004418e14, "beidou-gravitational-parameter");
  vf_assert(BDS::omegae_dot() == 7.2921150e-5, "beidou-earth-rotation");
  const double c = 299792458e0;
  vf_assert_close(BDS::f_clock(), -2e0 * std::sqrt(3.986004418e14) / (c * c), 1e-22, "beidou-relativistic-constant");
  vf_reach("constants");
}
