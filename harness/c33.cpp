// C33 two-digit years
#include "util.h"
#include "rinex.hpp"
H(c33_year) {
  int y = vf_range(0, 99, "y");
  int f = ngpt::rinex::four2two_digit_year(y);
  vf_assert(f >= 1980 && f <= 2079, "from-1980-to-2079");
  vf_assert(f % 100 == y, "same-last-digits");
  vf_reach("done");
}
