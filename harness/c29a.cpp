// C29 damaged files, C30 files cut short: ANTEX
#include "fbuf.h"
#include "antex.hpp"
#include <iomanip>
#include <sstream>
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
typedef datetime<seconds> Ts;
#define GNSSBLANK -999.99
#include "damage.h"
#include "pcoseen.h"
#include "files.h"
static Out rd_atx(const char *fn) {
  Out o;
  try {
    Antex x(fn);
    for (int i = 0; i < 3; i++) {
      AntennaPcoList l(AntennaPco(ObservationCode("L1C"), S::gps));
      Satellite sv;
      Got g{0, {}, false};
      if (i < 2) g.st = x.get_antenna_pco(ReceiverAntenna(i ? "TRM59900.00     NONE" : "TRM59900.00     SCIS"), l);
      else g.st = x.get_antenna_pco(5, S::gps, Ts(modified_julian_day(58000), seconds(0)), l, &sv);
      if (!g.st) {
        vf_assert(l.__vecref__().size() < 100, "offsets-bounded");
        g.v.push_back(l.__vecref__().size());
        for (auto &p : l.__vecref__()) { Pco e = seen(p); for (int k = 0; k < 3; k++) g.v.push_back(e.v[k]); }
        if (i == 2) { g.v.push_back(sv.svn()); g.v.push_back(sv.prn()); }
      }
      o.push_back(g);
    }
  } catch (std::runtime_error &) { o.push_back({99, {}, true}); }
  return o;
}
#define DMG(x) H(c29_##x##_lines) { lines(x, rd_##x); } H(c29_##x##_short) { shortened(x, rd_##x); }
DMG(atx)
PART(atx, 0, 4) PART(atx, 1, 4) PART(atx, 2, 4) PART(atx, 3, 4)
H(c30_atx) { cut(atx, rd_atx, false, false); }
