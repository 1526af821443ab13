#ifndef __NGPT_DT_READERS__
#define __NGPT_DT_READERS__
#include "dtcalendar.hpp"
#include <cstdlib>
#include <string>
namespace ngpt {
/// "YYYY-MM-DD HH:MM:SS.SSSS" with any one character between the fields.
/// Fewer than five integers or an invalid date throw.
template <typename T> inline datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  const char *p = str;
  char *end = nullptr;
  int f[5];
  for (int i = 0; i < 5; i++) {
    const long v = std::strtol(p, &end, 10);
    if (end == p || v > 1000000L || v < -1000000L)
      throw std::invalid_argument("Invalid date format");
    f[i] = static_cast<int>(v < 0 ? -v : v);
    p = end + (*end != '\0');
  }
  // whole seconds need no floating point
  const long w = std::strtol(p, &end, 10);
  if (end != p && *end != '.' && *end != 'e' && *end != 'E' && *end != 'x' && *end != 'X' && w > -1000000L && w < 1000000L) {
    if (stop)
      *stop = end;
    return datetime<T>(year(f[0]), month(f[1]), day_of_month(f[2]), hours(f[3]), minutes(f[4]), T(w * T::template sec_factor<long>()));
  }
  const double s = std::strtod(p, &end);
  if (!(s > -1e6 && s < 1e6))
    throw std::invalid_argument("Invalid date format");
  if (stop)
    *stop = end;
  return datetime<T>(year(f[0]), month(f[1]), day_of_month(f[2]), hours(f[3]), minutes(f[4]), T(static_cast<long>(T::template sec_factor<long>() == 1 ? s : s * T::template sec_factor<double>())));
}
} // namespace ngpt
#endif
