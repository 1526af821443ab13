#ifndef __NGPT_DT_WRITERS__
#define __NGPT_DT_WRITERS__
#include "dtcalendar.hpp"
#include <string>
namespace ngpt {
template <typename T> inline std::string strftime_ymd_hms(const datetime<T> &t, char = '-') {
  return std::to_string(t.mjd().as_underlying_type()) + " " + std::to_string(t.sec().as_underlying_type());
}
} // namespace ngpt
#endif
