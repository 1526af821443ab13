// Stand-in for the part of the (absent) ggdatetime library that ggnss uses:
// same names, same meaning. Invalid calendar dates throw std::out_of_range,
// as ggdatetime's calendar conversion does.
#ifndef __DTCALENDAR_NGPT__HPP__
#define __DTCALENDAR_NGPT__HPP__
#include <cmath>
#include <limits>
#include <stdexcept>
#include <type_traits>
namespace ngpt {
constexpr double mjd0_jd{2400000.5e0};
constexpr double j2000_mjd{51544.5e0};
constexpr long jan61980{44244L};

#define VF_DT_TYPE(name, type)                                                                     \
  class name {                                                                                     \
  public:                                                                                          \
    typedef type underlying_type;                                                                  \
    static constexpr bool is_fundamental{true};                                                    \
    explicit constexpr name(underlying_type i = 0) noexcept : v_(i) {}                             \
    constexpr underlying_type as_underlying_type() const noexcept { return v_; }                   \
    constexpr underlying_type &__member_ref__() noexcept { return v_; }                            \
    constexpr bool operator==(const name &o) const noexcept { return v_ == o.v_; }                 \
    constexpr bool operator!=(const name &o) const noexcept { return v_ != o.v_; }                 \
    constexpr bool operator<(const name &o) const noexcept { return v_ < o.v_; }                   \
    constexpr bool operator<=(const name &o) const noexcept { return v_ <= o.v_; }                 \
    constexpr bool operator>(const name &o) const noexcept { return v_ > o.v_; }                   \
    constexpr bool operator>=(const name &o) const noexcept { return v_ >= o.v_; }                 \
    constexpr name operator+(const name &o) const noexcept { return name(v_ + o.v_); }             \
    constexpr name operator-(const name &o) const noexcept { return name(v_ - o.v_); }             \
    constexpr void operator+=(const name &o) noexcept { v_ += o.v_; }                              \
    constexpr void operator-=(const name &o) noexcept { v_ -= o.v_; }                              \
  private:                                                                                         \
    underlying_type v_;                                                                            \
  };
VF_DT_TYPE(year, int)
VF_DT_TYPE(month, int)
VF_DT_TYPE(gps_week, long)
VF_DT_TYPE(day_of_year, int)
VF_DT_TYPE(hours, int)
VF_DT_TYPE(minutes, int)
#undef VF_DT_TYPE

namespace vf_detail {
inline constexpr bool leap(int y) noexcept { return !(y % 4) && (y % 100 || !(y % 400)); }
inline constexpr int mdays(int y, int m) noexcept { return m == 2 ? 28 + leap(y) : 30 + ((m + (m > 7)) & 1); }
/// days of a proleptic Gregorian date since 17 Nov 1858
inline long cal2mjd(int y, int m, int d) {
  if (y < -4799 || y > 100000)
    throw std::out_of_range("cal2mjd: invalid year");
  if (m < 1 || m > 12)
    throw std::out_of_range("cal2mjd: invalid month");
  if (d < 1 || d > mdays(y, m))
    throw std::out_of_range("cal2mjd: invalid day of month");
  const int a = y + 4800 - (m <= 2);
  const int mm = m + (m <= 2 ? 12 : 0) - 3;
  return d + (153 * mm + 2) / 5 + 365L * a + a / 4 - a / 100 + a / 400 - 32045 - 2400001;
}
} // namespace vf_detail

class day_of_month {
public:
  typedef int underlying_type;
  explicit constexpr day_of_month(underlying_type i = 0) noexcept : v_(i) {}
  constexpr underlying_type as_underlying_type() const noexcept { return v_; }
  constexpr bool is_valid(year y, month m) const noexcept {
    return m.as_underlying_type() >= 1 && m.as_underlying_type() <= 12 && v_ >= 1 && v_ <= vf_detail::mdays(y.as_underlying_type(), m.as_underlying_type());
  }
  constexpr bool operator==(const day_of_month &o) const noexcept { return v_ == o.v_; }
private:
  underlying_type v_;
};

class modified_julian_day {
public:
  typedef long underlying_type;
  explicit constexpr modified_julian_day(underlying_type i = 0) noexcept : v_(i) {}
  modified_julian_day(year y, month m, day_of_month d) : v_(vf_detail::cal2mjd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type())) {}
  static constexpr modified_julian_day min() noexcept { return modified_julian_day(-100000000L); }
  static constexpr modified_julian_day max() noexcept { return modified_julian_day(100000000L); }
  constexpr underlying_type as_underlying_type() const noexcept { return v_; }
  constexpr bool operator==(const modified_julian_day &o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(const modified_julian_day &o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(const modified_julian_day &o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(const modified_julian_day &o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(const modified_julian_day &o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(const modified_julian_day &o) const noexcept { return v_ >= o.v_; }
  constexpr modified_julian_day operator+(const modified_julian_day &o) const noexcept { return modified_julian_day(v_ + o.v_); }
  constexpr modified_julian_day operator-(const modified_julian_day &o) const noexcept { return modified_julian_day(v_ - o.v_); }
  constexpr void operator++() noexcept { ++v_; }
  constexpr void operator--() noexcept { --v_; }
private:
  underlying_type v_;
};

namespace vf_detail {
template <long F> class sec_t {
public:
  typedef long underlying_type;
  static constexpr bool is_of_sec_type{true};
  static constexpr underlying_type max_in_day{86400L * F};
  template <typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  static constexpr double sec_ifactor() noexcept { return 1e0 / static_cast<double>(F); }
  explicit constexpr sec_t(underlying_type i = 0) noexcept : v_(i) {}
  explicit constexpr sec_t(hours h, minutes m, sec_t s) noexcept : v_(s.v_ + m.as_underlying_type() * 60L * F + h.as_underlying_type() * 3600L * F) {}
  constexpr underlying_type as_underlying_type() const noexcept { return v_; }
  constexpr underlying_type &__member_ref__() noexcept { return v_; }
  constexpr double to_fractional_seconds() const noexcept { return F == 1 ? static_cast<double>(v_) : static_cast<double>(v_) / static_cast<double>(F); }
  constexpr double fractional_days() const noexcept { return static_cast<double>(v_) / static_cast<double>(max_in_day); }
  constexpr bool operator==(const sec_t &o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(const sec_t &o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(const sec_t &o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(const sec_t &o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(const sec_t &o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(const sec_t &o) const noexcept { return v_ >= o.v_; }
  constexpr sec_t operator+(const sec_t &o) const noexcept { return sec_t(v_ + o.v_); }
  constexpr sec_t operator-(const sec_t &o) const noexcept { return sec_t(v_ - o.v_); }
  constexpr void operator+=(const sec_t &o) noexcept { v_ += o.v_; }
  constexpr void operator-=(const sec_t &o) noexcept { v_ -= o.v_; }
private:
  underlying_type v_;
};
} // namespace vf_detail
using seconds = vf_detail::sec_t<1L>;
using milliseconds = vf_detail::sec_t<1000L>;
using microseconds = vf_detail::sec_t<1000000L>;

/// from one kind of second to another (towards zero when precision is lost)
template <typename Ssrc, typename Strg> inline constexpr Strg cast_to(Ssrc s) noexcept {
  constexpr long a = Ssrc::template sec_factor<long>(), b = Strg::template sec_factor<long>();
  return Strg(b >= a ? s.as_underlying_type() * (b / a) : s.as_underlying_type() / (a / b));
}

template <typename S> class datetime {
public:
  static_assert(S::is_of_sec_type);
  typedef S sec_type;
  explicit constexpr datetime() noexcept : mjd_(51544L), sec_(0L) {}
  explicit datetime(year y, month m, day_of_month d, S s) : mjd_(y, m, d), sec_(s) { normalize(); }
  explicit datetime(year y, month m, day_of_month d, hours h = hours(0), minutes mn = minutes(0), S s = S(0)) : mjd_(y, m, d), sec_(h, mn, s) { normalize(); }
  explicit constexpr datetime(modified_julian_day d, S s = S(0)) noexcept : mjd_(d), sec_(s) { normalize(); }
  explicit constexpr datetime(modified_julian_day d, hours h, minutes m = minutes(0), S s = S(0)) noexcept : mjd_(d), sec_(h, m, s) { normalize(); }
  explicit constexpr datetime(gps_week w, seconds sow) noexcept : mjd_(w.as_underlying_type() * 7L + jan61980), sec_(ngpt::cast_to<seconds, S>(sow)) { normalize(); }
  static constexpr datetime min() noexcept { return datetime(modified_julian_day::min(), S(0)); }
  static constexpr datetime max() noexcept { return datetime(modified_julian_day::max(), S(0)); }
  constexpr modified_julian_day mjd() const noexcept { return mjd_; }
  constexpr S sec() const noexcept { return sec_; }
  constexpr double as_mjd() const noexcept { return static_cast<double>(mjd_.as_underlying_type()) + sec_.fractional_days(); }
  template <typename T> constexpr gps_week as_gps_wsow(T &sow) const noexcept {
    const long d = mjd_.as_underlying_type() - jan61980, w = d / 7;
    put(sow, (d - w * 7) * S::max_in_day + sec_.as_underlying_type());
    return gps_week(w);
  }
  template <typename T> constexpr datetime<T> cast_to() const noexcept { return datetime<T>(mjd_, ngpt::cast_to<S, T>(sec_)); }
  template <typename T> constexpr void add_seconds(T s) noexcept { sec_ += ngpt::cast_to<T, S>(s); normalize(); }
  template <typename T> constexpr void remove_seconds(T s) noexcept { sec_ -= ngpt::cast_to<T, S>(s); normalize(); }
  /// seconds since a previous instant
  constexpr S delta_sec(const datetime &o) const noexcept { return S((mjd_.as_underlying_type() - o.mjd_.as_underlying_type()) * S::max_in_day + sec_.as_underlying_type() - o.sec_.as_underlying_type()); }
private:
  static constexpr void put(S &t, long v) noexcept { t = S(v); }
  static constexpr void put(long &t, long v) noexcept { t = v / S::template sec_factor<long>(); }
  constexpr void normalize() noexcept {
    long s = sec_.as_underlying_type();
    if (s < 0 || s >= S::max_in_day) {
      long d = s / S::max_in_day;
      s -= d * S::max_in_day;
      if (s < 0) { s += S::max_in_day; --d; }
      mjd_ = modified_julian_day(mjd_.as_underlying_type() + d);
      sec_ = S(s);
    }
  }
  modified_julian_day mjd_;
  S sec_;
};
namespace vf_detail {
template <typename A, typename B> using finer = std::conditional_t<(A::max_in_day >= B::max_in_day), A, B>;
/// -1, 0, 1
template <typename A, typename B> inline constexpr int cmp(const datetime<A> &a, const datetime<B> &b) noexcept {
  using T = finer<A, B>;
  const long da = a.mjd().as_underlying_type(), db = b.mjd().as_underlying_type();
  const long sa = cast_to<A, T>(a.sec()).as_underlying_type(), sb = cast_to<B, T>(b.sec()).as_underlying_type();
  return ((da > db) | ((da == db) & (sa > sb))) - ((da < db) | ((da == db) & (sa < sb)));
}
} // namespace vf_detail
template <typename A, typename B> inline constexpr bool operator==(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) == 0; }
template <typename A, typename B> inline constexpr bool operator!=(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) != 0; }
template <typename A, typename B> inline constexpr bool operator<(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) < 0; }
template <typename A, typename B> inline constexpr bool operator<=(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) <= 0; }
template <typename A, typename B> inline constexpr bool operator>(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) > 0; }
template <typename A, typename B> inline constexpr bool operator>=(const datetime<A> &a, const datetime<B> &b) noexcept { return vf_detail::cmp(a, b) >= 0; }
/// a - b in seconds of the finer kind
template <typename A, typename B> inline constexpr vf_detail::finer<A, B> delta_sec(const datetime<A> &a, const datetime<B> &b) noexcept {
  using T = vf_detail::finer<A, B>;
  return a.template cast_to<T>().delta_sec(b.template cast_to<T>());
}
template <typename A, typename B, typename = std::enable_if_t<A::is_of_sec_type && B::is_of_sec_type && !std::is_same<A, B>::value>> inline constexpr bool operator>(const A &a, const B &b) noexcept {
  using T = vf_detail::finer<A, B>;
  return cast_to<A, T>(a).as_underlying_type() > cast_to<B, T>(b).as_underlying_type();
}
} // namespace ngpt
#endif
