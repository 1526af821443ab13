// C02: observable types and observation codes
#include "util.h"
#include "gnssobs.hpp"
using namespace ngpt;
static const char CH[7] = {'C', 'L', 'D', 'S', 'I', 'X', '?'};
static const OBSERVABLE_TYPE TY[7] = {OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::carrier_phase, OBSERVABLE_TYPE::doppler, OBSERVABLE_TYPE::signal_strength,
                                      OBSERVABLE_TYPE::ionosphere_phase_delay, OBSERVABLE_TYPE::receiver_channel_number, OBSERVABLE_TYPE::any};
H(c02_type) {
  char c = (char)vf_byte("c");
  int want = -1;
  for (int i = 0; i < 6; i++) if (CH[i] == c) want = i;
  try {
    OBSERVABLE_TYPE t = char_to_observabletype(c);
    vf_reach("ok");
    vf_assert(want >= 0, "foreign-type-accepted");
    vf_assert(want >= 0 && t == TY[want], "type-of-char");
    vf_assert(observabletype_to_char(t) == c, "type-roundtrip");
  } catch (std::exception &) {
    vf_reach("rejected");
    vf_assert(want < 0, "type-rejected");
  }
  int i = vf_range(0, 6, "t");
  vf_assert(observabletype_to_char(TY[i]) == CH[i], "char-of-type");
}
H(c02_code) {
  int n = vf_choice(VF_T(6, 12), "n");
  char *s = vf_str(n, "s");
  int want = -1;
  if (n >= 2) for (int i = 0; i < 6; i++) if (CH[i] == s[0]) want = i;
  bool valid = n >= 2 && want >= 0 && s[1] >= '0' && s[1] <= '9';
  try {
    ObservationCode o(s);
    vf_reach("ok");
    vf_assert(valid, "malformed-code-accepted");
    char at = (n > 2 && s[2] != ' ') ? s[2] : '?';
    vf_assert(o.get<0>() == TY[want], "code-type");
    vf_assert(o.band() == s[1] - '0' && o.get<1>() == s[1] - '0', "code-band");
    vf_assert(o.get<2>().as_char() == at, "code-attribute");
    std::string t = o.to_string();
    char ref[3] = {s[0], s[1], at};
    vf_assert(vf_is(t, ref, 3), "code-to-string");
    if (at != '?' || n <= 2) {
      try { ObservationCode r(t.c_str()); vf_assert(r == o && !(r != o), "code-roundtrip"); } catch (std::exception &) { vf_assert(0, "code-roundtrip"); }
    }
  } catch (std::exception &) {
    vf_reach("rejected");
    vf_assert(!valid, "valid-code-rejected");
  }
}
H(c02_equality) {
  int t1 = vf_range(0, 6, "t1"), t2 = vf_range(0, 6, "t2"), b1 = vf_int("b1"), b2 = vf_int("b2");
  char a1 = (char)vf_byte("a1"), a2 = (char)vf_byte("a2");
  ObservationCode x(TY[t1], b1, ObservationAttribute(a1)), y(TY[t2], b2, ObservationAttribute(a2));
  bool eq = (t1 == t2) & (b1 == b2) & (a1 == a2);
  vf_assert((x == y) == eq, "code-equality");
  vf_assert((x != y) == !eq, "code-inequality");
  vf_assert((ObservationAttribute(a1) == ObservationAttribute(a2)) == (a1 == a2), "attribute-equality");
  vf_assert((ObservationAttribute(a1) != ObservationAttribute(a2)) == (a1 != a2), "attribute-inequality");
  const ObservationCode &cx = x;
  vf_assert(cx.get<0>() == TY[t1] && cx.get<1>() == b1 && cx.get<2>().as_char() == a1 && cx.band() == b1, "code-accessors");
  x.band() = b2; x.get<0>() = TY[t2]; x.get<2>() = ObservationAttribute(a2);
  vf_assert(x == y, "code-mutators");
  x.get<1>() = b1;
  vf_assert(x.band() == b1, "code-mutators");
  ObservationCode d;
  vf_assert(d.get<0>() == OBSERVABLE_TYPE::any && d.band() == 0 && d.get<2>().as_char() == '?', "default-code");
  vf_reach("done");
}
H(c02_format) { // every code whose band is a digit
  int t = vf_range(0, 6, "t"), b = vf_range(0, 9, "b");
  char a = (char)vf_byte("a");
  ObservationCode x(TY[t], b, ObservationAttribute(a));
  char ref[3] = {CH[t], (char)('0' + b), a};
  vf_assert(vf_is(x.to_string(), ref, 3), "code-to-string");
  vf_reach("done");
}
