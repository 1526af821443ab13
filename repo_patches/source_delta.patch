From 573ae3a4d3aebbc5455b047e3ec5005ce003d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 01/22] fix: SatelliteAntenna::is_same returned the inverse of
 the comparison

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From 80c39e6f5d5151fc3db09939dd3c4aff5b628dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 02/22] fix: set the antenna radome to NONE exactly when the
 input has none

A blank radome in a full 20-character antenna was left blank, and a radome
shorter than 4 characters was overwritten with NONE.
---
 src/antenna.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 9a877a2..d82e098 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,8 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -65,8 +65,9 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   std::memcpy(__name, c, sizeof(char) * std::min(ant_size, max_sz));
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
-    set_none_radome();
   }
+  if (radome_is_empty())
+    set_none_radome();
 }
 
 /// Constructor from antenna type. At maximum 20 chars are copied from the
-- 
2.43.0


From 14f047d5bc0d93e7769fd559efc659147352c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 03/22] fix: compare_serial never matched a serial shorter than
 20 characters

set_serial_nr pads the serial with whitespace; the padding is not part of it.
---
 src/antenna.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index d82e098..ef795fb 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -130,7 +130,15 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  // the stored serial is padded with whitespace up to its maximum length
+  auto length = [](const char *s) {
+    std::size_t n = ::strnlen(s, antenna_serial_max_chars);
+    while (n && s[n - 1] == ' ')
+      --n;
+    return n;
+  };
+  const auto n = length(c);
+  return length(__name + idx) == n && !std::strncmp(__name + idx, c, n);
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From 65f285e610267fdf8a71922d16c27e75e58c5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 04/22] fix: GnssObservable equality ignored multiplicities and
 was asymmetric

{a,a,b} compared equal to {a,b,c} but not the other way round.
---
 src/gnssobsrv.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..2fc53ad 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,5 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From 566b324e30141c0402ad0bd51222db33a04f6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 05/22] fix: GnssObservable::frequency terminated the program
 on an unknown band

The parts' frequency() throws std::out_of_range, which could not leave the
noexcept function.
---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From 011d037562ab2cd707cf758e8ce949ee94db7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 06/22] fix: Satellite COSPAR id was uninitialised and one
 character too short

"YYYY-XXXA" needs 9 characters; to_string(false) read indeterminate bytes
when no id was set and dropped the last one when it was.
---
 src/satellite.cpp | 3 +--
 src/satellite.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..b0a9fcb 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -17,6 +17,5 @@ std::string Satellite::to_string(bool compact) const noexcept {
   else
     sat += ("-" + s);
 
-  return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+  return sat + "/" + __cospar;
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..b5f668e 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9;
 }
 
 /// @class Satellite
@@ -113,8 +113,9 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
-};                                           // Satellite
+      __cospar[detail::COSPAR_ID_CHARS + 1] =
+          ""; ///< The COSPAR id, aka "YYYY-XXXA"
+};            // Satellite
 
 } // namespace ngpt
 
-- 
2.43.0


From 252ccb10e7ce1ae271cc3eeff064e69aaa340235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 07/22] fix: reject observation codes whose band is not a digit

"CX" resolved to band 40 and was printed as "C4?".
---
 src/gnssobs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gnssobs.cpp b/src/gnssobs.cpp
index 08e958f..53a15a6 100644
--- a/src/gnssobs.cpp
+++ b/src/gnssobs.cpp
@@ -88,6 +88,9 @@ ObservationCode::ObservationCode(const char *str) {
   }
   ObservationAttribute at;
   auto ot = char_to_observabletype(*str);
+  if (str[1] < '0' || str[1] > '9') {
+    throw std::runtime_error("[ERROR] Invalid band in ObservationCode");
+  }
   int bn = str[1] - '0';
   if (std::strlen(str) > 2 && str[2] != ' ') {
     at = ObservationAttribute(str[2]);
-- 
2.43.0


From 07e77709f91719ab7b8f29f175882e4f79c57d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 08/22] fix: resolve each fixed-width number from its own field

A blank field used to be given the value of the field that follows it, fields
past the end of a short line were read from stale memory, and any earlier
errno made the function fail. Spare fields of navigation records (blank in the
middle of BeiDou and IRNSS lines) are now read as zero explicitly.
---
 src/navrnx.cpp  | 88 ++++++++++++++++++++++++++++++-------------------
 src/nvarstr.hpp | 60 ++++++++++++++++-----------------
 2 files changed, 83 insertions(+), 65 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..292624e 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -63,6 +63,47 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Fields of a broadcast orbit line that RINEX v3.x marks as 'spare';
+///        these can be left blank.
+/// @param[in] s   SATELLITE_SYSTEM
+/// @param[in] ln  Index of broadcast orbit line (0 is 'BROADCAST ORBIT - 1')
+/// @return        A bit mask; bit i is set if field i of the line is spare
+unsigned __spare_fields_v3__(ngpt::SATELLITE_SYSTEM s, int ln) noexcept {
+  using ngpt::SATELLITE_SYSTEM;
+  if (s == SATELLITE_SYSTEM::galileo && ln == 4)
+    return 1u << 3;
+  if ((s == SATELLITE_SYSTEM::beidou || s == SATELLITE_SYSTEM::irnss) &&
+      ln == 4)
+    return (1u << 1) | (1u << 3);
+  if (s == SATELLITE_SYSTEM::irnss && ln == 5)
+    return 1u << 3;
+  return 0;
+}
+
+/// @brief Resolve the 4 doubles (4X,4D19.12) of a broadcast orbit line
+/// @param[in]  line  The line, with 'D' exponents already replaced by 'E'
+/// @param[in]  spare Mask of spare fields (see __spare_fields_v3__); these are
+///                   set to 0 when blank (or missing)
+/// @param[out] data  The resolved values; at least 4 elements
+/// @return True if all values were resolved
+bool __resolve_orbit_line__(const char *line, unsigned spare,
+                            double *data) noexcept {
+  const std::size_t len = std::strlen(line);
+  for (int i = 0; i < 4; i++) {
+    const std::size_t pos = 4 + i * 19;
+    const bool missing =
+        pos >= len || ngpt::string_is_empty(line + pos, 19);
+    if (missing) {
+      if (!((spare >> i) & 1u))
+        return false;
+      data[i] = 0e0;
+    } else if (!ngpt::__char2double__<1, 19>(line + pos, data + i)) {
+      return false;
+    }
+  }
+  return true;
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -107,39 +148,18 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (lines_in_block < 0) {
     return 4;
   }
-  // read all but the last line (** all but galileo or beidou **)
-  if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
-    for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
-        return 5;
-      }
-      // replace 'D' or 'd' with 'e'
-      __for2cpp__(line);
-      // read 4 doubles into data__
-      if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
-        errno = 0;
-        return 6;
-      }
+  // read all but the last line
+  for (ln = 0; ln < lines_in_block - 1; ln++) {
+    if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      return 5;
     }
-  } else { // galileo and beidou have an empty record in line #5
-    for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
-        return 5;
-      }
-      // replace 'D' or 'd' with 'e'
-      __for2cpp__(line);
-      // read 4 doubles into data__
-      if (ln != 4) {
-        if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
-          errno = 0;
-          return 6;
-        }
-      } else {
-        if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
-          errno = 0;
-          return 6;
-        }
-      }
+    // replace 'D' or 'd' with 'e'
+    __for2cpp__(line);
+    // read 4 doubles into data__
+    if (!__resolve_orbit_line__(line, __spare_fields_v3__(sys__, ln),
+                                data__ + 3 + ln * 4)) {
+      errno = 0;
+      return 6;
     }
   }
 
@@ -150,7 +170,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // replace 'D' or 'd' with 'e'
   __for2cpp__(line);
   // read remaining last_line_recs doubles into data__
-  if (!__char2double__<19>(line + 4, data__ + 3 + ln * 4, last_line_recs)) {
+  if (std::strlen(line) < 4 ||
+      !__char2double__<19>(line + 4, data__ + 3 + ln * 4,
+                           last_line_recs)) {
     errno = 0;
     return 8;
   }
diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..332153a 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,8 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cerrno>
+#include <cstdlib>
 #include <string>
 
 namespace ngpt {
@@ -74,47 +76,41 @@ std::string ltrim(const char *str, std::size_t &start,
                   std::size_t stop = -1) noexcept;
 
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
-///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
+///          format N*D19.x as in RINEX 3.x) and asigne them to data[0,N). Each
+///          number is resolved from its own M characters, so that a blank field
+///          (or one past the end of the string) is never mistaken for its
+///          neighbour. Numbers resolved before a failure are assigned.
 /// @param[in]  line  A c-string containing N doubles written with M digits
-/// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
+/// @param[out] data  An array of (at least) N elements; the resolved doubles
 ///                   will be written in data[0]...data[N-1]
 /// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
-///          sure to clear it (aka 'errno') after exit.
-template <int N, int M>
-inline bool __char2double__(const char *line, double *data) noexcept {
-  char *end;
+///          (e.g. a field is blank, missing or out of range)
+/// @note The function does not depend on the value of 'errno' at input, but it
+///       will change it.
+template <int M>
+inline bool __char2double__(const char *line, double *data, int N) noexcept {
+  char field[M + 1], *end;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    int len = 0;
+    for (; len < M && line[len]; ++len)
+      field[len] = line[len];
+    field[len] = '\0';
+    errno = 0;
+    data[i] = std::strtod(field, &end);
+    if (end == field || errno)
       return false;
-    line += M;
+    line += len;
   }
-  return errno ? false : true;
+  return true;
 }
 
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
-///          format N*D19.x as in RINEX 3.x) and asigne them to data[0,N).
-/// @param[in]  line  A c-string containing N doubles written with M digits
-/// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
-///                   will be written in data[0]...data[N-1]
-/// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
-///          sure to clear it (aka 'errno') after exit.
-/// @note exactly the same as the template version, only we don't know how many
-/// doubles we are resolving at compile time.
-template <int M>
-inline bool __char2double__(const char *line, double *data, int N) noexcept {
-  char *end;
-  for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
-      return false;
-    line += M;
-  }
-  return errno ? false : true;
+///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
+/// @note exactly the same as the above version, only we know how many doubles
+/// we are resolving at compile time.
+template <int N, int M>
+inline bool __char2double__(const char *line, double *data) noexcept {
+  return __char2double__<M>(line, data, N);
 }
 
 /// @brief Replace all occurancies of 'D' or 'd' with 'E' in given c-string.
-- 
2.43.0


From 203b92495440944e0e2cb2887fad89f014722492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 09/22] fix: BernSatellit reported errors from stale errno and
 could not search again after the end of the file

---
 src/bern_utils.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..c78bbb3 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,6 +1,7 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
 #include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
@@ -47,7 +48,9 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
-  // Go to the top of the relevant field (in file)
+  // Go to the top of the relevant field (in file); a previous search may have
+  // left the stream at its end
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
@@ -55,7 +58,13 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  // fields not recorded in a (short) line are blank
+  auto next_line = [&]() {
+    std::memset(line, 0, MAX_SATELLIT_CHARS);
+    __istream.getline(line, MAX_SATELLIT_CHARS);
+  };
+  errno = 0;
+  next_line();
   while (!satellite_matched && line_count < max_lines) {
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
@@ -70,7 +79,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
         stop = ngpt::datetime<ngpt::seconds>::max();
         for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
+          if (line[i] != ' ' && line[i] != '\0') {
             stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
             break;
           }
@@ -90,7 +99,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
+    next_line();
     ++line_count;
     // check for end of records
     if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
-- 
2.43.0


From 9e4eea9e7a70face1ac83416d5f045032ac4758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 10/22] fix: Sp3c read predicted-orbit flags, short lines,
 epochs and files without EOF record wrongly

---
 src/sp3c.cpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..88a18a3 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -38,6 +39,8 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  // the stream may have reached the end of the file
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
@@ -60,9 +63,11 @@ int Sp3c::read_header() noexcept {
 
   // Go to the top of the file.
   __istream.seekg(0);
+  errno = 0;
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '#')
     return 10; // validate version
@@ -106,10 +111,14 @@ int Sp3c::read_header() noexcept {
   agency__ = std::string(line + 56, 3);
 
   // all done for first line, construct the reference date
-  start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
-      ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+  try {
+    start_epoch__ = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
+        ngpt::hours(hour), ngpt::minutes(minute),
+        ngpt::microseconds(std::lround(sec * 1e6)));
+  } catch (std::exception &) { // not a calendar date
+    return 17;
+  }
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -130,7 +139,7 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
+  interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
@@ -249,6 +258,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
+  errno = 0;
+  std::memset(line, 0, MAX_RECORD_CHARS);
   __istream.getline(line, MAX_RECORD_CHARS);
 
   if (line[0] != '*' || line[1] != ' ')
@@ -273,10 +284,14 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     return 11;
   }
 
-  t = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
-      ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+  try {
+    t = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
+        ngpt::hours(date[3]), ngpt::minutes(date[4]),
+        ngpt::microseconds(std::lround(fsec * 1e6)));
+  } catch (std::exception &) { // not a calendar date
+    return 12;
+  }
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
@@ -295,10 +310,14 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
+      std::memset(line, 0, MAX_RECORD_CHARS); /* columns missing are blank */
+      if (!__istream.getline(line, MAX_RECORD_CHARS))
+        return 13; /* file ends without an EOF record, or line too long */
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end())
+          return 14; /* more SVs than there is room for */
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
@@ -349,7 +368,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   start = line + 4;
   for (int i = 0; i < 4; i++) {
     state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
+    if (errno == ERANGE || end == start || end > start + 14) {
       errno = 0;
       return 5 + i;
     }
@@ -372,7 +391,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From e82ef18788153380f79f93082077ce9eeeb14e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 11/22] fix: LagrangeSp3Interpolator wrote past the end of an
 empty vector

---
 src/sp3c.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sp3c.hpp b/src/sp3c.hpp
index c3402c6..41ae047 100644
--- a/src/sp3c.hpp
+++ b/src/sp3c.hpp
@@ -140,15 +140,15 @@ public:
     svec_.reserve(sp3_->num_sats());
     for (int i = 0; i < sp3_->num_sats(); i++) {
       // svec_.emplace_back(std::vector<Sp3EpochSvRecord>(2*K, {}));
-      svec_[i] = std::vector<Sp3EpochSvRecord>{1, {}};
-      svec_[i].reserve(2 * K);
+      svec_.emplace_back(1);
+      svec_.back().reserve(2 * K);
     }
     tvec_.reserve(2 * K);
   };
 
   int initialize() {
     sp3_->rewind();
-    int j, nsats, k = 0;
+    int j = 0, nsats, k = 0;
     ngpt::datetime<ngpt::microseconds> t;
     auto vec = sp3_->allocate_epoch_vector();
     while (!j && k < K + 1) {
-- 
2.43.0


From e9ee0e691e21c9db022b32809093f100b805bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 12/22] fix: Sp3c cut the last character of the agency

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 88a18a3..31f1bdf 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -108,7 +108,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   try {
-- 
2.43.0


From c55f6acc219f676728622ae1fd2db1a9f2e39a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 13/22] fix: Antex carried state between records and looped or
 threw on damaged files

---
 src/antex.cpp | 83 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..96f1bd2 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -45,6 +45,15 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///          8*(std::size_t)((zen2-zen1)/dzen) < MAX_GRID_CHARS-10
 constexpr std::size_t MAX_GRID_CHARS{512};
 
+/// Read the next line; columns beyond the end of the line are null characters
+/// (and not whatever was read before).
+static std::ifstream &next_line(std::ifstream &fin, char *line,
+                                std::size_t size) {
+  std::memset(line, 0, size);
+  fin.getline(line, size);
+  return fin;
+}
+
 // Forward declerationof non Antex:: functions;
 int collect_pco(std::ifstream &, ngpt::AntennaPcoList &) noexcept;
 int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
@@ -123,7 +132,7 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line, MAX_HEADER_CHARS);
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,7 +155,7 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != 'A') {
     return 12;
   }
@@ -154,10 +163,10 @@ int Antex::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -205,7 +214,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -216,7 +225,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -252,7 +261,7 @@ int Antex::skip_rest_of_antenna() noexcept {
 
   int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
+    next_line(__istream, line, MAX_GRID_CHARS);
     dummy_it++;
   } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
@@ -282,11 +291,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_matched = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -297,12 +308,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_matched = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
   }
   // some error status is set
-  if (stat1 > 0 || stat2) {
+  if (stat1 > 0 || stat2 || !model_matched) {
     return 1;
   }
   ant_out = best_match_ant;
@@ -413,7 +425,7 @@ int check_time_interval(std::ifstream &fin,
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!next_line(fin, line, MAX_GRID_CHARS) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
@@ -422,7 +434,7 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    next_line(fin, line, MAX_GRID_CHARS);
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -440,8 +452,8 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+  } while (fin && std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -449,7 +461,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (!fin || dummy_it >= max_lines) {
     return 20;
   }
 
@@ -489,16 +501,17 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-  Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
+    Satellite cur_sat;
     cur_sat.system() = SATELLITE_SYSTEM::mixed;
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
@@ -692,27 +705,27 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -726,7 +739,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline, MAX_HEADER_CHARS);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -739,9 +752,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          next_line(fin, gline, MAX_GRID_CHARS);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
@@ -758,15 +771,19 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (next_line(fin, hline, MAX_HEADER_CHARS) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 8;
+      }
     } else {
       return 7;
     }
@@ -774,10 +791,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      next_line(fin, gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline, MAX_HEADER_CHARS);
   }
 
   return 0;
-- 
2.43.0


From e84ca5bd60704faef066a8d1997f6d31958947a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 14/22] fix: navigation frames: GLONASS week, wildcard PRN
 search, satellite clock time argument, BeiDou GEO rotation

- glo_toe2date: the message time may fall in the week before or after ToC
- find_next_valid: a PRN of -1 means any satellite, as documented
- stateNclock: the relativistic term uses the eccentric anomaly of the
  requested epoch for every Keplerian system
- beidou: GEO satellites (PRN 1-5, 59 and above) need the extra rotation
- F_CLOCK is not a constant expression (sqrt)
---
 src/navrnx.hpp | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..4e3ddb7 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -147,10 +147,12 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=gps_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::gps>(t_sec, state)))
+    double Ek; // eccentric anomaly, from ToE
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::gps>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::gps>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::gps>(t_sec, dt, &Ek);
     // status=gps_dtsv(t_sec, dt);
     return status;
   }
@@ -161,10 +163,12 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=gal_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::galileo>(t_sec, state)))
+    double Ek; // eccentric anomaly, from ToE
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::galileo>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::galileo>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::galileo>(t_sec, dt, &Ek);
     // status=gal_dtsv(t_sec, dt);
     return status;
   }
@@ -175,10 +179,12 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=bds_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::beidou>(t_sec, state)))
+    double Ek; // eccentric anomaly, from ToE
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::beidou>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::beidou>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::beidou>(t_sec, dt, &Ek);
     // status=bds_dtsv(t_sec, dt);
     return status;
   }
@@ -346,6 +352,24 @@ private:
     state[1] = xk_dot * sinOk + yk_dot * cosOk * cosik;
     state[2] = yk_dot * std::sin(ik);
 
+    // BeiDou GEO satellites: elements refer to an inertial frame tilted by
+    // -5 degrees (BDS-SIS-ICD, Ephemeris User Algorithm)
+    if (S == SATELLITE_SYSTEM::beidou && (prn__ <= 5 || prn__ >= 59)) {
+      const double node(data__[13] + data__[18] * tk - OMEGAE_SYS * data__[11]);
+      const double xg(xk_dot * std::cos(node) -
+                      yk_dot * std::sin(node) * cosik);
+      const double yg(xk_dot * std::sin(node) +
+                      yk_dot * std::cos(node) * cosik);
+      const double zg(yk_dot * std::sin(ik));
+      constexpr double tilt{-5e0 * M_PI / 180e0};
+      const double yt(yg * std::cos(tilt) + zg * std::sin(tilt));
+      const double sinW(std::sin(OMEGAE_SYS * tk));
+      const double cosW(std::cos(OMEGAE_SYS * tk));
+      state[0] = xg * cosW + yt * sinW;
+      state[1] = -xg * sinW + yt * cosW;
+      state[2] = -yg * std::sin(tilt) + zg * std::cos(tilt);
+    }
+
     // all done
     return status;
   }
@@ -388,7 +412,7 @@ private:
   int sv_clock(double t_sec, double &dt_sv, double *Ein = nullptr) const
       noexcept {
     constexpr double MI_SYS = ngpt::satellite_system_traits<S>::mi();
-    constexpr double F_CLOCK = ngpt::satellite_system_traits<S>::f_clock();
+    const double F_CLOCK = ngpt::satellite_system_traits<S>::f_clock();
     constexpr double LIMIT{1e-14}; //  Limit for solving (iteratively)
                                    //+ the Kepler equation for the
                                    //+ eccentricity anomaly
@@ -525,8 +549,13 @@ private:
 #ifdef DEBUG
     assert(std::abs(data__[2] - sw_toe) < 1e-15);
 #endif
-    // days difference (if any)
-    int offset = dw_toc - dw_toe;
+    // days difference (if any); the two can be on either side of the end of
+    // the week
+    int offset = (dw_toc - dw_toe) % 7;
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
@@ -654,7 +683,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From 5b972e028de606a4faca5179ee659338424baebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 15/22] fix: navigation RINEX: records are read from their own
 columns and refused when incomplete

A reused frame kept values of the previous record, the PRN was read past its
two columns, short last lines gave garbage, invalid satellite letters or dates
escaped from noexcept functions and a file without final newline looked broken.
---
 src/navrnx.cpp | 79 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 292624e..bc55c5a 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -1,7 +1,9 @@
 #include "navrnx.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include "nvarstr.hpp"
+#include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -77,19 +79,23 @@ unsigned __spare_fields_v3__(ngpt::SATELLITE_SYSTEM s, int ln) noexcept {
     return (1u << 1) | (1u << 3);
   if (s == SATELLITE_SYSTEM::irnss && ln == 5)
     return 1u << 3;
+  // the fit interval is blank if not known
+  if ((s == SATELLITE_SYSTEM::gps || s == SATELLITE_SYSTEM::qzss) && ln == 6)
+    return 1u << 1;
   return 0;
 }
 
-/// @brief Resolve the 4 doubles (4X,4D19.12) of a broadcast orbit line
+/// @brief Resolve the first n doubles (4X,4D19.12) of a broadcast orbit line
 /// @param[in]  line  The line, with 'D' exponents already replaced by 'E'
 /// @param[in]  spare Mask of spare fields (see __spare_fields_v3__); these are
 ///                   set to 0 when blank (or missing)
-/// @param[out] data  The resolved values; at least 4 elements
+/// @param[out] data  The resolved values; at least n elements
+/// @param[in]  n     Number of doubles to resolve (at most 4)
 /// @return True if all values were resolved
-bool __resolve_orbit_line__(const char *line, unsigned spare,
-                            double *data) noexcept {
+bool __resolve_orbit_line__(const char *line, unsigned spare, double *data,
+                            int n = 4) noexcept {
   const std::size_t len = std::strlen(line);
-  for (int i = 0; i < 4; i++) {
+  for (int i = 0; i < n; i++) {
     const std::size_t pos = 4 + i * 19;
     const bool missing =
         pos >= len || ngpt::string_is_empty(line + pos, 19);
@@ -112,29 +118,36 @@ bool __resolve_orbit_line__(const char *line, unsigned spare,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
-  char *str_end;
+  char prn[3] = {'\0'}, *str_end;
 
 #ifdef DEBUG
   if (!inp.good())
     return 50;
 #endif
 
+  // nothing is kept from what the instance held
+  std::fill(data__, data__ + 31, 0e0);
+  toe__ = ngpt::datetime<ngpt::seconds>();
+
   // Read the first line.
   // ------------------------------------------------------------
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
-  prn__ = std::strtol(line + 1, &str_end, 10);
-  if (!prn__ || errno == ERANGE) {
-    errno = 0;
-    return 2;
+  if (std::strlen(line) < 24)
+    return 1;
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    return 1;
   }
+  std::memcpy(prn, line + 1, 2);
+  prn__ = std::strtol(prn, &str_end, 10);
+  if (prn__ <= 0)
+    return 2;
   // replace 'D' or 'd' with 'e' in remaining floats
   __for2cpp__(line + 23);
   if (!__char2double__<3, 19>(line + 23, data__)) {
@@ -170,9 +183,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // replace 'D' or 'd' with 'e'
   __for2cpp__(line);
   // read remaining last_line_recs doubles into data__
-  if (std::strlen(line) < 4 ||
-      !__char2double__<19>(line + 4, data__ + 3 + ln * 4,
-                           last_line_recs)) {
+  if (!__resolve_orbit_line__(line, __spare_fields_v3__(sys__, ln),
+                              data__ + 3 + ln * 4, last_line_recs)) {
     errno = 0;
     return 8;
   }
@@ -185,19 +197,22 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // set ToE
-#ifdef DEBUG
-  // assert we don't have fractional seconds!
-  if (sys__ == SATELLITE_SYSTEM::glonass)
-    assert(std::abs(data__[2] - (int)data__[2]) < 1e-15);
-  if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
-      sys__ == SATELLITE_SYSTEM::beidou)
-    assert(std::abs(data__[11] - (int)data__[11]) < 1e-15);
-#endif
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::glonass ||
       sys__ == SATELLITE_SYSTEM::galileo || sys__ == SATELLITE_SYSTEM::beidou) {
+    // seconds of week (no fractional seconds!) and number of week
+    const bool glo = sys__ == SATELLITE_SYSTEM::glonass;
+    const double sow = glo ? data__[2] : data__[11];
+    const double week = glo ? 0e0 : data__[21];
+    if (!(sow >= 0e0 && sow <= 604800e0) || sow != std::floor(sow) ||
+        !(week >= 0e0 && week < 1e5))
+      return 9;
     toe__ = this->toe2date<ngpt::seconds>();
   }
 
+  // the end of the file is only reported when there is nothing more to read
+  if (inp.eof())
+    inp.clear();
+
   return 0;
 }
 
@@ -225,7 +240,7 @@ NavigationRnx::NavigationRnx(const char *filename)
 /// "END OF HEADER"
 /// @return  Anything other than 0 denotes an error.
 int NavigationRnx::read_header() noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
   char *str_end;
 
   // The stream should be open by now!
@@ -252,9 +267,11 @@ int NavigationRnx::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+    std::memset(line, 0, MAX_HEADER_CHARS);
     __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
@@ -263,6 +280,7 @@ int NavigationRnx::read_header() noexcept {
   }
 
   // Mark the end of header
+  __istream.clear(); // the last header line may end the file
   __end_of_head = __istream.tellg();
 
   // All done !
@@ -303,7 +321,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF)
     return clear_stream(-1);
 
@@ -317,12 +335,16 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 3;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
       return 2;
     }
   }
+  if (__istream.eof())
+    __istream.clear();
 
   return 0;
 }
@@ -341,7 +363,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF) {
     status = clear_stream(-1);
     return SATELLITE_SYSTEM::mixed;
@@ -358,6 +380,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 47544c9104dd9190c5fcbd543eeab066d410fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 16/22] fix: GPS navigation: URA is given in metres in RINEX, a
 fit interval of 0 means 4 hours

---
 src/gpsnav.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/gpsnav.cpp b/src/gpsnav.cpp
index b204f2e..798c17c 100644
--- a/src/gpsnav.cpp
+++ b/src/gpsnav.cpp
@@ -230,26 +230,14 @@ const noexcept
 /// @brief URA SV accuracy (meters)
 /// Compute User Range Accuracy for given SV.
 float NavDataFrame::gps_ura() const noexcept {
-  float ura_index = data__[23];
-  float ura_meters = std::numeric_limits<float>::max();
-
-  if (ura_index <= 6) {
-    ura_meters = std::pow(2, 1e0 + ura_index / 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else if (ura_index < 15) {
-    ura_meters = std::pow(2e0, ura_index - 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else {
-    std::cerr << "\n[WARNING] URA index is " << ura_index
-              << " use satellite at your own risk!";
-  }
-  return ura_meters;
+  // already in meters (not an index) in RINEX v3.x
+  return static_cast<float>(data__[23]);
 }
 
 /// @brief see Rinex 3.04 par. 6.11
-/// Fit interval in seconds
+/// Fit interval in seconds; if not known (0 in RINEX), the nominal 4 hours
 int NavDataFrame::gps_fit_interval() const noexcept {
+  if (data__[28] == 0e0)
+    return 4 * 3600;
   return 3600L * static_cast<int>(data__[28]);
 }
-- 
2.43.0


From 44d6dc93a3c4c953f2aad2fa9604a98dc9df60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 17/22] fix: GLONASS integration must end at the requested
 epoch

---
 src/glonav.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..7484b31 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -320,7 +320,10 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   std::copy(x, x + 6, yti);
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
-  while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+  while ((h > 0 ? ti < t_lim : ti > t_lim) && ++max_it < 1500) {
+    // do not step over the requested epoch
+    if (std::abs(t_lim - ti) < h_step)
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 4e25dd17709d9f244a5626addc4b30913ed160f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 18/22] fix: observation RINEX: observations are read from
 their own columns, header fields in full

---
 src/obsrnx.cpp | 167 ++++++++++++++++++++++++++++++++-----------------
 src/obsrnx.hpp |   3 +-
 2 files changed, 112 insertions(+), 58 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..723b0c1 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -54,12 +54,18 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///                any of the ints can be blank)
 int RawRnxObs__::resolve(char *str) noexcept {
   char *end;
+  char val[15];
   if (string_is_empty(str, 14)) {
     __val = RNXOBS_MISSING_VAL;
+    __lli = __ssi = 0;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // the observation value spans 14 columns; LLI and SSI follow immediately
+  std::memcpy(val, str, 14);
+  val[14] = '\0';
+  errno = 0;
+  __val = std::strtod(val, &end);
+  if (errno || val == end || !string_is_empty(end)) {
     errno = 0;
     return 1;
   }
@@ -89,18 +95,15 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
-  __buf = new char[__buf_sz];
+  // must be able to hold any epoch header line too
+  __buf_sz = std::max(maxobs * 16 + 4, (std::size_t)MAX_HEADER_CHARS);
+  __buf.reset(new char[__buf_sz]);
 }
 
 /// Destructor; close the stream and delete the allocated buffer
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -173,7 +176,10 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
+  std::memset(line, 0, sizeof line);
   __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__istream)
+    return 10;
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -187,25 +193,35 @@ int ObservationRnx::read_header() noexcept {
 
   // Keep on readling and collecting info until 'END OF HEADER'.
   // ----------------------------------------------------
+  // strings may contain whitespaces; only trailing ones are to be removed
+  typedef ngpt::str_algorithm_details::StrSearchPolicyEnd trim_end;
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+  while (dummy_it < MAX_HEADER_LINES) {
+    // a line may be shorter than the column of the label; do not look at what
+    // is left there from a previous one
+    std::memset(line, 0, sizeof line);
     __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__istream) {
+      std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to read "
+                   "header line";
+      return 21;
+    }
+    if (!std::strncmp(line + 60, "END OF HEADER", eoh_size))
+      break;
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = ngpt::rtrim<trim_end>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = ngpt::rtrim<trim_end>(line, szt, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = ngpt::rtrim<trim_end>(line, szt, 20);
+      __receiver_type = ngpt::rtrim<trim_end>(line + 20, szt, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      ReceiverAntenna ant(ngpt::rtrim<trim_end>(line + 20, szt, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
@@ -229,8 +245,9 @@ int ObservationRnx::read_header() noexcept {
         return szt;
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
+      errno = 0;
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || line == end) || (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
@@ -289,13 +306,23 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &e) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    std::cerr << "\n        Fatal; no such satellite system: \"" << line[0]
+              << "\"";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
     std::cerr << "\n        Fatal Already resolved this satellite system!";
     return 1;
   }
+  errno = 0;
   int obsnum = std::strtol(line + 3, &end, 10);
   if (errno || (line + 3) == end) {
     errno = 0;
@@ -319,9 +346,12 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
+      std::memset(line, 0, sizeof line);
       __istream.getline(line, MAX_HEADER_CHARS);
-      if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
+      // a continuation line has no satellite system
+      if (!__istream || line[0] != ' ' ||
+          std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"SYS / # / OBS TYPES\"";
@@ -379,9 +409,10 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   char *end;
   const char *start = cline + 2;
   int dints[5];
+  errno = 0;
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
-    if (errno || start == end) {
+    if (errno || start == end || *end != ' ') {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve epoch";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -390,10 +421,13 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     }
     start = ++end;
   }
-#ifdef DEBUG
   day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
+  if (!dom.is_valid(year(dints[0]), month(dints[1]))) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
+  }
   mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
                                   day_of_month(dints[2]));
 
@@ -410,10 +444,18 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve the epoch flag
   flag = cline[31] - '0';
+  if (flag < 0 || flag > 9) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
+                 "resolve epoch flag";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 6;
+  }
 
   // resolve num of satellites in epoch
-  num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  char tbuf[4] = {0};
+  std::memcpy(tbuf, cline + 32, 3);
+  num_sats = static_cast<int>(std::strtol(tbuf, &end, 10));
+  if (errno || tbuf == end) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -422,10 +464,10 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
 
   // resolve clock offset if any
-  if (lnlen > 41) {
-    rcvr_coff =
-        string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-    if (errno || start == end) {
+  rcvr_coff = 0e0;
+  if (lnlen > 41 && !string_is_empty(cline + 41)) {
+    rcvr_coff = std::strtod(cline + 41, &end);
+    if (errno || end == cline + 41) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve receiver clock offset";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -761,31 +803,36 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  const char *line = __buf.get();
+  std::size_t len = std::strlen(line);
+  if (len < 3)
+    return 1;
+  std::memcpy(tbuf, line + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
-        if (raw_obs.resolve(tbuf))
-          return 2;
-        if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-          obsval += raw_obs.__val * pr.second;
-        } else {
-          --status;
-          obsval = RNXOBS_MISSING_VAL;
-        }
-      } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+      // blanks at the end of the line may be left out, so the line can end
+      // before the column of the observable, or anywhere within it
+      std::memset(tbuf, ' ', 16);
+      if (len > idx)
+        std::memcpy(tbuf, line + idx, std::min(len - idx, (std::size_t)16));
+      if (raw_obs.resolve(tbuf))
+        return 2;
+      if (raw_obs.__val == RNXOBS_MISSING_VAL) {
+        // an element is missing, hence the whole observable is missing
+        --status;
+        obsval = RNXOBS_MISSING_VAL;
+        break;
       }
+      obsval += raw_obs.__val * pr.second;
     }
     vals[k] = obsval;
     ++k;
@@ -848,9 +895,11 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
+  if (numsats < 0 || satobs.size() < (std::size_t)numsats) {
+    std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Cannot handle "
+              << numsats << " satellites";
+    return 2;
+  }
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
@@ -858,13 +907,17 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    if (!__istream.getline(__buf.get(), __buf_sz)) {
+      std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to read "
+                   "satellite record";
+      return 3;
+    }
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.get() << "\"";
       return 1;
     }
 
@@ -937,22 +990,22 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    if (!__istream.getline(__buf.get(), __buf_sz))
+      return 20;
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    return 0;
   }
-  if (__istream.eof()) {
-    __istream.clear();
-    return -1;
-  }
-  return 0;
+  // no more epochs in the file
+  __istream.clear();
+  return -1;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..33ca637 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -8,6 +8,7 @@
 #include "satsys.hpp"
 #include <fstream>
 #include <map>
+#include <memory>
 #include <vector>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -168,7 +169,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0


From c2d7dbe3adfbb0955af9c2787e815a208bac83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 19/22] fix: observation RINEX: special event records are not
 satellite records

---
 src/obsrnx.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 723b0c1..104309e 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -986,12 +986,21 @@ int ObservationRnx::read_next_epoch(
     std::map<SATELLITE_SYSTEM, std::vector<vecof_idpair>> &mmap,
     std::vector<std::pair<ngpt::Satellite, std::vector<double>>> &satobs,
     int &sats, ngpt::modified_julian_day &mjd, double &secofday) noexcept {
-  int c, j;
+  int j;
   sats = 0;
-  if ((c = __istream.peek()) != EOF) {
+  while (__istream.peek() != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     if (!__istream.getline(__buf.get(), __buf_sz))
       return 20;
+    // special events (flag > 1) hold no observations; the records following
+    // are not satellite records and the date can be blank. Skip them all.
+    if (__buf[0] == '>' && std::strlen(__buf.get()) >= 35 && __buf[31] > '1' &&
+        __buf[31] <= '6') {
+      for (int i = std::atoi(__buf.get() + 32); i > 0; i--)
+        if (!__istream.getline(__buf.get(), __buf_sz))
+          return 20;
+      continue;
+    }
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-- 
2.43.0


From cc0522566d507bfa55dd27388c2ee77a301f4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 20/22] fix: SP3 and SATELLIT readers stop on damaged numbers
 instead of ending the program

---
 src/bern_utils.cpp | 18 +++++++++++-------
 src/sp3c.cpp       |  5 +++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index c78bbb3..51f4d82 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -76,19 +76,23 @@ int ngpt::BernSatellit::get_frequency_channel(
         return 2;
       }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ' && line[i] != '\0') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
+        try {
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          for (int i = 62; i < 82; i++) {
+            if (line[i] != ' ' && line[i] != '\0') {
+              stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
+              break;
+            }
           }
+        } catch (std::exception &) { // not a date
+          return 4;
         }
         if (eph >= start && eph < stop) {
           satellite_matched = true;
           prn = static_cast<int>(std::strtol(line, &end, 10));
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
+          if (errno == ERANGE || end == line + 193) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 31f1bdf..39889f6 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -160,8 +160,9 @@ int Sp3c::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != ' ')
     return 30;
-  num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
+  num_sats__ =
+      std::atoi(std::string(line + 3, 3).c_str()); // columns 4 to 6
+  if (num_sats__ < 1) {
     errno = 0;
     return 31;
   }
-- 
2.43.0


From f22e897f9448621effe57d71450036eb01d9021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 21/22] fix: observation RINEX: a time of first observation
 that is no date ended the program

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 104309e..698d21b 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -265,7 +265,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) {
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
-- 
2.43.0


From 6066892185ec317b6c4bd26c47dae62a28b8303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:50 +0000
Subject: [PATCH 22/22] fix: SP3: refuse an epoch interval of zero, bound the
 satellites of an interpolation window

---
 src/sp3c.cpp | 2 ++
 src/sp3c.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 39889f6..2e1ad77 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -140,6 +140,8 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 24, &str_end);
   interval__ = ngpt::microseconds(std::lround(sec * 1e6));
+  if (interval__.as_underlying_type() <= 0)
+    return 25;
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
diff --git a/src/sp3c.hpp b/src/sp3c.hpp
index 41ae047..3f0d65a 100644
--- a/src/sp3c.hpp
+++ b/src/sp3c.hpp
@@ -171,6 +171,8 @@ public:
                                    return e[0].s_ == s && e[0].prn_ == prn;
                                  });
           if (it == svec_.begin() + running_sv) {
+            if (running_sv >= static_cast<int>(svec_.size()))
+              return 2; /* more satellites than the header states */
             svec_[running_sv][0] = vec[i];
             ++running_sv;
           } else {
-- 
2.43.0

