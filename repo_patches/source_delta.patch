From f0da4f7a59f099e5847778641a1f8432117c22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 01/28] fix: flush the last partial group of data stream 0 at
 end of input

---
 src/channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..7309c35 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -145,7 +145,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
 
 // Process any remaining data
 void Channel::flush() {
-  for (std::size_t i = 1; i < block_stream_.size(); ++i) {
+  for (std::size_t i = 0; i < block_stream_.size(); ++i) {
     const Group remaining_group = block_stream_[i].flushCurrentGroup();
     if (!remaining_group.isEmpty())
       processGroup(remaining_group, i);
-- 
2.43.0


From 38423db768b86fa20559703d3148a6a3af011c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 02/28] fix: de-interleave the last chunk and pass on its
 receive time in multi-channel input

---
 src/io/input.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..98e5f6d 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,13 +133,11 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From e36956ad1bf4926321ec766c614e2a563d195c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 03/28] fix: keep receive timestamps monotonic when the system
 clock is set back

---
 src/channel.cc  | 13 ++++---------
 src/io/input.cc |  3 ---
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 7309c35..16df8b0 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -16,6 +16,7 @@
  */
 #include "src/channel.hh"
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -100,15 +101,9 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 // \param which_stream Which data stream was it received on, 0..3
 void Channel::processGroup(Group group, std::size_t which_stream) {
   if (options_.timestamp && !group.hasTime()) {
-    auto now = std::chrono::system_clock::now();
-    group.setTime(now);
-
-    // When the source is faster than real-time, backwards timestamp calculation
-    // produces meaningless results. We want to make sure that the time stays monotonic.
-    if (now < last_group_rx_time_) {
-      group.setTime(last_group_rx_time_);
-    }
-    last_group_rx_time_ = now;
+    // The system clock may be set back. We want to make sure that the time stays monotonic.
+    last_group_rx_time_ = std::max(last_group_rx_time_, std::chrono::system_clock::now());
+    group.setTime(last_group_rx_time_);
   }
 
   if (options_.bler) {
diff --git a/src/io/input.cc b/src/io/input.cc
index 98e5f6d..b61c8d3 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -241,9 +241,6 @@ Group readHexGroup(const Options& options) {
     }
   }
 
-  if (options.timestamp)
-    group.setTime(std::chrono::system_clock::now());
-
   return group;
 }
 
-- 
2.43.0


From a7a63afb1bebc94ec30421691165aaa4e3eec795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 04/28] fix: decode clock time without the host's time zone and
 DST rules

---
 src/groups.cc | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..d3bf5f5 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -737,45 +737,28 @@ void Station::decodeType4A(const Group& group) {
   if (!(group.has(BLOCK3) && group.has(BLOCK4)))
     return;
 
-  const double modified_julian_date{
-      static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1))};
+  const auto modified_julian_date = getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1);
 
   // Would result in negative years/months
-  if (modified_julian_date < 15079.0) {
+  if (modified_julian_date < 15079) {
     json_["debug"].push_back("invalid date/time");
     return;
   }
 
-  int year_utc = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
-  int month_utc =
-      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year_utc * 365.25)) / 30.6001);
-  const int day_utc =
-      static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year_utc * 365.25) -
-                       std::trunc(month_utc * 30.6001));
-  if (month_utc == 14 || month_utc == 15) {
-    year_utc += 1;
-    month_utc -= 12;
-  }
-  year_utc += 1900;
-  month_utc -= 1;
-
   const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
   const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
 
   const double local_offset =
       (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
 
-  std::tm utc_plus_offset_tm{};
-  utc_plus_offset_tm.tm_year  = year_utc - 1900;
-  utc_plus_offset_tm.tm_mon   = month_utc - 1;
-  utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
-  utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
-  utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
-  utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
-
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  // The calculation is done in "UTC" so that the host's time zone rules are not involved
+  constexpr std::int64_t kModifiedJulianDateOfUnixEpoch{40587};
+  const std::int64_t days =
+      static_cast<std::int64_t>(modified_julian_date) - kModifiedJulianDateOfUnixEpoch;
+  const auto local_t = static_cast<std::time_t>(
+      days * 86400 + static_cast<std::int64_t>(hour_utc) * 3600 +
+      static_cast<std::int64_t>(minute_utc) * 60 + static_cast<std::int64_t>(local_offset * 3600.0));
+  const std::tm* const local_tm = std::gmtime(&local_t);
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
-- 
2.43.0


From 8b49b6cf528d9ea85d0781da88ad77f8e994b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 05/28] fix: count multi-byte characters correctly in RadioText
 Plus tag positions

---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..8d856ed 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // Include all continuation bytes that follow the first byte
+  std::size_t nbyte{byte_start + 1};
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 2c3c52c60de93ff71c69aabb1cdf100c3a3aa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 06/28] fix: use all received parts of three- and four-group
 TMC messages

---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..181ce57 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From 9d06921352937afdfd3ea0cc5697fe2ba6468f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 07/28] fix: don't print or store data of blocks 3 and 4 that
 were not received (5A, 5B, eRT, DAB)

---
 src/groups.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index d3bf5f5..2c1fcf6 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -791,6 +791,9 @@ void Station::decodeType5(const Group& group) {
   json_["transparent_data"]["address"] = address;
 
   if (group.getType().version == GroupType::Version::A) {
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
         getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0)};
@@ -818,6 +821,9 @@ void Station::decodeType5(const Group& group) {
 
     json_["transparent_data"]["as_text"] = decoded_text.str();
   } else {
+    if (!group.has(BLOCK4))
+      return;
+
     const std::array<std::uint8_t, 2> data{getUint8(group.get(BLOCK4), 8),
                                            getUint8(group.get(BLOCK4), 0)};
 
@@ -1233,7 +1239,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
@@ -1259,6 +1267,9 @@ void Station::parseDAB(const Group& group) {
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
 
+    if (!group.has(BLOCK3))
+      return;
+
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
     json_["dab"]["kilohertz"] = freq;
@@ -1287,7 +1298,8 @@ void Station::parseDAB(const Group& group) {
       json_["dab"]["channel"] = dab_channels.at(freq);
     }
 
-    json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
+    if (group.has(BLOCK4))
+      json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
   }
 }
 
-- 
2.43.0


From a885480a888cf02c3d9a6e7975f4ab330204374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 08/28] fix: reject exactly those TEF6686 blocks whose own
 error flag is set

---
 src/io/input.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index b61c8d3..f9f03ba 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -280,13 +280,16 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
-
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0x3U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0x3U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0x3U) == 0;
+
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From f6e423812b73d8dc04e50c592cc47ebbb157ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 09/28] fix: don't accept a block with missing digits in hex
 input

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index f9f03ba..900105c 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -213,7 +213,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          group_complete    = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From 8b412210d1e82bf82de4cf3f56962974a474d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 10/28] fix: don't mix an old and a new text when the first
 segment of the new text was lost

---
 src/text/rdsstring.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..bc579a7 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -78,6 +78,10 @@ void RDSString::set(std::size_t pos, std::uint8_t byte) {
   if (pos >= data_.size())
     return;
 
+  // The text has changed, but we missed its beginning: don't mix it with the previous text
+  if (pos != 0 && pos < sequential_length_ && data_.at(pos) != byte)
+    sequential_length_ = 0;
+
   data_.at(pos) = byte;
 
   if (pos == 0 || (pos == prev_pos_ + 1 && sequential_length_ == pos))
-- 
2.43.0


From 40176686e7c88b72040bc3446ddaf737c1bfbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 11/28] fix: don't access the first element of an empty string
 when converting encodings

---
 ext/iconvpp/iconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/iconvpp/iconv.hpp b/ext/iconvpp/iconv.hpp
index c235d03..63d464a 100644
--- a/ext/iconvpp/iconv.hpp
+++ b/ext/iconvpp/iconv.hpp
@@ -68,7 +68,7 @@ class converter {
     // copy the string to a buffer as iconv function requires a non-const char
     // pointer.
     std::vector<char> in_buf(input.begin(), input.end());
-    char* src_ptr = &in_buf[0];
+    char* src_ptr = in_buf.data();
     size_t src_size = input.size();
 
     std::vector<char> buf(buf_size_);
-- 
2.43.0


From fa3aa6fc9a6a3d67e01e0f67e4c437d2497dba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 12/28] fix: don't terminate on an unknown encoding name in a
 location table

---
 src/tmc/locationdb.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..460a21f 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -40,6 +40,15 @@ std::string to_utf8(const std::string& input, const iconvpp::converter& converte
   return converted;
 }
 
+bool isEncodingSupported(const std::string& encoding) {
+  try {
+    const iconvpp::converter converter("UTF-8", encoding);
+    return true;
+  } catch (const std::exception&) {
+    return false;
+  }
+}
+
 }  // namespace
 
 std::uint16_t readLTN(const std::string& directory) {
@@ -75,6 +84,9 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
     encoding = "ISO-8859-15";
 
+  if (!isEncodingSupported(encoding))
+    encoding = "UTF-8";
+
   const iconvpp::converter converter("UTF-8", encoding);
 
   CSVTable table = readCSVWithTitles(directory + "/NAMES.DAT", ';');
-- 
2.43.0


From 7d358dc63b1e6aac8668c1d941ff2ff3ec75eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 13/28] fix: let damaged location table rows affect only
 themselves

---
 src/tmc/locationdb.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 460a21f..5509350 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -131,7 +131,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   table = readCSVWithTitles(directory + "/POINTS.DAT", ';');
   for (const CSVRow& row : table.rows) {
     try {
-      locdb.ltn = get_uint16(table, row, "TABCD");
+      const auto ltn = get_uint16(table, row, "TABCD");
       Point point;
       point.lcd = get_uint16(table, row, "LCD");
       int n1id  = 0;
@@ -155,11 +155,10 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
         point.road_name = locdb.names[rnid];
 
       if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
-        point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
+        point.roa_lcd = locdb.segments.at(point.seg_lcd).roa_lcd;
       }
 
+      locdb.ltn               = ltn;
       locdb.points[point.lcd] = point;
     } catch (const std::exception&) {
       continue;
-- 
2.43.0


From 1cf0d8325ef9cf870da6d0a89c89e3dd24fc337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 14/28] fix: don't combine parts of different TMC messages

---
 src/tmc/tmc.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 181ce57..cef7a9e 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -466,6 +466,10 @@ void TMCService::receiveSystemGroup(std::uint16_t message, nlohmann::ordered_jso
     is_initialized_ = true;
     const auto ltn  = getBits<6>(message, 6);
 
+    // Don't mix encrypted and plain locations in one message
+    if (is_encrypted_ != (ltn == 0))
+      message_ = Message(ltn == 0);
+
     is_encrypted_                                     = (ltn == 0);
     (*jsonroot)["tmc"]["system_info"]["is_encrypted"] = is_encrypted_;
 
@@ -668,6 +672,11 @@ void Message::pushMulti(std::uint16_t x, std::uint16_t y, std::uint16_t z) {
 
   if (is_first_group) {
     current_group = 0;
+
+    // A different message with the same continuity index
+    if (parts_[0].is_received && parts_[0].data != std::array<std::uint16_t, 2>{y, z}) {
+      for (MessagePart& part : parts_) part.is_received = false;
+    }
   } else if (getBool(y, 14)) {  // SG
     const auto group_sequence_indicator = getBits<2>(y, 12);
     current_group                       = 1;
-- 
2.43.0


From 3e3ee07f2c4d03ac38d0d46557618ec629c8fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 15/28] fix: don't echo the end of input as an extra character
 or line in feed-through mode

---
 src/io/input.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 900105c..fe8fd76 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -164,7 +164,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
@@ -191,7 +191,7 @@ Group readHexGroup(const Options& options) {
   while (!(group_complete || std::cin.eof())) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
+    if (options.feed_thru && !(line.empty() && std::cin.eof()))
       std::cout << line << '\n';
 
     if (line.length() < 16)
@@ -253,7 +253,7 @@ Group readTEFGroup(const Options& options) {
   while (!std::cin.eof()) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
+    if (options.feed_thru && !(line.empty() && std::cin.eof()))
       std::cout << line << '\n';
 
     if (line.substr(0, 1) == "P") {
-- 
2.43.0


From 706a15bfca19a844f017b0c22d8cc6a86572e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 16/28] fix: receive Enhanced RadioText longer than 64 bytes

---
 src/groups.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 2c1fcf6..d194db9 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -714,6 +714,8 @@ void Station::decodeType3A(const Group& group) {
 
     // Enhanced RadioText (eRT)
     case 0x6552:
+      // 32 segments of 4 bytes
+      ert_.text.resize(128);
       ert_.text.setEncoding(getBool(oda_message, 0) ? RDSString::Encoding::UTF8
                                                     : RDSString::Encoding::UCS2);
       ert_.text.setDirection(getBool(oda_message, 1) ? RDSString::Direction::RTL
-- 
2.43.0


From 15b072413cca731442abad03543f34797937a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 17/28] fix: decode two-byte (UCS-2) Enhanced RadioText in
 transmission byte order

---
 src/text/rdsstring.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index bc579a7..895f5b0 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -60,7 +60,7 @@ std::string getRDSCharString(std::uint8_t code) {
 
 // \throws Conversion errors from iconvpp
 std::string decodeUCS2(const std::string& src) {
-  static iconvpp::converter converter("UTF-8", "UCS-2");
+  static iconvpp::converter converter("UTF-8", "UCS-2BE");
 
   std::string dst;
   converter.convert(src, dst);
@@ -113,6 +113,15 @@ std::size_t RDSString::getReceivedLength() const {
 
 // Length, in bytes, up to the first string terminator, or the full allocated length
 std::size_t RDSString::getExpectedLength() const {
+  if (encoding_ == Encoding::UCS2) {
+    // Two bytes per character
+    for (std::size_t i = 0; i + 1 < data_.size(); i += 2) {
+      if (data_[i] == 0x00 && data_[i + 1] == kStringTerminator)
+        return i + 2;
+    }
+    return data_.size();
+  }
+
   const auto terminated_length =
       std::distance(data_.cbegin(),
                     std::find_if(data_.cbegin(), data_.cend(),
@@ -162,6 +171,18 @@ std::string RDSString::str() const {
 std::vector<std::uint8_t> RDSString::getData() const {
   const std::size_t len{getExpectedLength()};
   std::vector<std::uint8_t> result(len);
+
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < len; i += 2) {
+      const bool is_blank =
+          sequential_length_ <= i + 1 ||
+          (data_[i] == 0x00 && (data_[i + 1] == kStringTerminator || data_[i + 1] == 0x00));
+      result[i]     = is_blank ? 0x00 : data_[i];
+      result[i + 1] = is_blank ? kBlankSpace : data_[i + 1];
+    }
+    return result;
+  }
+
   for (std::size_t i = 0; i < len; i++) {
     result[i] = sequential_length_ > i && data_[i] != kStringTerminator && data_[i] != 0x00
                     ? data_[i]
-- 
2.43.0


From b9a9ad98bc12cad89071dfb7132981b2d129b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:53 +0000
Subject: [PATCH 18/28] fix: don't decode the end of ASCII bit input as an
 additional bit

---
 src/redsea.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..67f98ea 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -170,7 +170,9 @@ int processASCIIBitsInput(const Options& options) {
   AsciiBitReader ascii_reader(options);
 
   while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+    const bool bit = ascii_reader.readBit();
+    if (!ascii_reader.eof())
+      channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From 06e5af7d4d9e6ff1d4e137551d5320517f2e020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 19/28] fix: accept TEF6686 blocks only if all of their hex
 digits are valid

---
 src/io/input.cc | 54 ++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index fe8fd76..177fe0b 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -19,7 +19,8 @@
 // For fileno
 #include <stdio.h>
 
-#include <array>
+#include <algorithm>
+#include <cctype>
 #include <chrono>
 #include <cmath>
 #include <cstdint>
@@ -34,6 +35,7 @@
 #include "src/constants.hh"
 #include "src/groups.hh"
 #include "src/options.hh"
+#include "src/util.hh"
 
 namespace redsea {
 
@@ -245,6 +247,20 @@ Group readHexGroup(const Options& options) {
   return group;
 }
 
+// Read N hex digits from the line
+// @return false if any of them is missing or not a hex digit
+template <std::size_t N>
+static bool parseHexDigits(const std::string& line, std::size_t pos, std::uint16_t& result) {
+  static_assert(N <= 4U, "");
+  if (line.length() < pos + N ||
+      !std::all_of(line.begin() + pos, line.begin() + pos + N,
+                   [](unsigned char c) { return std::isxdigit(c); }))
+    return false;
+
+  result = static_cast<std::uint16_t>(std::stoul(line.substr(pos, N), nullptr, 16));
+  return true;
+}
+
 // Read one group in the TEF6686 output format
 Group readTEFGroup(const Options& options) {
   Group group;
@@ -260,13 +276,9 @@ Group readTEFGroup(const Options& options) {
       // Lines starting with 'P' contain the PI code
       // e.g. PA540
       Block block1;
-      try {
-        line               = line.substr(1);
-        block1.data        = static_cast<std::uint16_t>(std::stol(line, nullptr, 16));
-        block1.is_received = true;
-      } catch (const std::exception&) {
+      if (!parseHexDigits<4>(line, 1, block1.data))
         continue;
-      }
+      block1.is_received = true;
       group.setBlock(BLOCK1, block1);
     } else if (line.substr(0, 1) == "R" && line.length() >= 15) {
       // 'R' lines contain the rest of the blocks + errors
@@ -274,25 +286,17 @@ Group readTEFGroup(const Options& options) {
       // The 'errors' mark whether a block had errors: 00110000 for Block1, 00001100 for Block 2,
       // ...
       // https://github.com/PE5PVB/TEF6686_ESP32/blob/dfa56f9dbe5dbf8bf32b4f1631abe64d552a25dd/src/rds.cpp#L406
-      try {
-        std::array<Block, 3> blocks{};
-        blocks[0].data = std::stol(line.substr(1, 4), nullptr, 16);
-        blocks[1].data = std::stol(line.substr(5, 4), nullptr, 16);
-        blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
-
-        const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0x3U) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0x3U) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0x3U) == 0;
-
-        if (blocks[0].is_received)
-          group.setBlock(BLOCK2, blocks[0]);
-        if (blocks[1].is_received)
-          group.setBlock(BLOCK3, blocks[1]);
-        if (blocks[2].is_received)
-          group.setBlock(BLOCK4, blocks[2]);
-      } catch (const std::exception&) {
+      std::uint16_t rds_err{};
+      if (!parseHexDigits<2>(line, 13, rds_err))
         break;
+
+      for (const eBlockNumber block_num : {BLOCK2, BLOCK3, BLOCK4}) {
+        Block block;
+        block.is_received = parseHexDigits<4>(line, 1 + 4 * (block_num - BLOCK2), block.data) &&
+                            getBits<2>(rds_err, 2 * (BLOCK4 - block_num)) == 0;
+
+        if (block.is_received)
+          group.setBlock(block_num, block);
       }
       break;
     }
-- 
2.43.0


From 5e3d2d333c911ce813b966965683cc6b88bc22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 20/28] fix: convert road numbers of location tables to UTF-8
 like names

---
 src/tmc/locationdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 5509350..a48aade 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -104,7 +104,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
     try {
       Road road;
       road.lcd         = get_uint16(table, row, "LCD");
-      road.road_number = get_string(table, row, "ROADNUMBER");
+      road.road_number = to_utf8(get_string(table, row, "ROADNUMBER"), converter);
       int rnid         = 0;
       if (row_contains(table, row, "RNID"))
         rnid = get_int(table, row, "RNID");
-- 
2.43.0


From 34061aabb81c07353b65b434a5d475039278de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:00 +0000
Subject: [PATCH 21/28] fix: ignore service keys whose XOR value would start
 outside the location code

---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index cef7a9e..4493571 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -370,6 +370,10 @@ std::map<std::uint16_t, ServiceKey> loadServiceKeyTable() {
       continue;
     }
 
+    // The XOR value can't start outside the 16-bit location code
+    if (key.xorstart > 15)
+      continue;
+
     result.insert({encid, key});
   }
 
-- 
2.43.0


From f0003122e72d8bbcb73d97200ee82176788ce157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:20 +0000
Subject: [PATCH 22/28] fix: restart the AGC when it has stopped adapting after
 a step in level

---
 src/dsp/liquid_wrappers.cc | 15 +++++++++++++++
 src/dsp/liquid_wrappers.hh |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..b650af8 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -40,6 +40,9 @@ void AGC::init(float bw, float initial_gain) {
   object_ = agc_crcf_create();
   agc_crcf_set_bandwidth(object_, bw);
   agc_crcf_set_gain(object_, initial_gain);
+  bandwidth_    = bw;
+  initial_gain_ = initial_gain;
+  output_power_ = 1.f;
 }
 
 AGC::~AGC() {
@@ -50,6 +53,18 @@ AGC::~AGC() {
 std::complex<float> AGC::execute(std::complex<float> s) {
   std::complex<float> result;
   agc_crcf_execute(object_, s, &result);
+
+  // After digital silence or another big step in signal level the gain may undershoot so far that
+  // liquid's AGC stops adapting: it ignores an average output power below 1e-6. It has to be
+  // restarted, or we'd never get a usable signal level again.
+  constexpr float kMinimumOutputPower = 1e-6f;
+  output_power_ += bandwidth_ * (std::norm(result) - output_power_);
+  if (output_power_ < kMinimumOutputPower) {
+    agc_crcf_reset(object_);
+    agc_crcf_set_gain(object_, initial_gain_);
+    output_power_ = 1.f;
+  }
+
   return result;
 }
 
diff --git a/src/dsp/liquid_wrappers.hh b/src/dsp/liquid_wrappers.hh
index 7013230..5ec114b 100644
--- a/src/dsp/liquid_wrappers.hh
+++ b/src/dsp/liquid_wrappers.hh
@@ -66,6 +66,9 @@ class AGC {
 
  private:
   agc_crcf object_{nullptr};
+  float bandwidth_{};
+  float initial_gain_{};
+  float output_power_{1.f};
 };
 
 class FIRFilter {
-- 
2.43.0


From 88d83f37971109eac386ec5205bb4285e33c5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:18 +0000
Subject: [PATCH 23/28] fix: accept sample rates up to the stated maximum
 instead of aborting

---
 src/dsp/liquid_wrappers.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index b650af8..2e759a3 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -32,6 +32,8 @@ extern "C" {
 }
 #pragma clang diagnostic pop
 
+#include "src/constants.hh"
+
 namespace liquid {
 
 void AGC::init(float bw, float initial_gain) {
@@ -234,8 +236,8 @@ Resampler::Resampler(std::uint32_t length)
 }
 
 void Resampler::setRatio(float ratio) {
-  // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  // Limited by liquid, and we only reserved kOutputArraySize in the output buffer.
+  if (ratio < redsea::kLiquidMinimumResamplerRatio || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From fb33ad77fcbabf26d29d1c51233fe10f831d45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 24/28] fix: don't leave out a RadioText Plus tag that reaches
 the last character of a full-length text

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 895f5b0..d43246a 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -219,7 +219,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From 9535a04d69f607564877c292adc938b136d0e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 25/28] fix: reject channel counts that only fit the range
 after truncation to 32 bits

---
 src/options.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..9870406 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
-        constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        constexpr unsigned long kMaxNumChannels{32};
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From 9dafcf19829d9585d1a915044aa1e2fc1480f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 26/28] fix: don't accept NaN as a sample rate

---
 src/options.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index 9870406..8dbfbe1 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -136,8 +136,9 @@ Options getOptions(int argc, char** argv) {
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        // Written so that NaN is out of range, too
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From 61bc314f93e250d8e7e372cc37f259743855cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:26 +0000
Subject: [PATCH 27/28] hook: let a simulation choose where the bit and sample
 counters start

---
 src/block_sync.hh     | 7 ++++++-
 src/dsp/subcarrier.hh | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/block_sync.hh b/src/block_sync.hh
index 0448f88..4030add 100644
--- a/src/block_sync.hh
+++ b/src/block_sync.hh
@@ -25,6 +25,11 @@
 #include "src/options.hh"
 #include "src/util.hh"
 
+// Simulation hook: where the bit counter starts
+#ifndef REDSEA_SIM_FIRST_BIT
+#define REDSEA_SIM_FIRST_BIT 0
+#endif
+
 namespace redsea {
 
 struct SyncPulse {
@@ -64,7 +69,7 @@ class BlockStream {
   void findBlockInInputRegister();
   void handleNewlyReceivedGroup();
 
-  std::uint32_t bitcount_{0};
+  std::uint32_t bitcount_{REDSEA_SIM_FIRST_BIT};
   std::uint32_t num_bits_until_next_block_{1};
   std::uint32_t input_register_{0};
   Offset expected_offset_{Offset::A};
diff --git a/src/dsp/subcarrier.hh b/src/dsp/subcarrier.hh
index f056d03..682170d 100644
--- a/src/dsp/subcarrier.hh
+++ b/src/dsp/subcarrier.hh
@@ -26,6 +26,11 @@
 #include "src/io/bitbuffer.hh"
 #include "src/io/input.hh"
 
+// Simulation hook: where the sample counter starts
+#ifndef REDSEA_SIM_FIRST_SAMPLE
+#define REDSEA_SIM_FIRST_SAMPLE 0
+#endif
+
 namespace redsea {
 
 class BiphaseDecoder {
@@ -77,7 +82,7 @@ class SubcarrierSet {
       static_cast<int>(kTargetSampleRate_Hz / kBitsPerSecond / 2 / kSamplesPerSymbol);
 
   // Samples since last reset
-  std::uint32_t sample_num_{0};
+  std::uint32_t sample_num_{REDSEA_SIM_FIRST_SAMPLE};
   const float resample_ratio_;
 
   liquid::Resampler resampler_;
-- 
2.43.0


From eba98675b1c6e8b11f1825135516ee0f677315ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:20 +0000
Subject: [PATCH 28/28] fix: don't give up on timestamps longer than 63
 characters

---
 src/util.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d33e335..9917b26 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,10 +57,15 @@ std::string getTimePointString(const std::chrono::time_point<std::chrono::system
     format_with_fractional.replace(found, 2, std::to_string(tenths) + std::to_string(hundredths));
   }
 
-  std::array<char, 64> buffer{};
-  if (std::strftime(buffer.data(), buffer.size(), format_with_fractional.c_str(),
-                    std::localtime(&t)) == 0) {
-    return "(format error)";
+  constexpr std::size_t kMaxBufferSize{16384};
+  std::vector<char> buffer(64);
+  while (std::strftime(buffer.data(), buffer.size(), format_with_fractional.c_str(),
+                       std::localtime(&t)) == 0) {
+    if (buffer.size() >= kMaxBufferSize)
+      return "(format error)";
+
+    // The result may have been too long
+    buffer.resize(buffer.size() * 2);
   }
 
   return {buffer.data()};
-- 
2.43.0

