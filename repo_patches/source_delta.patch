From 73dd2edaa1e641c17f9c4b6059e9321d7f4547c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 01/36] fix: detect every overflow of 64-bit integers

Comparing the wrapped value with the smallest max-length number misses
values that wrap around to something larger than that
(e.g. 30000000000000000000 as uint64_t); take the leading digit into
account.
---
 src/scn/impl.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..260803d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1051,6 +1051,7 @@ SCN_FORCE_INLINE constexpr size_t min_safe_u64(int base)
 template <typename T>
 constexpr bool check_integer_overflow(uint64_t val,
                                       size_t digits_count,
+                                      uint8_t leading_digit,
                                       int base,
                                       bool is_negative)
 {
@@ -1058,8 +1059,15 @@ constexpr bool check_integer_overflow(uint64_t val,
     if (digits_count > max_digits) {
         return true;
     }
-    if (digits_count == max_digits && val < min_safe_u64(base)) {
-        return true;
+    if (digits_count == max_digits) {
+        // The real value lies in
+        // [leading_digit * min_safe, (leading_digit + 1) * min_safe):
+        // if it doesn't fit in 64 bits, val has wrapped around exactly once
+        const uint64_t min_safe = min_safe_u64(base);
+        if (leading_digit > std::numeric_limits<uint64_t>::max() / min_safe ||
+            val < leading_digit * min_safe) {
+            return true;
+        }
     }
     if constexpr (!std::is_same_v<T, uint64_t>) {
         if (val > static_cast<uint64_t>(std::numeric_limits<T>::max()) +
@@ -1097,8 +1105,9 @@ auto parse_decimal_integer_fast(std::string_view input,
         input.data(), input.data() + input.size(), u64val);
 
     auto digits_count = static_cast<size_t>(ptr - input.data());
-    if (SCN_UNLIKELY(
-            check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
+    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count,
+                                               char_to_int(input.front()), 10,
+                                               is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1130,7 +1139,8 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
     }
 
     auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
+    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count,
+                                               char_to_int(input.front()), base,
                                                is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
@@ -1232,7 +1242,8 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     {
         auto digits_count = static_cast<size_t>(p - source.data());
         SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count, 10,
+        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count,
+                                             char_to_int(source.front()), 10,
                                              negative_sign) == false);
     }
 
-- 
2.43.0


From 836c9b05967be37ba49e95fb3b1db1c0dc07d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 02/36] fix: store the scanned number when reading a character
 as an integer

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..ac3e696 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5707,7 +5707,9 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        if (SCN_LIKELY(ret)) {
+            value = static_cast<char>(tmp_value);
+        }
         return ret;
     }
 };
@@ -5745,7 +5747,9 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        if (SCN_LIKELY(ret)) {
+            value = static_cast<wchar_t>(tmp_value);
+        }
         return ret;
     }
 };
-- 
2.43.0


From 4dadaac486da3007cf04cf28b0e95d8b5867cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 03/36] fix: compare only letters case-insensitively in
 fast_streq_nocase

---
 src/scn/impl.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index ac3e696..d0b4a87 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2314,14 +2314,19 @@ auto read_matching_string_classic(Range range, std::string_view str)
     }
 }
 
-// Ripped from fast_float
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
-    unsigned char running_diff{0};
+    // Only ASCII letters differ in case by bit 0x20:
+    // e.g. '0' and '\x10' must not compare equal
+    auto ascii_tolower = [](char ch) noexcept -> char {
+        return (ch < 'A' || ch > 'Z') ? ch
+                                      : static_cast<char>(ch + ('a' - 'A'));
+    };
+    bool equal = true;
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        equal &= ascii_tolower(a[i]) == ascii_tolower(b[i]);
     }
-    return running_diff == 0 || running_diff == 32;
+    return equal;
 }
 
 template <typename Range>
-- 
2.43.0


From 54f941ed9e3f973db6fc9a6c22292b7fa7a42288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 04/36] fix: keep track of all visited arguments when there are
 64 or more

---
 src/scn/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 260803d..c3ee469 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1420,8 +1420,8 @@ private:
 struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
-        if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+        if (SCN_UNLIKELY(args_count > 64)) {
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1439,7 +1439,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (args_count <= 64) {
             return;
         }
 
@@ -1453,7 +1453,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From 9820dd6ccd7b0eaa27d9ee3861d898f243e14e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 05/36] fix: match the ASCII part of [character set] ranges
 ending outside of ASCII

---
 include/scn/scan.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..1556fdc 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7077,16 +7077,12 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
+        // A range can have both ASCII and non-ASCII code points
+        for (auto v = begin_value; v < end_value && v <= 127; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
         }
-        else {
+        if (SCN_UNLIKELY(end_value > 128)) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From 5b5d0dc6bde614864c74984dd0b6c81f30180085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 06/36] fix: don't truncate wide fill characters to a single
 byte

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1556fdc..075d542 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6916,6 +6916,7 @@ public:
             m_data[0] = static_cast<char>(static_cast<unsigned>(s.front()));
             m_data[1] =
                 static_cast<char>(static_cast<unsigned>(s.front()) >> 8);
+            m_size = static_cast<unsigned char>(s.size() * sizeof(CharT));
             if (s.size() == 1) {
                 return;
             }
@@ -6928,6 +6929,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = sizeof(CharT);
         }
     }
 
@@ -6948,7 +6950,8 @@ public:
     template <typename CharT>
     std::basic_string_view<CharT> get_code_units() const
     {
-        return {reinterpret_cast<const CharT*>(m_data), m_size};
+        return {reinterpret_cast<const CharT*>(m_data),
+                m_size / sizeof(CharT)};
     }
 
 private:
-- 
2.43.0


From 2fce2437e9917c5147f03b4bba4c18480cfdcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 07/36] fix: report invalid encoding as an error when reading a
 code point

---
 src/scn/impl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d0b4a87..15df90e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5625,9 +5625,14 @@ public:
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        const auto decoded = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(decoded >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
+        cp = decoded;
         return result.iterator;
     }
 };
-- 
2.43.0


From b13af253f133feec82584212a2f7793d4837e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 08/36] fix: match multi-code-unit literal text in format
 strings

---
 src/scn/impl.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c3ee469..6201e5a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1616,14 +1616,15 @@ struct format_handler : format_handler_base {
                     {scan_error::invalid_literal, "Unexpected end of source"});
             }
 
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
+            const auto [after_space_it, cp, is_space] =
+                impl::is_first_char_space(
                     detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
+            if (cp >= detail::invalid_code_point) {
                 SCN_UNLIKELY_ATTR
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
             }
-            else if (is_space) {
+            if (is_space) {
                 // Skip all whitespace in input
                 get_ctx().advance_to(
                     impl::read_while_classic_space(get_ctx().range()));
@@ -1637,12 +1638,28 @@ struct format_handler : format_handler_base {
                 continue;
             }
 
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            // Match every code unit of this code point
+            const auto cp_end = detail::to_address(after_space_it);
+            while (true) {
+                if (*it != *begin) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected literal character in source"});
+                }
+                get_ctx().advance_to(ranges::next(it));
+                // (begin is left pointing to the last code unit of the code
+                // point because of the for loop ++begin)
+                if (begin + 1 == cp_end) {
+                    break;
+                }
+                ++begin;
+                it = get_ctx().begin();
+                if (impl::is_range_eof(it, get_ctx().end())) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected end of source"});
+                }
             }
-            get_ctx().advance_to(ranges::next(it));
         }
     }
 
-- 
2.43.0


From 86ab3bb3d639f74a78bd39aba700995dbf89d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 09/36] fix: accept every day of the year for
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6201e5a..7e2f713 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2471,7 +2471,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From b4f9ec2857eeec6e7d40ca93d5eab381370f7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 10/36] fix: don't access the result of a failed time zone name
 scan

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7e2f713..c7406e8 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3180,12 +3180,10 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
         m_begin = res->begin();
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
     }
 
     void on_loc_datetime(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 4b83b091fff0a816345025c8d08d122de5ad1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 11/36] fix: map ISO weekday numbers to the right weekdays

---
 src/scn/impl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c7406e8..9363bc8 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2972,17 +2972,18 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
+        // ISO weekday: Monday is 1, Sunday is 7
         auto adjust_wday = [](int d) {
-            if (d == 0) {
-                return 6;
+            if (d == 7) {
+                return 0;
             }
-            return d - 1;
+            return d == 0 ? -1 : d;
         };
 
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
-- 
2.43.0


From ad958f228a395e4f8e1bafe8aa9ad5e44488219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:52 +0000
Subject: [PATCH 12/36] fix: replace decoded values that are out of range for a
 code point when transcoding

---
 src/scn/impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 15df90e..969bc2e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1359,7 +1359,7 @@ void transcode_to_string_impl_to32(std::basic_string_view<SourceCharT> src,
         auto res = get_next_code_point(
             detail::make_string_view_from_iterators<SourceCharT>(it,
                                                                  src.end()));
-        if (SCN_UNLIKELY(res.value == detail::invalid_code_point)) {
+        if (SCN_UNLIKELY(res.value >= detail::invalid_code_point)) {
             dest.push_back(DestCharT{0xfffd});
         }
         else {
-- 
2.43.0


From d2a0d6be2fc3407befa6657c045d96cd5bd16d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:27 +0000
Subject: [PATCH 13/36] fix: recognise multi-byte whitespace in non-contiguous
 sources

---
 src/scn/impl.h | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 969bc2e..21280af 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2181,6 +2181,15 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// The last code point of a segment can continue in the next one
+inline std::string_view remove_trailing_non_ascii(std::string_view seg)
+{
+    while (!seg.empty() && static_cast<unsigned char>(seg.back()) >= 0x80) {
+        seg.remove_suffix(1);
+    }
+    return seg;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2196,7 +2205,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg =
+                remove_trailing_non_ascii(get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2225,7 +2235,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg =
+                remove_trailing_non_ascii(get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2233,9 +2244,19 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
             ranges::advance(it, seg.size());
         }
 
-        return read_while_code_point(range, [](char32_t cp) noexcept {
-            return detail::is_cp_space(cp);
-        });
+        // Invalid encoding is not whitespace, and must not be skipped
+        while (it != range.end()) {
+            const auto val =
+                read_code_point_into(ranges::subrange{it, range.end()});
+            if (!val.is_valid() ||
+                !detail::is_cp_space(detail::decode_code_point_exhaustive(
+                    std::basic_string_view<detail::char_t<Range>>{
+                        val.codepoint}))) {
+                break;
+            }
+            it = val.iterator;
+        }
+        return it;
     }
 }
 
-- 
2.43.0


From b173c1223e78e4f089ada62a26fb21acac8713c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 14/36] fix: don't treat the buffered part of a source as the
 entire source

---
 src/scn/impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 21280af..56a38e5 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -996,11 +996,9 @@ bool is_segment_contiguous(Range r)
                    ranges::end(r).contiguous_segment().end();
         }
         else {
-            if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
-            }
-            return true;
+            // What's currently buffered may still be extended by fill(),
+            // so it's not necessarily the entire range
+            return is_entire_source_contiguous(r);
         }
     }
     else {
-- 
2.43.0


From b538b58698c2ad840630d65da573c46f5002398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 15/36] fix: don't overwrite a scanning error with 'Argument
 list not exhausted'

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 075d542..e9bd4f8 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7793,6 +7793,10 @@ constexpr scan_expected<void> parse_format_string(
     Handler&& handler)
 {
     parse_format_string_impl<IsConstexpr>(format, handler);
+    if (auto err = handler.get_error(); SCN_UNLIKELY(!err)) {
+        // Don't overwrite an earlier error
+        return err;
+    }
     handler.check_args_exhausted();
     return handler.get_error();
 }
-- 
2.43.0


From 088525cfc0e77d5be1325415c73c59f80967ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 16/36] fix: accept the documented {:c} for char and wchar_t

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index e9bd4f8..3bc3c0d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7923,8 +7923,8 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type > presentation_type::int_hex &&
+        specs.type != presentation_type::character) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
-- 
2.43.0


From 982c587f8272eb7e85a2c7411054b7c51570f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 17/36] fix: report the end of the source when reading a code
 point with format specs

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 56a38e5..979044f 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5639,6 +5639,9 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
-- 
2.43.0


From a1fe33d6f3964b7850d8f60285a919259e41fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:03 +0000
Subject: [PATCH 18/36] fix: reject a precision without digits in a format
 string

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 3bc3c0d..4d44486 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7376,6 +7376,10 @@ constexpr const CharT* parse_precision(const CharT* begin,
             return begin;
         }
     }
+    else {
+        SCN_UNLIKELY_ATTR
+        handler.on_error("Missing field precision in format string");
+    }
     return begin;
 }
 
-- 
2.43.0


From 0c900c7a886cfec0c259d54b08ae2b70f87d1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:10 +0000
Subject: [PATCH 19/36] fix: '}' is not a fill character in a format string

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 4d44486..99d2011 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7321,7 +7321,7 @@ constexpr const CharT* parse_align(const CharT* begin,
             handler.on_error("Invalid fill character '{' in format string");
             return begin;
         }
-        if (potential_fill[0] == '[') {
+        if (potential_fill[0] == '[' || potential_fill[0] == '}') {
             return begin_before_fill;
         }
     }
-- 
2.43.0


From 69a3e4d6030712434fa05419f5d809077f8205f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:33 +0000
Subject: [PATCH 20/36] fix: reject mixed automatic and manual argument
 indexing at run time

---
 src/scn/impl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9363bc8..b381cc4 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1663,15 +1663,24 @@ struct format_handler : format_handler_base {
         }
     }
 
-    constexpr std::size_t on_arg_id()
+    std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_parse_ctx_error();
+        return id;
     }
-    constexpr std::size_t on_arg_id(std::size_t id)
+    std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_parse_ctx_error();
         return id;
     }
+    void check_parse_ctx_error()
+    {
+        if (auto err = parse_ctx.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
+        }
+    }
 
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
-- 
2.43.0


From be5c1f40caa0afb39e4aaa60015a4304abda39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 21/36] fix: scan the leading 0 when no hexadecimal digits
 follow 0x, in every kind of source

The direct path (strtod) and the copying path disagreed for "0x" without
digits and for "0x.8".
---
 src/scn/impl.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 979044f..5b79b34 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3959,13 +3959,8 @@ private:
         auto it = range.begin();
 
         std::ptrdiff_t digits_count = 0;
-        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
-        }
-        else {
+        if (auto r =
+                read_hex_digits(ranges::subrange{it, range.end()}, true)) {
             digits_count += ranges::distance(it, *r);
             it = *r;
         }
@@ -4102,7 +4097,11 @@ private:
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
             m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto r_hex = read_hex(ranges::subrange{*r, range.end()});
+                SCN_LIKELY(r_hex)) {
+                return *r_hex;
+            }
+            // No hexadecimal digits after the "0x": only the "0" is a number
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From 09bc2a6cff6994d8508d3b18565219ef6c6fe212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 22/36] fix: keep the scanned short year and century of
 datetime_components

%y always gave 2000, and %C always gave 0.
---
 src/scn/impl.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index b381cc4..a79c3ae 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2439,12 +2439,9 @@ struct datetime_setter<datetime_components> {
                             setter_state& st,
                             int c)
     {
-        if (!t.year) {
-            t.year = c * 100;
-        }
-        else {
-            t.year = *t.year + c * 100;
-        }
+        // The year is put together in handle_short_year_and_century
+        t.year = c * 100;
+        st.century_value = static_cast<unsigned char>(c);
         st.set_century(h);
     }
     template <typename Handler>
@@ -2453,12 +2450,9 @@ struct datetime_setter<datetime_components> {
                                setter_state& st,
                                int y)
     {
-        if (!t.year) {
-            t.year = y;
-        }
-        else {
-            t.year = *t.year + y;
-        }
+        // The year is put together in handle_short_year_and_century
+        t.year = y;
+        st.short_year_value = static_cast<unsigned char>(y);
         st.set_short_year(h);
     }
     template <typename Handler>
-- 
2.43.0


From 9d0d5d7566f6e90b9bce841e4ecceb96ec1d14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 23/36] fix: don't skip the code unit after multi-byte text in
 chrono format strings

It could be the closing brace, or lie outside of the format string.
---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..5960b6a 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -432,8 +432,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-                    continue;
                 }
+                continue;
             }
             ++p;
             continue;
-- 
2.43.0


From 345b81b94239fce79a3ec199b17cbf91ae781357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 24/36] fix: keep fractions of a second below 1 when their
 digits round up

---
 src/scn/impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index a79c3ae..6b2623f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2342,8 +2342,9 @@ struct datetime_setter<datetime_components> {
                            setter_state& st,
                            double s)
     {
-        assert(s >= 0.0 && s < 1.0);
-        t.subsec = s;
+        assert(s >= 0.0 && s <= 1.0);
+        // 0.999... may have been rounded up
+        t.subsec = s < 1.0 ? s : std::nextafter(1.0, 0.0);
         st.set_subsec(h);
     }
     template <typename Handler>
-- 
2.43.0


From da53f71a57860301886b4a3d4176071cfae39ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 25/36] fix: report a chrono format string that doesn't set the
 scanned component

The missing value was dereferenced.
---
 include/scn/chrono.h | 66 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 5960b6a..0bbba15 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1581,7 +1581,11 @@ struct scanner<weekday, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.wday);
+        if (!dt.wday) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Day-of-week not set by the format string"});
+        }
         wd = *dt.wday;
         return *r;
     }
@@ -1597,7 +1601,11 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mday);
+        if (!dt.mday) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Day not set by the format string"});
+        }
         d = day{static_cast<unsigned>(*dt.mday)};
         return *r;
     }
@@ -1613,7 +1621,11 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
+        if (!dt.mon) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Month not set by the format string"});
+        }
         m = *dt.mon;
         return *r;
     }
@@ -1629,7 +1641,11 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
+        if (!dt.year) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Year not set by the format string"});
+        }
         y = year{static_cast<int>(*dt.year)};
         return *r;
     }
@@ -1647,8 +1663,16 @@ struct scanner<month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
-        assert(dt.mday);
+        if (!dt.mon) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Month not set by the format string"});
+        }
+        if (!dt.mday) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Day not set by the format string"});
+        }
         md = month_day{month{static_cast<unsigned>(*dt.mon)},
                        day{static_cast<unsigned>(*dt.mday)}};
         return *r;
@@ -1667,8 +1691,16 @@ struct scanner<year_month, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
+        if (!dt.year) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Year not set by the format string"});
+        }
+        if (!dt.mon) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Month not set by the format string"});
+        }
         ym = year_month{year{static_cast<int>(*dt.year)},
                         month{static_cast<unsigned>(*dt.mon)}};
         return *r;
@@ -1687,9 +1719,21 @@ struct scanner<year_month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
-        assert(dt.mday);
+        if (!dt.year) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Year not set by the format string"});
+        }
+        if (!dt.mon) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Month not set by the format string"});
+        }
+        if (!dt.mday) {
+            return unexpected(
+                scan_error{scan_error::invalid_format_string,
+                           "Day not set by the format string"});
+        }
         ymd = year_month_day{year{static_cast<int>(*dt.year)},
                              month{static_cast<unsigned>(*dt.mon)},
                              day{static_cast<unsigned>(*dt.mday)}};
-- 
2.43.0


From 2e94309e8d529e38a928940907d45e5423a29e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 26/36] fix: only ignore the case of letters when reading am/pm

A control character (0x0e) was taken for '.'.
---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6b2623f..268df72 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3463,7 +3463,8 @@ private:
                 const auto cmp = static_cast<unsigned>(
                     ch ^ options[i].first[chars_consumed]);
                 if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                    (cmp != 0 &&
+                     (cmp != 32 || options[i].first[chars_consumed] < 'A'))) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 24a0fdb648eb6934e4e3811536d4fe9f15220ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 27/36] fix: reject more than 59 minutes in a timezone offset

---
 src/scn/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 268df72..c148e07 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3169,6 +3169,11 @@ public:
             }
         }
 
+        if (SCN_UNLIKELY(minute > 59)) {
+            return set_error({scan_error::invalid_scanned_value,
+                              "Invalid value for timezone offset minutes"});
+        }
+
         setter::set_tz_offset(
             *this, m_tm, m_st,
             std::chrono::minutes{(is_minus ? -1 : 1) * (hour * 60 + minute)});
-- 
2.43.0


From 2f3ed85c9db584c7524f10d9a9dfca62813b2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 28/36] fix: reject chrono format strings with all of weekday,
 day of month and day of year

---
 include/scn/chrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 0bbba15..a179b35 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -826,8 +826,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1u) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
-- 
2.43.0


From a0b1a8d7fe3c660de89434b506f2fa4d0d6eccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:59 +0000
Subject: [PATCH 29/36] fix: accept the weekday and the day of month of %c

Every source was rejected.
---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c148e07..209c666 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3221,6 +3221,8 @@ public:
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
         on_weekday_name();
+        // The only specifier with both the weekday and the day of the month
+        m_st.wday_set = 0;
         on_whitespace();
         on_month_name();
         on_whitespace();
-- 
2.43.0


From f5bbd8cad41699d39aa8376fef24929e3dc9c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:51 +0000
Subject: [PATCH 30/36] fix: scan empty views without data with custom scanners

A default constructed string_view was taken for a buffer.
---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 99d2011..aa07241 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4470,8 +4470,8 @@ public:
 
     bool stores_parent() const
     {
-        assert(m_begin);
-        return m_end == nullptr;
+        // Both are null for an empty view without data
+        return m_begin != nullptr && m_end == nullptr;
     }
 
     basic_scan_buffer<CharT>* parent()
-- 
2.43.0


From f5064462bb28013370396c7afec7f020fd09c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 31/36] fix: don't take NUL for a thousands separator in
 locales without one

---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 5b79b34..d9fcf48 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3467,7 +3467,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != 0 &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From ca869ad89447749b8f8d12357f138eed47757010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 32/36] fix: keep the decimal point when '.' is the thousands
 separator

---
 src/scn/impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d9fcf48..5be8e15 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4117,6 +4117,7 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+        erase_thousands_separators(str);
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4124,7 +4125,10 @@ private:
                 }
             }
         }
+    }
 
+    void erase_thousands_separators(std::basic_string<CharT>& str)
+    {
         if (m_locale_options.thousands_sep == 0) {
             return;
         }
-- 
2.43.0


From 1d91052ff5f6a07640f3c056a55ae16013745dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 33/36] fix: keep the text of a source in nested scans of
 non-contiguous sources

---
 include/scn/scan.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index aa07241..e11a203 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5128,8 +5128,10 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        // The rest of other's putback buffer is followed by its current view
+        m_fill_needs_to_propagate =
+            starting_pos >=
+            static_cast<std::ptrdiff_t>(other.putback_buffer().size());
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5144,18 +5146,19 @@ public:
         }
         SCN_EXPECT(m_starting_pos >= 0);
 
-        if (m_fill_needs_to_propagate) {
-            auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
+        const bool ret = !m_fill_needs_to_propagate || m_other->fill();
+        m_fill_needs_to_propagate = true;
+        if (m_starting_pos <
+            static_cast<std::ptrdiff_t>(m_other->putback_buffer().size())) {
             this->m_putback_buffer =
                 m_other->putback_buffer().substr(m_starting_pos);
-            return ret;
+            this->m_current_view = m_other->current_view();
         }
-
-        m_fill_needs_to_propagate = true;
-        this->m_putback_buffer = std::basic_string<CharT>{this->m_current_view};
-        this->m_current_view = m_other->current_view();
-        return true;
+        else {
+            this->m_current_view =
+                m_other->get_segment_starting_at(m_starting_pos);
+        }
+        return ret;
     }
 
 private:
-- 
2.43.0


From 7dad2a9d995c73a3e57e6ea73bbd74dd51b15327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 34/36] fix: give back unread characters of unbuffered files at
 the end of the file

---
 src/scn/impl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 5be8e15..2cb08cc 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1214,8 +1214,13 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
     }
 
     putback_wrapper wrapper{m_file};
-    SCN_EXPECT(m_current_view.size() == 1);
-    m_file.putback(m_current_view.front());
+    // Empty, if the end of the file has been reached
+    if (!this->m_current_view.empty()) {
+        SCN_EXPECT(m_current_view.size() == 1);
+        if (!m_file.putback(m_current_view.front())) {
+            return false;
+        }
+    }
 
     auto segment = std::string_view{this->putback_buffer()}.substr(position);
     for (auto it = segment.rbegin(); it != segment.rend(); ++it) {
-- 
2.43.0


From 2cd084662b7ec11b7a136c5629ec0f4ecee42fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 35/36] fix: accept a letter as first digit of hexadecimal
 floats without prefix

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 209c666..239ad85 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -854,7 +854,7 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
                 "Invalid floating-point digit");
         }
     }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
-- 
2.43.0


From 85fed9355dd54e7cc8ae04bfd82e937ee4c353a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 36/36] fix: read the zero of a hexadecimal prefix without
 digits from any source

---
 src/scn/impl.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2cb08cc..14814af 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4079,17 +4079,18 @@ private:
         if (allowed_hex && !allowed_nonhex) {
             // only hex allowed:
             // prefix "0x" allowed, not required
-            auto it = range.begin();
-
             if (auto r = read_hex_prefix(range)) {
                 m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto r_hex = read_hex(ranges::subrange{*r, range.end()});
+                    SCN_LIKELY(r_hex)) {
+                    return *r_hex;
+                }
+                // No hexadecimal digits after the "0x":
+                // only the "0" is a number
             }
 
-            return read_hex(ranges::subrange{it, range.end()});
+            m_kind = float_kind::hex_without_prefix;
+            return read_hex(range);
         }
         if (!allowed_hex && allowed_nonhex) {
             // only nonhex allowed:
-- 
2.43.0

