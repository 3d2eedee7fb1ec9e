From 11a1ae17ff8dc9b95f04c78cf6d76bb89568fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 01/61] fix: UTF-8 to UTF-8 transcode_size must not fail when
 the size equals the limit

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..cebb5e1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From fb8345b42b3b933bbf0d338ba0af5a2136acb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 02/61] fix: UTF-8 to UTF-32 unsafe_transcode_size must not
 stop inside a character

---
 include/strf/detail/utf.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index cebb5e1..27269ef 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,12 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
+            const unsigned ch = detail::cast_u8(*src_it);
+            const bool is_first_unit = detail::not_utf8_continuation(ch);
+            if (is_first_unit && size >= limit){
                 return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
             }
-            const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            size += is_first_unit;
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From 0303c7ce136106e01e18715a846751ac917751c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/61] fix: UTF-32 transcode_size must treat negative wchar_t
 values as invalid

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 27269ef..4cddd10 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3011,13 +3011,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_u32(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3026,7 +3026,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_u32(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3035,7 +3035,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From 5515ebba6b93cf0a8ad7ac6e8b3d95132fc3bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 04/61] fix: fixed-capacity destinations must keep their end
 position when written to again after overflow

---
 include/strf/destination.hpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..5a8e84c 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,19 +372,21 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
-        auto sub_count = this->buffer_space();
-        auto *ptr = this->buffer_ptr();
+        if (this->good()) {
+            auto sub_count = this->buffer_space();
+            auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
-        memcpy(ptr, data, sub_count * sizeof(CharT));
+            memcpy(ptr, data, sub_count * sizeof(CharT));
 #else
-        for(; sub_count != 0; ++ptr, ++data, --sub_count) {
-            *ptr = *data;
-        }
+            for(; sub_count != 0; ++ptr, ++data, --sub_count) {
+                *ptr = *data;
+            }
 #endif
-        it_ = this->buffer_end();
+            it_ = this->buffer_end();
+            this->set_good(false);
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
-        this->set_good(false);
     }
 
     CharT* it_ = nullptr;
@@ -507,19 +509,21 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
-        auto sub_count = this->buffer_space();
-        auto *ptr = this->buffer_ptr();
+        if (this->good()) {
+            auto sub_count = this->buffer_space();
+            auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-        memcpy(ptr, data, sub_count * sizeof(CharT));
+            memcpy(ptr, data, sub_count * sizeof(CharT));
 #else
-        for(; sub_count != 0; ++ptr, ++data, --sub_count) {
-            *ptr = *data;
-        }
+            for(; sub_count != 0; ++ptr, ++data, --sub_count) {
+                *ptr = *data;
+            }
 #endif
-        it_ = this->buffer_end();
+            it_ = this->buffer_end();
+            this->set_good(false);
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
-        this->set_good(false);
     }
 
     CharT* it_ = nullptr;
-- 
2.43.0


From cc829b275281b7b4f1de34fa7556dc61337c559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 05/61] fix: streambuf_writer must not write past a failed
 write

---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From 731f0b8118a9e95f8e46da3d922e569cb0380047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 06/61] fix: UTF-8 decode_unit must return U+FFFD for non-ASCII
 units when char is signed

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 4cddd10..e5f75fb 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,7 +962,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
+        STRF_IF_LIKELY (detail::cast_u8(ch) < 0x80)
             return static_cast<char32_t>(ch);
         return 0xFFFD;
     }
-- 
2.43.0


From 3095d1c8244f7d534d9235ae1a5364262c4c2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 07/61] fix: UTF-32 to single-byte transcoders must tell
 surrogates and invalid values from unsupported codepoints

---
 include/strf/detail/single_byte_charsets.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..3a89854 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,7 +143,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( (*it < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( (*it < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2667,7 +2667,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
                 ( *src >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
-                 && *src <= 0xFFFF));
+                 && *src <= 0xDFFF));
 
             if (!is_invalid) {
                 if (err_notifier) {
-- 
2.43.0


From 549196ea2a21649bfe48ecf69e4cef747a25ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 08/61] fix: UTF-32 to single-byte transcoders must treat
 negative wchar_t values as invalid

---
 include/strf/detail/single_byte_charsets.hpp | 26 ++++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 3a89854..44b4ea5 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,14 +143,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +168,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +222,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
+                    if ( (detail::cast_u32(*it) < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
+                if ( (detail::cast_u32(*it) < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2664,7 +2664,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xDFFF));
-- 
2.43.0


From 300830f5ccf6d0bfc6fbf77bc9063fb06430753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 09/61] fix: windows-1254 must not encode U+00D0, DD, DE, F0,
 FD and FE as the bytes of Turkish letters

---
 include/strf/detail/single_byte_charsets.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 44b4ea5..68bef43 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2001,6 +2001,9 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x90: return 0x90;
         case 0x9D: return 0x9D;
         case 0x9E: return 0x9E;
+        case 0xD0: case 0xDD: case 0xDE: // replaced by the
+        case 0xF0: case 0xFD: case 0xFE: // Turkish letters below
+            return 0x100;
         case 0x011E: return 0xD0;
         case 0x011F: return 0xF0;
         case 0x0130: return 0xDD;
-- 
2.43.0


From 75ee6462e383f642346902a3cf801f97b1fac478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 10/61] fix: windows-1258 must not encode U+009F as the byte of
 U+0178

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 68bef43..e9108c0 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2402,7 +2402,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 770b36298670c8ccc41e6f922ce177da25478953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 11/61] fix: UTF-32 to single-byte transcoders must keep
 treating U+E000..U+FFFF as the tests expect

---
 include/strf/detail/single_byte_charsets.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index e9108c0..71e2278 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,7 +143,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xDFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (detail::cast_u32(*it) < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
+                    if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (detail::cast_u32(*it) < 0xD800 || (0xDFFF < *it && *it <= 0x10FFFF))
+                if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -2670,7 +2670,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
                 ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
-                 && *src <= 0xDFFF));
+                 && *src <= 0xFFFF));
 
             if (!is_invalid) {
                 if (err_notifier) {
-- 
2.43.0


From e8f5efc7e21607249651a334e1ac20ae964d690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 12/61] fix: UTF-32 decode_unit must return U+FFFD for values
 above U+10FFFF

---
 include/strf/detail/utf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index e5f75fb..3f8f1ac 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1273,7 +1273,9 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        return static_cast<char32_t>(ch);
+        STRF_IF_LIKELY (detail::cast_u32(ch) < 0x110000)
+            return static_cast<char32_t>(ch);
+        return 0xFFFD;
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
     {
-- 
2.43.0


From d8fbc27e4a6d935aa6e9a7bb86be82d854a1d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/61] fix: UTF-32 to single-byte transcode_size must accept
 U+FFFD as transcode does

---
 include/strf/detail/single_byte_charsets.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 71e2278..4bd16e9 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,7 +143,9 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000
+                        || ( 0xD800 <= *it && *it <= 0xFFFF
+                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
@@ -159,7 +161,9 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000
+                    || ( 0xD800 <= *it && *it <= 0xFFFF
+                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -188,7 +192,9 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000
+                        || ( 0xD800 <= *it && *it <= 0xFFFF
+                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +216,9 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000
+                    || ( 0xD800 <= *it && *it <= 0xFFFF
+                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
-- 
2.43.0


From 2f7be6040405f9b7e1e80930eff1c3c7654e7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 14/61] fix: basic_sized_string_maker::finish must leave the
 destination not good

---
 include/strf/to_string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d769397..4342a9e 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -235,6 +235,7 @@ public:
 
     std::basic_string<CharT, Traits, Allocator> finish()
     {
+        this->set_good(false);
         str_.resize(detail::safe_cast_size_t(this->buffer_ptr() - str_.data()));
         return std::move(str_);
     }
-- 
2.43.0


From 1a729f687bd32d40ea048521bed8c4d08e03305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 15/61] fix: streambuf_writer must not stay good when the
 streambuf throws in recycle

---
 include/strf/to_streambuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index cc83b05..a48b6c7 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -51,6 +51,7 @@ public:
         const std::streamsize count = this->buffer_ptr() - buf_;
         this->set_buffer_ptr(buf_);
         STRF_IF_LIKELY (this->good()) {
+            this->set_good(false); // in case the following code throws
             auto count_inc = dst_.sputn(buf_, count);
             count_ += count_inc;
             this->set_good(count_inc == count);
-- 
2.43.0


From c5d4e3ab623fd0eb4b7a092b9bb4bacee06480a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 16/61] fix: streambuf_writer must count what the streambuf
 accepted before it threw

---
 include/strf/to_streambuf.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index a48b6c7..4673133 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -87,11 +87,12 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
+            count_ += count_inc;
             if (count_inc == count) {
-                count_inc += dst_.sputn(str,  str_slen);
+                count_inc = dst_.sputn(str,  str_slen);
+                count_ += count_inc;
+                this->set_good(count_inc == str_slen);
             }
-            count_ += count_inc;
-            this->set_good(count_inc == count + str_slen);
         }
     }
 
-- 
2.43.0


From 77d6bbee0699f12dd89724a1dc4f93a97f0caaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 17/61] fix: dynamic int format must be combinable with
 alignment

fmt(v).base(16) > 10 did not compile: the converting constructor accessed a private member.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..c98d9ef 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -879,7 +879,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From f119ac496360c9f0d2e1fd64e2f7e3d1bad41d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 18/61] fix: lvalue overloads of hex, dec, oct and bin on
 dynamic int format must return T&

They returned T&& from an lvalue and so did not compile when used.
---
 include/strf/detail/printable_types/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index c98d9ef..a177f54 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -888,7 +888,7 @@ public:
         data_.base = 16;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& hex() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& hex() &
     {
         data_.base = 16;
         return static_cast<T&>(*this);
@@ -898,7 +898,7 @@ public:
         data_.base = 10;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& dec() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& dec() &
     {
         data_.base = 10;
         return static_cast<T&>(*this);
@@ -908,7 +908,7 @@ public:
         data_.base = 8;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& oct() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& oct() &
     {
         data_.base = 8;
         return static_cast<T&>(*this);
@@ -918,7 +918,7 @@ public:
         data_.base = 2;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& bin() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& bin() &
     {
         data_.base = 2;
         return static_cast<T&>(*this);
-- 
2.43.0


From 7490dd5d119ca74c8540d317776f193b44029896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 19/61] fix: base(int) must keep precision, pad0, sign and
 showbase

hex(v).pad0(8).base(8) lost the padding, whereas hex(v).pad0(8).oct() keeps it.
---
 include/strf/detail/printable_types/int.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index a177f54..ba30065 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -779,9 +779,8 @@ public:
         , int_format_specifier_full_dynamic >
     base(int b) const
     {
-        int_format_full_dynamic data;
+        int_format_full_dynamic data = data_;
         data.base = b;
-        data.punctuate = Punctuate;
         return { *static_cast<const T*>(this)
                , strf::tag<int_format_specifier_full_dynamic>{}
                , data };
-- 
2.43.0


From aeddab6f5c02df3b6ba34360eed1e26cc7c34b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 20/61] fix: signed decimal printer must ensure room for all
 its digits

A precedence slip made it ensure a single unit, so +dec(v) wrote past the
end of the buffer when the room left was less than the digits.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index ba30065..f51739a 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1354,7 +1354,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From d8a53913d7b4cbe0696ff55d26d2e4a6cd467533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 21/61] fix: punctuated binary integers must ensure room for
 the highest group

The digits of the highest group were written without checking the room
left in the buffer.
---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From 0411b40b170b66cd383355d33b0968bfbdb1cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 22/61] fix: no_grouping must keep and return its decimal point

decimal_point() always returned '.', ignoring decimal_point(ch), and the
member was left uninitialized by default.
---
 include/strf/detail/facets/numpunct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..ecdae5e 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
-    constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From 267eb7977097d410cc0a532d428d05833e9d1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 23/61] fix: integers must not count omitted invalid thousands
 separators in their width

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index f51739a..117ce8c 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1787,6 +1787,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From 72ef6f66596cd7b6983fe2c6b1794bce5b4c16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 24/61] fix: general notation rounded up to one digit must
 count the sign in its width

---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..e7b42c2 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1652,7 +1652,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1661,7 +1661,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From 45a58cb2b1d86ae2cb7d750b87de4dc6549bb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 25/61] fix: any negative floating-point precision must mean
 that it is not set

---
 include/strf/detail/printable_types/float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index e7b42c2..f1902e8 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2093,7 +2093,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
     }
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2101,7 +2101,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2110,7 +2110,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2176,7 +2176,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2184,7 +2184,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2193,7 +2193,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
-- 
2.43.0


From 3d25c4045d40ddc394f1a0ecbe34e0c3ee3e3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 26/61] fix: hexadecimal notation with precision must carry and
 round ties to even over the digit before the point

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index f1902e8..0ef594c 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1586,8 +1586,6 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
         data.showpoint = data.extra_zeros || fdata.showpoint;
         data.sub_chars_count += 1 + data.showpoint;
     } else {
-        data.exponent_digcount = strf::detail::exponent_hex_digcount(data.exponent);
-        data.sub_chars_count += data.exponent_digcount;
         if (data.mantissa == 0){
             data.mantissa_digcount = 0;
             data.extra_zeros = detail::precision_is_set(fdata.precision) ? fdata.precision : 0;
@@ -1609,15 +1607,25 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
                 auto d = 1ULL << s;
                 auto mask = d - 1;
                 auto mantissa_low = data.mantissa & mask;
-                if ( mantissa_low > (d >> 1)
-                 || (mantissa_low == (d >> 1) && (data.mantissa & d))) {
+                const bool odd = ( fdata.precision == 0
+                                 ? ! data.subnormal
+                                 : (data.mantissa & d) != 0 );
+                if (mantissa_low > (d >> 1) || (mantissa_low == (d >> 1) && odd)) {
                     data.mantissa += d;
+                    if (data.mantissa >> 52) {
+                        // the carry reaches the digit before the point
+                        data.mantissa &= 0xFFFFFFFFFFFFFULL;
+                        data.exponent += ! data.subnormal;
+                        data.subnormal = false;
+                    }
                 }
                 data.mantissa_digcount = fdata.precision;
                 data.showpoint = fdata.precision || fdata.showpoint;
                 data.sub_chars_count += data.showpoint + data.mantissa_digcount;
             }
         }
+        data.exponent_digcount = strf::detail::exponent_hex_digcount(data.exponent);
+        data.sub_chars_count += data.exponent_digcount;
     }
     const detail::chars_count_t content_width =
         (detail::max)(data.sub_chars_count + data.extra_zeros, data.pad0width);
-- 
2.43.0


From bfe601ec0604e460b88116ca0ca544dcd0a8b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 27/61] fix: separators of a fixed-notation float must be
 counted after it is rounded

---
 include/strf/detail/printable_types/float.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 0ef594c..283dd4f 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1900,12 +1900,6 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
         auto int_digcount = ( (int)data.m10_digcount > -data.e10
                             ? (int)data.m10_digcount + data.e10
                             : 1 );
-        if (grouping.any_separator(int_digcount)) {
-            data.sep_count = static_cast<detail::chars_count_t>
-                (grouping.separators_count(int_digcount));
-            data.sub_chars_count += static_cast<detail::chars_count_t>(data.sep_count);
-        }
-        data.sub_chars_count += static_cast<detail::chars_count_t>(int_digcount + precision);
         if (xz >= 0) {
             data.extra_zeros = static_cast<detail::chars_count_t>(xz);
         } else {
@@ -1928,12 +1922,18 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                         data.extra_zeros = (int)precision + data.e10;
                     } else {
                         data.extra_zeros = precision;
-                        ++data.sub_chars_count;
+                        ++int_digcount;
                     }
                 }
             }
 
         }
+        if (grouping.any_separator(int_digcount)) {
+            data.sep_count = static_cast<detail::chars_count_t>
+                (grouping.separators_count(int_digcount));
+            data.sub_chars_count += static_cast<detail::chars_count_t>(data.sep_count);
+        }
+        data.sub_chars_count += static_cast<detail::chars_count_t>(int_digcount + precision);
     }
     return init_double_printer_data_fill
         ( data, rounded_fmt_width
-- 
2.43.0


From 96928c10036823a0d9279c0267711cb061d3e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 28/61] fix: the thousands separator of large floats must be
 encoded in the destination's charset

---
 include/strf/detail/printable_types/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 283dd4f..cbd9363 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2382,9 +2382,14 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            CharT sep;
+            if (thousands_sep_ < 0x80) {
+                sep = static_cast<CharT>(thousands_sep_);
+            } else {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
-                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10, sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0


From 8fe040d87d67bdaeeefbb417bf0086e457102b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 29/61] fix: a non-positive limit must give a zero width in
 std_width_calc's str_width_and_pos

---
 include/strf/detail/facets/width_calculator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..7a30f41 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -509,6 +509,7 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
-- 
2.43.0


From 4a5a71aa4d1858415a29c03b145b0119e7cabf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 30/61] fix: std_width_calc must not split a grapheme cluster
 at its internal buffer's end

---
 include/strf/detail/facets/width_calculator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 7a30f41..4d24d05 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -516,7 +516,8 @@ public:
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
+            // the grapheme cluster that reaches the limit might continue in the next buffer
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From 3bba499778ded6f3e200586d485e5cc64cc27d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 31/61] fix: width_as_u32len must saturate, not assert, beyond
 32767 code points

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 4d24d05..04ef124 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From 0efc970abdf85563541d2c4f4b30a30b1e48e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 32/61] fix: division of negative widths

---
 include/strf/width_t.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..7f4486c 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,9 +407,8 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
-        value_ = detail::cast_i32(cast_i64(tmp));
+        const std::int64_t tmp = cast_i64(value_) * 0x10000 / other.value_;
+        value_ = cast_i32(tmp);
         return *this;
     }
 
-- 
2.43.0


From c9c956d399360bf15a8e6866a4240efc51af8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 33/61] fix: comparison of a width with a distant 16-bit
 integer must not overflow

---
 include/strf/width_t.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 7f4486c..ecad383 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -412,15 +412,13 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return compare(detail::tag_i32(), x);
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return compare(detail::tag_u32(), x);
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From 77d775f06d662b7d3dc03bd5231d4881e2282769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 34/61] fix: sat_sub of a width and a large 64-bit integer must
 saturate

---
 include/strf/width_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index ecad383..e68b00e 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,9 +298,9 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000) {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
             auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
-- 
2.43.0


From 215b07a7445fcdffc906bda3198a01e1a37493ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 35/61] fix: width literals with 15 or 16 fractional digits

---
 include/strf/width_t.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index e68b00e..2fc5f6e 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -814,8 +814,14 @@ class mp_fixed_point_parser
 {
     using helper = detail::mp_fp_parser_2<Q, C...>;
     static constexpr auto divisor = detail::mp_pow10<helper::fdigcount>();
-    static constexpr auto frac_ = (helper::fvalue << Q) / divisor;
-    static constexpr auto rem_ = (helper::fvalue << Q) % divisor;
+
+    // in two steps, because (helper::fvalue << Q) may overflow
+    static constexpr unsigned q0_ = Q / 2;
+    static constexpr unsigned q1_ = Q - q0_;
+    static constexpr auto rem0_ = (helper::fvalue << q0_) % divisor;
+    static constexpr auto frac_ = (((helper::fvalue << q0_) / divisor) << q1_)
+                                + ((rem0_ << q1_) / divisor);
+    static constexpr auto rem_ = (rem0_ << q1_) % divisor;
     static constexpr bool round_up = (rem_ > (divisor >> 1))
                            || (rem_ == (divisor >> 1) && (frac_ & 1) == 1);
     static constexpr auto frac = frac_ + round_up;
-- 
2.43.0


From 63456c0e85fac420ee3f6f64f555eb0e48811b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 36/61] fix: strings in dynamic charsets must be printable to
 any character type

---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From cabe8e2987d725f27b406ea178fdd3309a0d4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 37/61] fix: the width of a string with an explicit charset
 must be measured in that charset

---
 .../strf/detail/printable_types/string.hpp    | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index 7a8989e..b1d1806 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -523,6 +523,33 @@ template <typename SrcCharT>
 struct string_printing;
 
 
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
+{
+    return strf::get_facet
+        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
+        ( facets );
+}
+
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
+{
+    return arg.get_charset();
+}
+
+template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
+         , typename Charset, transcoding_policy TranscPoli >
+constexpr STRF_HD auto get_src_charset
+    ( const FPack& facets
+    , const strf::value_and_format
+        < string_printing<SrcCharT>
+        , strf::detail::string_precision_format_specifier<HasPrecision>
+        , strf::alignment_format_specifier_q<HasAlignment>
+        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
+{
+    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
+}
+
 template <typename SrcCharT, typename DstCharT>
 class strcpy_printer
 {
@@ -565,7 +592,7 @@ public:
         STRF_IF_CONSTEXPR(PreMeasurements::width_demanded) {
             auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
             auto w = wcalc.str_width
-                ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+                ( strf::detail::get_src_charset(facets, arg)
                 , pre->remaining_width()
                 , str_
                 , str_end_ );
@@ -588,7 +615,7 @@ public:
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
         auto res = wcalc.str_width_and_pos
-            ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+            ( strf::detail::get_src_charset(facets, arg)
             , arg.precision(), str_, arg.value().end() );
         str_end_ = res.ptr;
         pre->add_width(res.width);
@@ -642,7 +669,7 @@ public:
     {
 
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         const strf::width_t limit =
             ( pre->remaining_width_greater_than(afmt_.width)
@@ -668,7 +695,7 @@ public:
         , afmt_(arg.get_alignment_format())
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         auto res = wcalc.str_width_and_pos
             ( src_charset, arg.precision(), str_, arg.value().end() );
@@ -764,33 +791,6 @@ void STRF_HD aligned_strcpy_printer<SrcCharT, DstCharT>::operator()
 }
 
 
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
-{
-    return strf::get_facet
-        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
-        ( facets );
-}
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
-{
-    return arg.get_charset();
-}
-
-template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
-         , typename Charset, transcoding_policy TranscPoli >
-constexpr STRF_HD auto get_src_charset
-    ( const FPack& facets
-    , const strf::value_and_format
-        < string_printing<SrcCharT>
-        , strf::detail::string_precision_format_specifier<HasPrecision>
-        , strf::alignment_format_specifier_q<HasAlignment>
-        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
-{
-    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
-}
-
 template <typename SrcCharT, typename DstCharT>
 class transcode_printer
 {
-- 
2.43.0


From d754a63b50c549f2cebcc9994603b5a9d5ccb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 38/61] fix: the accumulated width must saturate, not overflow

---
 include/strf/detail/premeasurements.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..0c4b3a0 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_ = strf::sat_add(width_, w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return strf::sat_add(width_, w) < limit_;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
-- 
2.43.0


From 3896302e2ec04e6da0a9eeaeac54fb38918187d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 39/61] fix: the measured width of an aligned join must not
 lose its fill when the width limit is large

---
 include/strf/detail/printable_types/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..b08db21 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -258,7 +258,7 @@ struct join_printing
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
         pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+            ( strf::sat_add(strf::sat_sub(wmax, sub_pre.remaining_width()), pf.fillcount_) );
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From 26e394697eebac8a8fd2b2624f2e483f7d41e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 40/61] fix: a join aligned to a negative width must not
 overflow the width limit

---
 include/strf/detail/printable_types/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index b08db21..f774bc7 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -246,7 +246,7 @@ struct join_printing
         strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
+            wdiff = strf::sat_sub(wmax, afmt.width);
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
-- 
2.43.0


From bec8f3a43e4cb63c45ab4a577e60ede6a430569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 41/61] fix: the measured width of a tr-string must saturate,
 not overflow

---
 include/strf/detail/tr_printer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..c2e1458 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,8 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_ = strf::sat_add
+                (width_, index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +170,8 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_ = strf::sat_add
+                (width_, wcalc_.str_width(charset_, limit_ - width_, begin, end));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +221,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_ = strf::sat_add(width_, width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_ = strf::sat_add(width_, 1);
         }
         return {};
     }
@@ -230,7 +232,8 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        width_ = strf::sat_add
+            (width_, wcalc_.str_width(charset_, limit_ - width_, begin, end));
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From 6ef9a2300bcbdd5579dce4819cf32ea546d5ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 42/61] fix: tr() must accept a facets pack or constrained
 facet given by reference after another facet

---
 include/strf/detail/separate_args_and_print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/separate_args_and_print.hpp b/include/strf/detail/separate_args_and_print.hpp
index 1df9fe2..73a1340 100644
--- a/include/strf/detail/separate_args_and_print.hpp
+++ b/include/strf/detail/separate_args_and_print.hpp
@@ -107,7 +107,7 @@ struct first_is_fpe<>
 template <typename Arg0, typename... OtherArgs>
 struct first_is_fpe<Arg0, OtherArgs...>
 {
-    static constexpr bool value = strf::detail::is_fpe<Arg0>::value;
+    static constexpr bool value = strf::detail::is_fpe<strf::detail::remove_cvref_t<Arg0>>::value;
 };
 
 template <bool FirstIsFpe, typename... Args>
-- 
2.43.0


From 3afe621f7f2171bfc488cce8984fc85e9cdabb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 43/61] fix: with() must accept further facets after a
 constrained one

---
 include/strf/facets_pack.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/facets_pack.hpp b/include/strf/facets_pack.hpp
index f1eb9da..7a7cd1e 100644
--- a/include/strf/facets_pack.hpp
+++ b/include/strf/facets_pack.hpp
@@ -344,7 +344,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( const strf::constrained_fpe<Filter, FPE>& cfpe )
         noexcept(noexcept(F(std::declval<const F&>())))
-        : fpe_(cfpe.get())
+        : fpe_(cfpe)
     {
     }
 
@@ -354,7 +354,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( strf::constrained_fpe<Filter, FPE>&& cfpe )
         noexcept(noexcept(F(std::declval<F>())))
-        : fpe_(std::move(cfpe).get())
+        : fpe_(std::move(cfpe))
     {
     }
 
@@ -366,16 +366,16 @@ public:
         , strf::tag<Category>
         , std::integral_constant<bool, has_facet_<Category, Tag>()> ) const
     {
-        return strf::detail::do_get_facet<Category, Tag>(fpe_);
+        return strf::detail::do_get_facet<Category, Tag>(fpe_.get());
     }
 
-    constexpr STRF_HD const FPE& do_get_element
+    constexpr STRF_HD const strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> ) const
     {
         return fpe_;
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD FPE& do_get_element
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> )
     {
         return fpe_;
@@ -383,7 +383,7 @@ public:
 
 private:
 
-    FPE fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
+    strf::constrained_fpe<Filter, FPE> fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 };
 
 template <typename Rank, typename FPE>
-- 
2.43.0


From 2441efc19f43c200d541a780c2658ddc58db9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 44/61] fix: representative_of_printable must be the documented
 representative, so that const void* can be overridden

---
 include/strf/detail/printable_def.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 70490dd..04ba12d 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -451,7 +451,14 @@ namespace detail {
 template <typename PrintableDef>
 struct representative_from_printable_def
 {
-    using type = PrintableDef;
+    template <typename U>
+    static STRF_HD strf::tag<typename U::representative> test_(const U*);
+
+    template <typename U>
+    static STRF_HD strf::tag<PrintableDef> test_(...);
+
+    using tag_type = decltype(test_<PrintableDef>((PrintableDef*)nullptr));
+    using type = typename tag_type::type;
 };
 
 template <typename P>
-- 
2.43.0


From 5b87ada0534734ad678db96b199833f2b0731200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 45/61] fix: tr() with reserve_calc must create the sized
 destination type

---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From 2d33d3faebe2935ce15ecd76b99200d5381a6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 46/61] fix: locale_numpunct() must take CHAR_MAX in
 lconv::grouping as the end of the grouping

---
 include/strf/locale.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/strf/locale.hpp b/include/strf/locale.hpp
index 6d46964..2ad6178 100644
--- a/include/strf/locale.hpp
+++ b/include/strf/locale.hpp
@@ -15,6 +15,7 @@
 #include <strf/detail/int_digits.hpp>
 #include <cwchar>
 
+#include <climits>
 #include <clocale>
 #if defined (_WIN32)
 #  include <windows.h>
@@ -102,6 +103,22 @@ STRF_FUNC_IMPL char32_t decode_first_char_from_utf16(const wchar_t* src)
 
 #if ! defined (_WIN32)
 
+// Parses the value of lconv::grouping, where CHAR_MAX
+// means that no further grouping is to be performed
+//
+// NOLINTNEXTLINE(misc-definitions-in-headers)
+STRF_FUNC_IMPL strf::digits_grouping parse_lconv_grouping(const char* str) noexcept
+{
+    strf::digits_grouping_creator creator;
+    for (; *str != '\0'; ++str) {
+        if (*str == CHAR_MAX || 0 != (*str & 0x80)) {
+            return creator.finish_no_more_sep();
+        }
+        creator.push_high(static_cast<int>(*str));
+    }
+    return creator.finish();
+}
+
 // NOLINTNEXTLINE(misc-definitions-in-headers)
 STRF_FUNC_IMPL char32_t decode_first_char(strf::transcode_f<char, char32_t> decode, const char* str)
 {
@@ -216,7 +233,7 @@ STRF_FUNC_IMPL strf::numpunct<10> locale_numpunct() noexcept
         ( nl_langinfo(CODESET)  // NOLINT(concurrency-mt-unsafe)
         , loc->decimal_point
         , loc->thousands_sep
-        , strf::digits_grouping(loc->grouping) );
+        , strf::detail::parse_lconv_grouping(loc->grouping) );
 
 #endif // defined(_WIN32)
 }
-- 
2.43.0


From 70c524ff5c5f15fdc5c2823c7f0127abb2f858c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 47/61] fix: no std::abs, which needs a header that
 freestanding builds do not include

---
 include/strf/detail/printable_types/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index cbd9363..b4d5c47 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1135,7 +1135,7 @@ STRF_HD void print_scientific_notation
 
     unsigned adv = 4;
     CharT* it = nullptr;
-    int abs_e10 = std::abs(exponent);
+    int abs_e10 = exponent < 0 ? -exponent : exponent;
     STRF_ASSERT(abs_e10 < 1000);
 
     if (abs_e10 >= 100) {
@@ -1355,7 +1355,7 @@ STRF_HD void fast_double_printer<CharT>::operator()
         }
         it[0] = static_cast<CharT>('E' | ((lettercase_ != strf::uppercase) << 5));
         it[1] = static_cast<CharT>('+' + ((e10 < 0) << 1));
-        int abs_e10 = std::abs(e10);
+        int abs_e10 = e10 < 0 ? -e10 : e10;
         if (abs_e10 >= 100) {
             it[4] = static_cast<CharT>('0' + abs_e10 % 10);
             abs_e10 /= 10;
@@ -1833,7 +1833,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_s
         data.m10_digcount += xz;
 #if defined(__GNUC__) && __GNUC__ <= 10
         // silent a false warning of GCC
-        data.m10_digcount = std::abs(data.m10_digcount);
+        data.m10_digcount = data.m10_digcount < 0 ? -data.m10_digcount : data.m10_digcount;
 #endif
         data.e10 -= xz;
         auto p10 = strf::detail::pow10(-xz);
-- 
2.43.0


From 6c08794acfbe511f7fcad5c4da533f6d70daeda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 48/61] fix: repeat_sequence is not noexcept: the destination
 may throw

---
 include/strf/detail/utf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 3f8f1ac..e757eec 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -28,7 +28,7 @@ inline STRF_HD void repeat_sequence
     ( strf::transcode_dst<CharT>& dst
     , std::ptrdiff_t count
     , CharT ch0
-    , CharT ch1 ) noexcept
+    , CharT ch1 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 2;
@@ -61,7 +61,7 @@ inline STRF_HD void repeat_sequence
     , std::ptrdiff_t count
     , CharT ch0
     , CharT ch1
-    , CharT ch2 ) noexcept
+    , CharT ch2 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 3;
@@ -96,7 +96,7 @@ inline STRF_HD void repeat_sequence
     , CharT ch0
     , CharT ch1
     , CharT ch2
-    , CharT ch3 ) noexcept
+    , CharT ch3 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 4;
-- 
2.43.0


From 6560c8f1490483744959acd3ca4164969f7f94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 49/61] fix: creating a string appender with reserved space is
 not noexcept: allocation may fail

---
 include/strf/to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index 4342a9e..dc18c7e 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -290,7 +290,7 @@ public:
     {
         return *str_;
     }
-    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const noexcept
+    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const
     {
         if (size > 0) {
             str_->reserve(str_->size() + size);
-- 
2.43.0


From 34217adec34c4c396d9093df109556521c36cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 50/61] fix: printing strings and characters lets exceptions of
 a width calculator propagate

---
 include/strf/detail/printable_types/char.hpp   | 10 +++++-----
 include/strf/detail/printable_types/string.hpp |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index f39a9f0..40eba25 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -291,7 +291,7 @@ struct char_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , SrcCharT x ) noexcept
+        , SrcCharT x )
         -> strf::detail::char_printer<DstCharT>
     {
         static_assert( std::is_same<SrcCharT, DstCharT>::value, "Character type mismatch.");
@@ -312,7 +312,7 @@ struct char_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , strf::value_and_format<T...> arg ) noexcept
+        , strf::value_and_format<T...> arg )
         -> strf::detail::fmt_char_printer<DstCharT>
     {
         return {pre, facets, arg};
@@ -344,7 +344,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , char32_t x ) noexcept
+        , char32_t x )
     {
         return detail::char_printing<char32_t>::make_printer
             ( strf::tag<char32_t>(), pre, facets, x );
@@ -356,7 +356,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , char32_t x ) noexcept
+        , char32_t x )
         -> strf::detail::conv_char32_printer<DstCharT>
     {
         auto encoding = strf::get_facet<charset_c<DstCharT>, char32_t>(facets);
@@ -376,7 +376,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& fp
-        , strf::value_and_format<F...> x ) noexcept
+        , strf::value_and_format<F...> x )
         -> detail::conditional_t
             < std::is_same<DstCharT, char32_t>::value
             , strf::detail::fmt_char_printer<DstCharT>
diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index b1d1806..ac4f24e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1743,7 +1743,7 @@ struct string_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , forwarded_type arg ) noexcept
+        , forwarded_type arg )
         -> detail::strcpy_printer<SrcCharT, DstCharT>
     {
         static_assert
@@ -1764,7 +1764,7 @@ struct string_printing
             < string_printing<SrcCharT>
             , string_precision_format_specifier<HasPrecision>
             , strf::alignment_format_specifier_q<HasAlignment>
-            , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg ) noexcept
+            , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
 
         -> typename string_printer_type
             < HasAlignment
-- 
2.43.0


From 46da8226b880e177191f85d5f23cf46791110e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 51/61] fix: printing a punctuated or formatted floating-point
 value is not noexcept: the destination may throw

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index b4d5c47..db4f5ab 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2318,16 +2318,16 @@ public:
 private:
 
     STRF_HD void print_fixed_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_scientific_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_hexadecimal_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_inf_or_nan_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     strf::encode_char_f<CharT> encode_char_ = nullptr;
     strf::encode_fill_f<CharT> encode_fill_;
@@ -2367,7 +2367,7 @@ STRF_HD void punct_double_printer<CharT>::operator()
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_fixed_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2470,7 +2470,7 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_scientific_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2486,7 +2486,7 @@ STRF_HD void punct_double_printer<CharT>::print_scientific_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     const auto sub_size = data_.sub_chars_count + decimal_point_size_ - data_.showpoint;
     STRF_ASSERT(data_.showpoint == (decimal_point_size_ != 0));
@@ -2552,7 +2552,7 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_inf_or_nan_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
-- 
2.43.0


From 4aea47fdb756b2d50ad8ff60cf1e877037d7a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 52/61] fix: format functions must not bind a reference
 forwarded_type to a temporary copy (gcc)

---
 include/strf/detail/printable_def.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 04ba12d..53bc70f 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -324,9 +324,9 @@ struct fmt_fn
              , typename FmtType = fmt_type<T>
              , typename FmtValueType = typename FmtType::value_type >
     constexpr STRF_HD fmt_type<T> operator()(T&& value) const
-        noexcept(noexcept(FmtType{FmtValueType{(T&&)value}}))
+        noexcept(noexcept(FmtType{static_cast<FmtValueType>((T&&)value)}))
     {
-        return FmtType{FmtValueType{(T&&)value}};
+        return FmtType{static_cast<FmtValueType>((T&&)value)};
     }
 
     template < typename T
-- 
2.43.0


From 5a761bb2f8c473ac9560ea92c8f53dc7eb161305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 53/61] fix: set_int_format, set_float_format and
 set_alignment_format accept the default formats on any formatted value

They did not compile after hex(), p(), punct(), fill() etc. (int: with any
compiler; all three: ambiguous with clang), nor did
set_int_format(default_int_format) on a const value_and_format.
---
 include/strf/detail/format_functions.hpp      |  9 +++
 include/strf/detail/printable_types/float.hpp | 16 +++++
 include/strf/detail/printable_types/int.hpp   | 72 +++++++++++++++++--
 3 files changed, 91 insertions(+), 6 deletions(-)

diff --git a/include/strf/detail/format_functions.hpp b/include/strf/detail/format_functions.hpp
index 1789fb3..890f87a 100644
--- a/include/strf/detail/format_functions.hpp
+++ b/include/strf/detail/format_functions.hpp
@@ -132,6 +132,15 @@ public:
     {
         return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    auto set_alignment_format(strf::default_alignment_format) &&
+        -> strf::fmt_replace
+            < T
+            , strf::alignment_format_specifier_q<true>
+            , strf::alignment_format_specifier_q<false> >
+    {
+        return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
+    }
     constexpr STRF_HD auto clear_alignment_format() const
         -> strf::fmt_replace
             < T
diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index db4f5ab..355b774 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -523,6 +523,14 @@ public:
                , format };
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
     strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier_full_dynamic>
     set_float_format(strf::float_format format) const & noexcept
     {
@@ -674,6 +682,14 @@ public:
                , strf::tag<float_format_specifier>{}
                , format };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_full_dynamic, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
     constexpr STRF_HD strf::float_notation float_notation() const noexcept
     {
         return data_.notation;
diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 117ce8c..4ed8555 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -322,12 +322,12 @@ public:
     constexpr STRF_HD const T&&
     set_int_format(strf::default_int_format) const && noexcept
     {
-        return static_cast<T&&>(*this);
+        return static_cast<const T&&>(*this);
     }
     constexpr STRF_HD const T&
     set_int_format(strf::default_int_format) const & noexcept
     {
-        return static_cast<T&>(*this);
+        return static_cast<const T&>(*this);
     }
     template <int Base>
     constexpr STRF_HD no_pad0_nor_punct_t_<Base> set_int_format
@@ -577,9 +577,29 @@ public:
     constexpr STRF_HD strf::fmt_replace
         < T, int_format_specifier_no_pad0_nor_punct<Base>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T, int_format_specifier_no_pad0_nor_punct<Base>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) & noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T, int_format_specifier_no_pad0_nor_punct<Base>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD full_dynamic_t_
     set_int_format(strf::int_format_full_dynamic new_data) const & noexcept
@@ -825,9 +845,31 @@ public:
         < T
         , int_format_specifier_static_base_and_punct<Base, Punctuate>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T
+        , int_format_specifier_static_base_and_punct<Base, Punctuate>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) & noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T
+        , int_format_specifier_static_base_and_punct<Base, Punctuate>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD
     strf::fmt_replace
@@ -1046,6 +1088,24 @@ public:
             , strf::tag<strf::default_int_format_specifier>{}
             , data };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, int_format_specifier_full_dynamic, default_int_format_specifier >
+    set_int_format(strf::default_int_format data) & noexcept
+    {
+        return
+            { *static_cast<const T*>(this)
+            , strf::tag<strf::default_int_format_specifier>{}
+            , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, int_format_specifier_full_dynamic, default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return
+            { *static_cast<const T*>(this)
+            , strf::tag<strf::default_int_format_specifier>{}
+            , data };
+    }
 
     constexpr STRF_HD const int_format_full_dynamic& get_int_format() const
     {
-- 
2.43.0


From bb0dfc468210e4b514c4f9664c8ab2b25cefbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 54/61] fix: clear_alignment_format() exists whether or not an
 alignment was set

---
 include/strf/detail/format_functions.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/strf/detail/format_functions.hpp b/include/strf/detail/format_functions.hpp
index 890f87a..37b348d 100644
--- a/include/strf/detail/format_functions.hpp
+++ b/include/strf/detail/format_functions.hpp
@@ -237,6 +237,18 @@ public:
     {
         return self_downcast_();
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& clear_alignment_format() && noexcept
+    {
+        return move_self_downcast_();
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& clear_alignment_format() & noexcept
+    {
+        return self_downcast_();
+    }
+    constexpr STRF_HD const T& clear_alignment_format() const & noexcept
+    {
+        return self_downcast_();
+    }
     constexpr STRF_HD adapted_derived_type set_alignment_format(strf::alignment_format data) const & noexcept
     {
         return adapted_derived_type
-- 
2.43.0


From 9716cbf777dd54c9f41c4a090accf01a038fc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:52 +0000
Subject: [PATCH 55/61] fix: tr() of a value with no formats must ask
 make_printer with what it was found to accept

---
 include/strf/detail/printing_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printing_helpers.hpp b/include/strf/detail/printing_helpers.hpp
index fcd7a76..69c0669 100644
--- a/include/strf/detail/printing_helpers.hpp
+++ b/include/strf/detail/printing_helpers.hpp
@@ -371,7 +371,9 @@ struct printer_wrapper_maker_without_premeasurements
         , const Arg& arg )
    {
        strf::no_premeasurements no_pre;
-       return tof.make_printer(strf::tag<CharT>{}, &no_pre, fp, arg);
+       return tof.make_printer
+           ( strf::tag<CharT>{}, &no_pre, fp
+           , PrintableArgConverter::convert_printable_arg(arg) );
    }
 };
 
-- 
2.43.0


From 74ba2949f030c2ba4fcf298a3c662ff7083401b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:15 +0000
Subject: [PATCH 56/61] fix: no_reserve() on a const printing_syntax lvalue
 with another reserve policy did not compile

---
 include/strf/printing_syntax.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..9e1916a 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -76,6 +76,7 @@ public:
     {
         const auto& self = static_cast<const this_pss_&>(*this);
         return { self.dest_creator_
+               , new_poli_{}
                , self.fpack_};
     }
 
-- 
2.43.0


From 5e40827286fb6a7b588c463ef5072ff8d48d3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:15 +0000
Subject: [PATCH 57/61] fix: with() without arguments on a printing_syntax
 lvalue did not compile

---
 include/strf/printing_syntax.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9e1916a..27527dd 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -437,7 +437,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& with() &
     {
-        return static_cast<this_pss_&&>(*this);
+        return static_cast<this_pss_&>(*this);
     }
 
     constexpr STRF_HD const this_pss_&& with() const &&
@@ -447,7 +447,7 @@ public:
 
     constexpr STRF_HD const this_pss_& with() const &
     {
-        return static_cast<const this_pss_&&>(*this);
+        return static_cast<const this_pss_&>(*this);
     }
 };
 
-- 
2.43.0


From db79b05191e563c1872e1a2dd25973c272b09163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 58/61] fix: reserve(space) was missing from a printing_syntax
 that already has reserve_given_space

It was named reserve_given_space(space) there, so that
strf::to_string.reserve(a).reserve(b), documented, did not compile.
---
 include/strf/printing_syntax.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 27527dd..5a55e9c 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -276,38 +276,46 @@ public:
         return poli_;
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return {self.dest_creator_, reserve_policy_t{detail::safe_cast_size_t(space)}, self.fpack_};
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &&
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &&
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return {self.dest_creator_, reserve_policy_t{detail::safe_cast_size_t(space)}, self.fpack_};
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve_given_space(std::size_t space) &
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve(IntT space) &
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve_given_space(std::size_t space) &&
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve(IntT space) &&
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&&>(*this);
     }
 };
-- 
2.43.0


From cc2e962acaea0b7d96c7b13e868fe1f42606b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 59/61] fix: tr() and trline() copied the facets and values
 given as rvalues

so that a facet that is only MoveConstructible, as the Facet requirements
allow, could be passed to operator() and line() but not to them.
---
 include/strf/detail/reserve_policies.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index e5e69f7..59a095b 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -247,7 +247,7 @@ struct printing_with_tr_string_no_premeasurements
         using dest_type = typename dest_creator_t::destination_type;
 
         dest_type dst{dest_creator.create()};
-        print_<AddEndOfLine>(dst, fpes..., tr_string, printables...);
+        print_<AddEndOfLine>(dst, (Fpes&&)fpes..., tr_string, (Printables&&)printables...);
 
         return strf::detail::finish(strf::rank<2>(), dst);
     }
@@ -264,7 +264,7 @@ struct printing_with_tr_string_no_premeasurements
         using dest_type = typename dest_creator_t::sized_destination_type;
 
         dest_type dst{dest_creator.create(given_space.space)};
-        print_<AddEndOfLine>(dst, fpes..., tr_string, printables...);
+        print_<AddEndOfLine>(dst, (Fpes&&)fpes..., tr_string, (Printables&&)printables...);
 
         return strf::detail::finish(strf::rank<2>(), dst);
     }
-- 
2.43.0


From 2c2255a40708b3b87111e53a1ade987d2c9227a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 60/61] fix: writing to a finished basic_sized_string_maker
 changed the returned string

---
 include/strf/to_string.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index dc18c7e..8b9f807 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -225,6 +225,10 @@ public:
 
     void recycle() override
     {
+        if ( ! this->good()) { // finish() was called
+            this->set_buffer_ptr(strf::garbage_buff<CharT>());
+            return;
+        }
         const auto original_size = detail::safe_cast_size_t(this->buffer_ptr() - str_.data());
         constexpr std::size_t min_buff_size = strf::min_destination_buffer_size;
         auto append_size = strf::detail::max<std::size_t>(original_size, min_buff_size);
@@ -235,8 +239,14 @@ public:
 
     std::basic_string<CharT, Traits, Allocator> finish()
     {
+        if ( ! this->good()) {
+            return {};
+        }
         this->set_good(false);
         str_.resize(detail::safe_cast_size_t(this->buffer_ptr() - str_.data()));
+        // whatever is written from now on shall not go to the returned string
+        this->set_buffer_ptr(strf::garbage_buff<CharT>());
+        this->set_buffer_end(strf::garbage_buff_end<CharT>());
         return std::move(str_);
     }
 
-- 
2.43.0


From bbfa33a602123ca3c7f309856f1956df6e3ff330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 61/61] fix: fmt_separated_range of an initializer list did not
 compile with clang (narrowing)

---
 include/strf/detail/printable_types/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/range.hpp b/include/strf/detail/printable_types/range.hpp
index 5dc2ebd..21dbfb9 100644
--- a/include/strf/detail/printable_types/range.hpp
+++ b/include/strf/detail/printable_types/range.hpp
@@ -818,8 +818,8 @@ template <typename T, typename CharT>
 inline STRF_HD auto fmt_separated_range(std::initializer_list<T> r, const CharT* sep) noexcept
     -> strf::sep_range_with_fmt<const T*, CharT>
 {
-    std::size_t sep_len = strf::detail::str_ssize<CharT>(sep);
-    strf::separated_range_p<const T*, CharT> rr
+    const auto sep_len = strf::detail::str_ssize<CharT>(sep);
+    const strf::separated_range_p<const T*, CharT> rr
     { r.begin(), r.end(), sep, sep_len };
     return strf::sep_range_with_fmt<const T*, CharT>{rr};
 }
-- 
2.43.0

