From 2ff6131f2039e681f52cdc7dbd0d33ecefbc7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 01/28] fix: fpconv_dtoa wrote 25 characters into its
 24-character buffer for some negative integers

---
 include/eosio/fpconv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..d44b3c8 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -214,8 +214,8 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 {
     int exp = absv(K + ndigits - 1);
 
-    /* write plain integer */
-    if(K >= 0 && (exp < (ndigits + 7))) {
+    /* write plain integer, unless it would not fit in the 24 characters of the destination */
+    if(K >= 0 && (exp < (ndigits + 7)) && (ndigits + K + neg <= 24)) {
         memcpy(dest, digits, ndigits);
         memset(dest + ndigits, '0', K);
 
-- 
2.43.0


From 783d211d99091555887b20422077af93c673b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 02/28] fix: accept subnormal floating-point numbers in JSON

---
 include/eosio/from_json.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..b547f5a 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -485,7 +486,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(),
+   // ERANGE is also reported for subnormals, which are representable
+   check( (!errno || (std::isfinite(result) && result != 0)) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
 
@@ -497,7 +499,9 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
+   // ERANGE is also reported for subnormals, which are representable
+   check( (!errno || (std::isfinite(result) && result != 0)) && end == s.c_str() + s.size(),
+         convert_json_error(from_json_error::expected_number) );
 }
 
 /*
-- 
2.43.0


From 9c28a53b4f1e7c27dcab1c7e932040d71361c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 03/28] fix: reject times with out-of-range fields or outside
 the 32-bit second range

---
 include/eosio/chain_conversions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..1fdfad7 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -298,7 +298,15 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   if (m < 1 || m > 12 || d < 1 || h > 23 || min > 59 || sec > 59)
+      return false;
+   const days     date    = year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days();
+   if (year_month_day{sys_days{date}}.day() != d)
+      return false;
+   const int64_t  seconds = int64_t{date.count()} * 86400 + h * 3600 + min * 60 + sec;
+   if (seconds < 0 || seconds > 0xffff'ffffll)
+      return false;
+   result = static_cast<uint32_t>(seconds);
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
-- 
2.43.0


From cdf711c0a5d1b54f42a573a0341269b989074854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 04/28] fix: undefined behavior when a serialized bool or
 optional flag is neither 0 nor 1

---
 include/eosio/from_bin.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..61143ed 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -54,6 +54,14 @@ void varint32_from_bin(int32_t& result, S& stream) {
       result = v >> 1;
 }
 
+// Any nonzero byte is true; copying the byte into a bool would be undefined unless it is 0 or 1
+template <typename S>
+void from_bin(bool& obj, S& stream) {
+   uint8_t b;
+   from_bin(b, stream);
+   obj = b != 0;
+}
+
 template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
-- 
2.43.0


From 0109765aa799c93c9423a31f7724912f79bf86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/28] fix: a few bytes of binary input could make from_bin
 allocate gigabytes

---
 include/eosio/from_bin.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 61143ed..7295665 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -116,9 +116,11 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      // size isn't trusted: grow only as fast as elements are actually read
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
@@ -176,6 +178,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 2d5ad607b41643f968be7846d3cd9ea987aafe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 06/28] fix: asset and symbol amounts and precisions which
 don't fit were silently wrapped

---
 include/eosio/chain_conversions.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 1fdfad7..4888bfe 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -375,10 +375,12 @@ inline std::string symbol_code_to_string(uint64_t v) {
 }
 
 [[nodiscard]] inline bool string_to_symbol(uint64_t& result, const char*& pos, const char* end, bool require_end) {
-   uint8_t precision = 0;
-   bool    found     = false;
+   uint32_t precision = 0;
+   bool     found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
       precision = precision * 10 + (*pos - '0');
+      if (precision > 255)
+         return false;
       found     = true;
       ++pos;
    }
@@ -397,7 +399,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -407,12 +408,23 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   const uint64_t max_amount = (uint64_t(1) << 63) - !negative;
+   auto append_digit = [&](char c) {
+      const uint64_t digit = c - '0';
+      if (uamount > (max_amount - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9') {
+      if (!append_digit(*s++))
+         return false;
+   }
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (!append_digit(*s++) || precision == 255)
+            return false;
          ++precision;
       }
    }
@@ -434,7 +446,7 @@ inline std::string asset_to_string(int64_t amount, uint64_t symbol) {
    std::string result;
    uint64_t    uamount;
    if (amount < 0)
-      uamount = -amount;
+      uamount = -uint64_t(amount);
    else
       uamount = amount;
    uint8_t precision = symbol;
-- 
2.43.0


From ea72672b2015f0447eadeae5eed16aa28b4c7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 07/28] fix: a NUL character was accepted as a base58 digit

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 101bc10a77eed93cbdad77fdcdb14020e9446218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 08/28] fix: keys and signatures with extra bytes were accepted

---
 src/crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..e05a18d 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -106,7 +106,11 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    Key result;
+    input_stream stream{whole};
+    from_bin(result, stream);
+    check(!stream.remaining(), convert_json_error(from_json_error::expected_key));
+    return result;
 }
 
 template <typename Key>
-- 
2.43.0


From 409cd0adf201b0e997742a49f7528f20ba6a6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 09/28] fix: setting a contract's ABI a second time had no
 effect

---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..0510105 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 2d11d8308863ac355aeefc122f7dcbbc844ec737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 10/28] fix: bin_to_json reported the wrong error when the
 contract isn't loaded

---
 src/abieos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0510105..9db4967 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -225,7 +225,7 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
         auto contract_it = context->contracts.find(::abieos::name{contract});
         std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            (void)set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From 0a2c383ee3575e1b446dac94e71c9cfe0f8c5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 11/28] fix: exporting an ABI changed the names of aliased
 variant alternatives

---
 src/abi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..f4ef68c 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -257,8 +257,8 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
-   for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+   for(const auto& [type_name, type] : variant) {
+      types.push_back(type_name);
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From 4f464dddf081fcf51abc2e6143e70bb59f5942a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 12/28] fix: printing the earliest time points overflowed a
 64-bit integer

---
 include/eosio/chain_conversions.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 4888bfe..7dd5cfb 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -246,7 +246,6 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    sys_days                  sd(std::chrono::floor<days>(us));
    auto                      ymd = year_month_day{ sd };
    uint32_t                  ms  = (std::chrono::floor<std::chrono::milliseconds>(us) - sd.time_since_epoch()).count();
-   us -= sd.time_since_epoch();
    append_uint((int)ymd.year(), 4);
    result.push_back('-');
    append_uint((unsigned)ymd.month(), 2);
-- 
2.43.0


From 879cc5ee5e5ce7ee909e54cfa9bb9c95cc61a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 13/28] fix: ordered JSON could omit an ordinary field that
 follows an omitted extension

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..add4191 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -779,7 +779,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
-        if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
+        while (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
             auto& field = fields[stack_entry.position + 1];
             if (!field.type->extension_of() || !allow_extensions) {
                 stack_entry.position = -1;
-- 
2.43.0


From 6e5b26668755113e8688bdbcdb096607bdcf0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 14/28] fix: deserializing a set, map, list or deque in place
 kept its old elements

---
 include/eosio/from_bin.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 7295665..59c7946 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -66,6 +66,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -77,6 +78,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -134,6 +136,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
-- 
2.43.0


From 55ed1ea639858071b262cde4f57cf0d4762a6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 15/28] fix: reading a JSON array into a vector in place kept
 its old elements

---
 include/eosio/from_json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index b547f5a..eba35aa 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -544,6 +544,7 @@ void from_json(bool& result, S& stream) {
 template <typename T, typename S>
 void from_json(std::vector<T>& result, S& stream) {
    stream.get_start_array();
+   result.clear();
    while (true) {
       auto t = stream.peek_token();
       if (t.get().type == json_token_type::type_end_array)
-- 
2.43.0


From 10315ad54de55af713ec63cc977c9d9a0d69fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 16/28] fix: time_point_sec could not be compared (its
 EOSIO_COMPARE named time_point)

---
 include/eosio/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index c021595..8cfe0d2 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -165,7 +165,7 @@ class time_point_sec {
 };
 
 EOSIO_REFLECT(time_point_sec, utc_seconds);
-EOSIO_COMPARE(time_point);
+EOSIO_COMPARE(time_point_sec);
 
 template <typename S>
 void from_json(time_point_sec& obj, S& stream) {
-- 
2.43.0


From cbadf56e96737d51625fc1846e761f8d6edc5376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 17/28] fix: abieos_set_abi read past its copy of the JSON text
 after an incomplete UTF-8 sequence

---
 src/abieos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 9db4967..0127edb 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -105,6 +105,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
         abi_def def{};
         std::string error;
         std::string abi_copy{abi};
+        abi_copy.append(3, '\0'); // the JSON reader may look up to 3 bytes past an incomplete UTF-8 sequence
         eosio::json_token_stream stream(abi_copy.data());
         from_json(def, stream);
         if (!check_abi_version(def.version, error))
-- 
2.43.0


From f752433ceb623bd9c4a99b4b92bb7ea60b44c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 18/28] fix: reading a block_timestamp from JSON wrapped around
 for times it cannot represent

---
 include/eosio/time.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index 8cfe0d2..d377cc6 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -253,6 +253,10 @@ template <typename S>
 void from_json(block_timestamp& obj, S& stream) {
    time_point tp;
    from_json(tp, stream);
+   // times which block_timestamp can't represent would wrap
+   const int64_t msec = tp.time_since_epoch().count() / 1000 - block_timestamp::block_timestamp_epoch;
+   check(msec >= 0 && msec / block_timestamp::block_interval_ms <= std::numeric_limits<uint32_t>::max(),
+         convert_json_error(from_json_error::expected_time_point));
    obj = block_timestamp(tp);
 }
 
-- 
2.43.0


From eba9635e8194d6996eaed16ca694763db1d0e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 19/28] fix: symbol_code::is_valid accepted codes of eight
 letters

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..fd54418 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return !sym; // an eighth character
    }
 
    /**
-- 
2.43.0


From 4dc916f1954486fd4a885b6f9cbd10b19f4296ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 20/28] fix: failed asset additions, subtractions and
 set_amount changed the asset (or overflowed)

---
 include/eosio/asset.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 9281752..9a46ca1 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -74,8 +74,8 @@ struct asset {
     * @param a - New amount for the asset
     */
    void set_amount(int64_t a) {
+      eosio::check(-max_amount <= a && a <= max_amount, "magnitude of asset amount must be less than 2^62");
       amount = a;
-      eosio::check(is_amount_within_range(), "magnitude of asset amount must be less than 2^62");
    }
 
    /// @cond OPERATORS
@@ -100,9 +100,12 @@ struct asset {
     */
    asset& operator-=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to subtract asset with different symbol");
-      amount -= a.amount;
-      eosio::check(-max_amount <= amount, "subtraction underflow");
-      eosio::check(amount <= max_amount, "subtraction overflow");
+      int64_t result = 0;
+      if (__builtin_sub_overflow(amount, a.amount, &result))
+         eosio::check(false, amount < 0 ? "subtraction underflow" : "subtraction overflow");
+      eosio::check(-max_amount <= result, "subtraction underflow");
+      eosio::check(result <= max_amount, "subtraction overflow");
+      amount = result;
       return *this;
    }
 
@@ -115,9 +118,12 @@ struct asset {
     */
    asset& operator+=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to add asset with different symbol");
-      amount += a.amount;
-      eosio::check(-max_amount <= amount, "addition underflow");
-      eosio::check(amount <= max_amount, "addition overflow");
+      int64_t result = 0;
+      if (__builtin_add_overflow(amount, a.amount, &result))
+         eosio::check(false, amount < 0 ? "addition underflow" : "addition overflow");
+      eosio::check(-max_amount <= result, "addition underflow");
+      eosio::check(result <= max_amount, "addition overflow");
+      amount = result;
       return *this;
    }
 
-- 
2.43.0


From bce202341af83d7b5a54f9e3ca4113b3ee92377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 21/28] fix: negating and dividing assets overflowed for the
 smallest 64-bit amount

---
 include/eosio/asset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 9a46ca1..c662762 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -86,6 +86,7 @@ struct asset {
     * @return asset - New asset with its amount is the negative amount of this asset
     */
    asset operator-() const {
+      eosio::check(amount != std::numeric_limits<int64_t>::min(), "signed negation overflow");
       asset r  = *this;
       r.amount = -r.amount;
       return r;
@@ -243,6 +244,7 @@ struct asset {
    friend int64_t operator/(const asset& a, const asset& b) {
       eosio::check(b.amount != 0, "divide by zero");
       eosio::check(a.symbol == b.symbol, "comparison of assets with different symbols is not allowed");
+      eosio::check(!(a.amount == std::numeric_limits<int64_t>::min() && b.amount == -1), "signed division overflow");
       return a.amount / b.amount;
    }
 
-- 
2.43.0


From aa410cc7f6f3b8c6f0b4f4452ac78945f4bd08bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 22/28] fix: without 128-bit integers, the empty string was
 read as the number 0

---
 include/eosio/abieos_numeric.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index 04096b2..dbad56f 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -57,6 +57,7 @@ void negate(std::array<uint8_t, size>& a) {
 template <auto size>
 inline void decimal_to_binary(std::array<uint8_t, size>& result,
                                                               std::string_view s) {
+    eosio::check(!s.empty(), eosio::convert_json_error(eosio::from_json_error::expected_int));
     memset(result.begin(), 0, result.size());
     for (auto& src_digit : s) {
        eosio::check(!(src_digit < '0' || src_digit > '9'),
-- 
2.43.0


From 167dcb6be89cf080b33a8f864bbe9ed4e538777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 23/28] fix: without 128-bit integers, -0 was rejected as an
 int128

---
 src/abieos.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index add4191..e566c6d 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -420,7 +420,9 @@ void from_json(int128& obj, S& stream) {
     if (s.size() && s[0] == '-') {
         decimal_to_binary(obj.data, {s.data() + 1, s.size() - 1});
         negate(obj.data);
-        eosio::check(is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
+        // -0 is 0
+        eosio::check(is_negative(obj.data) || obj.data == int128{}.data,
+                     eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
     } else {
         decimal_to_binary(obj.data, s);
         eosio::check(!is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
-- 
2.43.0


From 7860f18bd4b22c980a9c64623d55d848b716a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 24/28] fix: bin_to_json wrote malformed JSON when a field
 which takes no bytes follows an omitted extension

---
 src/abieos.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index e566c6d..42b8e62 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -938,6 +938,8 @@ inline void bin_to_json(pseudo_object*, bin_to_json_state& state, bool allow_ext
             state.skipped_extension = true;
             return;
         }
+        // nothing may follow an omitted extension, not even a field which takes no bytes
+        eosio::check(!state.skipped_extension, eosio::convert_stream_error(eosio::stream_error::overrun));
         if(stack_entry.position != 0) { state.writer.write(','); };
         to_json(field.name, state.writer);
         state.writer.write(':');
-- 
2.43.0


From 4ff7112e5824faf59d13c7ac43858bfb41e07043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 25/28] fix: floating-point JSON was read with the locale's
 decimal point

---
 include/eosio/from_json.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index eba35aa..c94ad84 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -10,6 +10,10 @@
 #include <vector>
 #include <variant>
 #include <errno.h>
+#include <locale.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
 
 namespace eosio {
 enum class from_json_error {
@@ -478,6 +482,19 @@ void from_json(__int128& result, S& stream) {
 }
 #endif
 
+// strtof and strtod expect the decimal point of the current locale; JSON's is always '.'
+#if defined(__GLIBC__) || defined(__APPLE__)
+inline locale_t c_locale() {
+   static const locale_t loc = newlocale(LC_ALL_MASK, "C", locale_t{});
+   return loc;
+}
+inline float  c_strtof(const char* s, char** end) { return ::strtof_l(s, end, c_locale()); }
+inline double c_strtod(const char* s, char** end) { return ::strtod_l(s, end, c_locale()); }
+#else
+inline float  c_strtof(const char* s, char** end) { return std::strtof(s, end); }
+inline double c_strtod(const char* s, char** end) { return std::strtod(s, end); }
+#endif
+
 template <typename S>
 void from_json(float& result, S& stream) {
    auto sv = stream.get_string();
@@ -485,7 +502,7 @@ void from_json(float& result, S& stream) {
    std::string s(sv); // strtof expects a null-terminated string
    errno = 0;
    char* end;
-   result = std::strtof(s.c_str(), &end);
+   result = c_strtof(s.c_str(), &end);
    // ERANGE is also reported for subnormals, which are representable
    check( (!errno || (std::isfinite(result) && result != 0)) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
@@ -498,7 +515,7 @@ void from_json(double& result, S& stream) {
    std::string s(sv);
    errno = 0;
    char* end;
-   result = std::strtod(s.c_str(), &end);
+   result = c_strtod(s.c_str(), &end);
    // ERANGE is also reported for subnormals, which are representable
    check( (!errno || (std::isfinite(result) && result != 0)) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
-- 
2.43.0


From 548009b9c2862ffa4da5a0241c8378b2c3e24dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 26/28] fix: built with gcc, malformed JSON was reported as "No
 error"

---
 include/eosio/from_json.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index c94ad84..daa4207 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -198,9 +198,10 @@ class json_token_stream : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>,
    std::reference_wrapper<const json_token> peek_token() {
       if (current_token.type != json_token_type::type_unread)
          return current_token;
-      check( reader.IterativeParseNext<rapidjson::kParseInsituFlag | rapidjson::kParseValidateEncodingFlag |
-                                         rapidjson::kParseIterativeFlag | rapidjson::kParseNumbersAsStringsFlag>(ss, *this),
-            convert_error_to_string_view(reader.GetParseErrorCode()) );
+      // the error code is only known after the call, and arguments are evaluated in any order
+      bool ok = reader.IterativeParseNext<rapidjson::kParseInsituFlag | rapidjson::kParseValidateEncodingFlag |
+                                          rapidjson::kParseIterativeFlag | rapidjson::kParseNumbersAsStringsFlag>(ss, *this);
+      check( ok, convert_error_to_string_view(reader.GetParseErrorCode()) );
       return current_token;
    }
 
-- 
2.43.0


From dd60f1b28ff95101acd0067acfaa6cad6f54ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 27/28] fix: hashed names with non-ASCII text depended on
 whether char is signed

---
 include/eosio/murmur.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/murmur.hpp b/include/eosio/murmur.hpp
index 504e916..52eb1a7 100644
--- a/include/eosio/murmur.hpp
+++ b/include/eosio/murmur.hpp
@@ -5,7 +5,7 @@ namespace {
   {
     uint64_t r = 0;
     for( uint32_t i = 0; i < 8; ++i ) {
-       r |= p[i];
+       r |= static_cast<signed char>(p[i]); // the hash is defined with signed chars
        r <<= 8;
     }
     return r;
-- 
2.43.0


From d361ad1f2ae10693fb865f463995438276d2c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:18 +0000
Subject: [PATCH 28/28] fix: running out of memory while reporting an error
 ended the process

---
 src/abieos.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0127edb..aec7caf 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -38,12 +38,16 @@ auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> declt
     } catch (std::exception& e) {
         if (!catch_all)
             throw;
-        set_error(context, e.what());
+        try {
+            set_error(context, e.what());
+        } catch (...) {
+            context->last_error = "out of memory"; // no memory for the text of the error
+        }
         return errval;
     } catch (...) {
         if (!catch_all)
             throw;
-        set_error(context, "unknown exception");
+        context->last_error = "unknown exception";
         return errval;
     }
 }
-- 
2.43.0

