From 8d6d89f21addd0e734a09a483b17b1e0147a0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 01/14] fix: fp_to_json buffer one byte too small for negative
 doubles near 1e23

---
 include/eosio/fpconv.c    |  2 +-
 include/eosio/fpconv.h    | 10 +++++-----
 include/eosio/to_json.hpp |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..c3d9b5e 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -308,7 +308,7 @@ static int filter_special(double fp, char* dest)
     return 3;
 }
 
-int fpconv_dtoa(double d, char dest[24])
+int fpconv_dtoa(double d, char dest[25])
 {
     char digits[18];
 
diff --git a/include/eosio/fpconv.h b/include/eosio/fpconv.h
index 5c9dc78..39aced3 100644
--- a/include/eosio/fpconv.h
+++ b/include/eosio/fpconv.h
@@ -10,8 +10,8 @@
  *
  * Input:
  * fp -> the double to convert, dest -> destination buffer.
- * The generated string will never be longer than 24 characters.
- * Make sure to pass a pointer to at least 24 bytes of memory.
+ * The generated string will never be longer than 25 characters.
+ * Make sure to pass a pointer to at least 25 bytes of memory.
  * The emitted string will not be null terminated.
  *
  * Output:
@@ -21,7 +21,7 @@
  *
  * void print(double d)
  * {
- *      char buf[24 + 1] // plus null terminator
+ *      char buf[25 + 1] // plus null terminator
  *      int str_len = fpconv_dtoa(d, buf);
  *
  *      buf[str_len] = '\0';
@@ -31,9 +31,9 @@
  */
 
 #   ifdef __cplusplus
-extern "C" int fpconv_dtoa(double fp, char dest[24]);
+extern "C" int fpconv_dtoa(double fp, char dest[25]);
 #   else
-int fpconv_dtoa(double fp, char dest[24]);
+int fpconv_dtoa(double fp, char dest[25]);
 #   endif
 
 #endif
diff --git a/include/eosio/to_json.hpp b/include/eosio/to_json.hpp
index 3c62ef9..7eb626a 100644
--- a/include/eosio/to_json.hpp
+++ b/include/eosio/to_json.hpp
@@ -118,7 +118,7 @@ void fp_to_json(double value, S& stream) {
    } else if (std::isnan(value)) {
       stream.write("\"NaN\"", 5);
    } else {
-      small_buffer<24> b; // fpconv_dtoa generates at most 24 characters
+      small_buffer<25> b; // fpconv_dtoa generates at most 25 characters
       int              n = fpconv_dtoa(value, b.pos);
       check( n > 0, convert_stream_error(stream_error::float_error) );
       b.pos += n;
-- 
2.43.0


From 1d36c55659a7df4d33de8b74e34388affea8da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 02/14] fix: base58 maps accept a NUL character as a digit

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 2fffa434a4a80b734b857d39427566f1075b38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 03/14] fix: setting the abi of an already loaded contract had
 no effect

---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..0510105 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 02d3fc7e2ba122a1035251608323a903c440ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 04/14] fix: abieos_bin_to_json lost the contract-not-loaded
 error

---
 src/abieos.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0510105..dab7aaf 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -223,9 +223,8 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
             size = 0;
         context->last_error = "binary decode error";
         auto contract_it = context->contracts.find(::abieos::name{contract});
-        std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From cd400c0eb17a64b4f47f153e7744862af05f20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 05/14] fix: json parse errors were reported as "No error"

---
 include/eosio/from_json.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..3d40c1f 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -193,9 +193,10 @@ class json_token_stream : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>,
    std::reference_wrapper<const json_token> peek_token() {
       if (current_token.type != json_token_type::type_unread)
          return current_token;
-      check( reader.IterativeParseNext<rapidjson::kParseInsituFlag | rapidjson::kParseValidateEncodingFlag |
-                                         rapidjson::kParseIterativeFlag | rapidjson::kParseNumbersAsStringsFlag>(ss, *this),
-            convert_error_to_string_view(reader.GetParseErrorCode()) );
+      // the error code is only known once the parser has run
+      bool ok = reader.IterativeParseNext<rapidjson::kParseInsituFlag | rapidjson::kParseValidateEncodingFlag |
+                                          rapidjson::kParseIterativeFlag | rapidjson::kParseNumbersAsStringsFlag>(ss, *this);
+      check( ok, convert_error_to_string_view(reader.GetParseErrorCode()) );
       return current_token;
    }
 
-- 
2.43.0


From 68ef8526b44330d9d35f323f6e46f92ebfb24006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 06/14] fix: from_bin stored arbitrary bytes in a bool

---
 include/eosio/from_bin.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..f77712c 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -235,7 +235,12 @@ void from_bin(std::tuple<T...>& obj, S& stream) {
 
 template <typename T, typename S>
 void from_bin(T& obj, S& stream) {
-   if constexpr (has_bitwise_serialization<T>()) {
+   if constexpr (std::is_same_v<T, bool>) {
+      // any byte may be received, but a bool may only hold 0 or 1
+      uint8_t byte;
+      stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
+      obj = byte != 0;
+   } else if constexpr (has_bitwise_serialization<T>()) {
       stream.read(reinterpret_cast<char*>(&obj), sizeof(T));
    } else if constexpr (std::is_same_v<serialization_type<T>, void>) {
       for_each_field(obj, [&](auto& member) {
-- 
2.43.0


From 03e25d25b93b571b9ab3ce5db041f97152cd1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 07/14] fix: from_bin sized strings and vectors before checking
 the input

---
 include/eosio/from_bin.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index f77712c..fb787b8 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,10 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
@@ -168,6 +169,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 437ab5e86f1d763bf81b15a01df081cee19b0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 08/14] fix: symbol precision wrapped instead of being rejected

---
 include/eosio/chain_conversions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..3e9ae1f 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -367,11 +367,13 @@ inline std::string symbol_code_to_string(uint64_t v) {
 }
 
 [[nodiscard]] inline bool string_to_symbol(uint64_t& result, const char*& pos, const char* end, bool require_end) {
-   uint8_t precision = 0;
-   bool    found     = false;
+   uint32_t precision = 0;
+   bool     found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
       precision = precision * 10 + (*pos - '0');
-      found     = true;
+      if (precision > 0xff)
+         return false;
+      found = true;
       ++pos;
    }
    if (!found || pos == end || *pos++ != ',')
-- 
2.43.0


From 8783e73fdb869a8b74889f6259dd1a1b8d0822be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 09/14] fix: asset text with too large an amount or precision
 wrapped around

---
 include/eosio/chain_conversions.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 3e9ae1f..5715a82 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -391,23 +391,32 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
-   uint8_t  precision = 0;
+   uint32_t precision = 0;
    bool     negative  = false;
    if (s != end && *s == '-') {
       ++s;
       negative = true;
    }
+   // magnitude of the smallest or largest representable amount
+   const uint64_t limit = negative ? 0x8000'0000'0000'0000ull : 0x7fff'ffff'ffff'ffffull;
+
+   auto add_digit = [&](uint32_t digit) {
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
    while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+      if (!add_digit(*s++ - '0'))
+         return false;
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
-         ++precision;
+         if (!add_digit(*s++ - '0') || ++precision > 0xff)
+            return false;
       }
    }
    if (negative)
-- 
2.43.0


From af5aba0487bcf3bb5b92d12c952708aeceaf43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 10/14] fix: asset_to_string overflowed on the smallest amount

---
 include/eosio/chain_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 5715a82..a58ec8a 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -437,7 +437,7 @@ inline std::string asset_to_string(int64_t amount, uint64_t symbol) {
    std::string result;
    uint64_t    uamount;
    if (amount < 0)
-      uamount = -amount;
+      uamount = -uint64_t(amount);
    else
       uamount = amount;
    uint8_t precision = symbol;
-- 
2.43.0


From 83ea93b9c7cf5ce332dd4eb90781af6a2fce954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 11/14] fix: time text outside the calendar or the
 representable range was accepted

---
 include/eosio/chain_conversions.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index a58ec8a..7fe920d 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -298,7 +298,16 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   if (m < 1 || m > 12 || d < 1 || d > 31 || h > 23 || min > 59 || sec > 59)
+      return false;
+   sys_days       date(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days());
+   year_month_day normalized(date);
+   if (normalized.month() != m || normalized.day() != d)
+      return false; // no such day in that month
+   int64_t seconds = int64_t(date.time_since_epoch().count()) * 86400 + h * 3600 + min * 60 + sec;
+   if (seconds < 0 || seconds > 0xffff'ffff)
+      return false;
+   result = seconds;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
-- 
2.43.0


From 318c8d2b8898c1424270081a432191fd533b6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 12/14] fix: json_to_bin only checked the first missing field
 for being an extension

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..add4191 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -779,7 +779,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
-        if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
+        while (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
             auto& field = fields[stack_entry.position + 1];
             if (!field.type->extension_of() || !allow_extensions) {
                 stack_entry.position = -1;
-- 
2.43.0


From 64370b80660799e485391d4eb55f32595a7f30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 13/14] fix: key text with extra payload bytes was accepted

---
 src/crypto.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..a66ce00 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -95,6 +95,17 @@ std::array<unsigned char, 20> digest_suffix_ripemd160(const Container&... data)
 }
 
 
+// The payload has to fill the key exactly
+template <typename Key>
+Key key_from_bin(const std::vector<char>& bin) {
+    Key key;
+    input_stream stream{bin};
+    from_bin(key, stream);
+    check(stream.remaining() == 0,
+        convert_json_error(from_json_error::expected_key));
+    return key;
+}
+
 template <typename Key>
 Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     std::vector<char> whole;
@@ -106,7 +117,7 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    return key_from_bin<Key>(whole);
 }
 
 template <typename Key>
@@ -172,7 +183,7 @@ private_key eosio::private_key_from_string(std::string_view s) {
         check(whole.size() >= 5, convert_json_error(from_json_error::expected_private_key));
         whole[0] = key_type::k1;
         whole.erase(whole.end() - 4, whole.end());
-        return convert_from_bin<private_key>(whole);
+        return key_from_bin<private_key>(whole);
     }
 }
 
-- 
2.43.0


From 2850ff62dfdd0a81a8d9d398702faa7950315056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 14/14] fix: abieos_set_abi accepted text after the end of the
 abi

---
 src/abieos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index dab7aaf..988556f 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -107,6 +107,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
         std::string abi_copy{abi};
         eosio::json_token_stream stream(abi_copy.data());
         from_json(def, stream);
+        stream.get_end();
         if (!check_abi_version(def.version, error))
             return set_error(context, std::move(error));
         abieos::abi c;
-- 
2.43.0

