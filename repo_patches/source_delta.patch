From 980587fced3b0578ad76cc4646fe888cb60c02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 01/10] fix: bitset serialization must not keep stale bits
 already in the output buffer

---
 zpp_bits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..0f92175 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,9 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        for (std::size_t i = 0; i < size_in_bytes; ++i) {
+            data[i] = byte_type{};
+        }
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From d9aa0e8b81f074136a5271b2b637d81a666acd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 02/10] fix: write the size prefix of a protocol message in the
 archive's byte order

---
 zpp_bits.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 0f92175..fe45cde 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2403,10 +2403,14 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            using endian_type = std::conditional_t<endian_aware,
+                                                   endian::swapped,
+                                                   endian::native>;
+            return basic_out<std::span<byte_type, sizeof(SizeType)>,
+                             endian_type>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+                    m_data.data() + size_position, sizeof(SizeType)},
+                endian_type{}}(SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From 746e94954b51a465b9b8acb34a176673ed833ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 03/10] fix: return success after reading a known id variant
 alternative that is not default constructible

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index fe45cde..288ef13 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3005,6 +3005,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From 6c8293bb845a680d2a6c67d4d2fe003a3e2129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 04/10] fix: reject a known id variant that holds another
 alternative instead of dereferencing null

---
 zpp_bits.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 288ef13..a726da9 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2281,10 +2281,13 @@ protected:
         using type = std::remove_cvref_t<decltype(variant)>;
 
         if constexpr (!std::is_void_v<KnownId>) {
-            return serialize_one(
-                *std::get_if<
-                    traits::variant<type>::template index<KnownId::value>()>(
-                    std::addressof(variant)));
+            auto object = std::get_if<
+                traits::variant<type>::template index<KnownId::value>()>(
+                std::addressof(variant));
+            if (!object) [[unlikely]] {
+                return std::errc::invalid_argument;
+            }
+            return serialize_one(*object);
         } else {
             auto variant_index = variant.index();
             if (std::variant_npos == variant_index) [[unlikely]] {
-- 
2.43.0


From 32863f1f298a8c6ee97e92dc7f6901af161cdd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 05/10] fix: protobuf messages are little endian also when the
 output archive is big endian

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a726da9..28ea24d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4710,8 +4710,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little == std::endian::native) ==
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From bf53625ef437a51650a65bf3a6b63e78d23c545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 06/10] fix: reject a size prefixed protocol message that is
 longer than the remaining input

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 28ea24d..b371bf7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3114,6 +3114,10 @@ private:
                 return result;
             }
 
+            if (size > m_data.size() - m_position) [[unlikely]] {
+                return std::errc::result_out_of_range;
+            }
+
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
                 return protocol(*this, item, size);
-- 
2.43.0


From 07b940d44fdd267853b2b17b4d3fff2d25a770f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 07/10] fix: validate the length of packed protobuf fields
 before trusting it

---
 zpp_bits.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index b371bf7..7676292 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5145,10 +5145,30 @@ struct pb
                             return errc{std::errc::message_size};
                         }
                     }
+                    if (length > archive.remaining_data().size())
+                        [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
                 } else {
+                    if (length > archive.remaining_data().size())
+                        [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
                     if constexpr (requires { item.reserve(1); }) {
+                        if constexpr (archive_type::allocation_limit !=
+                                      std::numeric_limits<
+                                          std::size_t>::max()) {
+                            if (length > archive_type::allocation_limit /
+                                             sizeof(orig_value_type))
+                                [[unlikely]] {
+                                return errc{std::errc::message_size};
+                            }
+                        }
                         item.reserve(length);
                     }
 
@@ -5160,6 +5180,10 @@ struct pb
                         }
                     }
 
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
+
                     return errc{};
                 }
             } else {
-- 
2.43.0


From c2f0889512469947ec9b088922c419c352f61318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 08/10] fix: sha1 and sha256 padding must leave room for the
 message length

---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7676292..8504aac 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5379,7 +5379,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5504,7 +5505,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0


From 5266ddf3510ecb47d56d3f859ed81925b0f964b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 09/10] fix: skip the payload of unknown protobuf fields

---
 zpp_bits.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8504aac..18ebe62 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4997,6 +4997,35 @@ struct pb
         return {};
     }
 
+    ZPP_BITS_INLINE constexpr static errc
+    skip_field(auto & archive, wire_type field_type)
+    {
+        std::size_t size{};
+        if (wire_type::varint == field_type) {
+            vuint64_t value;
+            return archive(value);
+        } else if (wire_type::fixed_64 == field_type) {
+            size = sizeof(std::uint64_t);
+        } else if (wire_type::fixed_32 == field_type) {
+            size = sizeof(std::uint32_t);
+        } else if (wire_type::length_delimited == field_type) {
+            vsize_t length;
+            if (auto result = archive(length); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            size = length;
+        } else {
+            return std::errc::protocol_error;
+        }
+
+        if (size > archive.remaining_data().size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        archive.position() += size;
+        return {};
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5009,7 +5038,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
-- 
2.43.0


From d66e7f0c8bb2a8ab410c7b17d65cc616f696af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 10/10] fix: make moving a value_or_errc usable in constant
 expressions

---
 zpp_bits.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 18ebe62..03b39a7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3511,15 +3511,15 @@ struct [[nodiscard]] value_or_errc
         if (other.success()) {
             if constexpr (!std::is_void_v<Type>) {
                 if constexpr (!std::is_reference_v<Type>) {
-                    ::new (std::addressof(m_return_value))
-                        Type(std::move(other.m_return_value));
+                    std::construct_at(std::addressof(m_return_value),
+                                      std::move(other.m_return_value));
                 } else {
                     m_return_value = other.m_return_value;
                 }
             }
         } else {
             m_failure = other.m_failure;
-            std::memcpy(&m_error, &other.m_error, sizeof(m_error));
+            m_error = other.m_error;
         }
     }
 
-- 
2.43.0

