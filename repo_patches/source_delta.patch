From 8f2102fc94fcb1787ca12642082e892b5e4a7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 01/55] fix: parse tags of five bytes (field numbers above
 2^25-1)

read_tag/match_tag stopped combining bytes after the fourth, so fields
numbered 33554432 and above were never recognised and over-long tags
decoded to a wrong field number.
---
 include/hpp_proto/binpb/deserialize.hpp | 32 +++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..77c17a0 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -40,6 +40,7 @@ concept is_padded_input_context = is_pb_context<T> && requires { typename T::pad
 
 namespace pb_serializer {
 inline constexpr std::size_t max_varint_bytes = 10;
+inline constexpr std::size_t max_tag_bytes = 5;
 inline constexpr std::size_t packed_varint_count_chunk_bytes = sizeof(std::uint64_t);
 inline constexpr std::uint64_t packed_varint_terminator_mask = 0x8080808080808080ULL;
 inline constexpr std::size_t unknown_enum_buffer_size = max_varint_bytes + max_varint_bytes;
@@ -590,26 +591,37 @@ struct basic_in {
 
   constexpr std::uint32_t read_tag() {
     maybe_advance_region();
-    // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
-    std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    std::uint32_t tag = 0;
+    if (const auto *p = parse_tag(tag); p != nullptr) {
       current.advance_to(p);
-      return static_cast<std::uint32_t>(res);
+      return tag;
     }
     return 0;
   }
 
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
-    std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
-      if (std::cmp_equal(res, tag)) {
-        current.advance_to(p);
-        return true;
-      }
+    std::uint32_t next_tag = 0;
+    if (const auto *p = parse_tag(next_tag); p != nullptr && next_tag == tag) {
+      current.advance_to(p);
+      return true;
     }
     return false;
   }
+
+private:
+  // Parse the tag at the current position without consuming it. Returns the position past the tag or
+  // nullptr if it is not terminated within the current region or takes more than max_tag_bytes bytes.
+  constexpr const byte_type *parse_tag(std::uint32_t &tag) const {
+    // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
+    std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
+    const auto *p = shift_mix_parse_varint<std::uint32_t>(current, res);
+    if (p <= current._end && std::cmp_less_equal(p - current._begin, max_tag_bytes)) {
+      tag = static_cast<std::uint32_t>(res);
+      return p;
+    }
+    return nullptr;
+  }
 };
 // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 
-- 
2.43.0


From cae36c1905b8deef87192cfa69402b3a5e68b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 02/55] fix: retain unknown fields whose tag is not minimally
 encoded

The start of a retained field was found by stepping back the canonical
size of its tag, which lands inside an over-long tag.
---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 77c17a0..13506e3 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -146,6 +146,7 @@ struct basic_in {
   input_buffer_region<Byte> current;
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
+  std::size_t last_tag_size = 0;      // the encoded size of the tag consumed by the latest read_tag()
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
@@ -507,10 +508,10 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // Return an archive positioned at the tag which was just consumed by read_tag().
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -593,6 +594,7 @@ struct basic_in {
     maybe_advance_region();
     std::uint32_t tag = 0;
     if (const auto *p = parse_tag(tag); p != nullptr) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return tag;
     }
@@ -688,7 +690,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
-- 
2.43.0


From ef2b40629eea8a14121839457d73b6d7b6b78d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 03/55] fix: select a closed enum alternative of a oneof that
 holds something else

Assigning through std::get threw bad_variant_access.
---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 13506e3..3f3a0a4 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1261,7 +1261,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From fb5f1f5ea6a0b030eef984d0cc5c933b274ca526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 04/55] fix: check the length of string and bytes views against
 padded input

A length beyond the end of the buffer produced a view past it.
---
 include/hpp_proto/binpb/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 3f3a0a4..89a1b1d 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -845,6 +845,9 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
 template <typename Meta, typename Archive, typename Item>
 constexpr status deserialize_packed_repeated_padded(Meta meta, Item &item, Archive &archive, vuint32_t byte_count) {
   using type = std::remove_reference_t<Item>;
+  if (std::cmp_less(archive.in_avail(), byte_count.value)) [[unlikely]] {
+    return std::errc::bad_message;
+  }
   auto result = archive.read_bytes(byte_count, item);
   if constexpr (concepts::basic_string_view<type>) {
     return !result.ok() || utf8_validation_failed(meta, item) ? std::errc::bad_message : std::errc{};
-- 
2.43.0


From 00e55e0bf14303bd2b84cb7416cc194d2e1857c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 05/55] fix: reject field lengths of 2^32 and more instead of
 truncating them

A length varint of 2^32+n was read as n.
---
 include/hpp_proto/binpb/deserialize.hpp       | 21 +++++++++++++++----
 .../dynamic_message/pb_serializer_ext.hpp     |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 89a1b1d..5bfb2df 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -453,9 +453,22 @@ struct basic_in {
     return {};
   }
 
+  // Read the length of a length delimited field; a value which does not fit 32 bits exceeds any valid input.
+  constexpr status read_length(vuint32_t &len) {
+    vuint64_t value;
+    if (auto result = deserialize(value); !result.ok()) [[unlikely]] {
+      return result;
+    }
+    if (std::cmp_greater(value.value, UINT32_MAX)) [[unlikely]] {
+      return std::errc::bad_message;
+    }
+    len.value = static_cast<std::uint32_t>(value.value);
+    return {};
+  }
+
   constexpr status skip_length_delimited() {
     vuint32_t len;
-    if (auto result = deserialize(len); !result.ok()) [[unlikely]] {
+    if (auto result = read_length(len); !result.ok()) [[unlikely]] {
       return result;
     }
     return skip(len.value);
@@ -831,7 +844,7 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
                          value_type, typename Meta::type>;
 
   vuint32_t byte_count;
-  if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+  if (auto result = archive.read_length(byte_count); !result.ok()) [[unlikely]] {
     return result;
   }
 
@@ -1383,7 +1396,7 @@ constexpr status deserialize(auto &&item, concepts::is_basic_in auto &archive) {
 
 constexpr status deserialize_sized(auto &&item, concepts::is_basic_in auto &archive) {
   vuint32_t len;
-  if (auto result = archive(len); !result.ok()) [[unlikely]] {
+  if (auto result = archive.read_length(len); !result.ok()) [[unlikely]] {
     return result;
   }
   if constexpr (requires { item.is_map_entry(); }) {
@@ -1413,7 +1426,7 @@ constexpr status extract_length_delimited_field(uint32_t number, bytes_view &byt
         return std::errc::bad_message;
       }
       vuint32_t len;
-      if (auto result = archive(len); !result.ok() || len == 0) [[unlikely]] {
+      if (auto result = archive.read_length(len); !result.ok() || len == 0) [[unlikely]] {
         return result;
       }
 
diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..1c75700 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -121,7 +121,7 @@ struct field_deserializer {
       return std::errc::bad_message;
     }
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.read_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
@@ -287,7 +287,7 @@ struct field_deserializer {
   template <typename EncodeType>
   status deserialize_packed_repeated(concepts::resizable auto &&mref) {
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.read_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
-- 
2.43.0


From 7d186656addcd05c1f842ff9c3956b262494ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 06/55] fix: accept uint32 varints of seven to ten bytes

They are valid over-long encodings and already accepted for int32.
---
 include/hpp_proto/binpb/varint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 420a2db..590f8a7 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -212,8 +212,8 @@ template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
     if (shl_and(8, next(), res1, res3)) [[unlikely]] {
       return done2();
     }
-  } else if constexpr (std::same_as<Type, int32_t>) {
-    // An overlong int32 is expected to span the full 10 bytes
+  } else if constexpr (sizeof(Type) == 4) {
+    // An overlong 32 bit integer is expected to span the full 10 bytes
     if (!(next() & 0x80)) [[unlikely]] {
       return done2();
     }
-- 
2.43.0


From 48ff8acfbaa6d7539e1805c053587f84d66ef977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 07/55] fix: truncate sint32 varints to 32 bits before zigzag
 decoding

Bit 32 of an over-wide varint leaked into the sign bit of the value.
---
 include/hpp_proto/binpb/varint.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 590f8a7..703f709 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -326,9 +326,10 @@ template <concepts::varint VarintType>
   int64_t res; // NOLINT(cppcoreguidelines-init-variables)
   if constexpr (varint_encoding::zig_zag == VarintType::encoding) {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    auto ures = static_cast<uint64_t>(res);
-    auto sign = static_cast<int64_t>(ures & 0x1ULL);
-    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<uint64_t>(-sign));
+    // a value wider than the field is truncated before it is zigzag decoded
+    using unsigned_type = std::make_unsigned_t<typename VarintType::value_type>;
+    const auto ures = static_cast<unsigned_type>(res);
+    item = static_cast<VarintType::value_type>((ures >> 1U) ^ (unsigned_type{0} - (ures & 1U)));
     return p;
   } else {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-- 
2.43.0


From 67b35646d827d4b7e5ec68a8e6a5c54559cb12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 08/55] fix: treat undeclared numbers of a required closed enum
 as unknown

They failed the whole message, unlike in optional, repeated and oneof fields.
---
 include/hpp_proto/binpb/deserialize.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 5bfb2df..3fc9b98 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1308,7 +1308,17 @@ constexpr status deserialize_field_by_index(uint32_t tag, concepts::has_meta aut
   if constexpr (Index != UINT32_MAX) {
     using type = std::remove_reference_t<decltype(item)>;
     using Meta = util::field_meta_of<type, Index>::type;
-    return deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    using field_type = std::remove_cvref_t<decltype(Meta::get(item))>;
+    using unknown_fields_type = std::remove_cvref_t<decltype(unknown_fields)>;
+    auto result = deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    // An undeclared number of a closed enum was handed to the unknown fields of the message; extensions have none and
+    // report it to their caller.
+    if constexpr (concepts::is_enum<field_type> && !std::same_as<unknown_fields_type, std::monostate>) {
+      if (result == std::errc::value_too_large) {
+        return {};
+      }
+    }
+    return result;
   } else if (archive.in_avail() > 0) {
     return skip_field(tag, archive, unknown_fields);
   } else {
-- 
2.43.0


From d959ffcac2928be141da76bab8ba078b7220da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 09/55] fix: keep map entries with undeclared closed enum
 values as unknown fields

The undeclared number was stored in the map, though the map's value type
is closed; the entry now goes to the unknown fields as other closed enum
fields do.
---
 include/hpp_proto/binpb/deserialize.hpp | 55 ++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 3fc9b98..e7f3141 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -932,14 +932,51 @@ constexpr status deserialize_packed_repeated_with_byte_count(concepts::resizable
   }
 }
 
+// Is Meta the meta of a map whose mapped type is a closed enum?
+template <typename Meta>
+constexpr bool is_closed_enum_map() {
+  if constexpr (concepts::is_map_entry<typename Meta::type>) {
+    return std::tuple_element_t<1, typename Meta::type::mutable_type::pb_meta>::closed_enum();
+  } else {
+    return false;
+  }
+}
+
+// Deserialize one map entry. An entry whose value is not declared by its closed enum is moved to the unknown fields and
+// `is_known` is cleared.
+template <typename Meta>
+constexpr status deserialize_map_entry(Meta /*meta*/, auto &entry, concepts::is_basic_in auto &archive,
+                                       [[maybe_unused]] auto &unknown_fields, [[maybe_unused]] bool &is_known) {
+  if constexpr (is_closed_enum_map<Meta>()) {
+    auto unwound_archive = archive.unwind_tag();
+    if (auto result = deserialize_sized(entry, archive); !result.ok()) [[unlikely]] {
+      return result;
+    }
+    is_known = is_valid(static_cast<typename Meta::type::mapped_type>(entry.value.value));
+    if (!is_known) [[unlikely]] {
+      if constexpr (!std::is_empty_v<std::remove_cvref_t<decltype(unknown_fields)>>) {
+        auto entry_len = static_cast<std::size_t>(unwound_archive.in_avail() - archive.in_avail());
+        auto entry_archive = unwound_archive.split(entry_len);
+        return deserialize_unknown_fields(unknown_fields, Meta::number, entry_len, entry_archive);
+      }
+    }
+    return {};
+  } else {
+    return deserialize_sized(entry, archive);
+  }
+}
+
 template <typename Meta, concepts::associative_container V>
-constexpr status deserialize_unpacked_associative_element(Meta /*meta*/, V &v, auto &hint, auto &archive) {
+constexpr status deserialize_unpacked_associative_element(Meta meta, V &v, auto &hint, auto &archive,
+                                                          auto &unknown_fields) {
   using type = std::remove_reference_t<V>;
   using value_type = type::value_type;
   using element_type = Meta::type::mutable_type;
 
   element_type element;
-  if (auto result = deserialize_sized(element, archive); !result.ok()) {
+  bool is_known = true;
+  if (auto result = deserialize_map_entry(meta, element, archive, unknown_fields, is_known);
+      !result.ok() || !is_known) {
     return result;
   }
 
@@ -965,8 +1002,11 @@ constexpr status deserialize_unpacked_sequence_element(Meta meta, uint32_t tag,
   using value_type = type::value_type;
   using element_type = deserialize_element_type<typename Meta::type, value_type>::type;
 
+  [[maybe_unused]] bool is_known = true;
   auto deserialize_element = [&](auto &element) {
-    if constexpr (concepts::has_meta<element_type>) {
+    if constexpr (is_closed_enum_map<Meta>()) {
+      return deserialize_map_entry(meta, element, archive, unknown_fields, is_known);
+    } else if constexpr (concepts::has_meta<element_type>) {
       return deserialize_sized(element, archive);
     } else {
       return deserialize_field(element, meta, tag, archive, unknown_fields);
@@ -990,6 +1030,10 @@ constexpr status deserialize_unpacked_sequence_element(Meta meta, uint32_t tag,
       } else {
         deserialize_unknown_enum(unknown_fields, tag_number(tag), std::to_underlying(element), archive);
       }
+    } else if constexpr (is_closed_enum_map<Meta>()) {
+      if (is_known) {
+        v.push_back(static_cast<value_type>(std::move(element)));
+      }
     } else {
       v[index] = std::move(static_cast<value_type>(std::move(element)));
     }
@@ -1006,7 +1050,8 @@ constexpr status deserialize_unpacked_repeated_elements(Meta meta, uint32_t tag,
 
   for (auto i = old_size; i < new_size; ++i) {
     if constexpr (concepts::associative_container<type>) {
-      if (auto result = deserialize_unpacked_associative_element(meta, v, hint, archive); !result.ok()) {
+      if (auto result = deserialize_unpacked_associative_element(meta, v, hint, archive, unknown_fields);
+          !result.ok()) {
         return result;
       }
     } else {
@@ -1051,7 +1096,7 @@ constexpr status deserialize_unpacked_repeated(Meta meta, uint32_t tag, auto &&i
       v.reserve(new_size);
     }
   } else {
-    if constexpr (meta.closed_enum()) {
+    if constexpr (meta.closed_enum() || is_closed_enum_map<Meta>()) {
       v.reserve(new_size);
     } else if constexpr (requires { v.resize(new_size); }) {
       v.resize(new_size);
-- 
2.43.0


From 055ac2b04f3826e1cc0bc33a4420c983bb147fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 10/55] fix: append_binpb writes after the existing buffer
 content instead of over it

---
 include/hpp_proto/binpb/serialize.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..921e0db 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -556,6 +556,7 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
   if (msg_sz >= max_message_size) {
     return std::errc::value_too_large;
   }
+  [[maybe_unused]] const std::size_t offset = overwrite_buffer ? 0 : std::ranges::size(buffer);
   if (auto resize_status = resize_contiguous_buffer<overwrite_buffer>(buffer, static_cast<std::size_t>(msg_sz));
       !resize_status.ok()) {
     return resize_status;
@@ -568,8 +569,8 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{
+        std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}.subspan(offset)), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From ab013eaccda8d10e2611ff06c6e5dea876a392fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 11/55] fix: refuse a contiguous sink chunk that is smaller
 than the message instead of overrunning it

---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index 921e0db..ee406e9 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -614,8 +614,11 @@ consteval serialization_mode serialization_mode_for_context() {
 
 template <typename T, concepts::out_sink Sink, concepts::is_pb_context Context>
 [[nodiscard]] constexpr status serialize_contiguous_sink(const T &item, Sink &sink, Context &context,
-                                                         std::span<uint32_t> cache) {
+                                                         std::span<uint32_t> cache, std::size_t msg_sz) {
   auto out = sink.next_chunk();
+  if (out.size() < msg_sz) [[unlikely]] {
+    return std::errc::not_enough_memory;
+  }
   contiguous_out archive{out, context};
   auto cache_itr = cache.begin();
   if (!serialize(item, cache_itr, archive)) {
@@ -653,12 +656,12 @@ status serialize(const T &item, Sink &sink, Context &context) {
     sink.set_message_size(msg_sz);
 
     if constexpr (mode == serialization_mode::contiguous) {
-      return serialize_contiguous_sink(item, sink, context, cache);
+      return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
     }
 
     if constexpr (mode == serialization_mode::adaptive) {
       if (msg_sz <= sink.chunk_size()) {
-        return serialize_contiguous_sink(item, sink, context, cache);
+        return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
       }
     }
 
-- 
2.43.0


From 4eccb66913cb4aec5c5967fd4948ede3ae97fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 12/55] fix: write to sinks in the documented adaptive mode
 when no mode is given

---
 include/hpp_proto/binpb/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index ee406e9..90e0dc5 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -608,7 +608,7 @@ consteval serialization_mode serialization_mode_for_context() {
   if constexpr (requires { Context::serialization_mode; }) {
     return Context::serialization_mode;
   } else {
-    return hpp_proto::serialization_mode::contiguous;
+    return hpp_proto::serialization_mode::adaptive;
   }
 }
 
-- 
2.43.0


From a91643b80bcca9b17bab286a55ca38d0ee631cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 13/55] fix: honour an explicit [packed = false] of a repeated
 field

---
 include/hpp_proto/descriptor_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index eb07cc9..ebabf52 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -309,8 +309,11 @@ public:
           type == FieldDescriptorProto::Type::TYPE_BYTES || type == FieldDescriptorProto::Type::TYPE_GROUP) {
         return;
       }
-      if (proto_.options.has_value() && proto_.options->packed.has_value() && proto_.options->packed.value()) {
-        field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+      if (proto_.options.has_value() && proto_.options->packed.has_value()) {
+        // an explicit [packed = ...] takes precedence over the syntax default
+        if (proto_.options->packed.value()) {
+          field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+        }
         return;
       }
       if (options_.features->repeated_field_encoding == FeatureSet::RepeatedFieldEncoding::PACKED) {
-- 
2.43.0


From 8fde80e56714bed3255bb8faebaff244ff09924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 14/55] fix: encode negative zero in floating point fields
 without presence

---
 include/hpp_proto/field_types.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index b47652b..a5c9bbe 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -570,6 +570,10 @@ constexpr bool is_default_value(const T &val) {
       return !val.has_value();
     } else if constexpr (std::is_class_v<T>) {
       return false;
+    } else if constexpr (std::floating_point<T>) {
+      // only positive zero is the default; negative zero has to be preserved
+      using bits_type = std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+      return std::bit_cast<bits_type>(val) == 0;
     } else {
       return val == T{};
     }
-- 
2.43.0


From 3394f71ca28f84ee33fb51186fa336247a94f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 15/55] fix: merge appends retained unknown fields instead of
 replacing them

---
 include/hpp_proto/merge.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index ac8e006..b9e4514 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -306,6 +306,14 @@ struct message_merger {
         // Protobuf merge semantics preserve those occurrences in parent-to-child order.
         util::append_range(bytes, data);
       }
+    } else if constexpr (concepts::pb_unknown_fields<T> &&
+                         concepts::contiguous_byte_range<typename T::unknown_fields_range_t>) {
+      // The encoded unknown fields of both messages are kept in parent-to-child order.
+      if (!source.fields.empty()) {
+        bind_empty_container_to_context(dest.fields);
+        decltype(auto) bytes = detail::as_modifiable(ctx, dest.fields);
+        util::append_range(bytes, source.fields);
+      }
     } else {
       perform(dest.fields, source.fields);
     }
-- 
2.43.0


From 5ae042d0d33760419b5c3792c915b9d005469dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 16/55] fix: do not swap maps with different allocators when
 merging

---
 include/hpp_proto/merge.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index b9e4514..a7b198e 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -254,11 +254,30 @@ struct message_merger {
     }
   }
 
+  // Containers can only be swapped when their allocators do not differ.
+  template <typename T>
+  static constexpr bool swappable(const T &lhs, const T &rhs) {
+    if constexpr (requires { lhs.get_allocator() == rhs.get_allocator(); }) {
+      return lhs.get_allocator() == rhs.get_allocator();
+    } else if constexpr (requires { lhs.keys().get_allocator() == rhs.keys().get_allocator(); }) {
+      return lhs.keys().get_allocator() == rhs.keys().get_allocator() &&
+             lhs.values().get_allocator() == rhs.values().get_allocator();
+    } else {
+      return true;
+    }
+  }
+
   template <typename T, typename U>
     requires requires { typename T::mapped_type; }
   constexpr void insert_or_replace(T &dest, const U &source) {
     T tmp;
     bind_empty_container_to_context(tmp);
+    if (!swappable(tmp, dest)) {
+      for (const auto &[key, value] : source) {
+        dest.insert_or_assign(typename T::key_type(key), typename T::mapped_type(value));
+      }
+      return;
+    }
     tmp.swap(dest);
     if constexpr (std::same_as<T, U>) {
       dest = source;
@@ -279,6 +298,12 @@ struct message_merger {
     // After this swap, `source` holds the previous contents of `dest`.
     // The reinsertion below intentionally uses that moved-from object as the
     // temporary buffer for restoring the old entries.
+    if (!swappable(source, dest)) {
+      for (auto &&[key, value] : source) {
+        dest.insert_or_assign(typename T::key_type(key), typename T::mapped_type(std::move(value)));
+      }
+      return;
+    }
     source.swap(dest);
     if constexpr (requires { dest.insert(sorted_unique, source.begin(), source.end()); }) {
       // flat_map
-- 
2.43.0


From f48b3983ce14473c6f6b95f5bd1ca59cf4f48084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 17/55] fix: merge non-owning messages with repeated or
 recursive message fields

---
 include/hpp_proto/merge.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index a7b198e..91cf336 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -147,7 +147,17 @@ struct message_merger {
 
   template <concepts::optional T, typename U>
   constexpr void perform(T &dest, U &&source) {
-    if constexpr (concepts::has_meta<typename T::value_type>) {
+    if constexpr (concepts::optional_indirect_view<T>) {
+      if (source.has_value()) {
+        // The message viewed by `dest` is not owned by it: merge into a copy.
+        using message_t = std::remove_cvref_t<decltype(*dest)>;
+        void *const buffer = ctx.memory_resource().allocate(sizeof(message_t), alignof(message_t));
+        auto *merged = dest.has_value() ? new (buffer) message_t(*dest) // NOLINT(cppcoreguidelines-owning-memory)
+                                        : new (buffer) message_t;       // NOLINT(cppcoreguidelines-owning-memory)
+        perform(*merged, *source);
+        dest = merged;
+      }
+    } else if constexpr (concepts::has_meta<typename T::value_type>) {
       if (source.has_value()) {
         if (!dest.has_value()) {
           perform(dest.emplace(), *std::forward<U>(source));
@@ -200,10 +210,11 @@ struct message_merger {
   constexpr void perform(T &dest, const U &source) {
     bind_empty_container_to_context(dest);
     if constexpr (concepts::has_meta<typename T::value_type>) {
+      decltype(auto) messages = detail::as_modifiable(ctx, dest);
       auto original_size = dest.size();
-      dest.resize(original_size + source.size());
+      messages.resize(original_size + source.size());
       for (std::size_t i = 0; i < source.size(); ++i) {
-        perform(dest[original_size + i], source[i]);
+        perform(messages[original_size + i], source[i]);
       }
       return;
     }
-- 
2.43.0


From b23ca0cec633eec2600d0eb6a4a832e6d0651bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 18/55] fix: initialise required enum fields to the first
 declared value

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f842518..4f737d6 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -835,7 +835,7 @@ struct code_generator {
       field.is_closed_enum = enum_d->is_closed();
       if (!field.proto().default_value.empty()) {
         field.set_enum_default_value(field.proto(), diagnostics);
-      } else if (field.proto().label == FieldDescriptorProto::Label::LABEL_OPTIONAL) {
+      } else if (field.proto().label != FieldDescriptorProto::Label::LABEL_REPEATED) {
         const auto proto_default_value = cpp_identifier(enum_d->proto().value[0].name, diagnostics);
         field.default_value = cpp::format("{}::{}", field.cpp_field_type, proto_default_value);
         field.default_value_template_arg = cpp::format("{}::{}", field.qualified_cpp_field_type, proto_default_value);
-- 
2.43.0


From 452273c43d9340e8d09de6b04b5195cd30ee769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 19/55] fix: flat_map::erase keeps the containers' allocators

---
 include/hpp_proto/flat_map.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b323cc1..ce59778 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -851,7 +851,9 @@ public:
   iterator erase(iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    // the copy is swapped with the original, which requires equal allocators
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -863,7 +865,9 @@ public:
   iterator erase(const_iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    // the copy is swapped with the original, which requires equal allocators
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -886,7 +890,9 @@ public:
     auto vfirst = first.private_impl_getmapped();
     auto klast = last.private_impl_getkey();
     auto vlast = last.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    // the copy is swapped with the original, which requires equal allocators
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut =
         copy.keys.erase(copy.keys.begin() + (kfirst - c_.keys.begin()), copy.keys.begin() + (klast - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vfirst - c_.values.begin()),
-- 
2.43.0


From fc8d57c85c44f2144027ee9de906cd2779e19bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 20/55] fix: flat_map::crbegin/crend are not swapped

---
 include/hpp_proto/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index ce59778..3ad941b 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -587,8 +587,8 @@ public:
   reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
   const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
 
-  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(begin()); }
-  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(begin()); }
 
 #if __cplusplus >= 201703L
   [[nodiscard]]
-- 
2.43.0


From ba07d14312c0dc3e4d4b262e707d00d969ce4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 21/55] fix: optional_indirect move assignment from a holder
 inside the owned object used freed memory

---
 include/hpp_proto/optional_indirect.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..244b4a3 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -102,23 +102,32 @@ public:
       return *this;
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      // other may be part of the currently owned object
+      auto new_alloc = std::move(other.alloc_);
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(new_alloc);
+      obj_ = new_obj;
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      // other may be part of the currently owned object
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = new_obj;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        // other may be part of the currently owned object
+        auto new_obj = std::exchange(other.obj_, nullptr);
         reset();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = new_obj;
         return *this;
       }
       if (other.obj_) {
         if (obj_) {
-          *raw_ptr() = std::move(*other.raw_ptr());
+          // other may be part of the currently owned object
+          T new_value(std::move(*other.raw_ptr()));
+          *raw_ptr() = std::move(new_value);
         } else {
           emplace(std::move(*other.raw_ptr()));
         }
-- 
2.43.0


From 364ef2c84de172d45703ae4f69ca9f7215ba5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 22/55] fix: copying, assigning or swapping a moved-from
 indirect dereferenced a null pointer

---
 include/hpp_proto/indirect.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..c817fae 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -48,12 +48,12 @@ public:
 
   constexpr indirect(const indirect &other)
       : alloc_(allocator_traits::select_on_container_copy_construction(other.alloc_)),
-        obj_(allocate_construct(*other.raw_ptr())) {}
+        obj_(allocate_copy(other)) {}
   constexpr indirect(indirect &&other) noexcept(std::is_nothrow_move_constructible_v<allocator_type>)
       : alloc_(std::move(other.alloc_)), obj_(std::exchange(other.obj_, nullptr)) {}
 
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, const indirect &other)
-      : alloc_(std::move(alloc)), obj_(allocate_construct(*other.raw_ptr())) {}
+      : alloc_(std::move(alloc)), obj_(allocate_copy(other)) {}
 
   // NOLINTNEXTLINE(cppcoreguidelines-rvalue-reference-param-not-moved)
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, indirect &&other)
@@ -77,12 +77,14 @@ public:
         if (alloc_ != other.alloc_) {
           destroy();
           alloc_ = other.alloc_;
-          obj_ = allocate_construct(*other.raw_ptr());
+          obj_ = allocate_copy(other);
           return *this;
         }
         alloc_ = other.alloc_;
       }
-      if (obj_) {
+      if (other.obj_ == nullptr) {
+        destroy();
+      } else if (obj_) {
         *raw_ptr() = *other.raw_ptr();
       } else {
         obj_ = allocate_construct(*other.raw_ptr());
@@ -131,7 +133,9 @@ public:
         obj_ = std::exchange(other.obj_, nullptr);
         return *this;
       }
-      if (obj_) {
+      if (other.obj_ == nullptr) {
+        destroy();
+      } else if (obj_) {
         *raw_ptr() = std::move(*other.raw_ptr());
       } else {
         obj_ = allocate_construct(std::move(*other.raw_ptr()));
@@ -191,8 +195,14 @@ public:
     } else {
       if (alloc_ == other.alloc_) {
         swap(obj_, other.obj_);
-      } else {
+      } else if (obj_ && other.obj_) {
         swap(*raw_ptr(), *other.raw_ptr());
+      } else if (obj_) {
+        other.obj_ = other.allocate_construct(std::move(*raw_ptr()));
+        destroy();
+      } else if (other.obj_) {
+        obj_ = allocate_construct(std::move(*other.raw_ptr()));
+        other.destroy();
       }
     }
   }
@@ -226,6 +236,11 @@ private:
     return p;
   }
 
+  // a holder which was moved from has no object; its copy has none either
+  constexpr pointer allocate_copy(const indirect &other) {
+    return other.obj_ ? allocate_construct(*other.raw_ptr()) : pointer(nullptr);
+  }
+
   constexpr void destroy() noexcept {
     if (obj_) {
       allocator_traits::destroy(alloc_, std::to_address(obj_));
-- 
2.43.0


From 321040713023cbda718a0ef8ca42e2ffd40aa7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 23/55] fix: base64 decoding accepted invalid characters and
 misplaced padding in the last quartet

---
 include/hpp_proto/json/base64.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/json/base64.hpp b/include/hpp_proto/json/base64.hpp
index c0ba9c7..d96f45d 100644
--- a/include/hpp_proto/json/base64.hpp
+++ b/include/hpp_proto/json/base64.hpp
@@ -186,7 +186,7 @@ struct base64 {
         return false;
       }
 
-      uint32_t const triple = (a << 18U) + (b << 12U) + (c << 6U) + d;
+      uint32_t const triple = (a << 18U) + (b << 12U) + ((c & 63U) << 6U) + (d & 63U);
       write_decoded_bytes(triple, decoded, j, len);
     }
     // NOLINTEND(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -203,15 +203,15 @@ struct base64 {
         if (source_begin != source_end) {
           return false; // padding must be at the end
         }
-        if (c != 64 || d != 64) {
-          return false; // should not happen with '='
+        if ((a | b) >= 64) {
+          return false; // only the last two characters can be padding
         }
       } else if (ch_d == '=') { // XYZ=
         if (source_begin != source_end) {
           return false;
         }
-        if (d != 64) {
-          return false;
+        if ((a | b | c) >= 64) {
+          return false; // only the last character can be padding
         }
       } else {
         return false; // Not a valid padding sequence or invalid char
-- 
2.43.0


From 158f0292352fbbdf1fbe49b6dabda4580aea0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 24/55] fix: timestamp parsing accepted negative zero in place
 of digits

---
 include/hpp_proto/json/timestamp_codec.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/json/timestamp_codec.hpp b/include/hpp_proto/json/timestamp_codec.hpp
index 506cec4..04d02ab 100644
--- a/include/hpp_proto/json/timestamp_codec.hpp
+++ b/include/hpp_proto/json/timestamp_codec.hpp
@@ -51,6 +51,9 @@ private:
       return false;
     }
     const auto *const next = std::next(ptr, width);
+    if (*ptr == '-') { // from_chars would take it as a sign
+      return false;
+    }
     auto res = std::from_chars(ptr, next, val);
     if (res.ec != std::errc{} || res.ptr != next) {
       return false;
@@ -97,7 +100,7 @@ private:
     ptr = std::next(ptr);
 
     const std::string_view nanos_sv{ptr, static_cast<std::size_t>(std::distance(ptr, end))};
-    if (nanos_sv.empty() || nanos_sv.length() > 9) {
+    if (nanos_sv.empty() || nanos_sv.length() > 9 || nanos_sv.starts_with('-')) {
       return false;
     }
 
-- 
2.43.0


From ae7ef0ad9ac23183442067463a6a0d3db049814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 25/55] fix: timestamp parsing accepts UTC offsets as the
 protobuf JSON mapping prescribes

---
 include/hpp_proto/json/timestamp_codec.hpp | 37 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/json/timestamp_codec.hpp b/include/hpp_proto/json/timestamp_codec.hpp
index 04d02ab..81035d8 100644
--- a/include/hpp_proto/json/timestamp_codec.hpp
+++ b/include/hpp_proto/json/timestamp_codec.hpp
@@ -40,10 +40,33 @@ public:
   }
 
 private:
+  constexpr static int64_t min_seconds = -62'135'596'800LL; // 0001-01-01T00:00:00Z
+  constexpr static int64_t max_seconds = 253'402'300'799LL; // 9999-12-31T23:59:59Z
+
   struct separator {
     char value;
   };
 
+  // removes the UTC offset "+hh:mm" or "-hh:mm" at the end of sv
+  static bool remove_offset(std::string_view &sv, int32_t &seconds) {
+    constexpr std::size_t offset_length = std::string_view{"+hh:mm"}.size();
+    if (sv.size() < offset_length) {
+      return false;
+    }
+    const auto offset = sv.substr(sv.size() - offset_length);
+    const char *ptr = std::next(offset.data());
+    const char *end = std::next(offset.data(), static_cast<std::ptrdiff_t>(offset.size()));
+    int32_t hh = 0;
+    int32_t mm = 0;
+    if ((offset[0] != '+' && offset[0] != '-') || !parse_with_separator(ptr, end, hh, 2, separator{':'}) ||
+        !parse_with_separator(ptr, end, mm, 2, separator{'\0'}) || hh > 23 || mm > 59) {
+      return false;
+    }
+    seconds = ((hh * 60) + mm) * (offset[0] == '-' ? -60 : 60);
+    sv.remove_suffix(offset_length);
+    return true;
+  }
+
   static bool parse_with_separator(const char *&ptr, const char *end, int32_t &val, std::ptrdiff_t width,
                                    separator sep) {
     const auto remaining = std::distance(ptr, end);
@@ -163,7 +186,7 @@ public:
       return -1;
     }
 
-    if (value.seconds < -62'135'596'800LL || value.seconds > 253'402'300'799LL) {
+    if (value.seconds < min_seconds || value.seconds > max_seconds) {
       return -1;
     }
 
@@ -191,10 +214,12 @@ public:
 
   static bool decode(auto &&json, auto &&value, [[maybe_unused]] auto &ctx) {
     std::string_view sv = json;
-    if (sv.empty() || sv.back() != 'Z') [[unlikely]] {
+    int32_t offset_seconds = 0;
+    if (sv.ends_with('Z')) {
+      sv.remove_suffix(1);
+    } else if (!remove_offset(sv, offset_seconds)) [[unlikely]] {
       return false;
     }
-    sv.remove_suffix(1); // Remove 'Z'
 
     const char *ptr = sv.data();
     const char *end = std::next(ptr, static_cast<std::ptrdiff_t>(sv.size()));
@@ -215,7 +240,11 @@ public:
     if (!ymd.ok()) {
       return false;
     }
-    value.seconds = (sys_days(ymd) + hours(hh) + minutes(mn) + seconds(ss)).time_since_epoch().count();
+    value.seconds =
+        (sys_days(ymd) + hours(hh) + minutes(mn) + seconds(ss - offset_seconds)).time_since_epoch().count();
+    if (value.seconds < min_seconds || value.seconds > max_seconds) {
+      return false;
+    }
 
     return parse_fractional_nanos(ptr, end, value.nanos);
   }
-- 
2.43.0


From e4b1a52d635930413f05339a78ba087f648b0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 26/55] fix: dynamic messages keep the sign of a negative zero
 in implicit-presence fields

---
 .../dynamic_message/pb_serializer_ext.hpp      |  2 +-
 .../dynamic_message/scalar_fields.hpp          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index 1c75700..bb4a581 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -74,7 +74,7 @@ struct field_deserializer {
     if (auto ec = deserialize(value, mref.descriptor()); !ec.ok()) [[likely]] {
       return ec;
     }
-    if (mref.descriptor().resolved_info().explicit_presence() || value != mref.default_value()) {
+    if (mref.descriptor().resolved_info().explicit_presence() || !mref.is_default(value)) {
       mref.set(value);
     } else {
       mref.reset();
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a6eda1c..88f51ed 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -22,6 +22,10 @@
 
 #pragma once
 
+#include <array>
+#include <bit>
+#include <concepts>
+#include <cstddef>
 #include <expected>
 #include <memory_resource>
 #include <type_traits>
@@ -76,11 +80,22 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const {
     if (has_value()) {
       return descriptor().resolved_info().explicit_presence() ||
-             access_storage().content != descriptor_->template default_value_as<value_type>();
+             !is_default(access_storage().content);
     }
     return false;
   }
 
+  /// Floating point values are compared by representation: negative zero is not the default.
+  [[nodiscard]] bool is_default(value_type value) const {
+    const auto default_value = this->default_value();
+    if constexpr (std::floating_point<value_type>) {
+      return std::bit_cast<std::array<std::byte, sizeof(value_type)>>(value) ==
+             std::bit_cast<std::array<std::byte, sizeof(value_type)>>(default_value);
+    } else {
+      return value == default_value;
+    }
+  }
+
   template <typename U>
   [[nodiscard]] std::expected<typename get_traits<U>::type, dynamic_message_errc> get() const {
     if constexpr (std::same_as<U, value_type>) {
@@ -166,6 +181,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
+  [[nodiscard]] bool is_default(value_type value) const { return cref().is_default(value); }
   void reset() noexcept { access_storage().selection = 0; }
   void set_as_default() const { set(default_value()); }
 
-- 
2.43.0


From 5d544fced91999bf4feff2faf76a654167703cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 27/55] fix: resetting a dynamic field restores its default and
 leaves oneof siblings alone

---
 .../hpp_proto/dynamic_message/bytes_fields.hpp   |  5 +----
 .../hpp_proto/dynamic_message/enum_fields.hpp    |  2 +-
 include/hpp_proto/dynamic_message/field_refs.hpp |  8 +++++++-
 .../hpp_proto/dynamic_message/message_fields.hpp |  5 ++---
 .../hpp_proto/dynamic_message/scalar_fields.hpp  |  2 +-
 include/hpp_proto/dynamic_message/storage.hpp    | 16 +++++++---------
 .../hpp_proto/dynamic_message/string_fields.hpp  |  5 +----
 7 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index f51dae2..241b2fe 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -171,10 +171,7 @@ public:
 
   void set_as_default() const noexcept { adopt(default_value()); }
 
-  void reset() const noexcept {
-    storage_->of_bytes.size = 0;
-    storage_->of_bytes.selection = 0;
-  }
+  void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
 
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index fcbc1e4..ff811db 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -276,7 +276,7 @@ public:
   }
   [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
 
-  void reset() const noexcept { storage_->of_int32.selection = 0; }
+  void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const enum_descriptor_t &enum_descriptor() const noexcept {
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index 27250cf..9f13b45 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -138,7 +138,13 @@ public:
 
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
-  void reset() noexcept { storage_->reset(); }
+  void reset() const noexcept {
+    // a oneof member that is not active shares its storage with the active one
+    const uint32_t word = value_storage::selection_word(*storage_);
+    if (word == 0 || descriptor().resolved_info().has_value(word)) {
+      storage_->reset();
+    }
+  }
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] field_kind_t field_kind() const noexcept { return cref().field_kind(); }
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index d2a05f5..78d0871 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -439,8 +439,7 @@ public:
 
   void clear_field(const field_descriptor_t &desc) const noexcept {
     assert(desc.parent_message() == descriptor_);
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-union-access)
-    storage_for(desc).reset();
+    field(desc).reset();
   }
 
   void clear_field(const oneof_descriptor_t &desc) const noexcept {
@@ -651,7 +650,7 @@ public:
     return cref().get<U>();
   }
 
-  void reset() const noexcept { storage_->of_message.selection = 0; }
+  void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const message_descriptor_t &message_descriptor() const noexcept {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 88f51ed..923480f 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -182,7 +182,7 @@ public:
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
   [[nodiscard]] bool is_default(value_type value) const { return cref().is_default(value); }
-  void reset() noexcept { access_storage().selection = 0; }
+  void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
   void set_as_default() const { set(default_value()); }
 
   value_type &emplace() const noexcept { // NOLINT(modernize-use-nodiscard)
diff --git a/include/hpp_proto/dynamic_message/storage.hpp b/include/hpp_proto/dynamic_message/storage.hpp
index cebec90..8885839 100644
--- a/include/hpp_proto/dynamic_message/storage.hpp
+++ b/include/hpp_proto/dynamic_message/storage.hpp
@@ -86,15 +86,13 @@ union value_storage {
   [[nodiscard]] bool selection_matches(uint32_t ordinal) const noexcept { return selection_word(*this) == ordinal; }
 
   [[nodiscard]] bool has_value() const noexcept { return selection_word(*this) != 0; }
-  void reset() noexcept {
-    // Similar to has_value(), we use memcpy to avoid undefined behavior when
-    // writing to an inactive union member.
-    static_assert(offsetof(scalar_storage_base<bool>, selection) == offsetof(repeated_storage_base<bool>, size));
-    constexpr std::size_t selection_offset = offsetof(scalar_storage_base<bool>, selection);
-    auto raw_bytes = std::bit_cast<std::array<std::byte, sizeof(value_storage)>>(*this);
-    constexpr uint32_t zero = 0;
-    std::memcpy(&raw_bytes[selection_offset], &zero, sizeof(zero));
-    *this = std::bit_cast<value_storage>(raw_bytes);
+  void reset() noexcept { *this = value_storage{}; }
+
+  /// Reset the field selected by `ordinal`, unless a sibling in the same oneof occupies the slot.
+  void reset_if_selected(uint32_t ordinal) noexcept {
+    if (selection_matches(ordinal)) {
+      reset();
+    }
   }
 };
 } // namespace hpp_proto
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 19e01e0..4065293 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -170,10 +170,7 @@ public:
 
   void set_as_default() const noexcept { adopt(default_value()); }
 
-  void reset() const noexcept {
-    storage_->of_string.size = 0;
-    storage_->of_string.selection = 0;
-  }
+  void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
 
-- 
2.43.0


From 501ff44f329e7bce1ec12cc23a8519f3652bb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 28/55] fix: cloning or aliasing an absent dynamic field makes
 the destination absent

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp   |  8 +++++++-
 include/hpp_proto/dynamic_message/enum_fields.hpp    |  6 +++++-
 include/hpp_proto/dynamic_message/field_refs.hpp     |  6 +++++-
 include/hpp_proto/dynamic_message/message_fields.hpp |  8 +++++++-
 include/hpp_proto/dynamic_message/scalar_fields.hpp  | 10 ++++++++--
 include/hpp_proto/dynamic_message/string_fields.hpp  |  8 +++++++-
 6 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 241b2fe..5ab4044 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -149,7 +149,13 @@ public:
     storage_->of_bytes.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index ff811db..8ebc7d0 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -252,7 +252,11 @@ public:
 
   void alias_from(const cref_type &other) const noexcept {
     assert(this->descriptor_ == &other.descriptor());
-    storage_->of_int32 = other.storage_->of_int32;
+    if (other.has_value()) {
+      storage_->of_int32 = other.storage_->of_int32;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const noexcept {
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index 9f13b45..e39cde0 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -165,7 +165,11 @@ public:
   auto visit(auto &&v) const;
   void alias_from(const field_mref &other) const noexcept {
     assert(this->descriptor_ == other.descriptor_);
-    *storage_ = *other.storage_;
+    if (other.has_value()) {
+      *storage_ = *other.storage_;
+    } else {
+      reset();
+    }
   }
   void clone_from(const field_cref &other) const;
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index 78d0871..96a409d 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -659,7 +659,13 @@ public:
 
   void alias_from(const message_field_mref &other) const noexcept {
     assert(&message_descriptor() == &other.message_descriptor());
-    storage_->of_message = other.storage_->of_message;
+    if (other.has_value()) {
+      storage_->of_message = {.content = other.storage_->of_message.content,
+                              .size = 0,
+                              .selection = descriptor_->resolved_info().selection_ordinal()};
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 923480f..e445b5e 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -170,8 +170,14 @@ public:
     storage.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { set(other.value()); }
-  void clone_from(scalar_field_cref<T, Kind> other) const { set(other.value()); }
+  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { clone_from(other); }
+  void clone_from(scalar_field_cref<T, Kind> other) const noexcept {
+    if (other.has_value()) {
+      set(other.access_storage().content);
+    } else {
+      reset();
+    }
+  }
 
   [[nodiscard]] cref_type cref() const noexcept { return {*descriptor_, *storage_}; }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 4065293..f47e5b7 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -148,7 +148,13 @@ public:
     storage_->of_string.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
-- 
2.43.0


From 8c7a0d85fdd21fdd3dbf0ddd779feb1d8217ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 29/55] fix: cloning a dynamic message copies every field when
 it has oneofs

---
 .../hpp_proto/dynamic_message/message_fields.hpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index 96a409d..c7cd5c1 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -55,6 +55,8 @@ class message_value_cref {
     return field_cref{desc, storage_for(desc)};
   }
   friend class repeated_field_iterator<message_value_cref>;
+  friend class message_value_mref;
+  [[nodiscard]] const value_storage &storage() const noexcept { return *storage_; }
   using reference = field_cref;
 
 public:
@@ -479,8 +481,12 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
-    for (std::size_t i = 0; i < num_slots(); ++i) {
-      fields()[i].clone_from(other.fields()[i]);
+    if (&other.storage() == storage_) {
+      return;
+    }
+    // oneof members share a slot: there can be more fields than slots
+    for (const auto &desc : descriptor_->fields()) {
+      field(desc).clone_from(other.field(desc));
     }
   }
 
@@ -574,6 +580,7 @@ public:
   }
 
 private:
+  friend class message_field_mref;
   const field_descriptor_t *descriptor_;
   const value_storage *storage_;
   [[nodiscard]] std::size_t num_slots() const { return descriptor_->message_field_type_descriptor()->num_slots; }
@@ -670,6 +677,9 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(&this->message_descriptor() == &other.message_descriptor());
+    if (other.storage_ == storage_) {
+      return;
+    }
     if (other.has_value()) {
       emplace().clone_from(*other);
     } else {
-- 
2.43.0


From 55a12a2aa786977b7e2fec219d4dc7961f99b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 30/55] fix: elements added by resizing a dynamic repeated
 field are initialised

---
 include/hpp_proto/dynamic_message/repeated_enum_fields.hpp   | 4 ++--
 include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp b/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
index 4d84732..f27e609 100644
--- a/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
@@ -251,8 +251,8 @@ public:
       reserve(n);
     }
     if (old_size < n) {
-      std::uninitialized_default_construct(std::next(s.content, static_cast<std::ptrdiff_t>(old_size)),
-                                           std::next(s.content, static_cast<std::ptrdiff_t>(n)));
+      std::uninitialized_value_construct(std::next(s.content, static_cast<std::ptrdiff_t>(old_size)),
+                                         std::next(s.content, static_cast<std::ptrdiff_t>(n)));
     }
     s.size = static_cast<uint32_t>(n);
   }
diff --git a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
index e015aed..4a702f1 100644
--- a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
@@ -213,8 +213,8 @@ public:
       reserve(n);
     }
     if (old_size < n) {
-      std::uninitialized_default_construct(std::next(s.content, static_cast<std::ptrdiff_t>(old_size)),
-                                           std::next(s.content, static_cast<std::ptrdiff_t>(n)));
+      std::uninitialized_value_construct(std::next(s.content, static_cast<std::ptrdiff_t>(old_size)),
+                                         std::next(s.content, static_cast<std::ptrdiff_t>(n)));
     }
     s.size = static_cast<uint32_t>(n);
   }
-- 
2.43.0


From ee5bd1cc82c42bb41a7e33491d4df1d7a4234641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 31/55] fix: dynamic messages drop map entries with undeclared
 closed enum values

---
 .../dynamic_message/pb_serializer_ext.hpp     | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index bb4a581..137dd51 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -90,10 +90,10 @@ struct field_deserializer {
     if (auto ec = archive(value); !ec.ok()) [[unlikely]] {
       return ec;
     }
-    if (!mref.descriptor().valid_enum_value(static_cast<int32_t>(value))) [[unlikely]] {
+    mref.set(static_cast<int32_t>(value.value));
+    if (!mref.descriptor().valid_enum_value(mref.number())) [[unlikely]] {
       return std::errc::result_out_of_range;
     }
-    mref.set(static_cast<int32_t>(value.value));
     return std::errc{};
   }
 
@@ -101,7 +101,9 @@ struct field_deserializer {
     int32_t number = 0;
     const enum_value_mref tmp{mref.enum_descriptor(), number};
     auto ec = deserialize(tmp, mref.descriptor());
-    if (ec.ok()) [[likely]] {
+    // the value of a map entry is kept, it decides whether the entry is dropped
+    if (ec.ok() || (ec == std::errc::result_out_of_range && mref.descriptor().parent_message()->is_map_entry()))
+        [[likely]] {
       if (mref.descriptor().resolved_info().explicit_presence() || tmp.number() != mref.default_value().number()) {
         mref.set(tmp);
       } else {
@@ -263,7 +265,8 @@ struct field_deserializer {
     const std::size_t new_size = mref.size() + count;
     mref.resize(new_size);
 
-    for (std::size_t i = old_size; i < new_size; ++i, --count) {
+    auto i = old_size;
+    for (; count > 0; --count) {
       if constexpr (std::same_as<typename MRef::encode_type, typename MRef::value_type>) {
         if (auto ec = this->deserialize(mref[i], mref.descriptor()); !ec.ok()) [[unlikely]] {
           return ec;
@@ -275,15 +278,32 @@ struct field_deserializer {
         }
         mref[i] = v;
       }
+      ++i;
+      if constexpr (std::same_as<MRef, repeated_message_field_mref>) {
+        if (is_unknown_map_entry(mref[i - 1])) [[unlikely]] {
+          mref[--i].reset();
+        }
+      }
       if (count > 1) {
         archive.maybe_advance_region();
         (void)archive.read_tag();
       }
     }
-
+    if (i < new_size) [[unlikely]] {
+      mref.resize(i);
+    }
     return {};
   }
 
+  // A map entry whose value is not declared by its closed enum belongs to the unknown fields.
+  static bool is_unknown_map_entry(message_value_mref entry) {
+    if (!entry.is_map_entry()) {
+      return false;
+    }
+    const auto value = entry.fields()[1].to<enum_field_mref>();
+    return value.has_value() && !value->enum_descriptor().valid_enum_value(value->number());
+  }
+
   template <typename EncodeType>
   status deserialize_packed_repeated(concepts::resizable auto &&mref) {
     vuint32_t byte_count;
-- 
2.43.0


From d7d9b477f1c1b232372fbe7a3b7c2a6adcdc49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 32/55] fix: reading an absent dynamic enum field does not
 overwrite the active oneof member

---
 include/hpp_proto/dynamic_message/enum_fields.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index 8ebc7d0..d2afdf4 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -271,13 +271,7 @@ public:
   [[nodiscard]] bool has_value() const noexcept { return cref().has_value(); }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] enum_value default_value() const noexcept { return cref().default_value(); }
-  // NOLINTNEXTLINE(bugprone-exception-escape)
-  [[nodiscard]] enum_value_mref value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
-      storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
-    }
-    return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
-  }
+  [[nodiscard]] enum_value value() const noexcept { return cref().value(); }
   [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
 
   void reset() const noexcept { storage_->reset_if_selected(descriptor_->resolved_info().selection_ordinal()); }
-- 
2.43.0


From e9995d8a68140c5d4a606330ade34f32772b40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 33/55] fix: the default value of a dynamic bytes field is
 unescaped

---
 include/hpp_proto/descriptor_pool.hpp         | 29 +++++++++++++++++++
 .../dynamic_message/bytes_fields.hpp          |  5 ++--
 .../dynamic_message/factory_addons.hpp        | 10 ++++++-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index ebabf52..b40a148 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -27,6 +27,7 @@
 #include <expected>
 #include <iostream>
 #include <memory_resource>
+#include <string_view>
 #include <system_error>
 #include <type_traits>
 #include <unordered_set>
@@ -65,6 +66,34 @@ template <typename AddOns>
 struct descriptor_pool_addon_context<AddOns, std::void_t<typename AddOns::context_type>> {
   using type = AddOns::context_type;
 };
+
+/// Append the bytes denoted by the C-escaped default value of a bytes field (see FieldDescriptorProto.default_value).
+template <typename String>
+constexpr void unescape_bytes_default(std::string_view escaped, String &result) {
+  constexpr std::string_view short_escapes = "abfnrtv";
+  constexpr std::string_view short_values = "\a\b\f\n\r\t\v";
+  auto is_octal = [](char c) { return c >= '0' && c <= '7'; };
+  while (!escaped.empty()) {
+    if (escaped.front() != '\\' || escaped.size() == 1) {
+      result.push_back(escaped.front());
+      escaped.remove_prefix(1);
+      continue;
+    }
+    escaped.remove_prefix(1);
+    if (is_octal(escaped.front())) {
+      unsigned value = 0;
+      for (int digits = 0; digits < 3 && !escaped.empty() && is_octal(escaped.front()); ++digits) {
+        value = value * 8 + static_cast<unsigned>(escaped.front() - '0');
+        escaped.remove_prefix(1);
+      }
+      result.push_back(static_cast<char>(static_cast<unsigned char>(value)));
+      continue;
+    }
+    const auto pos = short_escapes.find(escaped.front());
+    result.push_back(pos == std::string_view::npos ? escaped.front() : short_values[pos]);
+    escaped.remove_prefix(1);
+  }
+}
 } // namespace detail
 
 template <typename AddOns>
diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 5ab4044..151cf3f 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -61,7 +61,7 @@ public:
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] bytes_view default_value() const noexcept {
-    const auto &v = descriptor_->proto().default_value;
+    const auto v = descriptor_->default_bytes();
     auto bspan = std::as_bytes(std::span{v.data(), v.size()});
     return {bspan.data(), bspan.size()};
   }
@@ -75,8 +75,7 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const noexcept {
     if (has_value()) {
       auto val = std::span{storage_->of_bytes.content, storage_->of_bytes.size};
-      auto default_val = std::as_bytes(std::span{descriptor_->proto().default_value});
-      return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_val);
+      return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_value());
     }
     return false;
   }
diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 32ee519..2f4b0dd 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -126,7 +126,8 @@ struct dynamic_message_factory_addons {
     using type = void;
 
     field_descriptor(Derived &self, [[maybe_unused]] const auto &inherited_options,
-                     [[maybe_unused]] std::pmr::memory_resource *resource) {
+                     [[maybe_unused]] std::pmr::memory_resource *resource)
+        : default_bytes_(resource) {
       set_default_value(self.proto(), resource);
     }
 
@@ -135,6 +136,9 @@ struct dynamic_message_factory_addons {
       return std::get<T>(default_value_);
     }
 
+    /// @brief The unescaped default value of a bytes field.
+    [[nodiscard]] std::string_view default_bytes() const noexcept { return default_bytes_; }
+
     /**
      * @brief Whether this descriptor has storage-backed resolved dynamic-message information.
      * @details Regular message fields have resolved information; unsupported extension descriptors do not.
@@ -166,6 +170,7 @@ struct dynamic_message_factory_addons {
     friend class detail::dynamic_message_factory_impl;
 
     std::variant<bool, int32_t, uint32_t, int64_t, uint64_t, double, float> default_value_;
+    string_t default_bytes_;
     bool default_value_valid_ = true;
     resolved_field_info resolved_info_;
 
@@ -218,6 +223,9 @@ struct dynamic_message_factory_addons {
       case TYPE_BOOL:
         default_value_ = proto.default_value == "true";
         break;
+      case TYPE_BYTES:
+        detail::unescape_bytes_default(proto.default_value, default_bytes_);
+        break;
       default:
         break;
       }
-- 
2.43.0


From 1549ec90e6afbefa77715ea4f9e8b762288b1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 34/55] fix: the plugin unescapes the default values of bytes
 fields

---
 src/protoc-plugin/hpp_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 4f737d6..2087682 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -351,8 +351,10 @@ struct hpp_addons {
 
     void set_bytes_default_value(const FieldDescriptorProto &proto) {
       if (!proto.default_value.empty()) {
+        std::string bytes;
+        ::hpp_proto::detail::unescape_bytes_default(proto.default_value, bytes);
         default_value_template_arg =
-            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{proto.default_value});
+            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{bytes});
         default_value = default_value_template_arg;
       }
     }
-- 
2.43.0


From 1366a78dc8b846e14d1df339cbbc465fbe2ccd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 35/55] fix: converting a string_literal to std::string keeps
 embedded null characters

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index a5c9bbe..a145724 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -536,7 +536,7 @@ struct string_literal {
   // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
   [[nodiscard]] constexpr const char *end() const { return str.data() + size(); }
 
-  explicit operator std::string() const { return std::string{data()}; }
+  explicit operator std::string() const { return std::string{data(), size()}; }
   constexpr operator std::string_view() const { return std::string_view(data(), size()); }
 
   friend constexpr bool operator==(const string_literal &lhs, const std::string &rhs) {
-- 
2.43.0


From dc773d2e88ec481dbfa12f1712ddf867b318614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 36/55] fix: string_field_cref::size agrees with value() for
 absent fields

---
 include/hpp_proto/dynamic_message/string_fields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index f47e5b7..922fbd7 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -61,7 +61,7 @@ public:
     return storage_->selection_matches(descriptor().resolved_info().selection_ordinal());
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
-  [[nodiscard]] std::size_t size() const noexcept { return storage_->of_string.size; }
+  [[nodiscard]] std::size_t size() const noexcept { return value().size(); }
   [[nodiscard]] std::string_view default_value() const noexcept { return descriptor_->proto().default_value; }
 
   [[nodiscard]] std::string_view value() const noexcept {
-- 
2.43.0


From c0d6bc040061bc71b67063d6980db358fbdc66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 37/55] fix: repeated_scalar_field_mref::cref compiles

---
 include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
index 4a702f1..9c1f773 100644
--- a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
@@ -166,7 +166,7 @@ public:
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
   [[nodiscard]] repeated_scalar_field_cref<T, Kind> cref() const noexcept {
-    return repeated_scalar_field_cref<T, Kind>{*descriptor_, access_storage()};
+    return repeated_scalar_field_cref<T, Kind>{*descriptor_, *storage_};
   }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
   [[nodiscard]] operator repeated_scalar_field_cref<T, Kind>() const noexcept { return cref(); }
-- 
2.43.0


From 06f1de3e598739b66c5ac14966287bf06551430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 38/55] fix: map fields and map entries are length-prefixed
 under inherited DELIMITED encoding

---
 include/hpp_proto/descriptor_pool.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index b40a148..7668ee2 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -313,6 +313,12 @@ public:
     [[nodiscard]] bool is_required() const { return has_mask(field_option_bitset_, field_option_mask::MASK_REQUIRED); }
 
     void set_explicit_presence() { field_option_bitset_ |= mask(field_option_mask::MASK_EXPLICIT_PRESENCE); }
+    // Map fields and the fields of map entries are length-prefixed whatever the inherited message_encoding is.
+    void set_length_prefixed() {
+      if (proto_.type == FieldDescriptorProto::Type::TYPE_MESSAGE) {
+        field_option_bitset_ &= static_cast<uint8_t>(~mask(field_option_mask::MASK_DELIMITED));
+      }
+    }
 
   private:
     void setup_presence() {
@@ -930,6 +936,7 @@ private:
         f.type_descriptor_ = desc;
         if (desc->is_map_entry()) {
           f.field_option_bitset_ |= mask(field_option_mask::MASK_MAP_ENTRY);
+          f.set_length_prefixed();
         }
       } else if (f.proto_.type == FieldDescriptorProto::Type::TYPE_ENUM) {
         auto desc = find_type(enum_map_, f.proto_.type_name);
@@ -1257,6 +1264,7 @@ private:
       auto &field = fields_.emplace_back(proto, &descriptor, descriptor.options_, addon_context_, resource_);
       if (descriptor.is_map_entry()) {
         field.set_explicit_presence();
+        field.set_length_prefixed();
       }
       descriptor.fields_.push_back(&field);
       if (proto.oneof_index.has_value()) {
-- 
2.43.0


From 4825338cb7571e7ffd4a7cf4618841903a35cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 39/55] fix: reject a message and an enum of the same fully
 qualified name

---
 include/hpp_proto/descriptor_pool.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index 7668ee2..bd574e5 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -1141,7 +1141,7 @@ private:
       auto &e =
           enums_.emplace_back(proto, !package.empty() ? join_by_dot(package, proto.name) : make_string(proto.name),
                               descriptor.options_, &descriptor, nullptr, addon_context_, resource_);
-      if (!enum_map_.try_emplace(e.full_name(), &e).second) {
+      if (!register_enum(e)) {
         return std::unexpected(descriptor_pool_errc::validation_error);
       }
       descriptor.enums_.push_back(&e);
@@ -1149,6 +1149,17 @@ private:
     return {};
   }
 
+  // Messages and enums share one namespace of fully qualified names.
+  [[nodiscard]] bool register_message(message_descriptor_t &message) {
+    return enum_map_.count(message.full_name()) == 0 &&
+           message_map_.try_emplace(message.full_name(), &message).second;
+  }
+
+  [[nodiscard]] bool register_enum(enum_descriptor_t &enumeration) {
+    return message_map_.count(enumeration.full_name()) == 0 &&
+           enum_map_.try_emplace(enumeration.full_name(), &enumeration).second;
+  }
+
   std::expected<void, descriptor_pool_errc> build(message_descriptor_t &root) {
     std::pmr::vector<message_descriptor_t *> pending{scratch_resource_};
     pending.push_back(&root);
@@ -1162,7 +1173,7 @@ private:
         descriptor.oneofs_.push_back(&oneof);
       }
 
-      if (!message_map_.try_emplace(descriptor.full_name(), &descriptor).second) {
+      if (!register_message(descriptor)) {
         return std::unexpected(descriptor_pool_errc::validation_error);
       }
       descriptor.messages_.reserve(descriptor.proto_.nested_type.size());
@@ -1186,7 +1197,7 @@ private:
         }
         auto &e = enums_.emplace_back(proto, join_by_dot(descriptor.full_name(), proto.name), descriptor.options_,
                                       descriptor.parent_file_, &descriptor, addon_context_, resource_);
-        if (!enum_map_.try_emplace(e.full_name(), &e).second) {
+        if (!register_enum(e)) {
           return std::unexpected(descriptor_pool_errc::validation_error);
         }
         descriptor.enums_.push_back(&e);
-- 
2.43.0


From f9e5843a8df1258279906bdd86159e44db2425f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 40/55] fix: reject bool defaults other than true and false

---
 include/hpp_proto/dynamic_message/factory_addons.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 2f4b0dd..6a598be 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -222,6 +222,8 @@ struct dynamic_message_factory_addons {
         break;
       case TYPE_BOOL:
         default_value_ = proto.default_value == "true";
+        default_value_valid_ =
+            proto.default_value.empty() || proto.default_value == "true" || proto.default_value == "false";
         break;
       case TYPE_BYTES:
         detail::unescape_bytes_default(proto.default_value, default_bytes_);
-- 
2.43.0


From 975e61c6e39dc386a4dc979c1fa1a2e9b8eaa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 41/55] fix: decode a non-owning message with extensions in
 several occurrences

The second occurrence of a message field continues with the extension entries of
the first one, but arena_vector only handed out elements it had allocated itself:
an assertion failure, or a null pointer dereference without assertions.
---
 include/hpp_proto/memory_resource_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/memory_resource_utils.hpp b/include/hpp_proto/memory_resource_utils.hpp
index ef734a4..1f11156 100644
--- a/include/hpp_proto/memory_resource_utils.hpp
+++ b/include/hpp_proto/memory_resource_utils.hpp
@@ -300,8 +300,8 @@ public:
   }
 
   [[nodiscard]] constexpr value_type *data() const {
-    assert(empty() || data_ != nullptr);
-    return data_;
+    // Nothing has been allocated yet: the elements are those the view was given by an earlier arena_vector.
+    return data_ != nullptr ? data_ : const_cast<value_type *>(view_.data());
   }
   constexpr reference operator[](std::size_t n) { return data()[n]; }
   [[nodiscard]] constexpr std::size_t size() const { return view_.size(); }
-- 
2.43.0


From d5ec667868896ff14e13506687538f16c56ed45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 42/55] fix: do not keep a view of a local buffer for
 undeclared closed enum numbers

In a non-owning message with an extension range the retained field referred to
the stack frame that had just encoded it.
---
 include/hpp_proto/binpb/deserialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index e7f3141..f0db617 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -688,10 +688,13 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      bytes_type bytes;
+      decltype(auto) v = detail::as_modifiable(archive.context, bytes);
+      util::append_range(v, field_span);
+      unknown_fields.push_back({field_num, bytes});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From 6b4ce0fa6c41deaf51dd9c9f7c82677b59335bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 43/55] fix: reading an unset extension gives its default

get_from left the extension object as it was when the message does not have the
extension, so that a reused object reported the value of another message.
---
 include/hpp_proto/binpb.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/binpb.hpp b/include/hpp_proto/binpb.hpp
index 46fc8df..c5ae4cd 100644
--- a/include/hpp_proto/binpb.hpp
+++ b/include/hpp_proto/binpb.hpp
@@ -295,18 +295,15 @@ struct extension_base { // NOLINT(bugprone-crtp-constructor-accessibility)
       if (itr != fields.end()) {
         return read_binpb(*static_cast<T *>(this), itr->second, std::forward<decltype(option)>(option)...);
       }
+      *static_cast<T *>(this) = {};
     } else {
       auto &extension = *static_cast<T *>(this);
       pb_context ctx{std::forward<decltype(option)>(option)...};
-      bool found = false;
+      extension = {};
       // Non-owning extension storage can contain multiple entries for one field number.
       // Deserialize them into the same object so protobuf merge ordering is preserved.
       for (const auto &[field_number, data] : fields) {
         if (field_number == number()) {
-          if (!found) {
-            extension = {};
-            found = true;
-          }
           if (auto result = pb_serializer::deserialize(extension, data, ctx); !result.ok()) {
             return result;
           }
-- 
2.43.0


From 131432c6753b0eb6a4f6d061a11ea8557e659359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 44/55] fix: setting an extension replaces its previous value

An extension set to a value without encoding (an empty repeated extension) kept
its previous value, and in non-owning messages every call added another entry, so
that repeated extensions accumulated and the old values were encoded as well.
---
 include/hpp_proto/binpb.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb.hpp b/include/hpp_proto/binpb.hpp
index c5ae4cd..2381520 100644
--- a/include/hpp_proto/binpb.hpp
+++ b/include/hpp_proto/binpb.hpp
@@ -326,11 +326,25 @@ struct extension_base { // NOLINT(bugprone-crtp-constructor-accessibility)
       return result;
     }
 
-    if (data.size()) {
-      if constexpr (concepts::associative_container<fields_type>) {
+    if constexpr (concepts::associative_container<fields_type>) {
+      if (data.size()) {
         fields[number()] = std::move(data);
       } else {
-        detail::as_modifiable(ctx, fields).emplace_back(number(), data);
+        fields.erase(number());
+      }
+    } else {
+      // The current entries may be shared with copies of the message, leave them alone.
+      const fields_type current = fields;
+      fields = fields_type{};
+      decltype(auto) updated = detail::as_modifiable(ctx, fields);
+      updated.reserve(current.size() + 1);
+      for (const auto &entry : current) {
+        if (entry.first != number()) {
+          updated.push_back(entry);
+        }
+      }
+      if (data.size()) {
+        updated.emplace_back(number(), data);
       }
     }
     return {};
-- 
2.43.0


From 9141335e17714c03dc884880c0cbb7efb6b59e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 45/55] fix: singular extensions have presence in generated
 code

An extension set to its default value was neither present nor encoded; only closed
enum extensions had the presence that protobuf gives every singular extension.
---
 src/protoc-plugin/hpp_generator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 2087682..bf8e152 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1658,11 +1658,13 @@ struct hpp_meta_generator : code_generator {
     std::vector<cpp::source_fragment> options;
     using enum google::protobuf::FieldDescriptorProto_::Label;
     const bool is_oneof_alternative = descriptor.proto().oneof_index.has_value();
-    const bool is_optional_closed_enum_extension = descriptor.is_closed_enum &&
-                                                   descriptor.extendee_descriptor() != nullptr &&
-                                                   descriptor.proto().label == LABEL_OPTIONAL;
+    // Singular extensions always have presence, whatever their value. A message is always encoded.
+    const bool is_singular_value_extension =
+        descriptor.extendee_descriptor() != nullptr && descriptor.proto().label == LABEL_OPTIONAL &&
+        descriptor.proto().type != google::protobuf::FieldDescriptorProto_::Type::TYPE_MESSAGE &&
+        descriptor.proto().type != google::protobuf::FieldDescriptorProto_::Type::TYPE_GROUP;
     if (descriptor.is_cpp_optional || descriptor.is_required() || is_oneof_alternative ||
-        is_optional_closed_enum_extension) {
+        is_singular_value_extension) {
       options.emplace_back("::hpp_proto::field_option::explicit_presence");
     } else if (descriptor.is_packed()) {
       options.emplace_back("::hpp_proto::field_option::is_packed");
-- 
2.43.0


From 49009f9fb85421959698cbfe67ddee085a8bb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 46/55] fix: reject unknown fields extending past the end of a
 nested message in chunked input

---
 include/hpp_proto/binpb/deserialize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index f0db617..9700866 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -711,6 +711,10 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
       return result;
     }
 
+    if (archive.in_avail() < 0) [[unlikely]] {
+      return std::errc::bad_message; // the field extends past the end of its enclosing message
+    }
+
     auto field_len = static_cast<std::size_t>(unwound_archive.in_avail() - archive.in_avail());
     auto field_archive = unwound_archive.split(field_len);
 
-- 
2.43.0


From 89925e041e91b4ca630ad6d4e852d5b65e8f0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 47/55] fix: reject field number zero inside skipped groups

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 9700866..aef7e1f 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -723,7 +723,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
 }
 
 constexpr status do_skip_field(uint32_t tag, concepts::is_basic_in auto &archive) {
-  if (tag == 0) [[unlikely]] {
+  if (tag_number(tag) == 0) [[unlikely]] {
     return std::errc::bad_message;
   }
   switch (hpp_proto::tag_type(tag)) {
-- 
2.43.0


From 5c49d55459d646b97668e0bd070956f54c7b9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 48/55] fix: emit message_type_url in the namespace of the
 message so that nested messages can be packed into Any

---
 src/protoc-plugin/hpp_generator.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index bf8e152..279f6d6 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1177,13 +1177,11 @@ struct code_generator {
 
 struct msg_code_generator : code_generator {
   std::string syntax;
-  std::string out_of_class_data;
-  std::back_insert_iterator<std::string> out_of_class_target;
   std::string out_of_ns_data;
   std::back_insert_iterator<std::string> out_of_ns_target;
 
   explicit msg_code_generator(std::vector<CodeGeneratorResponse::File> &files, generation_context &generation)
-      : code_generator(files, generation), out_of_class_target(out_of_class_data), out_of_ns_target(out_of_ns_data) {}
+      : code_generator(files, generation), out_of_ns_target(out_of_ns_data) {}
 
   void process(file_descriptor_t &descriptor) {
     syntax = descriptor.syntax;
@@ -1221,8 +1219,6 @@ struct msg_code_generator : code_generator {
       process(*m, descriptor.proto().package);
     }
 
-    std::ranges::copy(out_of_class_data, target);
-
     if (!ns.empty()) {
       cpp::emit_to(target,
                    "// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,"
@@ -1508,15 +1504,16 @@ struct msg_code_generator : code_generator {
 
     indent_num -= 2;
     format_to(target, "{}}};\n\n", indent());
+    // in the namespace of the message itself, where argument-dependent lookup finds it
+    const cpp::string_literal_bytes type_url{std::string{"type.googleapis.com/"} + descriptor.pb_name};
+    cpp::emit_to(target,
+                 "{0}template <typename Traits>\n"
+                 "{0}constexpr auto message_type_url(const {1}<Traits>& /*unused*/) {{ return "
+                 "::hpp_proto::string_literal<{2}>{{}}; }}\n\n",
+                 source_indent(), descriptor.cpp_name, type_url);
     const auto &qualified_name = descriptor.no_namespace_qualified_name;
     const auto typename_prefix =
         qualified_name.ends_with(">") ? cpp::source_fragment{} : cpp::source_fragment{"typename "};
-    const cpp::string_literal_bytes type_url{std::string{"type.googleapis.com/"} + descriptor.pb_name};
-    cpp::emit_to(out_of_class_target,
-                 "template <typename Traits>\n"
-                 "constexpr auto message_type_url(const {0}{1}& /*unused*/) {{ return "
-                 "::hpp_proto::string_literal<{2}>{{}}; }}\n",
-                 typename_prefix, qualified_name, type_url);
     cpp::emit_to(out_of_ns_target,
                  "template <typename Traits>\n"
                  "struct hpp_proto::is_hpp_generated<{0}{1}> : std::true_type {{}};\n",
-- 
2.43.0


From 01e44aede3ac1fd857f3811ec5e0eb358b5da818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 49/55] fix: make decoding usable in constant expressions
 (packed varints, bools, unpacked repeated fields, unknown fields)

---
 include/hpp_proto/binpb/deserialize.hpp | 16 +++++++++-------
 include/hpp_proto/binpb/util.hpp        |  2 +-
 include/hpp_proto/binpb/varint.hpp      |  2 +-
 include/hpp_proto/field_types.hpp       | 12 ++++++------
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index aef7e1f..7c91ae3 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -86,7 +86,7 @@ struct input_span {
     _begin += N;
   }
 
-  void revert(std::size_t n) { _begin -= n; }
+  constexpr void revert(std::size_t n) { _begin -= n; }
   // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 
   constexpr void advance_to(const value_type *new_pos) { _begin = new_pos; }
@@ -254,7 +254,7 @@ struct basic_in {
   basic_in &operator=(basic_in &&) = default;
   ~basic_in() = default;
 
-  [[nodiscard]] basic_in copy() const { return *this; }
+  [[nodiscard]] constexpr basic_in copy() const { return *this; }
 
   constexpr status deserialize(bool &item) {
     if (auto p = unchecked_parse_bool(current, item); p <= current._end) [[likely]] {
@@ -552,15 +552,17 @@ struct basic_in {
     };
 
     while (data.size()) {
-      uint64_t v = 0;
-      auto bytes = data.consume(sizeof(v));
-      std::memcpy(&v, bytes.data(), sizeof(v));
+      std::array<std::remove_const_t<byte_type>, sizeof(uint64_t)> bytes{};
+      data.consume(bytes);
+      auto v = std::bit_cast<uint64_t>(bytes);
       result += static_cast<std::size_t>(popcount(~v & packed_varint_terminator_mask));
     }
 
     if (remaining.size()) {
-      uint64_t v = UINT64_MAX;
-      std::memcpy(&v, remaining.data(), remaining.size());
+      std::array<std::remove_const_t<byte_type>, sizeof(uint64_t)> bytes{};
+      bytes.fill(static_cast<byte_type>(UINT8_MAX));
+      std::ranges::copy(remaining, bytes.begin());
+      auto v = std::bit_cast<uint64_t>(bytes);
       result += static_cast<std::size_t>(popcount(~v & packed_varint_terminator_mask));
     }
     return result;
diff --git a/include/hpp_proto/binpb/util.hpp b/include/hpp_proto/binpb/util.hpp
index 9e5cc96..a1cdf2f 100644
--- a/include/hpp_proto/binpb/util.hpp
+++ b/include/hpp_proto/binpb/util.hpp
@@ -37,7 +37,7 @@ constexpr uint64_t transform_accumulate(const Range &range, const UnaryOperation
 }
 
 template <typename T, typename Range>
-void append_range(T &v, const Range &range) {
+constexpr void append_range(T &v, const Range &range) {
   if constexpr (requires { v.append_range(range); }) {
     v.append_range(range);
   } else {
diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 703f709..1f6ad7a 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -264,7 +264,7 @@ template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
     // This is the code path almost always taken,
     // so we take care to make it very efficient.
     if constexpr (sizeof(byte) == sizeof(value)) {
-      std::memcpy(&value, &byte, 1);
+      value = std::bit_cast<bool>(byte);
     } else {
       // The C++ standard does not specify that a `bool` takes only one byte
       value = byte;
diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index a145724..a21938e 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -262,14 +262,14 @@ class bool_proxy {
   uint8_t *impl;
 
 public:
-  bool_proxy(uint8_t &v) : impl(&v) {}
+  constexpr bool_proxy(uint8_t &v) : impl(&v) {}
   bool_proxy(const bool_proxy &) = default;
   bool_proxy(bool_proxy &&) = default;
   ~bool_proxy() = default;
-  operator bool() const { return static_cast<bool>(*impl); }
+  constexpr operator bool() const { return static_cast<bool>(*impl); }
   bool_proxy &operator=(const bool_proxy &) = default;
   bool_proxy &operator=(bool_proxy &&) = default;
-  bool_proxy &operator=(bool v) {
+  constexpr bool_proxy &operator=(bool v) {
     *impl = static_cast<uint8_t>(v);
     return *this;
   }
@@ -288,7 +288,7 @@ private:
   static constexpr std::uint8_t empty_state_bit = 0x80U;
   static constexpr std::uint8_t default_state =
       empty_state_bit | static_cast<std::uint8_t>(default_value()); // use high bit to denote empty state
-  bool_proxy deref() { return bool_proxy{impl}; }
+  constexpr bool_proxy deref() { return bool_proxy{impl}; }
   uint8_t impl = default_state;
 
 public:
@@ -304,12 +304,12 @@ public:
   [[nodiscard]] constexpr bool has_value() const noexcept { return (impl & empty_state_bit) == 0; }
   constexpr bool operator*() const noexcept { return value(); }
 
-  bool_proxy emplace() noexcept {
+  constexpr bool_proxy emplace() noexcept {
     impl = static_cast<std::uint8_t>(default_value());
     return deref();
   }
 
-  bool_proxy emplace(bool v) noexcept {
+  constexpr bool_proxy emplace(bool v) noexcept {
     impl = static_cast<std::uint8_t>(v);
     return deref();
   }
-- 
2.43.0


From 151181d2d790d56089b6a40bdb42a5e744686b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 50/55] fix: forward serialization options in client-streaming
 and server-streaming replies

---
 include/hpp_proto/grpc/server.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index de1db72..9fa0d17 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -106,7 +106,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
@@ -131,7 +131,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -142,7 +142,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
@@ -154,7 +154,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
@@ -166,13 +166,13 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     this->finish(reply, ::grpc::WriteOptions{}, ::grpc::Status{},
-                 std::forward<serialization_option>(serialization_option)...);
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<serialization_option>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
@@ -204,7 +204,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -215,7 +215,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
-- 
2.43.0


From 2493a4c336c0b0fe23fd1f07ed3070b751ece261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 51/55] fix: finish a server call exactly once and start
 nothing after it

---
 include/hpp_proto/grpc/server.hpp | 116 ++++++++++++++++++++++++------
 1 file changed, 94 insertions(+), 22 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 9fa0d17..c81a1d0 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include <grpcpp/grpcpp.h>
 #include <grpcpp/impl/service_type.h>
 #include <grpcpp/support/server_callback.h>
@@ -46,12 +48,31 @@ public:
   }
 };
 
+/// Lets the first finish of a call through and drops whatever comes after it: a fallback finish in one callback can
+/// otherwise race with, or follow, a finish by the handler or by another callback, which gRPC treats as fatal.
+template <typename Reactor>
+class FinishOnce : public Reactor {
+  std::atomic<bool> finished_{false};
+
+protected:
+  bool begin_finish() { return !finished_.exchange(true, std::memory_order_acq_rel); }
+  [[nodiscard]] bool finished() const { return finished_.load(std::memory_order_acquire); }
+
+public:
+  void Finish(::grpc::Status s) { // NOLINT(bugprone-derived-method-shadowing-base-method)
+    if (begin_finish()) {
+      Reactor::Finish(std::move(s));
+    }
+  }
+};
+
 template <typename Method, RpcType Type = static_cast<RpcType>(Method::rpc_type)>
 class ServerRPC;
 
 // NOLINTBEGIN(portability-template-virtual-member-function)
 template <typename Method>
-class ServerRPC<Method, RpcType::NORMAL_RPC> : public ::grpc::ServerUnaryReactor {
+class ServerRPC<Method, RpcType::NORMAL_RPC> : public FinishOnce<::grpc::ServerUnaryReactor> {
+  using reactor_t = ::grpc::ServerUnaryReactor;
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer *resp_buf_;
 
@@ -65,27 +86,37 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->begin_finish()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
-    this->Finish(result.ok() ? std::move(s) : std::move(result));
+    reactor_t::Finish(result.ok() ? std::move(s) : std::move(result));
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->begin_finish()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
-    this->Finish(result.ok() ? ::grpc::Status{} : std::move(result));
+    reactor_t::Finish(result.ok() ? ::grpc::Status{} : std::move(result));
   }
 
   void finish(const ::grpc::ByteBuffer &response, ::grpc::Status s = ::grpc::Status{}) {
+    if (!this->begin_finish()) {
+      return;
+    }
     *resp_buf_ = response;
-    this->Finish(std::move(s));
+    reactor_t::Finish(std::move(s));
   }
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public ::grpc::ServerReadReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public FinishOnce<::grpc::ServerReadReactor<::grpc::ByteBuffer>> {
+  using reactor_t = ::grpc::ServerReadReactor<::grpc::ByteBuffer>;
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer *resp_buf_;
@@ -97,7 +128,11 @@ public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer *resp_buf)
       : context_(context), resp_buf_(resp_buf) {}
 
-  void start_read() { this->StartRead(&request_); }
+  void start_read() {
+    if (!this->finished()) {
+      this->StartRead(&request_);
+    }
+  }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
   void finish(::grpc::Status s) { this->Finish(std::move(s)); }
@@ -105,19 +140,26 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<decltype(serialization_option)>(serialization_option)...);
-    this->Finish(std::move(result));
+    if (!this->begin_finish()) {
+      return;
+    }
+    auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
+    reactor_t::Finish(std::move(result));
   }
 
   void finish(const ::grpc::ByteBuffer &response, ::grpc::Status s = ::grpc::Status{}) {
+    if (!this->begin_finish()) {
+      return;
+    }
     *resp_buf_ = response;
-    this->Finish(std::move(s));
+    reactor_t::Finish(std::move(s));
   }
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::SERVER_STREAMING> : public ::grpc::ServerWriteReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::SERVER_STREAMING> : public FinishOnce<::grpc::ServerWriteReactor<::grpc::ByteBuffer>> {
+  using reactor_t = ::grpc::ServerWriteReactor<::grpc::ByteBuffer>;
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer response_;
 
@@ -130,8 +172,11 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
+    if (this->finished()) {
+      return;
+    }
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -146,6 +191,9 @@ public:
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
+    if (this->finished()) {
+      return;
+    }
     response_ = reply;
     this->StartWrite(&response_, options);
   }
@@ -153,12 +201,15 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
+    if (!this->begin_finish()) {
+      return;
+    }
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
-      this->Finish(std::move(result));
+      reactor_t::Finish(std::move(result));
     }
   }
 
@@ -172,11 +223,15 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<decltype(serialization_option)>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{},
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
+    if (!this->begin_finish()) {
+      return;
+    }
     response_ = reply;
     this->StartWriteAndFinish(&response_, options, std::move(s));
   }
@@ -184,7 +239,8 @@ public:
 
 template <typename Method>
 class ServerRPC<Method, RpcType::BIDI_STREAMING>
-    : public ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer> {
+    : public FinishOnce<::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer>> {
+  using reactor_t = ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer>;
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
@@ -195,7 +251,11 @@ protected:
 public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer * /*byte_buffer*/) : context_(context) {}
 
-  void start_read() { this->StartRead(&request_); }
+  void start_read() {
+    if (!this->finished()) {
+      this->StartRead(&request_);
+    }
+  }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
   void finish(::grpc::Status s) { this->Finish(std::move(s)); }
@@ -203,8 +263,11 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
+    if (this->finished()) {
+      return;
+    }
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -219,6 +282,9 @@ public:
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
+    if (this->finished()) {
+      return;
+    }
     response_ = reply;
     this->StartWrite(&response_, options);
   }
@@ -226,12 +292,15 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->begin_finish()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
-      this->Finish(std::move(result));
+      reactor_t::Finish(std::move(result));
     }
   }
 
@@ -251,6 +320,9 @@ public:
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
+    if (!this->begin_finish()) {
+      return;
+    }
     response_ = reply;
     this->StartWriteAndFinish(&response_, options, std::move(s));
   }
-- 
2.43.0


From c641dd3b6484411c1c36bf25754bd0110f36d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 52/55] fix: make add_hold and add_multiple_holds of client
 reactors compile

---
 include/hpp_proto/grpc/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index d87e0e1..18bbdef 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -232,7 +232,7 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddHold(holds);
+    this->AddMultipleHolds(holds);
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
-- 
2.43.0


From d0a40b3f41473f569ac58654db35ac025188a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 53/55] fix: complete a client call whose request cannot be
 serialized once, from start_call, without touching a call that was never made

---
 include/hpp_proto/grpc/client.hpp | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 18bbdef..f3cc6ba 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -140,6 +140,7 @@ class ClientCallbackReactor : public ClientCallbackSelector<static_cast<RpcType>
   using base = ClientCallbackSelector<static_cast<RpcType>(Method::rpc_type)>::reactor;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
+  ::grpc::Status prepare_status_; // if not OK, there is no call: start_call() completes with it
 
 public:
   static const auto rpc_type = static_cast<RpcType>(Method::rpc_type);
@@ -150,12 +151,10 @@ public:
     requires(rpc_type == RpcType::NORMAL_RPC)
   void prepare(const Stub &stub, ::grpc::ClientContext &context, const Method::template request_t<Traits> &req,
                hpp_proto::concepts::is_option_type auto &&...option) {
-    auto result = ::hpp_proto::grpc::write_binpb(req, request_, std::forward<decltype(option)>(option)...);
-    if (result.ok()) {
+    prepare_status_ = ::hpp_proto::grpc::write_binpb(req, request_, std::forward<decltype(option)>(option)...);
+    if (prepare_status_.ok()) {
       ::grpc::internal::ClientCallbackUnaryFactory::Create<::grpc::ByteBuffer, ::grpc::ByteBuffer>(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, &response_, this);
-    } else {
-      this->OnDone(result);
     }
   }
 
@@ -170,12 +169,10 @@ public:
     requires(rpc_type == RpcType::SERVER_STREAMING)
   void prepare(const Stub &stub, ::grpc::ClientContext &context, const Method::template request_t<Traits> &req,
                hpp_proto::concepts::is_option_type auto &&...option) {
-    auto result = ::hpp_proto::grpc::write_binpb(req, request_, std::forward<decltype(option)>(option)...);
-    if (result.ok()) {
+    prepare_status_ = ::hpp_proto::grpc::write_binpb(req, request_, std::forward<decltype(option)>(option)...);
+    if (prepare_status_.ok()) {
       ::grpc::internal::ClientCallbackReaderFactory<::grpc::ByteBuffer>::Create(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, this);
-    } else {
-      this->OnDone(result);
     }
   }
 
@@ -186,11 +183,20 @@ public:
         stub.channel_.get(), stub.template grpc_method<Method>(), &context, this);
   }
 
-  void start_call() { this->StartCall(); }
+  /// Starts the call. If its request could not be serialized, the call completes with that status right here.
+  void start_call() {
+    if (prepare_status_.ok()) {
+      this->StartCall();
+    } else {
+      this->OnDone(::grpc::Status{prepare_status_});
+    }
+  }
   void start_read()
     requires Method::server_streaming
   {
-    this->StartRead(&response_);
+    if (prepare_status_.ok()) {
+      this->StartRead(&response_);
+    }
   }
 
   template <typename Traits>
@@ -232,12 +238,16 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddMultipleHolds(holds);
+    if (prepare_status_.ok()) {
+      this->AddMultipleHolds(holds);
+    }
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->RemoveHold();
+    if (prepare_status_.ok()) {
+      this->RemoveHold();
+    }
   }
 
   template <typename Traits>
-- 
2.43.0


From ab1496dc7d77624e9e236594c9428e6668f481cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 54/55] fix: return an error from a blocking unary call whose
 request cannot be serialized instead of aborting

---
 include/hpp_proto/grpc/client.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index f3cc6ba..4382d71 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -109,11 +109,15 @@ public:
   call(::grpc::ClientContext &context, const Request &request, Response &response,
        hpp_proto::concepts::is_option_type auto &&...option) {
     pb_context ctx{std::forward<decltype(option)>(option)...};
-    const hpp_proto::with_pb_context request_with_context{request, ctx};
+    // gRPC aborts when a request cannot be serialized, so that is settled before the call is made
+    ::grpc::ByteBuffer request_buffer;
+    if (auto status = ::hpp_proto::grpc::write_binpb(request, request_buffer, ctx); !status.ok()) {
+      return status;
+    }
     hpp_proto::with_pb_context response_with_context{response, ctx};
 
     return ::grpc::internal::BlockingUnaryCallImpl{this->channel_.get(), grpc_method<Method>(), &context,
-                                                   request_with_context, &response_with_context}
+                                                   request_buffer, &response_with_context}
         .status();
   }
 
-- 
2.43.0


From 7ff3e3d5e5c16d8adbecf98e628494d2e257a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 55/55] fix: serialize messages over 1 MB into one slice when
 contiguous_mode asks for it

---
 include/hpp_proto/grpc/serialization.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/grpc/serialization.hpp b/include/hpp_proto/grpc/serialization.hpp
index 76c4e56..57b2b65 100644
--- a/include/hpp_proto/grpc/serialization.hpp
+++ b/include/hpp_proto/grpc/serialization.hpp
@@ -98,8 +98,9 @@ private:
 
 ::grpc::Status write_binpb(::hpp_proto::concepts::has_meta auto const &message, ::grpc::ByteBuffer &buffer,
                            ::hpp_proto::concepts::is_pb_context auto &ctx) {
-  constexpr bool is_contiguous = ::hpp_proto::pb_serializer::serialization_mode_for_context<decltype(ctx)>() ==
-                                 ::hpp_proto::serialization_mode::contiguous;
+  constexpr bool is_contiguous =
+      ::hpp_proto::pb_serializer::serialization_mode_for_context<std::remove_cvref_t<decltype(ctx)>>() ==
+      ::hpp_proto::serialization_mode::contiguous;
   constexpr std::size_t kStackBufferSize = is_contiguous ? sizeof(::grpc::Slice) : 4096;
   alignas(std::max_align_t) std::array<std::byte, kStackBufferSize> stack_buffer{};
   std::pmr::monotonic_buffer_resource mr{stack_buffer.data(), stack_buffer.size()};
-- 
2.43.0

