From fc138f34c2ef006bff4bce5fad1fe7d7c2d61841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 01/62] fix: parse field tags that take five bytes

read_tag() and match_tag() decoded only the first four bytes of a tag, so
field numbers above 2^25-1 and tags with redundant bytes were misread, and
skip_field() assumed the canonical tag length when it preserved an unknown
field.
---
 include/hpp_proto/binpb/deserialize.hpp | 17 ++++++++++-------
 include/hpp_proto/binpb/varint.hpp      |  3 +++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..683b6e1 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -145,6 +145,7 @@ struct basic_in {
   input_buffer_region<Byte> current;
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
+  std::size_t last_tag_size = 0;      // the number of bytes consumed by the last call of read_tag()
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
@@ -506,10 +507,11 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // Returns a copy of the archive positioned at the first byte of the tag obtained by the last call of read_tag().
+  // The encoded length is used rather than the canonical one, because a tag may be encoded with redundant bytes.
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -592,7 +594,8 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -602,8 +605,8 @@ struct basic_in {
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
-      if (std::cmp_equal(res, tag)) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+      if (static_cast<std::uint32_t>(res) == tag) {
         current.advance_to(p);
         return true;
       }
@@ -676,7 +679,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 420a2db..782ad88 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -229,6 +229,9 @@ template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
     if (!(next() & 0x80)) [[unlikely]] {
       return done2();
     }
+  } else {
+    // Nothing that is parsed with a 32-bit limit spans more than 5 bytes.
+    return std::ranges::cdata(input) + std::ranges::size(input) + 1;
   }
 
   // For valid 64bit varints, the 10th byte/ptr[9] should be exactly 1. In this
-- 
2.43.0


From 39c39c575345137c90cf75e21de3101262112854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 02/62] fix: truncate 32-bit varint fields and reject oversized
 lengths

A uint32 field encoded with more than six bytes was rejected and a sint32
varint wider than 32 bits was zigzag decoded without truncation, while a
length prefix that does not fit in 32 bits was silently truncated.
---
 include/hpp_proto/binpb/deserialize.hpp       | 20 +++++++++++++++----
 include/hpp_proto/binpb/varint.hpp            | 18 +++++++++--------
 .../dynamic_message/pb_serializer_ext.hpp     |  4 ++--
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 683b6e1..daafcb4 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -286,6 +286,18 @@ struct basic_in {
     return std::errc::bad_message;
   }
 
+  // Parse the length prefix of a length delimited field; unlike a uint32 field, a length is never truncated.
+  constexpr status deserialize_length(vuint32_t &len) {
+    int64_t res; // NOLINT(cppcoreguidelines-init-variables)
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res);
+        p <= current._end && std::in_range<std::uint32_t>(res)) [[likely]] {
+      current.advance_to(p);
+      len = static_cast<std::uint32_t>(res);
+      return {};
+    }
+    return std::errc::bad_message;
+  }
+
   // Helper: append raw data path for packed deserialization (no byte-swap required)
   template <typename ValueType>
   constexpr status do_deserialize_packed_append_raw(std::size_t n, auto &item, std::size_t nbytes,
@@ -454,7 +466,7 @@ struct basic_in {
 
   constexpr status skip_length_delimited() {
     vuint32_t len;
-    if (auto result = deserialize(len); !result.ok()) [[unlikely]] {
+    if (auto result = deserialize_length(len); !result.ok()) [[unlikely]] {
       return result;
     }
     return skip(len.value);
@@ -820,7 +832,7 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
                          value_type, typename Meta::type>;
 
   vuint32_t byte_count;
-  if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+  if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
     return result;
   }
 
@@ -1369,7 +1381,7 @@ constexpr status deserialize(auto &&item, concepts::is_basic_in auto &archive) {
 
 constexpr status deserialize_sized(auto &&item, concepts::is_basic_in auto &archive) {
   vuint32_t len;
-  if (auto result = archive(len); !result.ok()) [[unlikely]] {
+  if (auto result = archive.deserialize_length(len); !result.ok()) [[unlikely]] {
     return result;
   }
   if constexpr (requires { item.is_map_entry(); }) {
@@ -1399,7 +1411,7 @@ constexpr status extract_length_delimited_field(uint32_t number, bytes_view &byt
         return std::errc::bad_message;
       }
       vuint32_t len;
-      if (auto result = archive(len); !result.ok() || len == 0) [[unlikely]] {
+      if (auto result = archive.deserialize_length(len); !result.ok() || len == 0) [[unlikely]] {
         return result;
       }
 
diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 782ad88..407bbbe 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -326,17 +326,19 @@ template <concepts::varint VarintType>
 // value should be treated as invalid.
 [[nodiscard]] constexpr auto unchecked_parse_varint(concepts::contiguous_byte_range auto const &input,
                                                     VarintType &item) {
+  using value_type = VarintType::value_type;
+  // A 32-bit value may be encoded as an overlong varint or as the varint of a 64-bit value, in either case it has to be
+  // truncated to 32 bits. Parsing with int32_t accepts all the 10 bytes a varint can span.
+  using parse_type = std::conditional_t<sizeof(value_type) == sizeof(int32_t), int32_t, value_type>;
   int64_t res; // NOLINT(cppcoreguidelines-init-variables)
+  auto p = shift_mix_parse_varint<parse_type>(input, res);
   if constexpr (varint_encoding::zig_zag == VarintType::encoding) {
-    auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    auto ures = static_cast<uint64_t>(res);
-    auto sign = static_cast<int64_t>(ures & 0x1ULL);
-    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<uint64_t>(-sign));
-    return p;
+    using unsigned_type = std::make_unsigned_t<value_type>;
+    auto ures = static_cast<unsigned_type>(res);
+    item = static_cast<value_type>((ures >> 1U) ^ (unsigned_type{0} - (ures & 1U)));
   } else {
-    auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    item = static_cast<VarintType::value_type>(res);
-    return p;
+    item = static_cast<value_type>(res);
   }
+  return p;
 }
 } // namespace hpp_proto
diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..82fe310 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -121,7 +121,7 @@ struct field_deserializer {
       return std::errc::bad_message;
     }
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
@@ -287,7 +287,7 @@ struct field_deserializer {
   template <typename EncodeType>
   status deserialize_packed_repeated(concepts::resizable auto &&mref) {
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
-- 
2.43.0


From 2da872974a3df4a06b04097bb2c754e592df94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 03/62] fix: check the length of string and bytes views read
 from a padded input

A length prefix beyond the end of a padded input was only guarded by an
assertion, so with NDEBUG the resulting view exposed memory outside of the
input.
---
 include/hpp_proto/binpb/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index daafcb4..0bf2b3a 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -846,6 +846,9 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
 template <typename Meta, typename Archive, typename Item>
 constexpr status deserialize_packed_repeated_padded(Meta meta, Item &item, Archive &archive, vuint32_t byte_count) {
   using type = std::remove_reference_t<Item>;
+  if (std::cmp_less(archive.in_avail(), byte_count.value)) [[unlikely]] {
+    return std::errc::bad_message;
+  }
   auto result = archive.read_bytes(byte_count, item);
   if constexpr (concepts::basic_string_view<type>) {
     return !result.ok() || utf8_validation_failed(meta, item) ? std::errc::bad_message : std::errc{};
-- 
2.43.0


From 79c54f0a9a478a243ff7750e61471f3e45eec749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 04/62] fix: activate the enum alternative when reading a
 closed enum in a oneof

std::get was used to assign to an alternative which is not active in general,
thus reading a closed enum oneof member threw std::bad_variant_access.
---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 0bf2b3a..0186027 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1265,7 +1265,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From 787ec1a1836c31d60d7c05eaa990d61ee63c89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 05/62] fix: keep the unknown value of a required closed enum
 field

Reading an unrecognized number for a plain (required) closed enum failed the
whole message instead of keeping the value in the unknown fields.
---
 include/hpp_proto/binpb/deserialize.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 0186027..97e9be2 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1296,7 +1296,17 @@ constexpr status deserialize_field_by_index(uint32_t tag, concepts::has_meta aut
   if constexpr (Index != UINT32_MAX) {
     using type = std::remove_reference_t<decltype(item)>;
     using Meta = util::field_meta_of<type, Index>::type;
-    return deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    auto result = deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    if constexpr (concepts::is_enum<std::remove_cvref_t<decltype(Meta::get(item))>> &&
+                  requires { item.unknown_fields_; }) {
+      if constexpr (Meta::closed_enum() && Meta::explicit_presence()) {
+        if (result == std::errc::value_too_large) [[unlikely]] {
+          // the unknown value of a required closed enum is kept in the unknown fields
+          return {};
+        }
+      }
+    }
+    return result;
   } else if (archive.in_avail() > 0) {
     return skip_field(tag, archive, unknown_fields);
   } else {
-- 
2.43.0


From 47b9b9bd2b08ac6ccdfe969710e541bfb7c7ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 06/62] fix: honor [packed = false] on proto3 repeated fields

---
 include/hpp_proto/descriptor_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index eb07cc9..a250ff5 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -309,8 +309,11 @@ public:
           type == FieldDescriptorProto::Type::TYPE_BYTES || type == FieldDescriptorProto::Type::TYPE_GROUP) {
         return;
       }
-      if (proto_.options.has_value() && proto_.options->packed.has_value() && proto_.options->packed.value()) {
-        field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+      if (proto_.options.has_value() && proto_.options->packed.has_value()) {
+        // an explicit packed option takes precedence over the default of the syntax
+        if (proto_.options->packed.value()) {
+          field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+        }
         return;
       }
       if (options_.features->repeated_field_encoding == FeatureSet::RepeatedFieldEncoding::PACKED) {
-- 
2.43.0


From 8b14732792ba7a983a76593f00956c4b883c6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 07/62] fix: initialize required enum fields with the first
 enum value

A required proto2 enum field was value-initialized to 0, which is not
necessarily a valid number of the enum.
---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f842518..4f737d6 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -835,7 +835,7 @@ struct code_generator {
       field.is_closed_enum = enum_d->is_closed();
       if (!field.proto().default_value.empty()) {
         field.set_enum_default_value(field.proto(), diagnostics);
-      } else if (field.proto().label == FieldDescriptorProto::Label::LABEL_OPTIONAL) {
+      } else if (field.proto().label != FieldDescriptorProto::Label::LABEL_REPEATED) {
         const auto proto_default_value = cpp_identifier(enum_d->proto().value[0].name, diagnostics);
         field.default_value = cpp::format("{}::{}", field.cpp_field_type, proto_default_value);
         field.default_value_template_arg = cpp::format("{}::{}", field.qualified_cpp_field_type, proto_default_value);
-- 
2.43.0


From 1e7d1afcbbb9ef5de2340adf1aa5843737492412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 08/62] fix: serialize negative zero of fields with implicit
 presence

Only positive zero is the default value of a float or double field.
---
 include/hpp_proto/field_types.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index b47652b..6db6380 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -570,6 +570,10 @@ constexpr bool is_default_value(const T &val) {
       return !val.has_value();
     } else if constexpr (std::is_class_v<T>) {
       return false;
+    } else if constexpr (std::floating_point<T>) {
+      // negative zero is distinct from the default value
+      using bits_type = std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+      return std::bit_cast<bits_type>(val) == 0;
     } else {
       return val == T{};
     }
-- 
2.43.0


From 5842e8865fee4343d05f0a3b59dfcc6e11e9b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 09/62] fix: write the unknown fields of messages without
 declared fields

The metadata of a message without fields had no entry for its unknown
fields, so they were kept when reading and lost when writing.
---
 src/protoc-plugin/hpp_generator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 4f737d6..ff4f92a 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1609,10 +1609,8 @@ struct hpp_meta_generator : code_generator {
       }
     }
 
-    if (!descriptor.proto().extension_range.empty() || !descriptor.fields().empty()) {
-      cpp::emit_to(target, "{}::hpp_proto::field_meta<UINT32_MAX, &{}::unknown_fields_>", source_indent(),
-                   qualified_name);
-    }
+    cpp::emit_to(target, "{}::hpp_proto::field_meta<UINT32_MAX, &{}::unknown_fields_>", source_indent(),
+                 qualified_name);
     indent_num -= 2;
 
     format_to(target, ">;\n\n");
-- 
2.43.0


From c9b6daa9300fa271f33bb79c63056e413d299a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 10/62] fix: append serialized messages after the existing
 bytes of the buffer

---
 include/hpp_proto/binpb/serialize.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..b1e5238 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -556,20 +556,21 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
   if (msg_sz >= max_message_size) {
     return std::errc::value_too_large;
   }
+  const std::size_t offset = overwrite_buffer ? 0 : std::ranges::size(buffer);
   if (auto resize_status = resize_contiguous_buffer<overwrite_buffer>(buffer, static_cast<std::size_t>(msg_sz));
       !resize_status.ok()) {
     return resize_status;
   }
 
+  std::span output{std::ranges::data(buffer), std::ranges::size(buffer)};
   if (std::is_constant_evaluated()) {
-    contiguous_out archive{buffer, context};
+    contiguous_out archive{output.subspan(offset), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{std::as_writable_bytes(output.subspan(offset)), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From e7a016e38c1fc7d75f2075517efdc6e3ffe33e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 11/62] fix: concatenate unknown fields when merging messages

---
 include/hpp_proto/merge.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index ac8e006..e1bdb62 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -306,6 +306,11 @@ struct message_merger {
         // Protobuf merge semantics preserve those occurrences in parent-to-child order.
         util::append_range(bytes, data);
       }
+    } else if constexpr (concepts::pb_unknown_fields<T>) {
+      bind_empty_container_to_context(dest.fields);
+      decltype(auto) bytes = detail::as_modifiable(ctx, dest.fields);
+      // Unknown fields are kept in wire format, so merging concatenates them in parent-to-child order.
+      util::append_range(bytes, source.fields);
     } else {
       perform(dest.fields, source.fields);
     }
-- 
2.43.0


From a125ef50dce959858b71b975243cb2a97b55cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 12/62] fix: use the adaptive mode by default when writing to a
 sink

---
 include/hpp_proto/binpb/serialize.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index b1e5238..7bc798d 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -605,10 +605,11 @@ constexpr status serialize(const T &item, Buffer &buffer, [[maybe_unused]] conce
 
 template <typename Context>
 consteval serialization_mode serialization_mode_for_context() {
-  if constexpr (requires { Context::serialization_mode; }) {
-    return Context::serialization_mode;
+  using context_type = std::remove_cvref_t<Context>;
+  if constexpr (requires { context_type::serialization_mode; }) {
+    return context_type::serialization_mode;
   } else {
-    return hpp_proto::serialization_mode::contiguous;
+    return hpp_proto::serialization_mode::adaptive;
   }
 }
 
-- 
2.43.0


From fa01f0767bf179b6e6dd7f74849d17b539839c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 13/62] fix: check that the first chunk of a sink holds a
 contiguously written message

---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index 7bc798d..b7f2006 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -615,8 +615,11 @@ consteval serialization_mode serialization_mode_for_context() {
 
 template <typename T, concepts::out_sink Sink, concepts::is_pb_context Context>
 [[nodiscard]] constexpr status serialize_contiguous_sink(const T &item, Sink &sink, Context &context,
-                                                         std::span<uint32_t> cache) {
+                                                         std::span<uint32_t> cache, std::size_t msg_sz) {
   auto out = sink.next_chunk();
+  if (out.size() < msg_sz) [[unlikely]] {
+    return std::errc::not_enough_memory;
+  }
   contiguous_out archive{out, context};
   auto cache_itr = cache.begin();
   if (!serialize(item, cache_itr, archive)) {
@@ -654,12 +657,12 @@ status serialize(const T &item, Sink &sink, Context &context) {
     sink.set_message_size(msg_sz);
 
     if constexpr (mode == serialization_mode::contiguous) {
-      return serialize_contiguous_sink(item, sink, context, cache);
+      return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
     }
 
     if constexpr (mode == serialization_mode::adaptive) {
       if (msg_sz <= sink.chunk_size()) {
-        return serialize_contiguous_sink(item, sink, context, cache);
+        return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
       }
     }
 
-- 
2.43.0


From ec9a4cf42d1f72a3a49892649984a19858f906c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 14/62] fix: reject field number zero in skipped groups

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 97e9be2..7da1a99 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -704,7 +704,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
 }
 
 constexpr status do_skip_field(uint32_t tag, concepts::is_basic_in auto &archive) {
-  if (tag == 0) [[unlikely]] {
+  if (tag_number(tag) == 0) [[unlikely]] {
     return std::errc::bad_message;
   }
   switch (hpp_proto::tag_type(tag)) {
-- 
2.43.0


From e8a54c519145d845b06f74bb5741fd254bd160bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 15/62] fix: flat_map crbegin and crend were swapped

---
 include/hpp_proto/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b323cc1..1b04569 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -587,8 +587,8 @@ public:
   reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
   const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
 
-  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(begin()); }
-  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(begin()); }
 
 #if __cplusplus >= 201703L
   [[nodiscard]]
-- 
2.43.0


From 483c99798205a438fa207bfd313e2b66ecfdd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 16/62] fix: flat_map erase keeps the allocators of its
 containers

---
 include/hpp_proto/flat_map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 1b04569..56d60c6 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -851,7 +851,8 @@ public:
   iterator erase(iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -863,7 +864,8 @@ public:
   iterator erase(const_iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -886,7 +888,8 @@ public:
     auto vfirst = first.private_impl_getmapped();
     auto klast = last.private_impl_getkey();
     auto vlast = last.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut =
         copy.keys.erase(copy.keys.begin() + (kfirst - c_.keys.begin()), copy.keys.begin() + (klast - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vfirst - c_.values.begin()),
-- 
2.43.0


From ac4ebe5c3438287138b3f5c31b8470a2646d6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 17/62] fix: indirect and optional_indirect swap with
 propagating allocators

---
 include/hpp_proto/indirect.hpp          | 2 +-
 include/hpp_proto/optional_indirect.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..90874f0 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -186,7 +186,7 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::is_always_equal::value || allocator_traits::propagate_on_container_swap::value) {
       swap(obj_, other.obj_);
     } else {
       if (alloc_ == other.alloc_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..7f56457 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -210,7 +210,7 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::is_always_equal::value || allocator_traits::propagate_on_container_swap::value) {
       swap(obj_, other.obj_);
       return;
     }
-- 
2.43.0


From f9a1612e8222d9e49e0711155292c2a9ccfd68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 18/62] fix: optional conversion from an optional with another
 value type or default

---
 include/hpp_proto/field_types.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 6db6380..195dbe4 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -114,13 +114,14 @@ public:
   constexpr optional(const optional &) = default;
 
   template <class U>
-  constexpr optional(const optional<U> &other) noexcept(std::is_nothrow_constructible_v<T, const U &>)
-      : _value(other._value), _present(other._present) {}
+  constexpr optional(const optional<U> &other) noexcept(noexcept(default_value()) &&
+                                                        std::is_nothrow_constructible_v<T, const U &>)
+      : _value(other.has_value() ? static_cast<T>(*other) : default_value()), _present(other.has_value()) {}
 
   template <class U>
   constexpr optional(optional<U> &&other) // NOLINT(cppcoreguidelines-rvalue-reference-param-not-moved)
-      noexcept(std::is_nothrow_constructible_v<T, U &&>)
-      : _value(std::move(other)._value), _present(other._present) {}
+      noexcept(noexcept(default_value()) && std::is_nothrow_constructible_v<T, U &&>)
+      : _value(other.has_value() ? static_cast<T>(*std::move(other)) : default_value()), _present(other.has_value()) {}
 
   constexpr optional(const std::optional<T> &other) noexcept(noexcept(default_value()) &&
                                                              std::is_nothrow_copy_constructible_v<T>)
@@ -179,17 +180,20 @@ public:
 
   template <class U>
     requires std::convertible_to<U, T>
-  constexpr optional &operator=(const optional<U> &other) noexcept(std::is_nothrow_assignable_v<T &, const U &>) {
-    _value = *other;
+  constexpr optional &operator=(const optional<U> &other) noexcept(noexcept(default_value()) &&
+                                                                   std::is_nothrow_constructible_v<T, const U &> &&
+                                                                   std::is_nothrow_move_assignable_v<T>) {
+    _value = other.has_value() ? static_cast<T>(*other) : default_value();
     _present = other.has_value();
     return *this;
   }
 
   template <class U>
   constexpr optional &operator=(optional<U> &&other) // NOLINT(cppcoreguidelines-rvalue-reference-param-not-moved)
-      noexcept(std::is_nothrow_assignable_v<T &, U &&>) {
+      noexcept(noexcept(default_value()) && std::is_nothrow_constructible_v<T, U &&> &&
+               std::is_nothrow_move_assignable_v<T>) {
+    _value = other.has_value() ? static_cast<T>(*std::move(other)) : default_value();
     _present = other.has_value();
-    _value = std::move(other)._value;
     return *this;
   }
 
-- 
2.43.0


From 82939ea94e2bc43df27b37e5f89b3ae55e988a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 19/62] fix: arena_vector reserve below the size of the adapted
 view

---
 include/hpp_proto/memory_resource_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp_proto/memory_resource_utils.hpp b/include/hpp_proto/memory_resource_utils.hpp
index ef734a4..ea46840 100644
--- a/include/hpp_proto/memory_resource_utils.hpp
+++ b/include/hpp_proto/memory_resource_utils.hpp
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <concepts>
 #include <cstring>
@@ -358,6 +359,7 @@ public:
   }
 
   constexpr void reserve(std::size_t n) {
+    n = std::max(n, view_.size());
     if (capacity_ < n) {
       auto new_data = static_cast<value_type *>(mr.allocate(n * sizeof(value_type), alignof(value_type)));
       std::ranges::uninitialized_copy(view_, std::span{new_data, n});
-- 
2.43.0


From 42fe62fd78b1ff9491683837a0a2d99aacfc0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 20/62] fix: dynamic messages drop a negative zero without
 explicit presence

---
 .../hpp_proto/dynamic_message/pb_serializer_ext.hpp |  2 +-
 include/hpp_proto/dynamic_message/scalar_fields.hpp | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index 82fe310..397bc24 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -74,7 +74,7 @@ struct field_deserializer {
     if (auto ec = deserialize(value, mref.descriptor()); !ec.ok()) [[likely]] {
       return ec;
     }
-    if (mref.descriptor().resolved_info().explicit_presence() || value != mref.default_value()) {
+    if (mref.descriptor().resolved_info().explicit_presence() || mref.cref().differs_from_default(value)) {
       mref.set(value);
     } else {
       mref.reset();
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a6eda1c..1ff78db 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <expected>
 #include <memory_resource>
 #include <type_traits>
@@ -76,11 +77,21 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const {
     if (has_value()) {
       return descriptor().resolved_info().explicit_presence() ||
-             access_storage().content != descriptor_->template default_value_as<value_type>();
+             differs_from_default(access_storage().content);
     }
     return false;
   }
 
+  /// -0.0 compares equal to 0.0 but is not the default value.
+  [[nodiscard]] bool differs_from_default(value_type v) const {
+    const auto default_v = default_value();
+    if constexpr (std::is_floating_point_v<value_type>) {
+      return v != default_v || std::signbit(v) != std::signbit(default_v);
+    } else {
+      return v != default_v;
+    }
+  }
+
   template <typename U>
   [[nodiscard]] std::expected<typename get_traits<U>::type, dynamic_message_errc> get() const {
     if constexpr (std::same_as<U, value_type>) {
-- 
2.43.0


From 74fc7b8d19754ae9b939bce1ee9fca13aa775733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 21/62] fix: dynamic messages read a stale value from a cleared
 field

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp  |  2 +-
 include/hpp_proto/dynamic_message/enum_fields.hpp   | 10 ++++------
 include/hpp_proto/dynamic_message/scalar_fields.hpp |  2 +-
 include/hpp_proto/dynamic_message/string_fields.hpp |  4 ++--
 4 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index f51dae2..4c735e7 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -66,7 +66,7 @@ public:
     return {bspan.data(), bspan.size()};
   }
   [[nodiscard]] bytes_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {storage_->of_bytes.content, storage_->of_bytes.size};
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index fcbc1e4..ee9dc8a 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -172,7 +172,7 @@ public:
   }
 
   [[nodiscard]] enum_value value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {enum_descriptor(), storage_->of_int32.content};
@@ -212,8 +212,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    const bool is_default = descriptor().resolved_info().explicit_presence() && !has_value();
-    return is_default ? descriptor_->default_value_as<int32_t>() : storage_->of_int32.content;
+    return has_value() ? storage_->of_int32.content : descriptor_->default_value_as<int32_t>();
   }
 
   /**
@@ -269,7 +268,7 @@ public:
   [[nodiscard]] enum_value default_value() const noexcept { return cref().default_value(); }
   // NOLINTNEXTLINE(bugprone-exception-escape)
   [[nodiscard]] enum_value_mref value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
     }
     return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
@@ -284,8 +283,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    return descriptor().resolved_info().explicit_presence() && !has_value() ? descriptor_->default_value_as<int32_t>()
-                                                                            : storage_->of_int32.content;
+    return cref().number();
   }
   /**
    * @brief Returns the enum value's symbolic name (empty if schema lacks this number).
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 1ff78db..a97bcb0 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -68,7 +68,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return descriptor_->template default_value_as<value_type>(); }
   [[nodiscard]] value_type value() const {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return access_storage().content;
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 19e01e0..d5eb7ad 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -61,11 +61,11 @@ public:
     return storage_->selection_matches(descriptor().resolved_info().selection_ordinal());
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
-  [[nodiscard]] std::size_t size() const noexcept { return storage_->of_string.size; }
+  [[nodiscard]] std::size_t size() const noexcept { return value().size(); }
   [[nodiscard]] std::string_view default_value() const noexcept { return descriptor_->proto().default_value; }
 
   [[nodiscard]] std::string_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return descriptor_->proto().default_value;
     }
     return {storage_->of_string.content, storage_->of_string.size};
-- 
2.43.0


From e6c29f537d9745991d6b2c07b5ef6663065379bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 22/62] fix: copying an absent dynamic field makes it present

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp   |  8 +++++++-
 include/hpp_proto/dynamic_message/enum_fields.hpp    |  6 +++++-
 include/hpp_proto/dynamic_message/message_fields.hpp |  6 +++++-
 include/hpp_proto/dynamic_message/scalar_fields.hpp  | 12 +++++++++---
 include/hpp_proto/dynamic_message/string_fields.hpp  |  8 +++++++-
 5 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 4c735e7..b9dfa50 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -149,7 +149,13 @@ public:
     storage_->of_bytes.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index ee9dc8a..6b0d3e4 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -251,7 +251,11 @@ public:
 
   void alias_from(const cref_type &other) const noexcept {
     assert(this->descriptor_ == &other.descriptor());
-    storage_->of_int32 = other.storage_->of_int32;
+    if (other.has_value()) {
+      storage_->of_int32 = other.storage_->of_int32;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const noexcept {
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index d2a05f5..92dc37e 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -660,7 +660,11 @@ public:
 
   void alias_from(const message_field_mref &other) const noexcept {
     assert(&message_descriptor() == &other.message_descriptor());
-    storage_->of_message = other.storage_->of_message;
+    if (other.has_value()) {
+      storage_->of_message = other.storage_->of_message;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a97bcb0..f68d2ee 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -166,8 +166,14 @@ public:
     storage.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { set(other.value()); }
-  void clone_from(scalar_field_cref<T, Kind> other) const { set(other.value()); }
+  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { clone_from(other); }
+  void clone_from(scalar_field_cref<T, Kind> other) const noexcept {
+    if (other.has_value()) {
+      set(other.access_storage().content);
+    } else {
+      reset();
+    }
+  }
 
   [[nodiscard]] cref_type cref() const noexcept { return {*descriptor_, *storage_}; }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
@@ -177,7 +183,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
-  void reset() noexcept { access_storage().selection = 0; }
+  void reset() const noexcept { access_storage().selection = 0; }
   void set_as_default() const { set(default_value()); }
 
   value_type &emplace() const noexcept { // NOLINT(modernize-use-nodiscard)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index d5eb7ad..bb28595 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -148,7 +148,13 @@ public:
     storage_->of_string.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
-- 
2.43.0


From c5e2ccbb85c0eb31deb521d62f9be179e56fcb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 23/62] fix: dynamic message clone_from loses fields of
 messages with a oneof

---
 include/hpp_proto/dynamic_message/message_fields.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index 92dc37e..b2a9ccd 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -55,6 +55,7 @@ class message_value_cref {
     return field_cref{desc, storage_for(desc)};
   }
   friend class repeated_field_iterator<message_value_cref>;
+  friend class message_value_mref;
   using reference = field_cref;
 
 public:
@@ -480,8 +481,11 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
-    for (std::size_t i = 0; i < num_slots(); ++i) {
-      fields()[i].clone_from(other.fields()[i]);
+    for (const field_cref field : other.fields()) {
+      // An inactive oneof member shares its slot with the active one, which must not be cleared.
+      if (field.has_value() || !other.storage_for(field.descriptor()).has_value()) {
+        this->field(field.descriptor()).clone_from(field);
+      }
     }
   }
 
-- 
2.43.0


From ee474817f5c142aa65ec20550acb57e5a86d7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 24/62] fix: reading an absent enum member overwrites the
 active oneof member

---
 include/hpp_proto/dynamic_message/enum_fields.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index 6b0d3e4..afc076e 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -240,8 +240,8 @@ public:
   static constexpr bool settable_from_v = std::same_as<U, enum_number> || std::same_as<U, enum_name>;
 
   enum_field_mref(const field_descriptor_t &descriptor, value_storage &storage,
-                  std::pmr::monotonic_buffer_resource & /*memory_resource*/) noexcept
-      : descriptor_(&descriptor), storage_(&storage) {}
+                  std::pmr::monotonic_buffer_resource &memory_resource) noexcept
+      : descriptor_(&descriptor), storage_(&storage), memory_resource_(&memory_resource) {}
 
   enum_field_mref(const enum_field_mref &) noexcept = default;
   enum_field_mref(enum_field_mref &&) noexcept = default;
@@ -273,11 +273,17 @@ public:
   // NOLINTNEXTLINE(bugprone-exception-escape)
   [[nodiscard]] enum_value_mref value() const noexcept {
     if (!has_value()) {
+      if (storage_->has_value()) {
+        // The slot holds another member of the same oneof, which must not be overwritten.
+        auto *detached = static_cast<int32_t *>(memory_resource_->allocate(sizeof(int32_t), alignof(int32_t)));
+        *detached = descriptor_->default_value_as<int32_t>();
+        return {*descriptor_->enum_field_type_descriptor(), *detached};
+      }
       storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
     }
     return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
   }
-  [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
+  [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return cref().operator->(); }
 
   void reset() const noexcept { storage_->of_int32.selection = 0; }
 
@@ -319,6 +325,7 @@ public:
 private:
   const field_descriptor_t *descriptor_;
   value_storage *storage_;
+  std::pmr::monotonic_buffer_resource *memory_resource_;
 };
 
 } // namespace hpp_proto
-- 
2.43.0


From f0a4b33003a64d6ce71bd195e40cce309c1695e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 25/62] fix: dynamic messages report the escaped text of a
 bytes default

---
 .../dynamic_message/bytes_fields.hpp          |  4 +-
 .../dynamic_message/factory_addons.hpp        | 52 ++++++++++++++++++-
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index b9dfa50..052b64a 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -61,7 +61,7 @@ public:
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] bytes_view default_value() const noexcept {
-    const auto &v = descriptor_->proto().default_value;
+    const auto v = descriptor_->default_bytes();
     auto bspan = std::as_bytes(std::span{v.data(), v.size()});
     return {bspan.data(), bspan.size()};
   }
@@ -75,7 +75,7 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const noexcept {
     if (has_value()) {
       auto val = std::span{storage_->of_bytes.content, storage_->of_bytes.size};
-      auto default_val = std::as_bytes(std::span{descriptor_->proto().default_value});
+      auto default_val = default_value();
       return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_val);
     }
     return false;
diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 32ee519..81b7271 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -121,12 +121,55 @@ struct dynamic_message_factory_addons {
     return parsed;
   }
 
+  /// Undo the C escaping which descriptors apply to the default values of bytes fields.
+  static void unescape(std::string_view text, string_t &out) {
+    constexpr std::string_view escapes = "abfnrtv";
+    constexpr std::string_view escaped = "\a\b\f\n\r\t\v";
+    const auto digit = [&text](std::size_t pos, unsigned int radix) -> unsigned int {
+      const char c = pos < text.size() ? text[pos] : '\0';
+      unsigned int value = radix;
+      if (c >= '0' && c <= '9') {
+        value = static_cast<unsigned int>(c - '0');
+      } else if (c >= 'a' && c <= 'f') {
+        value = static_cast<unsigned int>(c - 'a') + 10U;
+      } else if (c >= 'A' && c <= 'F') {
+        value = static_cast<unsigned int>(c - 'A') + 10U;
+      }
+      return value;
+    };
+    const auto append_number = [&](std::size_t pos, unsigned int radix, std::size_t max_digits) {
+      unsigned int value = 0;
+      std::size_t count = 0;
+      for (; count < max_digits && digit(pos + count, radix) < radix; ++count) {
+        value = (value * radix) + digit(pos + count, radix);
+      }
+      out.push_back(static_cast<char>(value));
+      return pos + count;
+    };
+
+    out.reserve(text.size());
+    for (std::size_t i = 0; i < text.size();) {
+      if (text[i] != '\\' || i + 1 == text.size()) {
+        out.push_back(text[i++]);
+      } else if (digit(i + 1, 8) < 8) {
+        i = append_number(i + 1, 8, 3);
+      } else if ((text[i + 1] == 'x' || text[i + 1] == 'X') && digit(i + 2, 16) < 16) {
+        i = append_number(i + 2, 16, 2);
+      } else {
+        const auto pos = escapes.find(text[i + 1]);
+        out.push_back(pos == std::string_view::npos ? text[i + 1] : escaped[pos]);
+        i += 2;
+      }
+    }
+  }
+
   template <typename Derived>
   struct field_descriptor {
     using type = void;
 
     field_descriptor(Derived &self, [[maybe_unused]] const auto &inherited_options,
-                     [[maybe_unused]] std::pmr::memory_resource *resource) {
+                     [[maybe_unused]] std::pmr::memory_resource *resource)
+        : default_bytes_(resource) {
       set_default_value(self.proto(), resource);
     }
 
@@ -135,6 +178,9 @@ struct dynamic_message_factory_addons {
       return std::get<T>(default_value_);
     }
 
+    /** @brief The default value of a bytes field, which the descriptor holds in C-escaped form. */
+    [[nodiscard]] std::string_view default_bytes() const noexcept { return default_bytes_; }
+
     /**
      * @brief Whether this descriptor has storage-backed resolved dynamic-message information.
      * @details Regular message fields have resolved information; unsupported extension descriptors do not.
@@ -166,6 +212,7 @@ struct dynamic_message_factory_addons {
     friend class detail::dynamic_message_factory_impl;
 
     std::variant<bool, int32_t, uint32_t, int64_t, uint64_t, double, float> default_value_;
+    string_t default_bytes_;
     bool default_value_valid_ = true;
     resolved_field_info resolved_info_;
 
@@ -218,6 +265,9 @@ struct dynamic_message_factory_addons {
       case TYPE_BOOL:
         default_value_ = proto.default_value == "true";
         break;
+      case TYPE_BYTES:
+        unescape(proto.default_value, default_bytes_);
+        break;
       default:
         break;
       }
-- 
2.43.0


From 8c4567b734616eb98bd3e332240551f30e48f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 26/62] fix: maps are length-delimited whatever the
 message_encoding feature

---
 include/hpp_proto/descriptor_pool.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index a250ff5..69fb180 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -902,6 +902,11 @@ private:
         if (desc->is_map_entry()) {
           f.field_option_bitset_ |= mask(field_option_mask::MASK_MAP_ENTRY);
         }
+        if (f.proto_.type == FieldDescriptorProto::Type::TYPE_MESSAGE &&
+            (desc->is_map_entry() || (f.parent_message_ != nullptr && f.parent_message_->is_map_entry()))) {
+          // The message_encoding feature does not apply to maps: their entries and values are never groups.
+          f.field_option_bitset_ &= static_cast<uint8_t>(~mask(field_option_mask::MASK_DELIMITED));
+        }
       } else if (f.proto_.type == FieldDescriptorProto::Type::TYPE_ENUM) {
         auto desc = find_type(enum_map_, f.proto_.type_name);
         if (!desc) {
-- 
2.43.0


From 0cfbe94fd8cfdbb26e68c7704954e172fecd0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 27/62] fix: repeated_scalar_field_mref::cref does not compile

---
 include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
index e015aed..3d8cd1f 100644
--- a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
@@ -166,7 +166,7 @@ public:
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
   [[nodiscard]] repeated_scalar_field_cref<T, Kind> cref() const noexcept {
-    return repeated_scalar_field_cref<T, Kind>{*descriptor_, access_storage()};
+    return repeated_scalar_field_cref<T, Kind>{*descriptor_, *storage_};
   }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
   [[nodiscard]] operator repeated_scalar_field_cref<T, Kind>() const noexcept { return cref(); }
-- 
2.43.0


From 21df0f2de62b356594a881dce585099677cc50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 28/62] fix: setting an extension to its default value leaves
 the previous value

set_extension() ignored an empty encoding, so the old value stayed; for
non-owning messages it also appended a second entry instead of replacing.
---
 include/hpp_proto/binpb.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb.hpp b/include/hpp_proto/binpb.hpp
index 46fc8df..88d34c6 100644
--- a/include/hpp_proto/binpb.hpp
+++ b/include/hpp_proto/binpb.hpp
@@ -329,11 +329,24 @@ struct extension_base { // NOLINT(bugprone-crtp-constructor-accessibility)
       return result;
     }
 
-    if (data.size()) {
-      if constexpr (concepts::associative_container<fields_type>) {
+    if constexpr (concepts::associative_container<fields_type>) {
+      if (data.size()) {
         fields[number()] = std::move(data);
       } else {
-        detail::as_modifiable(ctx, fields).emplace_back(number(), data);
+        fields.erase(number());
+      }
+    } else {
+      // The existing entries may be shared with other messages, so the list is rebuilt rather than edited in place.
+      const auto previous = fields;
+      decltype(auto) entries = detail::as_modifiable(ctx, fields);
+      entries.clear();
+      for (const auto &entry : previous) {
+        if (entry.first != number()) {
+          entries.push_back(entry);
+        }
+      }
+      if (data.size()) {
+        entries.emplace_back(number(), data);
       }
     }
     return {};
-- 
2.43.0


From 209a811249add6aa884e772252dd8c83ef788250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 29/62] fix: unknown closed enum value of a non-owning message
 refers to a dead stack array

---
 include/hpp_proto/binpb/deserialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 7da1a99..4e9a9d5 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -676,10 +676,13 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      bytes_type field_bytes;
+      decltype(auto) v = detail::as_modifiable(archive.context, field_bytes);
+      util::append_range(v, field_span);
+      unknown_fields.push_back({field_num, field_bytes});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From 46fa80bbee0d482e07973947840cc970c2d1b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 30/62] fix: parsing an extendable submessage twice into a
 non-owning message reads unallocated storage

---
 include/hpp_proto/binpb/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 4e9a9d5..756e140 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -636,6 +636,7 @@ constexpr status deserialize_unknown_fields(concepts::associative_container auto
 constexpr status deserialize_unknown_fields(concepts::uint32_pair_contiguous_range auto &unknown_fields,
                                             uint32_t field_num, std::size_t field_len,
                                             concepts::is_basic_in auto &archive) {
+  unknown_fields.reserve(unknown_fields.size()); // an arena_vector over existing entries has no storage of its own yet
   auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                           [field_num](const auto &e) { return e.first == field_num; });
 
@@ -674,6 +675,7 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::associative_container<unknown_fields_t>) {
     util::append_range(unknown_fields[field_num], field_span);
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
+    unknown_fields.reserve(unknown_fields.size()); // see deserialize_unknown_fields()
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
     using bytes_type = unknown_fields_t::value_type::second_type;
-- 
2.43.0


From 2bdb2db73ea6ae2c41edb380f13966a810adfa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 31/62] fix: optional field whose name is capitalised is
 rejected by the generator

The name of its synthetic oneof, for which no C++ identifier is generated, was
taken to be a reserved C++ identifier.
---
 src/protoc-plugin/hpp_generator.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index ff4f92a..e8b494b 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -80,6 +80,14 @@ cpp::identifier cpp_identifier(std::string_view name, generation_diagnostics &di
   return cpp::identifier::from_protobuf_namespace("invalid_cpp_identifier").value();
 }
 
+// A name such as "_Field" is that of the synthetic oneof of an optional field, for which no C++ identifier is generated,
+// or that of a declared oneof, which validate_message_members() rejects.
+cpp::identifier oneof_identifier(std::string_view name, generation_diagnostics &diagnostics) {
+  auto identifier = name.starts_with('_') ? cpp::identifier::from_protobuf_namespace(name)
+                                          : cpp::identifier::from_proto(name);
+  return identifier.has_value() ? std::move(*identifier) : cpp_identifier(name, diagnostics);
+}
+
 bool is_generator_namespace_helper(const cpp::identifier &name) {
   return name.view() == "message_type_url" || name.view() == "pb_meta" || name.view() == "is_valid";
 }
@@ -420,7 +428,7 @@ struct hpp_addons {
 
     explicit oneof_descriptor(Derived &self, context_type &context, [[maybe_unused]] const auto &inherited_options,
                               [[maybe_unused]] std::pmr::memory_resource *resource)
-        : cpp_name(cpp_identifier(self.proto().name, context.generation->diagnostics)),
+        : cpp_name(oneof_identifier(self.proto().name, context.generation->diagnostics)),
           case_name(cpp_name.append_word(cpp_identifier("oneof_case", context.generation->diagnostics))),
           number_table_name(cpp_name.append_word(cpp_identifier("oneof_numbers", context.generation->diagnostics))) {}
   };
@@ -922,7 +930,12 @@ struct code_generator {
     validate_range(message.fields(), "field", false, false);
     validate_range(message.messages(), "nested message", true, false);
     validate_range(message.enums(), "nested enum", true, false);
-    validate_range(message.oneofs(), "oneof", false, false);
+    const auto is_declared = [](const auto &oneof) { return !oneof.fields()[0].proto().proto3_optional; };
+    auto declared_oneofs = message.oneofs() | std::views::filter(is_declared);
+    for (const auto &oneof : declared_oneofs) {
+      std::ignore = cpp_identifier(oneof.proto().name, diagnostics); // reports the names reserved by C++
+    }
+    validate_range(declared_oneofs, "oneof", false, false);
     validate_range(message.extensions(), "extension", false, true);
   }
 
-- 
2.43.0


From da85433b4af7784e5f3a02d22f53a8b2e0c24bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 32/62] fix: generated default values of bytes fields are
 escaped twice

The descriptor holds the default of a bytes field C escaped.
---
 include/hpp_proto/descriptor_pool.hpp         | 43 ++++++++++++++++++
 .../dynamic_message/factory_addons.hpp        | 44 +------------------
 src/protoc-plugin/hpp_generator.cpp           |  5 ++-
 3 files changed, 47 insertions(+), 45 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index 69fb180..a9b5a01 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -27,6 +27,7 @@
 #include <expected>
 #include <iostream>
 #include <memory_resource>
+#include <string_view>
 #include <system_error>
 #include <type_traits>
 #include <unordered_set>
@@ -65,6 +66,48 @@ template <typename AddOns>
 struct descriptor_pool_addon_context<AddOns, std::void_t<typename AddOns::context_type>> {
   using type = AddOns::context_type;
 };
+
+/// Undo the C escaping which descriptors apply to the default values of bytes fields.
+inline void c_unescape(std::string_view text, auto &out) {
+  constexpr std::string_view escapes = "abfnrtv";
+  constexpr std::string_view escaped = "\a\b\f\n\r\t\v";
+  const auto digit = [&text](std::size_t pos, unsigned int radix) -> unsigned int {
+    const char c = pos < text.size() ? text[pos] : '\0';
+    unsigned int value = radix;
+    if (c >= '0' && c <= '9') {
+      value = static_cast<unsigned int>(c - '0');
+    } else if (c >= 'a' && c <= 'f') {
+      value = static_cast<unsigned int>(c - 'a') + 10U;
+    } else if (c >= 'A' && c <= 'F') {
+      value = static_cast<unsigned int>(c - 'A') + 10U;
+    }
+    return value;
+  };
+  const auto append_number = [&](std::size_t pos, unsigned int radix, std::size_t max_digits) {
+    unsigned int value = 0;
+    std::size_t count = 0;
+    for (; count < max_digits && digit(pos + count, radix) < radix; ++count) {
+      value = (value * radix) + digit(pos + count, radix);
+    }
+    out.push_back(static_cast<char>(value));
+    return pos + count;
+  };
+
+  out.reserve(text.size());
+  for (std::size_t i = 0; i < text.size();) {
+    if (text[i] != '\\' || i + 1 == text.size()) {
+      out.push_back(text[i++]);
+    } else if (digit(i + 1, 8) < 8) {
+      i = append_number(i + 1, 8, 3);
+    } else if ((text[i + 1] == 'x' || text[i + 1] == 'X') && digit(i + 2, 16) < 16) {
+      i = append_number(i + 2, 16, 2);
+    } else {
+      const auto pos = escapes.find(text[i + 1]);
+      out.push_back(pos == std::string_view::npos ? text[i + 1] : escaped[pos]);
+      i += 2;
+    }
+  }
+}
 } // namespace detail
 
 template <typename AddOns>
diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 81b7271..e46d4e5 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -121,48 +121,6 @@ struct dynamic_message_factory_addons {
     return parsed;
   }
 
-  /// Undo the C escaping which descriptors apply to the default values of bytes fields.
-  static void unescape(std::string_view text, string_t &out) {
-    constexpr std::string_view escapes = "abfnrtv";
-    constexpr std::string_view escaped = "\a\b\f\n\r\t\v";
-    const auto digit = [&text](std::size_t pos, unsigned int radix) -> unsigned int {
-      const char c = pos < text.size() ? text[pos] : '\0';
-      unsigned int value = radix;
-      if (c >= '0' && c <= '9') {
-        value = static_cast<unsigned int>(c - '0');
-      } else if (c >= 'a' && c <= 'f') {
-        value = static_cast<unsigned int>(c - 'a') + 10U;
-      } else if (c >= 'A' && c <= 'F') {
-        value = static_cast<unsigned int>(c - 'A') + 10U;
-      }
-      return value;
-    };
-    const auto append_number = [&](std::size_t pos, unsigned int radix, std::size_t max_digits) {
-      unsigned int value = 0;
-      std::size_t count = 0;
-      for (; count < max_digits && digit(pos + count, radix) < radix; ++count) {
-        value = (value * radix) + digit(pos + count, radix);
-      }
-      out.push_back(static_cast<char>(value));
-      return pos + count;
-    };
-
-    out.reserve(text.size());
-    for (std::size_t i = 0; i < text.size();) {
-      if (text[i] != '\\' || i + 1 == text.size()) {
-        out.push_back(text[i++]);
-      } else if (digit(i + 1, 8) < 8) {
-        i = append_number(i + 1, 8, 3);
-      } else if ((text[i + 1] == 'x' || text[i + 1] == 'X') && digit(i + 2, 16) < 16) {
-        i = append_number(i + 2, 16, 2);
-      } else {
-        const auto pos = escapes.find(text[i + 1]);
-        out.push_back(pos == std::string_view::npos ? text[i + 1] : escaped[pos]);
-        i += 2;
-      }
-    }
-  }
-
   template <typename Derived>
   struct field_descriptor {
     using type = void;
@@ -266,7 +224,7 @@ struct dynamic_message_factory_addons {
         default_value_ = proto.default_value == "true";
         break;
       case TYPE_BYTES:
-        unescape(proto.default_value, default_bytes_);
+        detail::c_unescape(proto.default_value, default_bytes_);
         break;
       default:
         break;
diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index e8b494b..feac738 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -359,8 +359,9 @@ struct hpp_addons {
 
     void set_bytes_default_value(const FieldDescriptorProto &proto) {
       if (!proto.default_value.empty()) {
-        default_value_template_arg =
-            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{proto.default_value});
+        std::string bytes;
+        ::hpp_proto::detail::c_unescape(proto.default_value, bytes);
+        default_value_template_arg = cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{bytes});
         default_value = default_value_template_arg;
       }
     }
-- 
2.43.0


From c91fc4c4de3b8c10242becaa125769f90f8bcc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 33/62] fix: oneof alternative of the type of an enclosing
 message does not compile

The alternative was held by value in the incomplete message.
---
 src/protoc-plugin/hpp_generator.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index feac738..30f0fe2 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1315,6 +1315,26 @@ struct msg_code_generator : code_generator {
     return parent != nullptr && message_type != nullptr && message_type->forward_messages.contains(parent);
   }
 
+  // Whether the type of a message field is still incomplete where the field is declared.
+  static bool has_incomplete_message_type(field_descriptor_t &descriptor) {
+    using enum FieldDescriptorProto::Type;
+    if (descriptor.proto().type != TYPE_MESSAGE && descriptor.proto().type != TYPE_GROUP) {
+      return false;
+    }
+    auto *message_type = descriptor.message_field_type_descriptor();
+    for (auto *scope = descriptor.parent_message(); scope != nullptr; scope = scope->parent_message()) {
+      if (scope == message_type) {
+        return true;
+      }
+      for (auto *type = message_type; type != nullptr; type = type->parent_message()) {
+        if (scope->forward_messages.contains(type)) {
+          return true;
+        }
+      }
+    }
+    return false;
+  }
+
   static cpp::source_fragment oneof_field_type(field_descriptor_t &descriptor) {
     if (needs_indirect_oneof_alternative(descriptor)) {
       return cpp::format(
@@ -1322,6 +1342,9 @@ struct msg_code_generator : code_generator {
           "indirect_t<{0}>>",
           field_template_argument_type(descriptor));
     }
+    if (has_incomplete_message_type(descriptor)) {
+      return cpp::format("typename Traits::template indirect_t<{}>", field_template_argument_type(descriptor));
+    }
     return field_template_argument_type(descriptor);
   }
 
@@ -1389,7 +1412,9 @@ struct msg_code_generator : code_generator {
       cpp::emit_to(target, "{}std::variant<std::monostate{}> {};\n", source_indent(), types, descriptor.cpp_name);
     } else {
       auto &f = fields[0];
-      cpp::emit_to(target, "{}std::optional<{}> {};\n", source_indent(), field_template_argument_type(f), f.cpp_name);
+      const auto wrapper = has_incomplete_message_type(f) ? cpp::source_fragment{"Traits::template optional_indirect_t"}
+                                                          : cpp::source_fragment{"std::optional"};
+      cpp::emit_to(target, "{}{}<{}> {};\n", source_indent(), wrapper, field_template_argument_type(f), f.cpp_name);
     }
   }
 
-- 
2.43.0


From 16c34d756eac9f667787932cc54bac85f55ced83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 34/62] fix: nested message with a field of an enclosing
 message type does not compile

---
 src/protoc-plugin/hpp_generator.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 30f0fe2..056e255 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -446,6 +446,7 @@ struct hpp_addons {
     cpp::source_fragment no_namespace_qualified_name;
     bool has_recursive_map_field = false;
     bool has_non_map_nested_message = false;
+    bool is_used_by_nested_message = false;
 
     explicit message_descriptor(Derived &self, context_type &context, [[maybe_unused]] const auto &inherited_options,
                                 [[maybe_unused]] std::pmr::memory_resource *resource)
@@ -726,7 +727,8 @@ struct code_generator {
            std::views::filter([](const auto &dep) { return dep != "hpp_proto/hpp_options.proto"; });
   }
 
-  static void set_field_cpp_type(field_descriptor_t &field, std::string_view relative_type_name, bool is_nested,
+  static void set_field_cpp_type(field_descriptor_t &field, std::string_view field_message_name,
+                                 std::string_view relative_type_name, bool is_nested,
                                  generation_diagnostics &diagnostics) {
     using enum FieldDescriptorProto::Type;
     auto type = field.proto().type;
@@ -739,6 +741,13 @@ struct code_generator {
     if (field.is_foreign) {
       field.cpp_field_type = field.qualified_cpp_field_type;
     } else if (field.is_recursive) {
+      auto *message_type = field.message_field_type_descriptor();
+      if (message_type->full_name() != field_message_name) {
+        // the enclosing message, which is yet to be declared, and whose template arguments cannot be omitted here
+        message_type->is_used_by_nested_message = true;
+        field.cpp_field_type = field.qualified_cpp_field_type;
+        return;
+      }
       // only the last component of the type_name should be used
       field.cpp_field_type = cpp::format("{}", field.message_field_type_descriptor()->cpp_name);
     } else if (is_nested) {
@@ -809,7 +818,8 @@ struct code_generator {
 
     auto relative_field_type =
         field_type_name.substr(common_ancestor.size() + (field_type_name.size() > common_ancestor.size() ? 1 : 0));
-    set_field_cpp_type(field, relative_field_type, common_ancestor.size() == field_message_name.size(), diagnostics);
+    set_field_cpp_type(field, field_message_name, relative_field_type,
+                       common_ancestor.size() == field_message_name.size(), diagnostics);
 
     // If the common ancestor equals dependee_name, the field's type is a nested enum of the enclosing message or a
     // file level enum. If the common ancestor equals dependent_name, the field's type is a nested message of the
@@ -1466,6 +1476,12 @@ struct msg_code_generator : code_generator {
                    "{0}struct {1};\n",
                    source_indent(), fwd->cpp_name);
     }
+    if (descriptor.is_used_by_nested_message) {
+      cpp::emit_to(target,
+                   "{0}template <typename Traits>\n"
+                   "{0}struct {1};\n",
+                   source_indent(), descriptor.cpp_name);
+    }
 
     if (!descriptor.enums().empty() || descriptor.has_non_map_nested_message) {
       cpp::emit_to(target, "{}namespace {} {{\n", source_indent(), descriptor.nested_scope_name);
-- 
2.43.0


From 651243fa7f0292569e2071002d0c127ac875c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 35/62] fix: mutually recursive messages are declared in a
 wrong order

A message was emitted as soon as one of its dependencies was broken, which might be
the dependency on itself, or a dependency on a nested type, for which a forward
declaration is not sufficient; and the fields of nested messages were not made
indirect.
---
 src/protoc-plugin/hpp_generator.cpp | 56 +++++++++++++++++------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 056e255..f2ed833 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -442,6 +442,7 @@ struct hpp_addons {
     std::vector<void *> used_by_fields;
     std::set<Derived *> dependencies;
     std::set<Derived *> forward_messages;
+    std::set<Derived *> nested_type_dependencies; // those of which a nested type is used: a forward declaration won't do
     cpp::source_fragment qualified_name;
     cpp::source_fragment no_namespace_qualified_name;
     bool has_recursive_map_field = false;
@@ -563,9 +564,9 @@ struct code_generator {
   }
 
   // NOLINTBEGIN(misc-no-recursion)
-  static void mark_field_recursive(message_descriptor_t &descriptor, std::string_view dep) {
+  static void mark_field_recursive(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
     for (auto &f : descriptor.fields()) {
-      if (f.cpp_field_type.view() == dep) {
+      if (f.message_field_type_descriptor() == dep) {
         f.is_recursive = true;
       }
     }
@@ -592,9 +593,7 @@ struct code_generator {
     }
 
     for (auto [m, no_non_repeated_usage] : used_by_messages) {
-      if (!no_non_repeated_usage && !m->is_map_entry()) {
-        m->dependencies.erase(depended);
-        m->forward_messages.insert(depended);
+      if (!no_non_repeated_usage && !m->is_map_entry() && remove_dependency(*m, depended)) {
         return m;
       }
     }
@@ -620,22 +619,18 @@ struct code_generator {
       if (!no_non_map_usage) {
         auto *owner = m->parent_message();
         // Only break this map edge when its owner is still unresolved (i.e.
-        // genuinely part of the stalled cycle). Returning an already-resolved owner
-        // makes no progress in order_messages' main loop (it is push_back'd onto
-        // resolved_messages but never removed from unresolved_messages), which can
-        // spin forever. Minimal repro:
+        // genuinely part of the stalled cycle). Otherwise order_messages' main loop
+        // makes no progress and can spin forever. Minimal repro:
         //   message A { B b = 1; }
         //   message B { A a = 1; }
         //   message Container { map<string, A> by_name = 1; }
         // The A<->B cycle stalls the sort; Container resolves early (its map value
         // is indirect, so it has no hard dependency); resolve_map_dependency_cycle
         // then keeps returning the already-resolved Container.
-        if (std::ranges::find(unresolved, owner) == unresolved.end()) {
+        if (std::ranges::find(unresolved, owner) == unresolved.end() || !remove_dependency(*owner, depended)) {
           continue;
         }
         owner->has_recursive_map_field = true;
-        owner->dependencies.erase(depended);
-        owner->forward_messages.insert(depended);
         return owner;
       }
     }
@@ -658,10 +653,30 @@ struct code_generator {
     return nullptr;
   }
 
-  static void resolve_dependency_cycle(message_descriptor_t &descriptor) {
+  // Whether a forward declaration can take the place of the dependency.
+  static bool remove_dependency(message_descriptor_t &descriptor, message_descriptor_t *depended) {
+    if (descriptor.nested_type_dependencies.contains(depended) || descriptor.dependencies.erase(depended) == 0) {
+      return false;
+    }
+    descriptor.forward_messages.insert(depended);
+    return true;
+  }
+
+  static void resolve_dependency_cycle(const std::vector<message_descriptor_t *> &unresolved) {
+    for (auto *message : std::ranges::reverse_view{unresolved}) {
+      const auto dependencies = message->dependencies;
+      for (auto *depended : dependencies) {
+        if (remove_dependency(*message, depended)) {
+          mark_field_recursive(*message, depended);
+          return;
+        }
+      }
+    }
+    // every dependency of the cycle is on a nested type: no order of declarations satisfies them
+    auto &descriptor = *unresolved.back();
     auto *dep = *descriptor.dependencies.begin();
     descriptor.forward_messages.insert(descriptor.dependencies.extract(descriptor.dependencies.begin()));
-    mark_field_recursive(descriptor, dep->cpp_name.view());
+    mark_field_recursive(descriptor, dep);
   }
 
   static std::vector<message_descriptor_t *> order_messages(auto messages_view) {
@@ -694,15 +709,9 @@ struct code_generator {
       if (!to_remove.empty()) {
         unresolved_messages.erase(to_remove.begin(), to_remove.end());
       } else {
-        auto *to_be_resolved = resolve_container_dependency_cycle(unresolved_messages);
-        if (to_be_resolved != nullptr) {
-          resolved_messages.push_back(to_be_resolved);
-          auto to_remove = std::ranges::remove(unresolved_messages, to_be_resolved);
-          unresolved_messages.erase(to_remove.begin(), to_remove.end());
-        } else {
+        if (resolve_container_dependency_cycle(unresolved_messages) == nullptr) {
           std::ranges::sort(unresolved_messages, [](auto lhs, auto rhs) { return lhs->cpp_name < rhs->cpp_name; });
-          auto *x = *(unresolved_messages.rbegin());
-          resolve_dependency_cycle(*x);
+          resolve_dependency_cycle(unresolved_messages);
         }
       }
     }
@@ -833,6 +842,9 @@ struct code_generator {
     if (dependent_msg != nullptr && dependee_msg != nullptr &&
         dependent_msg->parent_file() == dependee_msg->parent_file()) {
       dependent_msg->dependencies.insert(dependee_msg);
+      if (dependee_msg->full_name() != field_type_name) {
+        dependent_msg->nested_type_dependencies.insert(dependee_msg);
+      }
     }
   }
 
-- 
2.43.0


From 0d9dcd9ed150071265925ca6bcc9cfaf57cd6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 36/62] fix: declarations named std produce headers which do
 not compile

The generated code refers to namespace std by its unqualified name, which such a
declaration hides. Reject it as the other names which collide with generated code.
---
 src/protoc-plugin/hpp_generator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f2ed833..7a1eeac 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -89,7 +89,8 @@ cpp::identifier oneof_identifier(std::string_view name, generation_diagnostics &
 }
 
 bool is_generator_namespace_helper(const cpp::identifier &name) {
-  return name.view() == "message_type_url" || name.view() == "pb_meta" || name.view() == "is_valid";
+  return name.view() == "message_type_url" || name.view() == "pb_meta" || name.view() == "is_valid" ||
+         name.view() == "std"; // which would hide namespace std
 }
 
 cpp::identifier namespace_declaration_identifier(std::string_view name, generation_diagnostics &diagnostics) {
@@ -1054,6 +1055,11 @@ struct code_generator {
                         "package or set a non-reserved namespace_prefix",
                         file.proto().package, file.cpp_namespace.view()));
       }
+      if (std::format("::{}::", file.cpp_namespace.view()).contains("::std::")) {
+        diagnostics.record(std::format("protobuf package '{}' maps to C++ namespace '{}', which hides namespace std; rename "
+                                       "the package or set another namespace_prefix",
+                                       file.proto().package, file.cpp_namespace.view()));
+      }
       const auto [existing_package, package_inserted] =
           namespace_packages.emplace(file.cpp_namespace.str(), file.proto().package);
       if (!package_inserted && existing_package->second != file.proto().package) {
-- 
2.43.0


From ec461b384324aa790b8c4755026238157a34f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 37/62] fix: a request which cannot be serialized is reported
 before the call is started

ClientCallbackReactor::prepare() called OnDone(), which deletes the reactor of Stub::async_call(callback);
async_call() and the documented async_call(); start_read(); start_call() sequence then used the deleted
reactor or a call that does not exist. start_call() now reports the failure.
---
 include/hpp_proto/grpc/client.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index d87e0e1..0d68a15 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -140,6 +140,7 @@ class ClientCallbackReactor : public ClientCallbackSelector<static_cast<RpcType>
   using base = ClientCallbackSelector<static_cast<RpcType>(Method::rpc_type)>::reactor;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
+  ::grpc::Status request_status_; // the call is not created when the request cannot be serialized
 
 public:
   static const auto rpc_type = static_cast<RpcType>(Method::rpc_type);
@@ -154,9 +155,8 @@ public:
     if (result.ok()) {
       ::grpc::internal::ClientCallbackUnaryFactory::Create<::grpc::ByteBuffer, ::grpc::ByteBuffer>(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, &response_, this);
-    } else {
-      this->OnDone(result);
     }
+    request_status_ = std::move(result);
   }
 
   template <typename Stub>
@@ -174,9 +174,8 @@ public:
     if (result.ok()) {
       ::grpc::internal::ClientCallbackReaderFactory<::grpc::ByteBuffer>::Create(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, this);
-    } else {
-      this->OnDone(result);
     }
+    request_status_ = std::move(result);
   }
 
   template <typename Stub>
@@ -186,11 +185,19 @@ public:
         stub.channel_.get(), stub.template grpc_method<Method>(), &context, this);
   }
 
-  void start_call() { this->StartCall(); }
+  void start_call() {
+    if (request_status_.ok()) {
+      this->StartCall();
+    } else {
+      this->OnDone(::grpc::Status{request_status_}); // OnDone may delete this
+    }
+  }
   void start_read()
     requires Method::server_streaming
   {
-    this->StartRead(&response_);
+    if (request_status_.ok()) {
+      this->StartRead(&response_);
+    }
   }
 
   template <typename Traits>
@@ -232,12 +239,16 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddHold(holds);
+    if (request_status_.ok()) {
+      this->AddHold(holds);
+    }
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->RemoveHold();
+    if (request_status_.ok()) {
+      this->RemoveHold();
+    }
   }
 
   template <typename Traits>
-- 
2.43.0


From 2c0ded5bd2a693d9ae4f8bdb574c97e4ccb3f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 38/62] fix: ServerRPC write and finish with serialization
 options do not compile

---
 include/hpp_proto/grpc/server.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index de1db72..9fa0d17 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -106,7 +106,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
@@ -131,7 +131,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -142,7 +142,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
@@ -154,7 +154,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
@@ -166,13 +166,13 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     this->finish(reply, ::grpc::WriteOptions{}, ::grpc::Status{},
-                 std::forward<serialization_option>(serialization_option)...);
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<serialization_option>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
@@ -204,7 +204,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -215,7 +215,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
-- 
2.43.0


From 4e85ba4bd63a1100739edc352466fc0124333d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 39/62] fix: a blocking call with a request which cannot be
 serialized aborts the process

---
 include/hpp_proto/grpc/client.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 0d68a15..1a39017 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -109,12 +109,16 @@ public:
   call(::grpc::ClientContext &context, const Request &request, Response &response,
        hpp_proto::concepts::is_option_type auto &&...option) {
     pb_context ctx{std::forward<decltype(option)>(option)...};
-    const hpp_proto::with_pb_context request_with_context{request, ctx};
-    hpp_proto::with_pb_context response_with_context{response, ctx};
-
-    return ::grpc::internal::BlockingUnaryCallImpl{this->channel_.get(), grpc_method<Method>(), &context,
-                                                   request_with_context, &response_with_context}
-        .status();
+    // gRPC asserts that a request passed to a blocking call can be serialized, so serialize it beforehand.
+    ::grpc::ByteBuffer request_buffer;
+    if (auto result = ::hpp_proto::grpc::write_binpb(request, request_buffer, ctx); !result.ok()) {
+      return result;
+    }
+    ::grpc::ByteBuffer response_buffer;
+    auto status = ::grpc::internal::BlockingUnaryCallImpl<::grpc::ByteBuffer, ::grpc::ByteBuffer>{
+        this->channel_.get(), grpc_method<Method>(), &context, request_buffer, &response_buffer}
+                      .status();
+    return status.ok() ? ::hpp_proto::grpc::read_binpb(response, response_buffer, ctx) : status;
   }
 
   template <typename Method, typename Request>
-- 
2.43.0


From 0ca8b0149cb9e045219fc44b226f376aaf2e96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 40/62] fix: holds of streaming calls do not compile

---
 include/hpp_proto/grpc/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 1a39017..4333dbb 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -244,7 +244,7 @@ public:
     requires(Method::client_streaming || Method::server_streaming)
   {
     if (request_status_.ok()) {
-      this->AddHold(holds);
+      this->AddMultipleHolds(holds);
     }
   }
   void remove_hold()
-- 
2.43.0


From 62368a2820d95fb9d49e2aa76c2ca631eefed26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 41/62] fix: base64 decoding accepted invalid characters in
 front of padding

---
 include/hpp_proto/json/base64.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/json/base64.hpp b/include/hpp_proto/json/base64.hpp
index c0ba9c7..b90d0a9 100644
--- a/include/hpp_proto/json/base64.hpp
+++ b/include/hpp_proto/json/base64.hpp
@@ -197,7 +197,10 @@ struct base64 {
   // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
   constexpr static bool validate_and_decode_quartet(uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint8_t ch_c,
                                                     uint8_t ch_d, auto &source_begin, auto const &source_end) noexcept {
-    if ((a | b | c | d) >= 64) {
+    if ((a | b) >= 64) {
+      return false; // padding can only replace the last two characters
+    }
+    if ((c | d) >= 64) {
       // Invalid character found. It might be padding.
       if (ch_d == '=' && ch_c == '=') { // XY==
         if (source_begin != source_end) {
@@ -210,7 +213,7 @@ struct base64 {
         if (source_begin != source_end) {
           return false;
         }
-        if (d != 64) {
+        if (c >= 64 || d != 64) {
           return false;
         }
       } else {
-- 
2.43.0


From 0b2996c465034fa536acd789ec5789436b3fcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 42/62] fix: timestamps with signs inside their numbers were
 accepted

---
 include/hpp_proto/json/timestamp_codec.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/json/timestamp_codec.hpp b/include/hpp_proto/json/timestamp_codec.hpp
index 506cec4..4dfc54d 100644
--- a/include/hpp_proto/json/timestamp_codec.hpp
+++ b/include/hpp_proto/json/timestamp_codec.hpp
@@ -50,6 +50,9 @@ private:
     if (remaining < width) {
       return false;
     }
+    if (*ptr == '-') { // std::from_chars accepts a sign
+      return false;
+    }
     const auto *const next = std::next(ptr, width);
     auto res = std::from_chars(ptr, next, val);
     if (res.ec != std::errc{} || res.ptr != next) {
@@ -97,7 +100,7 @@ private:
     ptr = std::next(ptr);
 
     const std::string_view nanos_sv{ptr, static_cast<std::size_t>(std::distance(ptr, end))};
-    if (nanos_sv.empty() || nanos_sv.length() > 9) {
+    if (nanos_sv.empty() || nanos_sv.length() > 9 || nanos_sv.front() == '-') {
       return false;
     }
 
-- 
2.43.0


From 2342ad406c8640029811c19807878d8bf87b46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 43/62] fix: base64 padding changed bytes decoded from text
 with unused bits set

---
 include/hpp_proto/json/base64.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/json/base64.hpp b/include/hpp_proto/json/base64.hpp
index b90d0a9..def2be1 100644
--- a/include/hpp_proto/json/base64.hpp
+++ b/include/hpp_proto/json/base64.hpp
@@ -186,7 +186,8 @@ struct base64 {
         return false;
       }
 
-      uint32_t const triple = (a << 18U) + (b << 12U) + (c << 6U) + d;
+      // padding decodes to 64, which must not carry into the bits of the characters before it
+      uint32_t const triple = (a << 18U) + (b << 12U) + ((c & 0x3FU) << 6U) + (d & 0x3FU);
       write_decoded_bytes(triple, decoded, j, len);
     }
     // NOLINTEND(cppcoreguidelines-pro-bounds-constant-array-index)
-- 
2.43.0


From 51a65e19fb5babf55c761ab89fe016cfb4be66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 44/62] fix: writing repeated fields copied every string and
 message

The elements of a repeated field which is not packed were converted to their own
type by value, so each string and each sub-message (with everything below it) was
copied while it was written, using memory from the heap or the default memory
resource whatever cache_alloc_from() says.
---
 include/hpp_proto/binpb/serialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index b7f2006..63832cf 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -772,8 +772,10 @@ template <concepts::dereferenceable T>
 
   if constexpr (concepts::has_meta<value_type> || !meta.is_packed() || meta.is_delimited()) {
     return std::ranges::all_of(item, [&](const auto &element) {
+      // only convert when the encoding needs another type; a conversion to the same type would copy the element
       using serialize_element_type =
-          std::conditional_t<concepts::is_map_entry<typename Meta::type>, decltype(element), element_type>;
+          std::conditional_t<concepts::is_map_entry<typename Meta::type> || std::same_as<element_type, value_type>,
+                             decltype(element), element_type>;
       return serialize_field(static_cast<serialize_element_type>(element), meta, cache_itr, archive);
     });
   } else if constexpr (concepts::byte_serializable<element_type>) {
-- 
2.43.0


From 9ae283cd88f08f3b15888c6cb98adab568f6fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 45/62] fix: a failed assignment left a flat_map with more keys
 than values

When copying the values throws after the keys have been copied, the containers had
different sizes and iterating the map read past the end of the values.  Restore the
invariant by clearing the map, like replace() does.
---
 include/hpp_proto/flat_map.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 56d60c6..96b4b1a 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -380,6 +380,9 @@ public:
   // This is all one massive overload set!
 
   flat_map() : flat_map(Compare()) {}
+  flat_map(const flat_map &) = default;
+  flat_map(flat_map &&) = default;
+  ~flat_map() = default;
 
   flat_map(KeyContainer keys, MappedContainer values)
       : c_{static_cast<KeyContainer &&>(keys), static_cast<MappedContainer &&>(values)}, compare_() {
@@ -568,6 +571,36 @@ public:
 
   // ========================================================== OTHER MEMBERS
 
+  // As in replace(), a failure must not leave the two containers with different sizes.
+  flat_map &operator=(const flat_map &other) {
+    if (this != &other) {
+      try {
+        c_.keys = other.c_.keys;
+        c_.values = other.c_.values;
+        compare_ = other.compare_;
+      } catch (...) {
+        this->clear();
+        throw;
+      }
+    }
+    return *this;
+  }
+
+  flat_map &operator=(flat_map &&other) noexcept(std::is_nothrow_move_assignable<KeyContainer>::value &&
+                                                 std::is_nothrow_move_assignable<MappedContainer>::value &&
+                                                 std::is_nothrow_move_assignable<Compare>::value) {
+    try {
+      c_.keys = static_cast<KeyContainer &&>(other.c_.keys);
+      c_.values = static_cast<MappedContainer &&>(other.c_.values);
+      compare_ = static_cast<Compare &&>(other.compare_);
+    } catch (...) {
+      this->clear();
+      other.clear();
+      throw;
+    }
+    return *this;
+  }
+
   flat_map &operator=(std::initializer_list<value_type> il) {
     this->clear();
     this->insert(il);
-- 
2.43.0


From 2f7070b5d5e3ef608ee89b9a1afc9063978f8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 46/62] fix: files without messages got no descriptor header,
 so headers of files which import them did not compile

---
 src/protoc-plugin/hpp_generator.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 7a1eeac..c0f8be4 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1128,9 +1128,6 @@ struct code_generator {
   static void validate_file_descriptor_names(const hpp_gen_descriptor_pool &pool, generation_diagnostics &diagnostics) {
     std::vector<file_descriptor_entity> entities;
     for (const auto &file : pool.files()) {
-      if (file.messages().empty()) {
-        continue;
-      }
       entities.push_back({.name = file.descriptor_name.qualified_descriptor_name(), .proto_file = file.proto().name});
       entities.push_back(
           {.name = file.descriptor_name.qualified_descriptor_set_name(), .proto_file = file.proto().name});
@@ -2522,10 +2519,8 @@ void generate_outputs_for_file(CodeGeneratorResponse &response, hpp_gen_descript
     return;
   }
 
-  if (!descriptor.messages().empty()) {
-    desc_hpp_generator desc_hpp_code(response.file, context);
-    desc_hpp_code.process(descriptor);
-  }
+  desc_hpp_generator desc_hpp_code(response.file, context);
+  desc_hpp_code.process(descriptor);
   if (context.diagnostics.has_error() || descriptor.proto().service.empty()) {
     return;
   }
-- 
2.43.0


From 256c99b0f87ee37da767c5faeab77868a1acbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 47/62] fix: descriptor headers of files in a directory named
 std did not compile

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index c0f8be4..aa881bc 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -2381,7 +2381,7 @@ struct desc_hpp_generator : code_generator {
                            [](std::uint8_t byte) { return static_cast<char>(byte); });
     const cpp::string_literal_bytes descriptor_literal{descriptor_bytes};
     cpp::emit_to(target,
-                 "using namespace std::literals::string_view_literals;\n"
+                 "using namespace ::std::literals::string_view_literals;\n"
                  "inline constexpr ::hpp_proto::file_descriptor_pb {}{{\n  ",
                  descriptor_name.descriptor_identifier());
     // libc++'s format output buffer overflows under ASan when one replacement
-- 
2.43.0


From fc68ac9dfc5e7730c7aa0f90551616c8a6a695b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 48/62] fix: qualify type names from the global namespace in
 generated code

A name such as a::b::M was emitted without the leading ::, so that within a
package like a.b.a (or a message called as the first component of a package)
the lookup started at the wrong scope and the header did not compile.
---
 src/protoc-plugin/hpp_generator.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index aa881bc..48a3c8f 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -743,7 +743,7 @@ struct code_generator {
     using enum FieldDescriptorProto::Type;
     auto type = field.proto().type;
     if (type == TYPE_ENUM) {
-      field.qualified_cpp_field_type = cpp::format("{}", field.enum_field_type_descriptor()->qualified_name);
+      field.qualified_cpp_field_type = cpp::format("::{}", field.enum_field_type_descriptor()->qualified_name);
     } else {
       field.qualified_cpp_field_type = cpp::format("{}", field.message_field_type_descriptor()->qualified_name);
     }
@@ -1166,7 +1166,7 @@ struct code_generator {
   // NOLINTNEXTLINE(misc-no-recursion)
   static void resolve_message_qualified_name(message_descriptor_t &msg, const message_name_scope &scope) {
     const auto unqualified_name = scope.nesting.append(msg.cpp_name);
-    msg.qualified_name = cpp::format("{}<Traits>", scope.namespace_prefix.append(unqualified_name));
+    msg.qualified_name = cpp::format("::{}<Traits>", scope.namespace_prefix.append(unqualified_name));
     msg.no_namespace_qualified_name = cpp::format("{}<Traits>", unqualified_name);
 
     const message_name_scope nested_scope = {
@@ -1520,7 +1520,7 @@ struct msg_code_generator : code_generator {
     indent_num += 2;
     format_to(target, "{}using hpp_proto_traits_type = Traits;\n", indent());
     for (auto &e : descriptor.enums()) {
-      cpp::emit_to(target, "{}using {} = {};\n", source_indent(), e.cpp_name, e.qualified_name);
+      cpp::emit_to(target, "{}using {} = ::{};\n", source_indent(), e.cpp_name, e.qualified_name);
     }
 
     if (well_known_codecs.contains(descriptor.pb_name)) {
@@ -2413,7 +2413,7 @@ struct service_generator : code_generator {
                     generation_context &generation)
       : code_generator(files, generation), pool(descriptor_pool) {}
 
-  cpp::source_fragment resolved_message_type(std::string_view proto_name) {
+  cpp::source_fragment resolved_message_type(std::string_view proto_name, const cpp::qualified_name &cpp_namespace) {
     if (proto_name.starts_with('.')) {
       proto_name.remove_prefix(1);
     }
@@ -2422,6 +2422,9 @@ struct service_generator : code_generator {
       context.diagnostics.record(std::format("RPC message type not found: {}", proto_name));
       return {};
     }
+    if (cpp_namespace.empty() && message->parent_file()->cpp_namespace.empty()) {
+      return message->qualified_name.substr(2); // no namespace in between that could hide the name
+    }
     return message->qualified_name;
   }
 
@@ -2468,8 +2471,8 @@ struct service_generator : code_generator {
         method_separator = cpp::source_fragment{","};
         const int rpc_type = (m.server_streaming ? 2 : 0) + (m.client_streaming ? 1 : 0);
         const cpp::string_literal_bytes method_path{"/" + proto_service_name + "/" + m.name};
-        const auto request_type = resolved_message_type(m.input_type);
-        const auto response_type = resolved_message_type(m.output_type);
+        const auto request_type = resolved_message_type(m.input_type, ns);
+        const auto response_type = resolved_message_type(m.output_type, ns);
         cpp::emit_to(target,
                      "  struct {} {{\n"
                      "    constexpr static const char* method_name = {};\n"
-- 
2.43.0


From ce1efd2f9942d688b586f5cc8f840cbd725e23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 49/62] fix: match proto2_explicit_presence scopes by whole
 components

The scope .pkg.msg1 also matched the fields of pkg.msg10; a scope without a
leading dot had its first character dropped and an empty one aborted.
---
 src/protoc-plugin/hpp_generator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 48a3c8f..4b017cc 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1373,6 +1373,16 @@ struct msg_code_generator : code_generator {
     return field_template_argument_type(descriptor);
   }
 
+  // whether the scope is the name itself, one of the scopes enclosing it or the root (".")
+  static bool is_in_scope(std::string_view name, std::string_view scope) {
+    if (!scope.starts_with('.')) {
+      return false;
+    }
+    scope.remove_prefix(1);
+    return name.starts_with(scope) && (scope.empty() || scope.ends_with('.') || name.size() == scope.size() ||
+                                       name[scope.size()] == '.');
+  }
+
   void set_presence_rule(field_descriptor_t &descriptor) const {
     using enum FieldDescriptorProto::Type;
     using enum FieldDescriptorProto::Label;
@@ -1384,7 +1394,7 @@ struct msg_code_generator : code_generator {
             : (descriptor.proto().label == LABEL_OPTIONAL &&
                (descriptor.proto().type == TYPE_MESSAGE || descriptor.proto().type == TYPE_GROUP ||
                 std::ranges::any_of(context.options().proto2_explicit_presences, [&qualified_name](const auto &s) {
-                  return qualified_name.starts_with(std::string_view{s}.substr(1));
+                  return is_in_scope(qualified_name, s);
                 })));
   }
 
-- 
2.43.0


From 2b899d57f509c43b4ac44e3d09f6661eee513ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 50/62] fix: initialize unwrapped string and bytes fields with
 their declared default

A value equal to the declared default is not written, so that a reader has to
start from it as it does for numbers; it started from the empty string.
---
 src/protoc-plugin/hpp_generator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 4b017cc..97a95de 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1403,9 +1403,13 @@ struct msg_code_generator : code_generator {
     cpp::source_fragment initializer{" = {}"};
     using enum FieldDescriptorProto::Type;
 
-    if (field_type_wrapper(descriptor).size() > 1 || descriptor.proto().type == TYPE_STRING ||
-        descriptor.proto().type == TYPE_BYTES) {
+    if (field_type_wrapper(descriptor).size() > 1) {
       initializer = {};
+    } else if (descriptor.proto().type == TYPE_STRING || descriptor.proto().type == TYPE_BYTES) {
+      initializer = {};
+      if (!descriptor.default_value_template_arg.empty()) {
+        initializer = cpp::format("{{{0}.begin(), {0}.end()}}", descriptor.default_value_template_arg);
+      }
     } else if (!descriptor.default_value.empty()) {
       initializer = cpp::format(" = {}", descriptor.default_value);
     }
-- 
2.43.0


From f066891a1d2e7e572ae85fe983b59b4dec78942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 51/62] fix: compare floating-point fields with their declared
 default bit by bit

A negative zero was taken for a declared default of zero and not written.
---
 include/hpp_proto/field_types.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 195dbe4..769576e 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -583,6 +583,10 @@ constexpr bool is_default_value(const T &val) {
     }
   } else if constexpr (requires { val.has_value(); }) {
     return val.has_value() && Default == *val;
+  } else if constexpr (std::floating_point<T>) {
+    // negative zero is distinct from zero and a NaN is equal to itself
+    using bits_type = std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+    return std::bit_cast<bits_type>(val) == std::bit_cast<bits_type>(static_cast<T>(Default));
   } else {
     return Default == val;
   }
-- 
2.43.0


From 941bb08af8600b9349fd248a387d7c81a2294d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 52/62] fix: keep bytes after a NUL when converting
 string_literal to std::string

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 769576e..252075e 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -540,7 +540,7 @@ struct string_literal {
   // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
   [[nodiscard]] constexpr const char *end() const { return str.data() + size(); }
 
-  explicit operator std::string() const { return std::string{data()}; }
+  explicit operator std::string() const { return std::string{data(), size()}; }
   constexpr operator std::string_view() const { return std::string_view(data(), size()); }
 
   friend constexpr bool operator==(const string_literal &lhs, const std::string &rhs) {
-- 
2.43.0


From 0a594970a7a155fc4f38c5237a57aeb4aa126ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 53/62] fix: make operator* of const rvalue optionals compile

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 252075e..9cf6682 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -237,7 +237,7 @@ public:
   constexpr const T &operator*() const & noexcept { return value(); }
 
   constexpr T &&operator*() && noexcept { return std::move(_value); }
-  constexpr const T &&operator*() const && noexcept { return value(); }
+  constexpr const T &&operator*() const && noexcept { return static_cast<const T &&>(_value); }
 
   template <typename... Args>
   constexpr T &emplace(Args &&...args) noexcept(std::is_nothrow_constructible_v<T, Args &&...> &&
-- 
2.43.0


From 6ffee057721dc036aad4024cdebeba3f92da2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 54/62] fix: keep the default when constructing optional from
 an empty std::optional of another type

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 9cf6682..ebecbd9 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -134,7 +134,7 @@ public:
   template <class U>
   constexpr optional(const std::optional<U> &other) noexcept(noexcept(default_value()) &&
                                                              std::is_nothrow_constructible_v<T, const U &>)
-      : _value(other.value_or(default_value())), _present(other.has_value()) {}
+      : _value(other.has_value() ? static_cast<T>(*other) : default_value()), _present(other.has_value()) {}
 
   template <class U>
   constexpr optional(std::optional<U> &&other) // NOLINT(cppcoreguidelines-rvalue-reference-param-not-moved)
-- 
2.43.0


From f92468efda108194e33d5568a0b443d101d0f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 55/62] fix: reject segmented input whose unknown field runs
 past the end of its message

The end of a nested message can lie inside a region of segmented input, so that a
truncated varint was completed with the bytes behind the message; splitting off
the field then failed an assertion.
---
 include/hpp_proto/binpb/deserialize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 756e140..e81b9a8 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -700,6 +700,10 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
+    if (archive.in_avail() < 0) [[unlikely]] {
+      // the end of the message can be inside a region, where a truncated varint continues with the bytes behind it
+      return std::errc::bad_message;
+    }
 
     auto field_len = static_cast<std::size_t>(unwound_archive.in_avail() - archive.in_avail());
     auto field_archive = unwound_archive.split(field_len);
-- 
2.43.0


From d78832e823306da28642cdc628397d8985665b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 56/62] fix: merge messages whose oneof holds a recursive
 message

merge() did not compile for them: such an alternative is kept in an indirect,
for which there was no overload.
---
 include/hpp_proto/merge.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index e1bdb62..b1412da 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -166,6 +166,12 @@ struct message_merger {
     }
   }
 
+  // a recursive message which is an alternative of a oneof
+  template <concepts::indirect T, typename U>
+  constexpr void perform(T &dest, U &&source) {
+    perform(*dest, *std::forward<U>(source));
+  }
+
   template <concepts::repeated T, typename U>
     requires(std::convertible_to<typename U::value_type, std::remove_const_t<typename T::value_type>> &&
              !std::is_lvalue_reference_v<U>)
-- 
2.43.0


From 9b15a9c0e8e290a7dfe4d1d0249ae770bbfd8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 57/62] fix: leave a repeated message field as it is when a
 range holds a message of another type

---
 .../hpp_proto/dynamic_message/repeated_message_fields.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
index c48bc8f..e6778c5 100644
--- a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
@@ -230,12 +230,14 @@ public:
   template <typename T>
     requires settable_from_v<T>
   std::expected<void, dynamic_message_errc> set(const T &v) const {
-    resize(v.size());
-
-    for (std::size_t i = 0; i < size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
       if (&message_descriptor() != &(v[i].descriptor())) {
         return std::unexpected(dynamic_message_errc::wrong_message_type);
       }
+    }
+
+    resize(v.size());
+    for (std::size_t i = 0; i < size(); ++i) {
       (*this)[i].clone_from(v[i]);
     }
     return {};
-- 
2.43.0


From e6401350764966a5872eabf9b42f756471124130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 58/62] fix: accept extensions of a file whose type is part of
 a message cycle

---
 src/protoc-plugin/hpp_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 97a95de..93b2c3f 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -583,7 +583,7 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      if (message == nullptr || message->parent_file() != depended->parent_file()) { // null for extensions of a file
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end()) {
@@ -607,7 +607,7 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      if (message == nullptr || message->parent_file() != depended->parent_file()) { // null for extensions of a file
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end() || message->is_map_entry()) {
-- 
2.43.0


From 48fe45b5c851837d31db6d96f08b56cf8e3792fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 59/62] fix: declare nested enums ahead of all messages so that
 messages can use each other's enums

---
 src/protoc-plugin/hpp_generator.cpp | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 93b2c3f..0321121 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -833,8 +833,9 @@ struct code_generator {
 
     // If the common ancestor equals dependee_name, the field's type is a nested enum of the enclosing message or a
     // file level enum. If the common ancestor equals dependent_name, the field's type is a nested message of the
-    // parent message. In either case there is no external dependency to record, so return.
-    if (dependee_name.size() == common_ancestor.size() || dependent_name.size() == common_ancestor.size()) {
+    // parent message. In either case there is no external dependency to record, so return. Enums precede all messages.
+    if (type == TYPE_ENUM || dependee_name.size() == common_ancestor.size() ||
+        dependent_name.size() == common_ancestor.size()) {
       return;
     }
     message_descriptor_t *dependent_msg = pool.get_message_descriptor(dependent_name);
@@ -1253,6 +1254,7 @@ struct msg_code_generator : code_generator {
     for (auto &e : descriptor.enums()) {
       process(e);
     }
+    process_nested_enums(descriptor.messages());
 
     for (auto *m : order_messages(descriptor.messages())) {
       process(*m, descriptor.proto().package);
@@ -1490,6 +1492,30 @@ struct msg_code_generator : code_generator {
   }
 
   // NOLINTBEGIN(misc-no-recursion,readability-function-cognitive-complexity)
+  // Enums depend on nothing: emitted ahead of the messages, they never constrain the order of those.
+  // NOLINTBEGIN(misc-no-recursion)
+  static bool has_enum_in_scope(message_descriptor_t &descriptor) {
+    return !descriptor.enums().empty() ||
+           std::ranges::any_of(descriptor.messages(), [](auto &m) { return has_enum_in_scope(m); });
+  }
+
+  void process_nested_enums(auto &&messages) {
+    for (auto &m : messages) {
+      if (!has_enum_in_scope(m)) {
+        continue;
+      }
+      cpp::emit_to(target, "{}namespace {} {{\n", source_indent(), m.nested_scope_name);
+      indent_num += 2;
+      for (auto &e : m.enums()) {
+        process(e);
+      }
+      process_nested_enums(m.messages());
+      indent_num -= 2;
+      cpp::emit_to(target, "{}}} //namespace {}\n\n", source_indent(), m.nested_scope_name);
+    }
+  }
+  // NOLINTEND(misc-no-recursion)
+
   void process(message_descriptor_t &descriptor, const std::string &pb_scope) {
     if (descriptor.is_map_entry()) {
       return;
@@ -1512,13 +1538,9 @@ struct msg_code_generator : code_generator {
                    source_indent(), descriptor.cpp_name);
     }
 
-    if (!descriptor.enums().empty() || descriptor.has_non_map_nested_message) {
+    if (descriptor.has_non_map_nested_message) {
       cpp::emit_to(target, "{}namespace {} {{\n", source_indent(), descriptor.nested_scope_name);
       indent_num += 2;
-      for (auto &e : descriptor.enums()) {
-        process(e);
-      }
-
       for (auto *m : order_messages(descriptor.messages())) {
         process(*m, descriptor.pb_name);
       }
-- 
2.43.0


From 6947eba72c70257ffb7d962dca6fc8756cc3f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 60/62] fix: mark every field on a forward-declared message as
 recursive, also map fields

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 0321121..438c676 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -660,6 +660,7 @@ struct code_generator {
       return false;
     }
     descriptor.forward_messages.insert(depended);
+    mark_field_recursive(descriptor, depended); // all of them: repeated, singular and map fields alike
     return true;
   }
 
@@ -668,7 +669,6 @@ struct code_generator {
       const auto dependencies = message->dependencies;
       for (auto *depended : dependencies) {
         if (remove_dependency(*message, depended)) {
-          mark_field_recursive(*message, depended);
           return;
         }
       }
-- 
2.43.0


From 0b3437d31160eea7c6f7b8cfb4a6f12496f5b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:52 +0000
Subject: [PATCH 61/62] fix: reject unknown values of closed enum fields that
 are required by an editions feature

With field_presence = LEGACY_REQUIRED the label of the field stays optional, and
the generated field was taken for a flattened optional one, read as an open enum.
---
 src/protoc-plugin/hpp_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 438c676..719a826 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1748,7 +1748,8 @@ struct hpp_meta_generator : code_generator {
     const auto *parent = descriptor.parent_message();
     const bool is_unwrapped_singular_field = descriptor.extendee_descriptor() == nullptr && parent != nullptr &&
                                              !parent->is_map_entry() && descriptor.proto().label == LABEL_OPTIONAL &&
-                                             !descriptor.proto().oneof_index.has_value() && !descriptor.is_cpp_optional;
+                                             !descriptor.proto().oneof_index.has_value() && !descriptor.is_cpp_optional &&
+                                             !descriptor.is_required();
 
     // protoc does not permit a closed enum with implicit presence. When hpp-gen deliberately flattens a proto2
     // optional enum into a scalar, give that C++ representation open-enum wire behavior. The generated is_valid()
-- 
2.43.0


From a5417452b5028e6f5dc9281531f647d36b698afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 62/62] fix: do not look up an overloaded comma operator for
 flat_map iterators

Asking whether a flat_map is a range instantiated the associated classes of its
iterators: the generated headers of a message with a map of messages which contain
that message did not compile with stable_traits, the class being incomplete.
---
 include/hpp_proto/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 96b4b1a..5ae2358 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -43,8 +43,8 @@ namespace flatmap_detail {
 template <class T, class = void>
 struct qualifies_as_range : std::false_type {};
 template <class T>
-struct qualifies_as_range<T, decltype(std::begin(std::declval<T()>()()), void(), std::end(std::declval<T()>()()),
-                                      void())> : std::true_type {};
+struct qualifies_as_range<T, decltype(void(std::begin(std::declval<T()>()())), void(std::end(std::declval<T()>()())))>
+    : std::true_type {};
 
 template <class It>
 using is_random_access_iterator =
-- 
2.43.0

