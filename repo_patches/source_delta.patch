From 3844cbe15c9d50a5ff320b6243bffe6efcb09f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 01/53] fix: pb reader overwrites the start of the value on
 short reads

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..6c03919 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = static_cast<uint8_t *>(data);
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From 19151a1f2d84b64c0c957b86351341f42c26d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 02/53] fix: pb buffer stream calls memcpy with a null pointer
 for empty bytes

---
 include/spb/pb/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 6c03919..1aca9c3 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -139,6 +139,9 @@ struct istream_buffer
     [[nodiscard]] size_t read(void *data, size_t data_size) noexcept
     {
         data_size = std::min(data_size, size());
+        if (data_size == 0) [[unlikely]]
+            return 0;
+
         memcpy(data, p_start, data_size);
         p_start += data_size;
         return data_size;
-- 
2.43.0


From 5e1978b2959f5fd24b08a65dd8bd6455fb2d444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 03/53] fix: pb field tags above 32 bits are silently truncated

---
 include/spb/pb/deserialize.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1aca9c3..7d90387 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -233,16 +233,18 @@ void check_if_empty_or_throw(auto &stream)
         return tag_type::invalid;
 
     auto byte = (uint8_t)(byte_or_eof);
-    auto tag  = (uint32_t)(byte & 0x7F);
+    auto tag  = (uint64_t)(byte & 0x7F);
 
     for (size_t shift = CHAR_BIT - 1; (byte & 0x80) != 0; shift += CHAR_BIT - 1)
     {
-        if (shift >= sizeof(tag) * CHAR_BIT) [[unlikely]]
+        if (shift >= sizeof(tag_type) * CHAR_BIT) [[unlikely]]
             throw std::runtime_error("invalid tag");
 
         byte = stream.read_byte_or_throw();
         tag |= uint64_t(byte & 0x7F) << shift;
     }
+    if (tag > std::numeric_limits<uint32_t>::max()) [[unlikely]]
+        throw std::runtime_error("invalid tag");
 
     const auto result = tag_type(tag);
     check_tag_or_throw(result);
-- 
2.43.0


From 6d0ca823b885e2b6eee8be221bbd0c2fdce35d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 04/53] fix: truncated delimited message is accepted when read
 by a reader

---
 include/spb/pb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..8fd2d7e 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -159,6 +159,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From cb60091529118647df1fd3392c69c095cb2a4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 05/53] fix: pb repeated numbers have to be accepted packed and
 unpacked

---
 include/spb/pb/deserialize.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 7d90387..9345eb0 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -551,8 +551,6 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize_packed(auto &stream, Container &value)
 {
-    static_assert(is_packed(mode.encoder));
-
     while (!stream.empty())
     {
         if constexpr (mode.max_count)
@@ -604,23 +602,24 @@ void deserialize(auto &stream, Container &value, wire_type type)
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize(auto &stream, Container &value, wire_type type)
 {
-    if constexpr (is_packed(mode.encoder))
+    //- numbers are accepted packed and also unpacked, regardless of how the field is declared
+    if constexpr (spb::detail::proto_field_number<typename Container::value_type>)
     {
-        deserialize_packed<mode>(stream, value);
+        if (type == wire_type::length_delimited)
+            return deserialize_packed<mode>(stream, value);
+    }
+
+    if constexpr (mode.max_count)
+        check_size(value.size() + 1, mode.max_count);
+
+    if constexpr (std::is_same_v<typename Container::value_type, bool>)
+    {
+        check_wire_type_or_throw(type, wire_type::varint);
+        value.emplace_back(read_varint<bool>(stream));
     }
     else
     {
-        if constexpr (mode.max_count)
-            check_size(value.size() + 1, mode.max_count);
-
-        if constexpr (std::is_same_v<typename Container::value_type, bool>)
-        {
-            value.emplace_back(read_varint<bool>(stream));
-        }
-        else
-        {
-            deserialize<mode>(stream, value.emplace_back(), type);
-        }
+        deserialize<reset_packed(mode)>(stream, value.emplace_back(), type);
     }
 }
 
-- 
2.43.0


From 5ee17a39d7a29d042d33a827dc82704a4d69da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/53] fix: pb repeated occurrences of a singular message have
 to be merged

---
 include/spb/pb/deserialize.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 9345eb0..ec505c1 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <string_view>
 #include <type_traits>
+#include <variant>
 
 namespace spb::pb::detail
 {
@@ -497,7 +498,8 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
-    auto &value = p_value.emplace(typename Container::value_type());
+    //- repeated occurrences of a message are merged
+    auto &value = p_value.has_value() ? *p_value : p_value.emplace(typename Container::value_type());
     deserialize<mode>(stream, value, type);
 }
 
@@ -524,7 +526,10 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    //- repeated occurrences of a message are merged
+    if (!value)
+        value = std::make_unique<T>();
+
     deserialize<mode>(stream, *value, type);
 }
 
@@ -707,7 +712,11 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
-    deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
+    //- repeated occurrences of a message are merged
+    if (variant.index() != ordinal)
+        variant.template emplace<ordinal>();
+
+    deserialize<mode>(stream, std::get<ordinal>(variant), type);
 }
 
 template <serialize_mode>
-- 
2.43.0


From 48b2285fa773678070f4e68df47a985c38ce9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 07/53] fix: pb map entries with missing key or value, unknown
 fields or a repeated key

---
 include/spb/pb/deserialize.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index ec505c1..2cb9463 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -640,9 +640,7 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
-    auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
+    auto pair = std::pair<key_type, mapped_type>();
     while (!stream.empty())
     {
         const auto tag          = tag_type(read_varint<uint32_t>(stream));
@@ -672,7 +670,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -693,20 +690,16 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+                stream.skip_or_throw(read_varint<uint32_t>(stream));
+            else
+                skip(stream, field_type);
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        value.insert(std::move(pair));
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    //- missing key or value has the default value, last value wins
+    value[std::move(pair.first)] = std::move(pair.second);
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 1ff76d54cbbe9e04852fa5467d4214f9d0b74d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 08/53] fix: pb drops empty strings, bytes and messages from
 optional, repeated, map and oneof

---
 include/spb/pb/serialize.hpp                | 29 +++++++++++++++++----
 include/spb/pb/wire-types.h                 |  8 ++++++
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  3 ++-
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..936b695 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -118,6 +118,13 @@ void serialize_tag(auto &stream, uint32_t field_number, wire_type type)
     serialize_varint(stream, tag);
 }
 
+//- empty string, bytes or message
+void serialize_empty(auto &stream, uint32_t field_number)
+{
+    serialize_tag(stream, field_number, wire_type::length_delimited);
+    serialize_varint(stream, 0);
+}
+
 template <serialize_mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value);
 template <serialize_mode>
@@ -251,7 +258,11 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_stri
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
     if (value.empty())
+    {
+        if constexpr (mode.keep_empty)
+            serialize_empty(stream, field);
         return;
+    }
 
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
@@ -270,7 +281,11 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_byte
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
     if (value.empty())
+    {
+        if constexpr (mode.keep_empty)
+            serialize_empty(stream, field);
         return;
+    }
 
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
@@ -286,8 +301,8 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
     if (value.empty())
         return;
 
-    constexpr auto key_encoder   = serialize_mode{.encoder = mode.encoder};
-    constexpr auto value_encoder = serialize_mode{.encoder = mode.encoder2};
+    constexpr auto key_encoder   = serialize_mode{.encoder = mode.encoder, .keep_empty = true};
+    constexpr auto value_encoder = serialize_mode{.encoder = mode.encoder2, .keep_empty = true};
 
     for (const auto &[k, v] : value)
     {
@@ -325,7 +340,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize<set_keep_empty(mode)>(stream, field, value);
         }
     }
 }
@@ -346,14 +361,14 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize<set_keep_empty(mode)>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize<set_keep_empty(mode)>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
@@ -361,7 +376,11 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
 {
     const auto size = serialize_size<mode>(value);
     if (!size) [[unlikely]]
+    {
+        if constexpr (mode.keep_empty)
+            serialize_empty(stream, field);
         return;
+    }
 
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 5327182..00af246 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -59,6 +59,8 @@ struct serialize_mode
     scalar_encoder encoder2 = {};
     size_t max_count        = 0;
     size_t max_size         = 0;
+    //- write also empty string, bytes or message (optional, repeated, map, oneof)
+    bool keep_empty         = false;
 };
 
 constexpr auto make_packed(scalar_encoder a) noexcept -> scalar_encoder
@@ -82,6 +84,12 @@ constexpr auto encoder_type(scalar_encoder a) noexcept -> scalar_encoder
     return scalar_encoder(a & 0x07);
 }
 
+constexpr auto set_keep_empty(serialize_mode a) noexcept -> serialize_mode
+{
+    a.keep_empty = true;
+    return a;
+}
+
 constexpr auto to_wire_type(scalar_encoder a) noexcept -> wire_type
 {
     switch (encoder_type(a))
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..024f278 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -213,8 +213,9 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
         stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "set_keep_empty(";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
-        stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
+        stream << ")>(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n";
     }
     stream << "\t\t}\n\t}\n\n";
-- 
2.43.0


From 856b7eff31e233ba02ea9776119878b8f392bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 09/53] fix: only the first oneof of a message is serialized

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 +++----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..28d9f45 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,14 +209,13 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 024f278..87ed7cb 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,11 +212,11 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         stream << "set_keep_empty(";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ")>(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From 3caace8ad04016491bbeba45656e8ceea4b6ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 10/53] fix: undefined shift in the range check of 64 bit
 fields

---
 include/spb/bits.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..e22b9db 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -27,8 +27,8 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    const decltype(value) max = INT64_MAX >> (64 - bits);
+    const decltype(value) min = INT64_MIN >> (64 - bits);
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -38,7 +38,9 @@ static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
 
-    decltype(value) max = (1LL << bits) - 1;
+    assert(bits > 0);
+
+    const decltype(value) max = UINT64_MAX >> (64 - bits);
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From a68782cf0d3d25f69c29950b1cd2963edebe06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 11/53] fix: narrow signed integers and bit fields silently
 wrap when decoded from pb

---
 include/spb/pb/deserialize.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 2cb9463..c96613c 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -276,6 +276,15 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
+                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(int32_t))
+                {
+                    //- negative number can be encoded as 64-bits or 32-bits
+                    const auto number = (value >> 32) == 0 ? int64_t(int32_t(value)) : int64_t(value);
+                    if (number != T(number)) [[unlikely]]
+                        break;
+
+                    return T(number);
+                }
                 if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(value))
                 {
                     //- GPB encodes signed varints always as 64-bits
@@ -349,7 +358,20 @@ auto deserialize_bitfield(auto &stream, uint32_t bits, wire_type type) -> T
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::varint)
     {
         check_wire_type_or_throw(type, wire_type::varint);
-        value = read_varint<T>(stream);
+        if constexpr (std::is_same_v<T, int32_t>)
+        {
+            auto tmp = read_varint<int64_t>(stream);
+            //- negative number can be encoded as 64-bits or 32-bits
+            if (uint64_t(tmp) <= std::numeric_limits<uint32_t>::max())
+                tmp = int32_t(tmp);
+
+            spb::detail::check_if_value_fit_in_bits(tmp, bits);
+            value = T(tmp);
+        }
+        else
+        {
+            value = read_varint<T>(stream);
+        }
     }
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::i32)
     {
-- 
2.43.0


From aeae4cff2a0ce95ecadc678ee2d1c75d8f88167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 12/53] fix: utf8 validation forms a pointer before the string
 and reads misaligned words

---
 include/spb/utf8.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..681132e 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,18 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From 551e8a0e7d0d929ffae0f8afe2d46a3f74f2c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 13/53] fix: json strings are not checked for valid utf8

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..62faf07 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -529,13 +529,13 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
             return;
         }
         char utf8_buffer[4];
         auto utf8_size = unescape(stream, utf8_buffer);
         append_to_value(utf8_buffer, utf8_size);
     }
-    spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
-- 
2.43.0


From 9729b108ce49152bba0e0ecce84e368b457ef59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 14/53] fix: json max_size rejects every string in a fixed size
 container

---
 include/spb/json/deserialize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 62faf07..78ce1b7 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -488,7 +488,12 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     auto append_to_value = [&](const char *str, size_t size)
     {
         if constexpr (attributes.max_size)
-            check_size(value.size() + size, attributes.max_size);
+        {
+            if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
+                check_size(value.size() + size, attributes.max_size);
+            else
+                check_size(index + size, attributes.max_size);
+        }
 
         if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
         {
-- 
2.43.0


From 0ea93a70e56db63a998e3804edc84e9e1d02108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 15/53] fix: white space is not accepted between all json
 tokens

---
 include/spb/json.hpp             |  2 ++
 include/spb/json/base64.h        |  1 +
 include/spb/json/deserialize.hpp | 46 ++++++++++++--------------------
 3 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..a768cca 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -198,6 +198,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             {
                 *p_out++ = std::byte((v0 << 2) | (v1 >> 4));
             }
+            stream.skip_white_spaces();
             return;
         }
     }
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 78ce1b7..e3bdc7c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -147,23 +147,16 @@ struct istream_buffer
         if (memcmp(token.data(), p_start, token.size()) != 0)
             return false;
 
-        if (size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = p_start[token.size()];
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -252,23 +245,16 @@ struct istream_reader
         if (!token_view.starts_with(token))
             return false;
 
-        if (token_view.size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = token_view.back();
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (token_view.size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = uint8_t(token_view[token.size()]);
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -282,7 +268,7 @@ struct istream_reader
             size_t spaces = 0;
             for (auto c : view)
             {
-                if (!isspace(c))
+                if (!isspace(uint8_t(c)))
                 {
                     consume_bytes(spaces);
                     return;
@@ -534,6 +520,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            stream.skip_white_spaces();
             spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
             return;
         }
@@ -563,6 +550,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
-- 
2.43.0


From 73079d6b58167ef9976297da2163c19a219faba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 16/53] fix: exception from a json reader terminates the
 process

---
 include/spb/json/deserialize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index e3bdc7c..794dd2d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -291,8 +291,9 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
+        (void)view(1, 1);
         consume_bytes(1);
         if (skip_white_space)
             skip_white_spaces();
-- 
2.43.0


From abd034b4bc819ded1cec2a991547e9aa6f014f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 17/53] fix: escape sequences in json names, enums and quoted
 numbers

---
 include/spb/json/deserialize.hpp | 78 +++++++++++++++++---------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 794dd2d..3078405 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -353,42 +353,6 @@ void ignore_string(auto &stream)
     ignore_string_until_double_quota(stream);
 }
 
-auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
-    -> std::string_view
-{
-    assert(max_size < io::buffered_reader::BUFFER_SIZE);
-
-    if (!stream.consume('"')) [[unlikely]]
-        throw std::runtime_error(R"(expecting '"')");
-
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
-    for (;;)
-    {
-        const auto pos = view.find_first_of(R"(\")", start);
-        if (pos == view.npos) [[unlikely]]
-        {
-            stream.skip(view.size());
-            break;
-        }
-
-        if (view[pos] == '"') [[likely]]
-        {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
-            stream.skip(pos + 1);
-            stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
-        }
-
-        // +2 for \ and char behind
-        start = pos + 2;
-    }
-    ignore_string_until_double_quota(stream);
-    return {};
-}
-
 auto unicode_from_hex(auto &stream) -> uint16_t
 {
     const auto esc_size = 4U;
@@ -461,6 +425,48 @@ auto unescape(auto &stream, char utf8[4]) -> uint32_t
     }
 }
 
+auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
+    -> std::string_view
+{
+    assert(max_size < io::buffered_reader::BUFFER_SIZE);
+
+    if (!stream.consume('"')) [[unlikely]]
+        throw std::runtime_error(R"(expecting '"')");
+
+    for (size_t size = 0;;)
+    {
+        const auto view = stream.view(1, UINT32_MAX);
+        const auto pos  = std::min(view.find_first_of(R"(\")"), view.size());
+        if (pos > max_size - size) [[unlikely]]
+            break;
+
+        memcpy(buffer + size, view.data(), pos);
+        size += pos;
+        if (pos == view.size()) [[unlikely]]
+        {
+            stream.skip(pos);
+            continue;
+        }
+
+        // +1 for '"' or '\'
+        stream.skip(pos + 1);
+        if (view[pos] == '"') [[likely]]
+        {
+            stream.skip_white_spaces();
+            return (size >= min_size) ? std::string_view{buffer, size} : std::string_view{};
+        }
+        char utf8_buffer[4];
+        const auto utf8_size = unescape(stream, utf8_buffer);
+        if (utf8_size > max_size - size) [[unlikely]]
+            break;
+
+        memcpy(buffer + size, utf8_buffer, utf8_size);
+        size += utf8_size;
+    }
+    ignore_string_until_double_quota(stream);
+    return {};
+}
+
 template <field_attributes attributes>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
 {
-- 
2.43.0


From 3003e6516ada60deb9ae326f232f0cc0f43521e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 18/53] fix: json map keeps the first of duplicated keys and
 accepts garbage in keys

---
 include/spb/json/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 3078405..5a7995c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -674,6 +674,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
@@ -704,7 +706,7 @@ template <field_attributes attributes> void deserialize(auto &stream, spb::detai
 
         auto map_value = mapped_type();
         deserialize<attributes>(stream, map_value);
-        value.emplace(std::move(map_key), std::move(map_value));
+        value[std::move(map_key)] = std::move(map_value);
     } while (stream.consume_and_skip_white_space(','));
 
     if (!stream.consume_and_skip_white_space('}')) [[unlikely]]
-- 
2.43.0


From 41cb6e03d7487f146821a3252fd1f8de19a7f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 19/53] fix: json array of fixed size accepts missing or
 doubled commas

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 5a7995c..78a9efd 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -642,8 +642,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From e13f8ae2fe698fc60ec05e61ddab9d76c13a6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 20/53] fix: json numbers longer than 32 characters are
 rejected

---
 include/spb/json/deserialize.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 78a9efd..a354780 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -543,15 +543,15 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
     {
         //- https://protobuf.dev/programming-guides/proto2/#json
         //- number can be a string
-        char buffer[32];
-        auto view   = deserialize_string_to_buffer(stream, 1, 32, buffer);
+        char buffer[io::buffered_reader::BUFFER_SIZE - 1];
+        auto view   = deserialize_string_to_buffer(stream, 1, sizeof(buffer), buffer);
         auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
         if (result.ec != std::errc{} || result.ptr != (view.data() + view.size())) [[unlikely]]
             throw std::runtime_error("invalid number");
 
         return;
     }
-    auto view   = stream.view(1, 32);
+    auto view   = stream.view(1, io::buffered_reader::BUFFER_SIZE);
     auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
-- 
2.43.0


From 5747c99ee872a94cdeb0d5381b243adde329a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 21/53] fix: endless loop on unterminated base64

---
 include/spb/json/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index a768cca..fc77ee4 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -109,6 +109,9 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
 
         //- align to 4 bytes
         auto aligned_length = length & ~3;
+        if (!end_found && aligned_length <= 4) [[unlikely]]
+            throw std::runtime_error("invalid base64");
+
         if (aligned_length > 4) [[likely]]
         {
             auto out_length = ((aligned_length - 4) / 4) * 3;
-- 
2.43.0


From 67eb8c66727c41670ac62bf3514c3e00c26da2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 22/53] fix: json map keys are not escaped

---
 include/spb/json/serialize.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..c89053c 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -445,7 +445,11 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     {
         if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+
+            stream.write('"');
+            write_escaped(stream, map_key);
+            write_string(stream, R"(":)");
         }
         else
         {
-- 
2.43.0


From b349f8b864b3fadc30a33c5cb5e8a98cad5dace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 23/53] fix: json writes non finite numbers as invalid tokens

---
 include/spb/json/serialize.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index c89053c..25efd4b 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,16 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/json
+        //- NaN and Infinity are not valid json numbers
+        if (std::isnan(value)) [[unlikely]]
+            return write_string(stream, R"("NaN")");
+
+        if (std::isinf(value)) [[unlikely]]
+            return value < 0 ? write_string(stream, R"("-Infinity")") : write_string(stream, R"("Infinity")");
+    }
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From 16a3b6f3d14e3131c8e7df4bc1314cb62be6357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 24/53] fix: json drops empty strings and bytes from optional
 and oneof

---
 include/spb/json/serialize.hpp                | 12 ++++++++++--
 src/spb-proto-compiler/dumper/json/dumper.cpp |  7 ++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 25efd4b..f341bdb 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -490,7 +490,11 @@ template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+    {
+        //- write also empty string or bytes
+        serialize_key(stream, field);
+        serialize<attributes>(stream, *p_value);
+    }
 }
 
 template <field_attributes attributes, typename T>
@@ -504,7 +508,11 @@ template <field_attributes attributes, typename T>
 void serialize(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
 {
     if (p_value)
-        return serialize<attributes>(stream, *p_value, field);
+    {
+        //- write also empty string or bytes
+        serialize_key(stream, field);
+        serialize<attributes>(stream, *p_value);
+    }
 }
 
 template <field_attributes> void serialize(auto &stream, const spb::detail::proto_message auto &value)
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 28d9f45..fcd8c1f 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -212,10 +212,11 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize_key(stream, \""
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
-        stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
+        stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name()
+               << "));\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
-- 
2.43.0


From ea7de07c81998abed4e49e37b382835a2b608cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 25/53] fix: unknown json members of empty messages are
 rejected

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index fcd8c1f..f932386 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -367,8 +367,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From c9df93ff6cda22ffb386e7fcb816034cd279ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 26/53] fix: max_size of oneof members is not checked when json
 is deserialized

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index f932386..e257df1 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -443,6 +443,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -454,6 +455,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
-- 
2.43.0


From 80ad3c1b36a11e2a1b440ece906eca8b0600cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 27/53] fix: json uses the c++ identifier instead of the
 declared enum name

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index e257df1..29db697 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -240,7 +240,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -260,12 +260,12 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, cpp_ident>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        name_map.emplace(spb::json::detail::djb2_hash(field.name.proto_name), field.name);
+        key_size_min = std::min(key_size_min, field.name.proto_name.size());
+        key_size_max = std::max(key_size_max, field.name.proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -286,10 +286,11 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
                 stream << "\t\t\t\tbreak;\n";
 
             put_break = true;
-            stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
+            stream << "\t\t\tcase detail::djb2_hash(\"" << name.proto_name << "\"sv):\n";
         }
-        stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+        stream << "\t\t\t\tif (enum_str == \"" << name.proto_name
+               << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name << "::" << name.get_name()
+               << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From ce3fbe423ae3f071f1edbf70645d55023f962479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 28/53] fix: json enum number is truncated to a narrow enum
 type before it is checked

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 29db697..d182a2d 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -295,15 +295,14 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
-    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (" << full_name
-           << "(enum_int))\n\t\t\t{\n";
+    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (enum_int)\n\t\t\t{\n";
     std::set<int32_t> numbers_taken;
     for (const auto &field : my_enum.fields)
     {
         if (!numbers_taken.insert(field.number).second)
             continue;
 
-        stream << "\t\t\tcase " << full_name << "::" << field.name.get_name() << ":\n";
+        stream << "\t\t\tcase int32_t(" << full_name << "::" << field.name.get_name() << "):\n";
     }
     stream << "\t\t\t\tvalue = " << full_name << "(enum_int);\n\t\t\t\treturn ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From 11af1d4225d9a3f385c803ecde4baff0de46a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 29/53] fix: bool encoded as a non-minimal varint is rejected

---
 include/spb/pb/deserialize.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index c96613c..754f3fb 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -256,15 +256,11 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
 {
     if constexpr (std::is_same_v<T, bool>)
     {
-        switch (stream.read_byte_or_throw())
-        {
-        case 0:
-            return false;
-        case 1:
-            return true;
-        default:
+        const auto value = read_varint<uint64_t>(stream);
+        if (value > 1) [[unlikely]]
             throw std::runtime_error("invalid varint for bool");
-        }
+
+        return value != 0;
     }
     else
     {
-- 
2.43.0


From 1dcf3457cd50507349c1ff4deecf4c6fe8d2d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 30/53] fix: JSON map keys quoted twice are rejected

---
 include/spb/json/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index a354780..1d84ca9 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -672,6 +672,9 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
     {
         char buffer[128];
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
+        if (str_key_map.starts_with('"')) [[unlikely]]
+            throw std::runtime_error("invalid map key");
+
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
         if (!key_stream.empty()) [[unlikely]]
-- 
2.43.0


From 6795037ea184929fc9e7775c87aefb5bf6183cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 31/53] fix: unknown JSON members with numbers out of the range
 of double are ignored

---
 include/spb/json/deserialize.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 1d84ca9..9c80258 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -803,7 +803,14 @@ void ignore_array(auto &stream)
 void ignore_number(auto &stream)
 {
     double value;
-    deserialize<field_attributes{}>(stream, value);
+    auto view   = stream.view(1, io::buffered_reader::BUFFER_SIZE);
+    auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
+    //- the value is not used, so it can be out of range
+    if (result.ec != std::errc{} && result.ec != std::errc::result_out_of_range) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
+    stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 void ignore_bool(auto &stream)
-- 
2.43.0


From 052ee46e3abbf63ddd045a9675d74c28cc5df401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 32/53] fix: options of oneof members are resolved

---
 src/spb-proto-compiler/ast/ast-options.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..97201da 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -289,6 +289,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
-- 
2.43.0


From d9dc2d4e79bdc87a5258c38de0a48634e0c0312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 33/53] fix: option (nanopb).max_count is applied as documented

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 97201da..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From 34890124d64493cb56e94c4176525930b3e3fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 34/53] fix: options in comments of oneof members and maps are
 applied

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..37d8484 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -745,6 +745,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
@@ -770,6 +771,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 6474ad7b994810ff6a5195a5b07262c88ad8d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 35/53] fix: empty base64 is not accepted by a fixed-size bytes
 container

---
 include/spb/json/base64.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index fc77ee4..3c19299 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -93,7 +93,14 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         throw std::runtime_error("expecting '\"'");
 
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (output.size() != 0) [[unlikely]]
+                throw std::runtime_error("too small base64");
+        }
         return;
+    }
 
     auto mask = uint8_t(0);
 
-- 
2.43.0


From ab534b70c477f33dd4b029555b3f198f0e67e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 36/53] fix: keep the case of letters inside of words in the
 lowerCamelCase name of a field

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index d182a2d..b64cf03 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -50,6 +50,10 @@ auto convert_to_camelCase(std::string_view input) -> std::string
     if (input.find('_') == std::string::npos)
         return result;
 
+    //- only names without lower case letters (like MAX_SIZE) are converted to lower case,
+    //- otherwise the letters inside of words are kept (fooBar_baz => fooBarBaz)
+    const auto keep_case = std::any_of(input.begin(), input.end(), [](auto c) { return std::islower(c) != 0; });
+
     auto index = 0U;
     auto up    = false;
     for (auto c : input)
@@ -60,7 +64,8 @@ auto convert_to_camelCase(std::string_view input) -> std::string
         }
         else
         {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
+            const auto lower = char((keep_case && index > 0) ? c : std::tolower(c));
+            result[index]    = (up && index > 0) ? char(std::toupper(c)) : lower;
             index += 1;
             up = false;
         }
-- 
2.43.0


From f30c7703b87e1b2574fa3b77bf841d85bc217164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 37/53] fix: map keys of other string types than std::string
 are written and read as JSON strings

---
 include/spb/json/deserialize.hpp | 2 +-
 include/spb/json/serialize.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 9c80258..c4224d3 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -664,7 +664,7 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
 {
-    if constexpr (std::is_same_v<T, std::string>)
+    if constexpr (spb::detail::proto_field_string<T>)
     {
         deserialize<attributes>(stream, map_key);
     }
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f341bdb..8ded92b 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -454,12 +454,12 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = false;
     for (const auto &[map_key, map_value] : map)
     {
-        if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
+        if constexpr (std::is_same_v<key_type, std::string_view> || spb::detail::proto_field_string<key_type>)
         {
             put_comma_if_needed(stream);
 
             stream.write('"');
-            write_escaped(stream, map_key);
+            write_escaped(stream, std::string_view(map_key.data(), map_key.size()));
             write_string(stream, R"(":)");
         }
         else
-- 
2.43.0


From 60c273cd6caae27f20f3765e3f59093ad6b308af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 38/53] fix: names that start with a keyword of the grammar
 followed by '_' are identifiers

---
 src/spb-proto-compiler/parser/char_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..7d77789 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -107,7 +107,7 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            if (!isalnum(next) && next != '_')
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From bfa12b0d8a2d83908378c66fe820856908c4d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 39/53] fix: a NUL character between top level definitions is
 an error, not an endless loop

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 37d8484..be2beed 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -980,7 +980,7 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
-        return;
+        return parse_or_throw(stream.empty(), stream, "unexpected character");
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
     case 'i':
-- 
2.43.0


From 0a0c2270d2d164ab49839061b977fe4c54d54309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 40/53] fix: accept option lists and aggregates without spaces
 around their brackets and commas

---
 src/spb-proto-compiler/parser/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index be2beed..7ae16e2 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -454,24 +454,24 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "[");
-    while (!stream.consume("]"))
+    consume_or_fail(stream, '[');
+    while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "{");
+    consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
-    while (!stream.consume("}"))
+    while (!stream.consume('}'))
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
         parse_option_value(stream, options[option_name]);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
-- 
2.43.0


From a01f9a1e528503e999804842333fab6ddb3b76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 41/53] fix: read decimal, hexadecimal and octal literals
 exactly and reject everything else

---
 src/spb-proto-compiler/ast/ast-options.cpp  |  9 ++--
 src/spb-proto-compiler/parser/char_stream.h | 46 +++++++++++++++++++++
 src/spb-proto-compiler/parser/parser.cpp    | 34 +++++++--------
 3 files changed, 66 insertions(+), 23 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index fddcc96..cf706a7 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -11,8 +11,9 @@
 #include "ast-options.h"
 #include "dumper/header.h"
 #include <initializer_list>
+#include <limits>
+#include <parser/char_stream.h>
 #include <span>
-#include <spb/to_from_chars.h>
 
 namespace
 {
@@ -96,9 +97,9 @@ auto option_value_int(const proto_file &file, std::initializer_list<const std::s
     if (option.empty())
         return {};
 
-    auto value  = T{};
-    auto result = spb_std_emu::from_chars(option.data(), option.data() + option.size(), value);
-    if (result.ec == std::errc{}) [[likely]]
+    auto value      = T{};
+    const auto *end = option.data() + option.size();
+    if (spb::parse_int_literal(option.data(), end, value) == end) [[likely]]
         return value;
 
     throw_parse_error(file, option, "Expecting integer (1, 3, ...)");
diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 7d77789..92a9697 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -12,13 +12,59 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <concepts>
+#include <cstdint>
+#include <limits>
+#include <spb/to_from_chars.h>
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <type_traits>
 
 namespace spb
 {
 
+/**
+ * @brief parses an integer literal: [ "-" ] ( decimal | octal | hexadecimal )
+ *
+ * @param begin start of the literal
+ * @param end end of the text
+ * @param number value of the literal
+ * @return end of the literal or nullptr if there is no integer literal or if the value doesn't fit
+ */
+template <std::integral T>
+[[nodiscard]] auto parse_int_literal(const char *begin, const char *end, T &number) noexcept -> const char *
+{
+    const auto negative = begin < end && *begin == '-';
+    auto base           = 10;
+
+    begin += negative ? 1 : 0;
+    if (end - begin > 1 && *begin == '0')
+    {
+        const auto is_hex = begin[1] == 'x' || begin[1] == 'X';
+
+        base = is_hex ? 16 : isdigit(static_cast<unsigned char>(begin[1])) ? 8 : 10;
+        begin += is_hex ? 2 : 0;
+    }
+
+    auto value        = uint64_t{};
+    const auto result = spb_std_emu::from_chars(begin, end, value, base);
+    if (result.ec != std::errc{})
+        return nullptr;
+
+    //- the whole token has to be a number
+    if (result.ptr < end && (isalnum(static_cast<unsigned char>(*result.ptr)) || *result.ptr == '_' || *result.ptr == '.'))
+        return nullptr;
+
+    const auto max = static_cast<uint64_t>(std::numeric_limits<T>::max());
+    const auto min = std::is_signed_v<T> ? max + 1 : 0;
+    if (value > (negative ? min : max))
+        return nullptr;
+
+    number = static_cast<T>(negative ? 0 - value : value);
+    return result.ptr;
+}
+
 struct char_stream
 {
   private:
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 7ae16e2..e94f18b 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -88,21 +88,9 @@ concept int_or_float = std::integral<T> || std::floating_point<T>;
 
 auto consume_number(spb::char_stream &stream, std::integral auto &number) -> bool
 {
-    number    = {};
-    auto base = 10;
-    if (stream.consume('0'))
+    if (const auto *end = spb::parse_int_literal(stream.begin(), stream.end(), number); end != nullptr)
     {
-        base = 8;
-        if (stream.consume('x') || stream.consume('X'))
-            base = 16;
-
-        if (!::isdigit(stream.current_char()))
-            return true;
-    }
-    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-    if (result.ec == std::errc{}) [[likely]]
-    {
-        stream.skip_to(result.ptr);
+        stream.skip_to(end);
         return true;
     }
     return false;
@@ -141,14 +129,22 @@ template <int_or_float T> auto parse_number(spb::char_stream &stream) -> T
 auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
 {
     const auto *start = stream.begin();
+    auto integer      = int64_t();
     auto number       = double();
-    auto result       = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
-    if (result.ec == std::errc{}) [[likely]]
+    const auto *end   = spb::parse_int_literal(start, stream.end(), integer);
+    if (end == nullptr)
     {
-        stream.skip_to(result.ptr);
-        return {start, static_cast<size_t>(result.ptr - start)};
+        const auto result = spb_std_emu::from_chars(start, stream.end(), number);
+        if (result.ec == std::errc{})
+            end = result.ptr;
     }
-    stream.throw_parse_error("expecting number");
+
+    //- the whole token has to be a number
+    if (end == nullptr || (end < stream.end() && (isalnum(*end) != 0 || *end == '_' || *end == '.')))
+        stream.throw_parse_error("expecting number");
+
+    stream.skip_to(end);
+    return {start, static_cast<size_t>(end - start)};
 }
 
 //- parse single line comment // \n
-- 
2.43.0


From 142ffeca37ce1e5afc50cf62885676f77a708b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 42/53] fix: max_length=4294967295 doesn't overflow to
 max_size=0

---
 src/spb-proto-compiler/ast/ast-options.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index cf706a7..b5c8c2b 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,7 +115,12 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
         attributes.max_size = *value;
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
+    {
+        if (*value == std::numeric_limits<uint32_t>::max())
+            throw_parse_error(file, option_value({opt_value, "max_length"}, options), "max_length is too big");
+
         attributes.max_size = *value + 1;
+    }
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
         attributes.max_count = *value;
-- 
2.43.0


From a4b10a659633dd04fad9cc7985eb3665381d0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 43/53] fix: reserved and extension ranges are checked,
 negative enum values can be reserved, max is the biggest number

---
 src/spb-proto-compiler/parser/parser.cpp | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index e94f18b..e173608 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -23,6 +23,7 @@
 #include <exception>
 #include <filesystem>
 #include <io/file.h>
+#include <limits>
 #include <parser/char_stream.h>
 #include <spb/to_from_chars.h>
 #include <stdexcept>
@@ -31,6 +32,11 @@
 namespace
 {
 using namespace std::literals;
+
+//- allowed field numbers
+constexpr int32_t min_field_number = 1;
+constexpr int32_t max_field_number = (1 << 29) - 1;
+
 [[nodiscard]] auto parse_proto_file(const fs::path &file, parsing_ctx &ctx) -> proto_file;
 
 auto find_file_in_paths(const fs::path &file_name, const parsing_ctx &ctx) -> fs::path
@@ -550,27 +556,31 @@ void parse_reserved_names(spb::char_stream &stream, proto_reserved_name &name, p
 
 [[nodiscard]] auto parse_field_options(spb::char_stream &stream) -> proto_options;
 
-void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range, proto_comment &&comment)
+void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range, proto_comment &&comment,
+                           int32_t min, int32_t max)
 {
     //- ranges = range { "," range }
     //- range =  intLit [ "to" ( intLit | "max" ) ]
     do
     {
-        const auto number = parse_number<uint32_t>(stream);
+        const auto number = parse_number<int32_t>(stream);
         auto number2      = number;
 
         if (stream.consume("to"))
         {
             if (stream.consume("max"))
             {
-                number2 = std::numeric_limits<decltype(number2)>::max();
+                number2 = max;
             }
             else
             {
-                number2 = parse_number<uint32_t>(stream);
+                number2 = parse_number<int32_t>(stream);
             }
         }
 
+        if (number < min || number2 > max || number > number2)
+            stream.throw_parse_error("invalid range");
+
         range.emplace_back(number, number2);
     } while (stream.consume(','));
 
@@ -586,12 +596,12 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
     if (!stream.consume("extensions"))
         return false;
 
-    parse_reserved_ranges(stream, extensions, std::move(comment));
+    parse_reserved_ranges(stream, extensions, std::move(comment), min_field_number, max_field_number);
     return true;
 }
 
-[[nodiscard]] auto parse_reserved(spb::char_stream &stream, proto_reserved &reserved, proto_comment &&comment)
-    -> bool
+[[nodiscard]] auto parse_reserved(spb::char_stream &stream, proto_reserved &reserved, proto_comment &&comment,
+                                  int32_t min, int32_t max) -> bool
 {
     //- reserved = "reserved" ( ranges | strFieldNames ) ";"
     if (!stream.consume("reserved"))
@@ -603,7 +613,7 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
         parse_reserved_names(stream, reserved.reserved_name, std::move(comment));
         return true;
     }
-    parse_reserved_ranges(stream, reserved.reserved_range, std::move(comment));
+    parse_reserved_ranges(stream, reserved.reserved_range, std::move(comment), min, max);
     return true;
 }
 
@@ -662,7 +672,9 @@ void parse_enum_field(spb::char_stream &stream, proto_enum &new_enum, proto_comm
             break;
 
         if (!parse_option(stream, new_enum.options, std::move(comment)) &&
-            !parse_reserved(stream, new_enum.reserved, std::move(comment)) && !parse_empty_statement(stream))
+            !parse_reserved(stream, new_enum.reserved, std::move(comment),
+                            std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max()) &&
+            !parse_empty_statement(stream))
         {
             parse_enum_field(stream, new_enum, std::move(comment));
         }
@@ -829,7 +841,8 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
             !parse_extensions(stream, new_message.extensions, std::move(comment)) &&
             !parse_oneof(stream, new_message.oneofs, std::move(comment)) &&
             !parse_map_field(stream, new_message.maps, std::move(comment)) &&
-            !parse_reserved(stream, new_message.reserved, std::move(comment)) &&
+            !parse_reserved(stream, new_message.reserved, std::move(comment), min_field_number,
+                            max_field_number) &&
             !parse_option(stream, new_message.options, std::move(comment)))
         {
             parse_field(stream, new_message.fields, std::move(comment));
-- 
2.43.0


From f1347d56bead4c8641d8385fe84e6658475bdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 44/53] fix: reject field numbers that are out of range,
 reserved or already used

---
 src/spb-proto-compiler/ast/ast.cpp | 82 ++++++++++++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast.cpp b/src/spb-proto-compiler/ast/ast.cpp
index a6603ad..74ccb0c 100644
--- a/src/spb-proto-compiler/ast/ast.cpp
+++ b/src/spb-proto-compiler/ast/ast.cpp
@@ -12,9 +12,91 @@
 #include "ast-messages-order.h"
 #include "ast-options.h"
 #include "ast-types.h"
+#include "dumper/header.h"
+#include <algorithm>
+#include <set>
+#include <string>
+
+namespace
+{
+[[nodiscard]] auto is_reserved(const proto_reserved_range &ranges, int32_t number) -> bool
+{
+    return std::any_of(ranges.begin(), ranges.end(), [number](const auto &range) -> bool
+                       { return range.first <= number && number <= range.second; });
+}
+
+[[noreturn]] void throw_invalid_number(const proto_file &file, const proto_base &field, const char *reason)
+{
+    throw_parse_error(file, field.name.proto_name,
+                      "number " + std::to_string(field.number) + " of '" +
+                          std::string(field.name.proto_name) + "' " + reason);
+}
+
+void check_field(const proto_file &file, const proto_message &message, const proto_base &field,
+                 std::set<int32_t> &numbers)
+{
+    if (field.number < 1 || field.number > 536870911)
+        throw_invalid_number(file, field, "is out of range");
+
+    if (field.number >= 19000 && field.number <= 19999)
+        throw_invalid_number(file, field, "is reserved for the protobuf implementation");
+
+    if (is_reserved(message.reserved.reserved_range, field.number))
+        throw_invalid_number(file, field, "is reserved");
+
+    if (is_reserved(message.extensions, field.number))
+        throw_invalid_number(file, field, "is reserved for extensions");
+
+    if (!numbers.insert(field.number).second)
+        throw_invalid_number(file, field, "is already used");
+}
+
+void check_numbers(const proto_file &file, const proto_enum &enum_)
+{
+    for (const auto &field : enum_.fields)
+    {
+        if (is_reserved(enum_.reserved.reserved_range, field.number))
+            throw_invalid_number(file, field, "is reserved");
+    }
+}
+
+void check_numbers(const proto_file &file, const proto_message &message)
+{
+    auto numbers = std::set<int32_t>();
+
+    for (const auto &field : message.fields)
+    {
+        check_field(file, message, field, numbers);
+    }
+
+    for (const auto &map : message.maps)
+    {
+        check_field(file, message, map, numbers);
+    }
+
+    for (const auto &oneof : message.oneofs)
+    {
+        for (const auto &field : oneof.fields)
+        {
+            check_field(file, message, field, numbers);
+        }
+    }
+
+    for (const auto &enum_ : message.enums)
+    {
+        check_numbers(file, enum_);
+    }
+
+    for (const auto &sub_message : message.messages)
+    {
+        check_numbers(file, sub_message);
+    }
+}
+} // namespace
 
 void resolve_messages(proto_file &file)
 {
+    check_numbers(file, file.package);
     resolve_options(file);
     resolve_types(file);
     resolve_messages_order(file);
-- 
2.43.0


From 89153c5de8b8077249c93e0faefb2140fe2ab399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 45/53] fix: find types by protobuf scoping rules and use the
 same declaration for types and for the order of messages

---
 src/spb-proto-compiler/ast/ast-lookup.h       | 158 +++++++++
 .../ast/ast-messages-order.cpp                | 310 ++++--------------
 src/spb-proto-compiler/ast/ast-types.cpp      | 137 +-------
 3 files changed, 235 insertions(+), 370 deletions(-)
 create mode 100644 src/spb-proto-compiler/ast/ast-lookup.h

diff --git a/src/spb-proto-compiler/ast/ast-lookup.h b/src/spb-proto-compiler/ast/ast-lookup.h
new file mode 100644
index 0000000..82c2449
--- /dev/null
+++ b/src/spb-proto-compiler/ast/ast-lookup.h
@@ -0,0 +1,158 @@
+/***************************************************************************\
+* Name        : type lookup                                                 *
+* Description : find declaration of a type by its name                      *
+* Author      : antonin.kriz@gmail.com                                      *
+* ------------------------------------------------------------------------- *
+* This is free software; you can redistribute it and/or modify it under the *
+* terms of the MIT license. A copy of the license can be found in the file  *
+* "LICENSE" at the root of this distribution.                               *
+\***************************************************************************/
+
+#pragma once
+
+#include "proto-file.h"
+#include <algorithm>
+#include <optional>
+#include <string>
+#include <string_view>
+#include <vector>
+
+/**
+ * @brief declaration of a message or enum
+ *
+ */
+struct type_declaration
+{
+    //- innermost message (or package) in which the first part of the name was found
+    const proto_message *p_scope = nullptr;
+
+    //- messages named by the type name, the last one is the message itself (in case it's not an enum)
+    std::vector<const proto_message *> path;
+
+    bool is_enum    = false;
+    bool is_message = false;
+
+    //- type is declared in an imported file
+    bool is_imported = false;
+};
+
+/**
+ * @brief find declaration of the type inside the message, doesn't search in enclosing messages
+ *
+ * @return declaration or std::nullopt if the first part of the name is not declared in the message.
+ *         (declaration is not valid if only the first part is declared)
+ */
+[[nodiscard]] inline auto find_type_in_message(const proto_message &message, std::string_view type_name)
+    -> std::optional<type_declaration>
+{
+    auto result       = type_declaration{.p_scope = &message};
+    const auto *scope = &message;
+
+    for (;;)
+    {
+        const auto dot     = type_name.find('.');
+        const auto name    = type_name.substr(0, dot);
+        const auto is_last = dot == std::string_view::npos;
+        const auto is_name = [name](const auto &declaration) -> bool
+        { return declaration.name.proto_name == name; };
+
+        if (is_last && std::any_of(scope->enums.begin(), scope->enums.end(), is_name))
+        {
+            result.is_enum = true;
+            return result;
+        }
+
+        const auto sub_message = std::find_if(scope->messages.begin(), scope->messages.end(), is_name);
+        if (sub_message == scope->messages.end())
+            return result.path.empty() ? std::nullopt : std::optional(type_declaration{});
+
+        scope = &*sub_message;
+        result.path.push_back(scope);
+        if (is_last)
+        {
+            result.is_message = true;
+            return result;
+        }
+        type_name.remove_prefix(dot + 1);
+    }
+}
+
+/**
+ * @brief find declaration of the type in the package of the file, in all enclosing packages and in imported
+ * files
+ */
+[[nodiscard]] inline auto find_type_in_packages(const proto_file &file, std::string_view type_name)
+    -> type_declaration
+{
+    const auto find_in_file = [](const proto_file &declaring_file,
+                                 std::string_view full_name) -> std::optional<type_declaration>
+    {
+        const auto package = declaring_file.package.name.proto_name;
+        if (package.empty())
+            return find_type_in_message(declaring_file.package, full_name);
+
+        if (full_name.size() > package.size() && full_name[package.size()] == '.' &&
+            full_name.starts_with(package))
+            return find_type_in_message(declaring_file.package, full_name.substr(package.size() + 1));
+
+        return std::nullopt;
+    };
+    const auto is_package = [](const proto_file &declaring_file, std::string_view name) -> bool
+    {
+        const auto package = declaring_file.package.name.proto_name;
+        return package.starts_with(name) && (package.size() == name.size() || package[name.size()] == '.');
+    };
+    const auto first_name_size = std::min(type_name.find('.'), type_name.size());
+
+    for (auto package = file.package.name.proto_name;;)
+    {
+        const auto prefix    = package.empty() ? std::string() : std::string(package) + ".";
+        const auto full_name = prefix + std::string(type_name);
+
+        if (auto result = find_in_file(file, full_name); result)
+            return *result;
+
+        for (const auto &import : file.imports)
+        {
+            if (auto result = find_in_file(import, full_name); result)
+            {
+                result->is_imported = true;
+                return *result;
+            }
+        }
+
+        if (first_name_size < type_name.size())
+        {
+            const auto name = prefix + std::string(type_name.substr(0, first_name_size));
+            if (is_package(file, name) ||
+                std::any_of(file.imports.begin(), file.imports.end(),
+                            [&](const auto &import) -> bool { return is_package(import, name); }))
+                return {};
+        }
+
+        if (package.empty())
+            return {};
+
+        const auto dot = package.rfind('.');
+        package        = package.substr(0, dot == std::string_view::npos ? 0 : dot);
+    }
+}
+
+/**
+ * @brief find declaration of the type, the innermost declaration wins
+ *
+ * @param file file using the type
+ * @param ctx message using the type (`ctx.message`) and its enclosing messages (`ctx.p_parent`)
+ * @param type_name name of the type
+ * @return declaration (not valid if the type is not declared)
+ */
+[[nodiscard]] auto find_type(const proto_file &file, const auto &ctx, std::string_view type_name)
+    -> type_declaration
+{
+    for (const auto *scope = &ctx; scope->p_parent != nullptr; scope = scope->p_parent)
+    {
+        if (auto result = find_type_in_message(scope->message, type_name); result)
+            return *result;
+    }
+    return find_type_in_packages(file, type_name);
+}
diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7b68b9b..984af9c 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -9,6 +9,7 @@
 \***************************************************************************/
 
 #include "ast-types.h"
+#include "ast-lookup.h"
 #include "dumper/header.h"
 #include "proto-field.h"
 #include "proto-file.h"
@@ -57,282 +58,107 @@ struct search_ctx
 };
 
 [[nodiscard]]
-auto type_parts(std::string_view type_name) -> size_t
-{
-    return size_t(std::count(type_name.cbegin(), type_name.cend(), '.'));
-}
-
-[[nodiscard]]
-auto is_last_part(const proto_field &field, size_t type_part) -> bool
+auto all_types_are_resolved(const proto_messages &messages) -> bool
 {
-    return type_part == type_parts(field.type_name.proto_name);
+    return std::all_of(messages.begin(), messages.end(),
+                       [](const auto &message) { return message.resolved > 0; });
 }
 
-[[nodiscard]]
-auto get_type_part(const proto_field &field, size_t type_part) -> std::string_view
+void mark_message_as_resolved(search_ctx &ctx)
 {
-    auto type_name = field.type_name.proto_name;
-    for (; type_part > 0; type_part--)
-    {
-        const auto dot_index = type_name.find('.');
-        if (dot_index == type_name.npos)
-            return {};
-
-        type_name.remove_prefix(dot_index + 1);
-    }
+    assert(ctx.message.resolved == 0);
 
-    return type_name.substr(0, type_name.find('.'));
+    ctx.message.resolved = ++ctx.state.resolved_messages;
 }
 
 /**
- * @brief if the field is self-referencing and can be forward declared
- *        field label must be LABEL_OPTIONAL or LABEL_PTR or LABEL_REPEATED
- *
- * @param field filed
- * @param ctx search context
- * @return true if field can be forward declared
+ * @brief find context of the message, if it's the current message or one of its enclosing messages
  */
 [[nodiscard]]
-auto is_self(const search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto find_enclosing(search_ctx &ctx, const proto_message *message) -> search_ctx *
 {
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
-    switch (field.label)
+    for (auto *enclosing = &ctx; enclosing != nullptr; enclosing = enclosing->p_parent)
     {
-    case proto_field::Label::NONE:
-        throw_parse_error(ctx.state.file, field.name.proto_name,
-                          "Field '" + std::string(field.name.proto_name) +
-                              "' cannot be self-referencing (make it optional)");
-    case proto_field::Label::OPTIONAL:
-        field.label = proto_field::Label::PTR;
-        return true;
-    case proto_field::Label::REPEATED:
-    case proto_field::Label::PTR:
-        return true;
-    }
-
-    return false;
-}
-
-[[nodiscard]]
-auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
-{
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
-    switch (field.label)
-    {
-    case proto_field::Label::REPEATED:
-    case proto_field::Label::PTR:
-        return true;
-    default:
-        return false;
+        if (&enclosing->message == message)
+            return enclosing;
     }
+    return nullptr;
 }
 
 /**
- * @brief if this dependency can be forward declared, do it
- *        field label must be LABEL_REPEATED or LABEL_PTR
+ * @brief check if the type of the field can be used at the place where the message is going to be defined,
+ *        if the type is not defined yet, then break the dependency with a pointer or with a forward
+ *        declaration (only possible for fields which don't hold their value directly)
  *
  * @param ctx search context
- * @param field field
- * @return true if field can be forward declared
+ * @param field field of the message
+ * @param is_value true if the field always holds its value directly (map, oneof)
+ * @return true if the field can be used
  */
 [[nodiscard]]
-auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto resolve_field(search_ctx &ctx, proto_field &field, bool is_value) -> bool
 {
-    if (ctx.p_parent == nullptr)
-        return false;
+    if (is_scalar(field.type))
+        return true;
 
-    if (!is_last_part(field, type_part))
-        return false;
+    const auto type = find_type(ctx.state.file, ctx, field.type_name.proto_name);
+    if (type.is_imported)
+        return true;
 
-    for (const auto &message : ctx.p_parent->message.messages)
+    for (const auto *message : type.path)
     {
-        if (get_type_part(field, type_part) != message.name.proto_name)
-            continue;
-
-        switch (field.label)
-        {
-        case proto_field::Label::NONE:
+        const auto is_type = type.is_message && message == type.path.back();
+        if (!is_type && message->resolved == 0 && !find_enclosing(ctx, message))
             return false;
-        case proto_field::Label::OPTIONAL:
-            switch (ctx.state.mode)
-            {
-            case search_state::dependencies_only:
-                return false;
-
-            case search_state::optional_pointers:
-                field.label = proto_field::Label::PTR;
-                //
-                //- revert the mode to dependencies_only and try again
-                //- reason is to create as little pointers as possible
-                //
-                ctx.state.mode = search_state::dependencies_only;
-            }
-            [[fallthrough]];
-        case proto_field::Label::REPEATED:
-        case proto_field::Label::PTR:
-            ctx.p_parent->message.forwards.insert(message.name.proto_name);
-            return true;
-        }
     }
-    return false;
-}
-
-[[nodiscard]]
-auto get_sub_message(const proto_message &message, const proto_field &field, size_t type_part)
-    -> const proto_message *
-{
-    const auto type_name = get_type_part(field, type_part);
-    const auto index     = std::find_if(
-        message.messages.begin(), message.messages.end(), [type_name](const auto &sub_message) -> bool
-        { return type_name == sub_message.name.proto_name && sub_message.resolved > 0; });
-    return (index != message.messages.end()) ? &*index : nullptr;
-}
 
-[[nodiscard]]
-auto all_types_are_resolved(const proto_messages &messages) -> bool
-{
-    return std::all_of(messages.begin(), messages.end(),
-                       [](const auto &message) { return message.resolved > 0; });
-}
-
-void mark_message_as_resolved(search_ctx &ctx)
-{
-    assert(ctx.message.resolved == 0);
+    if (!type.is_message)
+        return true;
 
-    ctx.message.resolved = ++ctx.state.resolved_messages;
-}
+    const auto *message = type.path.back();
+    if (message->resolved > 0)
+        return true;
 
-[[nodiscard]]
-auto is_enum(const proto_message &message, const proto_field &field, size_t type_part) -> bool
-{
-    if (!is_last_part(field, type_part))
+    if (is_value)
         return false;
 
-    const auto type_name = get_type_part(field, type_part);
-
-    return std::any_of(message.enums.begin(), message.enums.end(),
-                       [type_name](const auto &enum_) -> bool { return type_name == enum_.name.proto_name; });
-}
-
-[[nodiscard]]
-auto resolve_from_message(const proto_message &message, const proto_field &field, size_t type_part) -> bool
-{
-    if (const auto type = is_enum(message, field, type_part); type)
-        return type;
+    //- the type is the message itself, or one of its enclosing messages
+    const auto is_self = find_enclosing(ctx, message) != nullptr;
 
-    if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
+    switch (field.label)
     {
-        if (is_last_part(field, type_part))
-            return true;
-
-        return resolve_from_message(*sub_message, field, type_part + 1);
-    }
-
-    return false;
-}
-
-[[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
-{
-    if (!self.p_parent || type_part > 0)
-        return false;
-
-    return resolve_field(*self.p_parent, field, type_part);
-}
-
-[[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
-{
-    if (!self.p_parent || type_part > 0)
+    case proto_field::Label::NONE:
+        if (is_self)
+            throw_parse_error(ctx.state.file, field.name.proto_name,
+                              "Field '" + std::string(field.name.proto_name) +
+                                  "' cannot be self-referencing (make it optional)");
         return false;
 
-    return resolve_field(*self.p_parent, field, type_part);
-}
-
-[[nodiscard]]
-auto resolve_from_import(const proto_file &import, const proto_field &field) -> bool
-{
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
+    case proto_field::Label::OPTIONAL:
+        if (!is_self)
+        {
+            if (ctx.state.mode == search_state::dependencies_only)
+                return false;
+            //
+            //- revert the mode to dependencies_only and try again
+            //- reason is to create as little pointers as possible
+            //
+            ctx.state.mode = search_state::dependencies_only;
+        }
+        field.label = proto_field::Label::PTR;
+        break;
 
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
+    case proto_field::Label::REPEATED:
+    case proto_field::Label::PTR:
+        break;
     }
 
-    return false;
-}
-
-[[nodiscard]]
-auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
-{
-    if (type_part > 0)
-        return false;
-
-    for (const auto &import : self.state.file.imports)
+    if (!is_self)
     {
-        if (resolve_from_import(import, field))
-            return true;
+        const auto *declared_in = type.path.size() > 1 ? type.path[type.path.size() - 2] : type.p_scope;
+        find_enclosing(ctx, declared_in)->message.forwards.insert(message->name.proto_name);
     }
-
-    return false;
-}
-
-[[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
-{
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_message(ctx.message, field, type_part))
-        return true;
-
-    if (resolve_from_parent(ctx, field, type_part))
-        return true;
-
-    return resolve_from_imports(ctx, field, type_part);
-}
-
-[[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
-{
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_message(ctx.message, field, type_part))
-        return true;
-
-    if (resolve_from_parent(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_imports(ctx, field, type_part))
-        return true;
-
-    return is_forwarded(ctx, field, type_part);
+    return true;
 }
 
 void resolve_message_fields(search_ctx &ctx)
@@ -342,21 +168,21 @@ void resolve_message_fields(search_ctx &ctx)
 
     for (auto &field : ctx.message.fields)
     {
-        if (!resolve_field(ctx, field, 0))
+        if (!resolve_field(ctx, field, false))
             return;
     }
 
-    for (const auto &map : ctx.message.maps)
+    for (auto &map : ctx.message.maps)
     {
-        if (!resolve_field(ctx, map.value, 0))
+        if (!resolve_field(ctx, map.value, true))
             return;
     }
 
-    for (const auto &oneof : ctx.message.oneofs)
+    for (auto &oneof : ctx.message.oneofs)
     {
-        for (const auto &field : oneof.fields)
+        for (auto &field : oneof.fields)
         {
-            if (!resolve_field(ctx, field, 0))
+            if (!resolve_field(ctx, field, true))
                 return;
         }
     }
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..93fe5e2 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -11,6 +11,7 @@
 #include "ast/proto-oneof.h"
 
 #include "../dumper/header.h"
+#include "ast-lookup.h"
 #include "proto-field.h"
 #include "proto-file.h"
 #include "proto-message.h"
@@ -36,34 +37,6 @@ struct search_ctx
 
 using scalar_encoder = spb::pb::detail::scalar_encoder;
 
-[[nodiscard]] auto type_parts(std::string_view type_name) -> size_t
-{
-    return size_t(std::count(type_name.cbegin(), type_name.cend(), '.'));
-}
-
-[[nodiscard]] auto is_last_part(const proto_field &field, size_t type_part) -> bool
-{
-    return type_part == type_parts(field.type_name.proto_name);
-}
-
-[[nodiscard]] auto get_type_part(const proto_field &field, size_t type_part) -> std::string_view
-{
-    auto type_name = field.type_name.proto_name;
-    for (; type_part > 0; type_part--)
-    {
-        const auto dot_index = type_name.find('.');
-        if (dot_index == type_name.npos)
-            return {};
-
-        type_name.remove_prefix(dot_index + 1);
-    }
-
-    return type_name.substr(0, type_name.find('.'));
-}
-
-[[nodiscard]] auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> std::pair<proto_field::Type, proto_field::BitType>;
-
 [[nodiscard]] auto remove_bitfield(std::string_view type) -> std::string_view
 {
     return type.substr(0, type.find(':'));
@@ -193,117 +166,25 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return {type, proto_field::BitType::NONE};
 }
 
-[[nodiscard]] auto get_scalar_type(const proto_file &file, const proto_field &field, size_t type_part)
+[[nodiscard]] auto resolve_type(const search_ctx &self, const proto_field &field)
     -> std::pair<proto_field::Type, proto_field::BitType>
 {
-    if (type_part != 0)
-        return {};
-
-    return get_field_type(file, field);
-}
-
-[[nodiscard]] auto get_sub_message(const proto_message &message, const proto_field &field, size_t type_part)
-    -> const proto_message *
-{
-    const auto type_name = get_type_part(field, type_part);
-    const auto index     = std::find_if(message.messages.begin(), message.messages.end(),
-                                        [type_name](const auto &sub_message) -> bool
-                                        { return type_name == sub_message.name.proto_name; });
-    return (index != message.messages.end()) ? &*index : nullptr;
-}
-
-[[nodiscard]] auto resolve_enum(const proto_message &message, const proto_field &field, size_t type_part)
-    -> proto_field::Type
-{
-    if (!is_last_part(field, type_part))
-        return proto_field::Type::NONE;
-
-    const auto type_name = get_type_part(field, type_part);
-
-    return std::any_of(message.enums.begin(), message.enums.end(),
-                       [type_name](const auto &enum_) -> bool { return type_name == enum_.name.proto_name; })
-               ? proto_field::Type::ENUM
-               : proto_field::Type::NONE;
-}
-
-[[nodiscard]] auto resolve_from_message(const proto_message &message, const proto_field &field,
-                                        size_t type_part) -> proto_field::Type
-{
-    if (const auto type = resolve_enum(message, field, type_part); type)
+    if (const auto type = get_field_type(self.file, field); type.first)
         return type;
 
-    if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
-    {
-        if (is_last_part(field, type_part))
-            return proto_field::Type::MESSAGE;
-
-        return resolve_from_message(*sub_message, field, type_part + 1);
-    }
-
-    return proto_field::Type::NONE;
-}
-
-[[nodiscard]] auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> proto_field::Type
-{
-    if (!self.p_parent || type_part > 0)
-        return proto_field::Type::NONE;
-
-    return resolve_type(*self.p_parent, field, type_part).first;
-}
-
-[[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field)
-    -> proto_field::Type
-{
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
-
-    return proto_field::Type::NONE;
-}
-
-[[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> proto_field::Type
-{
-    if (type_part > 0)
-        return proto_field::Type::NONE;
-
-    for (const auto &import : self.file.imports)
-    {
-        if (const auto type = resolve_from_import(import, field); type)
-            return type;
-    }
-
-    return proto_field::Type::NONE;
-}
-
-auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> std::pair<proto_field::Type, proto_field::BitType>
-{
-    if (const auto type = get_scalar_type(self.file, field, type_part); type.first)
-        return type;
-
-    if (const auto type = resolve_from_message(self.message, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
-
-    if (const auto type = resolve_from_parent(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
+    const auto declaration = find_type(self.file, self, field.type_name.proto_name);
+    if (declaration.is_enum)
+        return {proto_field::Type::ENUM, proto_field::BitType::NONE};
 
-    if (const auto type = resolve_from_imports(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
+    if (declaration.is_message)
+        return {proto_field::Type::MESSAGE, proto_field::BitType::NONE};
 
     throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
 }
 
 void resolve_types(const search_ctx &self, proto_field &field)
 {
-    const auto [type, bit_type] = resolve_type(self, field, 0);
+    const auto [type, bit_type] = resolve_type(self, field);
 
     field.type     = type;
     field.bit_type = bit_type;
-- 
2.43.0


From 5fbfdeea71e5b85d740e304650950d74d2b43ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 46/53] fix: a file can be imported by more than one file

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index e173608..65be24c 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -387,6 +387,8 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
 
             file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
                 std::move(import_comment);
+            //- file can be imported by more files
+            ctx.already_parsed.erase(import_file_path.string());
         }
         catch (const std::runtime_error &)
         {
-- 
2.43.0


From ed4c07aa7c7c52bd44769795de373e2362fd6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 47/53] fix: names of an imported file shorter than 16
 characters don't point to a moved string

---
 src/spb-proto-compiler/parser/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 65be24c..7eac671 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -1032,6 +1032,9 @@ void set_default_attributes(proto_file &file)
             .path    = file,
             .content = load_file(file),
         };
+        //- all names in ast are string_views to the content, don't store it inside of the string object
+        //- (short string optimization), because ast of an imported file is going to be moved
+        result.content.reserve(sizeof(std::string));
 
         parse_proto_file_content(result, ctx);
         resolve_messages(result);
-- 
2.43.0


From 105051190ec0b9e54e3a9e299db9011197fc652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 48/53] fix: errors in options with true and false values are
 reported without reading outside of the text

---
 src/spb-proto-compiler/parser/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 7eac671..cece3a4 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -439,11 +439,13 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 {
     //- fullIdent | ( [ "-" | "+" ] intLit ) | ( [ "-" | "+" ] floatLit ) | strLit | boolLit |
     // MessageValue
+    //- result has to point to the text (errors are reported at this position)
+    const auto *start = stream.begin();
     if (stream.consume("true"))
-        return "true";
+        return {start, "true"sv.size()};
 
     if (stream.consume("false"))
-        return "false";
+        return {start, "false"sv.size()};
 
     const auto c = stream.current_char();
     if (c == '"' || c == '\'')
-- 
2.43.0


From 8365773f9762de8a7c5d65637f08c5d586c7a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 49/53] fix: forward declarations of messages named like C++
 keywords use the C++ name

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 2 +-
 src/spb-proto-compiler/ast/proto-message.h        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 984af9c..452a2bf 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -156,7 +156,7 @@ auto resolve_field(search_ctx &ctx, proto_field &field, bool is_value) -> bool
     if (!is_self)
     {
         const auto *declared_in = type.path.size() > 1 ? type.path[type.path.size() - 2] : type.p_scope;
-        find_enclosing(ctx, declared_in)->message.forwards.insert(message->name.proto_name);
+        find_enclosing(ctx, declared_in)->message.forwards.emplace(message->name.get_name());
     }
     return true;
 }
diff --git a/src/spb-proto-compiler/ast/proto-message.h b/src/spb-proto-compiler/ast/proto-message.h
index 10688f7..c15f581 100644
--- a/src/spb-proto-compiler/ast/proto-message.h
+++ b/src/spb-proto-compiler/ast/proto-message.h
@@ -17,12 +17,13 @@
 #include "proto-map.h"
 #include "proto-oneof.h"
 #include <set>
+#include <string>
 #include <string_view>
 #include <vector>
 
 struct proto_message;
 using proto_messages         = std::vector<proto_message>;
-using forwarded_declarations = std::set<std::string_view>;
+using forwarded_declarations = std::set<std::string>;
 
 struct proto_message : public proto_base
 {
-- 
2.43.0


From eeb4ebf76f20a8ba9ec51fe9db8b74acf8a727e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 50/53] fix: string and bytes options of a message apply to its
 oneofs and maps

---
 src/spb-proto-compiler/dumper/header.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..187dbd1 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -346,14 +346,15 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     stream << "};\n";
 }
 
-void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_file &file)
+void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_message &message,
+                        const proto_file &file)
 {
     dump_comment(stream, oneof.comment);
 
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
-        stream << ", " << convert_to_ctype(file, field);
+        stream << ", " << convert_to_ctype(file, field, message);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
 }
@@ -361,8 +362,8 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
 void dump_message_map(std::ostream &stream, const proto_map &map, const proto_message &message,
                       const proto_file &file)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     dump_comment(stream, map.comment);
     stream << get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
@@ -431,8 +432,8 @@ void get_std_includes(std::string_view ctype, std::string_view type, std_include
 void get_std_includes(const proto_map &map, const proto_message &message, const proto_file &file,
                       std_includes &result)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     result.map |= get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
                                value_type, "std::map<$, @>")
@@ -451,11 +452,12 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     get_std_includes(ctype, type, result);
 }
 
-void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
+void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
+                      std_includes &result)
 {
     for (const auto &field : oneof.fields)
     {
-        get_std_includes(convert_to_ctype(file, field), "", result);
+        get_std_includes(convert_to_ctype(file, field, message), "", result);
     }
 }
 
@@ -469,7 +471,7 @@ void get_std_includes(const proto_message &message, const proto_file &file, std_
     for (const auto &oneof : message.oneofs)
     {
         result.variant = true;
-        get_std_includes(oneof, file, result);
+        get_std_includes(oneof, message, file, result);
     }
 
     for (const auto &field : message.fields)
@@ -522,7 +524,7 @@ void dump_message(std::ostream &stream, const proto_message &message, const prot
 
     for (const auto &oneof : message.oneofs)
     {
-        dump_message_oneof(stream, oneof, file);
+        dump_message_oneof(stream, oneof, message, file);
     }
 
     //- TODO: is this used in any way?
-- 
2.43.0


From 0b48a9262d6f632a3747caac0a88d8423eb15147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 51/53] fix: unknown (spb_opt).type of 32-bit integers was
 silently ignored

---
 src/spb-proto-compiler/ast/ast-types.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 93fe5e2..3dae6de 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -44,6 +44,9 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 
 [[nodiscard]] auto convertible_types(proto_field::Type from, proto_field::BitType to) -> bool
 {
+    if (to == proto_field::BitType::NONE)
+        return false;
+
     static constexpr auto type_map =
         std::array<std::pair<proto_field::Type, std::array<proto_field::BitType, 4>>, 15>{{
             {proto_field::Type::INT32,
-- 
2.43.0


From a139a30a502304edc385baf15f3add45f54cd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 52/53] fix: bit-fields wider than their type are rejected
 (values were silently changed)

---
 src/spb-proto-compiler/ast/ast-types.cpp | 39 ++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 3dae6de..9525db6 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -11,6 +11,7 @@
 #include "ast/proto-oneof.h"
 
 #include "../dumper/header.h"
+#include "../parser/char_stream.h"
 #include "ast-lookup.h"
 #include "proto-field.h"
 #include "proto-file.h"
@@ -112,6 +113,41 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return proto_field::BitType::NONE;
 }
 
+[[nodiscard]] auto bit_size(proto_field::BitType type) -> uint32_t
+{
+    switch (type)
+    {
+    case proto_field::BitType::NONE:
+        return 0;
+    case proto_field::BitType::INT8:
+    case proto_field::BitType::UINT8:
+        return 8;
+    case proto_field::BitType::INT16:
+    case proto_field::BitType::UINT16:
+        return 16;
+    case proto_field::BitType::INT32:
+    case proto_field::BitType::UINT32:
+        return 32;
+    case proto_field::BitType::INT64:
+    case proto_field::BitType::UINT64:
+        return 64;
+    }
+    return 0;
+}
+
+//- a bit field has to fit into its type
+[[nodiscard]] auto is_bitfield_valid(std::string_view type_name, proto_field::BitType type) -> bool
+{
+    const auto index = type_name.find(':');
+    if (index == std::string_view::npos)
+        return true;
+
+    const auto width = type_name.substr(index + 1);
+    const auto *end  = width.data() + width.size();
+    auto bits        = uint32_t{};
+    return spb::parse_int_literal(width.data(), end, bits) == end && bits > 0 && bits <= bit_size(type);
+}
+
 [[nodiscard]] auto get_scalar_proto_type(std::string_view type_name) -> proto_field::Type
 {
     struct type_table
@@ -163,6 +199,9 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
                               std::string("incompatible int type: ") +
                                   std::string(field.type_name.proto_name) + " and " + std::string(name));
         }
+        if (!is_bitfield_valid(name, field_type))
+            throw_parse_error(file, name, "invalid bit-field width: " + std::string(name));
+
         return {type, field_type};
     }
 
-- 
2.43.0


From 33993f07faef5af71d4f8d705310d70021afc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 53/53] fix: default values: integers and numbers for float
 fields, inf and nan, quotes, reserved words and uint64 above 2^63 did not
 compile, values that do not fit were silently changed

---
 src/spb-proto-compiler/dumper/header.cpp | 122 +++++++++++++++++++++--
 src/spb-proto-compiler/parser/parser.cpp |  28 ++++--
 src/spb-proto-compiler/parser/parser.h   |  10 ++
 3 files changed, 144 insertions(+), 16 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 187dbd1..7b743c0 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -37,6 +37,7 @@ struct std_includes
     bool variant;
     bool optional;
     bool memory;
+    bool limits;
 };
 
 void dump_comment(std::ostream &stream, const proto_comment &comment)
@@ -371,25 +372,121 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
            << " " << map.name.get_name() << ";\n";
 }
 
-void dump_default_value(std::ostream &stream, const proto_field &field)
+auto is_float(const proto_field &field) -> bool
 {
-    auto default_value = field.attributes.default_;
-    if (default_value.empty())
+    return field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE;
+}
+
+void dump_default_string(std::ostream &stream, std::string_view value)
+{
+    auto escaped = false;
+
+    stream << " = \"";
+    for (const auto c : value)
+    {
+        if (c == '"' && !escaped)
+            stream << '\\';
+
+        stream << c;
+        escaped = c == '\\' && !escaped;
+    }
+    stream << '"';
+}
+
+void dump_default_float(std::ostream &stream, const proto_field &field, std::string_view value)
+{
+    const auto negative = value.starts_with('-');
+    const auto number   = value.substr(negative ? 1 : 0);
+
+    stream << " = " << (negative ? "-" : "");
+    if (number == "inf" || number == "nan")
+    {
+        stream << "std::numeric_limits<" << (field.type == proto_field::Type::FLOAT ? "float" : "double")
+               << ">::" << (number == "inf" ? "infinity" : "quiet_NaN") << "()";
         return;
+    }
+
+    stream << number;
+    if (number.size() > 1 && number[0] == '0' && number.find_first_of(".eE") == std::string_view::npos)
+        return; //- octal or hexadecimal integer
+
+    if (number.starts_with("0x") || number.starts_with("0X"))
+        return;
+
+    if (number.find_first_of(".eE") == std::string_view::npos)
+        stream << ".0";
+
+    stream << type_literal_suffix(field.type);
+}
 
-    if (field.type == proto_field::Type::ENUM)
+void check_default_int(const proto_file &file, const proto_field &field, std::string_view value)
+{
+    const auto ctype     = convert_to_ctype(file, field);
+    const auto is_signed = ctype.starts_with("int");
+    const auto *end      = value.data() + value.size();
+    auto bits            = uint32_t{};
+    auto is_valid        = false;
+
+    if (const auto index = field.attributes.type.find(':'); index != std::string_view::npos)
     {
-        stream << " = " << field.type_name.get_name() << "::" << default_value;
+        const auto width = field.attributes.type.substr(index + 1);
+        (void)spb::parse_int_literal(width.data(), width.data() + width.size(), bits);
     }
-    else if (field.type == proto_field::Type::STRING &&
-             (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
+    else
     {
-        stream << " = \"" << default_value << "\"";
+        bits = ctype.ends_with("8_t") ? 8 : ctype.ends_with("16_t") ? 16 : ctype.ends_with("32_t") ? 32 : 64;
+    }
+
+    if (is_signed)
+    {
+        auto number = int64_t{};
+        is_valid    = spb::parse_int_literal(value.data(), end, number) == end &&
+                   (number >> (bits - 1) == 0 || number >> (bits - 1) == -1);
     }
     else
     {
-        stream << " = " << default_value << type_literal_suffix(field.type);
+        auto number = uint64_t{};
+        is_valid = spb::parse_int_literal(value.data(), end, number) == end && number >> (bits - 1) <= 1;
     }
+
+    if (!is_valid)
+        throw_parse_error(file, value, "invalid default value: " + std::string(value));
+}
+
+void dump_default_value(std::ostream &stream, const proto_field &field, const proto_file &file)
+{
+    auto default_value = field.attributes.default_;
+    if (default_value.empty())
+        return;
+
+    switch (field.type)
+    {
+    case proto_field::Type::ENUM:
+        stream << " = " << field.type_name.get_name() << "::" << cpp_name_from_proto(default_value);
+        return;
+
+    case proto_field::Type::STRING:
+        return dump_default_string(stream, default_value);
+
+    case proto_field::Type::FLOAT:
+    case proto_field::Type::DOUBLE:
+        return dump_default_float(stream, field, default_value);
+
+    case proto_field::Type::BOOL:
+        if (default_value != "true" && default_value != "false")
+            throw_parse_error(file, default_value, "invalid default value: " + std::string(default_value));
+        break;
+
+    case proto_field::Type::NONE:
+    case proto_field::Type::BYTES:
+    case proto_field::Type::MESSAGE:
+        break;
+
+    default:
+        check_default_int(file, field, default_value);
+    }
+
+    stream << " = " << default_value << type_literal_suffix(field.type);
 }
 
 void dump_deprecated_attribute(std::ostream &stream, const proto_field &field)
@@ -404,7 +501,7 @@ void dump_message_field(std::ostream &stream, const proto_field &field, const pr
     dump_comment(stream, field.comment);
     dump_deprecated_attribute(stream, field);
     dump_field_type_and_name(stream, field, message, file);
-    dump_default_value(stream, field);
+    dump_default_value(stream, field, file);
     stream << ";\n";
 }
 
@@ -450,6 +547,9 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     const auto type  = add_label_type(ctype, field, message, file);
 
     get_std_includes(ctype, type, result);
+
+    const auto default_value = field.attributes.default_;
+    result.limits |= is_float(field) && (default_value.ends_with("inf") || default_value.ends_with("nan"));
 }
 
 void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
@@ -583,6 +683,8 @@ void get_std_includes(cpp_includes &includes, const proto_file &file)
 
     if (std_includes.optional)
         includes.insert("<optional>");
+    if (std_includes.limits)
+        includes.insert("<limits>");
     if (std_includes.memory)
         includes.insert("<memory>");
     if (std_includes.string)
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index cece3a4..01d134f 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -137,7 +137,11 @@ auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
     const auto *start = stream.begin();
     auto integer      = int64_t();
     auto number       = double();
+    auto unsigned_int = uint64_t();
     const auto *end   = spb::parse_int_literal(start, stream.end(), integer);
+    if (end == nullptr)
+        end = spb::parse_int_literal(start, stream.end(), unsigned_int);
+
     if (end == nullptr)
     {
         const auto result = spb_std_emu::from_chars(start, stream.end(), number);
@@ -236,7 +240,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return result;
 }
 
-[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+[[nodiscard]] auto is_cpp_keyword(std::string_view name) -> bool
 {
     static constexpr auto cpp_reserved_keywords = std::array<std::string_view, 92>{
         "alignas",     "alignof",   "and",        "and_eq",    "asm",      "auto",         "bitand",
@@ -254,6 +258,16 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
         "using",       "virtual",   "void",       "volatile",  "wchar_t",  "while",        "xor",
         "xor_eq"};
 
+    for (const auto keyword : cpp_reserved_keywords)
+    {
+        if (keyword == name)
+            return true;
+    }
+    return false;
+}
+
+[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+{
     const auto *start = stream.begin();
 
     if (isalpha(stream.current_char()) == 0)
@@ -274,11 +288,8 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     if (skip_last_white_space)
         stream.consume_space();
 
-    for (const auto keyword : cpp_reserved_keywords)
-    {
-        if (keyword == result)
-            return cpp_ident{.proto_name = result, .cpp_name = std::string(result) + "_"};
-    }
+    if (is_cpp_keyword(result))
+        return cpp_ident{.proto_name = result, .cpp_name = cpp_name_from_proto(result)};
 
     return cpp_ident{.proto_name = result};
 }
@@ -1079,6 +1090,11 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
     return parse_proto_file(file_path, ctx);
 }
 
+[[nodiscard]] auto cpp_name_from_proto(std::string_view name) -> std::string
+{
+    return std::string(name) + (is_cpp_keyword(name) ? "_" : "");
+}
+
 [[nodiscard]] auto cpp_file_name_from_proto(const fs::path &proto_file_path, std::string_view extension)
     -> fs::path
 {
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..c5e7234 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -14,6 +14,7 @@
 #include <filesystem>
 #include <set>
 #include <span>
+#include <string>
 #include <string_view>
 
 /**
@@ -27,6 +28,15 @@
 [[nodiscard]] auto cpp_file_name_from_proto(const std::filesystem::path &proto_file_path,
                                             std::string_view extension) -> std::filesystem::path;
 
+/**
+ * @brief C++ name of a proto identifier
+ *        example: "private" -> "private_"
+ *
+ * @param name proto identifier
+ * @return C++ identifier
+ */
+[[nodiscard]] auto cpp_name_from_proto(std::string_view name) -> std::string;
+
 /**
  * @brief parse proto file
  *
-- 
2.43.0

