#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PBS, PBD, PB = "include/spb/pb/serialize.hpp", "include/spb/pb/deserialize.hpp", "include/spb/pb.hpp"
JS, JD, J = "include/spb/json/serialize.hpp", "include/spb/json/deserialize.hpp", "include/spb/json.hpp"
B64, U8, BITS, BIO = "include/spb/json/base64.h", "include/spb/utf8.h", "include/spb/bits.h", "include/spb/io/buffer-io.hpp"
GP, GJ, GH = "src/spb-proto-compiler/dumper/pb/dumper.cpp", "src/spb-proto-compiler/dumper/json/dumper.cpp", "src/spb-proto-compiler/dumper/header.cpp"
PA, CS = "src/spb-proto-compiler/parser/parser.cpp", "src/spb-proto-compiler/parser/char_stream.h"
AT, AO, AM = "src/spb-proto-compiler/ast/ast-types.cpp", "src/spb-proto-compiler/ast/ast-options.cpp", "src/spb-proto-compiler/ast/ast-messages-order.cpp"

p("P01", "Protobuf round-trip preserves every message value",
  "Serializing any valid message value to protobuf and deserializing the bytes into a fresh message gives back an equal value, for every scalar type, label, enum, string, bytes, nested message, map and oneof. This includes zero, minimal and maximal numbers, empty strings/bytes/messages inside optional, repeated, map and oneof fields, and the difference between an unset and a set-to-default optional field.",
  ["inputs"], "every value of every field (numbers: all bit patterns; strings, bytes, repeated and map fields: all contents up to the stated sizes)",
  "the tests round-trip about a dozen hand-picked values per type; most bit patterns, empty elements and value combinations are never tried",
  [PBS, PBD, GP], [("serialize overloads per field kind", PBS), ("deserialize overloads per field kind", PBD), ("generated field dispatch", GP)])
p("P02", "Protobuf output is the standard wire encoding of the value",
  "The bytes produced for a message are exactly what the protobuf wire format prescribes for the declared field numbers and types: tag, wire type, minimal varint, zig-zag for sint, sign extension of negative int32/enum to ten bytes, little-endian fixed values, length prefixes, packed or unpacked repeated fields and key=1/value=2 map entries. Any conforming protobuf implementation therefore reads the same value back.",
  ["inputs"], "every value of every scalar type, label and field number class (1 to 5 byte tags)",
  "compatibility tests compare against a few literal byte strings; a wrong encoding that appears only for some magnitudes or signs is not sampled",
  [PBS, "include/spb/pb/wire-types.h", GP], [("serialize_varint / serialize_svarint / serialize_tag", PBS), ("encoder selection per proto type", GP)])
p("P03", "All protobuf output paths agree on size and bytes",
  "For every message, the announced serialized size equals the number of bytes actually produced, and writing to a raw buffer, to a resizable container and through a writer callback produce identical bytes and return that same size, with and without the delimited option. No output path writes outside the announced size.",
  ["inputs", "configurations"], "every value of messages covering all field kinds, delimited on and off",
  "a size computation that disagrees with the writer for one varint width corrupts memory only for that value; tests use small values of one width",
  [PB, PBS], [("ostream_size / ostream_buffer / ostream_writer", PBS), ("serialize, serialize_size", PB)])
p("P04", "Well-formed protobuf input decodes to the value the format defines",
  "Any well-formed protobuf input decodes to the value defined by the wire format: fields in any order, last value wins for singular scalars and strings, repeated fields accumulate in order, repeated occurrences of a singular sub-message are merged, non-minimal varints are accepted, and 64-bit sign-extended or 32-bit encodings of negative int32/enum values give the same number (a bool has to be 0 or 1).",
  ["inputs"], "every byte string up to the stated length, compared with an independent reference decoder",
  "tests decode only inputs produced by canonical encoders, in declaration order and with each field at most once",
  [PBD, GP], [("read_varint, read_tag_or_eof, deserialize overloads", PBD), ("generated field switch", GP)])
p("P05", "Unknown protobuf fields are skipped without side effects",
  "Fields whose number the message does not know are skipped for every legal wire type and any content, and the decoded value is the same as if they had been absent from the input; this holds at the top level, inside nested messages and inside map entries. Unsupported wire types are rejected.",
  ["inputs"], "every unknown field number, wire type and payload up to the stated length, before, between and after known fields",
  "tests contain a handful of unknown-field inputs",
  [PBD, GP], [("skip", PBD), ("default branch of generated dispatch", GP)])
p("P06", "Malformed protobuf input is rejected with an exception",
  "Input that is truncated anywhere, has a varint longer than ten bytes, a field number of zero or beyond the 29-bit range, a length that exceeds the enclosing data, or a known field with a wrong wire type is reported by an exception and never silently accepted as a value.",
  ["inputs"], "every byte string up to the stated length that an independent validator calls malformed",
  "tests list some malformed literals; acceptance of one malformed class at one position is not sampled",
  [PBD, PB], [("read_exact_or_throw, sub_stream, check_wire_type_or_throw, check_tag_or_throw", PBD)])
p("P07", "Protobuf decoding of arbitrary bytes is memory safe and terminates",
  "Decoding any byte string, of any content, as any message type either succeeds or throws a standard exception; it never reads or writes outside the input or the message, never triggers undefined behaviour, never aborts and always terminates.",
  ["inputs"], "every byte string up to the stated length for messages covering all field kinds",
  "out-of-bounds and arithmetic faults need specific adversarial bytes; the fuzzers in the repository sample and are not part of the tests",
  [PBD, PB, U8, BITS], [("bounds checks of the input streams", PBD)])
p("P08", "Packed and unpacked encodings of repeated fields are both accepted",
  "A repeated numeric, bool or enum field decodes to the same sequence whether its elements arrive packed, unpacked, or as a mixture of both, regardless of how the field is declared (fixed-size containers hold only a complete packed sequence). Elements arriving with any other wire type are rejected.",
  ["inputs"], "every mixture of packed and unpacked elements up to the stated length, declared packed and not packed, every scalar encoder",
  "tests only decode the declared form",
  [PBD, GP], [("deserialize_packed and repeated deserialize", PBD)])
p("P09", "Protobuf decoding does not depend on how the reader delivers bytes",
  "Deserializing through a reader callback gives the same value, the same success or failure and the same consumed size as deserializing the same bytes from memory, for every way the reader may split the data into partial reads. The reader is never asked for zero bytes.",
  ["inputs", "schedules"], "every input up to the stated length and every sequence of short-read sizes",
  "the tests use readers that always return everything requested or one byte at a time on few messages",
  [PBD, PB, "include/spb/io/io.hpp"], [("istream_reader::read, read_exact_or_throw, skip_or_throw, sub_stream", PBD)])
p("P10", "Delimited messages are framed exactly",
  "With the delimited option a message is written as its varint length followed by its bytes, reading consumes exactly that many bytes and reports them, and a sequence of delimited messages reads back one by one from memory or from a reader. A length prefix larger than the remaining data is rejected, and bytes after the frame are not touched.",
  ["inputs", "histories"], "every sequence of messages and trailing data up to the stated sizes, through memory and reader",
  "tests frame one or two fixed messages",
  [PB, PBD], [("delimited handling", PB)])
p("P11", "Integers never silently change value when decoded",
  "When an integer or bit-field declared with a narrow type or bit width is decoded from protobuf or JSON, a value that fits is stored exactly and a value that does not fit is rejected with an exception; full-width 32/64-bit integers are exact over their entire range. As in every protobuf implementation, a full-width int32 or enum keeps the low 32 bits of a longer varint.",
  ["inputs"], "every 64-bit value against every width (bit-fields of 1..64 bits, 8/16/32/64-bit integers), every encoder",
  "tests check values one off the limits for a few widths; wrap-around values such as limit+256 are not tried",
  [PBD, JD, BITS], [("check_if_value_fit_in_bits", BITS), ("read_varint, deserialize_bitfield", PBD)])
p("P12", "Size and count limits are enforced in protobuf",
  "For a string or bytes field with max_size N, and a repeated field with max_count N, protobuf serialization and deserialization succeed whenever the actual size or count is at most N and throw whenever it is larger. The limit is taken from the field, else from the message, else from the file option, also for elements of repeated fields and members of oneofs.",
  ["inputs", "configurations"], "every content around the limit, for limits given at field, message and file level, as options and as comment attributes",
  "tests check one value below and one above for some combinations",
  [PBS, PBD, GP, AO], [("check_size", "include/spb/pb/wire-types.h"), ("field_max_size / field_max_count", GP)])
p("P13", "Size and count limits are enforced in JSON",
  "For a string or bytes field with max_size N, and a repeated field with max_count N, JSON serialization and deserialization succeed whenever the decoded size or count is at most N and throw whenever it is larger, no matter how the text is escaped or base64-padded. The limit is taken from the field, else from the message, else from the file option, also for members of oneofs.",
  ["inputs", "configurations"], "every content around the limit, including escapes and base64 padding",
  "tests check one value below and one above for some combinations",
  [JS, JD, B64, GJ], [("check_size", "include/spb/json/field.hpp"), ("field_max_size / field_max_count", GJ)])
p("P14", "Fixed-size containers accept exactly their own size",
  "Deserializing a string, bytes or packed repeated field into a fixed-size container succeeds exactly when the input has the container's size, in protobuf and in JSON, stores every element in order, and otherwise throws without writing outside the container.",
  ["inputs"], "every content with sizes below, at and above the container size",
  "tests try a shorter and a longer literal per container",
  [PBD, JD, B64], [("size checks for non resizable containers", PBD), ("fixed-size repeated deserialize", JD)])
p("P15", "String fields are accepted exactly when they are valid UTF-8",
  "A string field is accepted by protobuf and JSON, on serialization and on deserialization, if and only if its bytes are well-formed UTF-8 as defined by Unicode (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequences); otherwise an exception is thrown.",
  ["inputs"], "every byte string up to the stated length (past the 8-byte fast path)",
  "tests contain a few invalid sequences and short strings; positions relative to the 8-byte fast path are not covered",
  [U8, PBS, PBD, JS, JD], [("is_valid / validate / decode_point", U8)])
p("P16", "Base64 encoding and decoding are exact inverses and strict",
  "Bytes fields appear in JSON as standard padded base64 (RFC 4648) and decode back to the same bytes for every content and length; text with characters outside the alphabet, misplaced padding or a length that is not a multiple of four is rejected. Decoding from memory and from a reader with any chunking behaves the same.",
  ["inputs"], "every byte string up to the stated length, every base64 text up to the stated length",
  "tests use RFC vectors and some malformed literals",
  [B64], [("base64_encode / base64_decode_string", B64)])
p("P17", "JSON round-trip preserves every message value",
  "Serializing any valid message value to JSON and deserializing the text gives back an equal value, for every scalar type, enum, string (any Unicode content), bytes, optional, repeated, map (any string key) , oneof and nested message, including extreme integers, non-finite floating point values and empty elements of repeated fields.",
  ["inputs"], "every value of every field (strings and containers up to the stated sizes)",
  "tests round-trip few literal values; special characters in map keys and extreme values are not combined",
  [JS, JD, GJ], [("serialize / deserialize overloads", JS), ("generated dispatch", GJ)])
p("P18", "JSON output is valid JSON that denotes the message",
  "The text produced for any message is a single syntactically valid JSON document: members are separated by exactly one comma, all strings and map keys are escaped as RFC 8259 requires, field names, numbers, booleans, enum names and null-free structure are those defined by the message, and unset fields are omitted.",
  ["inputs"], "every message value and every presence combination of fields, strings of any content",
  "tests compare literal outputs; comma placement and escaping for unseen combinations are not covered",
  [JS, GJ], [("put_comma_if_needed, write_escaped, write_unicode", JS)])
p("P19", "All JSON output paths agree on size and bytes",
  "For every message, the announced JSON size equals the number of bytes produced, and raw buffer, resizable container and writer callback receive identical bytes and report that same size; no output path writes outside the announced size.",
  ["inputs"], "every message value, strings with any mixture of escaped, multi-byte and plain characters",
  "size and writer paths are compared only implicitly on few values",
  [J, JS], [("ostream_size / ostream_buffer / ostream_writer", JS)])
p("P20", "Valid JSON input decodes to the value it denotes",
  "A valid JSON document for a message decodes to the value it denotes regardless of member order and of insignificant whitespace between any two tokens (including before and after the document): string escapes and surrogate pairs give the right characters, integers may be quoted or not, null leaves or makes a nullable field unset, and later duplicates replace or extend as for the field kind.",
  ["inputs"], "every placement of whitespace, escape forms and member orders up to the stated length, compared with a reference reader",
  "tests decode compact documents produced by the library itself",
  [JD, GJ], [("token, string and number readers", JD)])
p("P21", "Unknown JSON members are ignored whatever their value",
  "A JSON member whose name the message does not know is skipped together with its complete value (any nesting of objects, arrays, strings with escapes, numbers, literals) and decoding the remaining members gives the same result as if it had been absent, also in messages that declare no fields and for names of any length or content.",
  ["inputs"], "every unknown name and value up to the stated length and nesting",
  "tests skip a few literal unknown members",
  [JD, GJ], [("ignore_value and friends", JD), ("default branch of generated key dispatch", GJ)])
p("P22", "Malformed JSON input is rejected with an exception",
  "A truncated document, missing or doubled comma, colon, quote or bracket, invalid escape, unpaired surrogate escape, value of the wrong type, or number without digits for a known field is reported by an exception and never silently accepted.",
  ["inputs"], "every byte string up to the stated length that an independent grammar calls malformed in these ways, and every truncation point of valid documents",
  "tests list some malformed literals",
  [JD], [("token checks in deserialize overloads", JD)])
p("P23", "JSON decoding of arbitrary bytes is memory safe and terminates",
  "Decoding any byte string as JSON into any message type, from memory or through a reader, either succeeds or throws an exception; it never accesses memory out of bounds, never triggers undefined behaviour, never aborts and always terminates.",
  ["inputs"], "every byte string up to the stated length for messages covering all field kinds",
  "needs specific adversarial bytes; fuzzers are not part of the tests",
  [JD, J, B64, BIO], [("input stream bounds checks", JD)])
p("P24", "JSON decoding does not depend on how the reader delivers bytes",
  "Deserializing JSON through a reader callback gives the same value and the same success or failure as deserializing the same text from memory, for every way the reader splits the data, also when tokens straddle the internal buffer boundary. The reader is never asked for zero bytes.",
  ["inputs", "schedules"], "every split of the text into partial reads, every alignment relative to the 256-byte buffer",
  "tests use few reader shapes and short documents",
  [JD, BIO], [("buffered_reader::view / skip / read_buffer", BIO), ("istream_reader", JD)])
p("P25", "JSON member names map to exactly the declared field",
  "A JSON member is stored in a field if and only if its name equals the field's original name or its json_name (the lowerCamelCase form when no json_name is given), and in no other field; names that merely share a hash, prefix or length with a field name are treated as unknown. On output every field uses its json_name, or else its original name.",
  ["inputs", "programs"], "every member name up to the stated length, for schemas with similar, colliding and renamed fields",
  "tests use the exact names; near-miss and colliding names are not tried",
  [GJ, JD], [("generated key switch on hash plus comparison", GJ), ("deserialize_key", JD)])
p("P26", "Enums map to JSON by declared name or number and nothing else",
  "An enum value is written to JSON as the name declared in the schema and is read from any declared name, alias or declared number; every other name or number is rejected, and serializing an undeclared value throws.",
  ["inputs"], "every 32-bit number and every name string up to the stated length, enums with aliases, negatives and reserved-word names",
  "tests try a few names and numbers",
  [GJ, JD], [("generated enum switch", GJ)])
p("P27", "Oneof fields hold at most the last member set",
  "After decoding protobuf or JSON a oneof holds exactly the member that occurred last in the input, or nothing if none occurred; serializing writes exactly the active member, even when it holds a default or empty value. Several oneofs in one message are independent of each other and of the other fields.",
  ["inputs", "histories"], "every sequence of oneof member occurrences and every active-member combination of several oneofs",
  "tests set one member at a time in messages with a single oneof",
  [GP, GJ, PBD, JD], [("deserialize_variant", PBD), ("generated oneof switch", GP)])
p("P28", "Map fields behave as maps in both formats",
  "A map field decodes to the set of its entries with the last entry winning for a duplicated protobuf key, missing key or value in a protobuf entry meaning the default, key and value accepted in either order; every key type round-trips through protobuf and, as a quoted name, through JSON.",
  ["inputs", "histories"], "every sequence of entries up to the stated number and size, every key type",
  "tests use few well-formed entries with distinct keys",
  [PBD, PBS, JD, JS, GP], [("map overloads of serialize and deserialize", PBD)])
p("P29", "Exceptions from I/O callbacks reach the caller unchanged",
  "If a user-supplied reader or writer throws on any of its calls, serialization or deserialization stops and exactly that exception propagates to the caller; the process is never terminated and no further callback is made.",
  ["fault_sequences", "inputs"], "a throw at every callback invocation, for protobuf and JSON readers and writers",
  "no test throws from a callback at an arbitrary point",
  [PB, J, BIO, "include/spb/io/function_ref.hpp", JD], [("propagation through streams", JD)])
p("P30", "The library itself never allocates heap memory",
  "Serializing any message to a caller-supplied buffer or writer performs no heap allocation, in protobuf and JSON, and deserializing a message whose fields need no dynamic storage performs none either (except to report an error).",
  ["inputs"], "every value of messages covering all field kinds",
  "tests do not observe allocations",
  [PBS, PBD, JS, JD], [("stack buffers only", JS)])
p("P31", "Generated code implements the schema it was generated from",
  "For a given schema the generated code uses the declared field number, wire type, packed setting (explicit, or the proto2/proto3 default), C++ type options, default value and limits for every field, with field options taking precedence over message options over file options, whether given as options or as comment attributes.",
  ["programs", "configurations", "inputs"], "schemas enumerating field kinds, labels, syntaxes and option levels, over all field values",
  "tests fix a small number of schemas and sample values",
  [GP, GJ, GH, AO, PA], [("dump_serialize_mode, is_packed_array", GP), ("option resolution", AO)])
p("P32", "Numbers written in a schema are read exactly or rejected",
  "A decimal, hexadecimal or octal integer in a proto file (field number, enum value, reserved range, option) has exactly its mathematical value in the compiled schema, and literals that are malformed or out of the allowed range are rejected, as are field numbers that are reserved, inside an extension range or already used in the message, enum values that are reserved, and ranges that end before they start.",
  ["inputs"], "every digit string up to the stated length in every base",
  "parser tests use small decimal numbers",
  [PA, CS], [("consume_int and number conversion", PA)])
p("P33", "The compiler parser is total and memory safe",
  "Parsing any text as a proto file either yields a schema or throws an exception; it never reads outside the text, never crashes and always terminates, whatever characters appear inside comments, strings, options or declarations and wherever the text is cut off.",
  ["inputs"], "every text obtained by replacing or truncating windows of valid schemas with arbitrary characters, up to the stated window size",
  "parser tests contain literals only",
  [PA, CS], [("char_stream bounds checks", CS)])
p("P34", "Generated messages are ordered so that every definition is usable",
  "For every schema in which messages refer to each other, the order in which messages are emitted defines each message before any member that holds it by value (required, optional, map value, oneof), and declares it before any member that holds it by pointer or in a repeated field; optional members on a dependency cycle are turned into pointers, and none where no member has to be one. A schema is accepted exactly if required, map and oneof members and nesting alone do not form a cycle.",
  ["programs"], "every reference graph over the stated number of messages and every label of each edge",
  "tests contain a few fixed dependency shapes",
  [AM], [("sort_messages / resolve_message_dependencies", AM)])
p("P35", "Type names in a schema resolve to the innermost matching declaration",
  "A message or enum type name used by a field resolves according to protobuf scoping: the innermost enclosing scope that declares the name wins, then outer scopes, the package and imported packages; a name that is declared nowhere is rejected; the C++ name in the generated header denotes the same declaration.",
  ["programs"], "every placement of a declaration of the same name over the scopes of a nested schema",
  "tests contain a few fixed nestings",
  [AT], [("resolve_types", AT)])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
assert len({x["id"] for x in P}) == len(P)
for x in P: assert len(x["title"]) <= 80, x["title"]
print(len(P), "properties")
