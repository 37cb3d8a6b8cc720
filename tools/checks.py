"""What is decided for each property: harness units, entries, bounds."""
from check import Unit, Entry
SPEC = {}


def get(prop, tier):
    return SPEC[prop]


SPEC["P15"] = dict(
    what="The validator is compared with a reference written from Unicode table 3-7, for every byte string up to the bound.",
    outside="longer strings (the word-at-a-time prefix loop is crossed at 8 and 16 bytes in separate entries)",
    units=[Unit("utf8", "utf8.cpp", [
        Entry("valid", {"max": 6}, {"max": 8}, reach=["valid", "invalid"], jobs=4, bounds="every byte string of 0..max bytes"),
        Entry("words", {"w": 2, "max": 17, "skew": 1}, {"w": 4, "max": 33, "skew": 7}, reach=["valid", "invalid"], jobs=4, bounds="every string of w..max characters of one byte, of which w neighbours at every position are replaced by arbitrary bytes, starting at 0..skew bytes after an aligned address"),
    ], ub=True),
    Unit("strings", "strings.cpp", [
        Entry("strings", {"max": 3, "pre": 8, "prelo": 6, "post": 1}, {"max": 4, "pre": 17, "post": 2, "reader": 1}, reach=["accepted", "rejected"], jobs=3, bounds="string fields without presence, optional, repeated, in oneofs, nested, map keys and map values; written and read, protobuf and JSON; every content of 0..max bytes between prelo..pre and 0..post plain characters"),
        Entry("strings", {"max": 4, "pre": 0, "post": 0, "hi": 0}, {"max": 5, "pre": 0, "post": 0, "hi": 0}, label="-short", reach=["accepted", "rejected"], jobs=2, bounds="one of them with longer content"),
        Entry("split", {"max": 4}, {"max": 6}, reach=["accepted", "rejected"], jobs=1, bounds="two consecutive strings whose bytes could be joined"),
    ], protos=["pbk.proto"])])


def pb_write(prop):
    D = [prop]
    str_b = "every value of the field; strings and bytes up to the stated length"
    ents = [
        Entry("opt", {"str": 3, "byt": 3}, {"str": 7, "byt": 9}, jobs=2, bounds="one optional field of each kind (17 kinds, tags of 1..5 bytes): " + str_b),
        Entry("rep", {"cmax": 2, "cmin": 0, "str": 1, "byt": 1}, {"cmin": 0, "cmax": 3, "str": 2, "byt": 2}, jobs=2, bounds="repeated (not packed) field of each kind with cmin..cmax elements"),
        Entry("pack", {"cmax": 2}, {"cmax": 3}, jobs=1, bounds="packed repeated field of each kind with 0..cmax elements"),
        Entry("maps", {"cmin": 0, "cmax": 1, "str": 2, "byt": 2}, {"cmin": 0, "cmax": 2, "str": 2, "byt": 2}, jobs=2, bounds="map of each key kind with various value kinds, cmin..cmax entries"),
        Entry("one", {"cmin": 1, "str": 2, "byt": 2}, {"cmin": 1, "str": 6, "byt": 6}, jobs=1, bounds="each member of two oneofs"),
        Entry("rec", {"str": 1}, {"str": 2}, jobs=1, bounds="recursive message held by pointer, repeated sub-messages"),
        Entry("holder", {}, {}, jobs=1, bounds="empty messages inside optional, repeated and nested messages"),
        Entry("length", {}, {"from": 0, "to": 300}, jobs=1, bounds="nested messages of from..to bytes (length prefix grows from one to two bytes at three levels)"),
    ]
    multi = [
        Entry("req", {"exact": 0}, {"exact": 0}, jobs=1, bounds="fields without presence, one symbolic at a time"),
        Entry("mix", {"exact": 0}, {"exact": 0}, jobs=1, bounds="every combination of active members of two oneofs and an optional field between them"),
        Entry("mixopt", {"exact": 0}, {"exact": 0}, jobs=1, bounds="every combination of presence of seven optional fields"),
    ]
    narrow = [
        Entry("write_narrow", {}, {}, reach=["roundtrip"], jobs=1, bounds="every value of 25 integer fields with C++ types of 8..64 bits"),
        Entry("write_bits", {}, {}, reach=["roundtrip"], jobs=1, bounds="every value of 26 bit fields of 1..64 bits"),
    ]
    return [Unit("write", "pb_write.cpp", ents + multi, protos=["pbk.proto"], defines=D), Unit("narrow", "narrow.cpp", narrow, protos=["pbn.proto"], defines=D)]


PB_OUT = "longer strings, more elements and deeper nesting; combinations of fields outside the listed ones; allocators other than std"
SPEC["P01"] = dict(what="The value read back from the serialized bytes is compared member by member with the value written.", outside=PB_OUT, units=pb_write("P01"))
SPEC["P02"] = dict(what="Output is compared byte for byte with an encoder, and value for value with a decoder, both written from the wire format documentation.", outside=PB_OUT, units=pb_write("P02"))
SPEC["P03"] = dict(what="The bytes of all output paths and the announced size are compared; buffers have exactly the announced size.", outside=PB_OUT, units=pb_write("P03"))


def pb_read(prop):
    seqs = {  # name: (quick, thorough)
        "sub": ({"rmax": 3, "vlens": 1, "str": 2}, {"rmax": 4, "vlens": 1, "str": 3}),
        "opt": ({"rmax": 1, "vlens": 2, "str": 2, "longlen": 1}, {"rmax": 2, "vlens": 1, "str": 2}),
        "rep": ({"rmax": 2, "vlens": 0, "elems": 2}, {"rmax": 2, "vlens": 1, "elems": 2}),
        "pack": ({"rmax": 2, "vlens": 0, "elems": 2}, {"rmax": 2, "vlens": 1, "elems": 2}),
        "maps": ({"rmax": 1, "vlens": 0, "parts": 2}, {"rmax": 1, "vlens": 1, "parts": 3}),
        "one": ({"rmax": 2, "vlens": 0, "inner": 1}, {"rmax": 3, "vlens": 0, "inner": 1}),
        "req": ({"rmax": 2, "vlens": 0}, {"rmax": 3, "vlens": 0}),
        "rec": ({"rmax": 2, "vlens": 0, "inner": 1, "depth": 2}, {"rmax": 3, "vlens": 0, "inner": 2, "depth": 2}),
        "holder": ({"rmax": 2, "vlens": 0, "inner": 1, "depth": 2}, {"rmax": 3, "vlens": 0, "inner": 1, "depth": 3}),
    }
    ents = [Entry("raw", {"max": 4}, {"max": 6}, jobs=4, bounds="every byte string of 0..max bytes, as each of 9 message types")]
    if prop == "P08":
        ents = []
        seqs = {k: v for k, v in seqs.items() if k in ("rep", "pack")}
    if prop == "P06":
        seqs["pack"][0]["elems"] = seqs["rep"][0]["elems"] = 1
    for k, (q, t) in seqs.items():
        ents.append(Entry("seq_" + k, q, t, jobs=2, bounds="1..rmax well-formed fields in any order, nested to depth, content symbolic" + ("; cut at every position or any byte replaced" if prop == "P06" else "")))
    ents.append(Entry("wiretypes", {}, {}, jobs=1, bounds="every known field with every wire type"))
    if prop != "P08":
        ents.append(Entry("tags", {}, {}, jobs=1, bounds="tag varints of 1..11 bytes, at top level, in a nested message and in a map entry"))
        ents.append(Entry("varints", {}, {}, jobs=1, bounds="value and length varints of 1..12 bytes"))
    return [Unit("read", "pb_read.cpp", ents, protos=["pbk.proto"], defines=[prop])]


for p, w in (("P04", "Every input the reference decoder accepts must be accepted with the same value."),
             ("P06", "Every input the reference decoder calls malformed must be rejected by an exception."),
             ("P08", "Inputs with repeated numbers in the form that is not declared, against the reference decoder.")):
    SPEC[p] = dict(what=w, outside="longer inputs and longer sequences of fields; left open by the reference: bool above 1, tenth varint byte above 1, tags longer than five bytes, uint32/sint32 values above 32 bits (rejected by the library, P11)",
                   units=pb_read(p))

SPEC["P05"] = dict(
    what="The same input with and without an unknown field is decoded and the values are compared.",
    outside="unknown contents longer than the bound, more than one unknown field at a time",
    units=[Unit("unknown", "pb_unknown.cpp", [
        Entry(n, {"size": 3}, {"size": 8}, reach=["skipped", "rejected"], jobs=1, bounds="one unknown field, every number outside the known ones, every wire type, varints of 1..10 bytes, contents of 0..size bytes, before, between and after known fields, from memory and through readers that deliver everything, one byte or five bytes at a time")
        for n in ("sub", "opt", "empty", "one", "repeated", "nested", "entry")] + [
        Entry("large", {}, {"from": 40, "to": 103, "more": 4}, reach=["skipped"], jobs=1, bounds="unknown contents of from..to bytes and 64 to 64*more bytes more, at the top level and nested, through the same readers")], protos=["pbk.proto"])])
SPEC["P07"] = dict(
    what="Every access, every arithmetic operation and every exit of the decoder is checked; other exceptions than std::exception and non-termination are violations.",
    outside="longer inputs; memory exhaustion by large length prefixes through a reader; recursion deeper than the input length allows",
    units=[Unit("safe", "pb_safe.cpp", [
        Entry("raw", {"max": 5}, {"max": 6}, reach=["accepted", "rejected"], jobs=4, bounds="every byte string of 0..max bytes as each of 12 message types"),
        Entry("raw", {"max": 3, "reader": 1, "delimited": 1}, {"max": 4, "reader": 1, "delimited": 1}, jobs=2, label="-reader", bounds="the same through a reader and with the delimited option"),
        Entry("field", {"max": 3}, {"max": 5}, jobs=2, bounds="every field header followed by every byte string of 0..max bytes"),
        Entry("numbers", {}, {}, jobs=1, bounds="every complete number for every narrow integer and bit field"),
        Entry("arrays", {"max": 3, "reader": 1}, {"max": 5, "reader": 1}, reach=["accepted", "rejected"], jobs=2, bounds="fixed-size arrays, strings and bytes: every field header followed by every byte string of 0..max bytes, or by a length prefix, 0..max bytes and 1000 more"),
    ], protos=["pbk.proto", "pbn.proto", "pba.proto"], ub=True)])
SPEC["P09"] = dict(
    what="The result of decoding through a reader with symbolic chunk sizes is compared with decoding from memory.",
    outside="longer inputs; more free chunk sizes than the budget (the remaining reads are complete, or all reads deliver single bytes); readers that break their contract",
    units=[Unit("reader", "pb_reader.cpp", [
        Entry("raw", {"max": 3}, {"max": 4}, reach=["accepted", "rejected"], jobs=2, bounds="every byte string of 0..max bytes as 9 message types, every split")] + [
        Entry(n, {"str": 3, "budget": 3}, {"str": 4, "budget": 5, "count": 2}, jobs=1, bounds="every field with symbolic content, once or twice, up to two bytes cut off, every split of the first budget multi-byte reads")
        for n in ("opt", "rep", "pack", "maps", "one", "rec")] + [
        Entry("skip", {"budget": 1}, {"budget": 2}, jobs=2, bounds="unknown fields of 0..300 bytes")],
        protos=["pbk.proto"], defines=["P09"])])
SPEC["P10"] = dict(
    what="Frames are compared with the reference framing; sequences are read back from memory and from a reader.",
    outside="longer sequences and messages, more free chunk sizes than the budget",
    units=[Unit("frames", "pb_reader.cpp", [
        Entry("frames", {"frames": 2}, {"frames": 3}, reach=["reader", "memory"], jobs=2, bounds="1..frames messages followed by 0..2 arbitrary bytes, through memory and reader"),
        Entry("rawframe", {"max": 4}, {"max": 6}, reach=["accepted", "rejected"], jobs=2, bounds="every byte string of 0..max bytes as a delimited message"),
        Entry("longframe", {}, {"from": 100, "to": 300}, reach=["long"], jobs=1, bounds="frames around the two byte length prefix")],
        protos=["pbk.proto"], defines=["P10"])])


def js_write(prop):
    ents = [
        Entry("opt", {"str": 2, "byt": 3}, {"str": 3, "byt": 7}, jobs=2, bounds="one optional field of each kind: every value; strings and bytes up to the stated length"),
        Entry("rep", {"cmax": 1, "str": 1, "byt": 1}, {"cmax": 2, "str": 1, "byt": 2}, jobs=2, bounds="repeated field of each kind with 0..cmax elements"),
        Entry("maps", {"cmax": 1, "str": 1, "byt": 1}, {"cmax": 1, "str": 2, "byt": 2}, jobs=2, bounds="map of each key kind with various value kinds, 0..cmax entries"),
        Entry("one", {"cmin": 1, "str": 2, "byt": 2}, {"cmin": 1, "str": 4, "byt": 5}, jobs=1, bounds="each member of two oneofs"),
        Entry("rec", {"str": 1, "small": 1}, {"str": 2, "small": 1}, jobs=1, bounds="recursive message held by pointer, repeated sub-messages"),
        Entry("holder", {"small": 1}, {}, jobs=1, bounds="empty messages inside optional, repeated and nested messages"),
        Entry("req", {}, {}, jobs=1, bounds="fields without presence, one symbolic at a time"),
        Entry("mix", {}, {}, jobs=1, bounds="every combination of active members of two oneofs and an optional field between them"),
        Entry("mixopt", {"small": 1}, {}, jobs=1, bounds="every combination of presence of seven optional fields"),
        Entry("floats", {}, {}, jobs=1, bounds="numbers with the longest decimal texts in four kinds of members"),
    ]
    return [Unit("jwrite", "js_write.cpp", ents, protos=["pbk.proto"], defines=[prop])]


JS_OUT = "longer strings, more elements and deeper nesting; combinations of fields outside the listed ones; the decimal text of floating point numbers is that of std::to_chars (modelled as an invertible text)"
SPEC["P17"] = dict(what="The value read back from the JSON text is compared member by member with the value written.", outside=JS_OUT, units=js_write("P17"))
SPEC["P18"] = dict(what="The text is read by a strict RFC 8259 reader written independently of the library; it must denote the message and contain each set member once and nothing else.", outside=JS_OUT, units=js_write("P18"))
SPEC["P19"] = dict(what="The text of all output paths and the announced size are compared; buffers have exactly the announced size.", outside=JS_OUT, units=js_write("P19"))


def js_docs(prop, reach):
    ents = [
        Entry("raw", {"max": 4}, {"max": 5}, jobs=2, bounds="every byte string of 0..max bytes, bare and inside of braces, as 8 message types"),
        Entry("field_opt", {"value": 3}, {"value": 4}, jobs=3, bounds="each field with 0..value symbolic bytes in several contexts (bare, quoted, near the limits of its type, inside escapes and base64 groups)"),
        Entry("field_rep", {"value": 2}, {"value": 3}, jobs=2, bounds="the same inside arrays and in place of arrays"),
        Entry("field_maps", {"value": 2}, {"value": 4}, jobs=2, bounds="the same as keys and values of maps"),
        Entry("field_one", {"value": 2}, {"value": 4}, jobs=1, bounds="the same for members of oneofs"),
        Entry("field_req", {"value": 3}, {"value": 4}, jobs=1, bounds="the same for fields without presence"),
        Entry("field_rec", {"value": 3}, {"value": 4}, jobs=1, bounds="the same for messages held by pointer"),
        Entry("escapes", {}, {"full": 1}, jobs=1, bounds="every \\u escape, every pair of \\u escapes (quick: around the limits of the surrogates)"),
    ]
    for x in "abcd":
        ents.append(Entry("changed_" + x, {"ops": 3}, {"ops": 7}, jobs=2, bounds="18 documents: at every position a byte replaced or inserted (any value), deleted, or the text cut; thorough: also two symbolic bytes"))
    if prop != "P22":
        ents.append(Entry("spaces", {"spaces": 2}, {"spaces": 4}, jobs=1, bounds="any white space between any two tokens"))
    return ents


def js_read(prop):
    return [Unit("jread", "js_read.cpp", js_docs(prop, []), protos=["pbk.proto"], defines=[prop])]


JS_IN = "documents outside the listed shapes; left open by the reference: white space \\v and \\f, raw control characters in strings, leading zeros, fraction or exponent for integers, -0 for unsigned, null for members without presence, non-zero trailing bits and escapes in base64, ill-formed content of skipped strings, numbers written as inf or nan without quotes, floating point numbers out of range"
SPEC["P20"] = dict(what="Every document the reference reader accepts must be accepted with the same value and consumed size.", outside=JS_IN, units=js_read("P20"))
SPEC["P22"] = dict(what="Every document the reference reader calls malformed must be rejected by an exception.", outside=JS_IN, units=js_read("P22"))
SPEC["P21"] = dict(
    what="The same document with and without an unknown member is decoded and the messages are compared.",
    outside="values nested deeper than the bound, more than one unknown member at a time, numbers of more than 200 characters",
    units=[Unit("junknown", "js_unknown.cpp", [
        Entry("sub", {"depth": 1, "elems": 1, "reader": 0}, {"depth": 2, "elems": 2, "reader": 1}, reach=["ignored"], jobs=2, bounds="an unknown member with every kind of value (numbers of up to 200 characters with symbolic digits and exponents, symbolic strings and escapes, arrays and objects), before, between and after known members"),
        Entry("one", {"depth": 1, "elems": 1, "reader": 1}, {"depth": 2, "elems": 2, "reader": 1}, reach=["ignored"], jobs=2, bounds="the same in a message with oneofs, also through a reader"),
        Entry("nested", {"depth": 1, "elems": 2}, {"depth": 2, "elems": 2}, reach=["ignored"], jobs=2, bounds="the same inside nested messages, array elements, map values and oneof members"),
        Entry("names_sub", {"name": 2}, {"name": 4}, reach=["ignored"], jobs=1, bounds="every name of 0..name characters that is not declared"),
        Entry("names_opt", {"name": 2}, {"name": 4}, reach=["ignored"], jobs=1, bounds="the same for a message with 17 fields"),
        Entry("names_maps", {"name": 2}, {"name": 3}, reach=["ignored"], jobs=1, bounds="the same for a message with 12 maps"),
        Entry("window", {"reader": 1, "tokens": 1}, {"reader": 1, "from": 200, "to": 270, "tokens": 3}, reach=["ignored"], jobs=2, bounds="unknown strings and names of from..to characters followed by 1..tokens arbitrary characters or escapes, white space of that length inside an array, numbers of 180..202 digits, also through a reader (its window has 256 characters)"),
    ], protos=["pbk.proto"])])


def js_reader():
    ents = js_docs("P24", [])
    small = {"raw": ({"max": 3, "budget": 2}, {"max": 4, "budget": 3}), "escapes": ({"mlo": 1, "near": 6}, {"mlo": 1, "near": 12}),
             "spaces": ({"spaces": 2, "budget": 1}, {"spaces": 3, "budget": 1})}
    for e in ents:
        if e.name in small:
            e.quick.update(small[e.name][0]), e.thorough.update(small[e.name][1])
        elif e.name.startswith("field"):
            e.quick.update(value=2 if e.name in ("field_opt", "field_req", "field_rec") else 1, mlo=1, near=3)
            e.thorough.update(value=3, mlo=0, near=4, budget=1)
        else:
            e.quick.update(ops=1, mlo=1, near=2)
            e.thorough.update(ops=7, mlo=0, near=4, budget=1)
        e.bounds += "; each as a whole, byte by byte, with free read sizes, and with the window ending around the symbolic place"
    return [Unit("jreader", "js_reader.cpp", ents + [
        Entry("long_text", {"mlo": 1, "mhi": 1}, {"from": 230, "to": 262, "mlo": 0, "mhi": 1, "more": 300, "budget": 1}, jobs=2, bounds="strings, names and numbers longer than the window, a symbolic character or escape around its end"),
        Entry("long_base64", {"mlo": 1, "mhi": 1}, {"from": 200, "to": 270, "mlo": 0, "mhi": 1, "budget": 1}, jobs=1, bounds="base64 around the length of the window"),
        Entry("long_space", {"mlo": 1, "mhi": 1}, {"from": 200, "to": 300, "mlo": 0, "mhi": 1, "budget": 1}, jobs=1, bounds="white space around the length of the window between any two tokens"),
    ], protos=["pbk.proto"])]


SPEC["P24"] = dict(what="The result, value and consumed size of decoding through a reader with symbolic read sizes are compared with decoding from memory.",
                   outside="more free read sizes than the budget (the remaining reads are complete, or all reads deliver single bytes); readers that break their contract; documents outside the listed shapes", units=js_reader())


def js_safe():
    ents = js_docs("P23", [])
    for e in ents:
        e.quick["reader"] = e.thorough["reader"] = 1
        if e.name.startswith("changed"):
            e.quick["ops"] = 3
    return [Unit("jsafe", "js_safe.cpp", ents + [
        Entry("long_text", {"reader": 1}, {"reader": 1, "from": 100, "to": 300}, jobs=1, bounds="strings, names and numbers longer than the internal window, a symbolic character or escape at the end"),
        Entry("long_base64", {"reader": 1}, {"reader": 1, "from": 100, "to": 300}, jobs=1, bounds="base64 around the length of the window"),
        Entry("narrow", {"value": 2}, {"value": 3}, jobs=1, bounds="numbers for every narrow integer type"),
        Entry("bits", {"value": 2}, {"value": 3}, jobs=1, bounds="numbers for every bit field"),
        Entry("fixed", {"reader": 1}, {"reader": 1}, reach=["accepted", "rejected"], jobs=2, bounds="17 containers of fixed size, contents of 0..2*size+3 characters, bytes or elements"),
    ], protos=["pbk.proto", "pbn.proto", "pba.proto"], ub=True)]


SPEC["P23"] = dict(
    what="Every access, every arithmetic operation and every exit of the decoder is checked; other exceptions than std::exception and non-termination are violations.",
    outside="longer documents; recursion deeper than the documents are (nesting is not limited by the library); functions of libc and libstdc++ that are modelled",
    units=js_safe())
SPEC["P11"] = dict(
    what="The stored value, or the rejection, is compared with the meaning of the number on the wire or in the text; the neighbours of a bit field keep their values.",
    outside="over-long varints (P04); int32 fields keep the low 32 bits of longer varints, as protobuf defines",
    units=[Unit("narrow", "narrow.cpp", [
        Entry("wire_narrow", {}, {}, reach=["stored", "rejected"], jobs=2, bounds="every 64-bit number on the wire for 25 integer fields (8, 16, 32, 64 bits, signed and unsigned, varint, zigzag, fixed)"),
        Entry("wire_bits", {}, {}, reach=["stored", "rejected"], jobs=2, bounds="every 64-bit number on the wire for 26 bit fields of 1..64 bits, neighbours all ones or all zeros"),
        Entry("json_narrow", {}, {}, reach=["stored", "rejected"], jobs=2, bounds="every signed and unsigned 64-bit number as JSON text, plain and quoted, for the same fields"),
        Entry("json_bits", {}, {}, reach=["stored", "rejected"], jobs=2, bounds="the same for the bit fields"),
        Entry("write_narrow", {}, {}, reach=["roundtrip"], jobs=1, bounds="every value of every field written to both formats and read back; the protobuf bytes are compared with the reference"),
        Entry("write_bits", {}, {}, reach=["roundtrip"], jobs=1, bounds="the same for the bit fields"),
        Entry("elements", {}, {}, reach=["elements"], jobs=1, bounds="one or two packed or unpacked elements, every 64-bit number"),
    ], protos=["pbn.proto"])])


def limits(prop):
    ents = [
        Entry("sizes", {"over": 1, "reader": 0, "sym": 8 if prop == "P12" else 2}, {"over": 3, "reader": 1, "sym": 8 if prop == "P12" else 3}, reach=["fits", "exceeds"], jobs=2, bounds="43 string and bytes fields with limits given at field, message and file level, as options and as comments, alone, repeated and in oneofs: every content of 0..limit+over bytes"),
        Entry("counts", {"over": 1, "reader": 0}, {"over": 2, "reader": 1}, reach=["fits", "exceeds"], jobs=2, bounds="30 repeated fields: 0..limit+over elements of any value, in any division into packed and unpacked runs"),
        Entry("large", {"from": 299, "to": 301, "reader": 1}, {"from": 296, "to": 304, "reader": 1}, reach=["fits", "exceeds"], jobs=1, bounds="a limit beyond the internal window"),
    ]
    if prop == "P13":
        ents.insert(1, Entry("texts", {"pieces": 2, "hi": 0}, {"pieces": 2, "hi": 0}, tiers=["thorough"], label="-two", jobs=2, bounds="one such field with two escapes"))
        ents.insert(1, Entry("texts", {"pieces": 1}, {"pieces": 1, "reader": 1}, reach=["fits", "exceeds"], jobs=2, bounds="strings of plain characters and up to pieces escapes or characters of 1..4 bytes"))
    return [Unit("limits", "limits.cpp", ents, protos=["pbl.proto", "pbf.proto"], defines=[prop])]


SPEC["P12"] = dict(what="Success or rejection of writing and of reading is compared with the declared limit; accepted values are compared.", outside="limits above 300, maps (no limits are documented for them)", units=limits("P12"))
SPEC["P13"] = dict(what="Success or rejection of writing and of reading is compared with the declared limit; accepted values are compared.", outside="limits above 300, maps (no limits are documented for them)", units=limits("P13"))
SPEC["P14"] = dict(
    what="Success is compared with the size of the container, stored elements with the input, and every other member of the message with its value before.",
    outside="other containers than std::array; unpacked elements (documented as not supported for fixed sizes); null",
    units=[Unit("fixed", "fixed.cpp", [
        Entry("pb_bytes", {"over": 3, "sym": 4}, {"over": 8, "sym": 6, "reader": 1}, reach=["stored", "rejected"], jobs=1, bounds="10 string and bytes fields of 1..9 bytes (plain, optional, repeated, oneof): every content of 0..N+over bytes"),
        Entry("json_bytes", {"over": 3, "sym": 3}, {"over": 8, "sym": 4, "reader": 1}, reach=["stored", "rejected"], jobs=1, bounds="the same as JSON strings and base64, symbolic at the start or the end"),
        Entry("texts", {}, {"reader": 1}, reach=["stored", "rejected"], jobs=1, bounds="an escape or a character of 1..4 bytes at every place of the string"),
        Entry("pb_elems", {}, {"over": 4, "reader": 1}, reach=["stored", "rejected"], jobs=1, bounds="12 packed repeated fields of 1..3 elements: 0..N+over elements of any value, complete or followed by a part of an element"),
        Entry("json_elems", {}, {"over": 4, "reader": 1, "quoted": 1}, reach=["stored", "rejected"], jobs=1, bounds="the same as JSON arrays"),
        Entry("large", {}, {}, reach=["stored", "rejected"], jobs=1, bounds="297..303 and up to 480 bytes in place of 300, beyond the internal window, from memory and through a reader"),
        Entry("write", {}, {}, reach=["roundtrip"], jobs=1, bounds="values of ten fields written and read back"),
    ], protos=["pba.proto"])])
SPEC["P16"] = dict(
    what="The text is compared with a reference encoder, and acceptance and content of every text with a reference decoder (RFC 4648).",
    outside="left open by the reference: non-zero trailing bits (the library ignores them); escapes inside base64 text (rejected by the library); longer content",
    units=[Unit("base64", "base64.cpp", [
        Entry("encode", {"max": 5}, {"max": 8, "sym": 8}, reach=["encoded"], jobs=1, bounds="every content of 0..max bytes in optional, repeated, oneof, map and fixed-size members, all output paths"),
        Entry("encode", {"min": 8, "max": 20, "sym": 1}, {"min": 8, "max": 32, "sym": 2}, label="-long", reach=["encoded"], jobs=1, bounds="content of min..max bytes with sym symbolic bytes at any place"),
        Entry("decode", {"max": 6, "steps": 2}, {"max": 9, "steps": 5}, reach=["accepted", "rejected"], jobs=3, bounds="every text of 0..max characters (without quote and backslash), from memory and through a reader with reads of 1..steps bytes"),
        Entry("window", {"groups": 4, "sym": 2, "steps": 3}, {"groups": 6, "sym": 3, "steps": 5}, reach=["accepted", "rejected"], jobs=2, bounds="texts of up to groups*4 characters with any padding and up to 3 characters missing, sym symbolic characters at any place"),
        Entry("large", {"steps": 1, "step": 1000}, {"steps": 7, "span": 24, "step": 37}, reach=["accepted", "rejected"], jobs=1, bounds="texts around the internal window of 256 bytes, the last characters symbolic"),
        Entry("inverse", {"max": 5}, {"max": 9}, reach=["inverse"], jobs=2, bounds="every content of 0..max bytes written and read back"),
    ], protos=["pbk.proto", "pba.proto"])])
SPEC["P25"] = dict(
    what="The set of fields stored is compared with the fields that have the name in the document; the names written with those declared.",
    outside="names longer than the bounds that are not near a declared name; schemas in which two fields share a JSON name (rejected by protoc)",
    units=[Unit("names", "names.cpp", [
        Entry("any", {"max": 3, "reader": 0}, {"max": 4, "reader": 1}, reach=["declared", "unknown"], jobs=2, bounds="every name of 0..max printable characters, 29 integer fields with colliding hashes, prefixes, upper case, underscores, reserved words, json_name, bit fields, oneof members"),
        Entry("edited", {"reader": 0, "khi": 2}, {"reader": 1, "khi": 2}, reach=["declared", "unknown"], jobs=3, bounds="every declared name with one character replaced, inserted, removed, exchanged or replaced by any escape of a character below 0x80, or cut off, at every place"),
        Entry("edited", {"lo": 17, "hi": 17, "elo": 4, "ehi": 4, "klo": 3, "khi": 3}, {"lo": 16, "hi": 19, "elo": 4, "ehi": 4, "klo": 3, "khi": 3}, label="-two-bytes", jobs=1, bounds="every character 0x80..0x7ff as escape in the fields lo..hi"),
        Entry("edited", {"lo": 17, "hi": 17, "elo": 4, "ehi": 4, "klo": 6, "khi": 6}, {"lo": 16, "hi": 19, "elo": 4, "ehi": 4, "klo": 6, "khi": 6}, label="-utf8", reach=["declared", "unknown"], jobs=1, bounds="every character 0x80..0x7ff as UTF-8 in the fields lo..hi"),
        Entry("escaped", {"reader": 0}, {"reader": 2}, reach=["declared"], jobs=1, bounds="every declared name with one character written as \\u escape"),
        Entry("pairs", {}, {}, reach=["pair"], jobs=1, bounds="every two fields in one document"),
        Entry("written", {}, {}, reach=["written"], jobs=1, bounds="every two fields written"),
        Entry("kinds", {"reader": 0}, {"reader": 2}, reach=["declared", "unknown"], jobs=1, bounds="20 fields of every other kind, under each name and with one character replaced"),
        Entry("extent", {"reader": 0}, {"reader": 2}, reach=["declared", "unknown"], jobs=1, bounds="messages of members of one kind whose JSON names are the shortest and the longest, each name with one character replaced"),
        Entry("small", {"max": 4}, {"max": 5}, reach=["small"], jobs=1, bounds="messages with one field or none, every name of 0..max characters"),
    ], protos=["pbj.proto"])])
SPEC["P26"] = dict(
    what="Acceptance and value of every name and number are compared with the declarations; writing with the first declared name, or rejection.",
    outside="null; numbers with a fraction or an exponent; names longer than the bounds that are not near a declared name",
    units=[Unit("enums", "enums.cpp", [
        Entry("numbers", {"reader": 0}, {"reader": 2}, reach=["accepted", "rejected"], jobs=2, bounds="every signed and unsigned 64-bit number for 15 fields of 9 enums (aliases, negative and extreme numbers, 8 and 16 bit C++ types; plain, required, repeated, packed, map, oneof)"),
        Entry("names", {"max": 3, "reader": 0}, {"max": 4, "reader": 1}, reach=["accepted", "rejected"], jobs=2, bounds="every name of 0..max printable characters for the same fields"),
        Entry("edited", {"reader": 0}, {"reader": 1, "places": 50}, reach=["accepted", "rejected"], jobs=2, bounds="every declared name with one character replaced, inserted, removed, or replaced by an escape, or cut off, at every one of the first places characters"),
        Entry("others", {"reader": 1}, {"reader": 5}, reach=["rejected"], jobs=1, bounds="19 texts of other kinds, every declared number in quotes"),
        Entry("write", {}, {}, reach=["written", "undeclared"], jobs=1, bounds="every value of the underlying type"),
    ], protos=["pen.proto"])])
SPEC["P27"] = dict(
    what="The decoded message is compared with one built by applying the members in order; the written bytes and text with the active members.",
    outside="longer sequences; null; recursion through a oneof (rejected by the compiler)",
    units=[Unit("oneofs", "oneofs.cpp", [
        Entry("pb_sequence", {"max": 2, "reader": 0}, {"max": 2, "reader": 2}, reach=["set", "unset"], jobs=2, bounds="every sequence of 0..max records of 26 members of four oneofs (every kind), other fields and unknown fields; default, empty and other values, the last value symbolic"),
        Entry("pb_sequence", {"min": 3, "max": 3, "rows": 14, "values": 2}, {"min": 3, "max": 4, "rows": 14, "values": 3}, label="-long", reach=["set"], jobs=3, bounds="sequences of min..max records of 12 members and unknown fields"),
        Entry("json_sequence", {"max": 2, "reader": 0}, {"max": 2, "reader": 2}, reach=["set", "unset"], jobs=2, bounds="the same in JSON"),
        Entry("json_sequence", {"min": 3, "max": 3, "rows": 14, "values": 2}, {"min": 3, "max": 4, "rows": 14, "values": 3}, label="-long", reach=["set"], jobs=2, bounds="the same in JSON"),
        Entry("write", {}, {}, reach=["written"], jobs=2, bounds="every two active members, with default, empty and other values or a symbolic value, in both formats"),
    ], protos=["pbo.proto"])])
SPEC["P28"] = dict(
    what="The decoded map is compared with one built by assigning the entries in order; the written bytes and text with a reference encoder; acceptance of keys with the range of their type.",
    outside="longer sequences; duplicated names in JSON; white space after the digits of a quoted key (accepted by the library); other containers than std::map",
    units=[Unit("maps", "maps.cpp", [
        Entry("pb_entries", {"max": 2, "reader": 0}, {"max": 2, "length": 2, "early": 10, "reader": 2}, reach=["decoded"], jobs=3, bounds="1..max entries for 16 maps (12 key types, 13 kinds of values) in 11 forms: key and value in both orders, missing, repeated, unknown fields at any place; the last key or value symbolic"),
        Entry("pb_entries", {"min": 3, "max": 3, "lo": 12, "hi": 14, "early": 3, "constants": 1, "length": 0}, {"min": 3, "max": 3}, label="-three", reach=["decoded"], jobs=2, bounds="three entries"),
        Entry("pb_mixed", {}, {}, reach=["mixed"], jobs=1, bounds="entries of every two maps in turn"),
        Entry("json_entries", {"max": 2, "reader": 0}, {"max": 2, "reader": 2, "spaces": 2}, reach=["decoded"], jobs=2, bounds="0..max entries in JSON, the last key symbolic: every number, every piece of text"),
        Entry("json_keys", {"reader": 0}, {"reader": 2}, reach=["accepted", "rejected"], jobs=1, bounds="40 texts in the place of a key"),
        Entry("write", {"count": 2, "length": 1}, {"count": 2, "length": 2}, reach=["written"], jobs=2, bounds="one or two entries, the last key and value symbolic"),
        Entry("fixed", {}, {}, reach=["fixed"], jobs=1, bounds="keys and values declared as std::array"),
    ], protos=["pbm.proto", "pbm2.proto"])])


def faults(rw):
    ents = [Entry(n, dict({"khi": 0, "str": 1, "byt": 1}, **q), dict({"khi": 5, "str": 2, "byt": 2}, **t), reach=["propagated"], jobs=2, bounds=b)
            for n, q, t, b in [
                ("opt", {}, {}, "every field alone, each call throws in turn"),
                ("rep", {"cmin": 1}, {"cmax": 2, "khi": 1, "str": 1, "byt": 1}, "repeated fields"),
                ("pack", {"cmin": 1}, {"cmax": 2}, "packed fields"),
                ("maps", {"cmin": 1, "str": 0, "byt": 0}, {"str": 1, "byt": 1}, "maps"),
                ("one", {}, {}, "oneof members"),
                ("rec", {"small": 1, "slo": 0, "shi": 0} if rw == "read" else {"small": 1}, {"small": 1, "khi": 1}, "nested messages")]]
    if rw == "read":
        ents += [Entry("skipped", {"khi": 1}, {"khi": 5}, reach=["propagated"], jobs=1, bounds="unknown fields and members, rejected documents"),
                 Entry("raw", {"max": 2, "khi": 0}, {"max": 3, "khi": 1}, reach=["propagated"], jobs=2, bounds="every input of 0..max bytes")]
    ents += [Entry("window", {"khi": 5, "how": 1}, {"khi": 5, "how": 1}, reach=["propagated"], jobs=1, bounds="contents of 250 and 550 bytes, beyond the internal window")]
    return Unit("faults_" + rw, "faults.cpp", ents, protos=["pbk.proto"], defines=["RW_READ"] if rw == "read" else [], count_alloc=True)


SPEC["P29"] = dict(
    what="Each call of the reader or writer throws in turn one of six kinds of exceptions; the caller has to get exactly that one, without any further call and without a leak.",
    outside="callbacks that throw more than once; longer messages",
    units=[faults("read"), faults("write")])

SPEC["P30"] = dict(
    what="The number of allocations is the same before and after every call that succeeds.",
    outside="allocations by callbacks of the user or by the containers of the user's fields; calls that end with an exception",
    units=[Unit("allocs", "allocs.cpp", [Entry(n, dict({"str": 2, "byt": 2}, **q), dict({"str": 3, "byt": 3}, **t), reach=["written"], jobs=1, bounds=b + ", every output path of both formats")
            for n, q, t, b in [("opt", {}, {}, "every field alone, every value"), ("rep", {}, {"cmax": 2, "str": 1, "byt": 1}, "repeated fields"), ("pack", {}, {"cmax": 2}, "packed fields"), ("maps", {"str": 1, "byt": 1}, {"str": 2, "byt": 2}, "maps"),
                               ("one", {}, {}, "oneof members"), ("req", {}, {}, "fields without presence"), ("rec", {"small": 1}, {"small": 1}, "nested messages"), ("holder", {"small": 1}, {}, "nested messages")]] + [
        Entry("big", {}, {}, reach=["written"], jobs=1, bounds="contents of 10, 300 and 590 bytes"),
        Entry("pb_raw", {"max": 4}, {"max": 6}, reach=["read", "rejected"], jobs=2, bounds="every input of 0..max bytes for messages without dynamic storage, from memory and through a reader"),
        Entry("pb_field", {"len": 4}, {"len": 6}, reach=["read", "rejected"], jobs=3, bounds="every field and unknown fields with every wire type and content"),
        Entry("pb_unknown_large", {}, {}, reach=["read"], jobs=1, bounds="unknown fields of 200 and 500 bytes"),
        Entry("json_field", {"sym": 1}, {"sym": 2}, reach=["read", "rejected"], jobs=2, bounds="30 documents with sym symbolic characters at every place"),
        Entry("json_raw", {"max": 2}, {"max": 4}, reach=["read", "rejected"], jobs=1, bounds="every text of 0..max characters, alone and in braces"),
        Entry("json_numbers", {}, {}, reach=["read", "rejected"], jobs=2, bounds="8 numbers of up to 36 characters with any digit replaced by any other, plain and quoted, in 9 fields"),
        Entry("json_large", {}, {}, reach=["read"], jobs=1, bounds="values around the size of the window"),
    ], protos=["pbk.proto", "pbz.proto"], count_alloc=True)])


COMPILER = ["src/spb-proto-compiler/" + x for x in ("parser/parser.cpp", "ast/ast.cpp", "ast/ast-options.cpp", "ast/ast-types.cpp", "ast/ast-messages-order.cpp")]
P31_OPTS = "14 fields (labels, kinds, oneof, map, pointer) for each syntax of the field's own options, in messages with and without options, %s: the declared type, and 0..limit+over bytes or elements of any value written (compared byte for byte with the declared number and wire type), read back, rejected beyond the limit, in protobuf and as JSON"
SPEC["P31"] = dict(
    what="The expectation is a table written from the schemas (tools/gen_p31.py), never from generated code: type, number, wire type, packed setting, limits and default value of every field. A schema of the table that is rejected, or whose code is not valid C++, is a violation as well.",
    outside="other schemas than the tables; options in combinations with bit fields and fixed containers (P01, P02, P14); services and groups; max_size of map keys and values",
    units=[Unit("w2", "generated.cpp", [Entry("rows", {}, {"over": 2}, reach=["fits"], jobs=1, bounds="proto2: 17 kinds, optional, required, repeated with every packed setting, oneof, map value and key, field numbers at the boundaries of tags: every value")], protos=["pbw2.proto"], defines=["HEADER=pbw2.pb.h", "ROWS=WIRE2", "N_ROWS=N_WIRE2"], judge=True),
           Unit("w3", "generated.cpp", [Entry("rows", {}, {"over": 2}, reach=["fits"], jobs=1, bounds="the same in proto3")], protos=["pbw3.proto"], defines=["HEADER=pbw3.pb.h", "ROWS=WIRE3", "N_ROWS=N_WIRE3"], judge=True)]
    + [Unit("s%d" % k, "generated.cpp", [
        Entry("rows", {}, {"over": 3}, reach=["fits", "exceeds"], jobs=1, bounds=P31_OPTS % f),
        Entry("enums", reach=["types"], jobs=1, bounds="the type of 3 enums of the file and 3 of each message")],
        protos=["pbs%d.proto" % k], defines=["HEADER=pbs%d.pb.h" % k, "ROWS=OPTS%d" % k, "N_ROWS=N_OPTS%d" % k, "ENUMS=ENUMS%d" % k], judge=True)
        for k, f in enumerate(["no options of the file", "file options", "file options as comments", "file options with the names of nanopb"])]
    + [Unit("defaults", "generated.cpp", [
        Entry("rows", {}, {"over": 2}, reach=["fits"], jobs=1, bounds="types of integers (10 kinds, 8 to 64 bits), optional, required, repeated, in a oneof: every value"),
        Entry("defaults", reach=["default"], jobs=1, bounds="58 default values of 13 kinds, optional and required: kept by input without the field, replaced by every value of the field"),
        Entry("bits", reach=["types"], jobs=1, bounds="default values of 5 bit fields")],
        protos=["pbd.proto"], defines=["HEADER=pbd.pb.h", "ROWS=TYPES", "N_ROWS=N_TYPES", "MISC"], judge=True)])
SPEC["P32"] = dict(
    what="every place of the schema grammar that takes a number (field, oneof field, map field, enum value, reserved and extension ranges of messages and enums, max_size, max_count and max_length options as single option, aggregate and message option) is parsed and resolved by the real parser with a symbolic literal: it is accepted iff the window is exactly one integer literal of the protobuf grammar whose value is allowed at that place, and the schema then holds exactly its mathematical value; three members with symbolic numbers and symbolic reserved / extension ranges are accepted iff nothing clashes",
    outside="longer literals, comments and line breaks inside the window, white space between the sign and the digits (valid in protobuf, rejected here), numbers of extensions and services, floating point option values, duplicated enum values (accepted, as with allow_alias)",
    units=[Unit("schema", "schema.cpp", [
        Entry("literals", {"w": 3}, {"w": 5}, reach=["accepted", "rejected"], jobs=6, time=300, bounds="windows of w characters out of digits, letters, _ - + . and space, at 13 places"),
        Entry("digits", {"digits": 3}, {"digits": 4}, reach=["accepted", "rejected"], jobs=6, time=400, bounds="decimal, hexadecimal and octal literals with and without sign at 13 places: 15 / 12 / 12 leading digit strings (around every limit, up to 2^64 and beyond) followed by every `digits` digits"),
        Entry("clashes", {}, {}, reach=["accepted", "rejected"], jobs=3, time=200, bounds="three members in fields, oneofs and maps, one reserved and one extension range, numbers 90..99"),
    ], repo_srcs=COMPILER, defines=["OWN_THROW"])])
NDOCS = 10
SPEC["P33"] = dict(
    what="the real parser, option, type and order resolution and error reporting of the schema compiler run on symbolic texts; every memory access is checked against the exact extent of the text and of every object, the number of executed instructions is limited, and every path has to end with a schema or an exception derived from std::exception",
    outside="windows longer than w characters and several windows in one text, the file system part of imports, stack overflow by deep nesting, what the code generator does with the schema",
    units=[Unit("schema_total", "schema_total.cpp",
        [Entry("valid", {}, {}, reach=["schema"], jobs=2, time=100, opts=["--max-instr", "3000000"], bounds="the documents themselves are accepted")] +
        [Entry("replaced", {"doc": d, "w": 3}, {"doc": d, "w": 4}, reach=["schema", "error"], jobs=1, time=600, opts=["--max-instr", "3000000"], label=".%d" % d, bounds="document %d of harness/src/schema_total.cpp, every window of w characters replaced by every w characters" % d) for d in range(NDOCS)] +
        [Entry("truncated", {"doc": d, "w": 3}, {"doc": d, "w": 4}, reach=["schema", "error"], jobs=1, time=600, opts=["--max-instr", "3000000"], label=".%d" % d, bounds="document %d cut off after every character, followed by 0..w arbitrary characters" % d) for d in range(NDOCS)] +
        [Entry("arbitrary", {"n": 5}, {"n": 8}, reach=["schema", "error"], jobs=2, time=300, opts=["--max-instr", "3000000"], bounds="every text of n characters")],
        repo_srcs=COMPILER + ["src/spb-proto-compiler/dumper/header.cpp"])])
SPEC["P34"] = dict(
    what="resolve_messages of the real compiler runs on schemas whose references have symbolic targets and symbolic labels (required, optional, repeated; one of them a map value or oneof member); the order and the labels it leaves behind are read by a model of a C++ compiler (names denote the innermost declaration seen so far, members by value need a complete type, pointers and vectors a declared one): every accepted schema is readable, a schema is accepted iff the order forced by value members, nesting and visibility has no cycle, and nothing becomes a pointer if no member has to be one",
    outside="more messages or references, deeper nesting, several map / oneof references at once, references between files; the text of the generated header (P31)",
    units=[Unit("schema_order", "schema_order.cpp", [
        Entry("flat", {"n": 3, "r": 1, "odd": 1}, {"n": 3, "r": 1, "odd": 1}, reach=["rejected", "plain", "pointers"], jobs=2, time=300, label=".n3", bounds="3 messages with one reference each, at most one of them in a map or oneof"),
        Entry("flat", {"n": 4, "r": 1}, {"n": 5, "r": 1}, reach=["rejected", "plain", "pointers"], jobs=3, time=300, label=".wide", bounds="n messages with one reference each"),
        Entry("flat", {"n": 3, "r": 2}, {"n": 3, "r": 2, "odd": 1}, reach=["rejected", "plain", "pointers"], jobs=4, time=300, label=".two", bounds="3 messages with two references each"),
        Entry("nested", {"odd": 1}, {"odd": 1}, reach=["rejected", "plain", "pointers"], jobs=4, time=300, bounds="message with two nested messages and a message next to it, in both orders, absolute and relative names, one reference from each to any, at most one of them in a map or oneof"),
    ], repo_srcs=COMPILER, defines=["OWN_THROW"])])
SPEC["P35"] = dict(
    what="schema texts with a package p.q, a message M with a nested message N and an imported file of several packages, where every scope declares an enum and a message with symbolic names, and a field in N or M uses a symbolic name with and without qualification, go through the real parser, import, type and order resolution; the field is accepted iff the scoping rule of protobuf finds a type, and it is a message or enum as that rule says",
    outside="names with a leading point (rejected by the parser), public imports of imports, deeper nesting, more than one import, the file system",
    units=[Unit("schema_scope", "schema_scope.cpp", [
        Entry("scopes", {"imports": 0}, {"imports": 0}, reach=["rejected", "enum", "message", "header"], jobs=3, time=300, label=".one", bounds="10 forms of qualification, two names per scope out of X, Y, M, N, 3 scopes"),
        Entry("scopes", {"imports": 1}, {"imports": 1}, reach=["rejected", "enum", "message", "header"], jobs=6, time=800, label=".import", bounds="the same with an imported file whose package is one of 5"),
    ], repo_srcs=COMPILER, defines=["OWN_THROW"])])
