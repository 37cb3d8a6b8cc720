// P33: the real parser over valid schema texts in which a window is replaced by arbitrary characters, or which are cut off
#include "symx.h"
#include "schema.h"
#include <iterator>

namespace
{
const char *const docs[] = {
    // 0 scalars, labels, comments, options
    "syntax = \"proto2\";\n// c\n/* m */ package a.b_c;\nmessage M { // x\n optional int32 f = 1 [default = -5, packed=true];\n required string g = 0x2;}",
    // 1 option values of every kind
    "option (o.p).q = \"s\"; option java = true; option z = 'q';\noption (x) = { a:[1, -.5,b] c:{d:inf,e:f.g} };",
    // 2 attributes in comments
    "//[[field.type=\"x$\"]]\nmessage M {\n/*[[string.type=\"s\"]]*/ repeated sint32 f=7 [(nanopb).max_count=10];//[[field.type=\"int8\"]]\n}",
    // 3 enum
    "enum E { option allow_alias = true; A = 0; B = -1 [(x) = 1]; reserved 2, 9 to 11, 40 to max; reserved \"C\", 'D'; ; }",
    // 4 nested messages, oneof, map
    "message M { message N { optional M.E e = 1; } enum E { A = 0; } oneof o { N n = 1; int32 i = 2; } map<string, N> m = 3; }",
    // 5 reserved, extensions, extend
    "message M { reserved 1, 3 to 5; reserved \"a\"; extensions 100 to max [x = 1]; }\nextend google.protobuf.FieldOptions { optional int32 x = 50; }",
    // 6 references, order, names of C++
    "syntax = \"proto3\"; message A { B int = 1; repeated C c = 2; required D d = 3; } message B { A a = 1; } message C { A a = 4; } message D {}",
    // 7 types and bit fields
    "message M{required int32 f=1[(spb_opt).type=\"int8:3\"];optional uint64 g=2[(spb_opt).type=\"uint16\"];repeated E e=3[(nanopb).max_count=4];enum E{A=1;}}",
    // 8 limits and defaults
    "option (spb_fileopt).string=\"S<$>\";message M{option (nanopb_msgopt).max_length=3;optional bool b=1[default=true,deprecated=false,json_name=\"x\"];}",
    // 9 import and service
    "import \"spb.proto\"; import public 'google/protobuf/descriptor.proto'; message M{optional A a=1;} import \"i\";",
};
void run(const Text &t)
{
    fake_files[0] = {"i", "message A{}"};
    proto_file f;
    const bool ok = parse(f, t);
    symx_observe(ok);
    if (ok) symx_reach("schema"); else symx_reach("error");
}
}

SYMX_TEST(valid)
{
    const unsigned d = symx_choose(0, std::size(docs) - 1, "document");
    fake_files[0] = {"i", "message A{}"};
    Text t;
    t.add(docs[d]);
    proto_file f;
    CHECK(parse(f, t));
    symx_reach("schema");
}

// every window of w characters replaced by w arbitrary characters
SYMX_TEST(replaced)
{
    const unsigned d = unsigned(symx_param("doc", 0));
    const size_t w = symx_param("w", 1), n = strlen(docs[d]);
    const size_t at = symx_choose(0, uint8_t(n - w), "position");
    Text t;
    t.add(std::string_view(docs[d], at));
    t.add_any(w, "window");
    t.add(std::string_view(docs[d] + at + w, n - at - w));
    run(t);
}

// the text is cut off after every character, followed by 0..w arbitrary characters
SYMX_TEST(truncated)
{
    const unsigned d = unsigned(symx_param("doc", 0));
    const size_t n = strlen(docs[d]);
    const size_t at = symx_choose(0, uint8_t(n), "length");
    const size_t w = symx_choose(0, uint8_t(symx_param("w", 1)), "more");
    Text t;
    t.add(std::string_view(docs[d], at));
    t.add_any(w, "tail");
    run(t);
}

// texts of n arbitrary characters
SYMX_TEST(arbitrary)
{
    Text t;
    t.add_any(symx_param("n", 2), "text");
    run(t);
}
