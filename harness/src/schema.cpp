// P32, P33: the real parser of the schema compiler over symbolic text.
#include "symx.h"
#include "schema.h"
#include <cctype>

namespace
{
bool is_dec(char c) { return c >= '0' && c <= '9'; }
bool is_let(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int digit_of(char c)
{
    // a table, so that the value of a digit does not fork
    static const struct Table { unsigned char v[256]; constexpr Table() : v() { for (int i = 0; i < 256; i++) v[i] = i >= '0' && i <= '9' ? i - '0' : i >= 'a' && i <= 'z' ? i - 'a' + 10 : i >= 'A' && i <= 'Z' ? i - 'A' + 10 : 99; } } t;
    return t.v[(unsigned char)c];
}

enum verdict { bad, good, unknown };
struct Literal { verdict v = bad; bool neg = false; uint64_t mag = 0; bool huge = false; bool max = false; };

// what the protobuf grammar says about the window between `=` and `;`
Literal read_literal(const char *b, const char *e)
{
    Literal r;
    while (b < e && *b == ' ') ++b;
    while (b < e && e[-1] == ' ') --e;
    if (e - b == 3 && b[0] == 'm' && b[1] == 'a' && b[2] == 'x') { r.max = true; return r; }
    if (b < e && *b == '-')
    {
        r.neg = true;
        ++b;
        if (b < e && *b == ' ') { r.v = unknown; return r; } // the grammar allows it, the parser does not: not claimed
    }
    if (b == e) return r;
    unsigned base = 10;
    if (*b == '0' && e - b > 1)
    {
        if (b[1] == 'x' || b[1] == 'X') { base = 16; b += 2; }
        else { base = 8; b += 1; }
    }
    if (b == e) return r;
    for (; b < e; ++b)
    {
        const int d = digit_of(*b);
        if (d >= int(base)) return r;
        if (r.mag >> 40) r.huge = true;
        r.mag = r.mag * base + unsigned(d);
    }
    r.v = good;
    return r;
}
// value fits in lo..hi
bool fits(const Literal &l, int64_t lo, int64_t hi, int64_t &value)
{
    if (l.v != good || l.huge) return false;
    value = l.neg ? -int64_t(l.mag) : int64_t(l.mag);
    return value >= lo && value <= hi;
}
constexpr int64_t field_max = 536870911, i32max = 2147483647, i32min = -2147483648LL, u32max = 4294967295LL;

struct Result { bool ok = false; int64_t value = 0; };

enum place { p_field, p_oneof, p_map, p_enum, p_reserved, p_range, p_extension, p_enum_reserved, p_enum_range, p_count, p_size, p_length, p_msg_count, places };

void number_at(unsigned where, const char *w, size_t n)
{
    Text t;
    t.add("syntax=\"proto2\";");
    const char *close = ";}";
    switch (where)
    {
    case p_field: t.add("message M{optional int32 a="); break;
    case p_oneof: t.add("message M{oneof o{int32 a="); close = ";}}"; break;
    case p_map: t.add("message M{map<int32,int32> a="); break;
    case p_enum: t.add("enum E{A="); break;
    case p_reserved: t.add("message M{reserved "); break;
    case p_range: t.add("message M{reserved 3 to "); break;
    case p_extension: t.add("message M{extensions "); break;
    case p_enum_reserved: t.add("enum E{A=77;reserved "); break;
    case p_enum_range: t.add("enum E{A=77;reserved 3, -9 to "); break;
    case p_count: t.add("message M{repeated int32 a=1[(nanopb).max_count="); close = "];}"; break;
    case p_size: t.add("message M{optional string a=1[(spb_opt)={max_size:"); close = "}];}"; break;
    case p_length: t.add("message M{optional string a=1[(nanopb).max_length="); close = "];}"; break;
    case p_msg_count: t.add("message M{option(spb_msgopt).max_count="); close = ";}"; break;
    }
    t.add(std::string_view(w, n));
    t.add(close);

    proto_file f;
    const bool ok = parse(f, t);
    symx_observe(ok);
    const Literal l = read_literal(w, w + n);
    if (l.v == unknown) return;
    int64_t v = 0;
    bool want = false;
    switch (where)
    {
    case p_field: case p_oneof: case p_map:
        want = fits(l, 1, field_max, v) && !(v >= 19000 && v <= 19999);
        break;
    case p_enum: want = fits(l, i32min, i32max, v); break;
    case p_reserved: case p_extension: want = fits(l, 1, field_max, v); break;
    case p_range:
        want = l.max || fits(l, 3, field_max, v);
        break;
    case p_enum_reserved: want = fits(l, i32min, i32max, v) && v != 77; break;
    case p_enum_range: want = fits(l, -9, i32max, v) && v < 77; break;
    case p_count: case p_size: case p_msg_count: want = fits(l, 0, u32max, v); break;
    case p_length: want = fits(l, 0, u32max - 1, v); break;
    }
    CHECK(ok == want);
    if (!ok) { symx_reach("rejected"); return; }
    symx_reach("accepted");
    if (f.package.enums.size() + f.package.messages.size() != 1) { CHECK(!"one definition"); return; }
    if (where == p_enum) { CHECK(f.package.enums[0].fields[0].number == v); return; }
    if (where == p_enum_reserved) { auto &r = f.package.enums[0].reserved.reserved_range; CHECK(r.size() == 1 && r[0].first == v && r[0].second == v); return; }
    if (where == p_enum_range) { auto &r = f.package.enums[0].reserved.reserved_range; CHECK(r.size() == 2 && r[0].first == 3 && r[0].second == 3 && r[1].first == -9 && r[1].second == v); return; }
    auto &m = f.package.messages[0];
    switch (where)
    {
    case p_field: CHECK(m.fields.size() == 1 && m.fields[0].number == v); break;
    case p_oneof: CHECK(m.oneofs.size() == 1 && m.oneofs[0].fields.size() == 1 && m.oneofs[0].fields[0].number == v); break;
    case p_map: CHECK(m.maps.size() == 1 && m.maps[0].number == v); break;
    case p_reserved: CHECK(m.reserved.reserved_range.size() == 1 && m.reserved.reserved_range[0].first == v && m.reserved.reserved_range[0].second == v); break;
    case p_range:
        CHECK(m.reserved.reserved_range.size() == 1 && m.reserved.reserved_range[0].first == 3);
        CHECK(l.max ? m.reserved.reserved_range[0].second >= field_max : m.reserved.reserved_range[0].second == v);
        break;
    case p_extension: CHECK(m.extensions.size() == 1 && m.extensions[0].first == v && m.extensions[0].second == v); break;
    case p_count: CHECK(m.fields[0].attributes.max_count == uint32_t(v)); break;
    case p_size: CHECK(m.fields[0].attributes.max_size == uint32_t(v)); break;
    case p_length: CHECK(m.fields[0].attributes.max_size == uint32_t(v + 1)); break;
    case p_msg_count: CHECK(m.attributes.max_count == uint32_t(v)); break;
    }
}
}

// every window of w characters of numbers, identifiers, signs, points and spaces at every place of a number
SYMX_TEST(literals)
{
    const size_t w = symx_param("w", 2);
    const unsigned where = symx_choose(0, places - 1, "place");
    char t[8];
    for (size_t i = 0; i < w; i++)
    {
        t[i] = symx_any<char>("text");
        symx_assume(is_dec(t[i]) || is_let(t[i]) || t[i] == '_' || t[i] == '-' || t[i] == '+' || t[i] == '.' || t[i] == ' ');
    }
    number_at(where, t, w);
}

// long decimal, hexadecimal and octal literals: every value around the limits and far beyond
SYMX_TEST(digits)
{
    static const char *const dec[] = {"", "189", "190", "199", "200", "536870", "536871", "214748364", "214748365", "429496729", "429496730", "999999999999", "9223372036854775", "18446744073709551", "429496729500000000000000000"};
    static const char *const hex[] = {"", "0", "4A", "1fffff", "2000", "7FFFFF", "80000", "ffffff", "10000000", "7fffffffffffff", "FFFFFFFFFFFFFF", "100000000000000001"};
    static const char *const oct[] = {"", "0", "450", "37777777", "4000000", "177777777", "200000000", "377777777", "400000000", "7777777777777777777", "17777777777777777777", "2000000000000000000001"};
    const unsigned where = symx_choose(0, places - 1, "place");
    const unsigned base = symx_choose(0, 2, "base");
    const unsigned neg = symx_choose(0, 1, "negative");
    const unsigned start = symx_choose(0, base == 0 ? sizeof dec / sizeof *dec - 1 : base == 1 ? sizeof hex / sizeof *hex - 1 : sizeof oct / sizeof *oct - 1, "leading digits");
    const size_t n = symx_param("digits", 2);
    char t[48];
    size_t k = 0;
    if (neg) t[k++] = '-';
    if (base) t[k++] = '0';
    if (base == 1) t[k++] = start & 1 ? 'X' : 'x';
    const char *const lead = base == 0 ? dec[start] : base == 1 ? hex[start] : oct[start];
    for (size_t i = 0; lead[i]; i++) t[k++] = lead[i];
    for (size_t i = 0; i < n; i++)
    {
        const char c = symx_any<char>("digit");
        if (base == 0) symx_assume(is_dec(c) && (k > neg || c != '0'));
        else if (base == 1) symx_assume(is_dec(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
        else symx_assume(c >= '0' && c <= '7');
        t[k++] = c;
    }
    number_at(where, t, k);
}

// numbers that clash: with another member of the message, with a reserved range, with an extension range
SYMX_TEST(clashes)
{
    auto dig = [](const char *name) { char c = symx_any<char>(name); symx_assume(is_dec(c)); return c; };
    const char a = dig("a"), b = dig("b"), c = dig("c"), r0 = dig("r0"), r1 = dig("r1"), e0 = dig("e0"), e1 = dig("e1");
    const unsigned kind = symx_choose(0, 2, "kind");
    const unsigned ranges = symx_choose(0, 3, "ranges");
    Text t;
    auto one = [&](std::string_view x) { t.add(x); };
    auto ch = [&](char x) { t.s.push_back(x); };
    one("syntax=\"proto2\";message M{");
    if (ranges & 1) { one("reserved 9"); ch(r0); one(" to 9"); ch(r1); one(";"); }
    if (ranges & 2) { one("extensions 9"); ch(e0); one(" to 9"); ch(e1); one(";"); }
    one("optional int32 a=9"); ch(a); one(";");
    if (kind == 0) { one("repeated int32 b=9"); ch(b); one(";required int32 c=9"); ch(c); one(";"); }
    if (kind == 1) { one("oneof o{int32 b=9"); ch(b); one(";int32 c=9"); ch(c); one(";}"); }
    if (kind == 2) { one("map<int32,int32> b=9"); ch(b); one(";oneof o{int32 c=9"); ch(c); one(";}"); }
    one("}");
    proto_file f;
    const bool ok = parse(f, t);
    symx_observe(ok);
    bool want = a != b && b != c && a != c;
    if (ranges & 1)
    {
        if (r0 > r1) want = false;
        for (char x : {a, b, c}) if (x >= r0 && x <= r1) want = false;
    }
    if (ranges & 2)
    {
        if (e0 > e1) want = false;
        for (char x : {a, b, c}) if (x >= e0 && x <= e1) want = false;
    }
    CHECK(ok == want);
    if (ok) symx_reach("accepted"); else symx_reach("rejected");
}
