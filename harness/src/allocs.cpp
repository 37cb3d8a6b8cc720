// P30: no heap allocation by the library.
#include "pbtab.h"
#include "util.h"
#include <pbz.pb.h>
using namespace ref;
using namespace util;

struct Tally
{
    size_t &n;
    void operator()(const void *, size_t k) const { n += k; }
};
static char room[20000];
template <typename M> static void decide(const M &m)
{
    bool ok = true;
    size_t got = 0;
    const uint64_t before = symx_alloc_count();
    uint64_t after = before;
    try
    {
        switch (symx_choose(0, 6, "path"))
        {
        case 0: got = spb::pb::serialize_size(m); break;
        case 1: got = spb::pb::serialize(m, (void *)room); break;
        case 2: (void)spb::pb::serialize(m, Tally{got}); break;
        case 3: got = spb::pb::serialize(m, (void *)room, {.delimited = true}); break;
        case 4: (void)spb::pb::serialize(m, Tally{got}, {.delimited = true}); break;
        case 5: got = spb::json::serialize(m, (void *)room); break;
        case 6: (void)spb::json::serialize(m, Tally{got}); break;
        }
        after = symx_alloc_count();
    }
    catch (const std::exception &) { ok = false; }
    CHECK(got <= sizeof room);
    symx_observe(ok);
    if (!ok) return;
    CHECK(after == before);
    symx_reach("written");
}
#include "cases.h"
SYMX_TEST(big)
{
    pbk::Opt m{};
    const size_t n = 10 + symx_choose(0, 2, "n") * 290;
    if (symx_choose(0, 1, "bytes")) m.by.emplace(n, std::byte{7});
    else m.st.emplace(n, symx_choose(0, 1, "escape") ? '\x01' : 'x');
    decide(m);
}

template <typename M> static void flat(const uint8_t *p, size_t n, bool json)
{
    M m{};
    Chunks c{p, n, symx_param("step", 0)};
    Reader r{c};
    bool ok = true;
    const size_t how = symx_choose(0, 1, "reader");
    const uint64_t before = symx_alloc_count();
    uint64_t after = before;
    try
    {
        if (json)
        {
            if (how) (void)spb::json::deserialize(m, r);
            else (void)spb::json::deserialize(m, p, n);
        }
        else
        {
            if (how) (void)spb::pb::deserialize(m, r);
            else (void)spb::pb::deserialize(m, p, n);
        }
        after = symx_alloc_count();
    }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    if (!ok) { symx_reach("rejected"); return; } // reporting an error allocates
    CHECK(after == before);
    symx_reach("read");
}
SYMX_TEST(pb_raw)
{
    const size_t n = symx_choose(0, symx_param("max", 4), "n");
    uint8_t b[16];
    if (n) symx_make_symbolic(b, n, "bytes");
    if (symx_choose(0, 1, "type")) flat<pbz::Flat>(b, n, false);
    else flat<pbz::Sub>(b, n, false);
}
// every field and unknown fields, of every wire type, any content
SYMX_TEST(pb_field)
{
    Buf b;
    static const uint8_t wt[] = {0, 1, 2, 5};
    uint32_t f = (uint32_t)symx_choose(1, 25, "field");
    if (f == 25) f = 100000;
    const size_t w = symx_choose(0, 3, "wire");
    b.tag(f, wt[w]);
    switch (w)
    {
    case 0: b.varint(symx_any<uint64_t>("v")); break;
    case 1: b.le(symx_any<uint64_t>("v"), 8); break;
    case 2: { const size_t n = symx_choose(0, symx_param("len", 5), "n"); uint8_t t[16]; if (n) symx_make_symbolic(t, n, "content"); b.byte((uint8_t)n); b.bytes(t, n); break; }
    case 3: b.le(symx_any<uint32_t>("v"), 4); break;
    }
    if (symx_choose(0, 1, "again")) { b.tag(1, 0); b.byte(1); }
    flat<pbz::Flat>(b.b, b.n, false);
}
SYMX_TEST(pb_unknown_large)
{
    Buf b;
    const size_t n = 200 + 300 * symx_choose(0, 1, "n");
    b.tag(500, 2);
    b.varint(n);
    for (size_t i = 0; i < n; ++i) b.byte('x');
    flat<pbz::Flat>(b.b, b.n, false);
}
// documents with one or two symbolic characters at any place of the value
SYMX_TEST(json_field)
{
    static const char *const docs[] = {
        "\"i32\":123", "\"s64\":\"-12\"", "\"u32\":1", "\"f64\":12345678901", "\"fl\":1.5", "\"db\":\"NaN\"", "\"bo\":true", "\"en\":\"ONE\"", "\"sm\":-128", "\"ms\":{\"v\":1,\"b\":\"AAAA\"}",
        "\"rs\":{\"b\":\"QUJD\"}", "\"st\":\"abcde\"", "\"st\":\"\\u0041bcde\"", "\"by\":\"QUJDRA==\"", "\"rp\":[1,2]", "\"rb\":[true,false,true]", "\"xi\":5", "\"xs\":\"ab\"", "\"xm\":{\"v\":5}",
        "\"xe\":-1", "\"b1\":3", "\"b2\":\"4095\"", "\"re\":[\"ONE\",0]", "\"a_long_field_name_beyond_the_small_string_optimization\":1", "\"aLongFieldNameBeyondTheSmallStringOptimization\":null",
        "\"unknown_name_of_more_than_sixteen_characters\":[1,{\"a\":\"b\"},null]", "\"zz\":\"a text longer than every short string \\n\"", "\"zz\":{\"y\":{\"x\":[1.5e3,false]}}", "\"en\":\"\\u004fNE\"", "\"\\u0069\\u00332\":7",
    };
    const size_t d = symx_choose(0, sizeof docs / sizeof *docs - 1, "doc");
    const char *s = docs[d];
    const size_t n = strlen(s), k = symx_param("sym", 1);
    const size_t at = symx_choose(0, n - k, "place");
    Buf b;
    text(b, "{ ");
    for (size_t i = 0; i < n; ++i)
    {
        if (i >= at && i < at + k) b.byte(symx_any<uint8_t>("char"));
        else b.byte((uint8_t)s[i]);
    }
    text(b, " }");
    flat<pbz::Flat>(b.b, b.n, true);
}
SYMX_TEST(json_raw)
{
    const size_t n = symx_choose(0, symx_param("max", 2), "n");
    Buf b;
    const bool obj = symx_bool("object");
    uint8_t t[8];
    if (n) symx_make_symbolic(t, n, "bytes");
    if (obj) b.byte('{');
    b.bytes(t, n);
    if (obj) b.byte('}');
    if (symx_choose(0, 1, "type")) flat<pbz::Flat>(b.b, b.n, true);
    else flat<pbz::Sub>(b.b, b.n, true);
}
SYMX_TEST(json_large)
{
    Buf b;
    static const char *const names[] = {"zz", "st", "i32", "by"};
    const size_t kind = symx_choose(0, 3, "value");
    const size_t n = 230 + 10 * symx_choose(0, 6, "n");
    const char *name = names[symx_choose(0, 3, "name")];
    b.byte('{');
    key(b, kind == 0 && name[0] != 'z' ? name : "zz");
    if (kind == 0) { for (size_t i = 0; i < n; ++i) b.byte(' '); text(b, "null"); }
    if (kind == 1) { b.byte('"'); for (size_t i = 0; i < n; ++i) b.byte('x'); text(b, "\\t\""); }
    if (kind == 2) { for (size_t i = 0; i < n; ++i) b.byte('1'); }
    if (kind == 3) { b.byte('['); for (size_t i = 0; i < n / 3; ++i) text(b, "0, "); text(b, "0]"); }
    b.byte('}');
    flat<pbz::Flat>(b.b, b.n, true);
}
// numbers with many characters, plain and quoted
SYMX_TEST(json_numbers)
{
    static const char *const names[] = {"db", "fl", "f64", "s64", "i32", "u32", "en", "b2", "unknown"};
    static const char *const texts[] = {"1.00000000000000000001", "-0.000000000000000000000000000000000", "123456789012345678901234567890.5e-20", "-9223372036854775808", "0.1234567890123456789E+1", "18446744073709551615", "-0", "1e5"};
    const char *s = texts[symx_choose(0, sizeof texts / sizeof *texts - 1, "text")];
    const size_t n = strlen(s), at = symx_choose(0, n - 1, "place");
    const bool quoted = symx_bool("quoted");
    Buf b;
    b.byte('{');
    key(b, names[symx_choose(0, sizeof names / sizeof *names - 1, "name")]);
    if (quoted) b.byte('"');
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t c = (uint8_t)s[i];
        if (i == at && c >= '0' && c <= '9') { c = symx_any<uint8_t>("digit"); symx_assume((c >= '0') & (c <= '9')); }
        b.byte(c);
    }
    text(b, quoted ? "\"}" : "}");
    flat<pbz::Flat>(b.b, b.n, true);
}
