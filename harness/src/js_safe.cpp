// P23: decoding arbitrary JSON text is memory safe and terminates.  Compiled
// with undefined behaviour checks; the executor checks every access.
#include "pbtab.h"
#include "jsref.h"
#include <pba.pb.h>
#include <pbn.pb.h>
#include <spb/json.hpp>
#include <stdexcept>
using namespace ref;

template <typename M> static void decide(const uint8_t *p, size_t n)
{
    uint8_t *in = new uint8_t[n]; // ends where the text ends
    memcpy(in, p, n);
    bool ok = true;
    if (!symx_param("reader", 0) || symx_bool("memory"))
    {
        M m{};
        try { CHECK(spb::json::deserialize(m, in, n) <= n); }
        catch (const std::exception &) { ok = false; }
    }
    else
    {
        M m{};
        size_t pos = 0;
        auto rd    = [&](void *d, size_t k) -> size_t {
            size_t j = k < n - pos ? k : n - pos;
            memcpy(d, in + pos, j);
            pos += j;
            return j;
        };
        try { CHECK(spb::json::deserialize(m, rd) <= n); }
        catch (const std::exception &) { ok = false; }
    }
    delete[] in;
    symx_observe(ok);
    symx_reach(ok ? "accepted" : "rejected");
}
#include "jsdocs.h"
// narrow integers and bit fields
template <typename M> static void named(const char *const *names, size_t count)
{
    static const char *const before[] = {"", "-", "\"", "\"-", "12", "-12", "429496729", "-214748364", "922337203685477580", "1844674407370955161", "-922337203685477580"};
    Buf b;
    text(b, "{\"");
    text(b, names[symx_choose(0, count - 1, "name")]);
    text(b, "\":");
    const size_t c = symx_choose(0, sizeof before / sizeof *before - 1, "before");
    text(b, before[c]);
    symbols(b, symx_choose(0, symx_param("value", 1), "n"), "value");
    if (c == 2 || c == 3) text(b, "\"");
    text(b, "}");
    decide<M>(b.b, b.n);
}
SYMX_TEST(narrow)
{
    static const char *const names[] = {"i8", "i16", "u8", "u16", "s8", "s16", "f8", "f16", "g8", "g16", "i32", "u32", "s32", "f32", "g32", "ri8", "ru8"};
    named<pbn::Narrow>(names, sizeof names / sizeof *names);
}
SYMX_TEST(bits)
{
    static const char *const names[] = {"a1", "a5", "b3", "b1", "c9", "d33", "e63", "f31", "g31", "h4", "i40", "j7", "k6", "l20", "m17", "n32", "o32", "p64", "q64", "r16", "s64", "t32", "u32", "v64", "w64", "x8"};
    named<pbn::Bits>(names, sizeof names / sizeof *names);
}
// containers of fixed size: contents shorter and longer than they are
SYMX_TEST(fixed)
{
    static const struct { const char *name; size_t size; uint8_t kind; } rows[] = {
        {"os", 3, 0}, {"qs", 9, 0}, {"rs", 2, 2}, {"ob", 3, 1}, {"qb", 4, 1}, {"rb", 2, 3}, {"b1", 1, 1}, {"b8", 8, 1}, {"xs", 2, 0}, {"xb", 5, 1},
        {"i32", 3, 4}, {"u64", 3, 4}, {"bo", 3, 5}, {"db", 3, 4}, {"en", 3, 4}, {"n8", 3, 4}, {"u1", 1, 4}};
    const auto &r = rows[symx_choose(0, sizeof rows / sizeof *rows - 1, "field")];
    const size_t n = symx_choose(0, 2 * r.size + 3, "n");
    Buf b;
    text(b, "{\"");
    text(b, r.name);
    text(b, "\":");
    if (r.kind == 2 || r.kind == 3) text(b, "[");
    if (r.kind < 4)
    {
        text(b, "\"");
        if (r.kind & 1) // base64 of n bytes, the last group symbolic
        {
            for (size_t i = 0; i + 3 <= n; i += 3) text(b, "QUJD");
            if (n % 3) { symbols(b, 1, "c"); text(b, n % 3 == 1 ? "A==" : "AA="); }
        }
        else
        {
            for (size_t i = 0; i + 1 < n; ++i) b.byte('x');
            if (n) symbols(b, 1, "c");
            if (symx_bool("escape")) { text(b, "\\u"); symbols(b, 1, "hex"); text(b, "0e9"); }
        }
        text(b, "\"");
    }
    else
    {
        text(b, "[");
        for (size_t i = 0; i < n; ++i) { if (i) text(b, ","); if (i + 1 == n && symx_bool("any")) symbols(b, 1, "c"); else text(b, r.kind == 5 ? "true" : "1"); }
        text(b, "]");
    }
    if (r.kind == 2 || r.kind == 3) text(b, "]");
    text(b, "}");
    decide<pba::Arr>(b.b, b.n);
}
