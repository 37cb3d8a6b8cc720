// P05: unknown fields are skipped without side effects.
#include "pbtab.h"
#include <stdexcept>
using namespace ref;

// an unknown field; returns false when its wire type is not supported
static bool unknown(Buf &b, uint32_t lo, uint32_t hi)
{
    uint32_t f = symx_any<uint32_t>("number");
    symx_assume(f >= lo && f <= hi);
    const unsigned w = symx_choose(0, 7, "wire");
    uint8_t v[10];
    b.varint(((uint64_t)f << 3) | w);
    switch (w)
    {
    case 0:
    {
        const size_t n = symx_choose(1, symx_param("vlen", 10), "len");
        symx_make_symbolic(v, n, "varint");
        for (size_t i = 0; i + 1 < n; ++i) b.byte(v[i] | 0x80);
        if (n == 10) symx_assume((v[9] & 0x7f) <= 1);
        b.byte(v[n - 1] & 0x7f);
        return true;
    }
    case 1: symx_make_symbolic(v, 8, "fixed64"); b.bytes(v, 8); return true;
    case 2:
    {
        const size_t n = symx_choose(0, symx_param("size", 4), "size");
        if (n) symx_make_symbolic(v, n, "content");
        b.varint_len(n, symx_choose(1, 2, "lenlen"));
        b.bytes(v, n);
        return true;
    }
    case 5: symx_make_symbolic(v, 4, "fixed32"); b.bytes(v, 4); return true;
    default: return false;
    }
}
// from memory, or through a reader that delivers everything, one byte or a few bytes at a time
template <typename M> static bool parse(M &m, const Buf &b)
{
    uint8_t *in = new uint8_t[b.n];
    memcpy(in, b.b, b.n);
    bool ok = true;
    const size_t how = symx_choose(0, symx_param("readers", 3), "how");
    if (how)
    {
        const size_t step = how == 1 ? b.n : how == 2 ? 1 : symx_param("step", 5);
        size_t pos = 0;
        auto rd    = [&](void *d, size_t k) -> size_t {
            if (k > step) k = step;
            if (k > b.n - pos) k = b.n - pos;
            memcpy(d, in + pos, k);
            pos += k;
            return k;
        };
        try { ok = spb::pb::deserialize(m, rd) == b.n; }
        catch (const std::exception &) { ok = false; }
        delete[] in;
        return ok;
    }
    try { ok = spb::pb::deserialize(m, in, b.n) == b.n; }
    catch (const std::exception &) { ok = false; }
    delete[] in;
    return ok;
}
template <typename M> static void compare(const Buf &with, const Buf &without, bool supported)
{
    M a{}, b{};
    const bool ra = parse(a, with);
    bool rb = true;
    try { rb = spb::pb::deserialize(b, without.b, without.n) == without.n; }
    catch (const std::exception &) { rb = false; }
    symx_observe(ra);
    CHECK(rb);
    CHECK(ra == supported);
    if (ra) CHECK(eq_message(a, b));
    symx_reach(ra ? "skipped" : "rejected");
}
// two known fields with an unknown one before, between or after them
template <typename M> static void around(uint32_t lo, uint32_t hi, void (*known)(Buf &, size_t))
{
    Buf with, without;
    bool ok = true;
    const size_t at = symx_choose(0, 2, "position");
    for (size_t i = 0; i < 3; ++i)
    {
        if (i == at) ok = unknown(with, lo, hi);
        if (i < 2) { known(with, i); known(without, i); }
    }
    compare<M>(with, without, ok);
}
static void sub_known(Buf &b, size_t i)
{
    if (i == 0) { b.tag(1, 0); b.varint(5); }
    else { b.tag(2, 2); b.varint(2); b.bytes("hi", 2); }
}
SYMX_TEST(sub)
{
    // every number above the two known ones
    around<pbk::Sub>(3, 0x1fffffff, sub_known);
}
SYMX_TEST(opt)
{
    // between the known numbers
    static const uint32_t gaps[][2] = {{9, 14}, {17, 2046}, {2049, 262142}, {262145, 33554430}, {33554433, 536870910}};
    const size_t g = symx_choose(0, 4, "gap");
    around<pbk::Opt>(gaps[g][0], gaps[g][1], [](Buf &b, size_t i) {
        if (i == 0) { b.tag(536870911, 5); b.le(0x12345678, 4); }
        else { b.tag(1, 0); b.varint(~0ull); }
    });
}
SYMX_TEST(empty)
{
    around<pbk::Void>(1, 0x1fffffff, [](Buf &, size_t) {});
}
SYMX_TEST(one)
{
    around<pbk::One>(11, 2046, [](Buf &b, size_t i) {
        if (i == 0) { b.tag(2, 2); b.varint(1); b.byte('a'); }
        else { b.tag(6, 2); b.varint(1); b.byte(7); }
    });
}
SYMX_TEST(repeated)
{
    around<pbk::Rep>(9, 14, [](Buf &b, size_t i) {
        if (i == 0) { b.tag(1, 0); b.varint(3); b.tag(5, 2); b.varint(1); b.byte('a'); }
        else { b.tag(1, 0); b.varint(4); b.tag(8, 2); b.varint(0); }
    });
}
// inside a sub-message, a repeated sub-message, a oneof member and a map entry (as value)
SYMX_TEST(nested)
{
    Buf with, without;
    bool ok = true;
    const size_t at = symx_choose(0, 2, "position");
    for (size_t i = 0; i < 3; ++i)
    {
        if (i == at) ok = unknown(with, 3, 0x1fffffff);
        if (i < 2) { sub_known(with, i); sub_known(without, i); }
    }
    auto wrap = [](const Buf &i, Buf &o, uint32_t f) { o.tag(f, 2); o.varint(i.n); o.append(i); };
    Buf w2, wo2;
    switch (symx_choose(0, 3, "where"))
    {
    case 0: wrap(with, w2, 8); wrap(without, wo2, 8); w2.tag(1, 0); w2.byte(1); wo2.tag(1, 0); wo2.byte(1); compare<pbk::Opt>(w2, wo2, ok); break;
    case 1: wrap(with, w2, 8); wrap(without, wo2, 8); w2.tag(1, 0); w2.byte(1); wo2.tag(1, 0); wo2.byte(1); compare<pbk::Rep>(w2, wo2, ok); break;
    case 2: wrap(with, w2, 3); wrap(without, wo2, 3); w2.tag(5, 0); w2.byte(1); wo2.tag(5, 0); wo2.byte(1); compare<pbk::One>(w2, wo2, ok); break;
    case 3:
    {
        Buf e, eo;
        e.tag(1, 2); e.varint(1); e.byte('k');
        eo.tag(1, 2); eo.varint(1); eo.byte('k');
        wrap(with, e, 2);
        wrap(without, eo, 2);
        wrap(e, w2, 2048);
        wrap(eo, wo2, 2048);
        compare<pbk::Maps>(w2, wo2, ok);
        break;
    }
    }
}
SYMX_TEST(entry)
{
    Buf with, without;
    bool ok = true;
    const size_t at = symx_choose(0, 2, "position");
    const bool msg  = symx_bool("message");
    for (size_t i = 0; i < 3; ++i)
    {
        if (i == at) ok = unknown(with, 3, 0x1fffffff);
        for (Buf *b : {&with, &without})
        {
            if (msg) { if (i == 0) { b->tag(1, 2); b->varint(1); b->byte('k'); } if (i == 1) { b->tag(2, 2); b->varint(2); b->byte(8); b->byte(9); } }
            else { if (i == 0) { b->tag(1, 0); b->varint(7); } if (i == 1) { b->tag(2, 0); b->varint(6); } }
        }
    }
    Buf w2, wo2;
    w2.tag(msg ? 2048 : 1, 2); w2.varint(with.n); w2.append(with);
    wo2.tag(msg ? 2048 : 1, 2); wo2.varint(without.n); wo2.append(without);
    compare<pbk::Maps>(w2, wo2, ok);
}
// long contents: skipped in pieces
SYMX_TEST(large)
{
    Buf with(1024), without(64);
    const size_t n = symx_choose(symx_param("from", 60), symx_param("to", 70), "size") + 64 * symx_choose(0, symx_param("more", 3), "more");
    const size_t at = symx_choose(0, 2, "position");
    for (size_t i = 0; i < 3; ++i)
    {
        if (i == at)
        {
            with.varint((uint64_t)symx_choose(3, 20, "number") << 3 | 2);
            with.varint(n);
            for (size_t k = 0; k + 2 < n; ++k) with.byte(8);
            uint8_t v[2];
            symx_make_symbolic(v, 2, "content");
            with.bytes(v, 2);
        }
        if (i < 2) { sub_known(with, i); sub_known(without, i); }
    }
    if (symx_bool("nested"))
    {
        Buf w2(1100), wo2(100);
        w2.tag(8, 2); w2.varint(with.n); w2.append(with);
        wo2.tag(8, 2); wo2.varint(without.n); wo2.append(without);
        compare<pbk::Opt>(w2, wo2, true);
    }
    else compare<pbk::Sub>(with, without, true);
}
