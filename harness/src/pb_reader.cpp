// P09: decoding through a reader equals decoding from memory for every split
// into partial reads.  P10: delimited framing.
#include "pbtab.h"
#include <stdexcept>
using namespace ref;

struct Source
{
    const uint8_t *p;
    size_t n, pos = 0;
    size_t budget; // number of reads whose size is free, the others deliver everything
    size_t bytewise;
    bool zero = false;
    size_t operator()(void *dst, size_t want)
    {
        if (want == 0) { zero = true; return 0; }
        const size_t left = n - pos;
        size_t k          = want < left ? want : left;
        if (k > 1)
        {
            if (bytewise == 1) k = 1;
            else if (bytewise == 0 && budget) { --budget; k = symx_choose(1, k, "chunk"); }
        }
        memcpy(dst, p + pos, k);
        pos += k;
        return k;
    }
};
// through a reference, so that copies of the callback share the position
struct Reader
{
    Source &s;
    size_t operator()(void *dst, size_t want) const { return s(dst, want); }
};

template <typename M> static void same(const uint8_t *p, size_t n)
{
    M a{}, b{};
    bool ra = true, rb = true;
    size_t ua = 0, ub = 0;
    uint8_t *in = new uint8_t[n];
    memcpy(in, p, n);
    try { ua = spb::pb::deserialize(a, in, n); }
    catch (const std::exception &) { ra = false; }
    Source src{in, n, 0, symx_param("budget", 3), symx_choose(0, 1, "bytewise")};
    Reader rd{src};
    try { ub = spb::pb::deserialize(b, rd); }
    catch (const std::exception &) { rb = false; }
    delete[] in;
    symx_observe(ra);
    symx_observe(rb);
    CHECK(!src.zero);
    CHECK(ra == rb);
    if (!ra) { symx_reach("rejected"); return; }
    CHECK(ua == ub && ub == n);
    CHECK(eq_message(a, b));
    symx_reach("accepted");
}
template <typename F> static void with_type(size_t t, F f)
{
    switch (t)
    {
    case 0: f.template operator()<pbk::Sub>(); break;
    case 1: f.template operator()<pbk::Opt>(); break;
    case 2: f.template operator()<pbk::Rep>(); break;
    case 3: f.template operator()<pbk::Pack>(); break;
    case 4: f.template operator()<pbk::Maps>(); break;
    case 5: f.template operator()<pbk::One>(); break;
    case 6: f.template operator()<pbk::Req>(); break;
    case 7: f.template operator()<pbk::Rec>(); break;
    case 8: f.template operator()<pbk::Holder>(); break;
    }
}
// every byte string
SYMX_TEST(raw)
{
    const size_t t = symx_choose(symx_param("tlo", 0), symx_param("thi", 8), "type");
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 3), "n");
    uint8_t *b = new uint8_t[n];
    if (n) symx_make_symbolic(b, n, "bytes");
    with_type(t, [&]<typename M>() { same<M>(b, n); });
    delete[] b;
}
// well-formed messages, possibly cut
template <typename M> static void value()
{
    M m{};
    lim.str = symx_param("str", 3);
    lim.byt = symx_param("str", 3);
    set_field(m, symx_choose(0, field_count<M>() - 1, "field"), symx_param("count", 1));
    Buf b;
    enc_message(b, m);
    // a known field follows, so that a wrong position shows
    if (symx_bool("more")) { const size_t k = b.n; for (size_t i = 0; i < k; ++i) b.byte(b.b[i]); }
    const size_t cut = symx_choose(0, symx_param("cut", 2), "cut");
    if (cut > b.n) return;
    same<M>(b.b, b.n - cut);
}
SYMX_TEST(opt) { value<pbk::Opt>(); }
SYMX_TEST(rep) { value<pbk::Rep>(); }
SYMX_TEST(pack) { value<pbk::Pack>(); }
SYMX_TEST(maps) { value<pbk::Maps>(); }
SYMX_TEST(one) { value<pbk::One>(); }
SYMX_TEST(rec) { value<pbk::Rec>(); }
// unknown fields of every wire type and around the size of the skip buffer
SYMX_TEST(skip)
{
    Buf b(1024);
    b.tag(99, 2);
    static const uint16_t sizes[] = {0, 1, 2, 5, 127, 128, 129, 256, 300};
    size_t n = sizes[symx_choose(0, 8, "size")];
    b.varint(n);
    const size_t at = b.n;
    for (size_t i = 0; i < n; ++i) b.byte((uint8_t)i);
    if (n > 1) b.b[at + n / 2] = symx_any<uint8_t>("content");
    switch (symx_choose(0, 3, "next"))
    {
    case 0: break;
    case 1: b.tag(98, 1); b.le(symx_any<uint64_t>("v"), 8); break;
    case 2: b.tag(98, 5); b.le(symx_any<uint32_t>("v"), 4); break;
    case 3: b.tag(98, 0); b.varint_len(symx_any<uint16_t>("v"), 3); break;
    }
    b.tag(1, 0);
    b.byte(symx_any<uint8_t>("last"));
    if (symx_bool("nested"))
    {
        Buf o(1024);
        o.tag(8, 2);
        o.varint(b.n);
        o.append(b);
        same<pbk::Opt>(o.b, o.n);
    }
    else same<pbk::Sub>(b.b, b.n);
}
// ---- P10 ------------------------------------------------------------------------------------
static void any_small(pbk::Rec &m)
{
    if (symx_bool("has_v")) m.v = symx_any<int16_t>("v");
    if (symx_bool("has_next")) { m.next = std::make_unique<pbk::Rec>(); if (symx_bool("next_v")) m.next->v = symx_any<int8_t>("v"); }
    if (symx_bool("has_subs")) { m.subs.emplace_back().s.emplace(symx_choose(0, 1, "len"), 'x'); }
}
// messages written one after the other read back one by one, trailing data is not touched
SYMX_TEST(frames)
{
    const size_t count = symx_choose(1, symx_param("frames", 2), "frames");
    std::vector<pbk::Rec> m(count);
    Buf all;
    std::vector<size_t> len;
    for (auto &x : m)
    {
        any_small(x);
        const std::string body = spb::pb::serialize(x), s = spb::pb::serialize(x, {.delimited = true});
        Buf expect;
        expect.varint(body.size());
        expect.bytes(body.data(), body.size());
        CHECK(expect.same(s.data(), s.size()));
        all.append(expect);
        len.push_back(expect.n);
    }
    const size_t trailing = symx_choose(0, 2, "trailing");
    for (size_t i = 0; i < trailing; ++i) all.byte(symx_any<uint8_t>("after"));
    if (symx_bool("reader"))
    {
        Source src{all.b, all.n, 0, symx_param("budget", 2), symx_choose(0, 1, "bytewise")};
        Reader rd{src};
        for (size_t i = 0; i < count; ++i)
        {
            pbk::Rec x;
            const size_t before = src.pos;
            const size_t used   = spb::pb::deserialize(x, rd, {.delimited = true});
            CHECK(used == len[i] && src.pos - before == len[i]);
            CHECK(eq_message(x, m[i]));
        }
        CHECK(!src.zero);
        symx_reach("reader");
    }
    else
    {
        size_t pos = 0;
        for (size_t i = 0; i < count; ++i)
        {
            pbk::Rec x;
            const size_t used = spb::pb::deserialize(x, all.b + pos, all.n - pos, {.delimited = true});
            CHECK(used == len[i]);
            CHECK(eq_message(x, m[i]));
            pos += used;
        }
        symx_reach("memory");
    }
}
// every byte string as a delimited message: the reference frames it
SYMX_TEST(rawframe)
{
    const size_t n = symx_choose(0, symx_param("max", 5), "n");
    uint8_t *b = new uint8_t[n];
    if (n) symx_make_symbolic(b, n, "bytes");
    In in{b, b + n};
    uint64_t size = in.varint();
    const size_t head = in.p - b;
    pbk::Sub want;
    Outcome o = in.st;
    if (o == OK && size > n - head) o = BAD;
    if (o == OK) { size = symx_concretize(size); o = decode(b + head, size, want); }
    if (o == OPEN) return;
    pbk::Sub got;
    bool ok = true;
    size_t used = 0, pos = 0;
    const bool reader = symx_bool("reader");
    try
    {
        if (reader)
        {
            Source src{b, n, 0, symx_param("budget", 2), symx_choose(0, 1, "bytewise")};
            Reader rd{src};
            used = spb::pb::deserialize(got, rd, {.delimited = true});
            pos  = src.pos;
        }
        else pos = used = spb::pb::deserialize(got, b, n, {.delimited = true});
    }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    CHECK(ok == (o == OK));
    if (ok)
    {
        CHECK(used == head + size && pos == used);
        CHECK(eq_message(want, got));
    }
    symx_reach(ok ? "accepted" : "rejected");
    delete[] b;
}
// frames whose length prefix takes several bytes
SYMX_TEST(longframe)
{
    pbk::Sub m;
    m.s.emplace(symx_choose(symx_param("from", 120), symx_param("to", 132), "n"), 'q');
    (*m.s)[3] = (char)(symx_any<uint8_t>("c") & 0x7f);
    const std::string s = spb::pb::serialize(m, {.delimited = true});
    CHECK(s.size() == spb::pb::serialize_size(m, {.delimited = true}));
    Source src{(const uint8_t *)s.data(), s.size(), 0, 1, symx_choose(0, 2, "bytewise")};
    Reader rd{src};
    pbk::Sub a, b;
    CHECK(spb::pb::deserialize(a, rd, {.delimited = true}) == s.size());
    CHECK(spb::pb::deserialize(b, s, {.delimited = true}) == s.size());
    CHECK(eq_message(a, m) && eq_message(b, m));
    // one byte short
    bool ok = true;
    try { (void)spb::pb::deserialize(a, s.data(), s.size() - 1, {.delimited = true}); } catch (const std::exception &) { ok = false; }
    CHECK(!ok);
    symx_reach("long");
}
