// P01 round trip, P02 exact encoding, P03 sizes and output paths agree.
#include "pbtab.h"
using namespace ref;

// collects the output of a writer
struct Collect
{
    Buf buf;
    size_t calls = 0;
};

template <typename M> static void obs(const std::string &s)
{
    symx_observe(s.size());
    for (unsigned char c : s) symx_observe(c);
}

#if defined(P01)
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::pb::serialize(m);
    symx_observe(s.size());
    M back{};
    const size_t used = spb::pb::deserialize(back, s);
    CHECK(used == s.size());
    CHECK(eq_message(m, back));
    symx_reach(s.empty() ? "empty" : "roundtrip");
}
#elif defined(P02)
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::pb::serialize(m);
    symx_observe(s.size());
    // an independent decoder reads the same value back
    M back{};
    CHECK(decode((const uint8_t *)s.data(), s.size(), back) == OK);
    CHECK(eq_message(m, back));
    // and, with a single field, the bytes are the canonical ones
    if (symx_param("exact", 1))
    {
        Buf b;
        enc_message(b, m);
        CHECK(b.same(s.data(), s.size()));
        symx_reach(b.n ? "bytes" : "nothing");
    }
}
#else
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::pb::serialize(m);
    for (int delimited = 0; delimited < 2; ++delimited)
    {
        Buf expect;
        if (delimited) expect.varint(s.size());
        expect.bytes(s.data(), s.size());
        const size_t size = spb::pb::serialize_size(m, {.delimited = delimited != 0});
        symx_observe(size);
        CHECK(size == expect.n);
        // raw buffer of exactly the announced size
        uint8_t *raw = new uint8_t[size];
        CHECK(spb::pb::serialize(m, (void *)raw, {.delimited = delimited != 0}) == size);
        CHECK(expect.same(raw, size));
        delete[] raw;
        // containers
        std::vector<uint8_t> v(3);
        CHECK(spb::pb::serialize(m, v, {.delimited = delimited != 0}) == size);
        CHECK(v.size() == size && expect.same(v.data(), size));
        const auto w = spb::pb::serialize<std::vector<std::byte>>(m, {.delimited = delimited != 0});
        CHECK(w.size() == size && expect.same(w.data(), size));
        // writer
        Collect c;
        CHECK(spb::pb::serialize(m, [&](const void *p, size_t n) { c.buf.bytes(p, n); }, {.delimited = delimited != 0}) == size);
        CHECK(expect.same(c.buf.b, c.buf.n));
    }
    symx_reach(s.empty() ? "empty" : "written");
}
#endif

#include "cases.h"
