// P17 round trip, P18 valid JSON that denotes the message, P19 sizes and output paths agree.
#include "pbtab.h"
#include "jsref.h"
#include <spb/json.hpp>
using namespace ref;

#if defined(P17)
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::json::serialize(m);
    symx_observe(s.size() > 1);
    M back{};
    CHECK(spb::json::deserialize(back, s) == s.size());
    CHECK(eq_message(m, back));
    symx_reach("roundtrip");
}
#elif defined(P18)
// how many members a message has in the output: those that are set
struct Present
{
    size_t &n;
    template <Kind K, typename T> void opt(uint32_t, const std::optional<T> &v, const char *) { n += v.has_value(); }
    template <Kind K, typename T> void plain(uint32_t, const T &v, const char *)
    {
        if constexpr (K == STR || K == BYT) n += !v.empty();
        else ++n;
    }
    template <Kind K, typename V> void rep(uint32_t, const V &v, bool, const char *) { n += !v.empty(); }
    template <Kind KK, Kind VK, typename M> void map(uint32_t, const M &v, const char *) { n += !v.empty(); }
    template <typename M> void ptr(uint32_t, const std::unique_ptr<M> &v, const char *) { n += v != nullptr; }
    template <Kind K, size_t I, typename V> void one(uint32_t, const V &v, const char *) { n += v.index() == I; }
};
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::json::serialize(m);
    symx_observe(s.size() > 1);
    M back{};
    Js in{(const uint8_t *)s.data(), (const uint8_t *)s.data() + s.size()};
    js_message(in, back);
    CHECK(in.st == OK);
    CHECK(in.p == in.e);
    CHECK(in.unknown == 0);
    CHECK(eq_message(m, back));
    // every member once, unset ones not at all
    size_t n = 0;
    fields(m, Present{n});
    CHECK(in.members == n);
    symx_reach("text");
}
#else
template <typename M> static void decide(const M &m)
{
    const std::string s = spb::json::serialize(m);
    const size_t size   = spb::json::serialize_size(m);
    symx_observe(size > 1);
    Buf expect(2048);
    expect.bytes(s.data(), s.size());
    CHECK(size == expect.n);
    char *raw = new char[size];
    CHECK(spb::json::serialize(m, (void *)raw) == size);
    CHECK(expect.same(raw, size));
    delete[] raw;
    std::vector<uint8_t> v(3);
    CHECK(spb::json::serialize(m, v) == size);
    CHECK(v.size() == size && expect.same(v.data(), size));
    const auto w = spb::json::serialize<std::vector<std::byte>>(m);
    CHECK(w.size() == size && expect.same(w.data(), size));
    Buf c(2048);
    CHECK(spb::json::serialize(m, [&](const void *p, size_t n) { c.bytes(p, n); }) == size);
    CHECK(expect.same(c.b, c.n));
    symx_reach("written");
}
#endif
#define CASES_INIT (nan_equal = lim.declared = true)
#include "cases.h"

// the longest decimal texts of floating point numbers
SYMX_TEST(floats)
{
    CASES_INIT;
    static const double ds[] = {-1.7976931348623157e+308, -2.2250738585072014e-308, -1.2345678901234567e-100, -1.2345678901234567e+100};
    static const float fs[]  = {-1.17549435e-38f, -1.00386984e-13f, -1.04695344e-16f, -1.05946e-10f};
    const double d = ds[symx_choose(0, 3, "double")];
    const float f  = fs[symx_choose(0, 3, "float")];
    switch (symx_choose(0, 3, "field"))
    {
    case 0: { pbk::Opt m{}; m.db = d; m.fl = f; decide(m); break; }
    case 1: { pbk::Rep m{}; m.db = {d, d}; m.fl = {f, f}; decide(m); break; }
    case 2: { pbk::Req m{}; m.d = d; decide(m); break; }
    case 3: { pbk::One m{}; m.y.emplace<6>(f); decide(m); break; }
    }
}
