// P28: maps in both formats.
#include <pbm.pb.h>
#include <pbm2.pb.h>
#include "util.h"
using namespace ref;
using namespace util;
// number, name, key kind, value kind
#define ROWS(X) \
    X(1, a, I32, S64) X(2, b, I64, BYT) X(3, c, U32, F32) X(4, d, U64, I32) X(5, e, S32, STR) X(6, f, S64, BOO) X(7, g, BOO, ENU) X(8, h, F32, U64) X(9, i, F64, SF32) X(10, j, SF32, F64) \
    X(11, k, SF64, S32) X(12, l, STR, MSG) X(13, m, STR, STR) X(14, n, STR, I32) X(15, o, I32, MSG) X(16, p, I32, DBL)
constexpr size_t COUNT = 16;
namespace pbm
{
template <typename F> void enum_names(E, F f) { f("ZERO", E::ZERO), f("ONE", E::ONE), f("NEG", E::NEG); }
}
namespace ref
{
template <> bool eq_message<pbm::Sub>(const pbm::Sub &a, const pbm::Sub &b) { return a.v == b.v && a.r == b.r; }
template <> void enc_message<pbm::Sub>(Buf &o, const pbm::Sub &m)
{
    if (m.v) enc_field<I32>(o, 1, *m.v);
    for (auto v : m.r) enc_field<I32>(o, 2, v);
}
template <> void any_message<pbm::Sub>(pbm::Sub &m, const char *) { m.v = symx_any<int8_t>("sub"); }
} // namespace ref
template <Kind KK, Kind VK, typename M> static bool same_map(const M &a, const M &b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y) r &= eq<KK>(x->first, y->first) & eq<VK>(x->second, y->second);
    return r;
}
static bool equal(const pbm::M &a, const pbm::M &b, bool real = true)
{
    bool r = a.other == b.other;
#define X(n, m, K, V) if (V != DBL || real) r &= same_map<K, V>(a.m, b.m); else r &= a.m.size() == b.m.size();
    ROWS(X)
#undef X
    return r;
}
template <Kind K, typename T> static void constant(T &v, size_t c)
{
    if constexpr (K == STR) v = c == 0 ? "" : c == 1 ? "a" : "ab";
    else if constexpr (K == BYT) { v.resize(c); for (size_t i = 0; i < c; ++i) v[i] = std::byte(i); }
    else if constexpr (K == MSG) { if (c) v.v = (int)c; if (c == 2) v.r.push_back(7); }
    else if constexpr (K == BOO) v = c & 1;
    else if constexpr (K == ENU) v = T(c & 1);
    else v = T(c);
}
// ---- protobuf: entries of every form ------------------------------------------------------------
template <Kind KK, Kind VK, typename M> static void entry(Buf &b, uint32_t number, M &want, bool last)
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    K key{};
    V value{};
    Buf e;
    auto put_key = [&](bool any, size_t c) { K t{}; if (any) any_value<KK>(t, "key"); else constant<KK>(t, c); enc_field<KK>(e, 1, t); key = t; };
    auto put_value = [&](bool any, size_t c)
    {
        V t{};
        if (any) any_value<VK>(t, "mapped");
        else constant<VK>(t, c);
        enc_field<VK>(e, 2, t);
        if constexpr (VK == MSG) // occurrences of a message are merged
        {
            if (t.v) value.v = t.v;
            for (auto x : t.r) value.r.push_back(x);
        }
        else value = t;
    };
    auto unknown = [&](size_t c)
    {
        switch (c)
        {
        case 0: e.tag(3, 0); e.byte(9); break;
        case 1: e.tag(7, 2); e.byte(2); e.byte(8); e.byte(1); break;
        case 2: e.tag(2047, 5); e.le(1, 4); break;
        case 3: e.tag(536870911, 1); e.le(1, 8); break;
        }
    };
    const bool any = last;
    const size_t form = symx_choose(0, last ? 10 : symx_param("early", 4), "form");
    const size_t c = form == 4 || (any && form != 5 && form != 6 && form != 7 && form < 9) ? 0 : symx_choose(0, symx_param("constants", 2), "constant");
    switch (form)
    {
    case 0: put_key(any, c); put_value(any, c); break;
    case 1: put_value(any, c); put_key(any, c); break;
    case 2: put_key(any, c); break;
    case 3: put_value(any, c); break;
    case 4: break;
    case 5: put_key(false, c); put_value(false, c); put_key(any, 1); break;
    case 6: put_key(false, c); put_value(false, 1); put_value(any, c); break;
    case 7: put_value(false, 1); put_key(false, 1); put_value(any, 0); put_key(false, c); break;
    case 8: unknown(symx_choose(0, 3, "unknown")); put_key(any, c); put_value(false, 1); break;
    case 9: put_key(false, c); unknown(symx_choose(0, 3, "unknown")); put_value(any, c); break;
    case 10: put_value(false, c); put_key(any, c); unknown(symx_choose(0, 3, "unknown")); break;
    }
    b.tag(number, 2);
    b.varint(e.n);
    b.append(e);
    want[std::move(key)] = std::move(value);
}
static void any_entry(Buf &b, pbm::M &want, size_t row, bool last)
{
    enum { base = __COUNTER__ };
    switch (row)
    {
#define X(n, m, K, V) case __COUNTER__ - base - 1: entry<K, V>(b, n, want.m, last); break;
        ROWS(X)
#undef X
    }
}
SYMX_TEST(pb_entries)
{
    const size_t n = symx_choose(symx_param("min", 1), symx_param("max", 2), "count"), row = symx_choose(symx_param("lo", 0), symx_param("hi", COUNT - 1), "map");
    Buf b;
    pbm::M want{};
    lim.str = lim.byt = symx_param("length", 1);
    for (size_t i = 0; i < n; ++i) any_entry(b, want, row, i + 1 == n);
    if (symx_bool("other")) { enc_field<I32>(b, 100, 5); want.other = 5; }
    pbm::M m{};
    CHECK(util::pb_read(m, b, symx_choose(0, symx_param("reader", 0), "reader")));
    CHECK(equal(m, want));
    symx_reach("decoded");
}
// entries of two maps in turn
SYMX_TEST(pb_mixed)
{
    Buf b;
    pbm::M want{};
    lim.str = lim.byt = 0;
    const size_t r = symx_choose(0, COUNT - 1, "map"), s = symx_choose(0, COUNT - 1, "map");
    enum { base = __COUNTER__ };
    auto put = [&](size_t row, size_t c)
    {
        enum { base = __COUNTER__ };
        switch (row)
        {
#define X(num, m, K, V) \
    case __COUNTER__ - base - 1: \
    { \
        decltype(want.m)::key_type k{}; \
        decltype(want.m)::mapped_type v{}; \
        constant<K>(k, c); \
        constant<V>(v, 2 - c); \
        Buf e; \
        enc_field<K>(e, 1, k); \
        enc_field<V>(e, 2, v); \
        b.tag(num, 2); \
        b.varint(e.n); \
        b.append(e); \
        want.m[k] = v; \
        break; \
    }
            ROWS(X)
#undef X
        }
    };
    put(r, 1);
    put(s, symx_choose(0, 2, "constant"));
    put(r, symx_choose(0, 2, "constant"));
    put(s, 2);
    pbm::M m{};
    CHECK(util::pb_read(m, b));
    CHECK(equal(m, want));
    symx_reach("mixed");
}
// ---- JSON ---------------------------------------------------------------------------------------
template <typename T> static void digits(Buf &b, T v)
{
    char d[24];
    b.bytes(d, (size_t)(std::to_chars(d, d + 24, v).ptr - d));
}
template <Kind K, typename T> static void json_text(Buf &b, const T &v)
{
    if constexpr (K == STR) { b.byte('"'); b.bytes(v.data(), v.size()); b.byte('"'); }
    else if constexpr (K == BYT) { b.byte('"'); base64(b, (const uint8_t *)v.data(), v.size()); b.byte('"'); }
    else if constexpr (K == MSG)
    {
        text(b, "{");
        if (v.v) { text(b, "\"v\":"); digits(b, *v.v); }
        if (v.r.size()) { text(b, v.v ? ",\"r\":[" : "\"r\":["); digits(b, v.r[0]); text(b, "]"); }
        text(b, "}");
    }
    else if constexpr (K == BOO) text(b, v ? "true" : "false");
    else if constexpr (K == ENU) text(b, (int)v == 1 ? "\"ONE\"" : "\"ZERO\"");
    else if constexpr (K == DBL) text(b, v == 1 ? "1" : v == 2 ? "2" : "0");
    else digits(b, v);
}
// a key: symbolic (as a quoted name) or constant
template <Kind K, typename T> static void json_key(Buf &b, T &k, bool any, size_t c)
{
    if (!any) constant<K>(k, c);
    b.byte('"');
    if constexpr (K == STR)
    {
        Buf d;
        if (any) for (size_t n = symx_choose(0, symx_param("pieces", 1), "pieces"); n; --n) json_piece(b, d, symx_choose(0, 7, "kind"));
        else { b.bytes(k.data(), k.size()); d.bytes(k.data(), k.size()); }
        k.assign((const char *)d.b, d.n);
    }
    else if constexpr (K == BOO)
    {
        if (any) k = symx_bool("key");
        text(b, k ? "true" : "false");
    }
    else
    {
        if (any) k = symx_any<T>("key");
        digits(b, k);
    }
    b.byte('"');
}
static void space(Buf &b)
{
    static const char *const s[] = {"", " ", "\t\n\r "};
    text(b, s[symx_choose(0, symx_param("spaces", 1), "space")]);
}
SYMX_TEST(json_entries)
{
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 2), "count"), row = symx_choose(symx_param("lo", 0), symx_param("hi", COUNT - 1), "map");
    Buf b;
    pbm::M want{};
    enum { base = __COUNTER__ };
    switch (row)
    {
#define X(num, m, K, V) \
    case __COUNTER__ - base - 1: \
        text(b, "{\"" #m "\":{"); \
        for (size_t i = 0; i < n; ++i) \
        { \
            if (i) b.byte(','); \
            decltype(want.m)::key_type k{}; \
            decltype(want.m)::mapped_type v{}; \
            json_key<K>(b, k, i + 1 == n, 1 + i); \
            if (i + 1 == n) space(b); \
            b.byte(':'); \
            constant<V>(v, i + 1 == n ? symx_choose(0, 2, "constant") : 1); \
            json_text<V>(b, v); \
            if (want.m.count(k)) symx_stop(); /* duplicated names are left open */ \
            want.m[k] = v; \
        } \
        text(b, "}}"); \
        break;
        ROWS(X)
#undef X
    }
    pbm::M m{};
    CHECK(json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader")));
    CHECK(equal(m, want, false));
    symx_reach("decoded");
}
// what is not a key of the type is rejected
SYMX_TEST(json_keys)
{
    static const char *const bad[] = {
        "1", "true", "null", "\"\"", "\" 1\"", "\"1x\"", "\"x\"", "\"1.5\"", "\"--1\"", "\"+1\"", "\"-\"", "\"1e0x\"", "\"TRUE\"", "\"True\"", "\"truex\"", "\"tru\"", "\"nul\"", "[]", "{}", "\"1\"\"1\"",
        "\"18446744073709551616\"", "\"-9223372036854775809\"", "\"\\\"1\\\"\"", "", "'1'", "\"{}\"", "\"0x1\"", "\"1,2\"", "\"1:2\"", "\"\\u0000\"", "\"1\\u0000\"",
        // depending on the type
        "\"-1\"", "\"2147483648\"", "\"-2147483649\"", "\"4294967296\"", "\"9223372036854775808\"", "\"true\"", "\"false\"", "\"0\"", "\"7\""};
    const size_t i = symx_choose(0, sizeof bad / sizeof *bad - 1, "key"), row = symx_choose(0, COUNT - 1, "map");
    const char *s = bad[i];
    Buf b;
    bool accept = false, boolean = strcmp(s, "\"true\"") == 0 || strcmp(s, "\"false\"") == 0;
    auto fits = [&](auto lo, auto hi)
    {
        for (const char *t : {"\"-1\"", "\"2147483648\"", "\"-2147483649\"", "\"4294967296\"", "\"9223372036854775808\"", "\"0\"", "\"7\""})
            if (strcmp(s, t) == 0)
            {
                __int128 v = 0;
                const char *p = t + 1;
                const bool neg = *p == '-';
                for (p += neg; *p != '"'; ++p) v = v * 10 + (*p - '0');
                if (neg) v = -v;
                return v >= (__int128)lo && v <= (__int128)hi;
            }
        return false;
    };
    enum { base = __COUNTER__ };
    switch (row)
    {
#define X(num, m, K, V) \
    case __COUNTER__ - base - 1: \
    { \
        if (K == STR && s[0] == '"' && strcmp(s, "\"1\"\"1\"")) symx_stop(); /* any text is a key */ \
        using T = decltype(pbm::M::m)::key_type; \
        if constexpr (K == BOO) accept = boolean; \
        else if constexpr (K != STR) { using L = std::numeric_limits<std::conditional_t<std::is_integral_v<T>, T, int>>; accept = fits(L::min(), L::max()); } \
        decltype(pbm::M::m)::mapped_type v{}; \
        constant<V>(v, 1); \
        text(b, "{\"" #m "\":{"); \
        text(b, s); \
        b.byte(':'); \
        json_text<V>(b, v); \
        text(b, "}}"); \
        break; \
    }
        ROWS(X)
#undef X
    }
    pbm::M m{};
    const bool ok = json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
    CHECK(ok == accept);
    symx_reach(ok ? "accepted" : "rejected");
}
// ---- writing ------------------------------------------------------------------------------------
SYMX_TEST(write)
{
    const size_t n = symx_choose(1, symx_param("count", 2), "count"), row = symx_choose(0, COUNT - 1, "map");
    lim.str = lim.byt = symx_param("length", 1);
    const bool json = symx_bool("json");
    pbm::M m{};
    Buf b;
    std::string out;
    enum { base = __COUNTER__ };
    switch (row)
    {
#define X(num, f, K, V) \
    case __COUNTER__ - base - 1: \
    { \
        for (size_t i = 0; i < n; ++i) \
        { \
            decltype(m.f)::key_type k{}; \
            decltype(m.f)::mapped_type v{}; \
            if (i + 1 == n) any_value<K>(k, "key"); \
            else constant<K>(k, 1); \
            if (i + 1 == n && V != DBL && V != ENU) any_value<V>(v, "mapped"); \
            else constant<V>(v, symx_choose(0, 2, "constant")); \
            m.f[k] = v; \
        } \
        if (!json) \
        { \
            size_t size = 0; \
            for (auto &[k, v] : m.f) \
            { \
                Buf e; \
                enc_field<K>(e, 1, k); \
                enc_field<V>(e, 2, v); \
                b.tag(num, 2); \
                b.varint(e.n); \
                b.append(e); \
            } \
            CHECK(pb_write(m, out)); \
            CHECK(same(out, b.b, b.n)); \
        } \
        else \
        { \
            CHECK(json_write(m, out)); \
            if constexpr (K != STR && V != STR && V != DBL) \
            { \
                text(b, "{\"" #f "\":{"); \
                bool first = true; \
                for (auto &[k, v] : m.f) \
                { \
                    if (!first) b.byte(','); \
                    first = false; \
                    b.byte('"'); \
                    json_text<K>(b, k); \
                    text(b, "\":"); \
                    json_text<V>(b, v); \
                } \
                text(b, "}}"); \
                CHECK(same(out, b.b, b.n)); \
            } \
        } \
        break; \
    }
        ROWS(X)
#undef X
    }
    pbm::M r{};
    Buf o;
    o.bytes(out.data(), out.size());
    CHECK(json ? json_read(r, o) : util::pb_read(r, o));
    CHECK(equal(r, m, !json));
    symx_reach("written");
}
// keys and values of another string type
SYMX_TEST(fixed)
{
    pbm2::Fixed m{}, r{};
    std::array<char, 3> s;
    uint8_t t[3];
    content(t, 3, true, "text");
    memcpy(s.data(), t, 3);
    switch (symx_choose(0, 2, "map"))
    {
    case 0: m.a[s] = 5; break;
    case 1: m.b[7] = s; break;
    case 2: m.c[s] = s; m.c[{'x', 'y', 'z'}] = {'a', 'b', 'c'}; break;
    }
    std::string out;
    const bool json = symx_bool("json");
    CHECK(json ? json_write(m, out) : pb_write(m, out));
    Buf o;
    o.bytes(out.data(), out.size());
    CHECK(json ? json_read(r, o) : util::pb_read(r, o));
    CHECK(r.a == m.a && r.b == m.b && r.c == m.c);
    symx_reach("fixed");
}
