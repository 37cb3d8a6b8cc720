// P11: integers never silently change value, for narrow types and bit fields, in both formats.
#include <pbn.pb.h>
#include "pbref.h"
#include <charconv>
#include <spb/json.hpp>
#include <spb/pb.hpp>
#include <stdexcept>
using ref::Buf;

enum Enc { VAR, ZIG, FX32, FX64 };
// member, number, encoding, type, bits
#define NARROW(X) \
    X(i8, 1, VAR, int8_t, 8) X(i16, 2, VAR, int16_t, 16) X(u8, 3, VAR, uint8_t, 8) X(u16, 4, VAR, uint16_t, 16) X(s8, 5, ZIG, int8_t, 8) X(s16, 6, ZIG, int16_t, 16) \
    X(f8, 7, FX32, uint8_t, 8) X(f16, 8, FX64, uint16_t, 16) X(g8, 9, FX32, int8_t, 8) X(g16, 10, FX64, int16_t, 16) X(i32, 11, VAR, int32_t, 32) X(u32, 12, VAR, uint32_t, 32) \
    X(s32, 13, ZIG, int32_t, 32) X(f32, 14, FX64, uint32_t, 32) X(g32, 15, FX64, int32_t, 32) \
    X(wi32, 21, VAR, int32_t, 32) X(wi64, 22, VAR, int64_t, 64) X(wu32, 23, VAR, uint32_t, 32) X(wu64, 24, VAR, uint64_t, 64) X(ws32, 25, ZIG, int32_t, 32) X(ws64, 26, ZIG, int64_t, 64) \
    X(wf32, 27, FX32, uint32_t, 32) X(wf64, 28, FX64, uint64_t, 64) X(wg32, 29, FX32, int32_t, 32) X(wg64, 30, FX64, int64_t, 64)
#define BITS(X) \
    X(a1, 1, VAR, int8_t, 1) X(a5, 2, VAR, int8_t, 5) X(b3, 3, VAR, uint8_t, 3) X(b1, 4, VAR, uint8_t, 1) X(c9, 5, VAR, int16_t, 9) X(d33, 6, VAR, uint64_t, 33) X(e63, 7, VAR, int64_t, 63) \
    X(f31, 8, VAR, uint32_t, 31) X(g31, 9, VAR, int32_t, 31) X(h4, 10, ZIG, int8_t, 4) X(i40, 11, ZIG, int64_t, 40) X(j7, 12, FX32, uint8_t, 7) X(k6, 13, FX32, int8_t, 6) \
    X(l20, 14, FX64, uint32_t, 20) X(m17, 15, FX64, int32_t, 17) X(n32, 16, VAR, uint32_t, 32) X(o32, 17, VAR, int32_t, 32) X(p64, 18, VAR, uint64_t, 64) X(q64, 19, VAR, int64_t, 64) X(r16, 20, VAR, uint16_t, 11) \
    X(s64, 21, ZIG, int64_t, 64) X(t32, 22, ZIG, int32_t, 32) X(u32, 23, FX32, uint32_t, 32) X(v64, 24, FX64, int64_t, 64) X(w64, 25, FX64, uint64_t, 64) X(x8, 26, ZIG, int8_t, 8)

template <typename T> static bool fits(int64_t v, unsigned bits)
{
    if constexpr (std::is_signed_v<T>) return bits == 64 || (v >= -(int64_t(1) << (bits - 1)) && v < (int64_t(1) << (bits - 1)));
    else return bits == 64 || (uint64_t)v < (uint64_t(1) << bits);
}
// what a raw number on the wire means for a field; false: does not fit
template <Enc C, typename T> static bool meaning(uint64_t raw, unsigned bits, bool field, T &out)
{
    int64_t v;
    if (C == ZIG)
    {
        v = (int64_t)(raw >> 1 ^ (0 - (raw & 1)));
    }
    else if (C == VAR && std::is_signed_v<T> && sizeof(T) < 8)
    {
        // a negative number is written with 32 or with 64 bits
        v = raw >> 32 == 0 ? (int64_t)(int32_t)raw : (int64_t)raw;
        // protobuf keeps the low bits of an int32
        if (sizeof(T) == 4 && !field) v = (int32_t)raw;
    }
    else if (C == FX32) v = std::is_signed_v<T> ? (int64_t)(int32_t)raw : (int64_t)raw;
    else v = (int64_t)raw;
    out = (T)v;
    return fits<T>(v, bits);
}
static bool others_equal(const pbn::Bits &a, const pbn::Bits &b, uint32_t but)
{
    bool r = true;
#define X(m, f, c, t, n) r &= f == but || a.m == b.m;
    BITS(X)
#undef X
    return r;
}
static bool others_equal(const pbn::Narrow &a, const pbn::Narrow &b, uint32_t but)
{
    bool r = true;
#define X(m, f, c, t, n) r &= f == but || a.m == b.m;
    NARROW(X)
#undef X
    return r;
}
template <typename M, typename G> static void decode_wire(M &m, const M &before, uint32_t number, unsigned wire, uint64_t raw, bool fit, G get)
{
    Buf b;
    b.tag(number, wire);
    if (wire == 0) b.varint(raw);
    else b.le(raw, wire == 1 ? 8 : 4);
    bool ok = true;
    try { (void)spb::pb::deserialize(m, b.b, b.n); }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    CHECK(ok == fit);
    if (ok) CHECK(get());
    if (ok) CHECK(others_equal(m, before, number));
    symx_reach(ok ? "stored" : "rejected");
}
// the neighbours have every bit set or none, and keep it
static void prepare(pbn::Narrow &) {}
static void prepare(pbn::Bits &m)
{
    if (!symx_bool("ones")) return;
#define X(n, f, c, t, bits) m.n = (t)~t(0);
    BITS(X)
#undef X
}
#define WIRE(n, f, c, t, bits, cmp, isfield) \
    case f: { \
        uint64_t raw = symx_any<uint64_t>("raw"); \
        if (c == FX32) raw &= 0xffffffff; \
        t want; \
        const bool fit = meaning<c, t>(raw, bits, isfield, want); \
        decode_wire(m, before, f, c == FX32 ? 5 : c == FX64 ? 1 : 0, raw, fit, [&] { return cmp; }); \
        break; }
SYMX_TEST(wire_narrow)
{
    pbn::Narrow m{};
    const pbn::Narrow before = m;
#define X(n, f, c, t, b) WIRE(n, f, c, t, b, m.n.has_value() && *m.n == want, false)
    switch (symx_choose(1, 30, "field")) { NARROW(X) default: symx_stop(); }
#undef X
}
SYMX_TEST(wire_bits)
{
    pbn::Bits m{};
    prepare(m);
    const pbn::Bits before = m;
#define X(n, f, c, t, b) WIRE(n, f, c, t, b, m.n == want, true)
    switch (symx_choose(1, 26, "field")) { BITS(X) default: symx_stop(); }
#undef X
}
// ---- JSON: every 64-bit number as text, plain and quoted --------------------------------------
template <typename M, typename G> static void decode_json(M &m, const M &before, uint32_t number, const char *name, bool sgn, uint64_t v, bool fit, G get)
{
    Buf b;
    auto text = [&](const char *s) { b.bytes(s, strlen(s)); };
    char d[24];
    const size_t n = (size_t)((sgn ? std::to_chars(d, d + 24, (int64_t)v) : std::to_chars(d, d + 24, v)).ptr - d);
    const bool quoted = symx_bool("quoted");
    text("{\"");
    text(name);
    text(quoted ? "\":\"" : "\":");
    b.bytes(d, n);
    text(quoted ? "\"}" : "}");
    bool ok = true;
    try { (void)spb::json::deserialize(m, b.b, b.n); }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    CHECK(ok == fit);
    if (ok) CHECK(get());
    if (ok) CHECK(others_equal(m, before, number));
    symx_reach(ok ? "stored" : "rejected");
}
// number v (signed or unsigned 64 bits) in type t of bits bits
template <typename T> static bool in_range(bool sgn, uint64_t v, unsigned bits)
{
    if (sgn && (int64_t)v < 0) return std::is_signed_v<T> && fits<T>((int64_t)v, bits);
    if (std::is_signed_v<T>) return v < (uint64_t(1) << (bits - 1));
    return bits == 64 || v < (uint64_t(1) << bits);
}
#define JSON(n, f, c, t, bits, cmp) \
    case f: { \
        const bool sgn     = symx_bool("signed"); \
        const uint64_t v   = symx_any<uint64_t>("v"); \
        const bool fit     = in_range<t>(sgn, v, bits); \
        if (!sgn || (int64_t)v >= 0) symx_assume(!(sgn && (int64_t)v >= 0)); \
        const t want       = (t)v; \
        decode_json(m, before, f, #n, sgn, v, fit, [&] { return cmp; }); \
        break; }
SYMX_TEST(json_narrow)
{
    pbn::Narrow m{};
    const pbn::Narrow before = m;
#define X(n, f, c, t, b) JSON(n, f, c, t, b, m.n.has_value() && *m.n == want)
    switch (symx_choose(1, 30, "field")) { NARROW(X) default: symx_stop(); }
#undef X
}
SYMX_TEST(json_bits)
{
    pbn::Bits m{};
    prepare(m);
    const pbn::Bits before = m;
#define X(n, f, c, t, b) JSON(n, f, c, t, b, m.n == want)
    switch (symx_choose(1, 26, "field")) { BITS(X) default: symx_stop(); }
#undef X
}
// ---- what is written is the number that is held -------------------------------------------------
template <Enc C, typename T> static void expect(Buf &b, uint32_t number, T v)
{
    b.tag(number, C == FX32 ? 5 : C == FX64 ? 1 : 0);
    if (C == ZIG) b.varint((uint64_t)(int64_t)v << 1 ^ (v < 0 ? ~uint64_t(0) : 0));
    else if (C == VAR) b.varint((uint64_t)(int64_t)v);
    else b.le((uint64_t)(int64_t)v, C == FX32 ? 4 : 8);
}
template <typename M> static void back(const M &m)
{
#if !defined(P02)
    const std::string s = spb::pb::serialize(m);
    CHECK(spb::pb::serialize_size(m) == s.size());
#if !defined(P03)
    M a{};
    CHECK(spb::pb::deserialize(a, s) == s.size());
    CHECK(others_equal(a, m, 0));
#endif
#endif
#if !defined(P01) && !defined(P02) && !defined(P03)
    const std::string j = spb::json::serialize(m);
    M c{};
    CHECK(spb::json::deserialize(c, j) == j.size());
    CHECK(others_equal(c, m, 0));
#endif
    symx_reach("roundtrip");
}
SYMX_TEST(write_narrow)
{
    pbn::Narrow m{};
    Buf b;
#define X(n, f, c, t, bits) case f: m.n = symx_any<t>("v"); expect<c, t>(b, f, *m.n); break;
    switch (symx_choose(1, 30, "field")) { NARROW(X) default: symx_stop(); }
#undef X
#if !defined(P01) && !defined(P03)
    const std::string s = spb::pb::serialize(m);
    CHECK(b.same(s.data(), s.size()));
#endif
    back(m);
}
SYMX_TEST(write_bits)
{
    pbn::Bits m{};
    prepare(m);
    switch (symx_choose(1, 26, "field"))
    {
#define X(n, f, c, t, bits) case f: { t v = symx_any<t>("v"); symx_assume(fits<t>((int64_t)v, bits)); m.n = v; CHECK(m.n == v); break; }
        BITS(X)
#undef X
    default: symx_stop();
    }
    // every field without presence is written
    Buf b;
#define X(n, f, c, t, bits) expect<c, t>(b, f, m.n);
    BITS(X)
#undef X
#if !defined(P01) && !defined(P03)
    const std::string s = spb::pb::serialize(m);
    CHECK(b.same(s.data(), s.size()));
#endif
    back(m);
}
// packed and repeated elements
SYMX_TEST(elements)
{
    pbn::Narrow m{};
    const uint64_t raw[2] = {symx_any<uint64_t>("raw"), symx_any<uint64_t>("raw")};
    Buf b, p;
    bool fit = true;
    const size_t n = symx_choose(1, 2, "n");
    if (symx_bool("signed"))
    {
        int8_t want[2];
        for (size_t i = 0; i < n; ++i) { fit &= meaning<VAR, int8_t>(raw[i], 8, false, want[i]); p.varint(raw[i]); }
        b.tag(16, 2);
        b.varint(p.n);
        b.append(p);
        bool ok = true;
        try { (void)spb::pb::deserialize(m, b.b, b.n); }
        catch (const std::exception &) { ok = false; }
        CHECK(ok == fit);
        if (ok) { CHECK(m.ri8.size() == n); for (size_t i = 0; i < n; ++i) CHECK(m.ri8[i] == want[i]); }
    }
    else
    {
        uint8_t want[2];
        for (size_t i = 0; i < n; ++i) { fit &= meaning<VAR, uint8_t>(raw[i], 8, false, want[i]); b.tag(17, 0); b.varint(raw[i]); }
        bool ok = true;
        try { (void)spb::pb::deserialize(m, b.b, b.n); }
        catch (const std::exception &) { ok = false; }
        CHECK(ok == fit);
        if (ok) { CHECK(m.ru8.size() == n); for (size_t i = 0; i < n; ++i) CHECK(m.ru8[i] == want[i]); }
    }
    symx_reach("elements");
}
