// Small helpers shared by the harnesses: decode attempts, text building, readers.
#pragma once
#include "pbref.h"
#include <spb/json.hpp>
#include <spb/pb.hpp>
#include <stdexcept>

namespace util
{
using ref::Buf;
struct Chunks // a reader that delivers at most step bytes per call
{
    const uint8_t *p;
    size_t n, step, pos = 0;
};
struct Reader
{
    Chunks &c;
    size_t operator()(void *dst, size_t want) const
    {
        size_t k = c.n - c.pos;
        if (k > want) k = want;
        if (c.step && k > c.step) k = c.step;
        memcpy(dst, c.p + c.pos, k);
        c.pos += k;
        return k;
    }
};
// step: 0 from memory, otherwise through a reader
template <typename M> bool pb_read(M &m, const Buf &b, size_t step = 0)
{
    try
    {
        if (step == 0) { (void)spb::pb::deserialize(m, b.b, b.n); return true; }
        Chunks c{b.b, b.n, step};
        Reader r{c};
        (void)spb::pb::deserialize(m, r);
    }
    catch (const std::exception &) { return false; }
    return true;
}
template <typename M> bool json_read(M &m, const Buf &b, size_t step = 0)
{
    try
    {
        if (step == 0) { (void)spb::json::deserialize(m, b.b, b.n); return true; }
        Chunks c{b.b, b.n, step};
        Reader r{c};
        (void)spb::json::deserialize(m, r);
    }
    catch (const std::exception &) { return false; }
    return true;
}
template <typename M> bool pb_write(const M &m, std::string &out)
{
    try { out = spb::pb::serialize(m); }
    catch (const std::exception &) { return false; }
    return true;
}
template <typename M> bool json_write(const M &m, std::string &out)
{
    try { out = spb::json::serialize(m); }
    catch (const std::exception &) { return false; }
    return true;
}
inline void text(Buf &b, const char *s) { b.bytes(s, strlen(s)); }
inline void key(Buf &b, const char *name) { b.byte('"'); text(b, name); text(b, "\":"); }
inline void base64(Buf &b, const uint8_t *p, size_t n)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t i = 0; i < n; i += 3)
    {
        const uint32_t v = (uint32_t)p[i] << 16 | (i + 1 < n ? (uint32_t)p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
        b.byte((uint8_t)t[v >> 18]);
        b.byte((uint8_t)t[v >> 12 & 63]);
        b.byte(i + 1 < n ? (uint8_t)t[v >> 6 & 63] : (uint8_t)'=');
        b.byte(i + 2 < n ? (uint8_t)t[v & 63] : (uint8_t)'=');
    }
}
// n symbolic bytes; well-formed UTF-8 if text
inline void content(uint8_t *p, size_t n, bool utf8, const char *name)
{
    if (!n) return;
    symx_make_symbolic(p, n, name);
    if (utf8) symx_assume(utf8ref::valid(p, n));
}
template <typename S> bool same(const S &s, const uint8_t *p, size_t n)
{
    if (s.size() != n) return false;
    bool r = true;
    for (size_t i = 0; i < n; ++i) r &= (uint8_t)s.data()[i] == p[i];
    return r;
}
template <typename S> void assign(S &s, const uint8_t *p, size_t n)
{
    s.resize(n);
    for (size_t i = 0; i < n; ++i) s.data()[i] = (typename S::value_type)p[i];
}
// one piece of the text of a JSON string; what it denotes is appended to d
inline void json_piece(Buf &b, Buf &d, size_t kind)
{
    auto hex = [&](uint32_t u)
    {
        text(b, "\\u");
        for (int i = 12; i >= 0; i -= 4) { const uint32_t x = u >> i & 15; b.byte((uint8_t)(x < 10 ? '0' + x : (x & 1 ? 'a' : 'A') + x - 10)); }
    };
    auto put = [&](uint32_t c)
    {
        if (c < 0x80) d.byte((uint8_t)c);
        else if (c < 0x800) { d.byte((uint8_t)(0xc0 | c >> 6)); d.byte((uint8_t)(0x80 | (c & 63))); }
        else if (c < 0x10000) { d.byte((uint8_t)(0xe0 | c >> 12)); d.byte((uint8_t)(0x80 | (c >> 6 & 63))); d.byte((uint8_t)(0x80 | (c & 63))); }
        else { d.byte((uint8_t)(0xf0 | c >> 18)); d.byte((uint8_t)(0x80 | (c >> 12 & 63))); d.byte((uint8_t)(0x80 | (c >> 6 & 63))); d.byte((uint8_t)(0x80 | (c & 63))); }
    };
    switch (kind)
    {
    case 0: { const uint8_t c = symx_any<uint8_t>("char"); symx_assume(c >= 0x20 && c < 0x80 && c != '"' && c != '\\'); b.byte(c); d.byte(c); break; }
    case 1: { static const char e[] = "\"\"\\\\//b\bf\fn\nr\rt\t"; const size_t i = symx_choose(0, 7, "escape"); b.byte('\\'); b.byte((uint8_t)e[2 * i]); d.byte((uint8_t)e[2 * i + 1]); break; }
    case 2: { const uint32_t u = symx_any<uint16_t>("unit"); symx_assume(u < 0x80); hex(u); put(u); break; }
    case 3: { const uint32_t u = symx_any<uint16_t>("unit"); symx_assume(u >= 0x80 && u < 0x800); hex(u); put(u); break; }
    case 4: { const uint32_t u = symx_any<uint16_t>("unit"); symx_assume(u >= 0x800 && (u < 0xd800 || u > 0xdfff)); hex(u); put(u); break; }
    case 5: { const uint32_t u = symx_any<uint32_t>("point"); symx_assume(u >= 0x10000 && u <= 0x10ffff); hex(0xd800 + ((u - 0x10000) >> 10)); hex(0xdc00 + ((u - 0x10000) & 0x3ff)); put(u); break; }
    case 6: { uint8_t t[2]; content(t, 2, true, "two"); symx_assume(t[0] >= 0xc2); b.bytes(t, 2); d.bytes(t, 2); break; }
    case 7: { uint8_t t[4]; content(t, 4, true, "four"); symx_assume(t[0] >= 0xf0); b.bytes(t, 4); d.bytes(t, 4); break; }
    }
}
} // namespace util
