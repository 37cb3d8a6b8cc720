// P07: decoding arbitrary bytes is memory safe and terminates.  Compiled with
// undefined behaviour checks; the executor checks every access.
#include <pbk.pb.h>
#include <pbn.pb.h>
#include <pba.pb.h>
#include "symx.h"
#include <cstring>
#include <stdexcept>

template <typename M> static void feed(const uint8_t *p, size_t n)
{
    bool ok = true;
    M m{};
    try { (void)spb::pb::deserialize(m, p, n); }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    symx_reach(ok ? "accepted" : "rejected");
    if (symx_param("reader", 0))
    {
        M m2{};
        size_t pos = 0;
        auto rd    = [&](void *d, size_t k) -> size_t {
            size_t j = k < n - pos ? k : n - pos;
            memcpy(d, p + pos, j);
            pos += j;
            return j;
        };
        try { (void)spb::pb::deserialize(m2, rd, {.delimited = symx_param("delimited", 0) != 0}); }
        catch (const std::exception &) {}
    }
    if (symx_param("delimited", 0))
    {
        M m3{};
        try { (void)spb::pb::deserialize(m3, p, n, {.delimited = true}); }
        catch (const std::exception &) {}
    }
}
SYMX_TEST(raw)
{
    const size_t t = symx_choose(symx_param("tlo", 0), symx_param("thi", 11), "type");
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 4), "n");
    uint8_t *b = new uint8_t[n];
    if (n) symx_make_symbolic(b, n, "bytes");
    switch (t)
    {
    case 0: feed<pbk::Sub>(b, n); break;
    case 1: feed<pbk::Opt>(b, n); break;
    case 2: feed<pbk::Rep>(b, n); break;
    case 3: feed<pbk::Pack>(b, n); break;
    case 4: feed<pbk::Maps>(b, n); break;
    case 5: feed<pbk::One>(b, n); break;
    case 6: feed<pbk::Req>(b, n); break;
    case 7: feed<pbk::Rec>(b, n); break;
    case 8: feed<pbk::Holder>(b, n); break;
    case 9: feed<pbn::Narrow>(b, n); break;
    case 10: feed<pbn::Bits>(b, n); break;
    case 11: feed<pbk::Void>(b, n); break;
    }
    delete[] b;
}
// a known field header followed by arbitrary bytes: reaches the content of every field
SYMX_TEST(field)
{
    static const uint32_t num[] = {1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 2, 3, 4, 5, 6, 7, 8, 9, 17};
    uint8_t h[8];
    size_t k = 0;
    uint64_t tag = (uint64_t)num[symx_choose(0, 18, "field")] << 3 | symx_choose(0, 5, "wire");
    while (tag >= 0x80) { h[k++] = (uint8_t)(tag | 0x80); tag >>= 7; }
    h[k++] = (uint8_t)tag;
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 3), "n");
    uint8_t *b = new uint8_t[k + n];
    memcpy(b, h, k);
    if (n) symx_make_symbolic(b + k, n, "bytes");
    switch (symx_choose(symx_param("tlo", 0), symx_param("thi", 4), "type"))
    {
    case 0: feed<pbk::Opt>(b, k + n); break;
    case 1: feed<pbk::Pack>(b, k + n); break;
    case 2: feed<pbk::Maps>(b, k + n); break;
    case 3: feed<pbk::Rep>(b, k + n); break;
    case 4: feed<pbk::One>(b, k + n); break;
    }
    delete[] b;
}
// narrow integers and bit fields with a complete symbolic number
SYMX_TEST(numbers)
{
    const bool bits = symx_bool("bits");
    const uint32_t f = symx_choose(1, 20, "field");
    const size_t w = symx_choose(0, 2, "wire");
    uint8_t *b = new uint8_t[13];
    size_t k = 0;
    uint32_t tag = f << 3 | (w == 0 ? 0 : w == 1 ? 1 : 5);
    if (tag >= 0x80) { b[k++] = (uint8_t)(tag | 0x80); tag >>= 7; }
    b[k++] = (uint8_t)tag;
    size_t n = w == 0 ? symx_choose(1, 10, "len") : w == 1 ? 8 : 4;
    symx_make_symbolic(b + k, n, "bytes");
    if (w == 0) for (size_t i = 0; i < n; ++i) { if (i + 1 < n) b[k + i] |= 0x80; else b[k + i] &= 0x7f; }
    uint8_t *c = new uint8_t[k + n];
    memcpy(c, b, k + n);
    if (bits) feed<pbn::Bits>(c, k + n);
    else feed<pbn::Narrow>(c, k + n);
    delete[] b;
    delete[] c;
}
// fixed-size containers: a known field header, any length prefix, any bytes; optionally followed by more than the whole message has room for
SYMX_TEST(arrays)
{
    const uint32_t f = symx_choose(1, 28, "field");
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 3), "n");
    const uint32_t wire = symx_choose(0, 5, "wire");
    const size_t more = wire == 2 && symx_choose(0, 1, "more") ? 1000 : 0;
    uint8_t h[8];
    size_t k = 0;
    uint32_t tag = f << 3 | wire;
    if (tag >= 0x80) { h[k++] = (uint8_t)(tag | 0x80); tag >>= 7; }
    h[k++] = (uint8_t)tag;
    if (more)
    {
        h[k++] = (uint8_t)((n + more) | 0x80);
        h[k++] = (uint8_t)((n + more) >> 7);
    }
    uint8_t *b = new uint8_t[k + n + more];
    memcpy(b, h, k);
    if (n) symx_make_symbolic(b + k, n, "bytes");
    memset(b + k + n, 1, more);
    feed<pba::Arr>(b, k + n + more);
    delete[] b;
}
