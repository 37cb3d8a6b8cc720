// Reference for UTF-8 well-formedness: Unicode table 3-7
#pragma once
#include <cstddef>
#include <cstdint>
namespace utf8ref
{
inline bool valid(const uint8_t *p, size_t n)
{
    size_t i = 0;
    while (i < n)
    {
        uint8_t b = p[i];
        auto cont = [&](size_t k, uint8_t lo, uint8_t hi) { return i + k < n && p[i + k] >= lo && p[i + k] <= hi; };
        if (b <= 0x7f) i += 1;
        else if (b >= 0xc2 && b <= 0xdf) { if (!cont(1, 0x80, 0xbf)) return false; i += 2; }
        else if (b >= 0xe0 && b <= 0xef)
        {
            if (!cont(1, b == 0xe0 ? 0xa0 : 0x80, b == 0xed ? 0x9f : 0xbf) || !cont(2, 0x80, 0xbf)) return false;
            i += 3;
        }
        else if (b >= 0xf0 && b <= 0xf4)
        {
            if (!cont(1, b == 0xf0 ? 0x90 : 0x80, b == 0xf4 ? 0x8f : 0xbf) || !cont(2, 0x80, 0xbf) || !cont(3, 0x80, 0xbf)) return false;
            i += 4;
        }
        else return false;
    }
    return true;
}
} // namespace utf8ref
