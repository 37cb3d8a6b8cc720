// P15: UTF-8 validation is exact.
#include "symx.h"
#include "utf8ref.h"
#include <spb/utf8.h>
#include <cstring>
#include <string_view>


SYMX_TEST(valid)
{
    const size_t n = symx_choose(0, symx_param("max", 6), "n");
    uint8_t *buf   = new uint8_t[n];
    symx_make_symbolic(buf, n, "bytes");
    bool want = utf8ref::valid(buf, n);
    bool got  = spb::detail::utf8::is_valid(std::string_view((char *)buf, n));
    symx_observe(got);
    CHECK(got == want);
    symx_reach(want ? "valid" : "invalid");
    delete[] buf;
}

// the loop over words: a window of arbitrary bytes anywhere among characters of one byte, at every alignment
SYMX_TEST(words)
{
    const size_t w = symx_param("w", 2), max = symx_param("max", 18);
    const size_t n = symx_choose(w, max, "n"), at = symx_choose(0, max - w, "at"), skew = symx_choose(0, symx_param("skew", 1), "skew");
    if (at + w > n) symx_stop();
    uint8_t *buf = new uint8_t[n + skew];
    for (size_t i = 0; i < n; i++) buf[skew + i] = symx_any<uint8_t>("byte");
    for (size_t i = 0; i < n; i++)
        if (i < at || i >= at + w) symx_assume(buf[skew + i] < 0x80);
    bool want = utf8ref::valid(buf + skew, n);
    bool got  = spb::detail::utf8::is_valid(std::string_view((char *)buf + skew, n));
    symx_observe(got);
    CHECK(got == want);
    symx_reach(want ? "valid" : "invalid");
    delete[] buf;
}
