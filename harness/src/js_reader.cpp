// P24: decoding JSON through a reader equals decoding from memory however the
// reader splits the text, and wherever the text crosses the internal window of
// 256 bytes.
#include "pbtab.h"
#include "jsref.h"
#include <spb/json.hpp>
#include <stdexcept>
using namespace ref;

struct Source
{
    const uint8_t *p;
    size_t n, pos = 0;
    size_t budget;   // number of reads whose size is free, the others deliver everything
    size_t bytewise;
    bool zero = false;
    size_t operator()(void *dst, size_t want)
    {
        if (want == 0) { zero = true; return 0; }
        const size_t left = n - pos;
        size_t k          = want < left ? want : left;
        if (k > 1)
        {
            if (bytewise == 1) k = 1;
            else if (bytewise == 0 && budget) { --budget; k = symx_choose(1, k, "chunk"); }
        }
        memcpy(dst, p + pos, k);
        pos += k;
        return k;
    }
};
struct Reader
{
    Source &s;
    size_t operator()(void *dst, size_t want) const { return s(dst, want); }
};
static size_t focus; // the interesting place of the document
template <typename M> static void decide(const uint8_t *p, size_t n)
{
    // white space in front puts the end of the window near the focus
    const size_t mode = symx_choose(symx_param("mlo", 0), symx_param("mhi", 2), "mode");
    size_t pad        = 0;
    if (mode == 2)
    {
        const size_t back = symx_choose(0, symx_param("near", 2), "back");
        const size_t at   = focus + 1 > back ? focus + 1 - back : 0;
        pad               = 256 - (at < n ? at : n);
    }
    uint8_t *in = new uint8_t[n + pad];
    memset(in, ' ', pad);
    memcpy(in + pad, p, n);
    n += pad;
    M a{}, b{};
    bool ra = true, rb = true;
    size_t ua = 0, ub = 0;
    try { ua = spb::json::deserialize(a, in, n); }
    catch (const std::exception &) { ra = false; }
    Source src{in, n, 0, mode == 0 ? symx_param("budget", 1) : 0, mode == 1};
    Reader rd{src};
    try { ub = spb::json::deserialize(b, rd); }
    catch (const std::exception &) { rb = false; }
    delete[] in;
    symx_observe(ra);
    symx_observe(rb);
    CHECK(!src.zero);
    CHECK(ra == rb);
    if (!ra) { symx_reach("rejected"); return; }
    CHECK(ua == ub);
    CHECK(eq_message(a, b));
    symx_reach("accepted");
}
#define FOCUS(x) focus = (x)
#include "jsdocs.h"
