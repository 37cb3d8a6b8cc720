// P20 valid JSON decodes to the value it denotes, P22 malformed JSON is rejected,
// against the reference reader.
#include "pbtab.h"
#include "jsref.h"
#include <spb/json.hpp>
#include <stdexcept>
using namespace ref;

template <typename M> static void decide(const uint8_t *p, size_t n)
{
    M want{};
    size_t expect = 0;
    const Outcome o = js_decode(p, n, want, &expect);
#if defined(P20)
    if (o != OK) return;
#else
    if (o != BAD) return;
#endif
    // the input ends where its allocation ends
    uint8_t *in = new uint8_t[n];
    memcpy(in, p, n);
    M got{};
    bool ok     = true;
    size_t used = 0;
    try { used = spb::json::deserialize(got, in, n); }
    catch (const std::exception &) { ok = false; }
    delete[] in;
    symx_observe(ok);
    if (o == BAD) { CHECK(!ok); symx_reach("rejected"); return; }
    CHECK(ok);
    CHECK(used == expect);
    CHECK(eq_message(want, got));
    symx_reach("accepted");
}
#include "jsdocs.h"
