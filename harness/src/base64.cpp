// P16: base64 encoding and decoding are exact inverses and strict.
#include "pbtab.h"
#include "jsref.h"
#include "util.h"
#include <pba.pb.h>
using namespace ref;
using namespace util;

// the same symbolic bytes in every container of bytes; text against the reference encoder
SYMX_TEST(encode)
{
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 6), "size"), k = symx_param("sym", 6);
    uint8_t p[64];
    memset(p, 0xa5, sizeof p);
    const size_t s = n < k ? n : k;
    const size_t at = s < n ? symx_choose(0, n - s, "at") : 0;
    if (s) symx_make_symbolic(p + at, s, "content");
    Buf want(256), t(128);
    base64(t, p, n);
    std::string out;
    switch (symx_choose(0, 5, "site"))
    {
    case 0: { pbk::Opt m{}; assign(m.by.emplace(), p, n); CHECK(json_write(m, out)); text(want, "{\"by\":\""); want.append(t); text(want, "\"}"); break; }
    case 1: { pbk::Rep m{}; m.by.resize(2); assign(m.by[0], p, n); CHECK(json_write(m, out)); text(want, "{\"by\":[\""); want.append(t); text(want, "\",\"\"]}"); break; }
    case 2: { pbk::One m{}; assign(m.y.emplace<1>(), p, n); CHECK(json_write(m, out)); text(want, "{\"yb\":\""); want.append(t); text(want, "\"}"); break; }
    case 3: { pbk::Maps m{}; assign(m.b[7], p, n); CHECK(json_write(m, out)); text(want, "{\"b\":{\"7\":\""); want.append(t); text(want, "\"}}"); break; }
    case 4: // through a writer, and into the caller's buffer of the announced size
    {
        pbk::Opt m{};
        assign(m.by.emplace(), p, n);
        auto w = [&](const void *q, size_t k) { out.append((const char *)q, k); };
        spb::json::serialize(m, w);
        text(want, "{\"by\":\""), want.append(t), text(want, "\"}");
        CHECK(spb::json::serialize_size(m) == want.n);
        break;
    }
    case 5:
    {
        if (n != 8) symx_stop();
        pba::Arr m{};
        memcpy(m.b8.data(), p, 8);
        CHECK(json_write(m, out));
        const size_t i = out.find("\"b8\":\"");
        CHECK(i != out.npos);
        out = out.substr(i + 6, 12);
        want.append(t);
        break;
    }
    }
    CHECK(want.same(out.data(), out.size()));
    symx_reach("encoded");
}
static void decide(const uint8_t *p, size_t n)
{
    std::string s((const char *)p, n), d;
    const Outcome o = js_base64(s, d);
    Buf b(64 + n);
    bool ok;
    const size_t step = symx_param("steps", 2) ? symx_choose(0, symx_param("steps", 2), "read") * symx_param("step", 1) : 0;
    pbk::Opt m{};
    text(b, "{\"by\":\"");
    b.bytes(p, n);
    text(b, "\" }");
    // step 1..steps: reads of that many bytes
    ok = json_read(m, b, step);
    symx_observe(ok);
    if (o == OK) CHECK(ok);
    if (o == BAD) CHECK(!ok);
    if (ok && o != BAD) CHECK(m.by && same(*m.by, (const uint8_t *)d.data(), d.size()));
    symx_reach(ok ? "accepted" : "rejected");
}
static void symbolic(uint8_t *p, size_t k)
{
    symx_make_symbolic(p, k, "text");
    for (size_t i = 0; i < k; ++i) symx_assume(p[i] != '"' && p[i] != '\\');
}
// every text
SYMX_TEST(decode)
{
    const size_t n = symx_choose(0, symx_param("max", 5), "size");
    uint8_t p[16];
    if (n) symbolic(p, n);
    decide(p, n);
}
// symbolic characters in a longer valid text
SYMX_TEST(window)
{
    const size_t groups = symx_choose(1, symx_param("groups", 3), "groups"), k = symx_param("sym", 2);
    uint8_t p[64];
    for (size_t i = 0; i < 4 * groups; ++i) p[i] = (uint8_t)"Zm9vYg+/"[i % 8];
    const size_t pad = symx_choose(0, 2, "padding"), cut = symx_choose(0, symx_param("cut", 3), "cut");
    for (size_t i = 0; i < pad; ++i) p[4 * groups - 1 - i] = '=';
    const size_t n = 4 * groups - cut;
    if (n < k) symx_stop();
    symbolic(p + symx_choose(0, n - k, "at"), k);
    decide(p, n);
}
// longer than the internal window of 256 bytes, reads of any one size
SYMX_TEST(large)
{
    const size_t n = symx_param("from", 244) + symx_choose(0, symx_param("span", 12), "size");
    uint8_t p[600];
    for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)"Zm9vYg+/"[i % 8];
    const size_t at = n - 1 - symx_choose(0, symx_param("back", 5), "at");
    symbolic(p + at, 1);
    decide(p, n);
}
// text and bytes are inverse of each other
SYMX_TEST(inverse)
{
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 6), "size");
    uint8_t p[16];
    if (n) symx_make_symbolic(p, n, "content");
    pbk::Opt m{}, r{};
    assign(m.by.emplace(), p, n);
    std::string out;
    CHECK(json_write(m, out));
    CHECK(spb::json::deserialize(r, out) == out.size());
    CHECK(r.by && same(*r.by, p, n));
    symx_reach("inverse");
}
