// P29: an exception thrown by any call of a reader or writer reaches the caller
// unchanged, no further call is made, nothing is leaked.
#include "pbtab.h"
#include "util.h"
#include <functional>
#include <new>
using namespace ref;

// what is thrown: kinds that a careless catch clause would treat differently
struct Custom { uint32_t id; };
struct Derived : std::runtime_error { uint32_t id; explicit Derived(uint32_t i) : std::runtime_error("derived"), id(i) {} };
struct Final final : Derived { using Derived::Derived; };
enum class Code : uint32_t {};
struct Fault
{
    size_t kind = 0;
    uint32_t id = 0;
    bool thrown = false, after = false;
    size_t calls = 0, maxcalls = 0;
    // called by the reader and writer: throw now?
    void maybe()
    {
        ++calls;
        if (thrown) { after = true; return; }
        if (calls <= maxcalls && symx_choose(0, 1, "throw"))
        {
            thrown = true;
            switch (kind)
            {
            case 0: throw Custom{id};
            case 1: throw (int)id;
            case 2: throw Derived(id);
            case 3: throw Final(id);
            case 4: throw std::invalid_argument("mine");
            case 5: throw Code(id);
            }
        }
    }
};
template <typename F> static bool call(Fault &x, F f, bool &mine)
{
    mine = false;
    try { f(); return true; }
    catch (const Custom &e) { mine = x.kind == 0 && e.id == x.id; }
    catch (int e) { mine = x.kind == 1 && e == (int)x.id; }
    catch (const Final &e) { mine = x.kind == 3 && e.id == x.id; }
    catch (const Derived &e) { mine = x.kind == 2 && e.id == x.id; }
    catch (const std::invalid_argument &e) { mine = x.kind == 4 && strcmp(e.what(), "mine") == 0; }
    catch (Code e) { mine = x.kind == 5 && e == Code(x.id); }
    catch (const std::exception &) { }
    return false;
}
static void judge(const Fault &x, bool ok, bool mine)
{
    CHECK(!x.after);
    if (x.thrown) { CHECK(!ok); CHECK(mine); symx_reach("propagated"); }
    else { CHECK(!mine); symx_reach("untouched"); }
    symx_observe(x.calls);
    symx_observe(ok);
}
static void setup(Fault &x)
{
    x.kind     = symx_choose(symx_param("klo", 0), symx_param("khi", 1), "kind");
    x.id       = symx_any<uint32_t>("id");
    x.maxcalls = symx_param("calls", 400);
}
struct Source
{
    Fault &x;
    const uint8_t *p;
    size_t n, step, pos;
};
struct FReader
{
    Source &s;
    size_t operator()(void *dst, size_t want) const
    {
        s.x.maybe();
        size_t k = s.n - s.pos;
        if (k > want) k = want;
        if (s.step && k > s.step) k = s.step;
        memcpy(dst, s.p + s.pos, k);
        s.pos += k;
        return k;
    }
};
struct Sink { Fault &x; size_t n; };
struct FWriter
{
    Sink &s;
    void operator()(const void *, size_t n) const { s.x.maybe(); s.n += n; }
};
template <typename M> static void read_any(const uint8_t *p, size_t n, size_t format, size_t step)
{
    Fault x;
    setup(x);
    const uint64_t before = symx_live_count();
    bool ok, mine;
    {
        M m{};
        Source src{x, p, n, step, 0};
        FReader rd{src};
        const size_t how = symx_choose(0, symx_param("how", 0), "how");
        std::function<size_t(void *, size_t)> fn = rd;
        ok = call(x, [&] {
            if (format == 0)
            {
                if (how == 0) (void)spb::pb::deserialize(m, rd);
                else (void)spb::pb::deserialize(m, fn);
            }
            else if (format == 1) (void)spb::pb::deserialize(m, rd, {.delimited = true});
            else
            {
                if (how == 0) (void)spb::json::deserialize(m, rd);
                else (void)spb::json::deserialize(m, fn);
            }
        }, mine);
    }
    CHECK(symx_live_count() == before);
    judge(x, ok, mine);
}
template <typename M> static void write_any(const M &m, size_t format)
{
    Fault x;
    setup(x);
    const uint64_t before = symx_live_count();
    bool ok, mine;
    {
        Sink sink{x, 0};
        FWriter wr{sink};
        const size_t how = symx_choose(0, symx_param("how", 0), "how");
        std::function<void(const void *, size_t)> fn = wr;
        ok = call(x, [&] {
            if (format == 0)
            {
                if (how == 0) (void)spb::pb::serialize(m, wr);
                else (void)spb::pb::serialize(m, fn);
            }
            else if (format == 1) (void)spb::pb::serialize(m, wr, {.delimited = true});
            else
            {
                if (how == 0) (void)spb::json::serialize(m, wr);
                else (void)spb::json::serialize(m, fn);
            }
        }, mine);
    }
    CHECK(symx_live_count() == before);
    judge(x, ok, mine);
}

#ifdef RW_READ
template <typename M> static void decide(const M &m)
{
    const size_t format = symx_choose(symx_param("flo", 0), symx_param("fhi", 2), "format");
    std::string s;
    try
    {
        if (format == 0) s = spb::pb::serialize(m);
        else if (format == 1) s = spb::pb::serialize(m, {.delimited = true});
        else s = spb::json::serialize(m);
    }
    catch (const std::exception &) { return; } // an undeclared enum value
    size_t n = s.size();
    // complete, or cut off
    if (n && symx_param("cut", 1) && symx_choose(0, 1, "cut")) n -= 1 + (n > 2 ? symx_choose(0, 1, "off") : 0);
    read_any<M>((const uint8_t *)s.data(), n, format, symx_choose(symx_param("slo", 0), symx_param("shi", 1), "step"));
}
#else
template <typename M> static void decide(const M &m) { write_any(m, symx_choose(symx_param("flo", 0), symx_param("fhi", 2), "format")); }
#endif
#include "cases.h"

#ifdef RW_READ
// unknown fields and every kind of JSON value are skipped through the reader as well
SYMX_TEST(skipped)
{
    static const char *const docs[] = {
        "{\"zz\":[1,{\"a\":null},\"x\\n\",true],\"b\":\"AA==\",\"i32\":1}", "{\"zz\":{\"y\":[[]]},\"st\":\"\\u00e9\"}",
        " { \"zz\" : -1.5e3 , \"en\" : \"A\" } ", "{\"zz\":\"\\\"\",\"ms\":{\"q\":false}}", "{\"i32\":\"12\",\"zz\":12345678901234567890}",
        "{\"db\":1.25,\"zz\":null,\"bo\":false}", "[]", "{\"i32\":x}", "{\"by\":\"AAA\"}",
    };
    const size_t k = symx_choose(0, 12, "doc");
    if (k < 9) { read_any<pbk::Opt>((const uint8_t *)docs[k], strlen(docs[k]), 2, symx_choose(0, 1, "step")); return; }
    Buf b;
    const uint32_t fn = 3000 + (uint32_t)symx_choose(0, 1, "far") * 100000;
    static const uint8_t wt[] = {0, 1, 2, 5};
    b.tag(fn, wt[k - 9]);
    switch (k - 9)
    {
    case 0: b.varint(symx_any<uint64_t>("v")); break;
    case 1: b.le(symx_any<uint64_t>("v"), 8); break;
    case 2: { const size_t n = symx_choose(0, 1, "n") ? 300 : 3; b.varint(n); for (size_t i = 0; i < n; ++i) b.byte('x'); break; }
    case 3: b.le(symx_any<uint32_t>("v"), 4); break;
    }
    b.tag(4, 0);
    b.byte(3);
    read_any<pbk::Opt>(b.b, b.n, 0, symx_choose(0, 1, "step"));
}
// contents longer than the internal window: a fault at the refill
SYMX_TEST(window)
{
    const size_t format = symx_choose(0, 2, "format"), field = symx_choose(0, 1, "bytes");
    const size_t n = 250 + symx_choose(0, 1, "big") * 300;
    pbk::Opt m{};
    if (field) { m.by.emplace(n, std::byte{7}); } else m.st.emplace(n, 'x');
    std::string s = format == 2 ? spb::json::serialize(m) : spb::pb::serialize(m, {.delimited = format == 1});
    static const size_t steps[] = {0, 64, 100, 255};
    read_any<pbk::Opt>((const uint8_t *)s.data(), s.size(), format, steps[symx_choose(0, 3, "step")]);
}
SYMX_TEST(raw)
{
    const size_t n = symx_choose(0, symx_param("max", 2), "n");
    uint8_t b[8];
    if (n) symx_make_symbolic(b, n, "bytes");
    const size_t format = symx_choose(0, 2, "format"), step = symx_choose(0, 1, "step");
    switch (symx_choose(0, 2, "type"))
    {
    case 0: read_any<pbk::Opt>(b, n, format, step); break;
    case 1: read_any<pbk::Maps>(b, n, format, step); break;
    case 2: read_any<pbk::Pack>(b, n, format, step); break;
    }
}
#else
SYMX_TEST(window)
{
    const size_t n = 250 + symx_choose(0, 1, "big") * 300;
    pbk::Opt m{};
    if (symx_choose(0, 1, "bytes")) { m.by.emplace(n, std::byte{7}); } else m.st.emplace(n, '\n');
    write_any(m, symx_choose(0, 2, "format"));
}
#endif
