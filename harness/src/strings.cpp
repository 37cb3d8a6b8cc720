// P15: a string is accepted, on writing and on reading, exactly when it is well-formed UTF-8.
#include "pbtab.h"
#include "util.h"
using namespace ref;
using namespace util;

// where a string can be: the bytes before it on the wire, the text around it, and the member
struct Site
{
    const char *before, *after;
};
template <typename M, typename P, typename S, typename G>
static void site(P pb, const char *before, const char *after, S set, G get)
{
    const size_t pre = symx_choose(symx_param("prelo", 0), symx_param("pre", 9), "plain before"), n = symx_choose(symx_param("min", 1), symx_param("max", 3), "bytes");
    const size_t post = symx_choose(0, symx_param("post", 1), "plain after");
    const size_t size = pre + n + post;
    uint8_t *p = new uint8_t[size + 1];
    memset(p, 'x', size);
    if (n) symx_make_symbolic(p + pre, n, "content");
    const bool valid = utf8ref::valid(p, size);
    const size_t way = symx_choose(0, 3, "way");
    bool ok;
    if (way < 2)
    {
        M m{};
        std::string s;
        assign(s, p, size);
        set(m, s);
        std::string out;
        ok = way == 0 ? pb_write(m, out) : json_write(m, out);
    }
    else
    {
        Buf b;
        M m{};
        if (way == 2)
        {
            Buf t;
            t.bytes(p, size);
            pb(b, t);
            ok = util::pb_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
        }
        else
        {
            for (size_t i = 0; i < n; ++i) symx_assume(p[pre + i] != '"' && p[pre + i] != '\\' && p[pre + i] >= 0x20);
            text(b, before);
            b.bytes(p, size);
            text(b, after);
            ok = json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
        }
        if (ok) CHECK(get(m, p, size));
    }
    symx_observe(ok);
    CHECK(ok == valid);
    delete[] p;
    symx_reach(ok ? "accepted" : "rejected");
}
static void field(Buf &b, uint32_t number, const Buf &t) { b.tag(number, 2); b.varint(t.n); b.append(t); }
SYMX_TEST(strings)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 6), "site"))
    {
    case 0:
        site<pbk::Opt>([](Buf &b, Buf &t) { field(b, 5, t); }, "{\"st\":\"", "\"}", [](pbk::Opt &m, auto &s) { m.st = s; }, [](pbk::Opt &m, auto *p, size_t n) { return m.st && same(*m.st, p, n); });
        break;
    case 1:
        site<pbk::Rep>([](Buf &b, Buf &t) { field(b, 5, t); }, "{\"st\":[\"", "\"]}", [](pbk::Rep &m, auto &s) { m.st.push_back(s); }, [](pbk::Rep &m, auto *p, size_t n) { return m.st.size() == 1 && same(m.st[0], p, n); });
        break;
    case 2:
        site<pbk::Req>([](Buf &b, Buf &t) { field(b, 2, t); }, "{\"s\":\"", "\"}", [](pbk::Req &m, auto &s) { m.s = s; m.e = pbk::E(0); }, [](pbk::Req &m, auto *p, size_t n) { return same(m.s, p, n); });
        break;
    case 3:
        site<pbk::One>([](Buf &b, Buf &t) { field(b, 2, t); }, "{\"xs\":\"", "\"}", [](pbk::One &m, auto &s) { m.x.emplace<2>(s); }, [](pbk::One &m, auto *p, size_t n) { return m.x.index() == 2 && same(std::get<2>(m.x), p, n); });
        break;
    case 4:
        site<pbk::Maps>([](Buf &b, Buf &t) { Buf e; field(e, 1, t); e.tag(2, 2); e.varint(0); field(b, 2048, e); }, "{\"l\":{\"", "\":{}}}", [](pbk::Maps &m, auto &s) { m.l[s]; },
                        [](pbk::Maps &m, auto *p, size_t n) { return m.l.size() == 1 && same(m.l.begin()->first, p, n); });
        break;
    case 5:
        site<pbk::Maps>([](Buf &b, Buf &t) { Buf e; e.tag(1, 0); e.varint(1); field(e, 2, t); field(b, 5, e); }, "{\"e\":{\"1\":\"", "\"}}", [](pbk::Maps &m, auto &s) { m.e[1] = s; },
                        [](pbk::Maps &m, auto *p, size_t n) { return m.e.size() == 1 && same(m.e.begin()->second, p, n); });
        break;
    case 6:
        site<pbk::Opt>([](Buf &b, Buf &t) { Buf e; field(e, 2, t); field(b, 8, e); }, "{\"ms\":{\"s\":\"", "\"}}", [](pbk::Opt &m, auto &s) { m.ms.emplace().s = s; },
                       [](pbk::Opt &m, auto *p, size_t n) { return m.ms && m.ms->s && same(*m.ms->s, p, n); });
        break;
    }
}
// a string after another one, and a nested message around it: validation covers exactly the field
SYMX_TEST(split)
{
    const size_t n = symx_choose(2, symx_param("max", 4), "bytes"), at = symx_choose(1, n - 1, "split");
    uint8_t p[8];
    symx_make_symbolic(p, n, "content");
    const bool valid = utf8ref::valid(p, at) && utf8ref::valid(p + at, n - at);
    Buf b;
    pbk::Rep m{};
    const bool json = symx_choose(0, 1, "json");
    if (json)
    {
        for (size_t i = 0; i < n; ++i) symx_assume(p[i] != '"' && p[i] != '\\' && p[i] >= 0x20);
        text(b, "{\"st\":[\"");
        b.bytes(p, at);
        text(b, "\",\"");
        b.bytes(p + at, n - at);
        text(b, "\"]}");
    }
    else
    {
        b.tag(5, 2);
        b.varint(at);
        b.bytes(p, at);
        b.tag(5, 2);
        b.varint(n - at);
        b.bytes(p + at, n - at);
    }
    const bool ok = json ? json_read(m, b) : util::pb_read(m, b);
    symx_observe(ok);
    CHECK(ok == valid);
    symx_reach(ok ? "accepted" : "rejected");
}
