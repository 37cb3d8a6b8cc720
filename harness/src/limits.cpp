// P12, P13: max_size and max_count are enforced exactly, on both sides, at every level.
#include <pbl.pb.h>
#include <pbf.pb.h>
#include "util.h"
using namespace ref;
using namespace util;
#if defined(P13)
constexpr bool JSON = true;
#else
constexpr bool JSON = false;
#endif

// message, number, name, bytes?, limit, how to set from container V, how to get a pointer to the value (null: absent)
#define OPT(m) [](auto &x) -> auto & { return x.m.emplace(); }, [](auto &x) { return x.m ? &*x.m : nullptr; }
#define RAW(m) [](auto &x) -> auto & { return x.m; }, [](auto &x) { return &x.m; }
#define ELM(m) [](auto &x) -> auto & { return x.m.emplace_back(); }, [](auto &x) { return x.m.size() == 1 ? &x.m[0] : nullptr; }
#define VAR(m, i) [](auto &x) -> auto & { return x.m.template emplace<i>(); }, [](auto &x) { return std::get_if<i>(&x.m); }

#define SIZES(X) \
    X(pbl::Field, 1, "os", false, 3, OPT(os)) X(pbl::Field, 2, "ob", true, 4, OPT(ob)) X(pbl::Field, 3, "qs", false, 3, RAW(qs)) X(pbl::Field, 4, "qb", true, 2, RAW(qb)) \
    X(pbl::Field, 5, "rs", false, 3, ELM(rs)) X(pbl::Field, 6, "rb", true, 2, ELM(rb)) X(pbl::Field, 14, "xs", false, 2, VAR(x, 1)) X(pbl::Field, 15, "xb", true, 3, VAR(x, 2)) \
    X(pbl::Field, 16, "xc", false, 4, VAR(x, 3)) X(pbl::Field, 17, "xf", false, 0, VAR(x, 4)) X(pbl::Field, 18, "cs", false, 2, OPT(cs)) X(pbl::Field, 19, "cb", true, 4, OPT(cb)) \
    X(pbl::Field, 21, "free_s", false, 0, OPT(free_s)) X(pbl::Field, 22, "free_b", true, 0, OPT(free_b)) \
    X(pbl::Whole, 1, "os", false, 3, OPT(os)) X(pbl::Whole, 2, "ob", true, 3, OPT(ob)) X(pbl::Whole, 3, "qs", false, 3, RAW(qs)) X(pbl::Whole, 4, "qb", true, 3, RAW(qb)) \
    X(pbl::Whole, 5, "rs", false, 3, ELM(rs)) X(pbl::Whole, 6, "rb", true, 3, ELM(rb)) X(pbl::Whole, 14, "xs", false, 3, VAR(x, 1)) X(pbl::Whole, 15, "xb", true, 3, VAR(x, 2)) \
    X(pbl::Whole, 16, "xo", false, 1, VAR(x, 3)) X(pbl::Whole, 18, "ls", false, 5, OPT(ls)) X(pbl::Whole, 19, "lb", true, 1, OPT(lb)) \
    X(pbl::Comment, 1, "os", false, 2, OPT(os)) X(pbl::Comment, 2, "ob", true, 2, OPT(ob)) X(pbl::Comment, 5, "rs", false, 2, ELM(rs)) X(pbl::Comment, 18, "ls", false, 4, OPT(ls)) \
    X(pbf::Plain, 1, "os", false, 3, OPT(os)) X(pbf::Plain, 2, "ob", true, 3, OPT(ob)) X(pbf::Plain, 3, "qs", false, 3, OPT(qs)) X(pbf::Plain, 5, "rs", false, 3, ELM(rs)) \
    X(pbf::Plain, 6, "rb", true, 3, ELM(rb)) X(pbf::Plain, 14, "xs", false, 3, VAR(x, 1)) X(pbf::Plain, 15, "xb", true, 3, VAR(x, 2)) X(pbf::Plain, 16, "xo", false, 1, VAR(x, 3)) \
    X(pbf::Plain, 18, "ls", false, 5, OPT(ls)) X(pbf::Msg, 1, "os", false, 2, OPT(os)) X(pbf::Msg, 2, "ob", true, 2, OPT(ob)) X(pbf::Msg, 5, "rs", false, 2, ELM(rs)) \
    X(pbf::Msg, 18, "ls", false, 4, OPT(ls)) X(pbf::Small, 1, "os", false, 1, OPT(os))

// message, number, name, member, kind, packed, limit
#define COUNTS(X) \
    X(pbl::Field, 5, rs, STR, false, 2) X(pbl::Field, 6, rb, BYT, false, 2) X(pbl::Field, 7, ri, I32, false, 2) X(pbl::Field, 8, rp, S64, true, 2) X(pbl::Field, 9, rf, F32, true, 3) \
    X(pbl::Field, 10, ro, BOO, false, 1) X(pbl::Field, 11, rq, BOO, true, 2) X(pbl::Field, 12, re, ENU, true, 2) X(pbl::Field, 13, rm, MSG, false, 2) X(pbl::Field, 20, ci, U32, false, 2) \
    X(pbl::Field, 23, free_i, I32, false, 0) X(pbl::Field, 24, rd, DBL, true, 2) X(pbl::Field, 25, rl, FLT, false, 2) \
    X(pbl::Whole, 5, rs, STR, false, 2) X(pbl::Whole, 6, rb, BYT, false, 2) X(pbl::Whole, 7, ri, I32, false, 2) X(pbl::Whole, 8, rp, S64, true, 2) X(pbl::Whole, 13, rm, MSG, false, 2) \
    X(pbl::Whole, 20, lc, U32, false, 1) X(pbl::Comment, 5, rs, STR, false, 1) X(pbl::Comment, 9, rf, F32, true, 1) \
    X(pbf::Plain, 5, rs, STR, false, 2) X(pbf::Plain, 6, rb, BYT, false, 2) X(pbf::Plain, 7, ri, I32, true, 2) X(pbf::Plain, 8, rp, S64, false, 2) X(pbf::Plain, 20, lc, U32, true, 1) \
    X(pbf::Msg, 5, rs, STR, false, 1) X(pbf::Msg, 9, rf, F32, true, 1) X(pbf::Msg, 20, lc, U32, true, 2) X(pbf::Small, 7, ri, I32, true, 2)

namespace ref
{
template <> bool eq_message<pbl::Sub>(const pbl::Sub &a, const pbl::Sub &b) { return a.v == b.v && a.s == b.s; }
template <> void enc_message<pbl::Sub>(Buf &o, const pbl::Sub &m)
{
    if (m.v) enc_field<I32>(o, 1, *m.v);
    if (m.s) enc_field<STR>(o, 2, *m.s);
}
template <> void any_message<pbl::Sub>(pbl::Sub &m, const char *name)
{
    if (symx_bool(name)) m.v = 5;
    if (symx_bool(name)) m.s = "text that is longer than the limits";
}
} // namespace ref

template <typename M, typename S, typename G>
static void size_case(const char *name, uint32_t number, bool bin, size_t limit, S set, G get, size_t from, size_t to, size_t symbolic)
{
    const size_t n = from + symx_choose(0, to - from, "size");
    const bool fits = limit == 0 || n <= limit;
    uint8_t *p = new uint8_t[n + 1];
    memset(p, 'x', n);
    if (n) content(p + n - (n < symbolic ? n : symbolic), n < symbolic ? n : symbolic, !bin, "content");
    // writing
    M m{};
    assign(set(m), p, n);
    std::string out;
    const bool wrote = JSON ? json_write(m, out) : pb_write(m, out);
    symx_observe(wrote);
    CHECK(wrote == fits);
    // reading
    Buf b(64 + 2 * n);
    if (!JSON)
    {
        b.tag(number, 2);
        b.varint(n);
        b.bytes(p, n);
    }
    else if (bin)
    {
        b.byte('{');
        key(b, name);
        const bool arr = number == 6;
        text(b, arr ? "[\"" : "\"");
        base64(b, p, n);
        text(b, arr ? "\"]}" : "\"}");
    }
    if (!JSON || bin)
    {
        const size_t step = symx_choose(0, symx_param("reader", 0), "reader");
        M r{};
        const bool read = JSON ? json_read(r, b, step) : util::pb_read(r, b, step);
        symx_observe(read);
        CHECK(read == fits);
        if (read)
        {
            auto *v = get(r);
            CHECK(v && same(*v, p, n));
        }
    }
    delete[] p;
    symx_reach(fits ? "fits" : "exceeds");
}
// the text of a JSON string: plain characters followed by up to two pieces of any kind
template <typename M, typename G> static void text_case(const char *name, uint32_t number, size_t limit, G get)
{
    Buf b, d;
    b.byte('{');
    key(b, name);
    const bool arr = number == 5;
    text(b, arr ? "[\"" : "\"");
    for (size_t k = symx_choose(0, limit ? limit : 2, "plain"); k; --k) { b.byte('x'); d.byte('x'); }
    const size_t kinds = 7;
    for (size_t k = symx_choose(0, symx_param("pieces", 1), "pieces"); k; --k) json_piece(b, d, symx_choose(0, kinds, "kind"));
    if (symx_bool("more")) { b.byte('y'); d.byte('y'); }
    text(b, arr ? "\"]}" : "\"}");
    const bool fits = limit == 0 || d.n <= limit;
    M r{};
    const bool read = json_read(r, b, symx_choose(0, symx_param("reader", 0), "reader"));
    symx_observe(read);
    CHECK(read == fits);
    if (read)
    {
        auto *v = get(r);
        CHECK(v && same(*v, d.b, d.n));
    }
    symx_reach(fits ? "fits" : "exceeds");
}
enum { base = __COUNTER__ };
#define X(M, f, name, bin, lim, ...) case __COUNTER__ - base - 1: size_case<M>(name, f, bin, lim, __VA_ARGS__, 0, (lim ? lim : 5) + symx_param("over", 1), symx_param("sym", 8)); break;
SYMX_TEST(sizes)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 42), "field")) { SIZES(X) default: symx_stop(); }
}
#undef X
enum { base2 = __COUNTER__ };
template <typename M, typename S, typename G> static void text_row(const char *name, uint32_t number, bool bin, size_t limit, S, G get)
{
    if (bin) symx_stop();
    text_case<M>(name, number, limit, get);
}
#define X(M, f, name, bin, lim, ...) case __COUNTER__ - base2 - 1: text_row<M>(name, f, bin, lim, __VA_ARGS__); break;
SYMX_TEST(texts)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 42), "field")) { SIZES(X) default: symx_stop(); }
}
#undef X
SYMX_TEST(large)
{
    const size_t from = symx_param("from", 298), to = symx_param("to", 302);
    if (symx_choose(0, 1, "bytes")) size_case<pbl::Large>("b", 2, true, 300, OPT(b), from, to, 2);
    else size_case<pbl::Large>("s", 1, false, 300, OPT(s), from, to, 2);
}
// ---- counts ----------------------------------------------------------------------------------
template <Kind K> static void json_value(Buf &b, size_t i)
{
    if (K == STR) text(b, "\"s\"");
    else if (K == BYT) text(b, "\"QQ==\"");
    else if (K == BOO) text(b, i & 1 ? "true" : "false");
    else if (K == ENU) text(b, i & 1 ? "\"ONE\"" : "0");
    else if (K == MSG) text(b, i & 1 ? "{}" : "{\"s\":\"longer than the limits\"}");
    else { b.byte((uint8_t)('1' + i)); }
}
template <Kind K, typename M, typename C> static void count_case(const char *name, uint32_t number, bool packed, size_t limit, C member)
{
    using V = std::remove_cvref_t<decltype(member(std::declval<M &>())[0])>;
    using E = std::conditional_t<K == BOO, bool, V>;
    const size_t n  = symx_choose(0, (limit ? limit : 4) + symx_param("over", 2), "count");
    const bool fits = limit == 0 || n <= limit;
    lim.str = lim.byt = 1;
    lim.declared      = true;
    M m{};
    auto &c = member(m);
    std::vector<E> v;
    const size_t which = JSON ? 0 : symx_choose(0, n ? n - 1 : 0, "symbolic element");
    for (size_t i = 0; i < n; ++i)
    {
        E e{};
        if constexpr (K != STR && K != BYT && K != MSG && K != BOO) e = (E)1;
        if (i != which) {}
        else if constexpr (K == ENU) e = symx_bool("e") ? E(1) : E(0);
        else if constexpr (JSON && K != STR && K != BYT && K != MSG && K != BOO) {}
        else any_value<K>(e, "e");
        c.push_back(e);
        v.push_back(e);
    }
    std::string out;
    const bool wrote = JSON ? json_write(m, out) : pb_write(m, out);
    symx_observe(wrote);
    CHECK(wrote == fits);
    if (JSON)
    {
        Buf b;
        b.byte('{');
        key(b, name);
        b.byte('[');
        for (size_t i = 0; i < n; ++i)
        {
            if (i) b.byte(',');
            json_value<K>(b, i);
        }
        text(b, "]}");
        M r{};
        const bool read = json_read(r, b, symx_choose(0, symx_param("reader", 0), "reader"));
        symx_observe(read);
        CHECK(read == fits);
        if (read) CHECK(member(r).size() == n);
    }
    else
    {
        // any division of the elements into runs, packed or not
        Buf b;
        for (size_t i = 0; i < n;)
        {
            if (wire(K) == 2 || !symx_bool("packed")) { enc_field<K, E>(b, number, v[i++]); continue; }
            const size_t k = symx_choose(1, n - i, "run");
            Buf p;
            for (size_t j = 0; j < k; ++j) enc_payload<K, E>(p, v[i++]);
            b.tag(number, 2);
            b.varint(p.n);
            b.append(p);
        }
        M r{};
        const bool read = util::pb_read(r, b, symx_choose(0, symx_param("reader", 0), "reader"));
        symx_observe(read);
        CHECK(read == fits);
        if (read)
        {
            CHECK(member(r).size() == n);
            for (size_t i = 0; i < n; ++i) { const E e = member(r)[i]; CHECK((eq<K, E>(e, v[i]))); }
        }
    }
    (void)packed;
    symx_reach(fits ? "fits" : "exceeds");
}
enum { base3 = __COUNTER__ };
#define X(M, f, m, K, packed, lim) case __COUNTER__ - base3 - 1: count_case<K, M>(#m, f, packed, lim, [](auto &x) -> auto & { return x.m; }); break;
SYMX_TEST(counts)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 29), "field")) { COUNTS(X) default: symx_stop(); }
}
