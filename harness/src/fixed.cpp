// P14: fixed-size containers accept exactly their own size.
#include <pba.pb.h>
#include "util.h"
using namespace ref;
using namespace util;

static const uint8_t FILL = 0x41;
template <typename S> static void fill(S &s) { for (auto &c : s) c = (std::remove_reference_t<decltype(c)>)FILL; }
template <typename T, size_t N> static bool untouched(const std::array<T, N> &s)
{
    bool r = true;
    for (const auto &c : s) r &= c == (T)FILL;
    return r;
}
#define PLAIN(X) X(qs, 2) X(qb, 5) X(b1, 7) X(b8, 8) X(i32, 16) X(u64, 17) X(s32, 18) X(s64, 19) X(f32, 21) X(f64, 22) X(fl, 23) X(db, 24) X(en, 25) X(n8, 26) X(u1, 27)
static void prepare(pba::Arr &m)
{
#define X(n, f) fill(m.n);
    PLAIN(X)
#undef X
    m.bo[0] = m.bo[1] = m.bo[2] = true;
}
// nothing but the field was changed
static bool others(const pba::Arr &m, uint32_t but)
{
    bool r = (but == 1 || !m.os) && (but == 3 || m.rs.empty()) && (but == 4 || !m.ob) && (but == 6 || m.rb.empty()) && (but == 14 || but == 15 || m.x.index() == 0);
    r &= but == 20 || (m.bo[0] && m.bo[1] && m.bo[2]);
#define X(n, f) r &= but == f || untouched(m.n);
    PLAIN(X)
#undef X
    return r;
}
#define OPT(m) [](auto &x) { return x.m ? &*x.m : nullptr; }
#define RAW(m) [](auto &x) { return &x.m; }
#define ELM(m) [](auto &x) { return x.m.size() == 1 ? &x.m[0] : nullptr; }
#define VAR(m, i) [](auto &x) { return std::get_if<i>(&x.m); }
#define BYTES(X) \
    X("os", 1, false, false, 3, OPT(os)) X("qs", 2, false, false, 9, RAW(qs)) X("rs", 3, false, true, 2, ELM(rs)) X("ob", 4, true, false, 3, OPT(ob)) X("qb", 5, true, false, 4, RAW(qb)) \
    X("rb", 6, true, true, 2, ELM(rb)) X("b1", 7, true, false, 1, RAW(b1)) X("b8", 8, true, false, 8, RAW(b8)) X("xs", 14, false, false, 2, VAR(x, 1)) X("xb", 15, true, false, 5, VAR(x, 2))

template <typename G> static void bytes_case(bool json, const char *name, uint32_t number, bool bin, bool arr, size_t N, G get)
{
    const size_t n = symx_choose(0, N + symx_param("over", 3), "size");
    uint8_t *p = new uint8_t[n + 1];
    memset(p, 'x', n);
    const size_t sym = bin ? (json ? 2 : 16) : symx_param("sym", 4), k = n < sym ? n : sym;
    bool fits = n == N;
    Buf b;
    // the symbolic part is at the start or at the end
    if (k)
    {
        uint8_t *at = symx_bool("front") ? p : p + n - k;
        symx_make_symbolic(at, k, "content");
        if (json && !bin) for (size_t i = 0; i < k; ++i) symx_assume(at[i] != '"' && at[i] != '\\' && at[i] >= 0x20);
    }
    if (!bin) fits = fits && utf8ref::valid(p, n);
    if (json)
    {
        b.byte('{');
        key(b, name);
        text(b, arr ? "[\"" : "\"");
        if (bin) base64(b, p, n);
        else b.bytes(p, n);
        text(b, arr ? "\"]}" : "\"}");
    }
    else
    {
        b.tag(number, 2);
        b.varint(n);
        b.bytes(p, n);
    }
    const size_t step = symx_choose(0, symx_param("reader", 0), "reader");
    pba::Arr m{};
    prepare(m);
    const bool read = json ? json_read(m, b, step) : util::pb_read(m, b, step);
    symx_observe(read);
    CHECK(read == fits);
    if (read)
    {
        auto *v = get(m);
        CHECK(v && same(*v, p, n));
    }
    CHECK(others(m, number));
    delete[] p;
    symx_reach(read ? "stored" : "rejected");
}
enum { base = __COUNTER__ };
#define X(...) case __COUNTER__ - base - 1: bytes_case(false, __VA_ARGS__); break;
SYMX_TEST(pb_bytes)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 9), "field")) { BYTES(X) default: symx_stop(); }
}
#undef X
enum { base2 = __COUNTER__ };
#define X(...) case __COUNTER__ - base2 - 1: bytes_case(true, __VA_ARGS__); break;
SYMX_TEST(json_bytes)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 9), "field")) { BYTES(X) default: symx_stop(); }
}
#undef X
template <typename G> static void text_case(const char *name, uint32_t number, bool bin, bool arr, size_t N, G get)
{
    if (bin) symx_stop();
    Buf b, d;
    b.byte('{');
    key(b, name);
    text(b, arr ? "[\"" : "\"");
    for (size_t k = symx_choose(0, N, "plain"); k; --k) { b.byte('x'); d.byte('x'); }
    json_piece(b, d, symx_choose(0, 7, "kind"));
    for (size_t k = symx_choose(0, 1, "more"); k; --k) { b.byte('y'); d.byte('y'); }
    text(b, arr ? "\"]}" : "\"}");
    pba::Arr m{};
    prepare(m);
    const bool read = json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
    symx_observe(read);
    CHECK(read == (d.n == N));
    if (read)
    {
        auto *v = get(m);
        CHECK(v && same(*v, d.b, d.n));
    }
    CHECK(others(m, number));
    symx_reach(read ? "stored" : "rejected");
}
enum { base3 = __COUNTER__ };
#define X(...) case __COUNTER__ - base3 - 1: text_case(__VA_ARGS__); break;
SYMX_TEST(texts)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 9), "field")) { BYTES(X) default: symx_stop(); }
}
#undef X
#define ELEMS(X) \
    X(i32, 16, I32, 2) X(u64, 17, U64, 2) X(s32, 18, S32, 2) X(s64, 19, S64, 3) X(bo, 20, BOO, 3) X(f32, 21, F32, 2) X(f64, 22, SF64, 2) X(fl, 23, FLT, 3) X(db, 24, DBL, 1) X(en, 25, ENU, 2) \
    X(n8, 26, U32, 3) X(u1, 27, U32, 1)
template <Kind K, typename A> static void pb_case(uint32_t number, pba::Arr &m, A &a)
{
    using E = typename A::value_type;
    const size_t N = a.size(), n = symx_choose(0, N + symx_param("over", 2), "count");
    const size_t cut = symx_choose(0, symx_param("cut", 1), "cut"), which = symx_choose(0, n ? n - 1 : 0, "symbolic element");
    Buf b, p;
    E v[8];
    for (size_t i = 0; i < n; ++i)
    {
        v[i] = E(1);
        if (i == which)
        {
            if constexpr (K == BOO) v[i] = symx_bool("e");
            else if constexpr (K == FLT || K == DBL) v[i] = from_bits<E>(symx_any<std::conditional_t<K == FLT, uint32_t, uint64_t>>("e"));
            else v[i] = symx_any<E>("e");
        }
        if constexpr (sizeof(E) == 1 && K == U32) p.varint(v[i]);
        else enc_payload<K, E>(p, v[i]);
    }
    // the last element may be cut or followed by a part of another one
    size_t size = p.n;
    bool whole  = true;
    if (cut)
    {
        if (wire(K) == 0) p.byte(0x80); // an unfinished varint
        else p.byte(7);
        size = p.n;
        whole = false;
    }
    b.tag(number, 2);
    b.varint(size);
    b.append(p);
    const bool read = util::pb_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
    symx_observe(read);
    CHECK(read == (whole && n == N));
    if (read) for (size_t i = 0; i < n; ++i)
    {
        if constexpr (K == FLT || K == DBL) CHECK(bits(a[i]) == bits(v[i]));
        else CHECK(a[i] == v[i]);
    }
    CHECK(others(m, number));
    symx_reach(read ? "stored" : "rejected");
}
enum { base4 = __COUNTER__ };
#define X(n, f, K, N) case __COUNTER__ - base4 - 1: pb_case<K>(f, m, m.n); break;
SYMX_TEST(pb_elems)
{
    pba::Arr m{};
    prepare(m);
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 11), "field")) { ELEMS(X) default: symx_stop(); }
}
#undef X
template <Kind K, typename A> static void json_case(const char *name, uint32_t number, pba::Arr &m, A &a)
{
    const size_t N = a.size(), n = symx_choose(0, N + symx_param("over", 2), "count");
    Buf b;
    const size_t which = symx_choose(0, n ? n - 1 : 0, "symbolic element");
    const bool quoted = symx_choose(0, symx_param("quoted", 0), "quoted");
    uint8_t v[8] = {};
    b.byte('{');
    key(b, name);
    b.byte('[');
    for (size_t i = 0; i < n; ++i)
    {
        if (i) text(b, i == which ? " , " : ",");
        if (K == BOO) { v[i] = symx_bool("e"); text(b, v[i] ? "true" : "false"); continue; }
        v[i] = 1;
        if (i == which && K != FLT && K != DBL)
        {
            v[i] = symx_any<uint8_t>("e");
            symx_assume(v[i] <= (K == ENU ? 1 : 9));
        }
        const bool q = K != ENU && quoted && i == which;
        if (q) b.byte('"');
        b.byte((uint8_t)('0' + v[i]));
        if (q) b.byte('"');
    }
    const size_t comma = symx_choose(0, 1, "trailing comma");
    text(b, comma ? ",]}" : "]}");
    const bool read = json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader"));
    symx_observe(read);
    CHECK(read == (!comma && n == N));
    using E = typename A::value_type;
    if (read && K != FLT && K != DBL) for (size_t i = 0; i < n; ++i) CHECK(a[i] == (E)v[i]);
    CHECK(others(m, number));
    symx_reach(read ? "stored" : "rejected");
}
enum { base5 = __COUNTER__ };
#define X(n, f, K, N) case __COUNTER__ - base5 - 1: json_case<K>(#n, f, m, m.n); break;
SYMX_TEST(json_elems)
{
    pba::Arr m{};
    prepare(m);
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", 11), "field")) { ELEMS(X) default: symx_stop(); }
}
#undef X
// containers larger than the internal window, in the middle of a message
SYMX_TEST(large)
{
    const bool json = symx_choose(0, 1, "json"), bin = symx_choose(0, 1, "bytes");
    const size_t around = symx_choose(0, 10, "size"), beyond[] = {330, 380, 381, 480};
    const size_t n = around < 7 ? 297 + around : beyond[around - 7];
    uint8_t p[480];
    memset(p, 'x', sizeof p);
    if (json) p[n - 1] = (uint8_t)(bin ? symx_any<uint8_t>("last") : 'y');
    Buf b(1024);
    if (json)
    {
        b.byte('{');
        key(b, bin ? "b" : "s");
        b.byte('"');
        if (bin) base64(b, p, n);
        else b.bytes(p, n);
        text(b, "\"}");
    }
    else
    {
        b.tag(bin ? 1 : 2, 2);
        b.varint(n);
        b.bytes(p, n);
    }
    pba::Large m{};
    const size_t steps[] = {0, 1, 1000};
    const size_t step    = steps[symx_choose(0, 2, "reader")];
    const bool read      = json ? json_read(m, b, step) : util::pb_read(m, b, step);
    CHECK(read == (n == 300));
    if (read && bin) CHECK(same(m.b, p, n));
    if (read && !bin) CHECK(same(m.s, p, n));
    bool zero = true;
    if (bin) for (char c : m.s) zero &= c == 0;
    else for (std::byte c : m.b) zero &= c == std::byte(0);
    CHECK(zero);
    symx_reach(read ? "stored" : "rejected");
}
// what is written is read back
SYMX_TEST(write)
{
    pba::Arr m{};
    switch (symx_choose(0, 9, "field"))
    {
    case 0: for (auto &c : m.os.emplace()) { c = (char)symx_any<uint8_t>("c"); symx_assume(c >= 0); } break;
    case 1: for (auto &c : m.ob.emplace()) c = (std::byte)symx_any<uint8_t>("c"); break;
    case 2: for (auto &c : m.rb.emplace_back()) c = (std::byte)symx_any<uint8_t>("c"); break;
    case 3: for (auto &c : m.x.emplace<1>()) { c = (char)symx_any<uint8_t>("c"); symx_assume(c >= 0); } break;
    case 4: m.x.emplace<2>()[4] = (std::byte)symx_any<uint8_t>("c"); break;
    case 5: m.i32[1] = symx_any<int8_t>("c"); break;
    case 6: for (auto &c : m.bo) c = symx_bool("c"); break;
    case 7: m.f64[1] = symx_any<int8_t>("c"); break;
    case 8: m.b1[0] = (std::byte)symx_any<uint8_t>("c"); break;
    case 9: m.n8[2] = symx_any<uint8_t>("c"); break;
    }
    for (size_t json = 0; json < 2; ++json)
    {
        std::string out;
        CHECK(json ? json_write(m, out) : pb_write(m, out));
        pba::Arr r{};
        prepare(r);
        Buf b(2048);
        b.bytes(out.data(), out.size());
        CHECK(json ? json_read(r, b) : util::pb_read(r, b));
        CHECK(r.os == m.os && r.ob == m.ob && r.rs == m.rs && r.rb == m.rb && r.x == m.x && r.bo == m.bo);
#define X(n, f) CHECK(r.n == m.n);
        PLAIN(X)
#undef X
    }
    symx_reach("roundtrip");
}
