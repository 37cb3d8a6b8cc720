// P04 well-formed input decodes to its value, P06 malformed input is rejected,
// P08 packed and unpacked elements, against the reference decoder.
#include "pbtab.h"
#include <stdexcept>
using namespace ref;

// outcome of the library and of the reference for the same bytes
template <typename M> static void decide(const uint8_t *p, size_t n)
{
    M want{};
    const Outcome o = decode(p, n, want);
#if defined(P04)
    if (o != OK || seen_other_form) return;
#elif defined(P06)
    if (o != BAD) return;
#elif defined(P08)
    if (o == OPEN || (o == OK && !seen_other_form)) return;
#endif
    // the input ends where its allocation ends
    uint8_t *in = new uint8_t[n];
    memcpy(in, p, n);
    M got{};
    bool ok     = true;
    size_t used = 0;
    try { used = spb::pb::deserialize(got, in, n); }
    catch (const std::exception &) { ok = false; }
    delete[] in;
    symx_observe(ok);
    if (o == BAD) { CHECK(!ok); symx_reach("rejected"); return; }
    CHECK(ok);
    CHECK(used == n);
    CHECK(eq_message(want, got));
    symx_reach("accepted");
}
template <typename F> static void with_type(size_t t, F f)
{
    switch (t)
    {
    case 0: f.template operator()<pbk::Sub>(); break;
    case 1: f.template operator()<pbk::Opt>(); break;
    case 2: f.template operator()<pbk::Rep>(); break;
    case 3: f.template operator()<pbk::Pack>(); break;
    case 4: f.template operator()<pbk::Maps>(); break;
    case 5: f.template operator()<pbk::One>(); break;
    case 6: f.template operator()<pbk::Req>(); break;
    case 7: f.template operator()<pbk::Rec>(); break;
    case 8: f.template operator()<pbk::Holder>(); break;
    }
}
// every byte string
SYMX_TEST(raw)
{
    const size_t t = symx_choose(symx_param("tlo", 0), symx_param("thi", 8), "type");
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 4), "n");
    uint8_t *b = new uint8_t[n];
    if (n) symx_make_symbolic(b, n, "bytes");
    with_type(t, [&]<typename M>() { decide<M>(b, n); });
    delete[] b;
}
// ---- sequences of fields -------------------------------------------------------------------
// a varint of len bytes holding a symbolic value (not minimal in general)
static bool concrete; // fixed contents, the structure alone is explored
static void any_varint(Buf &b, size_t len, const char *name)
{
    uint8_t v[10] = {0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00};
    if (!concrete) symx_make_symbolic(v, len, name);
    for (size_t i = 0; i + 1 < len; ++i) b.byte(v[i] | 0x80);
    if (len == 10) symx_assume((v[9] & 0x7f) <= 1);
    b.byte(v[len - 1] & 0x7f);
}
static void any_bytes(Buf &b, size_t n, const char *name)
{
    uint8_t v[16] = {0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48};
    if (n && !concrete) symx_make_symbolic(v, n, name);
    b.bytes(v, n);
}
// the payload of a field of the kind, content symbolic
static size_t vlen()
{
    static const uint8_t all[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, some[] = {1, 2, 5, 10}, few[] = {1, 10};
    switch (symx_param("vlens", 1))
    {
    case 0: return few[symx_choose(0, 1, "len")];
    case 1: return some[symx_choose(0, 3, "len")];
    default: return all[symx_choose(0, 9, "len")];
    }
}
static void length_of(Buf &b, size_t n)
{
    // the length itself may be written with more bytes than needed
    const size_t l = symx_param("longlen", 0) ? symx_choose(1, 3, "lenlen") : 1;
    b.varint_len(n, l);
}
template <typename M> static void any_record(Buf &b, size_t depth);
template <Kind K, typename T> static void any_payload(Buf &b, size_t depth)
{
    if constexpr (wire(K) == 0) any_varint(b, K == BOO ? (symx_bool("longbool") ? 2 : 1) : vlen(), "varint");
    else if constexpr (wire(K) == 1) any_bytes(b, 8, "fixed64");
    else if constexpr (wire(K) == 5) any_bytes(b, 4, "fixed32");
    else if constexpr (K != MSG)
    {
        const size_t n = symx_choose(0, symx_param("str", 1), "size");
        length_of(b, n);
        any_bytes(b, n, "content");
    }
    else
    {
        Buf t;
        if (depth) for (size_t n = symx_choose(0, symx_param("inner", 1), "records"); n; --n) any_record<T>(t, depth - 1);
        length_of(b, t.n);
        b.append(t);
    }
}
struct Rec_
{
    Buf &b;
    size_t pos, depth;
    size_t i = 0;
    bool is() { return i++ == pos; }
    template <Kind K, typename T> void one_of(uint32_t f) { b.tag(f, wire(K)); any_payload<K, T>(b, depth); }
    template <Kind K, typename T> void opt(uint32_t f, std::optional<T> &, const char * = "") { if (is()) one_of<K, T>(f); }
    template <Kind K, typename T> void plain(uint32_t f, T &, const char * = "") { if (is()) one_of<K, T>(f); }
    template <Kind K, typename V> void rep(uint32_t f, V &, bool declared_packed, const char * = "")
    {
        if (!is()) return;
        if constexpr (wire(K) != 2)
        {
            // the form is free for P08, the declared one otherwise
#if defined(P08)
            const bool packed = symx_bool("packed");
#else
            const bool packed = declared_packed;
#endif
            if (packed)
            {
                Buf t;
                for (size_t n = symx_choose(0, symx_param("elems", 1), "elements"); n; --n) any_payload<K, typename V::value_type>(t, depth);
                b.tag(f, 2);
                length_of(b, t.n);
                b.append(t);
                return;
            }
        }
        one_of<K, typename V::value_type>(f);
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t f, M &, const char * = "")
    {
        if (!is()) return;
        Buf t;
        // key and value in either order, missing or repeated
        for (size_t n = symx_choose(0, symx_param("parts", 2), "parts"); n; --n)
        {
            if (symx_bool("key")) { t.tag(1, wire(KK)); any_payload<KK, typename M::key_type>(t, 0); }
            else { t.tag(2, wire(VK)); any_payload<VK, typename M::mapped_type>(t, 0); }
        }
        b.tag(f, 2);
        length_of(b, t.n);
        b.append(t);
    }
    template <typename M> void ptr(uint32_t f, std::unique_ptr<M> &, const char * = "") { if (is()) one_of<MSG, M>(f); }
    template <Kind K, size_t I, typename V> void one(uint32_t f, V &, const char * = "") { if (is()) one_of<K, std::variant_alternative_t<I, V>>(f); }
};
template <typename M> static void any_record(Buf &b, size_t depth)
{
    const size_t n = field_count<M>();
    if (n == 0) return;
    M m{};
    fields(m, Rec_{b, symx_choose(0, n - 1, "field"), depth});
}
template <typename M> static void sequence()
{
    Buf b(256);
#if defined(P06)
    // either cut with symbolic contents, or fixed contents with one or two bytes replaced
    concrete = !symx_bool("cut");
#endif
    for (size_t n = symx_choose(symx_param("rmin", 1), symx_param("rmax", 2), "records"); n; --n) any_record<M>(b, symx_param("depth", 1));
#if defined(P06)
    if (b.n == 0) return;
    const size_t at = symx_choose(0, b.n - 1, "at");
    if (!concrete) { decide<M>(b.b, at); return; }
    b.b[at] = symx_any<uint8_t>("byte");
    if (symx_param("two", 0) && at + 1 < b.n) b.b[at + 1] = symx_any<uint8_t>("byte");
#endif
    decide<M>(b.b, b.n);
}
SYMX_TEST(seq_sub) { sequence<pbk::Sub>(); }
SYMX_TEST(seq_opt) { sequence<pbk::Opt>(); }
SYMX_TEST(seq_rep) { sequence<pbk::Rep>(); }
SYMX_TEST(seq_pack) { sequence<pbk::Pack>(); }
SYMX_TEST(seq_maps) { sequence<pbk::Maps>(); }
SYMX_TEST(seq_one) { sequence<pbk::One>(); }
SYMX_TEST(seq_req) { sequence<pbk::Req>(); }
SYMX_TEST(seq_rec) { sequence<pbk::Rec>(); }
SYMX_TEST(seq_holder) { sequence<pbk::Holder>(); }
// known fields with every wire type
struct Wrong
{
    Buf &b;
    size_t pos, i = 0;
    unsigned w = 0;
    bool is() { return i++ == pos; }
    void emit(uint32_t f)
    {
        const unsigned w = symx_choose(0, 7, "wire");
        b.tag(f, w);
        switch (w)
        {
        case 0: any_varint(b, symx_bool("long") ? 2 : 1, "varint"); break;
        case 1: any_bytes(b, 8, "fixed64"); break;
        case 2: { size_t n = symx_choose(0, 2, "size"); b.varint(n); any_bytes(b, n, "content"); break; }
        case 3: case 4: if (symx_bool("data")) any_bytes(b, 1, "data"); break;
        case 5: any_bytes(b, 4, "fixed32"); break;
        default: any_bytes(b, symx_choose(0, 2, "size"), "content"); break;
        }
    }
    template <Kind K, typename T> void opt(uint32_t f, T &, const char * = "") { if (is()) emit(f); }
    template <Kind K, typename T> void plain(uint32_t f, T &, const char * = "") { if (is()) emit(f); }
    template <Kind K, typename T> void rep(uint32_t f, T &, bool, const char * = "") { if (is()) emit(f); }
    template <Kind KK, Kind VK, typename T> void map(uint32_t f, T &, const char * = "")
    {
        if (!is()) return;
        if (symx_bool("entry")) return emit(f);
        Buf t;
        Wrong x{t, 0};
        x.emit(symx_bool("key") ? 1 : 2);
        b.tag(f, 2);
        b.varint(t.n);
        b.append(t);
    }
    template <typename T> void ptr(uint32_t f, T &, const char * = "") { if (is()) emit(f); }
    template <Kind K, size_t I, typename T> void one(uint32_t f, T &, const char * = "") { if (is()) emit(f); }
};
SYMX_TEST(wiretypes)
{
    with_type(symx_choose(symx_param("tlo", 0), symx_param("thi", 8), "type"), [&]<typename M>() {
        Buf b;
        M m{};
        fields(m, Wrong{b, symx_choose(0, field_count<M>() - 1, "field")});
        decide<M>(b.b, b.n);
    });
}
// tags: every number and length of the tag varint
SYMX_TEST(tags)
{
    Buf b;
    uint8_t v[11];
    const size_t n = symx_choose(1, 11, "taglen");
    symx_make_symbolic(v, n, "tag");
    for (size_t i = 0; i + 1 < n; ++i) b.byte(v[i] | 0x80);
    b.byte(v[n - 1] & 0x7f);
    b.bytes("\0\0\0\0\0\0\0", symx_choose(0, 4, "rest") * 2 & 7);
    if (symx_bool("nested"))
    {
        Buf o;
        o.tag(8, 2);
        o.varint(b.n);
        o.append(b);
        decide<pbk::Opt>(o.b, o.n);
    }
    else if (symx_bool("entry"))
    {
        Buf o;
        o.tag(1, 2);
        o.varint(b.n);
        o.append(b);
        decide<pbk::Maps>(o.b, o.n);
    }
    else decide<pbk::Opt>(b.b, b.n);
}
// long varints as values and lengths, of known and unknown fields
SYMX_TEST(varints)
{
    Buf b;
    static const uint32_t field[] = {1, 15, 16, 2047, 2048, 262143, 262144, 7, 5, 8, 99};
    const size_t f = symx_choose(0, 10, "field");
    b.tag(field[f], f >= 8 && f < 10 ? 2 : 0);
    uint8_t v[12];
    const size_t n = symx_choose(1, 12, "len");
    symx_make_symbolic(v, n, "varint");
    for (size_t i = 0; i + 1 < n; ++i) b.byte(v[i] | 0x80);
    b.byte(v[n - 1]);
    decide<pbk::Opt>(b.b, b.n);
}
