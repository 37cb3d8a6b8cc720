// P31: the generated code does what the schema says: field numbers, wire types, packed settings, C++ types, limits and
// default values, for every row of the tables in p31_rows.h (written from the declarations of the schemas).
#define STR2(x) #x
#define STR1(x) STR2(x)
#include STR1(HEADER)
#include "p31_rows.h"
#include "util.h"
#ifdef MISC
namespace pbd { template <typename F> void enum_names(E, F &&) {} }
#endif
using namespace ref;
using namespace util;

namespace
{
enum shape_kind { S_OPT, S_REQ, S_REP, S_ONE, S_MAPV, S_MAPK, S_MAPS, S_PTR };
template <shape_kind S, size_t I = 0> struct shape { static constexpr shape_kind kind = S; static constexpr size_t index = I; };
#define OPT shape<S_OPT>
#define REQ shape<S_REQ>
#define REP shape<S_REP>
#define MAPV shape<S_MAPV>
#define MAPK shape<S_MAPK>
#define MAPS shape<S_MAPS>
#define PTR shape<S_PTR>
template <size_t I> using ONE = shape<S_ONE, I>;
template <typename T> struct type_of;
template <typename T> struct type_of<void(T)> { using type = T; };
#define TYPE_OF(t) type_of<void t>::type

constexpr bool is_int(Kind k) { return k != FLT && k != DBL && k != STR && k != BYT && k != MSG; }

// a value of kind K: symbolic, or (json) a plain value whose text is appended to j
template <Kind K, typename T> void make(T &v, size_t limit, size_t over, Buf *j, size_t &size)
{
    size = 0;
    if constexpr (K == STR || K == BYT)
    {
        size = symx_choose(0, (limit ? limit : 2) + over, "size");
        v.resize(size);
        uint8_t t[16];
        if (j)
            for (size_t i = 0; i < size; ++i) t[i] = (uint8_t)('a' + i);
        else content(t, size, K == STR, "content");
        for (size_t i = 0; i < size; ++i) v.data()[i] = (typename T::value_type)t[i];
        if (j)
        {
            j->byte('"');
            if (K == STR) j->bytes(t, size);
            else base64(*j, t, size);
            j->byte('"');
        }
    }
    else if constexpr (K == MSG)
    {
        if constexpr (requires { v.v; }) v.v = j ? 5 : symx_any<int32_t>("sub");
        else v.o0 = j ? 5 : symx_any<int32_t>("sub");
        if (j) text(*j, "{\"v\":5}");
    }
    else if constexpr (K == BOO)
    {
        v = j ? true : symx_bool("value");
        if (j) text(*j, "true");
    }
    else if (j)
    {
        v = (T)1;
        j->byte('1');
    }
    else symx_make_symbolic(&v, sizeof v, "value");
}
template <Kind K, typename T> auto widen(const T &v)
{
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && wire(K) == 5) return (std::conditional_t<std::is_signed_v<T>, int32_t, uint32_t>)v;
    else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && wire(K) == 1) return (std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>)v;
    else return v;
}
template <Kind K, typename T> void enc(Buf &o, uint32_t f, const T &v)
{
    if constexpr (K == MSG)
    {
        Buf t;
        if constexpr (requires { v.v; }) enc_field<I32>(t, 1, *v.v);
        else enc_field<I32>(t, 1, *v.o0);
        o.tag(f, 2);
        o.varint(t.n);
        o.append(t);
    }
    else enc_field<K>(o, f, widen<K>(v));
}
bool text_value;
template <Kind K, typename A, typename B> bool equal(const A &a, const B &b)
{
    if constexpr (K == MSG)
    {
        if constexpr (requires { a.v; }) return a.v && b.v && *a.v == *b.v;
        else return a.o0 && b.o0 && *a.o0 == *b.o0;
    }
    else if constexpr (K == FLT || K == DBL) return text_value || eq<K>(a, b); // how numbers are read from text is P30's and P17's
    else return eq<K>(a, b);
}
template <typename M, Kind K, typename S, typename T, typename G> void row(const char *name, uint32_t number, size_t size, size_t count, bool packed, G get)
{
    using C = std::remove_cvref_t<decltype(get(std::declval<M &>()))>;
    CHECK((std::is_same_v<C, T>));
    if constexpr (!std::is_same_v<C, T>) return;
    else
    {
        const size_t over = symx_param("over", 1);
        const bool js = symx_param("json", 1) && symx_choose(0, 1, "json");
        text_value = js;
        Buf b, j; // what is expected
        M m{};
        auto &c = get(m);
        bool fits = true;
        size_t n = 0;
        j.byte('{');
        key(j, name);
        if constexpr (S::kind == S_OPT) { make<K>(c.emplace(), size, over, js ? &j : nullptr, n); enc<K>(b, number, *c); fits = !size || n <= size; }
        else if constexpr (S::kind == S_REQ)
        {
            make<K>(c, size, over, js ? &j : nullptr, n);
            fits = !size || n <= size;
            if constexpr (K == STR || K == BYT) { if (n) enc<K>(b, number, c); }
            else if constexpr (K == MSG) enc<K>(b, number, c);
            else enc<K>(b, number, c);
        }
        else if constexpr (S::kind == S_PTR) { c = std::make_unique<typename T::element_type>(); c->o0 = js ? 5 : symx_any<int32_t>("sub"); text(j, "{\"o0\":5}"); enc<K>(b, number, *c); }
        else if constexpr (S::kind == S_ONE) { make<K>(c.template emplace<S::index>(), size, over, js ? &j : nullptr, n); enc<K>(b, number, std::get<S::index>(c)); fits = !size || n <= size; }
        else if constexpr (S::kind == S_REP)
        {
            using E = typename C::value_type;
            const size_t k = symx_choose(0, (count ? count : 2) + over, "count");
            fits = !count || k <= count;
            j.byte('[');
            Buf p;
            for (size_t i = 0; i < k; ++i)
            {
                if (i) j.byte(',');
                std::conditional_t<K == BOO, bool, E> e{};
                if ((K == STR || K == BYT) && i + 1 < k)
                {
                    if constexpr (K == STR || K == BYT) e.resize(1);
                    if constexpr (K == STR) e.data()[0] = 'z';
                    if constexpr (K == BYT) e.data()[0] = std::byte('z');
                    text(j, K == STR ? "\"z\"" : "\"eg==\"");
                }
                else make<K>(e, size, over, js ? &j : nullptr, n);
                if (size && n > size) fits = false;
                c.push_back(e);
                if constexpr (K != STR && K != BYT && K != MSG) { if (packed) { enc_payload<K>(p, widen<K>(e)); continue; } }
                enc<K>(b, number, e);
            }
            j.byte(']');
            if (packed && k) { b.tag(number, 2); b.varint(p.n); b.append(p); }
        }
        else
        {
            Buf e;
            j.byte('{');
            if constexpr (S::kind == S_MAPV)
            {
                const int32_t i = js ? 5 : symx_any<int32_t>("key");
                text(j, "\"5\":");
                make<K>(c[i], 0, 0, js ? &j : nullptr, n);
                enc_field<I32>(e, 1, i);
                enc<K>(e, 2, c[i]);
            }
            else if constexpr (S::kind == S_MAPK)
            {
                typename C::key_type i{};
                Buf t;
                make<K>(i, 0, 0, js ? &t : nullptr, n);
                if (K != STR) j.byte('"');
                j.append(t);
                if (K != STR) j.byte('"');
                text(j, ":\"v\"");
                c[i] = "v";
                enc<K>(e, 1, i);
                enc_field<STR>(e, 2, std::string("v"));
            }
            else
            {
                typename C::key_type i{};
                make<STR>(i, 0, 0, js ? &j : nullptr, n);
                j.byte(':');
                make<BYT>(c[i], 0, 0, js ? &j : nullptr, n);
                enc_field<STR>(e, 1, i);
                enc_field<BYT>(e, 2, c[i]);
            }
            j.byte('}');
            b.tag(number, 2);
            b.varint(e.n);
            b.append(e);
        }
        j.byte('}');
        std::string out;
        const bool wrote = js ? json_write(m, out) : pb_write(m, out);
        symx_observe(wrote);
        CHECK(wrote == fits);
        if (wrote && !js) CHECK(b.same(out.data(), out.size()));
        M r{};
        const bool read = js ? json_read(r, j) : pb_read(r, b);
        symx_observe(read);
        CHECK(read == fits);
        symx_reach(fits ? "fits" : "exceeds");
        if (!read) return;
        auto &d = get(r);
        if constexpr (S::kind == S_OPT) CHECK(d && equal<K>(*d, *c));
        else if constexpr (S::kind == S_REQ) CHECK((equal<K>(d, c)));
        else if constexpr (S::kind == S_PTR) CHECK(d && d->o0 && *d->o0 == *c->o0);
        else if constexpr (S::kind == S_ONE) CHECK(d.index() == S::index && equal<K>(std::get<S::index>(d), std::get<S::index>(c)));
        else if constexpr (S::kind == S_REP)
        {
            CHECK(d.size() == c.size());
            for (size_t i = 0; i < d.size() && i < c.size(); ++i)
            {
                if constexpr (K == BOO) { const bool x = d[i], y = c[i]; CHECK(x == y); }
                else CHECK((equal<K>(d[i], c[i])));
            }
        }
        else
        {
            CHECK(d.size() == 1);
            if (d.size() != 1) return;
            constexpr Kind KK = S::kind == S_MAPV ? I32 : S::kind == S_MAPK ? K : STR, VK = S::kind == S_MAPK ? STR : K;
            CHECK((equal<KK>(d.begin()->first, c.begin()->first)));
            CHECK((equal<VK>(d.begin()->second, c.begin()->second)));
        }
    }
}
} // namespace

#define X(M, member, name, K, S, number, ctype, size, count, packed) \
    case __COUNTER__ - start - 1: row<M, K, S, typename TYPE_OF(ctype)>(name, number, size, count, packed, [](auto &x) -> auto & { return x.member; }); break;
#ifdef ROWS
enum { start = __COUNTER__ };
SYMX_TEST(rows)
{
    switch (symx_choose(symx_param("lo", 0), symx_param("hi", N_ROWS - 1), "row")) { ROWS(X) default: symx_stop(); }
}
#endif

#ifdef ENUMS
#define E(e, t) CHECK((std::is_same_v<std::underlying_type_t<e>, t>));
SYMX_TEST(enums)
{
    ENUMS(E)
    symx_reach("types");
}
#undef E
#endif
#ifdef MISC
namespace
{
template <typename T, typename V> bool is(const T &a, V v, bool)
{
    if constexpr (std::is_floating_point_v<T>) { const T t = (T)v; return bits(a) == bits(t); }
    else return a == v;
}
template <typename T> bool is(const std::string &a, const T &v, bool) { return a == v; }
template <Kind K, bool optional, typename T, typename G, typename V> void dflt(uint32_t number, G get, const V &want)
{
    using D = pbd::D;
    using C = std::remove_cvref_t<decltype(get(std::declval<D &>()))>;
    CHECK((std::is_same_v<C, std::conditional_t<optional, std::optional<T>, T>>));
    if constexpr (!std::is_same_v<C, std::conditional_t<optional, std::optional<T>, T>>) return;
    else
    {
        auto check = [&](D &d, const auto &value)
        {
            auto &x = get(d);
            if constexpr (optional) CHECK(x && is(*x, value, true));
            else CHECK(is(x, value, true));
        };
        D m{};
        check(m, want);
        // input without the field keeps the default, other input replaces it
        Buf none(4);
        D r{};
        if (symx_choose(0, 1, "json")) { text(none, "{}"); CHECK(json_read(r, none)); check(r, want); }
        else
        {
            CHECK(pb_read(r, none));
            check(r, want);
            T v{};
            if constexpr (K == STR) v = symx_bool("value") ? "" : "v";
            else any_value<K>(v, "value");
            Buf b;
            enc_field<K>(b, number, widen<K>(v));
            D s{};
            CHECK(pb_read(s, b));
            auto &x = get(s);
            if constexpr (optional) CHECK(x && eq<K>(*x, v));
            else CHECK((eq<K>(x, v)));
        }
        symx_reach("default");
    }
}
}
#define D(member, K, opt, ctype, number, want) \
    case __COUNTER__ - start2 - 1: dflt<K, opt, typename TYPE_OF(ctype)>(number, [](auto &x) -> auto & { return x.member; }, want); break;
enum { start2 = __COUNTER__ };
SYMX_TEST(defaults)
{
    switch (symx_choose(0, N_DEFAULTS - 1, "row")) { DEFAULTS(D) default: symx_stop(); }
}
#undef D
#define B(member, want) CHECK(m.member == want);
SYMX_TEST(bits)
{
    pbd::B m{};
    BITS(B)
    symx_reach("types");
}
#endif
