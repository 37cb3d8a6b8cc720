// P27: a oneof holds the member that occurred last, and nothing else.
#include <pbo.pb.h>
#include "util.h"
using namespace ref;
using namespace util;
// number, name, kind, oneof, index
#define ROWS(X) \
    X(2, "xa", I32, x, 1) X(3, "xb", I32, x, 2) X(4, "xs", STR, x, 3) X(5, "xt", STR, x, 4) X(6, "xm", MSG, x, 5) X(7, "xn", MSG, x, 6) X(8, "xv", MSG, x, 7) X(9, "xy", BYT, x, 8) \
    X(12, "yb", U32, y, 2) X(23, "ym", ENU, y, 13) X(26, "zr", MSG, z, 2) X(28, "only", BOO, w, 1) \
    X(11, "ya", I64, y, 1) X(13, "yc", U64, y, 3) X(14, "yd", S32, y, 4) X(15, "ye", S64, y, 5) X(16, "yf", BOO, y, 6) X(17, "yg", F32, y, 7) X(18, "yh", F64, y, 8) X(19, "yi", SF32, y, 9) \
    X(20, "yj", SF64, y, 10) X(21, "yk", FLT, y, 11) X(22, "yl", DBL, y, 12) X(2047, "yn", U32, y, 14) X(2048, "yo", S32, y, 15) X(25, "zi", I32, z, 1)
constexpr size_t ONEOFS = 26, OPS = ONEOFS + 6;

namespace pbo
{
template <typename F> void enum_names(E, F f) { f("ZERO", E::ZERO), f("ONE", E::ONE), f("NEG", E::NEG); }
}
namespace ref
{
template <> void enc_message<pbo::Void>(Buf &, const pbo::Void &) {}
template <> bool eq_message<pbo::Void>(const pbo::Void &, const pbo::Void &) { return true; }
template <> void any_message<pbo::Void>(pbo::Void &, const char *) {}
template <> bool eq_message<pbo::Sub>(const pbo::Sub &a, const pbo::Sub &b) { return a.v == b.v && a.s == b.s && a.r == b.r && a.in == b.in; }
template <> void enc_message<pbo::Sub>(Buf &o, const pbo::Sub &m)
{
    if (m.v) enc_field<I32>(o, 1, *m.v);
    if (m.s) enc_field<STR>(o, 2, *m.s);
    for (auto v : m.r) enc_field<I32>(o, 3, v);
    if (auto p = std::get_if<1>(&m.in)) enc_field<I32>(o, 4, *p);
    if (auto p = std::get_if<2>(&m.in)) enc_field<STR>(o, 5, *p);
}
template <> void any_message<pbo::Sub>(pbo::Sub &m, const char *) { m.v = symx_any<int8_t>("sub"); }
} // namespace ref
// value number c of a kind: 0 is the default; false: there are fewer
template <Kind K, typename T> static bool value(T &v, size_t c)
{
    if constexpr (K == STR) { if (c == 1) v = "ab"; return c < 2; }
    else if constexpr (K == BYT) { if (c == 1) { v.resize(1); v[0] = std::byte{0}; } return c < 2; }
    else if constexpr (std::is_same_v<T, pbo::Sub>)
    {
        switch (c)
        {
        case 1: v.v = 5; break;
        case 2: v.s = "ab"; v.r.push_back(1); break;
        case 3: v.in.template emplace<1>(0); break;
        case 4: v.in.template emplace<2>(); break;
        }
        return c < 5;
    }
    else if constexpr (K == MSG) return c < 1;
    else { if (c == 1) v = T(1); return c < 2; }
}
template <Kind K, typename T> static const char *json_value(size_t c)
{
    if constexpr (K == STR) return c ? "\"ab\"" : "\"\"";
    else if constexpr (K == BYT) return c ? "\"AA==\"" : "\"\"";
    else if constexpr (std::is_same_v<T, pbo::Sub>)
    {
        static const char *const t[] = {"{}", "{\"v\":5}", "{\"s\":\"ab\",\"r\":[1]}", "{\"p\":0}", "{\"q\":\"\"}"};
        return t[c];
    }
    else if constexpr (K == MSG) return "{}";
    else if constexpr (K == BOO) return c ? "true" : "false";
    else if constexpr (K == ENU) return c ? "\"ONE\"" : "\"ZERO\"";
    else return c ? "1" : "0";
}
template <typename T> static void merge_into(T &, const T &) {}
static void merge_into(pbo::Sub &m, const pbo::Sub &n)
{
    if (n.v) m.v = n.v;
    if (n.s) m.s = n.s;
    for (auto v : n.r) m.r.push_back(v);
    if (n.in.index()) m.in = n.in;
}
template <Kind K, typename A, typename B> static bool same_alternative(const A &a, const B &b)
{
    if constexpr (std::is_same_v<A, B>) return eq<K>(a, b);
    else return false;
}
// the text of floats is modelled, their values are compared in protobuf only
static bool equal(const pbo::One &a, const pbo::One &b, bool floats)
{
    if (a.first != b.first || a.middle != b.middle || a.rep != b.rep || a.map != b.map) return false;
    if (a.x.index() != b.x.index() || a.y.index() != b.y.index() || a.z.index() != b.z.index() || a.w.index() != b.w.index()) return false;
    bool r = true;
#define X(n, s, K, o, i) if (a.o.index() == i && (floats || (K != FLT && K != DBL))) r &= eq<K>(std::get<i>(a.o), std::get<i>(b.o));
    ROWS(X)
#undef X
    return r;
}
// one record or member appended to the document, and its effect on the expected message
template <bool JSON> static void op(Buf &b, pbo::One &m, size_t k, size_t c, bool symbolic)
{
    auto comma = [&] { if (JSON && b.n > 1) b.byte(','); };
    comma();
    enum { base = __COUNTER__ };
    switch (k)
    {
#define X(n, s, K, o, i) \
    case __COUNTER__ - base - 1: \
    { \
        using T = std::variant_alternative_t<i, decltype(m.o)>; \
        T v{}; \
        if (!JSON && symbolic) any_value<K>(v, "value"); \
        else if (!value<K>(v, c)) symx_stop(); \
        if constexpr (JSON) { key(b, s); text(b, json_value<K, T>(c)); } \
        else enc_field<K>(b, n, v); \
        if constexpr (!JSON && K == MSG) if (m.o.index() == i) { merge_into(std::get<i>(m.o), v); return; } \
        m.o.emplace<i>(std::move(v)); \
        return; \
    }
        ROWS(X)
#undef X
    case ONEOFS: m.first = (int)c; if (JSON) { key(b, "first"); text(b, c ? "1" : "0"); } else enc_field<I32>(b, 1, (int)c); break;
    case ONEOFS + 1: m.middle = (int)c; if (JSON) { key(b, "middle"); text(b, c ? "1" : "0"); } else enc_field<I32>(b, 10, (int)c); break;
    case ONEOFS + 2: m.rep.push_back((int)c); if (JSON) { m.rep.resize(1); m.rep[0] = (int)c; key(b, "rep"); text(b, c ? "[1]" : "[0]"); } else enc_field<I32>(b, 24, (int)c); break;
    case ONEOFS + 3: m.map[0] = 0; if (JSON) { key(b, "map"); text(b, "{\"0\":0}"); } else { b.tag(27, 2); b.varint(0); } break;
    case ONEOFS + 4: if (JSON) { key(b, c ? "x" : "y"); text(b, "{\"xa\":1}"); } else { b.tag(c ? 1000 : 29, 2); b.varint(2); b.tag(2, 0); b.varint(1); } break; // an unknown field
    case ONEOFS + 5: if (JSON) { key(b, c ? "xz" : "yB"); text(b, "1"); } else enc_field<I32>(b, c ? 30 : 5000, 7); break;
    default: symx_stop();
    }
    if (c > 1) symx_stop();
}
template <bool JSON> static void sequence()
{
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 2), "count"), rows = symx_param("rows", OPS), values = symx_param("values", 5);
    Buf b;
    if (JSON) b.byte('{');
    pbo::One want{};
    bool json_rep = false;
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = symx_choose(0, rows - 1, "member");
        if (rows < OPS && k + 2 >= rows) k = OPS - (rows - k); // a smaller set: the first oneof members and two others
        if (JSON && (k == ONEOFS + 2 || k == ONEOFS + 3)) { if (json_rep) symx_stop(); json_rep = true; }
        const bool symbolic = i + 1 == n && symx_param("symbolic", 1) && k < ONEOFS && !JSON;
        op<JSON>(b, want, k, symbolic ? 0 : symx_choose(0, values - 1, "value"), symbolic);
    }
    if (JSON) b.byte('}');
    pbo::One m{};
    const size_t step = symx_choose(0, symx_param("reader", 0), "reader");
    CHECK(JSON ? json_read(m, b, step) : util::pb_read(m, b, step));
    CHECK(equal(m, want, !JSON));
    if (m.x.index() || m.y.index() || m.z.index() || m.w.index()) symx_reach("set");
    else symx_reach("unset");
}
SYMX_TEST(pb_sequence) { sequence<false>(); }
SYMX_TEST(json_sequence) { sequence<true>(); }

// the active members are written, whatever their value, and nothing else
struct Record { uint32_t number; size_t begin, end; };
static void build(pbo::One &m, Buf &e, Buf &j, size_t k, size_t c, bool symbolic)
{
    enum { base = __COUNTER__ };
    switch (k)
    {
#define X(n, s, K, o, i) \
    case __COUNTER__ - base - 1: \
    { \
        if (m.o.index()) symx_stop(); \
        using T = std::variant_alternative_t<i, decltype(m.o)>; \
        T v{}; \
        if (symbolic) any_value<K>(v, "value"); \
        else if (!value<K>(v, c)) symx_stop(); \
        else { key(j, s); text(j, json_value<K, T>(c)); } \
        enc_field<K>(e, n, v); \
        m.o.emplace<i>(std::move(v)); \
        return; \
    }
        ROWS(X)
#undef X
    case ONEOFS: m.first = 0; enc_field<I32>(e, 1, 0); key(j, "first"); text(j, "0"); break;
    case ONEOFS + 1: m.middle = 1; enc_field<I32>(e, 10, 1); key(j, "middle"); text(j, "1"); break;
    default: break;
    }
    if (c) symx_stop();
}
SYMX_TEST(write)
{
    // two members (of different oneofs, or one and a plain field), the second with a symbolic value in protobuf
    pbo::One m{};
    Buf e1, e2, j1, j2;
    const size_t k = symx_choose(0, ONEOFS - 1, "first"), l = symx_choose(0, ONEOFS + 2, "second");
    const bool symbolic = symx_bool("symbolic") && l < ONEOFS;
    build(m, e1, j1, k, symx_choose(0, 4, "value"), false);
    build(m, e2, j2, l, symbolic ? 0 : symx_choose(0, 4, "value"), symbolic);
    std::string out;
    CHECK(pb_write(m, out));
    CHECK(spb::pb::serialize_size(m) == out.size());
    CHECK(out.size() == e1.n + e2.n);
    auto at = [&](const std::string &s, size_t p, const Buf &b) { return p + b.n <= s.size() && memcmp(s.data() + p, b.b, b.n) == 0; };
    CHECK((at(out, 0, e1) && at(out, e1.n, e2)) || (at(out, 0, e2) && at(out, e2.n, e1))); // fields may be written in any order
    if (!symbolic)
    {
        CHECK(json_write(m, out));
        CHECK(spb::json::serialize_size(m) == out.size());
        const bool real = m.y.index() == 11 || m.y.index() == 12;
        CHECK(real || out.size() == 2 + j1.n + j2.n + (j2.n ? 1 : 0));
        CHECK(real || (at(out, 1, j1) && (!j2.n || at(out, j1.n + 2, j2))) || (j2.n && at(out, 1, j2) && at(out, j2.n + 2, j1)));
    }
    pbo::One r{};
    Buf b;
    b.bytes(out.data(), out.size());
    CHECK(symbolic ? util::pb_read(r, b) : json_read(r, b));
    CHECK(equal(r, m, symbolic));
    symx_reach("written");
}
