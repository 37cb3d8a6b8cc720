// Reference model of the protobuf wire format, independent of the library:
// encoder, decoder/validator, equality and symbolic values for the messages of
// pbk.proto, pbk3.proto.
#pragma once
#include "symx.h"
#include "utf8ref.h"
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

namespace ref
{
enum Kind { I32, I64, U32, U64, S32, S64, BOO, F32, F64, SF32, SF64, FLT, DBL, STR, BYT, ENU, MSG };

struct Buf
{
    uint8_t *b;
    size_t n = 0, cap;
    explicit Buf(size_t c = 512) : b(new uint8_t[c]), cap(c) {}
    Buf(const Buf &) = delete;
    ~Buf() { delete[] b; }
    void byte(uint8_t v) { if (n >= cap) symx_fail("harness buffer too small"); b[n++] = v; }
    void varint(uint64_t v) { while (v >= 0x80) { byte((uint8_t)(v | 0x80)); v >>= 7; } byte((uint8_t)v); }
    // a varint of exactly len bytes (non-minimal allowed), v < 2^(7 len)
    void varint_len(uint64_t v, size_t len) { for (size_t i = 0; i + 1 < len; ++i) { byte((uint8_t)(v & 0x7f) | 0x80); v >>= 7; } byte((uint8_t)(v & 0x7f)); }
    void tag(uint32_t f, unsigned w) { varint(((uint64_t)f << 3) | w); }
    void le(uint64_t v, size_t k) { for (size_t i = 0; i < k; ++i) byte((uint8_t)(v >> (8 * i))); }
    void bytes(const void *p, size_t k) { for (size_t i = 0; i < k; ++i) byte(((const uint8_t *)p)[i]); }
    void append(const Buf &o) { bytes(o.b, o.n); }
    bool same(const void *p, size_t k) const
    {
        if (k != n) return false;
        bool r = true;
        for (size_t i = 0; i < n; ++i) r &= b[i] == ((const uint8_t *)p)[i];
        return r;
    }
};

constexpr unsigned wire(Kind k)
{
    switch (k)
    {
    case F64: case SF64: case DBL: return 1;
    case STR: case BYT: case MSG: return 2;
    case F32: case SF32: case FLT: return 5;
    default: return 0;
    }
}
template <typename T> uint64_t bits(const T &v)
{
    if constexpr (sizeof(T) == 8) { uint64_t r; memcpy(&r, &v, 8); return r; }
    else { uint32_t r; memcpy(&r, &v, 4); return r; }
}
template <typename T> T from_bits(uint64_t v)
{
    T r;
    if constexpr (sizeof(T) == 8) memcpy(&r, &v, 8);
    else { uint32_t w = (uint32_t)v; memcpy(&r, &w, 4); }
    return r;
}

// every message type has: template <typename V> void fields(M&, V&&), calling
//   v.template opt<KIND>(number, std::optional<T>&), req, rep<KIND>(number, vector&, packed), map<KK,VK>(number, map&),
//   ptr(number, unique_ptr<M>&), one<KIND,index>(number, variant&)
template <Kind K, typename T> void enc_payload(Buf &o, const T &v);
template <typename M> void enc_message(Buf &o, const M &m);

template <Kind K, typename T> void enc_field(Buf &o, uint32_t f, const T &v)
{
    o.tag(f, wire(K));
    enc_payload<K>(o, v);
}
template <Kind K, typename T> void enc_payload(Buf &o, const T &v)
{
    if constexpr (K == I32 || K == I64) o.varint((uint64_t)(int64_t)v);
    else if constexpr (K == ENU) o.varint((uint64_t)(int64_t)(int32_t)v);
    else if constexpr (K == U32 || K == U64) o.varint((uint64_t)v);
    else if constexpr (K == S32) o.varint(v < 0 ? ~((uint32_t)v << 1) : (uint32_t)v << 1);
    else if constexpr (K == S64) o.varint(v < 0 ? ~((uint64_t)v << 1) : (uint64_t)v << 1);
    else if constexpr (K == BOO) o.byte(v ? 1 : 0);
    else if constexpr (wire(K) == 5) o.le(bits(v), 4);
    else if constexpr (wire(K) == 1) o.le(bits(v), 8);
    else if constexpr (K == STR || K == BYT) { o.varint(v.size()); o.bytes(v.data(), v.size()); }
    else { Buf t; enc_message(t, v); o.varint(t.n); o.append(t); }
}

// ---- equality -----------------------------------------------------------------------------
inline bool nan_equal; // text does not keep the payload of a NaN
template <typename T> bool is_nan(const T &v)
{
    if constexpr (sizeof(T) == 8) return (bits(v) & ~(1ULL << 63)) > 0x7ff0000000000000ULL;
    else return (bits(v) & 0x7fffffff) > 0x7f800000;
}
template <typename M> bool eq_message(const M &a, const M &b);
template <Kind K, typename T> bool eq(const T &a, const T &b)
{
    if constexpr (K == FLT || K == DBL) return bits(a) == bits(b) || (nan_equal && is_nan(a) && is_nan(b));
    else if constexpr (K == STR || K == BYT)
    {
        if (a.size() != b.size()) return false;
        bool r = true;
        for (size_t i = 0; i < a.size(); ++i) r &= a.data()[i] == b.data()[i];
        return r;
    }
    else if constexpr (K == MSG) return eq_message(a, b);
    else return a == b;
}

// ---- symbolic values ------------------------------------------------------------------------
struct Limits { size_t str = 2, byt = 2; bool declared = false, small = false; }; // declared: only declared enum values; small: 32 bit integers of 8 bits
inline Limits lim;
template <typename M> void any_message(M &m, const char *name);
template <Kind K, typename T> void any_value(T &v, const char *name)
{
    if constexpr (K == BOO) v = symx_bool(name);
    else if constexpr (K == STR)
    {
        size_t n = symx_choose(0, lim.str, "length");
        char tmp[16];
        if (n) symx_make_symbolic(tmp, n, name);
        symx_assume(utf8ref::valid((uint8_t *)tmp, n));
        v.assign(tmp, n);
    }
    else if constexpr (K == BYT)
    {
        size_t n = symx_choose(0, lim.byt, "length");
        v.resize(n);
        if (n) symx_make_symbolic(v.data(), n, name);
    }
    else if constexpr (K == MSG) any_message(v, name);
    else if constexpr (K == ENU)
    {
        symx_make_symbolic(&v, sizeof v, name);
        if (lim.declared)
        {
            bool ok = false;
            enum_names(v, [&](std::string_view, auto x) { ok |= x == v; });
            symx_assume(ok);
        }
    }
    else if (lim.small && (K == I32 || K == I64 || K == SF64)) v = symx_any<int8_t>(name);
    else symx_make_symbolic(&v, sizeof v, name);
}

// ---- reference encoder over the tables --------------------------------------------------------
struct Enc
{
    Buf &o;
    template <Kind K, typename T> void opt(uint32_t f, const std::optional<T> &v, const char * = "") { if (v) enc_field<K>(o, f, *v); }
    // field without presence: empty strings, bytes and messages are left out
    template <Kind K, typename T> void plain(uint32_t f, const T &v, const char * = "")
    {
        if constexpr (K == STR || K == BYT) { if (v.size()) enc_field<K>(o, f, v); }
        else if constexpr (K == MSG) { Buf t; enc_message(t, v); if (t.n) { o.tag(f, 2); o.varint(t.n); o.append(t); } }
        else enc_field<K>(o, f, v);
    }
    template <Kind K, typename V> void rep(uint32_t f, const V &v, bool packed, const char * = "")
    {
        if constexpr (wire(K) != 2)
        {
            if (packed)
            {
                if (v.empty()) return;
                Buf t;
                for (size_t i = 0; i < v.size(); ++i) { typename V::value_type e = v[i]; enc_payload<K>(t, e); }
                o.tag(f, 2);
                o.varint(t.n);
                o.append(t);
                return;
            }
        }
        for (size_t i = 0; i < v.size(); ++i)
        {
            if constexpr (K == BOO) { bool e = v[i]; enc_field<K>(o, f, e); }
            else enc_field<K>(o, f, v[i]);
        }
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t f, const M &m, const char * = "")
    {
        for (const auto &e : m)
        {
            Buf t;
            enc_field<KK>(t, 1, e.first);
            enc_field<VK>(t, 2, e.second);
            o.tag(f, 2);
            o.varint(t.n);
            o.append(t);
        }
    }
    template <typename M> void ptr(uint32_t f, const std::unique_ptr<M> &p, const char * = "")
    {
        if (!p) return;
        Buf t;
        enc_message(t, *p);
        o.tag(f, 2);
        o.varint(t.n);
        o.append(t);
    }
    template <Kind K, size_t I, typename V> void one(uint32_t f, const V &v, const char * = "") { if (v.index() == I) enc_field<K>(o, f, std::get<I>(v)); }
};
template <typename M> void enc_message(Buf &o, const M &m) { fields(m, Enc{o}); }

// ---- equality over the tables -------------------------------------------------------------------
// the members of the second message are visited in parallel by address offset
struct Eq
{
    const char *a, *b;
    bool &r;
    template <typename T> const T &other(const T &x) const { return *(const T *)(b + ((const char *)&x - a)); }
    template <Kind K, typename T> void opt(uint32_t, const std::optional<T> &v, const char * = "")
    {
        if (!r) return;
        auto &w = other(v);
        if (v.has_value() != w.has_value()) r = false;
        else if (v) r = eq<K>(*v, *w);
    }
    template <Kind K, typename T> void plain(uint32_t, const T &v, const char * = "") { if (r) r = eq<K>(v, other(v)); }
    template <Kind K, typename V> void rep(uint32_t, const V &v, bool, const char * = "")
    {
        if (!r) return;
        auto &w = other(v);
        if (v.size() != w.size()) { r = false; return; }
        for (size_t i = 0; r && i < v.size(); ++i)
        {
            if constexpr (K == BOO) r = bool(v[i]) == bool(w[i]);
            else r = eq<K>(v[i], w[i]);
        }
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t, const M &v, const char * = "")
    {
        if (!r) return;
        auto &w = other(v);
        if (v.size() != w.size()) { r = false; return; }
        auto i = v.begin();
        auto j = w.begin();
        for (; r && i != v.end(); ++i, ++j) r = eq<KK>(i->first, j->first) && eq<VK>(i->second, j->second);
    }
    template <typename M> void ptr(uint32_t, const std::unique_ptr<M> &v, const char * = "")
    {
        if (!r) return;
        auto &w = other(v);
        if (!v != !w) r = false;
        else if (v) r = eq_message(*v, *w);
    }
    template <Kind K, size_t I, typename V> void one(uint32_t, const V &v, const char * = "")
    {
        if (!r) return;
        auto &w = other(v);
        if (v.index() != w.index()) r = false;
        else if (v.index() == I) r = eq<K>(std::get<I>(v), std::get<I>(w));
    }
};
template <typename M> bool eq_message(const M &a, const M &b)
{
    bool r = true;
    fields(a, Eq{(const char *)&a, (const char *)&b, r});
    return r;
}

// ---- reference decoder --------------------------------------------------------------------------
// OPEN: the format (or the documented limits of the library) leaves the outcome open
enum Outcome { OK, BAD, OPEN };
struct In
{
    const uint8_t *p, *e;
    Outcome st = OK;
    bool end() const { return p == e; }
    void bad(Outcome o) { if (st == OK) st = o; }
    uint64_t varint()
    {
        uint64_t v = 0;
        for (unsigned k = 0; k < 10; ++k)
        {
            if (p == e) { bad(BAD); return 0; }
            uint8_t c = *p++;
            if (k == 9 && (c & 0x7f) > 1) { bad((c & 0x80) ? BAD : OPEN); return 0; }
            v |= (uint64_t)(c & 0x7f) << (7 * k);
            if (!(c & 0x80)) return v;
        }
        bad(BAD);
        return 0;
    }
    uint64_t le(size_t k)
    {
        if ((size_t)(e - p) < k) { bad(BAD); return 0; }
        uint64_t v = 0;
        for (size_t i = 0; i < k; ++i) v |= (uint64_t)*p++ << (8 * i);
        return v;
    }
    In sub()
    {
        uint64_t n = varint();
        if (st == OK && n > (uint64_t)(e - p)) bad(BAD);
        if (st != OK) return In{p, p};
        // the length selects the path
        In r{p, p + symx_concretize(n)};
        p = r.e;
        return r;
    }
    void skip(unsigned w)
    {
        if (w == 0) varint();
        else if (w == 1) le(8);
        else if (w == 5) le(4);
        else if (w == 2) { In s = sub(); }
        else bad(BAD);
    }
};
inline bool seen_unknown;  // an unknown field was skipped
inline bool seen_other_form; // a number arrived in the form (packed or not) that is not the declared one
template <typename M> void dec_message(In &in, M &m);
template <Kind K, typename T> void dec_number(In &in, T &v)
{
    if constexpr (K == I32 || K == ENU) v = T((int32_t)in.varint());
    else if constexpr (K == I64) v = (int64_t)in.varint();
    else if constexpr (K == U64) v = in.varint();
    else if constexpr (K == U32 || K == S32)
    {
        uint64_t x = in.varint();
        if (x >> 32) in.bad(OPEN);
        if constexpr (K == U32) v = (uint32_t)x;
        else v = (int32_t)((uint32_t)(x >> 1) ^ (uint32_t)-(int32_t)(x & 1));
    }
    else if constexpr (K == S64) { uint64_t x = in.varint(); v = (int64_t)((x >> 1) ^ (uint64_t)-(int64_t)(x & 1)); }
    else if constexpr (K == BOO) { uint64_t x = in.varint(); if (x > 1) in.bad(OPEN); v = x != 0; }
    else if constexpr (wire(K) == 5) v = from_bits<T>(in.le(4));
    else v = from_bits<T>(in.le(8));
}
template <Kind K, typename T> void dec_value(In &in, unsigned w, T &v)
{
    if (w != wire(K)) { in.bad(BAD); return; }
    if constexpr (wire(K) != 2) dec_number<K>(in, v);
    else
    {
        In s = in.sub();
        if (in.st != OK) return;
        if constexpr (K == MSG)
        {
            dec_message(s, v);
            in.bad(s.st);
        }
        else
        {
            if constexpr (K == STR) { if (!utf8ref::valid(s.p, s.e - s.p)) in.bad(BAD); }
            v.assign((decltype(v.data()))s.p, (decltype(v.data()))s.e);
        }
    }
}
struct Dec
{
    In &in;
    uint32_t num;
    unsigned w;
    bool &found;
    bool is(uint32_t f) { if (found || num != f) return false; return found = true; }
    template <Kind K, typename T> void opt(uint32_t f, std::optional<T> &v, const char * = "") { if (!is(f)) return; if (!v) v.emplace(); dec_value<K>(in, w, *v); }
    template <Kind K, typename T> void plain(uint32_t f, T &v, const char * = "") { if (is(f)) dec_value<K>(in, w, v); }
    template <Kind K, typename V> void rep(uint32_t f, V &v, bool packed, const char * = "")
    {
        if (!is(f)) return;
        if constexpr (wire(K) != 2)
        {
            if (w == 2)
            {
                if (!packed) seen_other_form = true;
                In s = in.sub();
                while (in.st == OK && s.st == OK && !s.end()) { typename V::value_type e{}; dec_number<K>(s, e); v.push_back(e); }
                in.bad(s.st);
                return;
            }
            if (packed) seen_other_form = true;
        }
        typename V::value_type e{};
        dec_value<K>(in, w, e);
        v.push_back(std::move(e));
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t f, M &m, const char * = "")
    {
        if (!is(f)) return;
        if (w != 2) { in.bad(BAD); return; }
        In s = in.sub();
        typename M::key_type k{};
        typename M::mapped_type v{};
        while (in.st == OK && s.st == OK && !s.end())
        {
            uint64_t t = s.varint();
            if (s.st != OK) break;
            if (t >> 32) { s.bad(BAD); break; }
            uint32_t n = (uint32_t)t >> 3;
            unsigned ww = t & 7;
            if (n == 0) s.bad(BAD);
            else if (n == 1) dec_value<KK>(s, ww, k);
            else if (n == 2) dec_value<VK>(s, ww, v);
            else { seen_unknown = true; s.skip(ww); }
        }
        in.bad(s.st);
        if (in.st == OK) m[std::move(k)] = std::move(v);
    }
    template <typename M> void ptr(uint32_t f, std::unique_ptr<M> &v, const char * = "")
    {
        if (!is(f)) return;
        if (!v) v = std::make_unique<M>();
        dec_value<MSG>(in, w, *v);
    }
    template <Kind K, size_t I, typename V> void one(uint32_t f, V &v, const char * = "")
    {
        if (!is(f)) return;
        if (v.index() != I) v.template emplace<I>();
        dec_value<K>(in, w, std::get<I>(v));
    }
};
template <typename M> void dec_message(In &in, M &m)
{
    while (in.st == OK && !in.end())
    {
        const uint8_t *s = in.p;
        uint64_t t = in.varint();
        if (in.st != OK) return;
        if (t >> 32) { in.bad(BAD); return; }
        if (in.p - s > 5) { in.bad(OPEN); return; }
        uint32_t num = (uint32_t)t >> 3;
        unsigned w = t & 7;
        if (num == 0) { in.bad(BAD); return; }
        bool found = false;
        fields(m, Dec{in, num, w, found});
        if (!found) { seen_unknown = true; in.skip(w); }
    }
}
template <typename M> Outcome decode(const uint8_t *p, size_t n, M &m)
{
    In in{p, p + n};
    seen_unknown = seen_other_form = false;
    dec_message(in, m);
    return in.st;
}

// ---- one symbolic field ---------------------------------------------------------------------------
// sets the field with the given position in the table to a symbolic value
struct Set
{
    size_t pos;
    size_t count; // elements of repeated fields
    size_t i = 0;
    bool is() { return i++ == pos; }
    template <Kind K, typename T> void opt(uint32_t, std::optional<T> &v, const char * = "") { if (is()) { v.emplace(); any_value<K>(*v, "value"); } }
    template <Kind K, typename T> void plain(uint32_t, T &v, const char * = "") { if (is()) any_value<K>(v, "value"); }
    template <Kind K, typename V> void rep(uint32_t, V &v, bool, const char * = "")
    {
        if (!is()) return;
        for (size_t k = 0; k < count; ++k) { typename V::value_type e{}; any_value<K>(e, "element"); v.push_back(std::move(e)); }
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t, M &v, const char * = "")
    {
        if (!is()) return;
        for (size_t k = 0; k < count; ++k)
        {
            typename M::key_type a{};
            typename M::mapped_type b{};
            any_value<KK>(a, "key");
            any_value<VK>(b, "mapped");
            v[std::move(a)] = std::move(b);
        }
    }
    template <typename M> void ptr(uint32_t, std::unique_ptr<M> &v, const char * = "") { if (is()) { v = std::make_unique<M>(); if (count) any_message(*v, "pointed"); } }
    template <Kind K, size_t I, typename V> void one(uint32_t, V &v, const char * = "") { if (is()) { v.template emplace<I>(); any_value<K>(std::get<I>(v), "value"); } }
};
struct Count
{
    size_t &n;
    template <Kind K, typename T> void opt(uint32_t, T &, const char * = "") { ++n; }
    template <Kind K, typename T> void plain(uint32_t, T &, const char * = "") { ++n; }
    template <Kind K, typename T> void rep(uint32_t, T &, bool, const char * = "") { ++n; }
    template <Kind KK, Kind VK, typename T> void map(uint32_t, T &, const char * = "") { ++n; }
    template <typename T> void ptr(uint32_t, T &, const char * = "") { ++n; }
    template <Kind K, size_t I, typename T> void one(uint32_t, T &, const char * = "") { ++n; }
};
template <typename M> size_t field_count()
{
    M m{};
    size_t n = 0;
    fields(m, Count{n});
    return n;
}
template <typename M> void set_field(M &m, size_t pos, size_t count) { fields(m, Set{pos, count}); }
} // namespace ref
