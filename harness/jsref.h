// Reference reader of JSON (RFC 8259) for the messages described by fields(),
// written from the RFC and the protobuf JSON mapping, independent of the library.
#pragma once
#include "pbref.h"
#include <charconv>
#include <limits>

namespace ref
{
// enum_names(E) lists the declared names of an enum: calls f(name, number)
struct Js
{
    const uint8_t *p, *e;
    bool ascii = true;
    Outcome st = OK;
    size_t unknown = 0, members = 0;
    void bad(Outcome o) { if (st == OK) st = o; }
    int cur() const { return p != e ? *p : -1; }
    void ws()
    {
        while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p;
        // white space of the C locale that JSON does not have
        if (p != e && (*p == 0x0b || *p == 0x0c)) bad(OPEN);
    }
    bool take(char c)
    {
        if (cur() != (uint8_t)c) return false;
        ++p;
        ws();
        return true;
    }
    void expect(char c) { if (!take(c)) bad(BAD); }
    static bool alnum(uint8_t c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z') || c == '_'; }
    bool word(const char *w)
    {
        const uint8_t *q = p;
        for (; *w; ++w, ++q) if (q == e || *q != (uint8_t)*w) return false;
        if (q != e && alnum(*q)) return false;
        p = q;
        ws();
        return true;
    }
    static int hex(uint8_t c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if ((c | 32) >= 'a' && (c | 32) <= 'f') return (c | 32) - 'a' + 10;
        return -1;
    }
    uint32_t unit()
    {
        uint32_t v = 0;
        for (int i = 0; i < 4; ++i)
        {
            int d = p != e ? hex(*p) : -1;
            if (d < 0) { bad(BAD); return 0; }
            ++p;
            v = v << 4 | (uint32_t)d;
        }
        return v;
    }
    static void put(std::string &s, uint32_t c)
    {
        if (c < 0x80) s.push_back((char)c);
        else if (c < 0x800) { s.push_back((char)(0xc0 | c >> 6)); s.push_back((char)(0x80 | (c & 63))); }
        else if (c < 0x10000) { s.push_back((char)(0xe0 | c >> 12)); s.push_back((char)(0x80 | (c >> 6 & 63))); s.push_back((char)(0x80 | (c & 63))); }
        else { s.push_back((char)(0xf0 | c >> 18)); s.push_back((char)(0x80 | (c >> 12 & 63))); s.push_back((char)(0x80 | (c >> 6 & 63))); s.push_back((char)(0x80 | (c & 63))); }
    }
    // a string token with its trailing white space; escaped tells whether it had escapes
    bool escaped;
    std::string string()
    {
        std::string s;
        escaped = false;
        if (cur() != '"') { bad(BAD); return s; }
        ++p;
        while (st == OK)
        {
            if (p == e) { bad(BAD); break; }
            uint8_t c = *p++;
            if (c == '"')
            {
                ws();
                if (st == OK && !utf8ref::valid((const uint8_t *)s.data(), s.size())) { bad_utf8 = true; }
                else bad_utf8 = false;
                return s;
            }
            if (c < 0x20) { bad(OPEN); break; }
            if (c != '\\') { s.push_back((char)c); continue; }
            escaped = true;
            if (p == e) { bad(BAD); break; }
            c = *p++;
            switch (c)
            {
            case '"': case '\\': case '/': s.push_back((char)c); break;
            case 'b': s.push_back('\b'); break;
            case 'f': s.push_back('\f'); break;
            case 'n': s.push_back('\n'); break;
            case 'r': s.push_back('\r'); break;
            case 't': s.push_back('\t'); break;
            case 'u':
            {
                uint32_t u = unit();
                if (st != OK) break;
                if (u >= 0xdc00 && u <= 0xdfff) { bad(BAD); break; }
                if (u >= 0xd800 && u <= 0xdbff)
                {
                    if (e - p < 2 || p[0] != '\\' || p[1] != 'u') { bad(BAD); break; }
                    p += 2;
                    uint32_t l = unit();
                    if (st != OK) break;
                    if (l < 0xdc00 || l > 0xdfff) { bad(BAD); break; }
                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                }
                put(s, u);
                break;
            }
            default: bad(BAD);
            }
        }
        return s;
    }
    bool bad_utf8 = false;
    // a number token without trailing white space; integral: no fraction or exponent
    bool integral;
    std::string number()
    {
        const uint8_t *s = p;
        integral = true;
        auto isd = [&] { return p != e && *p >= '0' && *p <= '9'; };
        if (p != e && *p == '-') ++p;
        if (!isd()) { bad((p != e && (*p == '.' || (*p | 32) == 'i' || (*p | 32) == 'n')) ? OPEN : BAD); return {}; }
        if (*p == '0') { ++p; if (isd()) bad(OPEN); }
        else while (isd()) ++p;
        if (p != e && *p == '.')
        {
            integral = false;
            ++p;
            if (!isd()) bad(OPEN);
            while (isd()) ++p;
        }
        if (p != e && (*p | 32) == 'e')
        {
            integral = false;
            ++p;
            if (p != e && (*p == '+' || *p == '-')) ++p;
            if (!isd()) bad(BAD);
            while (isd()) ++p;
        }
        return std::string((const char *)s, (const char *)p);
    }
    // any value: complete, but with the latitude the library has for values it ignores
    void skip(unsigned depth = 0)
    {
        Outcome before = st;
        (void)before;
        switch (cur())
        {
        case '{':
            take('{');
            if (take('}')) return;
            do
            {
                name();
                if (st != OK) return;
                expect(':');
                if (st != OK) return;
                skip(depth + 1);
                if (st != OK) return;
            } while (take(','));
            expect('}');
            return;
        case '[':
            take('[');
            if (take(']')) return;
            do { skip(depth + 1); if (st != OK) return; } while (take(','));
            expect(']');
            return;
        case '"': (void)loose(); return;
        case 't': if (!word("true")) bad(BAD); return;
        case 'f': if (!word("false")) bad(BAD); return;
        case 'n': if (!word("null")) bad(BAD); return;
        default:
        {
            std::string t = number();
            if (st == BAD && p != e) st = BAD;
            ws();
        }
        }
    }
    // a string whose value is ignored: what is wrong inside of it is left open
    std::string loose()
    {
        const uint8_t *s = p;
        std::string r = string();
        if (st == BAD && (s == e || *s == '"'))
        {
            // unterminated is malformed, other defects are open
            bool closed = false;
            if (s != e)
                for (const uint8_t *q = s + 1; q < e; ++q)
                {
                    if (*q == '\\') { ++q; continue; }
                    if (*q == '"') { closed = true; break; }
                }
            if (closed) st = OPEN;
        }
        if (st == OK && bad_utf8) bad(OPEN);
        return r;
    }
    // member names are compared with the declared ones; defects inside of others are left open
    std::string name() { return loose(); }
};

template <typename M> void js_message(Js &in, M &m);
inline bool js_unsigned(const std::string &t, size_t i, uint64_t &v)
{
    v = 0;
    while (i < t.size() && t[i] == '0') ++i;
    return t.size() - i <= 20 && (i == t.size() || !symx_decimal(t.data() + i, t.size() - i, &v));
}
template <typename T> void js_int(Js &in, const std::string &t, T &v)
{
    const bool neg = t[0] == '-';
    uint64_t u;
    bool ok = js_unsigned(t, neg, u);
    if constexpr (std::is_unsigned_v<T>)
    {
        if (neg) { in.bad(ok && u == 0 ? OPEN : BAD); return; }
        if (!ok || u > std::numeric_limits<T>::max()) { in.bad(BAD); return; }
        v = (T)u;
    }
    else
    {
        const uint64_t max = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0);
        if (!ok || u > max) { in.bad(BAD); return; }
        v = (T)(int64_t)(neg ? 0 - u : u);
    }
}
// decodes base64: OK, BAD, or OPEN for non-zero trailing bits
inline Outcome js_base64(const std::string &s, std::string &o)
{
    struct Table
    {
        int8_t v[256];
        constexpr Table() : v{}
        {
            for (int c = 0; c < 256; ++c)
                v[c] = (int8_t)(c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1);
        }
    };
    static constexpr Table table;
    auto val = [](uint8_t c) -> int { return table.v[c]; };
    if (s.size() % 4) return BAD;
    Outcome r = OK;
    for (size_t i = 0; i < s.size(); i += 4)
    {
        const bool last = i + 4 == s.size();
        int pad = 0;
        if (last && s[i + 3] == '=') pad = s[i + 2] == '=' ? 2 : 1;
        uint32_t v = 0;
        for (int k = 0; k < 4 - pad; ++k)
        {
            int d = val((uint8_t)s[i + k]);
            if (d < 0) return BAD;
            v |= (uint32_t)d << (18 - 6 * k);
        }
        for (int k = 0; k < 3 - pad; ++k) o.push_back((char)(v >> (16 - 8 * k)));
        if (pad == 1 && (v & 0xff)) r = OPEN;
        if (pad == 2 && (v & 0xffff)) r = OPEN;
    }
    return r;
}
template <Kind K, typename T> void js_value(Js &in, T &v, bool key = false)
{
    if constexpr (K == MSG) js_message(in, v);
    else if constexpr (K == BOO)
    {
        if (in.word("true")) v = true;
        else if (in.word("false")) v = false;
        else in.bad(BAD);
    }
    else if constexpr (K == STR)
    {
        std::string s = in.string();
        if (in.st != OK) return;
        if (in.bad_utf8) { in.bad(BAD); return; }
        v.assign(s.begin(), s.end());
    }
    else if constexpr (K == BYT)
    {
        if (in.word("null")) { v = {}; return; }
        std::string s = in.string();
        if (in.st != OK) return;
        if (in.escaped) { in.bad(OPEN); return; }
        std::string o;
        Outcome r = js_base64(s, o);
        if (r != OK) { in.bad(r); return; }
        v.assign((decltype(v.data()))o.data(), (decltype(v.data()))o.data() + o.size());
    }
    else if constexpr (K == ENU)
    {
        if (in.cur() == '"')
        {
            std::string s = in.string();
            if (in.st != OK) return;
            bool found = false;
            enum_names(v, [&](std::string_view n, auto x) { if (!found && s == n) { found = true; v = x; } });
            if (!found) in.bad(BAD);
            return;
        }
        std::string t = in.number();
        if (in.st != OK) return;
        if (!in.integral) { in.bad(OPEN); return; }
        in.ws();
        int32_t n = 0;
        js_int(in, t, n);
        if (in.st != OK) return;
        bool found = false;
        enum_names(v, [&](std::string_view, auto x) { if (!found && (int32_t)x == n) { found = true; v = x; } });
        if (!found) in.bad(BAD);
    }
    else
    {
        std::string t;
        if (in.cur() == '"')
        {
            if (key) { in.bad(BAD); return; }
            std::string s = in.string();
            if (in.st != OK) return;
            if constexpr (K == FLT || K == DBL)
            {
                using L = std::numeric_limits<T>;
                if (s == "NaN") { v = L::quiet_NaN(); return; }
                if (s == "Infinity") { v = L::infinity(); return; }
                if (s == "-Infinity") { v = -L::infinity(); return; }
                if (!s.empty() && ((s[0] | 32) == 'n' || (s[0] | 32) == 'i' || (s[0] == '-' && s.size() > 1 && ((s[1] | 32) == 'n' || (s[1] | 32) == 'i')))) { in.bad(OPEN); return; }
            }
            Js q{(const uint8_t *)s.data(), (const uint8_t *)s.data() + s.size()};
            t = q.number();
            if (q.st == OK && q.p != q.e) q.bad(BAD);
            in.bad(q.st);
            in.integral = q.integral;
        }
        else
        {
            t = in.number();
            if (in.st == OK) in.ws();
        }
        if (in.st != OK) return;
        if constexpr (K == FLT || K == DBL)
        {
            T x{};
            auto r = std::from_chars(t.data(), t.data() + t.size(), x);
            if (r.ec != std::errc{} || r.ptr != t.data() + t.size()) { in.bad(OPEN); return; }
            v = x;
        }
        else
        {
            if (!in.integral) { in.bad(OPEN); return; }
            js_int(in, t, v);
        }
    }
}
// key of a map: a string that contains the key
template <Kind K, typename T> void js_key(Js &in, T &v)
{
    if constexpr (K == STR) return js_value<STR>(in, v);
    std::string s = in.string();
    if (in.st != OK) return;
    Js q{(const uint8_t *)s.data(), (const uint8_t *)s.data() + s.size()};
    if (!s.empty() && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '\r' || s[s.size() - 1] == ' ' || s[s.size() - 1] == '\t' || s[s.size() - 1] == '\n' || s[s.size() - 1] == '\r'))
    {
        in.bad(OPEN);
        return;
    }
    if constexpr (K != STR) js_value<K>(q, v, true);
    if (q.st == OK && q.p != q.e) q.bad(BAD);
    in.bad(q.st);
}
struct JDec
{
    Js &in;
    const std::string &name;
    bool &found;
    bool is(const char *n) { if (found || name != n) return false; return found = true; }
    template <Kind K, typename T> void opt(uint32_t, std::optional<T> &v, const char *n)
    {
        if (!is(n)) return;
        if (in.word("null")) { v.reset(); return; }
        if (!v) v.emplace();
        js_value<K>(in, *v);
    }
    template <Kind K, typename T> void plain(uint32_t, T &v, const char *n)
    {
        if (!is(n)) return;
        // null for a field that cannot be unset
        if (K != BYT && in.word("null")) { in.bad(OPEN); return; }
        js_value<K>(in, v);
    }
    template <Kind K, typename V> void rep(uint32_t, V &v, bool, const char *n)
    {
        if (!is(n)) return;
        if (in.word("null")) { v.clear(); return; }
        in.expect('[');
        if (in.st != OK || in.take(']')) return;
        do
        {
            typename V::value_type e{};
            if (K == BYT && in.cur() == 'n') in.bad(OPEN);
            if constexpr (K == BOO) { bool x = false; js_value<K>(in, x); v.push_back(x); }
            else { js_value<K>(in, e); v.push_back(std::move(e)); }
            if (in.st != OK) return;
        } while (in.take(','));
        in.expect(']');
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t, M &m, const char *n)
    {
        if (!is(n)) return;
        if (in.word("null")) { m.clear(); return; }
        in.expect('{');
        if (in.st != OK || in.take('}')) return;
        do
        {
            typename M::key_type k{};
            typename M::mapped_type v{};
            js_key<KK>(in, k);
            if (in.st != OK) return;
            in.expect(':');
            if (in.st != OK) return;
            if (VK == BYT && in.cur() == 'n') in.bad(OPEN);
            js_value<VK>(in, v);
            if (in.st != OK) return;
            m[std::move(k)] = std::move(v);
        } while (in.take(','));
        in.expect('}');
    }
    template <typename M> void ptr(uint32_t, std::unique_ptr<M> &v, const char *n)
    {
        if (!is(n)) return;
        if (in.word("null")) { v.reset(); return; }
        if (!v) v = std::make_unique<M>();
        js_value<MSG>(in, *v);
    }
    template <Kind K, size_t I, typename V> void one(uint32_t, V &v, const char *n)
    {
        if (!is(n)) return;
        if (in.word("null")) { in.bad(OPEN); return; }
        js_value<K>(in, v.template emplace<I>());
    }
};
template <typename M> void js_message(Js &in, M &m)
{
    size_t members = in.members = 0;
    in.expect('{');
    if (in.st != OK || in.take('}')) return;
    do
    {
        std::string n = in.name();
        if (in.st != OK) return;
        in.expect(':');
        if (in.st != OK) return;
        bool found = false;
        ++members;
        fields(m, JDec{in, n, found});
        if (!found) { ++in.unknown; in.skip(); }
        if (in.st != OK) return;
    } while (in.take(','));
    in.members = members;
    in.expect('}');
}
// whole document; used: bytes up to and including the white space behind it
template <typename M> Outcome js_decode(const uint8_t *p, size_t n, M &m, size_t *used = nullptr, size_t *unknown = nullptr)
{
    Js in{p, p + n};
    in.ws();
    if (in.st == OK) js_message(in, m);
    if (used) *used = (size_t)(in.p - p);
    if (unknown) *unknown = in.unknown;
    return in.st;
}
} // namespace ref
