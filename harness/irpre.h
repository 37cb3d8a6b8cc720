// Force-included when a harness is compiled to IR (not in native replays):
// snprintf is replaced by a C++ model supporting the conversions the library uses.
#pragma once
#include <cstdio>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <cstdlib>

namespace symx_fmt
{
struct out
{
    char *p;
    size_t n, pos = 0;
    void put(char c) { if (pos + 1 < n) p[pos] = c; ++pos; }
};
inline void number(out &o, uint64_t v, unsigned base, int width, bool zero)
{
    char tmp[24];
    int k = 0;
    // no early exit on symbolic digits: count digits by comparisons only
    do { unsigned d = unsigned(v % base); tmp[k++] = char(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
    for (int i = k; i < width; ++i) o.put(zero ? '0' : ' ');
    while (k) o.put(tmp[--k]);
}
inline void str(out &o, const char *s) { while (*s) o.put(*s++); }
template <typename T> void one(out &o, const char *&f, T v)
{
    for (; *f; ++f)
    {
        if (*f != '%') { o.put(*f); continue; }
        ++f;
        if (*f == '%') { o.put('%'); continue; }
        bool zero = false;
        int width = 0;
        while (*f == '0') { zero = true; ++f; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') ++f;
        char c = *f++;
        if constexpr (std::is_integral_v<T>)
        {
            if (c == 'x') number(o, (uint64_t)(std::make_unsigned_t<T>)v, 16, width, zero);
            else if (c == 'u') number(o, (uint64_t)(std::make_unsigned_t<T>)v, 10, width, zero);
            else if (c == 'd' || c == 'i')
            {
                if (v < 0) { o.put('-'); number(o, 0 - (uint64_t)(int64_t)v, 10, width ? width - 1 : 0, zero); }
                else number(o, (uint64_t)v, 10, width, zero);
            }
            else if (c == 'c') o.put((char)v);
            else abort();
        }
        else if constexpr (std::is_convertible_v<T, const char *>) str(o, v);
        else abort();
        return;
    }
    abort();
}
} // namespace symx_fmt
template <typename... A> int symx_snprintf(char *p, size_t n, const char *f, A... a)
{
    symx_fmt::out o{p, n};
    (symx_fmt::one(o, f, a), ...);
    for (; *f; ++f) { if (*f == '%') ++f; o.put(*f); }
    if (n) p[o.pos < n ? o.pos : n - 1] = 0;
    return (int)o.pos;
}
namespace std { using ::symx_snprintf; }
#define snprintf symx_snprintf

// std::to_chars and std::from_chars of integers in base 10 are modelled: the
// digits of a symbolic number are fresh symbols tied to it by a constraint, so
// that no division is executed symbolically.  Other bases run the real code.
#include <charconv>
#include <concepts>
#include <limits>
#include <string>
#include <string_view>
extern "C" void symx_digits(uint64_t v, char *p, size_t n);
extern "C" uint64_t symx_concretize(uint64_t v);
extern "C" uint64_t symx_decimal(const char *p, size_t n, uint64_t *out);
namespace std
{
template <integral T> to_chars_result symx_to_chars(char *f, char *l, T v, int base = 10)
{
    if (base != 10) return to_chars(f, l, v, base);
    uint64_t u = (uint64_t)v;
    if constexpr (is_signed_v<T>)
    {
        u = (uint64_t)(int64_t)v;
        if (symx_concretize(v < 0))
        {
            if (f == l) return {l, errc::value_too_large};
            *f++ = '-';
            u    = 0 - u;
        }
    }
    size_t n = 1;
    for (uint64_t t = 10; n < 20 && u >= t; t *= 10)
    {
        ++n;
        if (n == 20) break;
    }
    n = symx_concretize(n);
    if ((size_t)(l - f) < n) return {l, errc::value_too_large};
    symx_digits(u, f, n);
    return {f + n, errc{}};
}
inline to_chars_result symx_to_chars(char *f, char *l, float v) { return to_chars(f, l, v); }
inline to_chars_result symx_to_chars(char *f, char *l, double v) { return to_chars(f, l, v); }
inline to_chars_result symx_to_chars(char *f, char *l, float v, chars_format m) { return to_chars(f, l, v, m); }
inline to_chars_result symx_to_chars(char *f, char *l, double v, chars_format m) { return to_chars(f, l, v, m); }
inline to_chars_result symx_to_chars(char *f, char *l, float v, chars_format m, int n) { return to_chars(f, l, v, m, n); }
inline to_chars_result symx_to_chars(char *f, char *l, double v, chars_format m, int n) { return to_chars(f, l, v, m, n); }
template <integral T> from_chars_result symx_from_chars(const char *f, const char *l, T &v, int base = 10)
{
    if (base != 10) return from_chars(f, l, v, base);
    const char *p = f;
    bool neg      = false;
    if constexpr (is_signed_v<T>) if (p != l && *p == '-') { neg = true; ++p; }
    const char *s = p;
    while (p != l && *p >= '0' && *p <= '9') ++p;
    if (p == s) return {f, errc::invalid_argument};
    while (s != p && *s == '0') ++s;
    uint64_t u    = 0;
    bool overflow = p - s > 20 || (s != p && symx_decimal(s, (size_t)(p - s), &u));
    uint64_t max  = (uint64_t)numeric_limits<T>::max();
    if (neg) ++max;
    if (overflow || u > max) return {p, errc::result_out_of_range};
    v = (T)(neg ? 0 - u : u);
    return {p, errc{}};
}
inline from_chars_result symx_from_chars(const char *f, const char *l, float &v, chars_format m = chars_format::general) { return from_chars(f, l, v, m); }
inline from_chars_result symx_from_chars(const char *f, const char *l, double &v, chars_format m = chars_format::general) { return from_chars(f, l, v, m); }
} // namespace std
#define to_chars symx_to_chars
#define from_chars symx_from_chars
