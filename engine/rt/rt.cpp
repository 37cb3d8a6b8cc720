// Models of library code that lives in libstdc++.so / libc.so; linked into the
// bitcode of every harness and executed symbolically like everything else.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <system_error>
#include <bits/stl_tree.h>

// ---- std::map: a plain binary search tree satisfies the contract of the
// red-black helpers (order is what matters, balance is not).
namespace std
{
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    }
    else
    {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left)
    {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    }
    else
    {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left   = nullptr;
    x->_M_right  = nullptr;
    x->_M_color  = _S_black; // only the header is red
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right  = x;
        }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else
    {
        _Rb_tree_node_base *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z)
        {
            repl(y, y->_M_right);
            y->_M_right            = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        repl(z, y);
        y->_M_left            = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    else
    {
        _Rb_tree_node_base *m = h._M_parent;
        while (m->_M_left) m = m->_M_left;
        h._M_left = m;
        m = h._M_parent;
        while (m->_M_right) m = m->_M_right;
        h._M_right = m;
    }
    return z;
}

struct symx_category : error_category
{
    const char *name() const noexcept override { return "generic"; }
    string message(int) const override { return string(); }
};
static symx_category g_cat;
inline namespace _V2
{
const error_category &generic_category() noexcept { return g_cat; }
const error_category &system_category() noexcept { return g_cat; }
}
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition &c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code &c, int v) const noexcept { return *this == c.category() && c.value() == v; }
} // namespace std

static int g_errno;
extern "C" int *__errno_location() noexcept { return &g_errno; }
extern "C" int strcmp(const char *a, const char *b) noexcept
{
    for (;; ++a, ++b)
    {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
}
extern "C" int strncmp(const char *a, const char *b, size_t n) noexcept
{
    for (; n; ++a, ++b, --n)
    {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
    return 0;
}
// ---- floating point <-> text.  std::to_chars is modelled by an injective
// textual token of the bit pattern ("1." followed by octal digits, preceded by
// '-' for negative numbers, and the library's names for non-finite values);
// std::from_chars accepts exactly JSON-like decimal syntax and returns the bit
// pattern for tokens.  What is trusted: the C++ library's guarantee that
// from_chars(to_chars(x)) == x and the set of characters to_chars emits.
#include <charconv>
namespace
{
template <typename U, int BITS, int EXP> std::to_chars_result fp_to(char *f, char *l, U bits)
{
    const U sign = U(1) << (BITS - 1);
    const U mant = (U(1) << (BITS - 1 - EXP)) - 1;
    const U expm = ((U(1) << EXP) - 1) << (BITS - 1 - EXP);
    char *p      = f;
    auto put     = [&](char c) { if (p == l) return false; *p++ = c; return true; };
    auto err     = std::to_chars_result{l, std::errc::value_too_large};
    if (bits & sign) if (!put('-')) return err;
    U mag = bits & ~sign;
    if ((mag & expm) == expm)
    {
        const char *t = (mag & mant) ? "nan" : "inf";
        for (int i = 0; i < 3; ++i) if (!put(t[i])) return err;
        return {p, std::errc()};
    }
    if (!put('1') || !put('.')) return err;
    // as long as the longest decimal text: 15 characters of a float, 24 of a double
    constexpr int digits = BITS == 32 ? 12 : 21;
    for (int i = digits - 1; i >= 0; --i)
        if (!put(char('0' + (3 * i < BITS ? (mag >> (3 * i)) & 7 : 0)))) return err;
    return {p, std::errc()};
}
// a stated precision that does not determine the number loses its low bits;
// modelled for numbers in [1, 2)
template <typename U, int BITS, int EXP> std::to_chars_result fp_to_lossy(char *f, char *l, U bits, int precision)
{
    constexpr int keep = BITS == 32 ? 9 : 17;
    const U one = BITS == 32 ? U(0x3f800000) : U(0x3ff0000000000000ULL);
    const U mant = (U(1) << (BITS - 1 - EXP)) - 1;
    if (precision < keep && (bits & ~mant) == one) bits &= ~U(255);
    return fp_to<U, BITS, EXP>(f, l, bits);
}
template <typename F, typename U, int BITS> std::from_chars_result fp_from(const char *f, const char *l, F &v, std::chars_format fmt)
{
    const char *p = f;
    bool neg      = false;
    if (p != l && *p == '-') { neg = true; ++p; }
    auto word = [&](const char *w) {
        const char *q = p;
        for (; *w; ++w, ++q) if (q == l || (*q | 32) != *w) return (const char *)nullptr;
        return q;
    };
    U bits;
    if (const char *q = word("infinity"); q || (q = word("inf")))
    {
        bits = BITS == 32 ? U(0x7f800000) : U(0x7ff0000000000000ULL);
        p = q;
    }
    else if (const char *q2 = word("nan"))
    {
        bits = BITS == 32 ? U(0x7fc00000) : U(0x7ff8000000000000ULL);
        p = q2;
    }
    else
    {
        auto isd          = [&](const char *q) { return q != l && *q >= '0' && *q <= '9'; };
        const char *start = p;
        int nd            = 0;
        while (isd(p)) ++p, ++nd;
        const char *dot = nullptr;
        if (p != l && *p == '.') { dot = p; ++p; while (isd(p)) ++p, ++nd; }
        if (!nd) return {f, std::errc::invalid_argument};
        constexpr int digits = BITS == 32 ? 12 : 21;
        if (dot == start + 1 && *start == '1' && p - dot - 1 == digits)
        {
            U mag = 0;
            for (const char *q = dot + 1; q != p; ++q) mag = (mag << 3) | U(*q - '0');
            bits = mag;
        }
        else
        {
            const char *mend = p;
            long e           = 0;
            bool scientific  = false;
            if (p != l && (*p | 32) == 'e' && (fmt & std::chars_format::scientific) != std::chars_format{})
            {
                const char *q = p + 1;
                bool eneg     = false;
                if (q != l && (*q == '+' || *q == '-')) { eneg = *q == '-'; ++q; }
                if (isd(q))
                {
                    for (; isd(q); ++q) if (e < 100000) e = e * 10 + (*q - '0');
                    if (eneg) e = -e;
                    p          = q;
                    scientific = true;
                }
            }
            if (fmt == std::chars_format::scientific && !scientific) return {f, std::errc::invalid_argument};
            // the decimal exponent of the number tells whether it is in range (exact but for the first and last decade)
            long lead = 0;
            const char *q = start;
            for (const char *d = q; d != mend && *d != '.'; ++d) ++lead;
            while (q != mend && (*q == '0' || *q == '.')) { if (*q == '0') --lead; ++q; }
            if (q != mend)
            {
                const long ten = lead - 1 + e;
                if (ten > (BITS == 32 ? 38 : 308) || ten < (BITS == 32 ? -46 : -325)) return {p, std::errc::result_out_of_range};
            }
            // some other decimal literal: a value that depends on its text
            U h = 0;
            for (const char *q = start; q != p; ++q) h = h * 31 + U((unsigned char)*q);
            bits = h & ~(BITS == 32 ? U(0xff800000) : U(0xfff0000000000000ULL));
            if (start + 1 == p && *start == '0') bits = 0;
        }
    }
    if (neg) bits |= U(1) << (BITS - 1);
    memcpy(&v, &bits, sizeof v);
    return {p, std::errc()};
}
} // namespace
namespace std
{
to_chars_result to_chars(char *f, char *l, float v) noexcept { uint32_t b; memcpy(&b, &v, 4); return fp_to<uint32_t, 32, 8>(f, l, b); }
to_chars_result to_chars(char *f, char *l, double v) noexcept { uint64_t b; memcpy(&b, &v, 8); return fp_to<uint64_t, 64, 11>(f, l, b); }
to_chars_result to_chars(char *f, char *l, float v, chars_format) noexcept { return to_chars(f, l, v); }
to_chars_result to_chars(char *f, char *l, double v, chars_format) noexcept { return to_chars(f, l, v); }
to_chars_result to_chars(char *f, char *l, float v, chars_format, int n) noexcept { uint32_t b; memcpy(&b, &v, 4); return fp_to_lossy<uint32_t, 32, 8>(f, l, b, n); }
to_chars_result to_chars(char *f, char *l, double v, chars_format, int n) noexcept { uint64_t b; memcpy(&b, &v, 8); return fp_to_lossy<uint64_t, 64, 11>(f, l, b, n); }
from_chars_result from_chars(const char *f, const char *l, float &v, chars_format m) noexcept { return fp_from<float, uint32_t, 32>(f, l, v, m); }
from_chars_result from_chars(const char *f, const char *l, double &v, chars_format m) noexcept { return fp_from<double, uint64_t, 64>(f, l, v, m); }
} // namespace std

// type information of the exceptions the executor itself throws
#include <functional>
#include <stdexcept>
#include <typeinfo>
#include <variant>
#include <optional>
__attribute__((used)) extern "C" const std::type_info *const symx_exceptions[] = {
    &typeid(std::exception), &typeid(std::bad_alloc), &typeid(std::bad_array_new_length), &typeid(std::length_error), &typeid(std::out_of_range),
    &typeid(std::invalid_argument), &typeid(std::logic_error), &typeid(std::runtime_error), &typeid(std::bad_function_call), &typeid(std::system_error)};

// ---- std::filesystem::path: only as an opaque member (never split into parts)
extern "C" void symx_path_list_ctor(void **self) asm("_ZNSt10filesystem7__cxx114path5_ListC1Ev");
extern "C" void symx_path_list_ctor(void **self) { *self = nullptr; }
extern "C" void symx_path_list_copy(void **self, void **) asm("_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_");
extern "C" void symx_path_list_copy(void **self, void **) { *self = nullptr; }
extern "C" void symx_path_list_del(void *, void *) asm("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE");
extern "C" void symx_path_list_del(void *, void *) {}

// ---- std::unordered_map/set: any hash function satisfies the contract
#include <unordered_map>
namespace std
{
size_t _Hash_bytes(const void *, size_t, size_t) { return 1; }
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n < 13 ? 13 : n; return n < 13 ? 13 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if (n_elt + n_ins <= _M_next_resize) return {false, 0};
    _M_next_resize = (n_elt + n_ins) * 2 + 13;
    return {true, _M_next_resize};
}
}
}

extern "C" char *strerror(int) noexcept { static char s[] = "error"; return s; }
