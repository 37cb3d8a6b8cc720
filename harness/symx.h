// Interface between a harness and the symbolic executor (IR mode), or the
// replay runner (native mode, -DSYMX_NATIVE): the same source is used for both.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
void symx_make_symbolic(void *p, size_t n, const char *name);
void symx_assume(bool c);
void symx_assert(bool c, const char *msg);
[[noreturn]] void symx_fail(const char *msg);
[[noreturn]] void symx_stop();
void symx_reach(const char *label);
void symx_observe(uint64_t v);
uint64_t symx_param(const char *name, uint64_t dflt);
uint64_t symx_alloc_count();
uint64_t symx_live_count();
uint64_t symx_concretize(uint64_t v);
void symx_debug(const char *name, uint64_t v);
// value of n <= 20 decimal digits; returns 1 if it does not fit in 64 bits
uint64_t symx_decimal(const char *p, size_t n, uint64_t *out);
}

#define SYMX_TEST(name) extern "C" void test_##name()
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define CHECK(c) symx_assert((c), #c " (" __FILE_NAME__ ":" SYMX_STR(__LINE__) ")")
#ifndef __FILE_NAME__
#define __FILE_NAME__ __FILE__
#endif

template <typename T> T symx_any(const char *name)
{
    T v;
    symx_make_symbolic(&v, sizeof v, name);
    return v;
}
// a symbolic value of a small range, one path per value
inline size_t symx_choose(size_t lo, size_t hi, const char *name)
{
    uint8_t v = 0;
    if (lo == hi) return lo;
    symx_make_symbolic(&v, 1, name);
    symx_assume(v >= lo && v <= hi);
    return (size_t)symx_concretize(v);
}
inline bool symx_bool(const char *name)
{
    uint8_t v = 0;
    symx_make_symbolic(&v, 1, name);
    symx_assume(v <= 1);
    return v != 0;
}
