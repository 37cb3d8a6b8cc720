// Native replay runner: reads the inputs found by the solver, runs the harness
// on the real code, prints the observations.  Exit codes: 0 finished,
// 10 assertion failed, 11 assumption failed, 12 wrong inputs, 13 uncaught exception.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>

static std::vector<std::pair<std::string, std::string>> inputs;
static size_t next_input;
static std::map<std::string, uint64_t> params;
static uint64_t g_allocs, g_live;

extern "C"
{
void symx_make_symbolic(void *p, size_t n, const char *name)
{
    if (next_input >= inputs.size() || inputs[next_input].first != name || inputs[next_input].second.size() != n)
    {
        fprintf(stderr, "SYMX: replay input mismatch at %s\n", name);
        fflush(nullptr);
        _exit(12);
    }
    memcpy(p, inputs[next_input++].second.data(), n);
}
void symx_assume(bool c)
{
    if (!c) { fprintf(stderr, "SYMX: assumption failed\n"); fflush(nullptr); _exit(11); }
}
void symx_assert(bool c, const char *msg)
{
    if (!c) { fprintf(stderr, "SYMX: assertion failed: %s\n", msg); fflush(nullptr); _exit(10); }
}
void symx_fail(const char *msg) { fprintf(stderr, "SYMX: assertion failed: %s\n", msg); fflush(nullptr); _exit(10); }
void symx_stop() { printf("END\n"); fflush(nullptr); _exit(0); }
void symx_reach(const char *) {}
void symx_observe(uint64_t v) { printf("OBS %lu\n", v); }
uint64_t symx_param(const char *name, uint64_t d) { auto it = params.find(name); return it == params.end() ? d : it->second; }
uint64_t symx_alloc_count() { return g_allocs; }
uint64_t symx_live_count() { return g_live; }
uint64_t symx_concretize(uint64_t v) { return v; }
uint64_t symx_decimal(const char *p, size_t n, uint64_t *out)
{
    unsigned __int128 v = 0;
    for (size_t i = 0; i < n; ++i) v = v * 10 + (unsigned)(p[i] - '0');
    *out = (uint64_t)v;
    return (v >> 64) != 0;
}
void symx_debug(const char *n, uint64_t v) { fprintf(stderr, "%s=%lu\n", n, v); }
}
#ifdef SYMX_COUNT_ALLOC
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *malloc(size_t n) { ++g_allocs; return __libc_malloc(n); }
extern "C" void *calloc(size_t n, size_t k) { ++g_allocs; return __libc_calloc(n, k); }
void *operator new(size_t n) { ++g_live; return malloc(n ? n : 1); }
void *operator new[](size_t n) { ++g_live; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void *p) noexcept { if (p) --g_live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --g_live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --g_live; free(p); }
#endif

static std::string unhex(const char *h)
{
    std::string r;
    for (; h[0] && h[1] && h[0] != '\n'; h += 2)
    {
        char b[3] = {h[0], h[1], 0};
        r += (char)strtoul(b, nullptr, 16);
    }
    return r;
}
// usage: runner ENTRY INPUTFILE [param=value...]; input lines: name<TAB>hex
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 12; }
    static char line[1 << 20];
    while (fgets(line, sizeof line, f))
    {
        char *t = strchr(line, '\t');
        if (!t) continue;
        inputs.emplace_back(std::string(line, t - line), unhex(t + 1));
    }
    fclose(f);
    for (int i = 3; i < argc; ++i)
        if (char *e = strchr(argv[i], '='); e) params[std::string(argv[i], e - argv[i])] = strtoull(e + 1, nullptr, 0);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 12; }
    g_allocs = g_live = 0;
    alarm(60);
    try { fn(); }
    catch (const std::exception &e) { fprintf(stderr, "SYMX: uncaught exception %s: %s\n", typeid(e).name(), e.what()); fflush(nullptr); _exit(13); }
    catch (...) { fprintf(stderr, "SYMX: uncaught exception\n"); fflush(nullptr); _exit(13); }
    if (next_input != inputs.size()) { fprintf(stderr, "SYMX: unused inputs\n"); fflush(nullptr); _exit(12); }
    printf("END\n");
    return 0;
}
