// P26: enums in JSON.
#include <pen.pb.h>
#include "util.h"
using namespace util;
struct Value { const char *name; int32_t number; };
static const Value E_[]   = {{"ZERO", 0}, {"ONE", 1}, {"NEG", -1}, {"BIG", 2147483647}, {"LOW", -2147483647 - 1}, {"HEX", 16}, {"OCT", 8}, {}};
static const Value A_[]   = {{"first", 0}, {"second", 1}, {"uno", 1}, {"eins", 1}, {"third", 2}, {"last", 2}, {"zero", 0}, {}};
static const Value N_[]   = {{"a", 0}, {"ab", 1}, {"bA", 2}, {"abc", 3}, {"bAc", 4}, {"abd", 5}, {"Ab", 6}, {"a_b", 7}, {"b_", 8}, {"class", 9}, {"default", 10}, {"int", 11}, {"value", 12},
                             {"stream", 13}, {"enum_value", 14}, {"L_O_N_G_L_O_N_G_L_O_N_G_L_O_N_G_L_O_N_G_L_O_N_G", 15}, {}};
static const Value U8_[]  = {{"u_none", 0}, {"u_one", 1}, {"u_top", 255}, {"u_mid", 128}, {}};
static const Value S8_[]  = {{"s_none", 0}, {"s_one", 1}, {"s_top", 127}, {"s_low", -128}, {}};
static const Value U16_[] = {{"w_none", 0}, {"w_top", 65535}, {}};
static const Value S16_[] = {{"v_none", 0}, {"v_top", 32767}, {"v_low", -32768}, {}};
static const Value J_[]   = {{"ONLY", 5}, {}};
static const Value IN_[]  = {{"X", 0}, {"Y", 7}, {"Z", -7}, {}};

#define OPT(m) [](auto &x) -> auto & { return x.m.emplace(); }, [](auto &x) { return x.m ? &*x.m : nullptr; }
#define RAW(m) [](auto &x) -> auto & { return x.m; }, [](auto &x) { return &x.m; }
#define ELM(m) [](auto &x) -> auto & { return x.m.emplace_back(); }, [](auto &x) { return x.m.size() == 1 ? &x.m[0] : nullptr; }
#define VAR(m, i) [](auto &x) -> auto & { return x.m.template emplace<i>(); }, [](auto &x) { return std::get_if<i>(&x.m); }
#define MAP(m) [](auto &x) -> auto & { return x.m["k"]; }, [](auto &x) { return x.m.size() == 1 && x.m.begin()->first == "k" ? &x.m.begin()->second : nullptr; }
// type, names, text before, text after, access
#define FIELDS(X) \
    X(pen::E, E_, "{\"e\":", "}", OPT(e)) X(pen::A, A_, "{\"a\":", "}", OPT(a)) X(pen::N, N_, "{\"n\":", "}", OPT(n)) X(pen::U8, U8_, "{\"u8\":", "}", OPT(u8)) X(pen::S8, S8_, "{\"s8\":", "}", OPT(s8)) \
    X(pen::U16, U16_, "{\"u16\":", "}", OPT(u16)) X(pen::S16, S16_, "{\"s16\":", "}", OPT(s16)) X(pen::Just, J_, "{\"j\":", "}", OPT(j)) X(pen::M::In, IN_, "{\"in\":", "}", OPT(in)) \
    X(pen::E, E_, "{\"req\":", "}", RAW(req)) X(pen::N, N_, "{\"rep\":[", "]}", ELM(rep)) X(pen::S8, S8_, "{\"pak\":[", "]}", ELM(pak)) X(pen::A, A_, "{\"map\":{\"k\":", "}}", MAP(map)) \
    X(pen::U8, U8_, "{\"ou\":", "}", VAR(one, 1)) X(pen::M::In, IN_, "{\"oi\":", "}", VAR(one, 2))
constexpr size_t COUNT = 15;

static bool is(const uint8_t *p, size_t n, const char *s)
{
    if (strlen(s) != n) return false;
    bool r = true;
    for (size_t i = 0; i < n; ++i) r &= p[i] == (uint8_t)s[i];
    return r;
}
static void plain(uint8_t c) { symx_assume((c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\')); }
template <typename T, typename G> static void read(const Value *t, const Buf &json, bool want, int64_t number, G get)
{
    pen::M m{};
    m.req = pen::E(77);
    const bool ok = json_read(m, json, symx_choose(0, symx_param("reader", 0), "reader"));
    symx_observe(ok);
    CHECK(ok == want);
    if (ok)
    {
        auto *v = get(m);
        CHECK(v && (int64_t)*v == number);
    }
    symx_reach(ok ? "accepted" : "rejected");
}
// every 64-bit number
template <typename T, typename S, typename G> static void number_case(const Value *t, const char *before, const char *after, S, G get)
{
    const bool sgn   = symx_bool("signed");
    const uint64_t v = symx_any<uint64_t>("v");
    if (!sgn || (int64_t)v >= 0) symx_assume(!(sgn && (int64_t)v >= 0));
    char d[24];
    const size_t n = (size_t)((sgn ? std::to_chars(d, d + 24, (int64_t)v) : std::to_chars(d, d + 24, v)).ptr - d);
    bool want = false;
    for (; t->name; ++t) want |= sgn ? (int64_t)v == t->number : t->number >= 0 && v == (uint64_t)t->number;
    Buf b;
    text(b, before);
    b.bytes(d, n);
    text(b, after);
    read<T>(t, b, want, (int64_t)v, get);
}
// a name: every text of n characters, or one edit away from a declared one
template <typename T, typename S, typename G> static void name_case(const Value *t, const char *before, const char *after, S, G get, bool edited)
{
    Buf b, name;
    text(b, before);
    b.byte('"');
    if (!edited)
    {
        const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 3), "length");
        uint8_t v[16];
        if (n) symx_make_symbolic(v, n, "name");
        for (size_t i = 0; i < n; ++i) plain(v[i]);
        b.bytes(v, n);
        name.bytes(v, n);
    }
    else
    {
        size_t count = 0;
        while (t[count].name) ++count;
        const char *s = t[symx_choose(0, count - 1, "value")].name;
        const size_t n = strlen(s), at = symx_choose(0, n < symx_param("places", 12) ? n : symx_param("places", 12), "place"), op = symx_choose(0, 4, "edit");
        for (size_t k = 0; k <= n; ++k)
        {
            auto put = [&](uint8_t c) { name.byte(c); b.byte(c); };
            if (k == at && op == 0) { uint8_t c = symx_any<uint8_t>("char"); plain(c); put(c); continue; }
            if (k == at && op == 1) { uint8_t c = symx_any<uint8_t>("char"); plain(c); put(c); }
            if (k == at && op == 2) continue;
            if (k == at && op == 3) break;
            if (k == at && op == 4) { json_piece(b, name, symx_choose(1, 2, "kind")); continue; }
            if (k < n) put((uint8_t)s[k]);
        }
    }
    b.byte('"');
    text(b, after);
    bool want = false;
    int64_t number = 0;
    for (; t->name; ++t)
    {
        const bool eq = is(name.b, name.n, t->name);
        if (eq) number = t->number, want = true;
    }
    read<T>(t, b, want, number, get);
}
// other kinds of values are rejected
template <typename T, typename S, typename G> static void other_case(const Value *t, const char *before, const char *after, S, G)
{
    static const char *const bad[] = {"true", "false", "{}", "[]", "{\"ZERO\":0}", "[0]", "0x0", "-", "", "ZERO", "first", "'a'", "1 0", "0,0", "\"a\"\"b\"", "\"", "nul", "- 1", "+1"};
    const size_t n = sizeof bad / sizeof *bad;
    size_t count = 0;
    while (t[count].name) ++count;
    const size_t i = symx_choose(0, n + count - 1, "text");
    const bool list = after[0] == ']' && i < n && (bad[i][0] == 0 || strcmp(bad[i], "0,0") == 0);
    if (list) symx_stop();
    Buf b;
    text(b, before);
    if (i < n) text(b, bad[i]);
    else // a declared number in quotes is not a name
    {
        char d[16];
        b.byte('"');
        b.bytes(d, (size_t)(std::to_chars(d, d + 16, t[i - n].number).ptr - d));
        b.byte('"');
    }
    text(b, after);
    pen::M m{};
    CHECK(!json_read(m, b, symx_choose(0, symx_param("reader", 0), "reader")));
    symx_reach("rejected");
}
template <typename T, typename S, typename G> static void write_case(const Value *t, const char *before, const char *after, S set, G get)
{
    using U = std::underlying_type_t<T>;
    const U v = symx_any<U>("v");
    pen::M m{};
    set(m) = T(v);
    const Value *first = nullptr;
    for (const Value *x = t; x->name && !first; ++x)
        if ((int64_t)v == x->number) first = x;
    std::string out;
    const bool ok = json_write(m, out);
    symx_observe(ok);
    CHECK(ok == (first != nullptr));
    if (ok)
    {
        Buf b;
        text(b, before + 1);
        b.byte('"');
        text(b, first->name);
        b.byte('"');
        bool found = false;
        for (size_t k = 0; k + b.n < out.size(); ++k) found |= memcmp(out.data() + k, b.b, b.n) == 0;
        CHECK(found);
        pen::M r{};
        Buf o;
        o.bytes(out.data(), out.size());
        CHECK(json_read(r, o));
        auto *x = get(r);
        CHECK(x && *x == T(v));
    }
    symx_reach(ok ? "written" : "undeclared");
}
#define TEST(test, call) \
    SYMX_TEST(test) { switch (symx_choose(symx_param("lo", 0), symx_param("hi", COUNT - 1), "field")) { FIELDS(X) default: symx_stop(); } }
enum { b1 = __COUNTER__ };
#define X(T, ...) case __COUNTER__ - b1 - 1: number_case<T>(__VA_ARGS__); break;
TEST(numbers, )
#undef X
enum { b2 = __COUNTER__ };
#define X(T, ...) case __COUNTER__ - b2 - 1: name_case<T>(__VA_ARGS__, false); break;
TEST(names, )
#undef X
enum { b3 = __COUNTER__ };
#define X(T, ...) case __COUNTER__ - b3 - 1: name_case<T>(__VA_ARGS__, true); break;
TEST(edited, )
#undef X
enum { b4 = __COUNTER__ };
#define X(T, ...) case __COUNTER__ - b4 - 1: other_case<T>(__VA_ARGS__); break;
TEST(others, )
#undef X
enum { b5 = __COUNTER__ };
#define X(T, ...) case __COUNTER__ - b5 - 1: write_case<T>(__VA_ARGS__); break;
TEST(write, )
#undef X
