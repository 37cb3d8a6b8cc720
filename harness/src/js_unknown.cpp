// P21: unknown members are ignored whatever their value: the same document
// with and without the member decodes to the same message.
#include "pbtab.h"
#include "jsref.h"
#include <spb/json.hpp>
#include <stdexcept>
using namespace ref;

static void text(Buf &b, const char *s) { b.bytes(s, strlen(s)); }
static void symbols(Buf &b, size_t n, const char *name)
{
    uint8_t v[64];
    if (n) symx_make_symbolic(v, n, name);
    b.bytes(v, n);
}
// a symbolic string token: printable characters and escapes
static void any_string(Buf &b, size_t n, const char *name)
{
    text(b, "\"");
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t c = symx_any<uint8_t>(name);
        switch (symx_choose(0, 2, "char"))
        {
        case 0: symx_assume((c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\')); b.byte(c); break;
        case 1:
            symx_assume((c == '"') | (c == '\\') | (c == '/') | (c == 'b') | (c == 'f') | (c == 'n') | (c == 'r') | (c == 't'));
            b.byte('\\');
            b.byte(c);
            break;
        case 2:
            symx_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
            text(b, "\\u");
            b.byte('0');
            b.byte(c);
            b.byte('4');
            b.byte(c);
            break;
        }
    }
    text(b, "\"");
}
static void space(Buf &b)
{
    uint8_t c = symx_any<uint8_t>("space");
    symx_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'));
    b.byte(c);
}
// digits with a symbolic value
static void digits(Buf &b, size_t n, bool first)
{
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t c = symx_any<uint8_t>("digit");
        symx_assume((c >= (first && n > 1 && i == 0 ? '1' : '0')) & (c <= '9'));
        b.byte(c);
    }
}
static void any_number(Buf &b)
{
    if (symx_bool("minus")) text(b, "-");
    static const uint8_t lens[] = {1, 2, 19, 40};
    const size_t l = symx_choose(0, 3, "digits");
    if (l == 2) text(b, "999999999999999999"), digits(b, 1, false);
    else if (l == 3) { text(b, "7"); for (size_t i = 1; i < symx_param("long", 100); ++i) text(b, "0"); digits(b, 1, false); }
    else digits(b, lens[l], true);
    if (symx_bool("fraction")) { text(b, "."); digits(b, symx_choose(1, 2, "digits"), false); }
    if (symx_bool("exponent"))
    {
        text(b, symx_bool("upper") ? "E" : "e");
        switch (symx_choose(0, 2, "sign")) { case 1: text(b, "+"); break; case 2: text(b, "-"); break; }
        digits(b, symx_choose(1, symx_param("exp", 3), "digits"), false);
    }
}
static void any_value(Buf &b, size_t depth)
{
    switch (symx_choose(0, depth ? 6 : 4, "value"))
    {
    case 0: text(b, "null"); break;
    case 1: text(b, "true"); break;
    case 2: text(b, "false"); break;
    case 3: any_string(b, symx_choose(0, symx_param("str", 1), "n"), "c"); break;
    case 4: if (depth == symx_param("depth", 1) || symx_param("numbers", 0)) any_number(b); else text(b, "-1.5E+7"); break;
    case 5:
        text(b, "[");
        for (size_t i = 0, n = symx_choose(0, symx_param("elems", 2), "elements"); i < n; ++i)
        {
            if (i) text(b, ",");
            any_value(b, depth - 1);
        }
        text(b, "]");
        break;
    case 6:
        text(b, "{");
        for (size_t i = 0, n = symx_choose(0, symx_param("elems", 2), "members"); i < n; ++i)
        {
            if (i) text(b, ",");
            any_string(b, symx_choose(0, 1, "n"), "k");
            text(b, ":");
            any_value(b, depth - 1);
        }
        text(b, "}");
        break;
    }
}
template <typename M> static void compare(const Buf &with, const Buf &without)
{
    M a{}, b{};
    bool ra = true, rb = true;
    auto parse = [](M &m, const Buf &t, bool &ok) {
        uint8_t *in = new uint8_t[t.n];
        memcpy(in, t.b, t.n);
        try { ok = spb::json::deserialize(m, in, t.n) == t.n; }
        catch (const std::exception &) { ok = false; }
        delete[] in;
    };
    parse(a, with, ra);
    parse(b, without, rb);
    symx_observe(ra);
    CHECK(rb);
    CHECK(ra);
    CHECK(eq_message(a, b));
    symx_reach("ignored");
    if (symx_param("reader", 0))
    {
        M c{};
        size_t pos = 0;
        auto rd    = [&](void *d, size_t k) -> size_t {
            size_t j = k < with.n - pos ? k : with.n - pos;
            memcpy(d, with.b + pos, j);
            pos += j;
            return j;
        };
        bool rc = true;
        try { (void)spb::json::deserialize(c, rd); }
        catch (const std::exception &) { rc = false; }
        CHECK(rc);
        CHECK(eq_message(a, c));
    }
}
// whether a name is declared
struct Names
{
    const char *k; size_t n; bool &known;
    void is(const char *s) { if (strlen(s) == n && memcmp(s, k, n) == 0) known = true; }
    template <Kind K, typename T> void opt(uint32_t, const T &, const char *s) { is(s); }
    template <Kind K, typename T> void plain(uint32_t, const T &, const char *s) { is(s); }
    template <Kind K, typename T> void rep(uint32_t, const T &, bool, const char *s) { is(s); }
    template <Kind KK, Kind VK, typename T> void map(uint32_t, const T &, const char *s) { is(s); }
    template <typename T> void ptr(uint32_t, const T &, const char *s) { is(s); }
    template <Kind K, size_t I, typename V> void one(uint32_t, const V &, const char *s) { is(s); }
};
// two known members, the unknown one before, between or after
template <typename M> static void around(const char *first, const char *second, bool name = true)
{
    Buf with(1024), without(1024);
    text(with, "{");
    text(without, "{");
    text(without, first);
    text(without, ",");
    text(without, second);
    text(without, "}");
    const size_t at = symx_choose(0, 2, "position");
    for (size_t i = 0; i < 3; ++i)
    {
        if (i) text(with, ",");
        if (i == at)
        {
            if (name)
            {
                static const char *const names[] = {"\"unknown\"", "\"\"", "\"V\"", "\"xx\"", "\"a_name_longer_than_any_declared_one\"", "\"\\u0041\""};
                text(with, names[symx_choose(0, 5, "name")]);
            }
            else
            {
                // any name that differs from the known ones
                const size_t n = symx_choose(0, symx_param("name", 2), "n");
                char k[8];
                if (n) symx_make_symbolic(k, n, "name");
                M probe{};
                bool known = false;
                for (size_t c = 0; c < n; ++c) symx_assume((k[c] >= 0x20) & (k[c] != '"') & (k[c] != '\\') & (k[c] != 0x7f));
                fields(probe, Names{k, n, known});
                symx_assume(!known);
                text(with, "\"");
                with.bytes(k, n);
                text(with, "\"");
            }
            if (symx_bool("space")) space(with);
            text(with, ":");
            if (name) any_value(with, symx_param("depth", 1));
            else text(with, "[{}]");
        }
        else text(with, i < at ? (i == 0 ? first : second) : (i == 1 ? first : second));
    }
    text(with, "}");
    compare<M>(with, without);
}
SYMX_TEST(sub) { around<pbk::Sub>("\"v\":5", "\"s\":\"x\""); }
SYMX_TEST(one) { around<pbk::One>("\"xi\":5", "\"mid\":4"); }
SYMX_TEST(names_sub) { around<pbk::Sub>("\"v\":5", "\"s\":\"x\"", false); }
SYMX_TEST(names_opt) { around<pbk::Opt>("\"i32\":5", "\"st\":\"x\"", false); }
SYMX_TEST(names_maps) { around<pbk::Maps>("\"a\":{\"1\":2}", "\"l\":{\"k\":{\"v\":1}}", false); }
// inside of nested messages, elements and map values
SYMX_TEST(nested)
{
    Buf u(1024), with(1024), without(1024);
    text(u, "\"unknown\":");
    any_value(u, symx_param("depth", 1));
    const bool before = symx_bool("before");
    auto place = [&](const char *head, const char *member, const char *tail) {
        text(with, head);
        text(without, head);
        if (before) { with.append(u); if (*member) text(with, ","); }
        text(with, member);
        text(without, member);
        if (!before) { if (*member) text(with, ","); with.append(u); }
        text(with, tail);
        text(without, tail);
    };
    switch (symx_choose(0, 5, "where"))
    {
    case 0: place("{\"ms\":{", "\"v\":1", "},\"i32\":2}"); compare<pbk::Opt>(with, without); break;
    case 1: place("{\"ms\":[{", "\"v\":1", "},{}]}"); compare<pbk::Rep>(with, without); break;
    case 2: place("{\"l\":{\"k\":{", "\"s\":\"x\"", "}}}"); compare<pbk::Maps>(with, without); break;
    case 3: place("{\"xm\":{", "", "},\"yi\":3}"); compare<pbk::One>(with, without); break;
    case 4: place("{\"next\":{\"next\":{", "\"v\":2", "},\"v\":1},\"subs\":[{}]}"); compare<pbk::Rec>(with, without); break;
    case 5: place("{\"a\":{", "", "}}"); compare<pbk::Holder>(with, without); break;
    }
}

// unknown strings, names and numbers longer than the window of a reader
SYMX_TEST(window)
{
    Buf with(1024), without(64);
    text(without, "{\"v\":5,\"s\":\"x\"}");
    text(with, "{\"v\":5,");
    const size_t shape = symx_choose(0, 3, "shape"), n = symx_choose(symx_param("from", 240), symx_param("to", 262), "n");
    auto tail = [&] {
        for (size_t i = symx_choose(1, symx_param("tokens", 2), "tokens"); i > 0; --i)
        {
            const uint8_t c = symx_any<uint8_t>("c");
            symx_assume((c >= 0x20) & (c < 0x7f));
            if (symx_bool("escape"))
            {
                symx_assume((c == '"') | (c == '\\') | (c == '/') | (c == 'b') | (c == 'f') | (c == 'n') | (c == 'r') | (c == 't'));
                with.byte('\\');
            }
            else symx_assume((c != '"') & (c != '\\'));
            with.byte(c);
        }
    };
    if (shape == 0 || shape == 1) // the value or the name
    {
        text(with, shape ? "\"" : "\"unknown\":\"");
        for (size_t i = 0; i < n; ++i) with.byte('y');
        tail();
        text(with, shape ? "\":{}" : "\"");
    }
    else if (shape == 2)
    {
        text(with, "\"unknown\":[1,");
        for (size_t i = 0; i < n; ++i) with.byte(' ');
        text(with, "{\"v\":");
        any_value(with, 0);
        text(with, "}]");
    }
    else
    {
        text(with, "\"unknown\":1");
        for (size_t i = 60; i < n; ++i) with.byte('0');
        if (symx_bool("fraction")) text(with, ".25");
    }
    text(with, ",\"s\":\"x\"}");
    compare<pbk::Sub>(with, without);
}
