// P25: JSON member names.
#include <pbj.pb.h>
#include "util.h"
using namespace util;
#define INTS(X) /* member, is it stored, original name, second name (null: none), written name */ \
    X(a, opt, "a", 0, "a") X(ab, opt, "ab", 0, "ab") X(bA, opt, "bA", 0, "bA") X(abc, opt, "abc", 0, "abc") X(bAc, opt, "bAc", 0, "bAc") X(ab_d, opt, "ab_d", "abD", "ab_d") \
    X(x__y, opt, "x__y", "xY", "x__y") X(tail_, opt, "tail_", "tail", "tail_") X(a1_2b, opt, "a1_2b", "a12b", "a1_2b") X(Cap, opt, "Cap", "cap", "Cap") \
    X(MAX_SIZE, opt, "MAX_SIZE", "maxSize", "MAX_SIZE") X(keepCase_in, opt, "keepCase_in", "keepCaseIn", "keepCase_in") X(class_, opt, "class", 0, "class") X(int_, opt, "int", 0, "int") \
    X(abcd, opt, "abcd", "q", "q") X(other, opt, "other", "@id", "@id") X(sp_ace, opt, "sp_ace", "a b", "a b") X(utf_name, opt, "utf_name", "\xc3\xa9", "\xc3\xa9") \
    X(f_g, opt, "f_g", "oc", "oc") X(bit_one, bit, "bit_one", "bitOne", "bit_one") X(bit_two, bit, "bit_two", "bt", "bt") X(value, opt, "value", 0, "value") X(stream, opt, "stream", 0, "stream") \
    X(long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name, opt, \
      "long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name", "longNameLongNameLongNameLongNameLongNameLongNameLongNameLongName", \
      "long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name") \
    X(choice, one1, "one_a", "oneA", "one_a") X(choice, one2, "one_b", "oB", "oB") X(choice, one3, "default", 0, "default") X(choice, one4, "p_q", "pQ", "p_q")

constexpr int V = 7;
static bool opt(const std::optional<int32_t> &v) { return v && *v == V; }
static bool bit(int32_t v) { return v == V; }
template <size_t I> static bool one(const std::variant<std::monostate, int32_t, int32_t, int32_t, int32_t> &v) { return v.index() == I && std::get<I>(v) == V; }
static auto one1 = one<1>, one2 = one<2>, one3 = one<3>, one4 = one<4>;
struct Name { const char *a, *b, *out; };
static const Name NAMES[] = {
#define X(m, f, a, b, out) {a, b, out},
    INTS(X)
#undef X
};
constexpr size_t COUNT = sizeof NAMES / sizeof *NAMES;
// bit i: field i is stored; anything else that is set counts as well
static uint64_t stored(const pbj::Ints &m)
{
    uint64_t r = 0;
    size_t i = 0;
#define X(m_, f, a, b, out) r |= (uint64_t)f(m.m_) << i++;
    INTS(X)
#undef X
    return r;
}
static bool is(const uint8_t *p, size_t n, const char *s)
{
    if (!s || strlen(s) != n) return false;
    bool r = true;
    for (size_t i = 0; i < n; ++i) r &= p[i] == (uint8_t)s[i];
    return r;
}
static uint64_t expected(const uint8_t *p, size_t n)
{
    uint64_t r = 0;
    for (size_t i = 0; i < COUNT; ++i)
        r |= (uint64_t)(is(p, n, NAMES[i].a) | is(p, n, NAMES[i].b)) << i;
    return r;
}
static void decide(const Buf &name, const Buf &json)
{
    pbj::Ints m{};
    CHECK(json_read(m, json, symx_choose(0, symx_param("reader", 0), "reader")));
    const uint64_t s = stored(m);
    symx_observe(s);
    CHECK(s == expected(name.b, name.n));
    if (s) symx_reach("declared");
    else symx_reach("unknown");
}
static void plain(uint8_t c) { symx_assume((c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\')); }
static void member(Buf &b, const Buf &name)
{
    text(b, "{\"");
    b.bytes(name.b, name.n);
    text(b, "\":7}");
}
// every name of n characters
SYMX_TEST(any)
{
    const size_t n = symx_choose(symx_param("min", 0), symx_param("max", 3), "length");
    uint8_t v[16];
    if (n) symx_make_symbolic(v, n, "name");
    for (size_t i = 0; i < n; ++i) plain(v[i]);
    Buf name, json;
    name.bytes(v, n);
    member(json, name);
    decide(name, json);
}
// every declared name, and everything one edit away from it
SYMX_TEST(edited)
{
    const size_t i = symx_choose(symx_param("lo", 0), symx_param("hi", COUNT - 1), "field");
    const char *s = symx_bool("second") ? NAMES[i].b : NAMES[i].a;
    if (!s) symx_stop();
    const size_t n = strlen(s), at = symx_choose(0, n, "place");
    const size_t op = symx_choose(symx_param("elo", 0), symx_param("ehi", 5), "edit");
    Buf name, json;
    text(json, "{\"");
    for (size_t k = 0; k <= n; ++k)
    {
        auto put = [&](uint8_t c) { name.byte(c); json.byte(c); };
        if (k == at && op == 0) { uint8_t c = symx_any<uint8_t>("char"); plain(c); put(c); continue; }      // replaced
        if (k == at && op == 1) { uint8_t c = symx_any<uint8_t>("char"); plain(c); put(c); }                // inserted
        if (k == at && op == 2) continue;                                                                   // removed
        if (k == at && op == 3) break;                                                                      // cut off
        if (k == at && op == 4) { json_piece(json, name, symx_choose(symx_param("klo", 1), symx_param("khi", 3), "kind")); k += k < n && (uint8_t)s[k] >= 0xc2; continue; }            // replaced by an escape or a longer character
        if (k == at && op == 5 && k + 1 < n) { put((uint8_t)s[k + 1]); put((uint8_t)s[k]); ++k; continue; } // exchanged
        if (k < n) put((uint8_t)s[k]);
    }
    text(json, "\":7}");
    decide(name, json);
}
// a declared name written with escapes is the same name
SYMX_TEST(escaped)
{
    const size_t i = symx_choose(symx_param("lo", 0), symx_param("hi", COUNT - 1), "field");
    const char *s = symx_bool("second") ? NAMES[i].b : NAMES[i].a;
    if (!s) symx_stop();
    const size_t n = strlen(s), at = symx_choose(0, n - 1, "place");
    if ((uint8_t)s[at] >= 0x80) symx_stop();
    Buf name, json;
    text(name, s);
    text(json, "{\"");
    json.bytes((const uint8_t *)s, at);
    const bool upper = symx_bool("upper");
    auto hex = [&](uint32_t x) { json.byte((uint8_t)(x < 10 ? '0' + x : (upper ? 'A' : 'a') + x - 10)); };
    text(json, "\\u00");
    hex((uint8_t)s[at] >> 4);
    hex((uint8_t)s[at] & 15);
    json.bytes((const uint8_t *)s + at + 1, n - at - 1);
    text(json, "\":7}");
    decide(name, json);
}
// two members: neither disturbs the other
SYMX_TEST(pairs)
{
    const size_t i = symx_choose(0, COUNT - 1, "first"), j = symx_choose(0, COUNT - 1, "second");
    const char *s = symx_bool("name of first") ? NAMES[i].b : NAMES[i].a, *t = NAMES[j].a;
    if (!s) symx_stop();
    Buf json;
    json.byte('{');
    key(json, s);
    text(json, "7,");
    key(json, t);
    text(json, "7}");
    pbj::Ints m{};
    CHECK(json_read(m, json));
    const bool oneof_both = i >= COUNT - 4 && j >= COUNT - 4;
    CHECK(stored(m) == ((oneof_both ? 0 : (uint64_t)1 << i) | (uint64_t)1 << j));
    symx_reach("pair");
}
static bool contains(const std::string &s, const char *name)
{
    Buf b;
    key(b, name);
    b.byte('7');
    for (size_t i = 0; i + b.n <= s.size(); ++i)
        if ((s[i + b.n] == ',' || s[i + b.n] == '}') && memcmp(s.data() + i, b.b, b.n) == 0) return true;
    return false;
}
// any set of fields: the members written are exactly theirs
SYMX_TEST(written)
{
    const size_t i = symx_choose(0, COUNT - 1, "field"), j = symx_choose(0, COUNT - 1, "other");
    pbj::Ints m{};
    size_t n = 0;
    for (size_t k : {i, j})
    {
        n = 0;
        auto set = [&](auto &x) { if (n++ == k) x = V; };
        set(m.a); set(m.ab); set(m.bA); set(m.abc); set(m.bAc); set(m.ab_d); set(m.x__y); set(m.tail_); set(m.a1_2b); set(m.Cap); set(m.MAX_SIZE); set(m.keepCase_in);
        set(m.class_); set(m.int_); set(m.abcd); set(m.other); set(m.sp_ace); set(m.utf_name); set(m.f_g);
        if (n++ == k) m.bit_one = V;
        if (n++ == k) m.bit_two = V;
        set(m.value); set(m.stream); set(m.long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name);
        if (n++ == k) m.choice.emplace<1>(V);
        if (n++ == k) m.choice.emplace<2>(V);
        if (n++ == k) m.choice.emplace<3>(V);
        if (n++ == k) m.choice.emplace<4>(V);
    }
    std::string out;
    CHECK(json_write(m, out));
    for (size_t k = 0; k < COUNT; ++k)
    {
        const bool lost = i >= COUNT - 4 && j >= COUNT - 4 && k == i && k != j;
        CHECK(contains(out, NAMES[k].out) == ((k == i || k == j) && !lost));
    }
    symx_reach("written");
}
// members of every kind: name, and the value that must be understood
struct Kind { const char *a, *b, *out, *value; };
static const Kind KINDS[] = {
    {"re_pi", "rePi", "re_pi", "[7]"}, {"re_pj", "RPJ", "RPJ", "[7]"}, {"st_r", "stR", "st_r", "\"x\""}, {"by_t", "raw", "raw", "\"eA==\""}, {"bo_o", "boO", "bo_o", "true"},
    {"do_u", "doU", "do_u", "2"}, {"en_u", "kind", "kind", "\"ONE\""}, {"ms_g", "msG", "ms_g", "{\"v\":7}"}, {"ms_r", "list", "list", "[{\"v\":7}]"}, {"ma_p", "maP", "ma_p", "{\"k\":7}"},
    {"ma_q", "dict", "dict", "{\"7\":\"x\"}"}, {"on_s", "onS", "on_s", "\"x\""}, {"on_b", "oneRaw", "oneRaw", "\"eA==\""}, {"on_m", "onM", "on_m", "{\"v\":7}"}, {"on_e", "oneKind", "oneKind", "\"ONE\""},
    {"on_o", "onO", "on_o", "true"}, {"rq_s", "rqS", "rq_s", "\"x\""}, {"rq_u", "big", "big", "7"}, {"re_c", "reC", "re_c", "{\"stR\":\"x\"}"}, {"st_q", "stQ", "st_q", "[\"x\"]"}};
static uint32_t stored(const pbj::Kinds &m)
{
    auto x = [](auto &s) { return s.size() == 1 && (uint8_t)s[0] == 'x'; };
    const bool s[] = {m.re_pi.size() == 1 && m.re_pi[0] == 7, m.re_pj.size() == 1 && m.re_pj[0] == 7, m.st_r && x(*m.st_r), m.by_t && x(*m.by_t), m.bo_o && *m.bo_o, m.do_u.has_value(),
        m.en_u == pbj::E::ONE, m.ms_g && m.ms_g->v == 7, m.ms_r.size() == 1 && m.ms_r[0].v == 7, m.ma_p.size() == 1 && m.ma_p.count("k"), m.ma_q.size() == 1 && m.ma_q.count(7) && x(m.ma_q.at(7)),
        m.x_y.index() == 1 && x(std::get<1>(m.x_y)), m.x_y.index() == 2 && x(std::get<2>(m.x_y)), m.x_y.index() == 3 && std::get<3>(m.x_y).v == 7, m.x_y.index() == 4 && std::get<4>(m.x_y) == pbj::E::ONE,
        m.x_y.index() == 5 && std::get<5>(m.x_y), x(m.rq_s), m.rq_u == 7, m.re_c && m.re_c->st_r, m.st_q.size() == 1 && x(m.st_q[0])};
    uint32_t r = 0;
    for (size_t i = 0; i < sizeof s; ++i) r |= (uint32_t)s[i] << i;
    return r;
}
// a member of every kind under each of its names, or a name one character away
SYMX_TEST(kinds)
{
    const size_t i = symx_choose(0, sizeof KINDS / sizeof *KINDS - 1, "field");
    const bool second = symx_bool("second");
    const char *s = second ? KINDS[i].b : KINDS[i].a;
    const size_t n = strlen(s), at = symx_choose(0, n, "place");
    Buf json;
    text(json, "{\"");
    json.bytes((const uint8_t *)s, at);
    bool same = true;
    if (at < n)
    {
        const uint8_t c = symx_any<uint8_t>("char");
        plain(c);
        json.byte(c);
        same = c == (uint8_t)s[at];
        Buf name;
        name.bytes((const uint8_t *)s, at);
        name.byte(c);
        name.bytes((const uint8_t *)s + at + 1, n - at - 1);
        bool other = false;
        for (size_t k = 0; k < sizeof KINDS / sizeof *KINDS; ++k)
            if (k != i) other |= is(name.b, name.n, KINDS[k].a) | is(name.b, name.n, KINDS[k].b);
        if (other) symx_stop(); // see pairs
        json.bytes((const uint8_t *)s + at + 1, n - at - 1);
    }
    text(json, "\":");
    text(json, KINDS[i].value);
    json.byte('}');
    pbj::Kinds m{};
    CHECK(json_read(m, json, symx_choose(0, symx_param("reader", 0), "reader")));
    CHECK(stored(m) == (same ? (uint32_t)1 << i : 0));
    if (!same) { symx_reach("unknown"); return; }
    symx_reach("declared");
    std::string out;
    CHECK(json_write(m, out));
    Buf name;
    text(name, "\"");
    text(name, KINDS[i].out);
    text(name, "\":");
    bool found = false;
    for (size_t k = 0; k + name.n <= out.size(); ++k) found |= memcmp(out.data() + k, name.b, name.n) == 0;
    CHECK(found);
}
// messages with one field or none
SYMX_TEST(small)
{
    const size_t n = symx_choose(0, symx_param("max", 4), "length");
    uint8_t v[16];
    if (n) symx_make_symbolic(v, n, "name");
    for (size_t i = 0; i < n; ++i) plain(v[i]);
    Buf json;
    text(json, "{\"");
    json.bytes(v, n);
    text(json, "\":7}");
    switch (symx_choose(0, 1, "message"))
    {
    case 0:
    {
        pbj::Lone m{};
        CHECK(json_read(m, json));
        CHECK((m.lone == 7) == (is(v, n, "l") | is(v, n, "lone")));
        break;
    }
    case 1:
    {
        pbj::None m{};
        CHECK(json_read(m, json));
        break;
    }
    }
    symx_reach("small");
}

// messages of members of one kind: the name is shorter or longer than all others
SYMX_TEST(extent)
{
    static const char *const names[2][6] = {{"mid_a", "q", "mid_b", "longerThanAll", 0, 0}, {"a_b_c_d_e_f", "aBCDEF", "ab_cde_fgh", "abCdeFgh", 0, 0}};
    const size_t kind = symx_choose(0, 3, "message");
    const char *s = names[kind == 3][symx_choose(0, 3, "name")];
    const size_t n = strlen(s), at = symx_choose(0, n - 1, "place");
    Buf name, json;
    name.bytes((const uint8_t *)s, at);
    const uint8_t c = symx_any<uint8_t>("char");
    plain(c);
    name.byte(c);
    name.bytes((const uint8_t *)s + at + 1, n - at - 1);
    text(json, "{\"");
    json.bytes(name.b, name.n);
    text(json, kind == 1 ? "\":{\"k\":7}}" : "\":7}");
    bool a = false, b = false;
    const int reader = symx_choose(0, symx_param("reader", 0), "reader");
    auto read = [&](auto m, auto fa, auto fb) { CHECK(json_read(m, json, reader)); a = fa(m); b = fb(m); };
    switch (kind)
    {
    case 0: read(pbj::OneofNames{}, [](auto &m) { return m.o.index() == 1; }, [](auto &m) { return m.o.index() == 2; }); break;
    case 1: read(pbj::MapNames{}, [](auto &m) { return m.mid_a.size() == 1; }, [](auto &m) { return m.mid_b.size() == 1; }); break;
    case 2: read(pbj::FieldNames{}, [](auto &m) { return m.mid_a.has_value(); }, [](auto &m) { return m.mid_b.has_value(); }); break;
    case 3: read(pbj::Camel{}, [](auto &m) { return m.o.index() == 1; }, [](auto &m) { return m.o.index() == 2; }); break;
    }
    const auto &k = names[kind == 3];
    CHECK(a == (is(name.b, name.n, k[0]) | is(name.b, name.n, k[1])));
    CHECK(b == (is(name.b, name.n, k[2]) | is(name.b, name.n, k[3])));
    symx_reach(a || b ? "declared" : "unknown");
}
