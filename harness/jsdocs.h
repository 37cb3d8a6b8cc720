// JSON documents with symbolic parts for the messages of proto/pbk.proto; each is handed to decide<M>(bytes, size).
#pragma once
#ifndef FOCUS
#define FOCUS(x) (void)(x)
#endif
template <typename F> static void with_type(size_t t, F f)
{
    switch (t)
    {
    case 0: f.template operator()<pbk::Sub>(); break;
    case 1: f.template operator()<pbk::Opt>(); break;
    case 2: f.template operator()<pbk::Rep>(); break;
    case 3: f.template operator()<pbk::Maps>(); break;
    case 4: f.template operator()<pbk::One>(); break;
    case 5: f.template operator()<pbk::Req>(); break;
    case 6: f.template operator()<pbk::Rec>(); break;
    case 7: f.template operator()<pbk::Holder>(); break;
    }
}
static void text(Buf &b, const char *s) { b.bytes(s, strlen(s)); }
static void symbols(Buf &b, size_t n, const char *name)
{
    uint8_t v[16];
    if (n) symx_make_symbolic(v, n, name);
    b.bytes(v, n);
}
// every byte string, and every object with that content
SYMX_TEST(raw)
{
    const size_t t = symx_choose(symx_param("tlo", 0), symx_param("thi", 7), "type");
    const size_t n = symx_choose(0, symx_param("max", 3), "n");
    Buf b;
    if (symx_bool("object")) { text(b, "{"); symbols(b, n, "bytes"); text(b, "}"); }
    else symbols(b, n, "bytes");
    with_type(t, [&]<typename M>() { decide<M>(b.b, b.n); });
}
// ---- one field with a symbolic value -------------------------------------------------------
struct Context { const char *before, *after; };
static const Context *contexts(Kind k, size_t &n)
{
    static const Context i32[] = {{"", ""}, {"\"", "\""}, {"2147483", ""}, {"-2147483", ""}, {"\"-214748364", "\""}, {"00", ""}};
    static const Context i64[] = {{"", ""}, {"\"", "\""}, {"922337203685477", ""}, {"-922337203685477", ""}, {"\"922337203685477580", "\""}};
    static const Context u32[] = {{"", ""}, {"\"", "\""}, {"4294967", ""}, {"\"429496729", "\""}, {"-", ""}};
    static const Context u64[] = {{"", ""}, {"\"", "\""}, {"18446744073709551", ""}, {"\"1844674407370955161", "\""}, {"-", ""}};
    static const Context flt[] = {{"", ""}, {"\"", "\""}, {"1.", ""}, {"2e", ""}, {"-0", ""}, {"\"In", "nity\""}};
    static const Context boo[] = {{"", ""}, {"tru", ""}, {"fals", ""}, {"true", ""}, {"\"", "\""}};
    static const Context str[] = {{"", ""}, {"\"", "\""}, {"\"\\", "\""}, {"\"\\u", "\""}, {"\"a\\n\xc3", "\""}, {"\"\xf0\x9f", "\""}};
    static const Context byt[] = {{"", ""}, {"\"", "\""}, {"\"Q", "\""}, {"\"QUJDR", "\""}, {"\"QUJ", "RUZH\""}, {"\"QU", "=\""}};
    static const Context enu[] = {{"", ""}, {"\"", "\""}, {"\"O", "\""}, {"\"NE", "\""}, {"214748364", ""}, {"-2147483", ""}};
    static const Context msg[] = {{"", ""}, {"{", "}"}, {"{\"v\"", "}"}, {"{\"v\":1", "}"}, {"{\"s\":\"a\"", ",\"v\":1}"}};
#define CTX(a) (n = sizeof a / sizeof *a, a)
    switch (k)
    {
    case I32: case S32: case SF32: return CTX(i32);
    case I64: case S64: case SF64: return CTX(i64);
    case U32: case F32: return CTX(u32);
    case U64: case F64: return CTX(u64);
    case FLT: case DBL: return CTX(flt);
    case BOO: return CTX(boo);
    case STR: return CTX(str);
    case BYT: return CTX(byt);
    case ENU: return CTX(enu);
    default: return CTX(msg);
    }
}
struct AnyField
{
    Buf &b;
    size_t pos;
    size_t i = 0;
    void value(Kind k)
    {
        size_t n         = 0;
        const Context *c = contexts(k, n);
        c += symx_choose(0, n - 1, "context");
        text(b, c->before);
        FOCUS(b.n);
        symbols(b, symx_choose(0, symx_param("value", 2), "n"), "value");
        text(b, c->after);
    }
    bool is(const char *n)
    {
        if (i++ != pos) return false;
        text(b, "{\"");
        text(b, n);
        text(b, "\":");
        return true;
    }
    template <Kind K, typename T> void opt(uint32_t, const T &, const char *n) { if (is(n)) value(K); }
    template <Kind K, typename T> void plain(uint32_t, const T &, const char *n) { if (is(n)) value(K); }
    template <Kind K, typename T> void rep(uint32_t, const T &, bool, const char *n)
    {
        if (!is(n)) return;
        switch (symx_choose(0, 1, "array"))
        {
        case 0: text(b, "["); value(K); text(b, "]"); break;
        case 1: symbols(b, symx_choose(0, symx_param("value", 2), "n"), "value"); break;
        }
    }
    template <Kind KK, Kind VK, typename M> void map(uint32_t, const M &, const char *n)
    {
        if (!is(n)) return;
        switch (symx_choose(0, 2, "map"))
        {
        case 0:
            text(b, "{\"");
            text(b, KK == BOO ? "true" : "1");
            text(b, "\":");
            value(VK);
            text(b, "}");
            break;
        case 1:
            text(b, "{\"");
            if (KK == BOO) text(b, symx_bool("word") ? "tru" : "fals");
            else if (KK != STR && symx_bool("minus")) text(b, "-");
            symbols(b, symx_choose(0, symx_param("value", 2), "n"), "key");
            text(b, "\":");
            text(b, VK == STR || VK == BYT ? "\"\"" : VK == MSG ? "{}" : VK == BOO ? "true" : "1");
            text(b, "}");
            break;
        case 2: text(b, "{"); symbols(b, symx_choose(0, symx_param("value", 2), "n"), "value"); text(b, "}"); break;
        }
    }
    template <typename M> void ptr(uint32_t, const M &, const char *n) { if (is(n)) value(MSG); }
    template <Kind K, size_t I, typename V> void one(uint32_t, const V &, const char *n) { if (is(n)) value(K); }
};
template <typename M> static void field()
{
    static M m;
    const size_t pos = symx_choose(symx_param("lo", 0), symx_param("hi", field_count<M>() - 1), "field");
    Buf b;
    fields(m, AnyField{b, pos});
    text(b, "}");
    decide<M>(b.b, b.n);
}
SYMX_TEST(field_opt) { field<pbk::Opt>(); }
SYMX_TEST(field_rep) { field<pbk::Rep>(); }
SYMX_TEST(field_maps) { field<pbk::Maps>(); }
SYMX_TEST(field_one) { field<pbk::One>(); }
SYMX_TEST(field_req) { field<pbk::Req>(); }
SYMX_TEST(field_rec) { field<pbk::Rec>(); }
// ---- documents with one thing changed ------------------------------------------------------
static const struct Doc { size_t type; const char *text; } docs[] = {
    {0, "{\"v\":-12,\"s\":\"a\\\"b\"}"},
    {0, " {\t\"s\" : \"x\" ,\n \"v\" : 7 } "},
    {0, "{\"v\":\"12\",\"u\":[1,{\"a\":null}],\"s\":null}"},
    {0, "{\"vv\":{},\"\":[],\"s\":\"\",\"s\":\"y\",\"q\":-1.5e+3}"},
    {1, "{\"i32\":1,\"u64\":\"18446744073709551615\",\"bo\":true}"},
    {1, "{\"by\":\"QUJD\",\"en\":\"ONE\",\"db\":1.5e3}"},
    {1, "{\"en\":-1,\"ms\":{\"v\":1},\"st\":\"\\u00e9\\ud83d\\ude00\"}"},
    {1, "{\"fl\":\"-Infinity\",\"sf64\":-9223372036854775808,\"by\":null}"},
    {2, "{\"i32\":[1,-2],\"st\":[\"a\",\"\"],\"bo\":[true,false]}"},
    {2, "{\"ms\":[{},{\"v\":1}],\"en\":[\"ONE\",0],\"by\":[\"QQ==\",\"\"]}"},
    {3, "{\"a\":{\"1\":2,\"-3\":\"4\"},\"l\":{\"k\":{\"v\":1}}}"},
    {3, "{\"a\":{\"\\\"1\\\"\":2}}"},
    {3, "{\"g\":{\"true\":\"ONE\",\"false\":0},\"b\":{\"5\":\"QUI=\"},\"e\":{\"1\":\"x\"}}"},
    {4, "{\"xi\":1,\"xs\":\"s\",\"mid\":3}"},
    {4, "{\"xm\":{\"v\":1},\"yf\":\"12\",\"yl\":1.25}"},
    {5, "{\"i\":1,\"s\":\"a\",\"m\":{\"v\":2},\"e\":\"NEG\",\"o\":false,\"d\":2.5}"},
    {6, "{\"v\":1,\"next\":{\"v\":2,\"next\":null},\"subs\":[{\"s\":\"x\"}]}"},
    {7, "{\"a\":{},\"b\":[{},{\"x\":1}],\"c\":{\"a\":{},\"s\":{\"v\":3}}}"},
};
static void changed(size_t lo, size_t hi)
{
    const Doc &d     = docs[symx_choose(lo, hi, "document")];
    const size_t len = strlen(d.text);
    const size_t op  = symx_choose(0, symx_param("ops", 3), "change");
    const size_t at  = symx_choose(0, op == 2 || op == 1 ? len : len - 1, "at");
    Buf b;
    b.bytes(d.text, at);
    FOCUS(at);
    size_t rest = at;
    switch (op)
    {
    case 0: symbols(b, 1, "byte"); rest += 1; break;
    case 1: symbols(b, 1, "byte"); break;
    case 2: rest = len; break;
    case 3: rest += 1; break;
    case 4: symbols(b, 2, "bytes"); rest += len - at < 2 ? 1 : 2; break;
    case 5: symbols(b, 2, "bytes"); break;
    case 6: symbols(b, 1, "byte"); rest += len - at < 2 ? 1 : 2; break; // two become one
    case 7: // two members or elements exchanged in place, their bytes untouched
        b.bytes(d.text + at, 1);
        b.bytes(d.text + at, 1);
        rest += 1;
        break;
    }
    b.bytes(d.text + rest, len - rest);
    with_type(d.type, [&]<typename M>() { decide<M>(b.b, b.n); });
}
SYMX_TEST(changed_a) { changed(0, 3); }
SYMX_TEST(changed_b) { changed(4, 7); }
SYMX_TEST(changed_c) { changed(8, 12); }
SYMX_TEST(changed_d) { changed(13, 17); }
// ---- escapes: every pair of \u escapes, every white space ----------------------------------
SYMX_TEST(escapes)
{
    Buf b;
    text(b, "{\"s\":\"");
    const size_t count = symx_choose(1, 2, "count");
    for (size_t n = count; n; --n)
    {
        // quick: pairs around the limits of the surrogates
        static const char edges[] = "d7d8dbdcdfe0";
        FOCUS(b.n);
        uint8_t d[4];
        if (count == 2 && !symx_param("full", 0))
        {
            const size_t x = symx_choose(0, 5, "high");
            d[0] = (uint8_t)edges[2 * x], d[1] = (uint8_t)edges[2 * x + 1];
            if (x == 1) d[0] = 'D';
            symx_make_symbolic(d + 2, 2, "digits");
        }
        else symx_make_symbolic(d, 4, "digits");
        for (uint8_t x : d) symx_assume(((x >= '0') & (x <= '9')) | ((x >= 'a') & (x <= 'f')) | ((x >= 'A') & (x <= 'F')));
        text(b, "\\u");
        b.bytes(d, 4);
    }
    text(b, "\"}");
    decide<pbk::Sub>(b.b, b.n);
}
SYMX_TEST(spaces)
{
    // any white space between any two tokens
    static const char *const tokens[] = {"", "{", "\"i32\"", ":", "[", "1", ",", "-2", "]", ",", "\"st\"", ":", "null", ",", "\"ms\"", ":", "[", "{", "\"v\"", ":", "7", "}", "]", ",", "\"unknown\"", ":", "[", "true", ",", "{", "\"x\"", ":", "\"\"", "}", "]", "}"};
    constexpr size_t count = sizeof tokens / sizeof *tokens;
    const size_t at = symx_choose(0, count - 1, "at");
    Buf b;
    for (size_t i = 0; i < count; ++i)
    {
        text(b, tokens[i]);
        if (i != at) continue;
        FOCUS(b.n);
        uint8_t w[4];
        const size_t n = symx_choose(1, symx_param("spaces", 2), "n");
        symx_make_symbolic(w, n, "space");
        for (size_t k = 0; k < n; ++k) symx_assume((w[k] == ' ') | (w[k] == '\t') | (w[k] == '\n') | (w[k] == '\r'));
        b.bytes(w, n);
    }
    decide<pbk::Rep>(b.b, b.n);
}

// ---- contents longer than the window -------------------------------------------------------
SYMX_TEST(long_text)
{
    Buf b(2048);
    const size_t kind = symx_choose(0, 7, "kind");
    static const char *const head[] = {"{\"s\":\"", "{\"u\":\"", "{\"", "{\"u\":{\"", "{\"s\":\"", "{\"v\":", "{\"u\":", "{\"v\":\""};
    static const char *const tail[] = {"\"}", "\"}", "\":1}", "\":1}}", "\" , \"v\" : 1}", "}", "}", "\"}"};
    text(b, head[kind]);
    const size_t len = symx_choose(symx_param("from", 244), symx_param("to", 256), "len");
    const bool digit = kind >= 5;
    for (size_t i = 0; i < len; ++i) b.byte(digit ? '0' : 'a');
    switch (symx_choose(0, 3, "what"))
    {
    case 0: symbols(b, 1, "c"); break;
    case 1: text(b, "\\"); symbols(b, 1, "c"); break;
    case 2: text(b, "\\u00"); symbols(b, 1, "c"); text(b, "1"); break;
    case 3: text(b, "\\ud83d\\ude0"); symbols(b, 1, "c"); break;
    }
    for (size_t i = symx_param("more", 0); i; --i) b.byte('b');
    text(b, tail[kind]);
    decide<pbk::Sub>(b.b, b.n);
}
SYMX_TEST(long_base64)
{
    Buf b(2048);
    text(b, "{\"by\":\"");
    const size_t len = symx_choose(symx_param("from", 242), symx_param("to", 258), "len");
    for (size_t i = 0; i < len; ++i) b.byte("QUJD"[i % 4]);
    symbols(b, symx_choose(0, 1, "n"), "c");
    switch (symx_choose(0, 3, "end"))
    {
    case 1: text(b, "="); break;
    case 2: text(b, "=="); break;
    case 3: text(b, "QUJD"); break;
    }
    text(b, "\"}");
    decide<pbk::Opt>(b.b, b.n);
}
// white space of any length between tokens
SYMX_TEST(long_space)
{
    static const char *const tokens[] = {"", "{", "\"v\"", ":", "12", ",", "\"s\"", ":", "null", ",", "\"u\"", ":", "[", "1", ",", "{", "}", "]", "}"};
    constexpr size_t count = sizeof tokens / sizeof *tokens;
    const size_t at = symx_choose(0, count - 1, "at");
    Buf b(2048);
    for (size_t i = 0; i < count; ++i)
    {
        text(b, tokens[i]);
        if (i == at) for (size_t k = symx_choose(symx_param("from", 236), symx_param("to", 260), "n"); k; --k) b.byte(k & 1 ? ' ' : '\n');
    }
    decide<pbk::Sub>(b.b, b.n);
}
