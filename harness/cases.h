// Messages of proto/pbk.proto with symbolic content, each handed to decide().
#pragma once
#ifndef CASES_INIT
#define CASES_INIT (void)0
#endif
template <typename M> static void single()
{
    CASES_INIT;
    lim.str = symx_param("str", 2);
    lim.byt = symx_param("byt", 2);
    static_assert(std::is_default_constructible_v<M>);
    const size_t lo = symx_param("lo", 0), hi = symx_param("hi", field_count<M>() - 1);
    const size_t f  = symx_choose(lo, hi, "field");
    M m{};
    const size_t count = symx_choose(symx_param("cmin", 0), symx_param("cmax", 1), "count");
    set_field(m, f, count);
    decide(m);
}

SYMX_TEST(opt) { single<pbk::Opt>(); }
SYMX_TEST(rep) { single<pbk::Rep>(); }
SYMX_TEST(pack) { single<pbk::Pack>(); }
SYMX_TEST(maps) { single<pbk::Maps>(); }
SYMX_TEST(one) { single<pbk::One>(); }
SYMX_TEST(rec) { lim.small = symx_param("small", 0); single<pbk::Rec>(); }
SYMX_TEST(holder)
{
    CASES_INIT;
    lim.small = symx_param("small", 0);
    pbk::Holder m;
    if (symx_bool("a")) m.a.emplace();
    for (size_t n = symx_choose(0, 2, "count"); n; --n) m.b.emplace_back();
    if (symx_bool("c")) { m.c.emplace(); any_message(*m.c, "c"); }
    lim.str = 1;
    decide(m);
}
// fields without presence: the zero values are left out or written, but never confused
SYMX_TEST(req)
{
    CASES_INIT;
    lim.str = lim.byt = 1;
    pbk::Req m{};
    any_value<BOO>(m.o, "o");
    switch (symx_choose(0, 5, "field"))
    {
    case 0: any_value<I32>(m.i, "i"); break;
    case 1: any_value<STR>(m.s, "s"); break;
    case 2: any_value<BYT>(m.b, "b"); break;
    case 3: any_value<MSG>(m.m, "m"); break;
    case 4: any_value<ENU>(m.e, "e"); break;
    case 5: any_value<DBL>(m.d, "d"); break;
    }
    decide(m);
}
// several fields at once: presence is symbolic, both oneofs and the neighbours are independent
SYMX_TEST(mix)
{
    CASES_INIT;
    lim.str = lim.byt = 1;
    pbk::One m{};
    switch (symx_choose(0, 4, "x"))
    {
    case 1: m.x.emplace<1>(symx_any<int8_t>("v")); break;
    case 2: m.x.emplace<2>(); break;
    case 3: m.x.emplace<3>(); if (symx_bool("has")) { std::get<3>(m.x).v = symx_any<int8_t>("v"); } break;
    case 4: m.x.emplace<4>(symx_bool("v")); break;
    }
    if (symx_bool("mid")) m.mid = symx_any<uint8_t>("v");
    switch (symx_choose(0, 6, "y"))
    {
    case 1: m.y.emplace<1>(symx_choose(0, 1, "n")); break;
    case 2: any_value<ENU>(m.y.emplace<2>(), "v"); break;
    case 3: m.y.emplace<3>(symx_any<uint64_t>("v")); break;
    case 4: m.y.emplace<4>(symx_any<int8_t>("v")); break;
    case 5: m.y.emplace<5>(); break;
    case 6: { float f; symx_make_symbolic(&f, 4, "v"); m.y.emplace<6>(f); break; }
    }
    decide(m);
}
SYMX_TEST(mixopt)
{
    CASES_INIT;
    lim.small = symx_param("small", 0);
    pbk::Opt m{};
    if (symx_bool("a")) any_value<I32>(m.i32.emplace(), "v");
    if (symx_bool("b")) m.bo = symx_bool("v");
    if (symx_bool("c")) { m.st.emplace(); }
    if (symx_bool("d")) { m.fl.emplace(); symx_make_symbolic(&*m.fl, 4, "v"); }
    if (symx_bool("e")) { m.ms.emplace(); }
    if (symx_bool("f")) any_value<SF64>(m.sf64.emplace(), "v");
    if (symx_bool("g")) m.en = pbk::E(-1);
    decide(m);
}
// nested length prefixes crossing the one byte boundary
SYMX_TEST(length)
{
    CASES_INIT;
    pbk::Rec m{};
    m.next       = std::make_unique<pbk::Rec>();
    const size_t n = symx_choose(symx_param("from", 119), symx_param("to", 131), "n");
    auto &sub = m.next->subs.emplace_back();
    sub.s.emplace(n, 'x');
    (*sub.s)[n / 2] = (char)(symx_any<uint8_t>("c") & 0x7f);
    decide(m);
}
