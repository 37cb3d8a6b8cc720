// Tables of the messages in proto/pbk.proto: field number and kind of every member, written by hand from the schema.
#pragma once
#include <pbk.pb.h>
#include "pbref.h"

namespace pbk
{
template <typename F> void enum_names(E, F f)
{
    f("ZERO", E::ZERO), f("ONE", E::ONE), f("NEG", E::NEG), f("BIG", E::BIG), f("LOW", E::LOW);
}
} // namespace pbk
namespace ref
{
template <typename M, typename T> concept is_m = std::is_same_v<std::remove_const_t<M>, T>;

template <typename M, typename V> requires is_m<M, pbk::Sub> void fields(M &m, V &&v)
{
    v.template opt<I32>(1, m.v, "v");
    v.template opt<STR>(2, m.s, "s");
}
template <typename M, typename V> requires is_m<M, pbk::Void> void fields(M &, V &&) {}
template <typename M, typename V> requires is_m<M, pbk::Opt> void fields(M &m, V &&v)
{
    v.template opt<I32>(1, m.i32, "i32");
    v.template opt<I64>(15, m.i64, "i64");
    v.template opt<U32>(16, m.u32, "u32");
    v.template opt<U64>(2047, m.u64, "u64");
    v.template opt<S32>(2048, m.s32, "s32");
    v.template opt<S64>(262143, m.s64, "s64");
    v.template opt<BOO>(262144, m.bo, "bo");
    v.template opt<F32>(33554431, m.f32, "f32");
    v.template opt<F64>(33554432, m.f64, "f64");
    v.template opt<SF32>(536870911, m.sf32, "sf32");
    v.template opt<SF64>(2, m.sf64, "sf64");
    v.template opt<FLT>(3, m.fl, "fl");
    v.template opt<DBL>(4, m.db, "db");
    v.template opt<STR>(5, m.st, "st");
    v.template opt<BYT>(6, m.by, "by");
    v.template opt<ENU>(7, m.en, "en");
    v.template opt<MSG>(8, m.ms, "ms");
}
template <typename M, typename V> requires is_m<M, pbk::Rep> void fields(M &m, V &&v)
{
    v.template rep<I32>(1, m.i32, false, "i32");
    v.template rep<I64>(15, m.i64, false, "i64");
    v.template rep<U32>(16, m.u32, false, "u32");
    v.template rep<U64>(2047, m.u64, false, "u64");
    v.template rep<S32>(2048, m.s32, false, "s32");
    v.template rep<S64>(262143, m.s64, false, "s64");
    v.template rep<BOO>(262144, m.bo, false, "bo");
    v.template rep<F32>(33554431, m.f32, false, "f32");
    v.template rep<F64>(33554432, m.f64, false, "f64");
    v.template rep<SF32>(536870911, m.sf32, false, "sf32");
    v.template rep<SF64>(2, m.sf64, false, "sf64");
    v.template rep<FLT>(3, m.fl, false, "fl");
    v.template rep<DBL>(4, m.db, false, "db");
    v.template rep<STR>(5, m.st, false, "st");
    v.template rep<BYT>(6, m.by, false, "by");
    v.template rep<ENU>(7, m.en, false, "en");
    v.template rep<MSG>(8, m.ms, false, "ms");
}
template <typename M, typename V> requires is_m<M, pbk::Pack> void fields(M &m, V &&v)
{
    v.template rep<I32>(1, m.i32, true, "i32");
    v.template rep<I64>(15, m.i64, true, "i64");
    v.template rep<U32>(16, m.u32, true, "u32");
    v.template rep<U64>(2047, m.u64, true, "u64");
    v.template rep<S32>(2048, m.s32, true, "s32");
    v.template rep<S64>(262143, m.s64, true, "s64");
    v.template rep<BOO>(262144, m.bo, true, "bo");
    v.template rep<F32>(33554431, m.f32, true, "f32");
    v.template rep<F64>(33554432, m.f64, true, "f64");
    v.template rep<SF32>(536870911, m.sf32, true, "sf32");
    v.template rep<SF64>(2, m.sf64, true, "sf64");
    v.template rep<FLT>(3, m.fl, true, "fl");
    v.template rep<DBL>(4, m.db, true, "db");
    v.template rep<ENU>(7, m.en, true, "en");
}
template <typename M, typename V> requires is_m<M, pbk::Maps> void fields(M &m, V &&v)
{
    v.template map<I32, S64>(1, m.a, "a");
    v.template map<I64, BYT>(2, m.b, "b");
    v.template map<U32, DBL>(3, m.c, "c");
    v.template map<U64, I32>(4, m.d, "d");
    v.template map<S32, STR>(5, m.e, "e");
    v.template map<S64, FLT>(6, m.f, "f");
    v.template map<BOO, ENU>(7, m.g, "g");
    v.template map<F32, U64>(8, m.h, "h");
    v.template map<F64, BOO>(9, m.i, "i");
    v.template map<SF32, F64>(16, m.j, "j");
    v.template map<SF64, SF32>(17, m.k, "k");
    v.template map<STR, MSG>(2048, m.l, "l");
}
template <typename M, typename V> requires is_m<M, pbk::One> void fields(M &m, V &&v)
{
    v.template one<I32, 1>(1, m.x, "xi");
    v.template one<STR, 2>(2, m.x, "xs");
    v.template one<MSG, 3>(3, m.x, "xm");
    v.template one<BOO, 4>(4, m.x, "xb");
    v.template opt<U32>(5, m.mid, "mid");
    v.template one<BYT, 1>(6, m.y, "yb");
    v.template one<ENU, 2>(7, m.y, "ye");
    v.template one<F64, 3>(8, m.y, "yf");
    v.template one<S32, 4>(9, m.y, "yi");
    v.template one<MSG, 5>(10, m.y, "ym");
    v.template one<FLT, 6>(2047, m.y, "yl");
}
template <typename M, typename V> requires is_m<M, pbk::Req> void fields(M &m, V &&v)
{
    v.template plain<I32>(1, m.i, "i");
    v.template plain<STR>(2, m.s, "s");
    v.template plain<BYT>(3, m.b, "b");
    v.template plain<MSG>(4, m.m, "m");
    v.template plain<ENU>(5, m.e, "e");
    v.template plain<BOO>(6, m.o, "o");
    v.template plain<DBL>(7, m.d, "d");
}
template <typename M, typename V> requires is_m<M, pbk::Rec> void fields(M &m, V &&v)
{
    v.template opt<I32>(1, m.v, "v");
    v.template ptr(2, m.next, "next");
    v.template rep<MSG>(3, m.subs, false, "subs");
}
template <typename M, typename V> requires is_m<M, pbk::Holder2> void fields(M &m, V &&v)
{
    v.template opt<MSG>(1, m.a, "a");
    v.template opt<MSG>(16, m.s, "s");
}
template <typename M, typename V> requires is_m<M, pbk::Holder> void fields(M &m, V &&v)
{
    v.template opt<MSG>(1, m.a, "a");
    v.template rep<MSG>(2, m.b, false, "b");
    v.template opt<MSG>(3, m.c, "c");
}
#ifdef USE_PBK3
#include <pbk3.pb.h>
#endif

template <typename M> void any_message(M &m, const char *name)
{
    if constexpr (std::is_same_v<M, pbk::Sub>)
    {
        if (symx_bool("has_v")) { m.v.emplace(); any_value<I32>(*m.v, "v"); }
        if (symx_bool("has_s")) { m.s.emplace(); any_value<STR>(*m.s, "s"); }
    }
    else if constexpr (std::is_same_v<M, pbk::Void>) {}
    else if constexpr (std::is_same_v<M, pbk::Holder2>)
    {
        if (symx_bool("has_a")) m.a.emplace();
        if (symx_bool("has_sub")) { m.s.emplace(); any_message(*m.s, name); }
    }
    else if constexpr (std::is_same_v<M, pbk::Rec>)
    {
        if (symx_bool("has_v")) { m.v.emplace(); any_value<I32>(*m.v, "v"); }
        if (symx_bool("has_next")) { m.next = std::make_unique<pbk::Rec>(); if (symx_bool("next_v")) { m.next->v.emplace(); any_value<I32>(*m.next->v, "v"); } }
        if (symx_bool("has_subs")) { m.subs.emplace_back(); any_message(m.subs.back(), name); }
    }
}
} // namespace ref
