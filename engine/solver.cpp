#include "solver.h"
#include <algorithm>
#include <chrono>

static void errHandler(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

Solver::Solver(unsigned t) : timeout(t)
{
    Z3_config cfg = Z3_mk_config();
    ctx           = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, errHandler);
    auto mk = [&](bool simple)
    {
        Z3_solver s = simple ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), simple ? 1000 : timeout);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        return s;
    };
    fast = mk(true);
    slow = mk(false);
}

Z3_ast Solver::bv(E e)
{
    if (e->zv) return (Z3_ast)e->zv;
    Z3_ast r = nullptr;
    auto srt = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
    switch (e->k)
    {
    case K::Const:
        if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->val, srt(e->w));
        else
            r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->val >> 64), srt(e->w - 64)),
                             Z3_mk_unsigned_int64(ctx, (u64)e->val, srt(64)));
        break;
    case K::Sym:
    {
        char nm[24];
        snprintf(nm, sizeof nm, "b%u", e->lo);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), srt(8));
        break;
    }
    case K::Add: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case K::And:
        if (e->w == 1) goto viaBool;
        r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b));
        break;
    case K::Or:
        if (e->w == 1) goto viaBool;
        r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b));
        break;
    case K::Xor:
        if (e->w == 1) goto viaBool;
        r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b));
        break;
    case K::Ite:
        if (e->w == 1) goto viaBool;
        r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->c));
        break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, bv(e->a)); break;
    case K::Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    default:
    viaBool:
        r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int64(ctx, 1, srt(1)), Z3_mk_unsigned_int64(ctx, 0, srt(1)));
    }
    Z3_inc_ref(ctx, r);
    e->zv = r;
    return r;
}

Z3_ast Solver::boolean(E e)
{
    if (e->zb) return (Z3_ast)e->zb;
    Z3_ast r = nullptr;
    switch (e->k)
    {
    case K::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Eq:
        r = e->a->w == 1 ? Z3_mk_eq(ctx, boolean(e->a), boolean(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b));
        break;
    case K::Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case K::And: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case K::Xor: r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
    case K::Ite: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->c)); break;
    default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    Z3_inc_ref(ctx, r);
    e->zb = r;
    return r;
}

Res Solver::run(Z3_solver s, const std::vector<E> &slice, const std::vector<uint32_t> &symids,
                std::vector<std::pair<uint32_t, uint8_t>> &out)
{
    Z3_solver_push(ctx, s);
    for (E c : slice)
        Z3_solver_assert(ctx, s, boolean(c));
    auto t0    = std::chrono::steady_clock::now();
    Z3_lbool r = Z3_solver_check(ctx, s);
    st.z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (res == Res::Sat)
    {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (auto id : symids)
        {
            char nm[24];
            snprintf(nm, sizeof nm, "b%u", id);
            Z3_ast v   = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, 8));
            Z3_ast val = nullptr;
            if (!Z3_model_eval(ctx, m, v, true, &val)) abort();
            unsigned n = 0;
            Z3_get_numeral_uint(ctx, val, &n);
            out.emplace_back(id, (uint8_t)n);
        }
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, s, 1);
    return res;
}

Res Solver::check(const std::vector<E> &slice_, std::vector<std::pair<uint32_t, uint8_t>> &out)
{
    std::vector<E> slice = slice_;
    std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; });
    slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
    std::vector<uint32_t> key;
    u64 h = 1469598103934665603ULL;
    for (E e : slice)
    {
        key.push_back(e->id);
        h = (h ^ e->id) * 1099511628211ULL;
    }
    auto &bucket = cache[h];
    for (auto &en : bucket)
        if (en.key == key)
        {
            ++st.cache_hits;
            out = en.model;
            return en.r;
        }
    std::vector<uint32_t> ids;
    for (E e : slice)
        ids.insert(ids.end(), e->syms->v.begin(), e->syms->v.end());
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    ++st.z3_queries;
    static const bool trace = getenv("SYMX_TRACE");
    if (trace) { fprintf(stderr, "--- query, %zu symbols\n", ids.size()); for (E e : slice) fprintf(stderr, "  %s\n", showE(e, 9).c_str()); }
    double before = st.z3_time;
    Res r = run(fast, slice, ids, out);
    if (trace) fprintf(stderr, "=== %d %.3f s, %zu symbols, %zu constraints\n", (int)r, st.z3_time - before, ids.size(), slice.size());
    if (r == Res::Unknown)
    {
        out.clear();
        r = run(slow, slice, ids, out);
    }
    if (r == Res::Unknown)
        ++st.unknown;
    if (bucket.size() < 64)
        bucket.push_back(Entry{std::move(key), r, out});
    return r;
}
