#include "expr.h"
#include <algorithm>
#include <map>
#include <functional>

std::vector<bool> g_sym_uninit;
u64 Evaluator::counter = 0;
static std::deque<Node> g_arena;
static std::vector<SymSet *> g_singletons;
static SymSet g_empty;

struct VecHash
{
    size_t operator()(const std::vector<uint32_t> &v) const
    {
        size_t h = 1469598103934665603ULL;
        for (auto x : v)
            h = (h ^ x) * 1099511628211ULL;
        return h;
    }
};
static std::unordered_map<std::vector<uint32_t>, SymSet *, VecHash> g_sets;
struct PH
{
    size_t operator()(const std::pair<const SymSet *, const SymSet *> &p) const
    {
        return (size_t)p.first * 31 + (size_t)p.second;
    }
};
static std::unordered_map<std::pair<const SymSet *, const SymSet *>, const SymSet *, PH> g_unions;

static const SymSet *internSet(std::vector<uint32_t> v)
{
    auto it = g_sets.find(v);
    if (it != g_sets.end())
        return it->second;
    auto *s = new SymSet;
    s->v    = v;
    for (auto x : v)
        if (g_sym_uninit[x])
            s->has_uninit = true;
    g_sets.emplace(std::move(v), s);
    return s;
}

const SymSet *unionSyms(const SymSet *a, const SymSet *b)
{
    if (a == b || b->v.empty())
        return a;
    if (a->v.empty())
        return b;
    if (a > b)
        std::swap(a, b);
    auto key = std::make_pair(a, b);
    auto it  = g_unions.find(key);
    if (it != g_unions.end())
        return it->second;
    std::vector<uint32_t> v;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
    auto r         = internSet(std::move(v));
    g_unions[key] = r;
    return r;
}

struct Key
{
    K k;
    uint16_t w;
    uint32_t lo;
    u128 val;
    E a, b, c;
    bool operator==(const Key &o) const
    {
        return k == o.k && w == o.w && lo == o.lo && val == o.val && a == o.a && b == o.b && c == o.c;
    }
};
struct KeyHash
{
    size_t operator()(const Key &x) const
    {
        u64 h = (u64)x.k * 0x9E3779B97F4A7C15ULL + x.w;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); };
        mix(x.lo);
        mix((u64)x.val);
        mix((u64)(x.val >> 64));
        mix((u64)x.a);
        mix((u64)x.b);
        mix((u64)x.c);
        return h;
    }
};
static std::unordered_map<Key, E, KeyHash> g_cons;

size_t exprCount() { return g_arena.size(); }

static void interval(Node &n);

static E cons(K k, unsigned w, uint32_t lo, u128 val, E a, E b, E c)
{
    Key key{k, (uint16_t)w, lo, val, a, b, c};
    auto it = g_cons.find(key);
    if (it != g_cons.end())
        return it->second;
    g_arena.emplace_back();
    Node &n = g_arena.back();
    n.k = k; n.w = w; n.lo = lo; n.val = val; n.a = a; n.b = b; n.c = c;
    n.id = g_arena.size();
    const SymSet *s = &g_empty;
    if (k == K::Sym)
    {
        s = internSet({lo});
    }
    else
    {
        if (a) s = unionSyms(s, a->syms);
        if (b) s = unionSyms(s, b->syms);
        if (c) s = unionSyms(s, c->syms);
    }
    n.syms = s;
    interval(n);
    g_cons.emplace(key, &n);
    // interval collapsed to a point: replace by a constant
    if (k != K::Const && w <= 64 && n.umin == n.umax)
    {
        E cst = mkConst(n.umin, w);
        g_cons[key] = cst;
        return cst;
    }
    return &n;
}

static void interval(Node &n)
{
    n.umin = 0;
    n.umax = mask64(n.w);
    if (n.w > 64)
        return;
    const u64 full = mask64(n.w);
    switch (n.k)
    {
    case K::Const: n.umin = n.umax = (u64)n.val; break;
    case K::ZExt:
        if (n.a->w <= 64) { n.umin = n.a->umin; n.umax = n.a->umax; }
        break;
    case K::SExt:
        if (n.a->w <= 64 && n.a->umax <= mask64(n.a->w) >> 1) { n.umin = n.a->umin; n.umax = n.a->umax; }
        break;
    case K::And:
        n.umax = std::min(n.a->umax, n.b->umax);
        break;
    case K::Or:
        n.umin = std::max(n.a->umin, n.b->umin);
        {
            u64 m = n.a->umax | n.b->umax;
            // smallest 2^k-1 >= m
            m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
            n.umax = std::min(full, m);
        }
        break;
    case K::Xor:
    {
        u64 m = n.a->umax | n.b->umax;
        m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
        n.umax = std::min(full, m);
        break;
    }
    case K::Add:
        if (n.a->umax <= full - n.b->umax) { n.umin = n.a->umin + n.b->umin; n.umax = n.a->umax + n.b->umax; }
        else if ((u128)n.a->umin + n.b->umin > full) // always wraps exactly once
        { n.umin = (n.a->umin + n.b->umin) & full; n.umax = (n.a->umax + n.b->umax) & full; }
        break;
    case K::Sub:
        if (n.a->umin >= n.b->umax) { n.umin = n.a->umin - n.b->umax; n.umax = n.a->umax - n.b->umin; }
        break;
    case K::Mul:
        if ((u128)n.a->umax * n.b->umax <= full) { n.umin = n.a->umin * n.b->umin; n.umax = n.a->umax * n.b->umax; }
        break;
    case K::UDiv:
        if (n.b->umin > 0) { n.umin = n.a->umin / n.b->umax; n.umax = n.a->umax / n.b->umin; }
        break;
    case K::URem:
        if (n.b->umin > 0) n.umax = std::min(n.a->umax, n.b->umax - 1);
        break;
    case K::LShr:
        if (isC(n.b) && n.b->val < n.w) { n.umin = n.a->umin >> (u64)n.b->val; n.umax = n.a->umax >> (u64)n.b->val; }
        else n.umax = n.a->umax;
        break;
    case K::Shl:
        if (isC(n.b) && n.b->val < n.w && ((u128)n.a->umax << (unsigned)n.b->val) <= full)
        { n.umin = n.a->umin << (u64)n.b->val; n.umax = n.a->umax << (u64)n.b->val; }
        break;
    case K::Ite:
        n.umin = std::min(n.b->umin, n.c->umin);
        n.umax = std::max(n.b->umax, n.c->umax);
        break;
    case K::Concat:
        n.umin = (n.b->w < 64 ? n.a->umin << n.b->w : 0) | n.b->umin;
        n.umax = (n.b->w < 64 ? n.a->umax << n.b->w : 0) | n.b->umax;
        break;
    case K::Extract:
        if (n.lo == 0 && n.a->w <= 64 && n.a->umax <= full) { n.umin = n.a->umin; n.umax = n.a->umax; }
        break;
    default: break;
    }
}

E mkConst(u128 v, unsigned w) { return cons(K::Const, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
static uint32_t g_nsyms = 0;
E mkSym(bool uninit)
{
    g_sym_uninit.push_back(uninit);
    return cons(K::Sym, 8, g_nsyms++, 0, nullptr, nullptr, nullptr);
}
unsigned numSyms() { return g_nsyms; }

u128 evalBin(K k, u128 a, u128 b, unsigned w)
{
    const u128 m = maskw(w);
    switch (k)
    {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m;
    case K::URem: return b ? a % b : a;
    case K::SDiv:
    {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (y == 0) return (x < 0 ? (u128)1 : m) & m;
        if (y == -1) return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case K::SRem:
    {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case K::AShr: { i128 x = sxt(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sxt(a, w) < sxt(b, w);
    case K::Sle: return sxt(a, w) <= sxt(b, w);
    default: abort();
    }
}

static bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }
static bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }

E mkNot(E a)
{
    if (isC(a)) return mkConst(!a->val, 1);
    if (a->k == K::Xor && isC(a->b) && a->b->val == 1) return a->a;
    if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
    if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
    if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
    if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
    return cons(K::Xor, 1, 0, 0, a, mkTrue(), nullptr);
}
E mkNeg(E a) { return mkBin(K::Sub, mkConst(0, a->w), a); }

static bool iteConst(E e) { return e->k == K::Ite && isC(e->b) && isC(e->c); }

E mkBin(K k, E a, E b)
{
    if (a->w != b->w)
    {
        fprintf(stderr, "width mismatch in mkBin %d: %d %d\n", (int)k, a->w, b->w);
        abort();
    }
    const unsigned w  = a->w;
    const unsigned rw = isCmp(k) ? 1 : w;
    if (isC(a) && isC(b))
        return mkConst(evalBin(k, a->val, b->val, w), rw);
    if (commut(k) && (isC(a) || (!isC(b) && a->id > b->id)))
        std::swap(a, b);
    const u128 m = maskw(w);
    switch (k)
    {
    case K::Add:
        if (isC(b))
        {
            if (b->val == 0) return a;
            if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->val + b->val, w));
            if (iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        }
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
        if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
        break;
    case K::Sub:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K::Add, a, mkConst((~b->val + 1) & m, w));
        // (x + c) - x
        if (a->k == K::Add && a->a == b) return a->b;
        if (a->k == K::Add && a->b == b) return a->a;
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a->k == K::Add && isC(a->b) && b->k == K::Add && isC(b->b))
            return mkBin(K::Add, mkBin(K::Sub, a->a, b->a), mkConst(a->b->val - b->b->val, w));
        if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
        if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(~b->b->val + 1, w));
        if (isC(a) && iteConst(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        break;
    case K::Mul:
        if (isC(b))
        {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
            if ((b->val & (b->val - 1)) == 0)
            {
                unsigned s = 0;
                while (!((b->val >> s) & 1)) ++s;
                return mkBin(K::Shl, a, mkConst(s, w));
            }
        }
        break;
    case K::UDiv:
        if (isC(b) && b->val == 1) return a;
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0)
        {
            unsigned s = 0;
            while (!((b->val >> s) & 1)) ++s;
            return mkBin(K::LShr, a, mkConst(s, w));
        }
        break;
    case K::URem:
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::And, a, mkConst(b->val - 1, w));
        break;
    case K::And:
        if (a == b) return a;
        if (isC(b))
        {
            if (b->val == 0) return b;
            if (b->val == m) return a;
            if (a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(a->b->val & b->val, w));
            // low mask -> zext(extract)
            if ((b->val & (b->val + 1)) == 0)
            {
                unsigned n = 0;
                while ((b->val >> n) & 1) ++n;
                if (w <= 64 && a->umax <= (u64)b->val) return a;
                return mkZExt(mkExtract(a, 0, n), w);
            }
            if (a->k == K::ZExt)
            {
                u128 lowm = maskw(a->a->w);
                return mkZExt(mkBin(K::And, a->a, mkConst(b->val & lowm, a->a->w)), w);
            }
            // single bits / high masks: (x & C) with x a shift etc. left to the solver
            if (iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (a->k == K::Concat)
                return mkConcat(mkBin(K::And, a->a, mkConst(b->val >> a->b->w, a->a->w)),
                                mkBin(K::And, a->b, mkConst(b->val, a->b->w)));
        }
        if (w == 1 && ((a->k == K::Xor && isC(a->b) && a->a == b) || (b->k == K::Xor && isC(b->b) && b->a == a)))
            return mkFalse();
        break;
    case K::Or:
        if (a == b) return a;
        if (isC(b))
        {
            if (b->val == 0) return a;
            if (b->val == m) return b;
            if (a->k == K::ZExt && (b->val & ~maskw(a->a->w)) == 0)
                return mkZExt(mkBin(K::Or, a->a, mkConst(b->val, a->a->w)), w);
            if (iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        }
        if (w == 1 && ((a->k == K::Xor && isC(a->b) && a->a == b) || (b->k == K::Xor && isC(b->b) && b->a == a)))
            return mkTrue();
        // combine disjoint pieces into concat: zext(x) | (y << k), k >= width(x)
        for (int r = 0; r < 2; ++r)
        {
            E x = r ? b : a, y = r ? a : b;
            if (y->k == K::Shl && isC(y->b) && x->k == K::ZExt)
            {
                unsigned s = (unsigned)y->b->val;
                if (s < w && x->a->w <= s)
                {
                    E hi = mkExtract(y->a, 0, w - s);
                    return mkConcat(hi, mkZExtTo(x->a, s));
                }
            }
            if (y->k == K::Concat && isC(y->b) && y->b->val == 0 && x->k == K::ZExt && x->a->w <= y->b->w)
                return mkConcat(y->a, mkZExtTo(x->a, y->b->w));
            if (y->k == K::Concat && isC(y->b) && y->b->val == 0 && x->k == K::Concat && isC(x->a) && x->a->val == 0 &&
                x->b->w <= y->b->w)
                return mkConcat(y->a, mkZExtTo(x->b, y->b->w));
        }
        break;
    case K::Xor:
        if (a == b) return mkConst(0, w);
        if (isC(b))
        {
            if (b->val == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->val ^ b->val, w));
            if (iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
            if (a->k == K::ZExt && (b->val & ~maskw(a->a->w)) == 0)
                return mkZExt(mkBin(K::Xor, a->a, mkConst(b->val, a->a->w)), w);
        }
        break;
    case K::Shl:
        if (isC(b))
        {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K::LShr:
        if (isC(b))
        {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if (isC(b))
        {
            if (b->val == 0) return a;
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::Eq:
        if (a == b) return mkTrue();
        if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
        if (isC(b))
        {
            if (w == 1) return b->val ? a : mkNot(a);
            if (a->k == K::ZExt)
            {
                if (b->val > maskw(a->a->w)) return mkFalse();
                return mkEq(a->a, mkConst(b->val, a->a->w));
            }
            if (a->k == K::SExt)
            {
                E t = mkConst(b->val, a->a->w);
                if (((u128)sxt(t->val, a->a->w) & m) != b->val) return mkFalse();
                return mkEq(a->a, t);
            }
            if (a->k == K::Ite && (isC(a->b) || isC(a->c)))
                return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
            if (a->k == K::Add && isC(a->b)) return mkEq(a->a, mkConst(b->val - a->b->val, w));
            if (a->k == K::Xor && isC(a->b)) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
            if (a->k == K::Sub && isC(a->a)) return mkEq(a->b, mkConst(a->a->val - b->val, w));
            if (a->k == K::Concat)
                return mkBin(K::And, mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w)));
            if (a->k == K::And && isC(a->b) && (b->val & ~a->b->val)) return mkFalse();
            if (a->k == K::Or && isC(a->b) && (a->b->val & ~b->val)) return mkFalse();
        }
        else
        {
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->k == K::Add && isC(a->b) && b->k == K::Add && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
            if (a->k == K::Add && isC(a->b) && a->a == b) return mkFalse();
            if (b->k == K::Add && isC(b->b) && b->a == a) return mkFalse();
            if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
                return mkBin(K::And, mkEq(a->a, b->a), mkEq(a->b, b->b));
        }
        break;
    case K::Ult:
        if (a == b) return mkFalse();
        if (w <= 64)
        {
            if (a->umax < b->umin) return mkTrue();
            if (a->umin >= b->umax) return mkFalse();
        }
        if (isC(b) && b->val == 1) return mkEq(a, mkConst(0, w));
        if (w == 1) return mkBin(K::And, mkNot(a), b);
        if (a->k == K::ZExt && isC(b)) return b->val > maskw(a->a->w) ? mkTrue() : mkBin(k, a->a, mkConst(b->val, a->a->w));
        if (b->k == K::ZExt && isC(a)) return a->val >= maskw(b->a->w) ? mkFalse() : mkBin(k, mkConst(a->val, b->a->w), b->a);
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        if (isC(b) && iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (isC(a) && iteConst(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        break;
    case K::Ule:
        if (a == b) return mkTrue();
        if (w <= 64)
        {
            if (a->umax <= b->umin) return mkTrue();
            if (a->umin > b->umax) return mkFalse();
        }
        if (w == 1) return mkBin(K::Or, mkNot(a), b);
        if (isC(b)) return b->val == m ? mkTrue() : mkBin(K::Ult, a, mkConst(b->val + 1, w));
        if (isC(a)) return a->val == 0 ? mkTrue() : mkBin(K::Ult, mkConst(a->val - 1, w), b);
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    case K::Slt:
    case K::Sle:
        if (a == b) return mkConst(k == K::Sle, 1);
        if (w > 1 && w <= 64)
        {
            const u64 half = (u64)1 << (w - 1);
            // both known non-negative, or both known negative
            if ((a->umax < half && b->umax < half) || (a->umin >= half && b->umin >= half))
                return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
            if (a->umin >= half && b->umax < half) return mkTrue();
            if (a->umax < half && b->umin >= half) return mkFalse();
        }
        if (isC(b) && iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (isC(a) && iteConst(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        if (a->k == K::SExt && isC(b))
        {
            i128 v = sxt(b->val, w), hi = (i128)(maskw(a->a->w) >> 1), lo = -hi - 1;
            if (v > hi) return mkTrue();
            if (v < lo) return mkFalse();
            return mkBin(k, a->a, mkConst((u128)v, a->a->w));
        }
        if (b->k == K::SExt && isC(a))
        {
            i128 v = sxt(a->val, w), hi = (i128)(maskw(b->a->w) >> 1), lo = -hi - 1;
            if (v > hi) return mkFalse();
            if (v < lo) return mkTrue();
            return mkBin(k, mkConst((u128)v, b->a->w), b->a);
        }
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    default: break;
    }
    return cons(k, rw, 0, 0, a, b, nullptr);
}

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->k == K::Xor && isC(c->b)) return mkIte(c->a, b, a);
    if (a->w == 1)
    {
        if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
        if (isC(a)) return a->val ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
        if (isC(b)) return b->val ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
    }
    if (a->k == K::Ite && a->a == c) a = a->b;
    if (b->k == K::Ite && b->a == c) b = b->c;
    if (a == b) return a;
    // ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
    if (b->k == K::Ite && b->b == a) return mkIte(mkBin(K::Or, c, b->a), a, b->c);
    return cons(K::Ite, a->w, 0, 0, c, a, b);
}
E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->val, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (iteConst(a)) return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
    if (a->k == K::Concat && isC(a->a) && a->a->val == 0) return mkZExt(a->b, w);
    return cons(K::ZExt, w, 0, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst((u128)sxt(a->val, a->w), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->w <= 64 && a->w > 1 && a->umax <= (mask64(a->w) >> 1)) return mkZExt(a, w);
    if (iteConst(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return cons(K::SExt, w, 0, 0, a, nullptr, nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->val >> lo, w);
    switch (a->k)
    {
    case K::Extract: return mkExtract(a->a, a->lo + lo, w);
    case K::ZExt:
        if (lo >= a->a->w) return mkConst(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkSExt(a->a, w);
        if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
        return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K::Concat:
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case K::Ite:
        if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    case K::And:
    case K::Or:
    case K::Xor:
        if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        if (w == 1 || w == 8) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case K::Add:
    case K::Sub:
    case K::Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    default: break;
    }
    return cons(K::Extract, w, lo, 0, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo)
{
    const unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
    if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w)
        return mkExtract(lo->a, lo->lo, w);
    // the low part of a sum was narrowed by mkExtract
    if (hi->k == K::Extract && hi->lo == lo->w && (hi->a->k == K::Add || hi->a->k == K::Sub || hi->a->k == K::Mul) && mkExtract(hi->a, 0, lo->w) == lo)
        return mkExtract(hi->a, 0, w);
    // extract(x, k, ..) ++ x[0..k) where lo is a whole smaller view of the same term
    if (hi->k == K::Extract && hi->a == lo && hi->lo == lo->w) return lo; // impossible width, defensive
    if (lo->k == K::Concat)
    {
        E m = nullptr;
        if (hi->k == K::Extract && lo->a->k == K::Extract && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
            m = mkExtract(hi->a, lo->a->lo, hi->w + lo->a->w);
        else if (isC(hi) && isC(lo->a))
            m = mkConcat(hi, lo->a);
        if (m) return mkConcat(m, lo->b);
    }
    // keep right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K::ZExt)
        return mkZExt(mkConcat(hi->a, lo), w);
    // sign extension pieces: concat(extract of sext...) left alone
    return cons(K::Concat, w, 0, 0, hi, lo, nullptr);
}

u128 Evaluator::operator()(E e)
{
    if (e->k == K::Const) return e->val;
    if (e->stamp == st) return e->ev;
    u128 r = 0;
    switch (e->k)
    {
    case K::Sym: r = e->lo < m.size() ? m[e->lo] : 0; break;
    case K::Ite: r = (*this)(e->a) ? (*this)(e->b) : (*this)(e->c); break;
    case K::ZExt: r = (*this)(e->a); break;
    case K::SExt: r = (u128)sxt((*this)(e->a), e->a->w) & maskw(e->w); break;
    case K::Extract: r = ((*this)(e->a) >> e->lo) & maskw(e->w); break;
    case K::Concat: r = ((*this)(e->a) << e->b->w) | (*this)(e->b); break;
    default:
    {
        u128 x = (*this)(e->a);
        u128 y = (*this)(e->b);
        r = evalBin(e->k, x, y, e->a->w);
    }
    }
    e->stamp = st;
    e->ev    = r;
    return r;
}

const Dom *truthTable(E e)
{
    if (e->dom) return e->dom;
    auto *d = new Dom{};
    const uint32_t s = e->syms->v[0];
    Model m(s + 1, 0);
    for (unsigned i = 0; i < 256; ++i)
    {
        m[s] = (uint8_t)i;
        Evaluator ev(m);
        if (ev(e)) d->bits[i >> 6] |= (u64)1 << (i & 63);
    }
    e->dom = d;
    return d;
}

E rebuild(E e, E a, E b, E c)
{
    switch (e->k)
    {
    case K::Const:
    case K::Sym: return e;
    case K::Ite: return mkIte(a, b, c);
    case K::ZExt: return mkZExt(a, e->w);
    case K::SExt: return mkSExt(a, e->w);
    case K::Extract: return mkExtract(a, e->lo, e->w);
    case K::Concat: return mkConcat(a, b);
    default: return mkBin(e->k, a, b);
    }
}
E substE(E e, std::unordered_map<E, E> &memo, const std::unordered_map<uint32_t, uint8_t> &bind)
{
    if (e->syms->v.empty()) return e;
    if (e->k == K::Sym)
    {
        auto it = bind.find(e->lo);
        return it == bind.end() ? e : mkConst(it->second, 8);
    }
    bool any = false;
    if (e->syms->v.size() <= bind.size())
    {
        for (auto s : e->syms->v) if (bind.count(s)) { any = true; break; }
    }
    else
        any = true;
    if (!any) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = e->a ? substE(e->a, memo, bind) : nullptr;
    E b = e->b ? substE(e->b, memo, bind) : nullptr;
    E c = e->c ? substE(e->c, memo, bind) : nullptr;
    E r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
    memo[e] = r;
    return r;
}
E substitute(E e, const std::unordered_map<uint32_t, uint8_t> &bind)
{
    std::unordered_map<E, E> memo;
    return substE(e, memo, bind);
}

std::string showE(E e, int depth)
{
    static const char *names[] = {"c", "s", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                                  "shl", "lshr", "ashr", "=", "u<", "u<=", "s<", "s<=", "ite", "zx", "sx", "ex", "cc"};
    char buf[64];
    if (e->k == K::Const) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->val, e->w); return buf; }
    if (e->k == K::Sym) { snprintf(buf, sizeof buf, "b%u", e->lo); return buf; }
    if (depth == 0) return "..";
    std::string r = std::string("(") + names[(int)e->k];
    if (e->k == K::Extract) r += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
    for (E x : {e->a, e->b, e->c}) if (x) r += " " + showE(x, depth - 1);
    return r + ")";
}
