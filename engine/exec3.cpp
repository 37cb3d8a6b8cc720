// symx: intrinsics, runtime builtins, exceptions, start-up.
#include "executor.h"
#include <algorithm>
#include <cmath>
using namespace llvm;

static E conc64(const Val &v) { return toE(v, 64); }

// ------------------------------------------------------------ intrinsics
static E popcnt(E x)
{
    E r = mkConst(0, x->w);
    for (unsigned i = 0; i < x->w; ++i) r = mkBin(K::Add, r, mkZExtTo(mkExtract(x, i, 1), x->w));
    return r;
}
static E clz(E x)
{
    E r = mkConst(x->w, x->w);
    for (unsigned i = 0; i < x->w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(x->w - 1 - i, x->w), r);
    return r;
}
static E ctz(E x)
{
    E r = mkConst(x->w, x->w);
    for (unsigned i = x->w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, x->w), r);
    return r;
}

bool Exec::intrinsic(State &s, const DI &d, std::vector<Val> &a, unsigned id)
{
    const unsigned w = d.w;
    auto res         = [&](const Val &v) { setRes(s, d, v); return true; };
    auto un          = [&](K cmp, bool first) {
        E x = toE(a[0], w), y = toE(a[1], w);
        return res(Val(mkIte(mkBin(cmp, x, y), first ? x : y, first ? y : x)));
    };
    auto ovf = [&](K k, bool sg) {
        unsigned ww = d.ops[0].w;
        E x = toE(a[0], ww), y = toE(a[1], ww);
        if (ww > 64) unsupported(s, "128-bit overflow intrinsic");
        unsigned big = k == K::Mul ? ww * 2 : ww + 1;
        E X = sg ? mkSExt(x, big) : mkZExt(x, big), Y = sg ? mkSExt(y, big) : mkZExt(y, big);
        E R = mkBin(k, X, Y), lo = mkExtract(R, 0, ww);
        E back = sg ? mkSExt(lo, big) : mkZExt(lo, big);
        auto &f = s.fr.back();
        f.regs[d.dst]     = Val(lo);
        f.regs[d.dst + 1] = Val(mkNot(mkEq(back, R)));
        return true;
    };
    auto sat = [&](K k, bool sg) {
        E x = toE(a[0], w), y = toE(a[1], w);
        unsigned big = w + 1;
        E X = sg ? mkSExt(x, big) : mkZExt(x, big), Y = sg ? mkSExt(y, big) : mkZExt(y, big);
        E R = mkBin(k, X, Y), lo = mkExtract(R, 0, w);
        E back = sg ? mkSExt(lo, big) : mkZExt(lo, big);
        E lim;
        if (sg) lim = mkIte(mkExtract(R, w, 1), mkConst((u128)1 << (w - 1), w), mkConst(((u128)1 << (w - 1)) - 1, w));
        else lim = k == K::Sub ? mkConst(0, w) : mkConst(maskw(w), w);
        return res(Val(mkIte(mkEq(back, R), lo, lim)));
    };
    switch (id)
    {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove:
    {
        u64 n = concretize(s, a[2], 64);
        if (!n) return true;
        u64 src = resolveForWrite(s, a[1], n), dst = resolveForWrite(s, a[0], n);
        memCopy(s, dst, src, n);
        return true;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline:
    {
        u64 n = concretize(s, a[2], 64);
        if (!n) return true;
        memSet(s, resolveForWrite(s, a[0], n), a[1], n);
        return true;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: return res(a[0]);
    case Intrinsic::is_constant: return res(Val((u64)0));
    case Intrinsic::objectsize: return res(Val((a[1].c & 1) ? (u64)0 : ~(u64)0 & mask64(w)));
    case Intrinsic::umin: return un(K::Ult, true);
    case Intrinsic::umax: return un(K::Ult, false);
    case Intrinsic::smin: return un(K::Slt, true);
    case Intrinsic::smax: return un(K::Slt, false);
    case Intrinsic::abs:
    {
        E x = toE(a[0], w);
        return res(Val(mkIte(mkBin(K::Slt, x, mkConst(0, w)), mkNeg(x), x)));
    }
    case Intrinsic::ctlz: return res(Val(clz(toE(a[0], w))));
    case Intrinsic::cttz: return res(Val(ctz(toE(a[0], w))));
    case Intrinsic::ctpop: return res(Val(popcnt(toE(a[0], w))));
    case Intrinsic::bswap:
    {
        E x = toE(a[0], w), r = nullptr;
        for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
        return res(Val(r));
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    {
        u64 n = concretize(s, a[2], w) % w;
        E hi = toE(a[0], w), lo = toE(a[1], w);
        if (w > 64) unsupported(s, "wide funnel shift");
        E cat = mkConcat(hi, lo);
        if (id == Intrinsic::fshl) return res(Val(mkExtract(cat, w - n, w)));
        return res(Val(mkExtract(cat, n, w)));
    }
    case Intrinsic::uadd_with_overflow: return ovf(K::Add, false);
    case Intrinsic::usub_with_overflow: return ovf(K::Sub, false);
    case Intrinsic::umul_with_overflow: return ovf(K::Mul, false);
    case Intrinsic::sadd_with_overflow: return ovf(K::Add, true);
    case Intrinsic::ssub_with_overflow: return ovf(K::Sub, true);
    case Intrinsic::smul_with_overflow: return ovf(K::Mul, true);
    case Intrinsic::uadd_sat: return sat(K::Add, false);
    case Intrinsic::usub_sat: return sat(K::Sub, false);
    case Intrinsic::sadd_sat: return sat(K::Add, true);
    case Intrinsic::ssub_sat: return sat(K::Sub, true);
    case Intrinsic::ubsantrap: violation(s, "ub", "undefined behaviour check " + std::to_string(a[0].c));
    case Intrinsic::trap:
    case Intrinsic::debugtrap: violation(s, "trap", "trap");
    case Intrinsic::eh_typeid_for: return res(Val((a[0].c >> ASH) & 0x7fffffff));
    case Intrinsic::stacksave: return res(Val((u64)0));
    case Intrinsic::stackrestore:
    case Intrinsic::var_annotation: return true;
    case Intrinsic::fabs:
    {
        u64 m = mask64(w - 1);
        return res(a[0].sym() ? Val(mkBin(K::And, a[0].n, mkConst(m, w))) : Val(a[0].c & m));
    }
    case Intrinsic::copysign:
    {
        E x = toE(a[0], w), y = toE(a[1], w);
        return res(Val(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))));
    }
    case Intrinsic::is_fpclass:
    {
        unsigned fw = d.ops[0].w;
        unsigned mask = (unsigned)a[1].c;
        E x = toE(a[0], fw);
        unsigned ew = fw == 32 ? 8 : 11, mw = fw == 32 ? 23 : 52;
        E sg = mkExtract(x, fw - 1, 1), ex = mkExtract(x, mw, ew), ma = mkExtract(x, 0, mw);
        E emax = mkEq(ex, mkConst(maskw(ew), ew)), ez = mkEq(ex, mkConst(0, ew)), mz = mkEq(ma, mkConst(0, mw));
        E q = mkExtract(ma, mw - 1, 1);
        E r = mkFalse();
        auto AND = [](E p, E q2) { return mkBin(K::And, p, q2); };
        auto add = [&](unsigned bit, E c) { if (mask & bit) r = mkBin(K::Or, r, c); };
        E nan = AND(emax, mkNot(mz)), inf = AND(emax, mz), zero = AND(ez, mz), sub = AND(ez, mkNot(mz)), nor = AND(mkNot(emax), mkNot(ez));
        add(1, AND(nan, mkNot(q)));
        add(2, AND(nan, q));
        add(4, AND(inf, sg));
        add(8, AND(nor, sg));
        add(16, AND(sub, sg));
        add(32, AND(zero, sg));
        add(64, AND(zero, mkNot(sg)));
        add(128, AND(sub, mkNot(sg)));
        add(256, AND(nor, mkNot(sg)));
        add(512, AND(inf, mkNot(sg)));
        return res(Val(r));
    }
    default: break;
    }
    unsupported(s, "intrinsic " + Intrinsic::getBaseName((Intrinsic::ID)id).str());
}

// ------------------------------------------------------------ exceptions
std::string Exec::symName(u64 addr)
{
    u64 id = addr >> ASH;
    if (id < 2 || id - 2 >= globalOrder.size()) return "?";
    return globalOrder[id - 2]->getName().str();
}
static const std::map<std::string, std::string> &stdBases()
{
    static const std::map<std::string, std::string> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    };
    return m;
}
bool Exec::tiMatches(u64 thrown, u64 handler)
{
    if (handler == 0) return true;
    if (thrown == handler) return true;
    std::string hn = symName(handler), tn = symName(thrown);
    if (tn == hn) return true;
    // walk the bases
    u64 id = thrown >> ASH;
    if (id >= 2 && id - 2 < globalOrder.size())
    {
        GlobalVariable *g = globalOrder[id - 2];
        if (g->hasInitializer())
        {
            auto *st = dyn_cast<ConstantStruct>(g->getInitializer());
            if (st)
            {
                for (unsigned i = 2; i < st->getNumOperands(); ++i)
                    if (st->getOperand(i)->getType()->isPointerTy() && isa<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
                        if (tiMatches(constAddr(cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts())), handler)) return true;
            }
            return false;
        }
    }
    for (auto it = stdBases().find(tn); it != stdBases().end(); it = stdBases().find(it->second))
        if (it->second == hn) return true;
    return false;
}
void Exec::throwCxx(State &s, u64 exc)
{
    u64 ti = 0;
    for (auto &e : s.excs)
        if (e.addr == exc) ti = e.ti;
    // phase 1
    bool found = false;
    for (size_t i = s.fr.size(); i-- > 0 && !found;)
    {
        Frame &f     = s.fr[i];
        const DI &cd = f.fn->blocks[f.bb].ins[f.pc];
        auto *cb     = dyn_cast<CallBase>(cd.I);
        if (cb && cd.op == Instruction::Invoke)
        {
            auto *lp = cast<InvokeInst>(cd.I)->getLandingPadInst();
            for (unsigned k = 0; k < lp->getNumClauses() && !found; ++k)
                if (lp->isCatch(k) && tiMatches(ti, constAddr(lp->getClause(k)))) found = true;
            if (found) break;
        }
        if (cb && cd.op == Instruction::Call && cb->doesNotThrow() && i + 1 != s.fr.size())
            violation(s, "terminate", "exception " + symName(ti) + " leaves a function that must not throw");
        if (f.fn->F->doesNotThrow()) violation(s, "terminate", "exception " + symName(ti) + " leaves " + f.fn->F->getName().str() + ", which must not throw");
    }
    if (!found) violation(s, "uncaught", "uncaught exception " + symName(ti));
    // phase 2
    while (!s.fr.empty())
    {
        Frame &f     = s.fr.back();
        const DI &cd = f.fn->blocks[f.bb].ins[f.pc];
        if (cd.op == Instruction::Invoke)
        {
            auto *lp = cast<InvokeInst>(cd.I)->getLandingPadInst();
            u64 sel  = 0;
            bool hit = false;
            for (unsigned k = 0; k < lp->getNumClauses() && !hit; ++k)
            {
                if (!lp->isCatch(k)) unsupported(s, "exception filter");
                u64 h = constAddr(lp->getClause(k));
                if (tiMatches(ti, h))
                {
                    hit = true;
                    sel = h ? (h >> ASH) & 0x7fffffff : 1;
                }
            }
            if (hit || lp->isCleanup())
            {
                s.curExc = exc;
                s.curSel = sel;
                jump(s, cd.bb1);
                return;
            }
        }
        popFrame(s);
    }
}
u64 Exec::makeStdExc(State &s, const char *tiName, const std::string &what)
{
    u64 id   = newObj(s, 32, OExc, false);
    u64 addr = (id << ASH) + ABASE;
    u64 sid  = newObj(s, what.size() + 1, OExc, false);
    memcpy(objOf(s, sid)->b.data(), what.c_str(), what.size() + 1);
    storeBytes(s, addr, 8, 64, Val(excVtable));
    storeBytes(s, addr + 8, 8, 64, Val((sid << ASH) + ABASE));
    GlobalVariable *g = M.getGlobalVariable(tiName, true);
    s.excs.push_back(ExcObj{addr, g ? constAddr(g) : 0, 0});
    if (!g) unsupported(s, std::string("exception type not in module: ") + tiName);
    return addr;
}

// -------------------------------------------------------------- builtins
#define BI(name) static bool name(Exec &X, State &s, const DI &d, std::vector<Val> &a, Val &ret)
static u64 arg(Exec &X, State &s, const Val &v) { return X.concretize(s, v, 64); }

static u64 doAlloc(Exec &X, State &s, const Val &sz, uint8_t how, bool nothrow, bool &failed)
{
    failed = false;
    u64 n;
    if (sz.sym())
    {
        E e = X.reduce(s, sz.n);
        // sizes without a bound in sight may fail to be allocated
        auto unbounded = [&] {
            E c = X.reduce(s, mkBin(K::Ult, mkConst(4096, 64), e));
            std::vector<std::pair<uint32_t, uint8_t>> m;
            return isC(c) ? c->val != 0 : X.feasible(s, c, m) != Res::Unsat;
        };
        if (!isC(e) && unbounded() && X.forkOn(s, mkBin(K::Ult, mkConst(X.opt.symAlloc, 64), e))) { failed = true; return 0; }
        n = X.concretize(s, sz, 64);
    }
    else n = sz.c;
    if (n > X.opt.allocLimit) { failed = true; return 0; }
    u64 id = X.newObj(s, n, OHeap, true);
    X.objOf(s, id)->how = how;
    ++s.heapAllocs;
    ++s.heapLive;
    return (id << ASH) + ABASE;
}
static void doFree(Exec &X, State &s, u64 p, uint8_t how)
{
    if (!p) return;
    u64 id = p >> ASH;
    Obj *o = id >= 2 ? X.objOf(s, id) : nullptr;
    if (!o) X.violation(s, "memory", "free of invalid or already freed memory");
    if (o->kind != OHeap) X.violation(s, "memory", "free of memory that was not allocated");
    if (p != (id << ASH) + ABASE) X.violation(s, "memory", "free of an interior pointer");
    if (o->how != how) X.violation(s, "memory", "mismatched allocation and deallocation");
    X.freeObj(s, id);
    --s.heapLive;
}
template <int HOW> BI(bNew)
{
    bool failed;
    u64 p = doAlloc(X, s, a[0], HOW, false, failed);
    if (failed) throw CxxThrow{X.makeStdExc(s, "_ZTISt9bad_alloc", "std::bad_alloc")};
    ret = Val(p);
    return true;
}
template <int HOW> BI(bNewNt)
{
    bool failed;
    ret = Val(doAlloc(X, s, a[0], HOW, true, failed));
    return true;
}
template <int HOW> BI(bDel)
{
    doFree(X, s, X.concretize(s, a[0], 64), HOW);
    return true;
}
BI(bCalloc)
{
    bool failed;
    Val n = a[0].sym() || a[1].sym() ? Val(mkBin(K::Mul, conc64(a[0]), conc64(a[1]))) : Val(a[0].c * a[1].c);
    u64 p = doAlloc(X, s, n, 0, true, failed);
    if (p) X.memSet(s, p, Val((u64)0), X.objOf(s, p >> ASH)->size);
    ret = Val(p);
    return true;
}
BI(bRealloc)
{
    bool failed;
    u64 old = arg(X, s, a[0]);
    u64 p   = doAlloc(X, s, a[1], 0, true, failed);
    if (p && old)
    {
        X.memCopy(s, p, old, std::min(X.objOf(s, p >> ASH)->size, X.objOf(s, old >> ASH)->size));
        doFree(X, s, old, 0);
    }
    ret = Val(p);
    return true;
}
BI(bMemcpy)
{
    u64 n = arg(X, s, a[2]);
    if (n)
    {
        u64 src = X.resolveForWrite(s, a[1], n), dst = X.resolveForWrite(s, a[0], n);
        X.memCopy(s, dst, src, n);
    }
    ret = a[0];
    return true;
}
BI(bMemset)
{
    u64 n = arg(X, s, a[2]);
    Val v = a[1].sym() ? Val(mkExtract(a[1].n, 0, 8)) : Val(a[1].c & 255);
    if (n) X.memSet(s, X.resolveForWrite(s, a[0], n), v, n);
    ret = a[0];
    return true;
}
BI(bMemcmp)
{
    u64 n = arg(X, s, a[2]);
    if (!n) { ret = Val((u64)0); return true; }
    u64 p = X.resolveForWrite(s, a[0], n), q = X.resolveForWrite(s, a[1], n);
    E r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;)
    {
        Val vx = X.loadBytes(s, p + i, 1, 8), vy = X.loadBytes(s, q + i, 1, 8);
        if (!vx.sym() && !vy.sym())
        {
            if (vx.c != vy.c) r = mkConst(vx.c < vy.c ? ~0u : 1u, 32);
            continue;
        }
        E x = X.reduce(s, toE(vx, 8)), y = X.reduce(s, toE(vy, 8));
        r   = mkIte(mkEq(x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst(~0u, 32), mkConst(1, 32)));
    }
    ret = Val(r);
    return true;
}
BI(bBcmp)
{
    u64 n = arg(X, s, a[2]);
    if (!n) { ret = Val((u64)0); return true; }
    u64 p = X.resolveForWrite(s, a[0], n), q = X.resolveForWrite(s, a[1], n);
    E eq = mkTrue();
    for (u64 i = n; i-- > 0;)
    {
        E x = X.reduce(s, toE(X.loadBytes(s, p + i, 1, 8), 8)), y = X.reduce(s, toE(X.loadBytes(s, q + i, 1, 8), 8));
        eq  = mkBin(K::And, mkEq(x, y), eq);
    }
    ret = Val(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    return true;
}
BI(bMemchr)
{
    u64 n = arg(X, s, a[2]);
    if (!n) { ret = Val((u64)0); return true; }
    u64 p = X.resolveForWrite(s, a[0], n);
    E c   = X.reduce(s, mkExtract(toE(a[1], 32), 0, 8));
    // memchr may stop early: bytes after a certain match need not be readable
    std::vector<E> cond;
    for (u64 i = 0; i < n; ++i)
    {
        E e = mkEq(X.reduce(s, toE(X.loadBytes(s, p + i, 1, 8), 8)), c);
        cond.push_back(e);
        if (isC(e) && e->val) break;
    }
    E r = mkConst(0, 64);
    for (size_t i = cond.size(); i-- > 0;) r = mkIte(cond[i], mkConst(p + i, 64), r);
    ret = Val(r);
    return true;
}
BI(bStrlen)
{
    u64 p = X.resolveForWrite(s, a[0], 1);
    for (u64 i = 0;; ++i)
    {
        Val v = X.loadBytes(s, p + i, 1, 8);
        if (v.sym() ? X.forkOn(s, mkEq(v.n, mkConst(0, 8))) : v.c == 0) { ret = Val(i); return true; }
    }
}
// ---- ctype in the C locale
static E inR(E c, unsigned lo, unsigned hi) { return mkBin(K::And, mkBin(K::Ule, mkConst(lo, 32), c), mkBin(K::Ule, c, mkConst(hi, 32))); }
static E orr(E a, E b) { return mkBin(K::Or, a, b); }
static E bto32(E b) { return mkZExt(b, 32); }
BI(bIsspace) { E c = toE(a[0], 32); ret = Val(bto32(orr(mkEq(c, mkConst(32, 32)), inR(c, 9, 13)))); return true; }
BI(bIsdigit) { E c = toE(a[0], 32); ret = Val(bto32(inR(c, '0', '9'))); return true; }
BI(bIsalpha) { E c = toE(a[0], 32); ret = Val(bto32(orr(inR(c, 'a', 'z'), inR(c, 'A', 'Z')))); return true; }
BI(bIsupper) { E c = toE(a[0], 32); ret = Val(bto32(inR(c, 'A', 'Z'))); return true; }
BI(bIslower) { E c = toE(a[0], 32); ret = Val(bto32(inR(c, 'a', 'z'))); return true; }
BI(bIsalnum) { E c = toE(a[0], 32); ret = Val(bto32(orr(inR(c, '0', '9'), orr(inR(c, 'a', 'z'), inR(c, 'A', 'Z'))))); return true; }
BI(bIsxdigit) { E c = toE(a[0], 32); ret = Val(bto32(orr(inR(c, '0', '9'), orr(inR(c, 'a', 'f'), inR(c, 'A', 'F'))))); return true; }
BI(bIscntrl) { E c = toE(a[0], 32); ret = Val(bto32(orr(inR(c, 0, 31), mkEq(c, mkConst(127, 32))))); return true; }
BI(bIsprint) { E c = toE(a[0], 32); ret = Val(bto32(inR(c, 32, 126))); return true; }
BI(bIspunct)
{
    E c = toE(a[0], 32);
    ret = Val(bto32(orr(orr(inR(c, 33, 47), inR(c, 58, 64)), orr(inR(c, 91, 96), inR(c, 123, 126)))));
    return true;
}
BI(bTolower) { E c = toE(a[0], 32); ret = Val(mkIte(inR(c, 'A', 'Z'), mkBin(K::Add, c, mkConst(32, 32)), c)); return true; }
BI(bToupper) { E c = toE(a[0], 32); ret = Val(mkIte(inR(c, 'a', 'z'), mkBin(K::Sub, c, mkConst(32, 32)), c)); return true; }

// ---- C++ ABI
BI(bGuardAcquire)
{
    u64 p = arg(X, s, a[0]);
    ret   = Val((u64)(X.loadBytes(s, p, 1, 8).c == 0));
    return true;
}
BI(bGuardRelease) { X.storeBytes(s, arg(X, s, a[0]), 1, 8, Val((u64)1)); return true; }
BI(bNop) { ret = Val((u64)0); return true; }
BI(bAllocExc)
{
    u64 id = X.newObj(s, std::max<u64>(arg(X, s, a[0]), 32), OExc, true);
    ret    = Val((id << ASH) + ABASE);
    return true;
}
BI(bThrow)
{
    u64 e = arg(X, s, a[0]), t = arg(X, s, a[1]);
    s.excs.push_back(ExcObj{e, t, 0});
    throw CxxThrow{e};
}
BI(bRethrow)
{
    if (s.caught.empty()) X.violation(s, "terminate", "rethrow without an exception");
    throw CxxThrow{s.caught.back()};
}
BI(bBeginCatch)
{
    u64 e = arg(X, s, a[0]);
    s.caught.push_back(e);
    ret = Val(e);
    return true;
}
BI(bEndCatch)
{
    if (!s.caught.empty()) s.caught.pop_back();
    return true;
}
BI(bGetExcPtr) { ret = a[0]; return true; }
BI(bTerminate) { X.violation(s, "terminate", "std::terminate called"); return false; }
BI(bAbort) { X.violation(s, "abort", "abort called"); return false; }
BI(bAssertFail) { X.violation(s, "assert", "assertion in the code failed: " + X.cstr(s, arg(X, s, a[0]))); return false; }
BI(bGlibcxxAssert) { X.violation(s, "assert", "library assertion failed: " + X.cstr(s, arg(X, s, a[3]))); return false; }
BI(bExit) { throw PathEnd{0}; }
BI(bPureVirtual) { X.violation(s, "ub", "pure virtual call"); return false; }
BI(bUncaught) { ret = Val((u64)0); return true; }
BI(bWhat)
{
    u64 p  = arg(X, s, a[0]);
    Obj *o = X.objOf(s, p >> ASH);
    if (o && o->size >= 16) ret = X.loadBytes(s, p + 8, 8, 64);
    else ret = Val((u64)0);
    return true;
}
template <int K_> BI(bThrowStd)
{
    static const char *ti[] = {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt16invalid_argument",
                               "_ZTISt13runtime_error", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt12system_error"};
    std::string w = "std exception";
    if (K_ <= 4 && !a.empty() && !a[0].sym() && a[0].c) w = X.cstr(s, a[0].c);
    throw CxxThrow{X.makeStdExc(s, ti[K_], w)};
}
// constructors of the std exception classes: {vptr, message pointer}
static u64 copyMsg(Exec &X, State &s, u64 p, u64 n)
{
    u64 id = X.newObj(s, n + 1, OExc, false);
    u64 q  = (id << ASH) + ABASE;
    X.memCopy(s, q, p, n);
    return q;
}
BI(bExcCtorC)
{
    u64 self = arg(X, s, a[0]), m = arg(X, s, a.back());
    u64 n    = 0;
    for (;; ++n)
    {
        Val v = X.loadBytes(s, m + n, 1, 8);
        if (v.sym() ? X.forkOn(s, mkEq(v.n, mkConst(0, 8))) : v.c == 0) break;
    }
    u64 q = copyMsg(X, s, m, n);
    X.storeBytes(s, self, 8, 64, Val(X.excVtable));
    X.storeBytes(s, self + 8, 8, 64, Val(q));
    return true;
}
BI(bExcCtorS)
{
    u64 self = arg(X, s, a[0]), m = arg(X, s, a.back());
    u64 p = X.concretize(s, X.loadBytes(s, m, 8, 64), 64), n = X.concretize(s, X.loadBytes(s, m + 8, 8, 64), 64);
    u64 q = copyMsg(X, s, p, n);
    X.storeBytes(s, self, 8, 64, Val(X.excVtable));
    X.storeBytes(s, self + 8, 8, 64, Val(q));
    return true;
}
BI(bExcCtorCopy)
{
    X.memCopy(s, arg(X, s, a[0]), arg(X, s, a[1]), 16);
    return true;
}
BI(bExcCtorNone)
{
    X.storeBytes(s, arg(X, s, a[0]), 8, 64, Val(X.excVtable));
    return true;
}

// ---- harness interface
BI(bMakeSymbolic)
{
    u64 p = arg(X, s, a[0]), n = arg(X, s, a[1]);
    InputRec r;
    r.name       = X.cstr(s, arg(X, s, a[2]));
    unsigned seq = s.seq;
    for (u64 i = 0; i < n; ++i) r.bytes.push_back(X.symAt(seq, i, false));
    ++s.seq;
    X.growSyms(s);
    for (u64 i = 0; i < n; ++i) X.storeBytes(s, p + i, 1, 8, Val(r.bytes[i]));
    s.inputs.push_back(std::move(r));
    return true;
}
static E boolOf(const Val &v, unsigned w) { return mkExtract(toE(v, w), 0, 1); }
BI(bAssume)
{
    E c = X.reduce(s, boolOf(a[0], d.ops[0].w));
    if (isC(c))
    {
        if (!c->val) throw PathEnd{1};
        return true;
    }
    ++X.S.st.queries;
    if (!Evaluator(s.model)(c))
    {
        std::vector<std::pair<uint32_t, uint8_t>> m;
        Res r = X.feasible(s, c, m);
        if (r == Res::Unsat) throw PathEnd{1};
        if (r == Res::Unknown)
        {
            X.incomplete["solver timeout"]++;
            throw PathEnd{3};
        }
        X.setModel(s, m);
    }
    X.addCons(s, c);
    return true;
}
BI(bAssert)
{
    ++X.asserts;
    E c = X.reduce(s, boolOf(a[0], d.ops[0].w));
    if (isC(c) && c->val) return true;
    c = X.dropUninit(s, c);
    if (isC(c) && c->val) return true;
    std::string msg = X.cstr(s, arg(X, s, a[1]));
    if (isC(c)) X.violation(s, "assertion", msg);
    ++X.S.st.queries;
    ++X.S.st.z3_assert;
    bool soft = c->syms->has_uninit;
    if (!Evaluator(s.model)(c))
    {
        X.violation(s, "assertion", msg, false, soft);
        std::vector<std::pair<uint32_t, uint8_t>> m;
        Res r = X.feasible(s, c, m);
        if (r != Res::Sat) throw PathEnd{2};
        X.setModel(s, m);
    }
    else
    {
        std::vector<std::pair<uint32_t, uint8_t>> m;
        Res r = X.feasible(s, mkNot(c), m);
        if (r == Res::Sat)
        {
            Model mm = s.model;
            for (auto &p : m) mm[p.first] = p.second;
            X.violation(s, "assertion", msg, false, soft, &mm);
        }
        else if (r == Res::Unknown)
        {
            X.incomplete["solver timeout in assertion"]++;
            if (getenv("SYMX_DEBUG")) fprintf(stderr, "hard assertion: %s\n", showE(c, 12).c_str());
        }
        else return true; // proved: no need to record it as a constraint
    }
    X.addCons(s, c);
    return true;
}
BI(bReach) { X.reached.insert(X.cstr(s, arg(X, s, a[0]))); return true; }
BI(bObserve) { s.obs.push_back(a[0]); return true; }
BI(bParam)
{
    std::string n = X.cstr(s, arg(X, s, a[0]));
    auto it       = X.opt.params.find(n);
    ret           = it == X.opt.params.end() ? a[1] : Val(it->second);
    return true;
}
BI(bAllocCount) { ret = Val(s.heapAllocs); return true; }
BI(bLiveCount) { ret = Val(s.heapLive); return true; }
BI(bConcretize) { ret = Val(X.concretize(s, a[0], 64)); return true; }
BI(bFail) { X.violation(s, "assertion", X.cstr(s, arg(X, s, a[0]))); return false; }
BI(bStop) { throw PathEnd{0}; }
BI(bDebug)
{
    std::string n = X.cstr(s, arg(X, s, a[0]));
    fprintf(stderr, "debug %s: %s\n", n.c_str(), a[1].sym() ? showE(X.reduce(s, a[1].n), 8).c_str() : std::to_string(a[1].c).c_str());
    return true;
}

// value of decimal digits; 128 bits wide for 20 digits
static E horner(const std::vector<E> &d)
{
    const unsigned w = d.size() > 19 ? 128 : 64;
    E h = mkConst(0, w);
    for (E c : d)
    {
        E v = mkZExt(mkBin(K::Sub, c, mkConst('0', 8)), w);
        h   = h->k == K::Const && !h->val ? v : mkBin(K::Add, mkBin(K::Mul, h, mkConst(10, w)), v);
    }
    return h;
}
// symx_digits(value, p, n): writes the n decimal digits of value, which has exactly n
BI(bDigits)
{
    E u   = X.reduce(s, toE(a[0], 64));
    u64 p = arg(X, s, a[1]), n = arg(X, s, a[2]);
    std::vector<E> bytes;
    if (isC(u))
    {
        u64 v = (u64)u->val;
        bytes.resize(n);
        for (u64 i = n; i--; v /= 10) bytes[i] = mkConst('0' + v % 10, 8);
    }
    else
    {
        for (auto &r : s.digits)
            if (r.bytes.size() == n && X.reduce(s, r.u) == u) bytes = r.bytes;
        if (bytes.empty())
        {
            // the digits are determined by the value: the current model is extended, no search is needed
            u64 v        = (u64)Evaluator(s.model)(u);
            unsigned seq = s.seq++;
            for (u64 i = 0; i < n; ++i) bytes.push_back(X.symAt(seq, i, false));
            X.growSyms(s);
            for (u64 i = n; i--; v /= 10) s.model[bytes[i]->lo] = (uint8_t)('0' + v % 10);
            s.digits.push_back(DigitRec{u, bytes});
            for (u64 i = 0; i < n; ++i)
            {
                X.addCons(s, mkBin(K::Ule, mkConst(i || n == 1 ? '0' : '1', 8), bytes[i]));
                X.addCons(s, mkBin(K::Ule, bytes[i], mkConst('9', 8)));
            }
            E h = horner(bytes);
            X.addCons(s, mkEq(h, mkZExtTo(u, h->w)));
        }
    }
    for (u64 i = 0; i < n; ++i) X.storeBytes(s, p + i, 1, 8, Val(bytes[i]));
    return true;
}
// symx_decimal(p, n, out): the value of n <= 20 decimal digits; returns 1 if it exceeds 64 bits
BI(bDecimal)
{
    u64 p = arg(X, s, a[0]), n = arg(X, s, a[1]), out = arg(X, s, a[2]);
    if (n > 20) abort();
    std::vector<E> ds;
    for (u64 i = 0; i < n; ++i) ds.push_back(X.reduce(s, toE(X.loadBytes(s, p + i, 1, 8), 8)));
    for (auto &r : s.digits)
    {
        if (r.bytes.size() != n) continue;
        bool same = true;
        for (u64 i = 0; same && i < n; ++i) same = X.reduce(s, r.bytes[i]) == ds[i];
        if (!same) continue;
        X.storeBytes(s, out, 8, 64, Val(r.u));
        ret = Val((u64)0);
        return true;
    }
    E h = horner(ds);
    X.storeBytes(s, out, 8, 64, Val(h->w == 64 ? h : mkExtract(h, 0, 64)));
    ret = h->w == 64 ? Val((u64)0) : Val(mkZExt(mkNot(mkEq(mkExtract(h, 64, 64), mkConst(0, 64))), 64));
    return true;
}
BI(bIsSymbolic)
{
    ret = Val((u64)!isC(X.reduce(s, toE(a[0], 64))));
    return true;
}

void Exec::registerBuiltins()
{
    auto R = [&](const char *n, BuiltinFn f) { builtins[n] = Builtin{f}; };
    R("malloc", bNewNt<0>); R("free", bDel<0>); R("calloc", bCalloc); R("realloc", bRealloc);
    R("_Znwm", bNew<1>); R("_Znam", bNew<2>); R("_ZnwmRKSt9nothrow_t", bNewNt<1>); R("_ZnamRKSt9nothrow_t", bNewNt<2>);
    R("_ZnwmSt11align_val_t", bNew<1>);
    R("_ZdlPv", bDel<1>); R("_ZdlPvm", bDel<1>); R("_ZdaPv", bDel<2>); R("_ZdaPvm", bDel<2>); R("_ZdlPvSt11align_val_t", bDel<1>);
    R("_ZdlPvmSt11align_val_t", bDel<1>); R("_ZdlPvRKSt9nothrow_t", bDel<1>);
    R("memcpy", bMemcpy); R("memmove", bMemcpy); R("memset", bMemset); R("memcmp", bMemcmp); R("bcmp", bBcmp); R("memchr", bMemchr);
    R("strlen", bStrlen);
    R("isspace", bIsspace); R("isdigit", bIsdigit); R("isalpha", bIsalpha); R("isalnum", bIsalnum); R("isxdigit", bIsxdigit);
    R("isupper", bIsupper); R("islower", bIslower); R("iscntrl", bIscntrl); R("isprint", bIsprint); R("ispunct", bIspunct);
    R("tolower", bTolower); R("toupper", bToupper);
    R("__cxa_guard_acquire", bGuardAcquire); R("__cxa_guard_release", bGuardRelease); R("__cxa_guard_abort", bNop);
    R("__cxa_atexit", bNop); R("atexit", bNop);
    R("__cxa_allocate_exception", bAllocExc); R("__cxa_free_exception", bNop);
    R("__cxa_throw", bThrow); R("__cxa_rethrow", bRethrow); R("__cxa_begin_catch", bBeginCatch); R("__cxa_end_catch", bEndCatch);
    R("__cxa_get_exception_ptr", bGetExcPtr); R("__cxa_pure_virtual", bPureVirtual); R("_ZSt19uncaught_exceptionsv", bUncaught);
    R("_ZSt9terminatev", bTerminate); R("abort", bAbort); R("__assert_fail", bAssertFail); R("_ZSt21__glibcxx_assert_failPKciS0_S0_", bGlibcxxAssert);
    R("exit", bExit);
    R("_ZSt20__throw_length_errorPKc", bThrowStd<0>); R("_ZSt20__throw_out_of_rangePKc", bThrowStd<1>);
    R("_ZSt24__throw_out_of_range_fmtPKcz", bThrowStd<1>); R("_ZSt19__throw_logic_errorPKc", bThrowStd<2>);
    R("_ZSt24__throw_invalid_argumentPKc", bThrowStd<3>); R("_ZSt21__throw_runtime_errorPKc", bThrowStd<4>);
    R("_ZSt17__throw_bad_allocv", bThrowStd<5>); R("_ZSt28__throw_bad_array_new_lengthv", bThrowStd<6>);
    R("_ZSt25__throw_bad_function_callv", bThrowStd<7>); R("_ZSt20__throw_system_errori", bThrowStd<8>);
    R("symx_make_symbolic", bMakeSymbolic); R("symx_assume", bAssume); R("symx_assert", bAssert); R("symx_reach", bReach);
    R("symx_observe", bObserve); R("symx_param", bParam); R("symx_alloc_count", bAllocCount); R("symx_live_count", bLiveCount);
    R("symx_digits", bDigits); R("symx_decimal", bDecimal); R("symx_is_symbolic", bIsSymbolic);
    R("symx_concretize", bConcretize); R("symx_fail", bFail); R("symx_stop", bStop); R("symx_debug", bDebug);
    R("symx.what", bWhat); R("symx.nop", bNop);
    R("symx.ctorC", bExcCtorC); R("symx.ctorS", bExcCtorS); R("symx.ctorCopy", bExcCtorCopy); R("symx.ctorNone", bExcCtorNone);
}
static bool endsWith(const std::string &s, const char *t)
{
    size_t n = strlen(t);
    return s.size() >= n && s.compare(s.size() - n, n, t) == 0;
}
const Builtin *Exec::findBuiltin(Function *F)
{
    std::string n = F->getName().str();
    auto it       = builtins.find(n);
    if (it != builtins.end()) return &it->second;
    if (!F->isDeclaration()) return nullptr;
    static const char *classes[] = {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "16invalid_argument", "12system_error",
                                    "12domain_error", "11range_error", "14overflow_error", "9exception", "9bad_alloc", "20bad_array_new_length", "17bad_function_call",
                                    "19bad_optional_access", "18bad_variant_access"};
    for (auto *c : classes)
    {
        std::string p = std::string("_ZNSt") + c;
        if (n.compare(0, p.size(), p) == 0)
        {
            if (n.compare(p.size(), 1, "C") == 0)
            {
                if (endsWith(n, "PKc")) return &builtins["symx.ctorC"];
                if (n.find("basic_string") != std::string::npos) return &builtins["symx.ctorS"];
                if (endsWith(n, "ERKS_") || endsWith(n, "EOS_")) return &builtins["symx.ctorCopy"];
                return &builtins["symx.ctorNone"];
            }
            if (n.compare(p.size(), 1, "D") == 0) return &builtins["symx.nop"];
        }
        p = std::string("_ZNKSt") + c + "4whatEv";
        if (n == p) return &builtins["symx.what"];
    }
    return nullptr;
}

// --------------------------------------------------------------- startup
State *Exec::initial(Function *entry)
{
    auto *s = new State;
    // functions used by the exception model
    auto mkFn = [&](const char *n) {
        Function *f = M.getFunction(n);
        if (!f) f = Function::Create(FunctionType::get(Type::getVoidTy(M.getContext()), false), GlobalValue::ExternalLinkage, n, M);
        return fnAddr(f);
    };
    whatFn = mkFn("symx.what");
    nopFn  = mkFn("symx.nop");
    auto *vt = new GlobalVariable(M, ArrayType::get(Type::getInt64Ty(M.getContext()), 8), true, GlobalValue::ExternalLinkage, nullptr, "symx.excvtable");
    for (auto &g : M.globals()) constAddr(&g);
    globalsFrozen = true;
    excVtable     = constAddr(vt) + 16;
    for (size_t i = 0; i < globalOrder.size(); ++i)
    {
        GlobalVariable *g = globalOrder[i];
        std::string nm    = g->getName().str();
        u64 size          = g->getValueType()->isSized() ? DL.getTypeAllocSize(g->getValueType()).getFixedValue() : 64;
        bool ext          = !g->hasInitializer();
        if (ext) size = std::max<u64>(size, 88);
        u64 id = newObj(*s, size, g->isConstant() ? OConst : OGlobal, false);
        if (id != i + 2) abort();
    }
    for (size_t i = 0; i < globalOrder.size(); ++i)
    {
        GlobalVariable *g = globalOrder[i];
        std::string nm    = g->getName().str();
        Obj *o            = objOf(*s, i + 2);
        if (g->hasInitializer())
        {
            Constant *c = g->getInitializer();
            if (c->isNullValue()) continue;
            if (auto *cd = dyn_cast<ConstantDataSequential>(c))
            {
                StringRef r = cd->getRawDataValues();
                memcpy(o->b.data(), r.data(), std::min<size_t>(r.size(), o->b.size()));
                continue;
            }
            std::vector<Val> v;
            constVals(c, v);
            auto &lv = leavesOf(g->getValueType());
            for (size_t k = 0; k < lv.size(); ++k)
            {
                u64 x = v[k].c;
                if (v[k].sym()) x = (u64)v[k].n->val;
                memcpy(&o->b[lv[k].off], &x, std::min(lv[k].bytes, 8u));
            }
        }
        else if (nm == "__libc_single_threaded") o->b[0] = 1;
        else if (nm == "symx.excvtable" || nm.compare(0, 6, "_ZTVSt") == 0)
        {
            u64 t[5] = {0, 0, nopFn, nopFn, whatFn};
            memcpy(o->b.data(), t, sizeof t);
        }
    }
    // global constructors
    std::vector<std::pair<u64, Function *>> ctors;
    if (auto *gc = M.getGlobalVariable("llvm.global_ctors"))
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto &o : ca->operands())
            {
                auto *st = cast<ConstantStruct>(o);
                if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
                    ctors.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f);
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &c : ctors)
    {
        pushFrame(*s, getFn(c.second), {});
        try
        {
            while (!s->fr.empty()) step(*s);
        }
        catch (PathEnd &)
        {
            fprintf(stderr, "symx: global constructor failed\n");
            s->fr.clear();
            return nullptr;
        }
    }
    s->heapAllocs = 0;
    s->heapLive   = 0;
    pushFrame(*s, getFn(entry), {});
    return s;
}
