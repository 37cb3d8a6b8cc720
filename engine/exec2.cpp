// symx: core of the symbolic executor (memory, constraints, instructions).
#include "executor.h"
#include <algorithm>
#include <chrono>
#include <cmath>
using namespace llvm;

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
bool Exec::timeUp() { return nowSec() - t0 > opt.time; }

Exec::Exec(Module &m, Options o) : M(m), DL(m.getDataLayout()), opt(o), S(o.solverMs)
{
    t0 = nowSec();
    registerBuiltins();
}

// ---------------------------------------------------------------- memory
Obj *Exec::objOf(State &s, u64 id)
{
    u64 c = id >> 6;
    if (c >= s.mem.size() || !s.mem[c].p) return nullptr;
    return s.mem[c].p->o[id & 63].p;
}
u64 Exec::newObj(State &s, u64 size, uint8_t kind, bool uninit)
{
    u64 id = s.nextId++;
    u64 c  = id >> 6;
    if (s.mem.size() <= c) s.mem.resize(c + 1);
    if (!s.mem[c].p) s.mem[c] = ChunkRef(new Chunk);
    else if (s.mem[c].p->rc > 1)
    {
        Chunk *n = new Chunk;
        for (int i = 0; i < 64; ++i) n->o[i] = s.mem[c].p->o[i];
        s.mem[c] = ChunkRef(n);
    }
    Obj *ob  = new Obj;
    ob->size = size;
    ob->kind = kind;
    ob->b.resize(size);
    if (uninit && size)
    {
        ob->anyUn = true;
        ob->uninit.assign(size, 1);
    }
    s.mem[c].p->o[id & 63] = ObjRef(ob);
    return id;
}
Obj *Exec::writable(State &s, u64 id)
{
    u64 c = id >> 6;
    if (s.mem[c].p->rc > 1)
    {
        Chunk *n = new Chunk;
        for (int i = 0; i < 64; ++i) n->o[i] = s.mem[c].p->o[i];
        s.mem[c] = ChunkRef(n);
    }
    ObjRef &r = s.mem[c].p->o[id & 63];
    if (r.p->rc > 1)
    {
        Obj *n = new Obj(*r.p);
        n->rc  = 0;
        r      = ObjRef(n);
    }
    return r.p;
}
void Exec::freeObj(State &s, u64 id)
{
    writable(s, id);
    s.mem[id >> 6].p->o[id & 63] = ObjRef();
}
Obj *Exec::checkAcc(State &s, u64 addr, u64 n, bool write, u64 &off)
{
    u64 id = addr >> ASH;
    off    = addr - ((id << ASH) + ABASE);
    if (id < 2) violation(s, "memory", id == 0 ? (write ? "null pointer write" : "null pointer read") : "access to code");
    Obj *o = objOf(s, id);
    if (!o) violation(s, "memory", id < s.nextId ? (write ? "write to freed or out-of-scope memory" : "read of freed or out-of-scope memory") : "wild pointer");
    if (off > o->size || n > o->size - off)
        violation(s, "memory", std::string(write ? "write" : "read") + " out of bounds: offset " + std::to_string((int64_t)off) + " size " + std::to_string(n) + " of " +
                                   (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes");
    if (write && o->kind == OConst) violation(s, "memory", "write to constant object");
    return o;
}
E Exec::byteAt(State &s, Obj *o, u64 id, u64 off)
{
    if (o->anyUn && o->uninit[off])
    {
        E e    = symAt(0xffff, s.nuninit++, true);
        growSyms(s);
        Obj *w = writable(s, id);
        w->uninit[off] = 0;
        if (w->s.empty()) w->s.assign(w->size, nullptr);
        w->s[off] = e;
        w->anySym = true;
        return e;
    }
    if (o->anySym && o->s[off]) return o->s[off];
    return mkConst(o->b[off], 8);
}
Val Exec::loadBytes(State &s, u64 addr, unsigned bytes, unsigned w)
{
    u64 off;
    Obj *o = checkAcc(s, addr, bytes, false, off);
    bool sy = false;
    if (o->anyUn)
        for (unsigned i = 0; i < bytes && !sy; ++i) sy = o->uninit[off + i];
    if (!sy && o->anySym)
        for (unsigned i = 0; i < bytes && !sy; ++i) sy = o->s[off + i] != nullptr;
    if (!sy)
    {
        u128 v = 0;
        memcpy(&v, &o->b[off], bytes);
        v &= maskw(w);
        if (w <= 64) return Val((u64)v);
        return Val(mkConst(v, w));
    }
    u64 id = addr >> ASH;
    E r    = nullptr;
    for (unsigned i = 0; i < bytes; ++i)
    {
        E b = byteAt(s, o, id, off + i);
        o   = objOf(s, id);
        r   = r ? mkConcat(b, r) : b;
    }
    if (r->w != w) r = mkExtract(r, 0, w);
    return Val(r);
}
void Exec::storeBytes(State &s, u64 addr, unsigned bytes, unsigned w, const Val &v)
{
    u64 off;
    checkAcc(s, addr, bytes, true, off);
    Obj *o = writable(s, addr >> ASH);
    if (o->anyUn) memset(&o->uninit[off], 0, bytes);
    if (!v.sym())
    {
        u64 c = v.c;
        memcpy(&o->b[off], &c, bytes < 8 ? bytes : 8);
        if (bytes > 8) memset(&o->b[off + 8], 0, bytes - 8);
        if (o->anySym) std::fill(o->s.begin() + off, o->s.begin() + off + bytes, nullptr);
        return;
    }
    E e = mkZExtTo(v.n, bytes * 8);
    for (unsigned i = 0; i < bytes; ++i)
    {
        E b = mkExtract(e, i * 8, 8);
        if (isC(b))
        {
            o->b[off + i] = (uint8_t)b->val;
            if (o->anySym) o->s[off + i] = nullptr;
        }
        else
        {
            if (o->s.empty()) o->s.assign(o->size, nullptr);
            o->s[off + i] = b;
            o->anySym     = true;
        }
    }
}

// resolve Ite's between different objects by forking
E Exec::splitPtr(State &s, E a)
{
    if (isC(a) || a->w != 64) return a;
    if ((a->umin >> ASH) == (a->umax >> ASH)) return a;
    if (a->k == K::Ite)
        return forkOn(s, a->a) ? splitPtr(s, reduce(s, a->b)) : splitPtr(s, reduce(s, a->c));
    if (a->k == K::Add)
    {
        E x = splitPtr(s, a->a);
        E y = splitPtr(s, a->b);
        return mkBin(K::Add, x, y);
    }
    if (a->k == K::Sub)
    {
        E x = splitPtr(s, a->a);
        E y = splitPtr(s, a->b);
        return mkBin(K::Sub, x, y);
    }
    return a;
}

static unsigned tz(E e)
{
    if (isC(e))
    {
        if (!e->val) return 63;
        unsigned n = 0;
        while (!((e->val >> n) & 1)) ++n;
        return n;
    }
    if (e->k == K::Concat)
    {
        if (isC(e->b) && e->b->val == 0) return e->b->w + std::min(tz(e->a), 8u);
        return std::min(tz(e->b), (unsigned)e->b->w);
    }
    if (e->k == K::ZExt || e->k == K::SExt) return std::min(tz(e->a), (unsigned)e->a->w);
    if (e->k == K::Add || e->k == K::Sub || e->k == K::Or || e->k == K::Xor) return std::min(tz(e->a), tz(e->b));
    if (e->k == K::Ite) return std::min(tz(e->b), tz(e->c));
    if (e->k == K::Mul) return std::min(tz(e->a) + tz(e->b), 63u);
    return 0;
}

Val Exec::load(State &s, const Val &addr, unsigned bytes, unsigned w)
{
    if (!addr.sym()) return loadBytes(s, addr.c, bytes, w);
    E a = splitPtr(s, reduce(s, addr.n));
    a   = reduce(s, a);
    if (isC(a)) return loadBytes(s, (u64)a->val, bytes, w);
    u64 va = (u64)Evaluator(s.model)(a);
    // provenance: constant part of the address, else the model
    u64 base = 0;
    if (a->k == K::Add && isC(a->b) && ((u64)a->b->val >> ASH) >= 2) base = (u64)a->b->val >> ASH;
    if (!base || !objOf(s, base)) base = va >> ASH;
    Obj *o = base >= 2 ? objOf(s, base) : nullptr;
    if (!o || o->size < bytes)
    {
        u64 off;
        concretize(s, Val(a), 64);
        checkAcc(s, va, bytes, false, off);
        return loadBytes(s, va, bytes, w);
    }
    u64 b0   = (base << ASH) + ABASE;
    E offE   = reduce(s, mkBin(K::Sub, a, mkConst(b0, 64)));
    E inb    = mkBin(K::Ule, offE, mkConst(o->size - bytes, 64));
    if (!isC(inb) || !inb->val)
    {
        std::vector<std::pair<uint32_t, uint8_t>> m;
        ++S.st.queries;
        if (isC(inb) || !Evaluator(s.model)(inb))
        {
            violation(s, "memory", "read out of bounds through a symbolic offset");
        }
        Res r = feasible(s, mkNot(inb), m);
        if (r == Res::Sat)
        {
            Model mm = s.model;
            for (auto &p : m) mm[p.first] = p.second;
            violation(s, "memory", "read out of bounds through a symbolic offset, object of " + std::to_string(o->size) + " bytes", false, false, &mm);
        }
        else if (r == Res::Unknown) incomplete["solver timeout"]++;
        addCons(s, inb);
        offE = reduce(s, offE);
        if (isC(offE)) return loadBytes(s, b0 + (u64)offE->val, bytes, w);
    }
    std::vector<u64> cand;
    if (offE->syms->v.size() == 1)
    {
        uint32_t id = offE->syms->v[0];
        Model m     = s.model;
        std::set<u64> st;
        for (unsigned v = 0; v < 256; ++v)
            if (s.dom[id].get(v))
            {
                m[id]  = v;
                u64 of = (u64)Evaluator(m)(offE);
                if (of + bytes <= o->size) st.insert(of);
            }
        cand.assign(st.begin(), st.end());
    }
    else
    {
        u64 stride = (u64)1 << std::min(tz(offE), 12u);
        u64 lo = offE->umin, hi = std::min<u64>(offE->umax, o->size - bytes);
        if (hi >= lo && (hi - lo) / stride <= 1200)
            for (u64 x = (lo + stride - 1) / stride * stride; x <= hi; x += stride) cand.push_back(x);
    }
    if (cand.empty())
    {
        u64 v = concretize(s, Val(a), 64);
        return loadBytes(s, v, bytes, w);
    }
    // balanced tree over the candidate offsets
    std::vector<E> vals;
    for (u64 c : cand) vals.push_back(toE(loadBytes(s, b0 + c, bytes, w), w));
    std::function<E(size_t, size_t)> build = [&](size_t l, size_t h) -> E
    {
        if (h - l == 1) return vals[l];
        bool same = true;
        for (size_t i = l + 1; i < h && same; ++i) same = vals[i] == vals[l];
        if (same) return vals[l];
        size_t mid = (l + h) / 2;
        return mkIte(mkBin(K::Ult, offE, mkConst(cand[mid], 64)), build(l, mid), build(mid, h));
    };
    return Val(build(0, cand.size()));
}
u64 Exec::resolveForWrite(State &s, const Val &addr, u64 n)
{
    if (!addr.sym()) return addr.c;
    E a = reduce(s, splitPtr(s, reduce(s, addr.n)));
    return concretize(s, Val(a), 64);
}
void Exec::store(State &s, const Val &addr, unsigned bytes, unsigned w, const Val &v) { storeBytes(s, resolveForWrite(s, addr, bytes), bytes, w, v); }

void Exec::memCopy(State &s, u64 dst, u64 src, u64 n)
{
    if (!n) return;
    u64 so, dof;
    Obj *so_ = checkAcc(s, src, n, false, so);
    checkAcc(s, dst, n, true, dof);
    std::vector<uint8_t> b(so_->b.begin() + so, so_->b.begin() + so + n);
    std::vector<E> sy;
    std::vector<uint8_t> un;
    // give uninitialised bytes their symbol so that both copies stay equal
    if (so_->anySym) sy.assign(so_->s.begin() + so, so_->s.begin() + so + n);
    if (so_->anyUn) un.assign(so_->uninit.begin() + so, so_->uninit.begin() + so + n);
    Obj *d = writable(s, dst >> ASH);
    memcpy(&d->b[dof], b.data(), n);
    if (!sy.empty())
    {
        if (d->s.empty())
        {
            bool any = false;
            for (E e : sy) any |= e != nullptr;
            if (any) d->s.assign(d->size, nullptr), d->anySym = true;
        }
        if (!d->s.empty()) std::copy(sy.begin(), sy.end(), d->s.begin() + dof);
    }
    else if (d->anySym) std::fill(d->s.begin() + dof, d->s.begin() + dof + n, nullptr);
    if (!un.empty())
    {
        bool any = false;
        for (auto u : un) any |= u;
        if (d->uninit.empty() && any) d->uninit.assign(d->size, 0), d->anyUn = true;
        if (!d->uninit.empty()) std::copy(un.begin(), un.end(), d->uninit.begin() + dof);
    }
    else if (d->anyUn) memset(&d->uninit[dof], 0, n);
}
void Exec::memSet(State &s, u64 dst, const Val &v, u64 n)
{
    if (!n) return;
    u64 off;
    checkAcc(s, dst, n, true, off);
    Obj *o = writable(s, dst >> ASH);
    if (o->anyUn) memset(&o->uninit[off], 0, n);
    if (v.sym())
    {
        if (o->s.empty()) o->s.assign(o->size, nullptr), o->anySym = true;
        std::fill(o->s.begin() + off, o->s.begin() + off + n, v.n);
    }
    else
    {
        memset(&o->b[off], (int)v.c, n);
        if (o->anySym) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
    }
}
std::string Exec::cstr(State &s, u64 addr)
{
    std::string r;
    for (;;)
    {
        Val v = loadBytes(s, addr++, 1, 8);
        u64 c = v.sym() ? concretize(s, v, 8) : v.c;
        if (!c || r.size() > 4096) return r;
        r += (char)c;
    }
}

// ----------------------------------------------------------- constraints
static std::map<std::pair<unsigned, unsigned>, E> g_symAt;
E Exec::symAt(unsigned seq, unsigned idx, bool uninit)
{
    auto key = std::make_pair(seq, idx);
    auto it  = g_symAt.find(key);
    if (it != g_symAt.end()) return it->second;
    E e          = mkSym(uninit);
    g_symAt[key] = e;
    return e;
}
void Exec::growSyms(State &s)
{
    unsigned n = numSyms();
    if (s.model.size() < n)
    {
        s.model.resize(n, 0);
        Dom full;
        for (auto &b : full.bits) b = ~(u64)0;
        s.dom.resize(n, full);
        s.entangled.resize(n, 0);
    }
}
E Exec::reduce(State &s, E e)
{
    if (s.bind.empty() || isC(e)) return e;
    return substitute(e, s.bind);
}
E Exec::domExpr(uint32_t id, const Dom &d)
{
    // disjunction of ranges
    static std::map<std::pair<uint32_t, std::array<u64, 4>>, E> memo;
    std::array<u64, 4> k{d.bits[0], d.bits[1], d.bits[2], d.bits[3]};
    auto it = memo.find({id, k});
    if (it != memo.end()) return it->second;
    E x = nullptr;
    // find the symbol node
    static std::unordered_map<uint32_t, E> nodes;
    auto ni = nodes.find(id);
    if (ni == nodes.end())
    {
        for (auto &p : g_symAt) nodes[p.second->lo] = p.second;
        ni = nodes.find(id);
    }
    x   = ni->second;
    E r = mkFalse();
    for (unsigned i = 0; i < 256;)
    {
        if (!d.get(i)) { ++i; continue; }
        unsigned j = i;
        while (j < 256 && d.get(j)) ++j;
        E c;
        if (j - i == 1) c = mkEq(x, mkConst(i, 8));
        else c = mkBin(K::And, mkBin(K::Ule, mkConst(i, 8), x), mkBin(K::Ule, x, mkConst(j - 1, 8)));
        r = mkBin(K::Or, r, c);
        i = j;
    }
    memo[{id, k}] = r;
    return r;
}
static bool fullDom(const Dom &d) { return !~(d.bits[0] & d.bits[1] & d.bits[2] & d.bits[3]); }

void Exec::setModel(State &s, const std::vector<std::pair<uint32_t, uint8_t>> &m)
{
    for (auto &p : m) s.model[p.first] = p.second;
}
void Exec::bindSym(State &s, uint32_t id, uint8_t v)
{
    s.bind[id] = v;
    s.model[id] = v;
    if (!s.entangled[id]) return;
    std::vector<E> keep, redo;
    for (E c : s.cons)
        (std::binary_search(c->syms->v.begin(), c->syms->v.end(), id) ? redo : keep).push_back(c);
    s.cons = keep;
    std::fill(s.entangled.begin(), s.entangled.end(), 0);
    for (E c : s.cons)
        for (auto i : c->syms->v) s.entangled[i] = 1;
    for (E c : redo) addCons(s, substitute(c, s.bind));
}
void Exec::addCons(State &s, E c)
{
    c = reduce(s, c);
    if (isC(c))
    {
        if (!c->val)
        {
            // infeasible: must not happen
            incomplete["internal: contradictory constraint"]++;
            throw PathEnd{3};
        }
        return;
    }
    if (c->k == K::And && c->w == 1)
    {
        E a = c->a, b = c->b;
        addCons(s, a);
        addCons(s, b);
        return;
    }
    if (c->k == K::Xor && isC(c->b) && c->a->k == K::Or)
    {
        E a = c->a->a, b = c->a->b;
        addCons(s, mkNot(a));
        addCons(s, mkNot(b));
        return;
    }
    if (c->syms->v.size() == 1)
    {
        uint32_t id  = c->syms->v[0];
        const Dom *t = truthTable(c);
        unsigned n = 0, last = 0;
        for (int i = 0; i < 4; ++i)
        {
            s.dom[id].bits[i] &= t->bits[i];
            n += __builtin_popcountll(s.dom[id].bits[i]);
            if (s.dom[id].bits[i]) last = i * 64 + __builtin_ctzll(s.dom[id].bits[i]);
        }
        if (n == 0)
        {
            incomplete["internal: empty domain"]++;
            throw PathEnd{3};
        }
        if (n == 1) bindSym(s, id, last);
        return;
    }
    for (E x : s.cons)
        if (x == c) return;
    s.cons.push_back(c);
    for (auto i : c->syms->v) s.entangled[i] = 1;
}

// replaces single-byte conditions that the domain of the byte decides
static E domSimp(State &s, E e, std::unordered_map<E, E> &memo)
{
    if (isC(e) || e->k == K::Sym || e->syms->v.empty()) return e;
    bool restricted = false;
    for (auto y : e->syms->v) if (!fullDom(s.dom[y])) { restricted = true; break; }
    if (!restricted) return e;
    if (e->w == 1 && e->syms->v.size() == 1)
    {
        const Dom *t = truthTable(e);
        const Dom &d = s.dom[e->syms->v[0]];
        bool yes = false, no = false;
        for (int i = 0; i < 4; ++i) { yes |= (t->bits[i] & d.bits[i]) != 0; no |= (~t->bits[i] & d.bits[i]) != 0; }
        if (!yes) return mkFalse();
        if (!no) return mkTrue();
        return e;
    }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = e->a ? domSimp(s, e->a, memo) : nullptr, b = e->b ? domSimp(s, e->b, memo) : nullptr, c = e->c ? domSimp(s, e->c, memo) : nullptr;
    E r = a == e->a && b == e->b && c == e->c ? e : rebuild(e, a, b, c);
    memo[e] = r;
    return r;
}

Res Exec::feasible(State &s, E c, std::vector<std::pair<uint32_t, uint8_t>> &out, bool)
{
    c = reduce(s, c);
    if (!isC(c) && c->syms->v.size() > 1)
    {
        std::unordered_map<E, E> memo;
        c = domSimp(s, c, memo);
        if (isC(c))
        {
            ++S.st.fd_decided;
            return c->val ? Res::Sat : Res::Unsat; // the current model satisfies what the domains imply
        }
    }
    if (isC(c)) return c->val ? Res::Sat : Res::Unsat;
    const auto &sy = c->syms->v;
    if (sy.size() == 1)
    {
        uint32_t id  = sy[0];
        const Dom *t = truthTable(c);
        Dom d;
        bool any = false;
        int v    = -1;
        for (int i = 0; i < 4; ++i)
        {
            d.bits[i] = t->bits[i] & s.dom[id].bits[i];
            if (d.bits[i] && !any)
            {
                any = true;
                v   = i * 64 + __builtin_ctzll(d.bits[i]);
            }
        }
        if (!any)
        {
            ++S.st.fd_decided;
            return Res::Unsat;
        }
        if (!s.entangled[id])
        {
            ++S.st.fd_decided;
            out.emplace_back(id, (uint8_t)v);
            return Res::Sat;
        }
    }
    for (E x : s.cons)
    {
        if (x == c) return Res::Sat; // model already satisfies it
        if (mkNot(x) == c) return Res::Unsat;
    }
    // independent slice
    static std::vector<u64> mark;
    static u64 stamp = 0;
    ++stamp;
    if (mark.size() < numSyms()) mark.resize(numSyms() + 64, 0);
    // digits of numbers are determined by the number: questions that do not
    // mention them are first answered without the constraints that do
    bool skipDigits = false;
    std::set<uint32_t> digs;
    for (auto &r : s.digits)
        for (E b : r.bytes) digs.insert(b->lo);
    if (!digs.empty())
    {
        skipDigits = true;
        for (auto y : sy) if (digs.count(y)) skipDigits = false;
    }
    auto hasDigit = [&](E e) { for (auto y : e->syms->v) if (digs.count(y)) return true; return false; };
again:
    std::vector<uint32_t> q(sy.begin(), sy.end());
    for (auto i : q) mark[i] = stamp;
    std::vector<E> slice{c};
    std::vector<char> used(s.cons.size(), 0);
    if (skipDigits)
        for (size_t i = 0; i < s.cons.size(); ++i) used[i] = hasDigit(s.cons[i]);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); ++i)
        {
            if (used[i]) continue;
            bool hit = false;
            for (auto y : s.cons[i]->syms->v)
                if (mark[y] == stamp) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            ch      = true;
            slice.push_back(s.cons[i]);
            for (auto y : s.cons[i]->syms->v)
                if (mark[y] != stamp) { mark[y] = stamp; q.push_back(y); }
        }
    }
    for (auto i : q)
        if (!fullDom(s.dom[i])) slice.push_back(domExpr(i, s.dom[i]));
    if (skipDigits)
    {
        Res r = S.check(slice, out);
        if (r == Res::Unsat) return r;
        if (r == Res::Sat)
        {
            Model m = s.model;
            for (auto &p : out) m[p.first] = p.second;
            bool ok = true;
            for (auto &d : s.digits)
            {
                u64 v = (u64)Evaluator(m)(d.u);
                for (size_t i = d.bytes.size(); i--; v /= 10)
                {
                    const uint8_t x = (uint8_t)('0' + v % 10);
                    m[d.bytes[i]->lo] = x;
                    ok &= s.dom[d.bytes[i]->lo].get(x);
                    out.emplace_back(d.bytes[i]->lo, x);
                }
                ok &= v == 0;
            }
            for (E x : s.cons)
                if (ok && hasDigit(x)) ok = Evaluator(m)(x) != 0;
            if (ok) return r;
        }
        out.clear();
        skipDigits = false;
        ++stamp;
        goto again;
    }
    return S.check(slice, out);
}

// a decision that mentions uninitialised bytes without depending on them
// (masked bits of a word) is replaced by its value for zero bytes
E Exec::dropUninit(State &s, E c)
{
    if (!c->syms->has_uninit) return c;
    std::unordered_map<uint32_t, uint8_t> bind;
    for (auto y : c->syms->v)
        if (g_sym_uninit[y]) bind[y] = 0;
    E z = substitute(c, bind);
    E d = mkBin(K::Xor, c, z);
    if (isC(d)) return d->val ? c : z;
    std::vector<std::pair<uint32_t, uint8_t>> m;
    if (Evaluator(s.model)(d)) return c;
    return feasible(s, d, m) == Res::Unsat ? reduce(s, z) : c;
}

bool Exec::forkOn(State &s, E c)
{
    ++S.st.queries;
    c = reduce(s, c);
    if (isC(c)) return c->val != 0;
    c = dropUninit(s, c);
    if (isC(c)) return c->val != 0;
    if (c->syms->has_uninit && !s.soft)
    {
        s.soft = true;
        violation(s, "uninit", "decision depends on uninitialised memory", false, true);
    }
    const bool mv = Evaluator(s.model)(c) != 0;
    E other       = mv ? mkNot(c) : c;
    std::vector<std::pair<uint32_t, uint8_t>> m;
    Res r = feasible(s, other, m);
    if (r == Res::Unsat) return mv;
    if (r == Res::Unknown)
    {
        incomplete["solver timeout"]++;
        addCons(s, mv ? c : mkNot(c));
        return mv;
    }
    ++forks;
    State *t = new State(s);
    setModel(*t, m);
    addCons(*t, other);
    work.push_back(t);
    addCons(s, mv ? c : mkNot(c));
    return mv;
}
// sums of constants chosen by conditions
static bool switchLike(E e, int depth = 0)
{
    if (isC(e)) return true;
    if (depth > 8) return false;
    if (e->k == K::ZExt && e->a->w == 1) return true;
    if (e->k == K::Ite) return switchLike(e->b, depth + 1) && switchLike(e->c, depth + 1);
    if (e->k == K::Add || e->k == K::Sub) return switchLike(e->a, depth + 1) && switchLike(e->b, depth + 1);
    if (e->k == K::Mul || e->k == K::Shl) return isC(e->b) && switchLike(e->a, depth + 1);
    return false;
}
u64 Exec::switchValue(State &s, E e)
{
    if (isC(e)) return (u64)e->val;
    if (e->k == K::ZExt) return forkOn(s, e->a);
    if (e->k == K::Ite) return switchValue(s, forkOn(s, e->a) ? e->b : e->c);
    u64 x = switchValue(s, e->a), y = switchValue(s, e->b);
    switch (e->k)
    {
    case K::Add: return x + y;
    case K::Sub: return x - y;
    case K::Mul: return x * y;
    default: return y < 64 ? x << y : 0;
    }
}

u64 Exec::concretize(State &s, const Val &v, unsigned w)
{
    if (!v.sym()) return v.c;
    E e = reduce(s, v.n);
    if (isC(e)) return (u64)e->val;
    u64 x = (u64)Evaluator(s.model)(e);
    forkOn(s, mkEq(e, mkConst(x, e->w)));
    return x;
}

// ------------------------------------------------------------- reporting
std::string Exec::inputHex(const InputRec &r, Evaluator &ev)
{
    static const char *hx = "0123456789abcdef";
    std::string h;
    for (E e : r.bytes)
    {
        unsigned v = (unsigned)ev(e);
        h += hx[v >> 4];
        h += hx[v & 15];
    }
    return h;
}
void Exec::violation(State &s, const std::string &kind, const std::string &msg, bool end, bool soft, const Model *m)
{
    std::string loc = "?";
    if (!s.fr.empty())
    {
        auto &f = s.fr.back();
        auto &B = f.fn->blocks[f.bb];
        if (f.pc < (int)B.ins.size()) loc = locOf(B.ins[f.pc].I);
    }
    std::string key = kind + "|" + msg + "|" + loc;
    unsigned nsoft = 0, nhard = 0;
    for (auto &v : viols) (v.soft ? nsoft : nhard)++;
    if ((soft ? nsoft : nhard) < 12 && violKeys.insert(key).second)
    {
        Violation v;
        v.kind = kind;
        v.msg  = msg;
        v.loc  = loc;
        v.soft = soft;
        Evaluator ev(m ? *m : s.model);
        for (auto &r : s.inputs) v.inputs.emplace_back(r.name, inputHex(r, ev));
        for (size_t i = s.fr.size(); i-- > 0 && v.stack.size() < 20;)
            v.stack.push_back(s.fr[i].fn->F->getName().str());
        viols.push_back(v);
    }
    if (end) throw PathEnd{2};
}
void Exec::unsupported(State &s, const std::string &what)
{
    std::string loc = "?";
    if (!s.fr.empty())
    {
        auto &f = s.fr.back();
        auto &B = f.fn->blocks[f.bb];
        if (f.pc < (int)B.ins.size()) loc = locOf(B.ins[f.pc].I);
    }
    if (getenv("SYMX_DEBUG"))
    {
        fprintf(stderr, "unsupported %s at %s\n", what.c_str(), loc.c_str());
        for (auto &f : s.fr) fprintf(stderr, "   in %s\n", f.fn->F->getName().str().c_str());
    }
    incomplete["unsupported: " + what + " at " + loc]++;
    throw PathEnd{3};
}
void Exec::finish(State &s)
{
    ++paths;
    ++sampleSeen;
    // reservoir sampling of completed paths
    bool take = samples.size() < opt.samples;
    size_t at = samples.size();
    if (!take)
    {
        static u64 rng = 88172645463325252ULL;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        u64 k = rng % sampleSeen;
        if (k < opt.samples) { take = true; at = k; }
    }
    if (!take) return;
    Sample sm;
    Evaluator ev(s.model);
    for (auto &r : s.inputs) sm.inputs.emplace_back(r.name, inputHex(r, ev));
    for (auto &o : s.obs) sm.obs.push_back(o.sym() ? (u64)ev(o.n) : o.c);
    if (at == samples.size()) samples.push_back(sm);
    else samples[at] = sm;
}

// ------------------------------------------------------------- operators
Val Exec::icmp(unsigned p, const Val &a, const Val &b, unsigned w)
{
    if (!a.sym() && !b.sym())
    {
        u64 x = a.c, y = b.c;
        int64_t sx = w == 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w);
        int64_t sy = w == 64 ? (int64_t)y : (int64_t)(y << (64 - w)) >> (64 - w);
        switch (p)
        {
        case CmpInst::ICMP_EQ: return Val((u64)(x == y));
        case CmpInst::ICMP_NE: return Val((u64)(x != y));
        case CmpInst::ICMP_ULT: return Val((u64)(x < y));
        case CmpInst::ICMP_ULE: return Val((u64)(x <= y));
        case CmpInst::ICMP_UGT: return Val((u64)(x > y));
        case CmpInst::ICMP_UGE: return Val((u64)(x >= y));
        case CmpInst::ICMP_SLT: return Val((u64)(sx < sy));
        case CmpInst::ICMP_SLE: return Val((u64)(sx <= sy));
        case CmpInst::ICMP_SGT: return Val((u64)(sx > sy));
        case CmpInst::ICMP_SGE: return Val((u64)(sx >= sy));
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p)
    {
    case CmpInst::ICMP_EQ: return Val(mkEq(x, y));
    case CmpInst::ICMP_NE: return Val(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return Val(mkBin(K::Ult, x, y));
    case CmpInst::ICMP_ULE: return Val(mkBin(K::Ule, x, y));
    case CmpInst::ICMP_UGT: return Val(mkBin(K::Ult, y, x));
    case CmpInst::ICMP_UGE: return Val(mkBin(K::Ule, y, x));
    case CmpInst::ICMP_SLT: return Val(mkBin(K::Slt, x, y));
    case CmpInst::ICMP_SLE: return Val(mkBin(K::Sle, x, y));
    case CmpInst::ICMP_SGT: return Val(mkBin(K::Slt, y, x));
    case CmpInst::ICMP_SGE: return Val(mkBin(K::Sle, y, x));
    }
    abort();
}
static double asD(u64 c, unsigned w)
{
    if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; }
    double d;
    memcpy(&d, &c, 8);
    return d;
}
static u64 fromD(double d, unsigned w)
{
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    u64 x;
    memcpy(&x, &d, 8);
    return x;
}
static void fpParts(E e, E &sign, E &exp, E &man)
{
    if (e->w == 32) { sign = mkExtract(e, 31, 1); exp = mkExtract(e, 23, 8); man = mkExtract(e, 0, 23); }
    else { sign = mkExtract(e, 63, 1); exp = mkExtract(e, 52, 11); man = mkExtract(e, 0, 52); }
}
static E fpNan(E e)
{
    E s, x, m;
    fpParts(e, s, x, m);
    return mkBin(K::And, mkEq(x, mkConst(~(u128)0, x->w)), mkNot(mkEq(m, mkConst(0, m->w))));
}
static E fpLt(E a, E b) // ordered, no NaN
{
    const unsigned w = a->w;
    E az = mkEq(mkExtract(a, 0, w - 1), mkConst(0, w - 1)), bz = mkEq(mkExtract(b, 0, w - 1), mkConst(0, w - 1));
    E as = mkExtract(a, w - 1, 1), bs = mkExtract(b, w - 1, 1);
    E bothz = mkBin(K::And, az, bz);
    E lt = mkIte(as, mkIte(bs, mkBin(K::Ult, b, a), mkTrue()), mkIte(bs, mkFalse(), mkBin(K::Ult, a, b)));
    return mkBin(K::And, mkNot(bothz), lt);
}
static E fpEq(E a, E b)
{
    const unsigned w = a->w;
    E az = mkEq(mkExtract(a, 0, w - 1), mkConst(0, w - 1)), bz = mkEq(mkExtract(b, 0, w - 1), mkConst(0, w - 1));
    return mkBin(K::Or, mkEq(a, b), mkBin(K::And, az, bz));
}
Val Exec::fcmp(State &s, unsigned p, const Val &a, const Val &b, Type *t)
{
    const unsigned w = t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 0;
    if (!w) unsupported(s, "fcmp type");
    if (!a.sym() && !b.sym())
    {
        double x = asD(a.c, w), y = asD(b.c, w);
        bool un = std::isnan(x) || std::isnan(y);
        bool r = false;
        switch (p)
        {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        }
        return Val((u64)r);
    }
    E x = toE(a, w), y = toE(b, w);
    E un = mkBin(K::Or, fpNan(x), fpNan(y)), ord = mkNot(un);
    auto O = [&](E e) { return Val(mkBin(K::And, ord, e)); };
    auto U = [&](E e) { return Val(mkBin(K::Or, un, e)); };
    switch (p)
    {
    case CmpInst::FCMP_OEQ: return O(fpEq(x, y));
    case CmpInst::FCMP_OGT: return O(fpLt(y, x));
    case CmpInst::FCMP_OGE: return O(mkNot(fpLt(x, y)));
    case CmpInst::FCMP_OLT: return O(fpLt(x, y));
    case CmpInst::FCMP_OLE: return O(mkNot(fpLt(y, x)));
    case CmpInst::FCMP_ONE: return O(mkNot(fpEq(x, y)));
    case CmpInst::FCMP_ORD: return Val(ord);
    case CmpInst::FCMP_UNO: return Val(un);
    case CmpInst::FCMP_UEQ: return U(fpEq(x, y));
    case CmpInst::FCMP_UGT: return U(fpLt(y, x));
    case CmpInst::FCMP_UGE: return U(mkNot(fpLt(x, y)));
    case CmpInst::FCMP_ULT: return U(fpLt(x, y));
    case CmpInst::FCMP_ULE: return U(mkNot(fpLt(y, x)));
    case CmpInst::FCMP_UNE: return U(mkNot(fpEq(x, y)));
    }
    return Val((u64)(p == CmpInst::FCMP_TRUE));
}
Val Exec::binop(State &s, unsigned op, const Val &a, const Val &b, unsigned w, const DI &d)
{
    K k;
    switch (op)
    {
    case Instruction::Add: k = K::Add; break;
    case Instruction::Sub: k = K::Sub; break;
    case Instruction::Mul: k = K::Mul; break;
    case Instruction::UDiv: k = K::UDiv; break;
    case Instruction::SDiv: k = K::SDiv; break;
    case Instruction::URem: k = K::URem; break;
    case Instruction::SRem: k = K::SRem; break;
    case Instruction::And: k = K::And; break;
    case Instruction::Or: k = K::Or; break;
    case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break;
    case Instruction::LShr: k = K::LShr; break;
    case Instruction::AShr: k = K::AShr; break;
    default: unsupported(s, std::string("binop ") + Instruction::getOpcodeName(op));
    }
    if (k >= K::UDiv && k <= K::SRem)
    {
        Val z = icmp(CmpInst::ICMP_EQ, b, w > 64 ? Val(mkConst(0, w)) : Val((u64)0), w);
        if (forkVal(s, z)) violation(s, "ub", "division by zero");
    }
    if (!a.sym() && !b.sym() && w <= 64)
    {
        const u64 m = mask64(w);
        switch (k)
        {
        case K::Add: return Val((a.c + b.c) & m);
        case K::Sub: return Val((a.c - b.c) & m);
        case K::Mul: return Val((a.c * b.c) & m);
        case K::And: return Val(a.c & b.c);
        case K::Or: return Val(a.c | b.c);
        case K::Xor: return Val(a.c ^ b.c);
        case K::Shl: return Val(b.c >= w ? 0 : (a.c << b.c) & m);
        case K::LShr: return Val(b.c >= w ? 0 : a.c >> b.c);
        default: return Val((u64)evalBin(k, a.c, b.c, w));
        }
    }
    return Val(mkBin(k, toE(a, w), toE(b, w)));
}

// ------------------------------------------------------------- execution
void Exec::setRes(State &s, const DI &d, const Val &v)
{
    if (d.dst >= 0) s.fr.back().regs[d.dst] = v;
}
void Exec::jump(State &s, int bb)
{
    Frame &f = s.fr.back();
    BB &B    = f.fn->blocks[bb];
    B.hit    = true;
    if (!B.phis.empty())
    {
        static thread_local std::vector<Val> tmp;
        tmp.clear();
        for (auto &p : B.phis)
        {
            const Opnd *o = nullptr;
            for (auto &in : p.in)
                if (in.first == f.bb) { o = &in.second; break; }
            for (unsigned i = 0; i < p.n; ++i)
                tmp.push_back(o->slot >= 0 ? f.regs[o->slot + i] : o->cv[i]);
        }
        size_t k = 0;
        for (auto &p : B.phis)
            for (unsigned i = 0; i < p.n; ++i) f.regs[p.dst + i] = tmp[k++];
    }
    f.bb = bb;
    f.pc = 0;
}
void Exec::pushFrame(State &s, Fn *fn, const std::vector<Val> &args)
{
    if (s.fr.size() > opt.maxDepth)
    {
        incomplete["recursion deeper than the bound"]++;
        throw PathEnd{3};
    }
    s.fr.emplace_back();
    Frame &f = s.fr.back();
    f.fn     = fn;
    f.regs.resize(fn->nslots);
    size_t k = 0;
    for (auto &a : fn->args)
        for (unsigned i = 0; i < a.second; ++i)
            if (k < args.size()) f.regs[a.first + i] = args[k++];
    fn->blocks[0].hit = true;
}
void Exec::popFrame(State &s)
{
    for (u64 id : s.fr.back().allocas)
        if (objOf(s, id)) freeObj(s, id);
    s.fr.pop_back();
}
void Exec::advance(State &s, const DI &d)
{
    if (d.op == Instruction::Invoke) jump(s, d.bb0);
    else ++s.fr.back().pc;
}

void Exec::step(State &s)
{
    Frame &f    = s.fr.back();
    const DI &d = f.fn->blocks[f.bb].ins[f.pc];
    switch (d.op)
    {
    case Instruction::Ret:
    {
        std::vector<Val> rv;
        if (!d.ops.empty())
            for (unsigned i = 0; i < d.ops[0].n; ++i) rv.push_back(op(s, d, 0, i));
        popFrame(s);
        if (s.fr.empty()) return;
        Frame &c     = s.fr.back();
        const DI &cd = c.fn->blocks[c.bb].ins[c.pc];
        if (cd.dst >= 0)
            for (unsigned i = 0; i < cd.dstN && i < rv.size(); ++i) c.regs[cd.dst + i] = rv[i];
        advance(s, cd);
        return;
    }
    case Instruction::Br:
        if (d.bb1 < 0) { jump(s, d.bb0); return; }
        jump(s, forkVal(s, op(s, d, 0)) ? d.bb0 : d.bb1);
        return;
    case Instruction::Switch:
    {
        auto *sw     = cast<SwitchInst>(d.I);
        const Val &v = op(s, d, 0);
        E e          = v.sym() ? reduce(s, v.n) : nullptr;
        if (!e || isC(e))
        {
            u64 x = e ? (u64)e->val : v.c;
            for (auto &c : sw->cases())
                if (c.getCaseValue()->getZExtValue() == x) { jump(s, f.fn->bbi.at(c.getCaseSuccessor())); return; }
            jump(s, f.fn->bbi.at(sw->getDefaultDest()));
            return;
        }
        // group cases by destination; follow the model's destination
        std::vector<std::pair<BasicBlock *, E>> groups;
        for (auto &c : sw->cases())
        {
            E eq    = mkEq(e, mkConst(c.getCaseValue()->getZExtValue(), e->w));
            bool ok = false;
            for (auto &g : groups)
                if (g.first == c.getCaseSuccessor()) { g.second = mkBin(K::Or, g.second, eq); ok = true; break; }
            if (!ok) groups.emplace_back(c.getCaseSuccessor(), eq);
        }
        for (auto &g : groups)
            if (forkOn(s, g.second)) { jump(s, s.fr.back().fn->bbi.at(g.first)); return; }
        jump(s, s.fr.back().fn->bbi.at(sw->getDefaultDest()));
        return;
    }
    case Instruction::Unreachable: violation(s, "ub", "reached unreachable code");
    case Instruction::Alloca:
    {
        auto *ai = cast<AllocaInst>(d.I);
        u64 sz   = DL.getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
        if (ai->isArrayAllocation()) sz *= concretize(s, op(s, d, 0), 64);
        u64 id = newObj(s, sz, OStack, true);
        s.fr.back().allocas.push_back(id);
        setRes(s, d, Val((id << ASH) + ABASE));
        break;
    }
    case Instruction::Load:
    {
        Val p = op(s, d, 0);
        if (d.lv.size() == 1)
        {
            Val r = load(s, p, d.lv[0].bytes, d.lv[0].w);
            setRes(s, d, r);
        }
        else
        {
            u64 a = resolveForWrite(s, p, 1);
            for (size_t i = 0; i < d.lv.size(); ++i)
                s.fr.back().regs[d.dst + i] = loadBytes(s, a + d.lv[i].off, d.lv[i].bytes, d.lv[i].w);
        }
        break;
    }
    case Instruction::Store:
    {
        Val p = op(s, d, 1);
        u64 a = resolveForWrite(s, p, 1);
        for (size_t i = 0; i < d.lv.size(); ++i)
            storeBytes(s, a + d.lv[i].off, d.lv[i].bytes, d.lv[i].w, op(s, d, 0, i));
        break;
    }
    case Instruction::GetElementPtr:
    {
        const Val &b = op(s, d, 0);
        bool sy      = b.sym();
        u64 c        = b.c + d.gepConst;
        for (auto &g : d.gepVar) sy |= op(s, d, g.first).sym();
        if (!sy)
        {
            for (auto &g : d.gepVar)
            {
                unsigned w = d.ops[g.first].w;
                u64 x      = op(s, d, g.first).c;
                if (w < 64) x = (u64)((int64_t)(x << (64 - w)) >> (64 - w));
                c += x * g.second;
            }
            setRes(s, d, Val(c));
        }
        else
        {
            E e = mkBin(K::Add, toE(b, 64), mkConst(d.gepConst, 64));
            for (auto &g : d.gepVar)
            {
                E x = toE(op(s, d, g.first), d.ops[g.first].w);
                if (x->w < 64) x = mkSExt(x, 64);
                e = mkBin(K::Add, e, mkBin(K::Mul, x, mkConst(g.second, 64)));
            }
            // an offset that only selects among constants is control flow the compiler converted
            if (!isC(e) && switchLike(e)) e = mkConst(switchValue(s, e), 64);
            setRes(s, d, Val(e));
        }
        break;
    }
    case Instruction::ICmp:
        for (unsigned i = 0; i < d.dstN; ++i)
        {
            Val &r = f.regs[d.dst + i];
            r = icmp(cast<CmpInst>(d.I)->getPredicate(), op(s, d, 0, i), op(s, d, 1, i), d.ops[0].w);
            if (r.sym() && r.n->syms->v.size() == 1)
            {
                E e = reduce(s, r.n);
                std::unordered_map<E, E> memo;
                if (!isC(e)) e = domSimp(s, e, memo);
                r = Val(e);
            }
        }
        break;
    case Instruction::FCmp:
        setRes(s, d, fcmp(s, cast<CmpInst>(d.I)->getPredicate(), op(s, d, 0), op(s, d, 1), d.I->getOperand(0)->getType()));
        break;
    case Instruction::ZExt:
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPToSI:
    case Instruction::FPToUI:
    case Instruction::FPExt:
    case Instruction::FPTrunc:
    case Instruction::SExt:
    case Instruction::Trunc:
    case Instruction::BitCast:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::Freeze:
    {
        const unsigned w = d.w, iw = d.ops.empty() ? 0 : d.ops[0].w;
        if (d.op == Instruction::BitCast && (d.dstN != d.ops[0].n)) unsupported(s, "vector bitcast");
        for (unsigned i = 0; i < d.dstN; ++i)
        {
            const Val &v = op(s, d, 0, i);
            Val r;
            switch (d.op)
            {
            case Instruction::ZExt:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
                if (w < iw) { r = v.sym() ? Val(mkExtract(v.n, 0, w)) : Val(v.c & mask64(w)); }
                else if (v.sym() || w > 64) r = Val(mkZExtTo(toE(v, iw), w));
                else r = v;
                break;
            case Instruction::SExt:
                if (v.sym() || w > 64) r = Val(mkSExt(toE(v, iw), w));
                else r = Val((u64)((int64_t)(v.c << (64 - iw)) >> (64 - iw)) & mask64(w));
                break;
            case Instruction::Trunc:
                if (v.sym()) r = Val(mkExtract(v.n, 0, w));
                else r = Val(v.c & mask64(w));
                break;
            case Instruction::BitCast:
            case Instruction::Freeze: r = v; break;
            case Instruction::FPExt:
                if (v.sym()) unsupported(s, "symbolic fpext");
                r = Val(fromD(asD(v.c, iw), w));
                break;
            case Instruction::FPTrunc:
                if (v.sym()) unsupported(s, "symbolic fptrunc");
                r = Val(fromD(asD(v.c, iw), w));
                break;
            case Instruction::UIToFP:
            {
                if (v.sym()) unsupported(s, "symbolic uitofp");
                if (w == 32) { float q = (float)v.c; uint32_t x; memcpy(&x, &q, 4); r = Val((u64)x); }
                else r = Val(fromD((double)v.c, w));
                break;
            }
            case Instruction::SIToFP:
            {
                if (v.sym()) unsupported(s, "symbolic sitofp");
                int64_t q = (int64_t)(v.c << (64 - iw)) >> (64 - iw);
                if (w == 32) { float z = (float)q; uint32_t x; memcpy(&x, &z, 4); r = Val((u64)x); }
                else r = Val(fromD((double)q, w));
                break;
            }
            case Instruction::FPToSI:
                if (v.sym()) unsupported(s, "symbolic fptosi");
                r = Val((u64)(int64_t)asD(v.c, iw) & mask64(w));
                break;
            case Instruction::FPToUI:
                if (v.sym()) unsupported(s, "symbolic fptoui");
                r = Val((u64)asD(v.c, iw) & mask64(w));
                break;
            }
            s.fr.back().regs[d.dst + i] = r;
        }
        break;
    }
    case Instruction::Select:
    {
        const Val &c = op(s, d, 0);
        E ce         = c.sym() ? reduce(s, c.n) : nullptr;
        if (d.ops[0].n > 1) unsupported(s, "vector select");
        for (unsigned i = 0; i < d.dstN; ++i)
        {
            const Val &a = op(s, d, 1, i), &b = op(s, d, 2, i);
            if (!ce) f.regs[d.dst + i] = (c.c & 1) ? a : b;
            else if (isC(ce)) f.regs[d.dst + i] = ce->val ? a : b;
            else
            {
                unsigned w        = leavesOf(d.I->getType())[i].w;
                f.regs[d.dst + i] = Val(mkIte(ce, toE(a, w), toE(b, w)));
            }
        }
        break;
    }
    case Instruction::ExtractValue:
        for (unsigned i = 0; i < d.dstN; ++i) f.regs[d.dst + i] = op(s, d, 0, d.gepConst + i);
        break;
    case Instruction::InsertValue:
    {
        std::vector<Val> t;
        for (unsigned i = 0; i < d.dstN; ++i) t.push_back(op(s, d, 0, i));
        for (unsigned i = 0; i < d.ops[1].n; ++i) t[d.gepConst + i] = op(s, d, 1, i);
        for (unsigned i = 0; i < d.dstN; ++i) f.regs[d.dst + i] = t[i];
        break;
    }
    case Instruction::ExtractElement:
        f.regs[d.dst] = op(s, d, 0, concretize(s, op(s, d, 1), 64));
        break;
    case Instruction::InsertElement:
    {
        u64 k = concretize(s, op(s, d, 2), 64);
        std::vector<Val> t;
        for (unsigned i = 0; i < d.dstN; ++i) t.push_back(op(s, d, 0, i));
        t[k] = op(s, d, 1);
        for (unsigned i = 0; i < d.dstN; ++i) f.regs[d.dst + i] = t[i];
        break;
    }
    case Instruction::ShuffleVector:
    {
        auto *sv = cast<ShuffleVectorInst>(d.I);
        std::vector<Val> t;
        unsigned n = d.ops[0].n;
        for (int m : sv->getShuffleMask())
            t.push_back(m < 0 ? Val((u64)0) : (unsigned)m < n ? op(s, d, 0, m) : op(s, d, 1, m - n));
        for (unsigned i = 0; i < d.dstN; ++i) f.regs[d.dst + i] = t[i];
        break;
    }
    case Instruction::FNeg:
    {
        const Val &a = op(s, d, 0);
        u64 sb       = (u64)1 << (d.w - 1);
        setRes(s, d, a.sym() ? Val(mkBin(K::Xor, a.n, mkConst(sb, d.w))) : Val(a.c ^ sb));
        break;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    {
        const Val &a = op(s, d, 0), &b = op(s, d, 1);
        if (a.sym() || b.sym() || d.w > 64) unsupported(s, "symbolic floating-point arithmetic");
        double x = asD(a.c, d.w), y = asD(b.c, d.w), r = 0;
        if (d.op == Instruction::FAdd) r = x + y;
        if (d.op == Instruction::FSub) r = x - y;
        if (d.op == Instruction::FMul) r = x * y;
        if (d.op == Instruction::FDiv) r = x / y;
        setRes(s, d, Val(fromD(r, d.w)));
        break;
    }
    case Instruction::AtomicRMW:
    {
        auto *ar = cast<AtomicRMWInst>(d.I);
        u64 a    = resolveForWrite(s, op(s, d, 0), 1);
        Val v    = op(s, d, 1);
        Val old  = loadBytes(s, a, d.w / 8, d.w), nv;
        switch (ar->getOperation())
        {
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, d.w, d); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, d.w, d); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: unsupported(s, "atomicrmw");
        }
        storeBytes(s, a, d.w / 8, d.w, nv);
        setRes(s, d, old);
        break;
    }
    case Instruction::Fence: break;
    case Instruction::LandingPad:
        f.regs[d.dst]     = Val(s.curExc);
        f.regs[d.dst + 1] = Val(s.curSel);
        break;
    case Instruction::Resume:
    {
        u64 e = concretize(s, op(s, d, 0, 0), 64);
        popFrame(s);
        throwCxx(s, e);
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
        doCall(s, d);
        return;
    default:
        if (d.I->isBinaryOp())
        {
            for (unsigned i = 0; i < d.dstN; ++i)
            {
                Val r = binop(s, d.op, op(s, d, 0, i), op(s, d, 1, i), d.w, d);
                s.fr.back().regs[d.dst + i] = r;
            }
            break;
        }
        unsupported(s, std::string("instruction ") + d.I->getOpcodeName());
    }
    ++s.fr.back().pc;
}

bool Exec::doCall(State &s, const DI &d)
{
    auto *cb = cast<CallBase>(d.I);
    std::vector<Val> args;
    for (unsigned i = 0; i < cb->arg_size(); ++i)
        for (unsigned k = 0; k < d.ops[i].n; ++k) args.push_back(op(s, d, i, k));
    Function *F = d.callee;
    if (!F)
    {
        if (isa<InlineAsm>(cb->getCalledOperand())) unsupported(s, "inline asm");
        unsigned ci = cb->arg_size();
        // called operand is the last operand
        ci       = d.ops.size() - 1;
        Val p    = op(s, d, ci);
        u64 a    = p.sym() ? concretize(s, Val(splitPtr(s, reduce(s, p.n))), 64) : p.c;
        auto it  = addrFns.find(a);
        if (it == addrFns.end())
        {
            if (a == 0) violation(s, "memory", "call through a null function pointer");
            unsupported(s, "call to unknown address");
        }
        F = it->second;
    }
    if (F->isIntrinsic())
    {
        if (intrinsic(s, d, args, F->getIntrinsicID())) advance(s, d);
        return true;
    }
    const Builtin *b = d.callee ? (const Builtin *)d.isBuiltin : findBuiltin(F);
    if (b)
    {
        Val ret;
        try
        {
            if (b->f(*this, s, d, args, ret))
            {
                setRes(s, d, ret);
                advance(s, d);
            }
        }
        catch (CxxThrow &t)
        {
            throwCxx(s, t.obj);
        }
        return true;
    }
    if (F->isDeclaration()) unsupported(s, "external function " + F->getName().str());
    // byval arguments
    for (unsigned i = 0, k = 0; i < cb->arg_size(); ++i)
    {
        if (cb->isByValArgument(i))
        {
            u64 sz = DL.getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
            u64 id = newObj(s, sz, OStack, true);
            memCopy(s, (id << ASH) + ABASE, concretize(s, args[k], 64), sz);
            s.fr.back().allocas.push_back(id);
            args[k] = Val((id << ASH) + ABASE);
        }
        k += d.ops[i].n;
    }
    Fn *fn = getFn(F);
    ++fn->calls;
    pushFrame(s, fn, args);
    return true;
}

void Exec::runPath(State *sp)
{
    std::unique_ptr<State> s(sp);
    u64 start = instrs;
    try
    {
        while (!s->fr.empty())
        {
            if (++s->icount > opt.maxInstr) violation(*s, "nontermination", "more than " + std::to_string(opt.maxInstr) + " instructions on one path");
            if ((++instrs & 0xfff) == 0 && timeUp())
            {
                incomplete["time limit"]++;
                throw PathEnd{3};
            }
            step(*s);
        }
        finish(*s);
    }
    catch (PathEnd &e)
    {
        if (e.why == 1) ++killed;
        if (e.why == 0) finish(*s);
    }
    (void)start;
}
