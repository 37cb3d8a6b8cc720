// symx: hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <deque>
#include <string>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

enum class K : uint8_t
{
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat
};

// interned, sorted set of symbol ids
struct SymSet
{
    std::vector<uint32_t> v;
    bool has_uninit = false;
};

struct Dom; // truth table of a single-symbol predicate

struct Node
{
    K k;
    uint16_t w;
    uint32_t lo; // Extract: low bit; Sym: symbol id
    uint32_t id;
    u128 val; // Const
    const Node *a, *b, *c;
    const SymSet *syms;
    u64 umin, umax; // unsigned interval, only for w <= 64
    mutable u64 stamp = 0;
    mutable u128 ev   = 0;
    mutable void *zv = nullptr;       // Z3 bit-vector
    mutable void *zb = nullptr;       // Z3 bool (w == 1)
    mutable const Dom *dom = nullptr; // w == 1 and exactly one symbol
};
typedef const Node *E;

inline u128 maskw(unsigned w)
{
    return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline u64 mask64(unsigned w)
{
    return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1);
}
inline i128 sxt(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128)v;
    const u128 m = (u128)1 << (w - 1);
    return (i128)((v ^ m) - m);
}

struct Dom
{
    u64 bits[4];
    bool none() const { return !(bits[0] | bits[1] | bits[2] | bits[3]); }
    bool get(unsigned i) const { return bits[i >> 6] >> (i & 63) & 1; }
};

extern std::vector<bool> g_sym_uninit; // by symbol id

E mkConst(u128 v, unsigned w);
E mkSym(bool uninit);
unsigned numSyms();
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a); // w == 1
E mkNeg(E a);
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isC(E e) { return e->k == K::Const; }
inline E mkZExtTo(E a, unsigned w) { return a->w == w ? a : mkZExt(a, w); }
std::string showE(E e, int depth = 6);

// evaluation under an assignment of symbols
typedef std::vector<uint8_t> Model;
struct Evaluator
{
    static u64 counter;
    const Model &m;
    u64 st;
    explicit Evaluator(const Model &mm) : m(mm), st(++counter) {}
    u128 operator()(E e);
};
const Dom *truthTable(E e); // e->w == 1, exactly one symbol
E substitute(E e, const std::unordered_map<uint32_t, uint8_t> &bind);
size_t exprCount();
const SymSet *unionSyms(const SymSet *a, const SymSet *b);
E rebuild(E e, E a, E b, E c);
E substE(E e, std::unordered_map<E, E> &memo, const std::unordered_map<uint32_t, uint8_t> &bind);
E evalPartial(E e);
u128 evalBin(K k, u128 a, u128 b, unsigned w);
