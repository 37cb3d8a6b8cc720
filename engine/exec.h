// symx: executor data structures.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>

struct Val
{
    E n   = nullptr; // symbolic (or wider than 64 bits)
    u64 c = 0;
    Val() = default;
    Val(u64 x) : c(x) {}
    Val(E e)
    {
        if (e->k == K::Const && e->w <= 64) c = (u64)e->val;
        else n = e;
    }
    bool sym() const { return n != nullptr; }
};
inline E toE(const Val &v, unsigned w) { return v.n ? v.n : mkConst(v.c, w); }

struct Leaf
{
    u64 off;
    unsigned w;
    unsigned bytes;
};

struct Opnd
{
    int slot = -1;
    std::vector<Val> cv;
    llvm::Value *v = nullptr;
    unsigned n     = 0; // number of leaves
    unsigned w     = 0; // width of first leaf
};

struct DI
{
    llvm::Instruction *I;
    unsigned op;
    int dst       = -1;
    unsigned dstN = 0;
    unsigned w    = 0; // width of first result leaf
    std::vector<Opnd> ops;
    std::vector<Leaf> lv; // load: result leaves; store: value leaves
    // gep
    u64 gepConst = 0;
    std::vector<std::pair<int, u64>> gepVar; // (operand index, scale)
    // branches
    int bb0 = -1, bb1 = -1;
    llvm::Function *callee = nullptr;
    const void *isBuiltin  = nullptr;
};
struct Phi
{
    int dst;
    unsigned n;
    std::vector<std::pair<int, Opnd>> in; // pred block index
};
struct BB
{
    std::vector<Phi> phis;
    std::vector<DI> ins;
    const llvm::BasicBlock *origin = nullptr;
    bool hit = false;
};
struct Fn
{
    llvm::Function *F;
    std::vector<BB> blocks;
    std::map<const llvm::BasicBlock *, int> bbi;
    int nslots = 0;
    std::vector<std::pair<int, unsigned>> args;
    u64 icount = 0;
    u64 calls  = 0;
    bool inRepo = false;
};

static const unsigned ASH  = 36;               // address bits below the object id
static const u64 ABASE     = (u64)1 << 35;     // offset 0 of an object
static const u64 FNBASE    = ((u64)1 << ASH) + ABASE; // id 1: code

enum ObjKind : uint8_t { OGlobal, OConst, OStack, OHeap, OExc };

struct Obj
{
    u64 size;
    uint8_t kind;
    bool anySym  = false;
    bool anyUn   = false;
    uint8_t how  = 0; // heap: 0 malloc 1 new 2 new[]
    int rc       = 0;
    std::vector<uint8_t> b;
    std::vector<E> s;            // empty: no symbolic byte
    std::vector<uint8_t> uninit; // empty: all initialised
};
struct ObjRef
{
    Obj *p = nullptr;
    ObjRef() = default;
    ObjRef(Obj *o) : p(o) { if (p) ++p->rc; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) ++p->rc; }
    ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
struct Chunk
{
    int rc = 0;
    ObjRef o[64];
};
struct ChunkRef
{
    Chunk *p = nullptr;
    ChunkRef() = default;
    ChunkRef(Chunk *o) : p(o) { if (p) ++p->rc; }
    ChunkRef(const ChunkRef &o) : p(o.p) { if (p) ++p->rc; }
    ChunkRef(ChunkRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ChunkRef &operator=(ChunkRef o) { std::swap(p, o.p); return *this; }
    ~ChunkRef() { if (p && --p->rc == 0) delete p; }
};

struct Frame
{
    Fn *fn;
    int bb  = 0;
    int pc  = 0;
    std::vector<Val> regs;
    std::vector<u64> allocas; // object ids
};

struct InputRec
{
    std::string name;
    std::vector<E> bytes;
};

struct ExcObj
{
    u64 addr;
    u64 ti;  // typeinfo address
    int handlers = 0;
};

// decimal text of a symbolic number: the digits are fresh symbols
struct DigitRec
{
    E u;
    std::vector<E> bytes;
};

struct State
{
    std::vector<Frame> fr;
    std::vector<ChunkRef> mem;
    u64 nextId = 2;
    std::vector<E> cons;
    std::vector<Dom> dom;          // per symbol
    std::vector<uint8_t> entangled;
    std::unordered_map<uint32_t, uint8_t> bind;
    Model model;
    std::vector<InputRec> inputs;
    std::vector<Val> obs;
    std::vector<DigitRec> digits;
    std::vector<ExcObj> excs;   // live exception objects
    std::vector<u64> caught;    // stack of caught exception addresses
    u64 curExc   = 0;
    u64 curSel   = 0;
    unsigned nuninit  = 0;
    unsigned seq      = 0;
    u64 heapAllocs = 0;
    u64 heapLive   = 0;
    u64 icount   = 0;
    u64 depth    = 0;
    bool soft    = false;
    std::vector<const char*> trace;
};

struct Violation
{
    std::string kind, msg, loc;
    bool soft = false;
    std::vector<std::pair<std::string, std::string>> inputs; // name, hex
    std::vector<std::string> stack;
};
struct Sample
{
    std::vector<std::pair<std::string, std::string>> inputs;
    std::vector<u64> obs;
};
