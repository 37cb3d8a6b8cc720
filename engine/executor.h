// symx: the executor.
#pragma once
#include "exec.h"
#include <deque>

struct PathEnd
{
    int why; // 0 completed, 1 assume, 2 violation, 3 incomplete
};
struct CxxThrow // a C++ exception starts to propagate
{
    u64 obj;
};

struct Exec;
typedef bool (*BuiltinFn)(Exec &X, State &s, const DI &d, std::vector<Val> &args, Val &ret);
struct Builtin
{
    BuiltinFn f;
};

struct Options
{
    std::map<std::string, u64> params;
    u64 maxInstr    = 3000000;
    u64 maxDepth    = 400;
    u64 allocLimit  = 65536;
    u64 symAlloc    = 64;
    double time     = 600;
    unsigned jobs   = 1;
    unsigned solverMs = 20000;
    unsigned samples = 6;
    unsigned maxViol = 4;
    bool verbose    = false;
};

struct Exec
{
    llvm::Module &M;
    const llvm::DataLayout &DL;
    Options opt;
    Solver S;
    std::deque<State *> work;
    std::unordered_map<llvm::Type *, std::vector<Leaf>> leafCache;
    std::unordered_map<const llvm::Function *, std::unique_ptr<Fn>> fns;
    std::unordered_map<const llvm::Function *, u64> fnAddrs;
    std::unordered_map<u64, llvm::Function *> addrFns;
    std::unordered_map<const llvm::GlobalVariable *, u64> globalAddr;
    std::vector<llvm::GlobalVariable *> globalOrder;
    bool globalsFrozen = false;
    std::unordered_map<std::string, Builtin> builtins;
    u64 excVtable = 0, whatFn = 0, nopFn = 0;

    // results
    std::vector<Violation> viols;
    std::set<std::string> violKeys;
    std::vector<Sample> samples;
    std::set<std::string> reached;
    std::map<std::string, u64> incomplete;
    u64 paths = 0, killed = 0, instrs = 0, forks = 0, asserts = 0;
    u64 sampleSeen = 0;
    std::vector<E> domExprMemo;

    explicit Exec(llvm::Module &m, Options o);
    // predecode
    void flatten(llvm::Type *t, u64 off, std::vector<Leaf> &out);
    const std::vector<Leaf> &leavesOf(llvm::Type *t);
    u64 fnAddr(llvm::Function *F);
    void constVals(llvm::Constant *c, std::vector<Val> &out);
    u64 constAddr(llvm::Constant *c);
    Fn *getFn(llvm::Function *F);
    std::string locOf(const llvm::Instruction *I);
    void coverage(std::set<std::string> &out);
    const Builtin *findBuiltin(llvm::Function *F);
    void registerBuiltins();

    // memory
    u64 newObj(State &s, u64 size, uint8_t kind, bool uninit);
    Obj *objOf(State &s, u64 id);
    Obj *writable(State &s, u64 id);
    void freeObj(State &s, u64 id);
    Obj *checkAcc(State &s, u64 addr, u64 n, bool write, u64 &off);
    E byteAt(State &s, Obj *o, u64 id, u64 off);
    Val loadBytes(State &s, u64 addr, unsigned bytes, unsigned w);
    void storeBytes(State &s, u64 addr, unsigned bytes, unsigned w, const Val &v);
    Val load(State &s, const Val &addr, unsigned bytes, unsigned w);
    void store(State &s, const Val &addr, unsigned bytes, unsigned w, const Val &v);
    u64 resolveForWrite(State &s, const Val &addr, u64 n);
    u64 concAddr(State &s, const Val &addr) { return concretize(s, addr, 64); }
    void memCopy(State &s, u64 dst, u64 src, u64 n);
    void memSet(State &s, u64 dst, const Val &byte, u64 n);
    std::string cstr(State &s, u64 addr);
    E splitPtr(State &s, E a);

    // constraints
    E reduce(State &s, E e);
    E dropUninit(State &s, E c);
    void addCons(State &s, E c);
    Res feasible(State &s, E c, std::vector<std::pair<uint32_t, uint8_t>> &out, bool full = false);
    bool forkOn(State &s, E c);
    bool forkVal(State &s, const Val &v) { return v.sym() ? forkOn(s, v.n) : (v.c & 1); }
    u64 switchValue(State &s, E e);
    u64 concretize(State &s, const Val &v, unsigned w);
    E symAt(unsigned seq, unsigned idx, bool uninit);
    E domExpr(uint32_t sym, const Dom &d);
    void setModel(State &s, const std::vector<std::pair<uint32_t, uint8_t>> &m);
    void bindSym(State &s, uint32_t id, uint8_t v);
    void growSyms(State &s);

    // execution
    void violation(State &s, const std::string &kind, const std::string &msg, bool end = true, bool soft = false, const Model *m = nullptr);
    [[noreturn]] void unsupported(State &s, const std::string &what);
    void finish(State &s);
    void runPath(State *s);
    void step(State &s);
    void jump(State &s, int bb);
    bool doCall(State &s, const DI &d);
    void pushFrame(State &s, Fn *fn, const std::vector<Val> &args);
    void popFrame(State &s);
    void setRes(State &s, const DI &d, const Val &v);
    void advance(State &s, const DI &d); // after a finished call
    void throwCxx(State &s, u64 excAddr);
    u64 makeStdExc(State &s, const char *tiName, const std::string &what);
    bool tiMatches(u64 thrown, u64 handler);
    std::string symName(u64 addr);
    bool intrinsic(State &s, const DI &d, std::vector<Val> &args, unsigned id);
    Val binop(State &s, unsigned op, const Val &a, const Val &b, unsigned w, const DI &d);
    Val fcmp(State &s, unsigned pred, const Val &a, const Val &b, llvm::Type *t);
    Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w);
    State *initial(llvm::Function *entry);
    const Val &op(State &s, const DI &d, unsigned i, unsigned leaf = 0)
    {
        const Opnd &o = d.ops[i];
        return o.slot >= 0 ? s.fr.back().regs[o.slot + leaf] : o.cv[leaf];
    }
    std::string inputHex(const InputRec &r, Evaluator &ev);
    double t0 = 0;
    bool timeUp();
};
double nowSec();
