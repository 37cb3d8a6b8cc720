// symx: predecoding of LLVM IR.
#include "executor.h"
using namespace llvm;

void Exec::flatten(Type *t, u64 off, std::vector<Leaf> &out)
{
    if (auto *st = dyn_cast<StructType>(t))
    {
        auto *sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            flatten(st->getElementType(i), off + sl->getElementOffset(i).getFixedValue(), out);
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t))
    {
        u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
        for (u64 i = 0; i < at->getNumElements(); ++i)
            flatten(at->getElementType(), off + i * es, out);
        return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t))
    {
        u64 es = DL.getTypeStoreSize(vt->getElementType()).getFixedValue();
        for (unsigned i = 0; i < vt->getNumElements(); ++i)
            flatten(vt->getElementType(), off + i * es, out);
        return;
    }
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy())
        return;
    unsigned w = (unsigned)DL.getTypeSizeInBits(t).getFixedValue();
    if (w == 0 || w > 128)
    {
        fprintf(stderr, "symx: unsupported type width %u\n", w);
        exit(3);
    }
    out.push_back(Leaf{off, w, (w + 7) / 8});
}
const std::vector<Leaf> &Exec::leavesOf(Type *t)
{
    auto it = leafCache.find(t);
    if (it != leafCache.end()) return it->second;
    std::vector<Leaf> v;
    flatten(t, 0, v);
    return leafCache.emplace(t, std::move(v)).first->second;
}

u64 Exec::fnAddr(Function *F)
{
    auto it = fnAddrs.find(F);
    if (it != fnAddrs.end()) return it->second;
    u64 a = FNBASE + 16 * (fnAddrs.size() + 1);
    fnAddrs[F] = a;
    addrFns[a] = F;
    return a;
}

void Exec::constVals(Constant *c, std::vector<Val> &out)
{
    const auto &lv = leavesOf(c->getType());
    if (isa<UndefValue>(c) || c->isNullValue())
    {
        for (auto &l : lv)
            out.push_back(l.w > 64 ? Val(mkConst(0, l.w)) : Val((u64)0));
        return;
    }
    if (auto *ci = dyn_cast<ConstantInt>(c))
    {
        const APInt &v = ci->getValue();
        if (v.getBitWidth() <= 64) out.push_back(Val(v.getZExtValue()));
        else out.push_back(Val(mkConst(((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), v.getBitWidth())));
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c))
    {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) out.push_back(Val(v.getZExtValue()));
        else out.push_back(Val(mkConst(((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0), v.getBitWidth())));
        return;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c))
    {
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            constVals(ca->getOperand(i), out);
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c))
    {
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            constVals(cd->getElementAsConstant(i), out);
        return;
    }
    out.push_back(Val(constAddr(c)));
}

u64 Exec::constAddr(Constant *c)
{
    if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
    if (auto *gv = dyn_cast<GlobalVariable>(c))
    {
        auto it = globalAddr.find(gv);
        if (it != globalAddr.end()) return it->second;
        u64 a = ((u64)(2 + globalAddr.size()) << ASH) + ABASE;
        globalAddr[gv] = a;
        globalOrder.push_back(gv);
        if (globalsFrozen)
        {
            fprintf(stderr, "symx: late global\n");
            exit(3);
        }
        return a;
    }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
    if (auto *ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) break;
            return constAddr(ce->getOperand(0)) + (u64)off.getSExtValue();
        }
        case Instruction::BitCast:
        case Instruction::IntToPtr:
        case Instruction::PtrToInt: return constAddr(ce->getOperand(0));
        case Instruction::Trunc: return constAddr(ce->getOperand(0)) & mask64(DL.getTypeSizeInBits(ce->getType()));
        case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
        case Instruction::Xor: return (constAddr(ce->getOperand(0)) ^ constAddr(ce->getOperand(1))) & mask64(DL.getTypeSizeInBits(ce->getType()));
        case Instruction::And: return constAddr(ce->getOperand(0)) & constAddr(ce->getOperand(1));
        case Instruction::Or: return constAddr(ce->getOperand(0)) | constAddr(ce->getOperand(1));
        case Instruction::Mul: return constAddr(ce->getOperand(0)) * constAddr(ce->getOperand(1));
        case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", os.str().c_str());
    exit(3);
}

static unsigned aggIndex(Exec &X, Type *t, ArrayRef<unsigned> idx)
{
    unsigned n = 0;
    for (unsigned i : idx)
    {
        if (auto *st = dyn_cast<StructType>(t))
        {
            for (unsigned k = 0; k < i; ++k) n += X.leavesOf(st->getElementType(k)).size();
            t = st->getElementType(i);
        }
        else
        {
            auto *at = cast<ArrayType>(t);
            n += i * X.leavesOf(at->getElementType()).size();
            t = at->getElementType();
        }
    }
    return n;
}

Fn *Exec::getFn(Function *F)
{
    auto it = fns.find(F);
    if (it != fns.end()) return it->second.get();
    auto up = std::make_unique<Fn>();
    Fn *fn  = up.get();
    fns[F]  = std::move(up);
    fn->F   = F;
    std::unordered_map<const Value *, std::pair<int, unsigned>> slot;
    auto alloc = [&](Value *v) -> std::pair<int, unsigned>
    {
        unsigned n = leavesOf(v->getType()).size();
        auto p     = std::make_pair(fn->nslots, n);
        fn->nslots += n;
        slot[v] = p;
        return p;
    };
    for (auto &a : F->args())
        fn->args.push_back(alloc(&a));
    int bi = 0;
    for (auto &bb : *F)
    {
        fn->bbi[&bb] = bi++;
        for (auto &I : bb)
            if (!I.getType()->isVoidTy()) alloc(&I);
    }
    auto opnd = [&](Value *v)
    {
        Opnd o;
        o.v = v;
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
        const auto &lv = leavesOf(v->getType());
        o.n            = lv.size();
        o.w            = lv.empty() ? 0 : lv[0].w;
        if (auto *c = dyn_cast<Constant>(v)) constVals(c, o.cv);
        else o.slot = slot.at(v).first;
        return o;
    };
    fn->blocks.resize(bi);
    bi = 0;
    for (auto &bb : *F)
    {
        BB &B = fn->blocks[bi++];
        for (auto &I : bb)
        {
            if (auto *p = dyn_cast<PHINode>(&I))
            {
                Phi ph;
                ph.dst = slot.at(p).first;
                ph.n   = slot.at(p).second;
                for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                    ph.in.emplace_back(fn->bbi.at(p->getIncomingBlock(i)), opnd(p->getIncomingValue(i)));
                B.phis.push_back(std::move(ph));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto *ii = dyn_cast<IntrinsicInst>(&I))
            {
                switch (ii->getIntrinsicID())
                {
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::invariant_start:
                case Intrinsic::invariant_end:
                case Intrinsic::donothing:
                case Intrinsic::prefetch: continue;
                default: break;
                }
            }
            DI d;
            d.I  = &I;
            d.op = I.getOpcode();
            if (!I.getType()->isVoidTy())
            {
                auto p = slot.at(&I);
                d.dst  = p.first;
                d.dstN = p.second;
                auto &lv = leavesOf(I.getType());
                d.w      = lv.empty() ? 0 : lv[0].w;
            }
            for (auto &u : I.operands())
                d.ops.push_back(opnd(u.get()));
            if (auto *l = dyn_cast<LoadInst>(&I)) d.lv = leavesOf(l->getType());
            if (auto *st = dyn_cast<StoreInst>(&I)) d.lv = leavesOf(st->getValueOperand()->getType());
            if (auto *g = dyn_cast<GetElementPtrInst>(&I))
            {
                auto gt = gep_type_begin(g);
                for (unsigned i = 1; i < g->getNumOperands(); ++i, ++gt)
                {
                    if (auto *st = gt.getStructTypeOrNull())
                    {
                        u64 idx = cast<ConstantInt>(g->getOperand(i))->getZExtValue();
                        d.gepConst += DL.getStructLayout(st)->getElementOffset(idx).getFixedValue();
                    }
                    else
                    {
                        u64 es = DL.getTypeAllocSize(gt.getIndexedType()).getFixedValue();
                        if (auto *ci = dyn_cast<ConstantInt>(g->getOperand(i)))
                            d.gepConst += (u64)ci->getSExtValue() * es;
                        else d.gepVar.emplace_back(i, es);
                    }
                }
            }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) d.gepConst = aggIndex(*this, ev->getAggregateOperand()->getType(), ev->getIndices());
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) d.gepConst = aggIndex(*this, iv->getAggregateOperand()->getType(), iv->getIndices());
            if (auto *br = dyn_cast<BranchInst>(&I))
            {
                d.bb0 = fn->bbi.at(br->getSuccessor(0));
                if (br->isConditional()) d.bb1 = fn->bbi.at(br->getSuccessor(1));
            }
            if (auto *iv = dyn_cast<InvokeInst>(&I))
            {
                d.bb0 = fn->bbi.at(iv->getNormalDest());
                d.bb1 = fn->bbi.at(iv->getUnwindDest());
            }
            if (auto *cb = dyn_cast<CallBase>(&I))
            {
                if (Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) d.callee = cf;
                d.isBuiltin = d.callee ? findBuiltin(d.callee) : nullptr;
            }
            B.ins.push_back(std::move(d));
        }
        B.origin = &bb;
    }
    return fn;
}

// the source function an instruction belongs to
static std::string subprogName(DISubprogram *sp)
{
    auto f = sp->getFile();
    std::string file = f ? f->getFilename().str() : "";
    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
    return file + "\t" + nm + "\t" + std::to_string(sp->getLine());
}
std::string Exec::locOf(const Instruction *I)
{
    std::string r;
    DebugLoc dl = I->getDebugLoc();
    if (!dl) return "?";
    DILocation *l = dl.get();
    for (int n = 0; l && n < 12; l = l->getInlinedAt(), ++n)
    {
        std::string f = l->getFilename().str();
        auto p        = f.rfind('/');
        if (p != std::string::npos) f = f.substr(p + 1);
        if (!r.empty()) r += " < ";
        r += f + ":" + std::to_string(l->getLine());
    }
    return r;
}
void Exec::coverage(std::set<std::string> &out)
{
    for (auto &f : fns)
        for (auto &b : f.second->blocks)
        {
            if (!b.hit) continue;
            for (auto &d : b.ins)
                if (DILocation *l = d.I->getDebugLoc().get())
                    for (int n = 0; l && n < 30; l = l->getInlinedAt(), ++n)
                        if (auto *sp = l->getScope()->getSubprogram()) out.insert(subprogName(sp));
        }
}
