// SxPass: LLVM 18 pass that makes every function of the real code carry, next to each value, the SMT term of that
// value ("shadow": a 32-bit handle of a node in the runtime's expression DAG; 0 = concrete). See DESIGN.md, "Engine".
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/ErrorHandling.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"

using namespace llvm;

namespace {

constexpr uint64_t PREFIX_MAGIC = 0x53584d4147494331ull; // "SXMAGIC1"

// libc functions that get a symbolic model in the runtime
const char* wrapped[] = { "memcmp", "bcmp", "memchr", "strlen", "strcmp", "strncmp", "strchr", "memcpy", "memmove", "memset",
    "isalnum", "isalpha", "isdigit", "isspace", "isxdigit", "isupper", "islower", "ispunct", "isprint", "isgraph", "iscntrl",
    "toupper", "tolower", "strtol", "strtoul", "strtoll", "strtoull", "__isoc23_strtol", "__isoc23_strtoul",
    "__isoc23_strtoll", "__isoc23_strtoull", "free", "_ZdlPv", "_ZdlPvm", "wmemset", "wmemcpy", "wmemmove", "abs", "labs" };

struct Rt
{
    Module& M;
    LLVMContext& C;
    Type *i1, *i8, *i32, *i64, *ptr, *vd;
    GlobalVariable *pageFlags, *args, *byval, *tag, *ret, *retTag;
    FunctionCallee load, store, binop, cast, icmp, select, branch, sw, extract, concretize, copyArgsCheck, memcpyS, memsetS, copyByval,
        intr, gep, clearMem, ovf, retCheck;

    GlobalVariable* gv(const char* n, Type* t)
    {
        auto* g = M.getGlobalVariable(n);
        if (!g)
            g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        g->setDSOLocal(true);
        return g;
    }
    Rt(Module& M)
        : M(M)
        , C(M.getContext())
    {
        i1 = Type::getInt1Ty(C);
        i8 = Type::getInt8Ty(C);
        i32 = Type::getInt32Ty(C);
        i64 = Type::getInt64Ty(C);
        ptr = PointerType::get(C, 0);
        vd = Type::getVoidTy(C);
        pageFlags = gv("__sx_page_flags", ArrayType::get(i8, 65536));
        args = gv("__sx_args", ArrayType::get(i32, 128));
        byval = gv("__sx_byval", ArrayType::get(ptr, 128));
        tag = gv("__sx_tag", ptr);
        ret = gv("__sx_ret", ArrayType::get(i32, 16));
        retTag = gv("__sx_ret_tag", ptr);
        load = M.getOrInsertFunction("__sx_load", i32, i32, i64, i32);
        store = M.getOrInsertFunction("__sx_store", vd, i32, i64, i32, i32);
        binop = M.getOrInsertFunction("__sx_binop", i32, i32, i32, i32, i64, i32, i64);
        cast = M.getOrInsertFunction("__sx_cast", i32, i32, i32, i32, i32);
        icmp = M.getOrInsertFunction("__sx_icmp", i32, i32, i32, i32, i64, i32, i64);
        select = M.getOrInsertFunction("__sx_select", i32, i32, i32, i32, i64, i32, i64);
        branch = M.getOrInsertFunction("__sx_branch", vd, i32, i1, ptr, i32);
        sw = M.getOrInsertFunction("__sx_switch", vd, i32, i64, i32, ptr, ptr, i32, ptr);
        concretize = M.getOrInsertFunction("__sx_concretize", vd, i32, ptr);
        copyArgsCheck = M.getOrInsertFunction("__sx_precall", vd, ptr, i32, ptr);
        memcpyS = M.getOrInsertFunction("__sx_memcpy_shadow", vd, ptr, ptr, i64, i32);
        memsetS = M.getOrInsertFunction("__sx_memset_shadow", vd, ptr, i32, i64, i32);
        copyByval = M.getOrInsertFunction("__sx_copy_byval", vd, ptr, ptr, i64);
        intr = M.getOrInsertFunction("__sx_intrinsic", i32, i32, i32, i32, i64, i32, i64, i32, i64);
        ovf = M.getOrInsertFunction("__sx_ovf", i32, i32, i32, i32, i64, i32, i64);
        gep = M.getOrInsertFunction("__sx_gep", i32, i32, i64, i32, i64, i64, i32);
        extract = M.getOrInsertFunction("__sx_vec_extract", i32, i32, i32, i32);
        clearMem = M.getOrInsertFunction("__sx_clear", vd, i64, i64);
        retCheck = M.getOrInsertFunction("__sx_ret_check", vd, ptr, i32, ptr);
    }
};

enum IntrKind
{
    K_UMIN = 1,
    K_UMAX,
    K_SMIN,
    K_SMAX,
    K_ABS,
    K_CTLZ,
    K_CTTZ,
    K_CTPOP,
    K_BSWAP,
    K_FSHL,
    K_FSHR,
    K_USUBSAT,
    K_UADDSAT,
};

struct FnInst
{
    Function& F;
    Rt& R;
    const DataLayout& DL;
    DenseMap<Value*, Value*> sh;
    std::vector<std::pair<PHINode*, PHINode*>> phis;
    MDNode* unlikely;
    Value* fnName = nullptr;

    FnInst(Function& F, Rt& R)
        : F(F)
        , R(R)
        , DL(F.getParent()->getDataLayout())
    {
        unlikely = MDBuilder(R.C).createBranchWeights(1, 100000);
    }

    // shadow type: scalars -> i32, structs/arrays -> struct of shadows
    Type* shTy(Type* t)
    {
        if (auto* s = dyn_cast<StructType>(t))
        {
            SmallVector<Type*, 4> e;
            for (auto* x : s->elements())
                e.push_back(shTy(x));
            return StructType::get(R.C, e);
        }
        if (auto* a = dyn_cast<ArrayType>(t))
        {
            SmallVector<Type*, 4> e;
            for (uint64_t i = 0; i < a->getNumElements(); ++i)
                e.push_back(shTy(a->getElementType()));
            return StructType::get(R.C, e);
        }
        return R.i32;
    }
    bool isAgg(Type* t) { return t->isAggregateType(); }
    unsigned leaves(Type* t)
    {
        if (auto* s = dyn_cast<StructType>(t))
        {
            unsigned n = 0;
            for (auto* x : s->elements())
                n += leaves(x);
            return n;
        }
        if (auto* a = dyn_cast<ArrayType>(t))
            return a->getNumElements() * leaves(a->getElementType());
        return 1;
    }
    // flatten a shadow aggregate into leaf values
    void flatten(IRBuilder<>& B, Value* s, SmallVectorImpl<Value*>& out)
    {
        if (auto* st = dyn_cast<StructType>(s->getType()))
        {
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                flatten(B, B.CreateExtractValue(s, i), out);
        }
        else
            out.push_back(s);
    }
    Value* unflatten(IRBuilder<>& B, Type* st, SmallVectorImpl<Value*>& in, unsigned& k)
    {
        if (auto* s = dyn_cast<StructType>(st))
        {
            Value* v = Constant::getNullValue(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i)
                v = B.CreateInsertValue(v, unflatten(B, s->getElementType(i), in, k), i);
            return v;
        }
        return in[k++];
    }
    Value* S(Value* v)
    {
        if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v))
            return Constant::getNullValue(shTy(v->getType()));
        auto it = sh.find(v);
        if (it != sh.end())
            return it->second;
        return Constant::getNullValue(shTy(v->getType()));
    }
    bool nul(Value* s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }

    Value* fname()
    {
        if (!fnName)
        {
            auto* str = ConstantDataArray::getString(R.C, F.getName());
            auto* g = new GlobalVariable(
                *F.getParent(), str->getType(), true, GlobalValue::PrivateLinkage, str, "__sx_fn");
            g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
            fnName = g;
        }
        return fnName;
    }
    unsigned bits(Type* t) { return t->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(t).getFixedValue(); }
    bool simple(Type* t)
    {
        return t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64);
    }
    // the concrete value as i64 (for types that are not simple: 0)
    Value* val64(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isPointerTy())
            return B.CreatePtrToInt(v, R.i64);
        if (t->isIntegerTy())
        {
            if (t->getIntegerBitWidth() > 64)
                return B.CreateTrunc(v, R.i64);
            return B.CreateZExt(v, R.i64);
        }
        if (t->isDoubleTy())
            return B.CreateBitCast(v, R.i64);
        if (t->isFloatTy())
            return B.CreateZExt(B.CreateBitCast(v, R.i32), R.i64);
        return ConstantInt::get(R.i64, 0);
    }
    Value* orNZ(IRBuilder<>& B, ArrayRef<Value*> ss)
    {
        Value* r = nullptr;
        for (auto* s : ss)
        {
            if (nul(s))
                continue;
            if (s->getType() != R.i32)
            {
                SmallVector<Value*, 8> l;
                flatten(B, s, l);
                for (auto* x : l)
                    r = r ? B.CreateOr(r, x) : x;
                continue;
            }
            r = r ? B.CreateOr(r, s) : s;
        }
        if (!r)
            return ConstantInt::getFalse(R.C);
        return B.CreateICmpNE(r, ConstantInt::get(R.i32, 0));
    }
    template<class Fn>
    Value* slow(Instruction* ip, Value* cond, Fn f)
    {
        BasicBlock* head = ip->getParent();
        Instruction* t = SplitBlockAndInsertIfThen(cond, ip, false, unlikely);
        IRBuilder<> B(t);
        Value* r = f(B);
        if (!r || r->getType()->isVoidTy())
            return nullptr;
        IRBuilder<> J(ip->getParent(), ip->getParent()->begin());
        PHINode* p = J.CreatePHI(r->getType(), 2);
        p->addIncoming(r, t->getParent());
        p->addIncoming(Constant::getNullValue(r->getType()), head);
        return p;
    }
    Constant* c32(uint64_t v) { return ConstantInt::get(R.i32, v); }
    Constant* c64(uint64_t v) { return ConstantInt::get(R.i64, v); }

    Value* pageFlag(IRBuilder<>& B, Value* addr)
    {
        Value* a = B.CreatePtrToInt(addr, R.i64);
        Value* idx = B.CreateAnd(B.CreateLShr(a, 12), 0xffff);
        Value* g = B.CreateInBoundsGEP(ArrayType::get(R.i8, 65536), R.pageFlags, { c64(0), idx });
        return B.CreateICmpNE(B.CreateLoad(R.i8, g), ConstantInt::get(R.i8, 0));
    }

    // make symbolic operands concrete (path is constrained to the present value; other values are explored separately)
    void concretizeOps(Instruction* I, ArrayRef<Value*> ops)
    {
        for (auto* o : ops)
        {
            Value* s = S(o);
            if (nul(s))
                continue;
            IRBuilder<> B(I);
            SmallVector<Value*, 8> l;
            flatten(B, s, l);
            Value* c = orNZ(B, l);
            slow(I, c, [&](IRBuilder<>& T) -> Value* {
                for (auto* x : l)
                    T.CreateCall(R.concretize, { x, fname() });
                return nullptr;
            });
        }
    }

    void run()
    {
        // give every invoke a normal destination of its own (must precede the shadow phis)
        {
            std::vector<InvokeInst*> inv;
            for (auto& I : instructions(F))
                if (auto* i = dyn_cast<InvokeInst>(&I))
                    if (!i->getNormalDest()->getSinglePredecessor())
                        inv.push_back(i);
            for (auto* i : inv)
                SplitEdge(i->getParent(), i->getNormalDest());
        }
        std::vector<Instruction*> insts;
        ReversePostOrderTraversal<Function*> rpo(&F);
        for (auto* BB : rpo)
            for (auto& I : *BB)
                insts.push_back(&I);

        // shadow phis first
        for (auto* I : insts)
            if (auto* p = dyn_cast<PHINode>(I))
            {
                IRBuilder<> B(p);
                auto* q = B.CreatePHI(shTy(p->getType()), p->getNumIncomingValues());
                sh[p] = q;
                phis.push_back({ p, q });
            }
        prologue();
        for (auto* I : insts)
            if (!isa<PHINode>(I))
                visit(I);
        for (auto& [p, q] : phis)
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                q->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
    }

    void prologue()
    {
        bool any = false;
        for (auto& A : F.args())
            if (!A.use_empty())
                any = true;
        if (!any)
            return;
        // static allocas to the front of the entry block, the prologue right behind them
        BasicBlock& E = F.getEntryBlock();
        std::vector<Instruction*> al;
        for (auto& I : E)
            if (isa<AllocaInst>(&I) && isa<ConstantInt>(cast<AllocaInst>(&I)->getArraySize()))
                al.push_back(&I);
        Instruction* ip = nullptr;
        for (auto& I : E)
            if (std::find(al.begin(), al.end(), &I) == al.end())
            {
                ip = &I;
                break;
            }
        for (auto* a : al)
            a->moveBefore(ip);
        IRBuilder<> B(ip);
        Value* t = B.CreateLoad(R.ptr, R.tag);
        Value* c = B.CreateICmpEQ(t, &F);
        BasicBlock* head = ip->getParent();
        Instruction* then = SplitBlockAndInsertIfThen(c, ip, false, unlikely);
        IRBuilder<> T(then);
        IRBuilder<> J(ip->getParent(), ip->getParent()->begin());
        unsigned k = 0;
        T.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.ptr)), R.tag);
        for (auto& A : F.args())
        {
            unsigned n = leaves(A.getType());
            if (k + n > 120)
                break;
            if (A.hasByValAttr())
            {
                Value* src =
                    T.CreateLoad(R.ptr, T.CreateConstInBoundsGEP2_64(R.byval->getValueType(), R.byval, 0, k));
                T.CreateCall(R.copyByval, { &A, src, c64(DL.getTypeAllocSize(A.getParamByValType())) });
            }
            else
            {
                SmallVector<Value*, 8> l;
                for (unsigned i = 0; i < n; ++i)
                    l.push_back(
                        T.CreateLoad(R.i32, T.CreateConstInBoundsGEP2_64(R.args->getValueType(), R.args, 0, k + i)));
                unsigned z = 0;
                Value* v = unflatten(T, shTy(A.getType()), l, z);
                PHINode* p = J.CreatePHI(v->getType(), 2);
                p->addIncoming(v, T.GetInsertBlock());
                p->addIncoming(Constant::getNullValue(v->getType()), head);
                sh[&A] = p;
            }
            k += n;
        }
    }

    void visit(Instruction* I)
    {
        switch (I->getOpcode())
        {
            case Instruction::Add:
            case Instruction::Sub:
            case Instruction::Mul:
            case Instruction::UDiv:
            case Instruction::SDiv:
            case Instruction::URem:
            case Instruction::SRem:
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
            case Instruction::And:
            case Instruction::Or:
            case Instruction::Xor: {
                Value *a = I->getOperand(0), *b = I->getOperand(1);
                Value *sa = S(a), *sb = S(b);
                if (nul(sa) && nul(sb))
                    return;
                if (!simple(I->getType()))
                {
                    concretizeOps(I, { a, b });
                    return;
                }
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                Value* c = orNZ(B, { sa, sb });
                sh[I] = slow(ip, c, [&](IRBuilder<>& T) {
                    return T.CreateCall(
                        R.binop, { c32(I->getOpcode()), c32(bits(I->getType())), sa, val64(T, a), sb, val64(T, b) });
                });
                return;
            }
            case Instruction::ICmp: {
                auto* ci = cast<ICmpInst>(I);
                Value *a = I->getOperand(0), *b = I->getOperand(1);
                Value *sa = S(a), *sb = S(b);
                if (nul(sa) && nul(sb))
                    return;
                if (!simple(a->getType()))
                {
                    concretizeOps(I, { a, b });
                    return;
                }
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                Value* c = orNZ(B, { sa, sb });
                sh[I] = slow(ip, c, [&](IRBuilder<>& T) {
                    return T.CreateCall(
                        R.icmp, { c32(ci->getPredicate()), c32(bits(a->getType())), sa, val64(T, a), sb, val64(T, b) });
                });
                return;
            }
            case Instruction::Trunc:
            case Instruction::ZExt:
            case Instruction::SExt:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::Freeze: {
                Value* a = I->getOperand(0);
                Value* sa = S(a);
                if (nul(sa))
                    return;
                if (isAgg(a->getType()))
                {
                    sh[I] = sa;
                    return;
                }
                unsigned fb = bits(a->getType()), tb = bits(I->getType());
                if (a->getType()->isVectorTy() || I->getType()->isVectorTy())
                {
                    if (fb == tb && (I->getOpcode() == Instruction::BitCast || I->getOpcode() == Instruction::Freeze))
                        sh[I] = sa;
                    else
                        concretizeOps(I, { a });
                    return;
                }
                if (fb == tb)
                {
                    sh[I] = sa;
                    return;
                }
                if (tb > 64 || (fb > 64 && I->getOpcode() != Instruction::Trunc))
                {
                    concretizeOps(I, { a });
                    return;
                }
                bool sx = I->getOpcode() == Instruction::SExt;
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                sh[I] = slow(ip, orNZ(B, { sa }), [&](IRBuilder<>& T) {
                    return T.CreateCall(R.cast, { sa, c32(fb), c32(tb), c32(sx) });
                });
                return;
            }
            case Instruction::Select: {
                auto* s = cast<SelectInst>(I);
                Value *c = s->getCondition(), *a = s->getTrueValue(), *b = s->getFalseValue();
                Value *sc = S(c), *sa = S(a), *sb = S(b);
                if (nul(sc) && nul(sa) && nul(sb))
                    return;
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                if (c->getType()->isVectorTy())
                {
                    concretizeOps(I, { c, a, b });
                    return;
                }
                if (!simple(I->getType()))
                {
                    concretizeOps(I, { c });
                    ip = I->getNextNode();
                    IRBuilder<> B2(ip);
                    sh[I] = B2.CreateSelect(c, sa, sb);
                    return;
                }
                Value* base = (nul(sa) && nul(sb)) ? (Value*)c32(0) : B.CreateSelect(c, sa, sb);
                if (nul(sc))
                {
                    sh[I] = base;
                    return;
                }
                Value* sl = slow(ip, orNZ(B, { sc }), [&](IRBuilder<>& T) {
                    Value* r = T.CreateCall(
                        R.select, { sc, c32(bits(I->getType())), sa, val64(T, a), sb, val64(T, b) });
                    return r;
                });
                // where cond is concrete use base: patch the phi's other incoming
                cast<PHINode>(sl)->setIncomingValue(1, base);
                sh[I] = sl;
                return;
            }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(I);
                if (I->getType()->isVectorTy())
                    return;
                SmallVector<Value*, 4> ss;
                bool any = false;
                for (auto& o : g->operands())
                {
                    if (o->getType()->isVectorTy())
                        return;
                    Value* s = S(o);
                    if (!nul(s))
                        any = true;
                    ss.push_back(s);
                }
                if (!any)
                    return;
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                Value* c = orNZ(B, ss);
                sh[I] = slow(ip, c, [&](IRBuilder<>& T) -> Value* {
                    Value* curS = S(g->getPointerOperand());
                    Value* cur = T.CreatePtrToInt(g->getPointerOperand(), R.i64);
                    gep_type_iterator gti = gep_type_begin(g);
                    for (unsigned i = 1; i < g->getNumOperands(); ++i, ++gti)
                    {
                        Value* idx = g->getOperand(i);
                        if (auto* st = gti.getStructTypeOrNull())
                        {
                            uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            if (off)
                            {
                                curS = T.CreateCall(R.gep, { curS, cur, c32(0), c64(off), c64(1), c32(64) });
                                cur = T.CreateAdd(cur, c64(off));
                            }
                        }
                        else
                        {
                            uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
                            unsigned ib = idx->getType()->getIntegerBitWidth();
                            Value* iv = T.CreateSExtOrTrunc(idx, R.i64);
                            curS = T.CreateCall(R.gep, { curS, cur, S(idx), iv, c64(sz), c32(ib) });
                            cur = T.CreateAdd(cur, T.CreateMul(iv, c64(sz)));
                        }
                    }
                    return curS;
                });
                return;
            }
            case Instruction::Load: {
                auto* l = cast<LoadInst>(I);
                Type* t = l->getType();
                Value* p = l->getPointerOperand();
                Value* sp = S(p);
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                uint64_t sz = DL.getTypeStoreSize(t);
                bool odd = isAgg(t) || (!t->isPointerTy() && DL.getTypeSizeInBits(t).getFixedValue() != sz * 8) || sz > 64;
                Value* c = pageFlag(B, p);
                if (!nul(sp))
                    c = B.CreateOr(c, B.CreateICmpNE(sp, c32(0)));
                if (odd)
                {
                    slow(ip, c, [&](IRBuilder<>& T) -> Value* {
                        T.CreateCall(R.concretize, { sp, fname() });
                        T.CreateCall(R.clearMem, { T.CreatePtrToInt(p, R.i64), c64(sz) });
                        return nullptr;
                    });
                    return;
                }
                sh[I] = slow(ip, c, [&](IRBuilder<>& T) {
                    return T.CreateCall(R.load, { sp, T.CreatePtrToInt(p, R.i64), c32(sz) });
                });
                return;
            }
            case Instruction::Store: {
                auto* s = cast<StoreInst>(I);
                Value *v = s->getValueOperand(), *p = s->getPointerOperand();
                Type* t = v->getType();
                Value *sv = S(v), *sp = S(p);
                uint64_t sz = DL.getTypeStoreSize(t);
                bool odd = isAgg(t) || (!t->isPointerTy() && DL.getTypeSizeInBits(t).getFixedValue() != sz * 8) || sz > 64;
                if (odd && !nul(sv))
                {
                    concretizeOps(I, { v });
                    sv = c32(0);
                }
                else if (odd)
                    sv = c32(0);
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                Value* c = pageFlag(B, p);
                Value* o = orNZ(B, { sv, sp });
                if (!isa<Constant>(o))
                    c = B.CreateOr(c, o);
                slow(ip, c, [&](IRBuilder<>& T) -> Value* {
                    T.CreateCall(R.store, { sp, T.CreatePtrToInt(p, R.i64), c32(sz), sv });
                    return nullptr;
                });
                return;
            }
            case Instruction::ExtractValue: {
                auto* e = cast<ExtractValueInst>(I);
                Value* s = S(e->getAggregateOperand());
                if (nul(s))
                    return;
                IRBuilder<> B(I->getNextNode());
                sh[I] = B.CreateExtractValue(s, e->getIndices());
                return;
            }
            case Instruction::InsertValue: {
                auto* e = cast<InsertValueInst>(I);
                Value *s = S(e->getAggregateOperand()), *v = S(e->getInsertedValueOperand());
                if (nul(s) && nul(v))
                    return;
                IRBuilder<> B(I->getNextNode());
                sh[I] = B.CreateInsertValue(s, v, e->getIndices());
                return;
            }
            case Instruction::ExtractElement: {
                Value* s = S(I->getOperand(0));
                if (nul(s) && nul(S(I->getOperand(1))))
                    return;
                auto* ci = dyn_cast<ConstantInt>(I->getOperand(1));
                if (!ci || !simple(I->getType()) || bits(I->getType()) % 8)
                {
                    concretizeOps(I, { I->getOperand(0), I->getOperand(1) });
                    return;
                }
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                unsigned w = bits(I->getType());
                sh[I] = slow(ip, orNZ(B, { s }), [&](IRBuilder<>& T) {
                    return T.CreateCall(R.extract, { s, c32(ci->getZExtValue() * w), c32(w) });
                });
                return;
            }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(I);
                if (!b->isConditional())
                    return;
                Value* s = S(b->getCondition());
                if (nul(s))
                    return;
                IRBuilder<> B(I);
                Value* cnd = b->getCondition();
                slow(I, orNZ(B, { s }), [&](IRBuilder<>& T) -> Value* {
                    T.CreateCall(R.branch, { s, cnd, fname(), c32(0) });
                    return nullptr;
                });
                return;
            }
            case Instruction::Switch: {
                auto* s = cast<SwitchInst>(I);
                Value* sc = S(s->getCondition());
                if (nul(sc))
                    return;
                if (!simple(s->getCondition()->getType()))
                {
                    concretizeOps(I, { s->getCondition() });
                    return;
                }
                std::vector<uint64_t> vals;
                std::vector<uint32_t> succ;
                DenseMap<BasicBlock*, uint32_t> ids;
                ids[s->getDefaultDest()] = 0;
                // blocks with phis merge values per edge: still the same successor block, but values differ ->
                // treat every case as its own successor when the target block has phis
                uint32_t next = 1;
                for (auto& c : s->cases())
                {
                    vals.push_back(c.getCaseValue()->getValue().getZExtValue());
                    auto* d = c.getCaseSuccessor();
                    if (!isa<PHINode>(d->front()))
                    {
                        auto it = ids.find(d);
                        if (it == ids.end())
                            it = ids.insert({ d, next++ }).first;
                        succ.push_back(it->second);
                    }
                    else
                    {
                        auto it = ids.find(d);
                        if (it == ids.end())
                            it = ids.insert({ d, next++ }).first;
                        succ.push_back(it->second);
                    }
                }
                auto* va = ConstantDataArray::get(R.C, vals);
                auto* sa = ConstantDataArray::get(R.C, succ);
                auto mk = [&](Constant* c) {
                    auto* g = new GlobalVariable(
                        *F.getParent(), c->getType(), true, GlobalValue::PrivateLinkage, c, "__sx_sw");
                    return g;
                };
                auto *vg = mk(va), *sg = mk(sa);
                IRBuilder<> B(I);
                Value* cv = s->getCondition();
                slow(I, orNZ(B, { sc }), [&](IRBuilder<>& T) -> Value* {
                    T.CreateCall(
                        R.sw, { sc, val64(T, cv), c32(bits(cv->getType())), vg, sg, c32(vals.size()), fname() });
                    return nullptr;
                });
                return;
            }
            case Instruction::Ret: {
                auto* r = cast<ReturnInst>(I);
                Value* v = r->getReturnValue();
                if (!v)
                    return;
                // keep musttail call + ret adjacent
                if (auto* pc = r->getParent()->getTerminatingMustTailCall())
                    return;
                Value* s = S(v);
                IRBuilder<> B(I);
                auto* np = ConstantPointerNull::get(cast<PointerType>(R.ptr));
                if (nul(s))
                {
                    B.CreateStore(np, R.retTag);
                    return;
                }
                SmallVector<Value*, 8> l;
                flatten(B, s, l);
                Value* c = orNZ(B, l);
                if (l.size() > 16)
                {
                    B.CreateStore(np, R.retTag);
                    return;
                }
                B.CreateStore(B.CreateSelect(c, &F, np), R.retTag);
                for (unsigned i = 0; i < l.size(); ++i)
                    B.CreateStore(l[i], B.CreateConstInBoundsGEP2_64(R.ret->getValueType(), R.ret, 0, i));
                // a caller outside the instrumented code (a library calling back) sees only the concrete value
                slow(I, c, [&](IRBuilder<>& T) -> Value* {
                    Value* ra = T.CreateIntrinsic(Intrinsic::returnaddress, {}, { c32(0) });
                    T.CreateCall(R.retCheck, { ra, c32(l.size()), fname() });
                    return nullptr;
                });
                return;
            }
            case Instruction::Call:
            case Instruction::Invoke:
                visitCall(cast<CallBase>(I));
                return;
            case Instruction::AtomicRMW:
            case Instruction::AtomicCmpXchg: {
                SmallVector<Value*, 4> ops(I->operands());
                concretizeOps(I, ops);
                Value* p = I->getOperand(0);
                Type* t = I->getOpcode() == Instruction::AtomicRMW ? I->getType()
                                                                   : cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType();
                uint64_t sz = DL.getTypeStoreSize(t);
                IRBuilder<> B(I);
                slow(I, pageFlag(B, p), [&](IRBuilder<>& T) -> Value* {
                    T.CreateCall(R.clearMem, { T.CreatePtrToInt(p, R.i64), c64(sz) });
                    return nullptr;
                });
                return;
            }
            case Instruction::Alloca:
            case Instruction::Unreachable:
            case Instruction::Resume:
            case Instruction::LandingPad:
            case Instruction::Fence:
                return;
            default: {
                // floating point, vectors, fcmp, ...: concretize symbolic operands
                SmallVector<Value*, 4> ops;
                for (auto& o : I->operands())
                    if (!isa<BasicBlock>(o))
                        ops.push_back(o);
                concretizeOps(I, ops);
                return;
            }
        }
    }

    void visitIntrinsic(IntrinsicInst* I)
    {
        auto kind2 = [&](IntrKind k, unsigned n) {
            Value* s[3] = { c32(0), c32(0), c32(0) };
            bool any = false;
            for (unsigned i = 0; i < n; ++i)
            {
                s[i] = S(I->getArgOperand(i));
                any |= !nul(s[i]);
            }
            if (!any)
                return;
            if (!simple(I->getType()))
            {
                SmallVector<Value*, 4> ops(I->args());
                concretizeOps(I, ops);
                return;
            }
            Instruction* ip = I->getNextNode();
            IRBuilder<> B(ip);
            Value* c = orNZ(B, { s[0], s[1], s[2] });
            sh[I] = slow(ip, c, [&](IRBuilder<>& T) {
                Value* v[3] = { c64(0), c64(0), c64(0) };
                for (unsigned i = 0; i < n; ++i)
                    v[i] = val64(T, I->getArgOperand(i));
                return T.CreateCall(R.intr, { c32(k), c32(bits(I->getType())), s[0], v[0], s[1], v[1], s[2], v[2] });
            });
        };
        switch (I->getIntrinsicID())
        {
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: {
                concretizeOps(I, { I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2) });
                IRBuilder<> B(I->getNextNode());
                // shadow copy with memmove semantics
                B.CreateCall(R.memcpyS,
                    { I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), R.i64), c32(0) });
                return;
            }
            case Intrinsic::memset:
            case Intrinsic::memset_inline: {
                concretizeOps(I, { I->getArgOperand(0), I->getArgOperand(2) });
                IRBuilder<> B(I->getNextNode());
                B.CreateCall(R.memsetS,
                    { I->getArgOperand(0), S(I->getArgOperand(1)), B.CreateZExtOrTrunc(I->getArgOperand(2), R.i64), c32(0) });
                return;
            }
            case Intrinsic::umin:
                return kind2(K_UMIN, 2);
            case Intrinsic::umax:
                return kind2(K_UMAX, 2);
            case Intrinsic::smin:
                return kind2(K_SMIN, 2);
            case Intrinsic::smax:
                return kind2(K_SMAX, 2);
            case Intrinsic::abs:
                return kind2(K_ABS, 1);
            case Intrinsic::ctlz:
                return kind2(K_CTLZ, 1);
            case Intrinsic::cttz:
                return kind2(K_CTTZ, 1);
            case Intrinsic::ctpop:
                return kind2(K_CTPOP, 1);
            case Intrinsic::bswap:
                return kind2(K_BSWAP, 1);
            case Intrinsic::fshl:
                return kind2(K_FSHL, 3);
            case Intrinsic::fshr:
                return kind2(K_FSHR, 3);
            case Intrinsic::usub_sat:
                return kind2(K_USUBSAT, 2);
            case Intrinsic::uadd_sat:
                return kind2(K_UADDSAT, 2);
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::smul_with_overflow:
            case Intrinsic::umul_with_overflow: {
                Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
                Value *sa = S(a), *sb = S(b);
                if (nul(sa) && nul(sb))
                    return;
                if (!simple(a->getType()))
                {
                    concretizeOps(I, { a, b });
                    return;
                }
                unsigned op = 0, k = 0;
                switch (I->getIntrinsicID())
                {
                    case Intrinsic::sadd_with_overflow: op = Instruction::Add; k = 0; break;
                    case Intrinsic::uadd_with_overflow: op = Instruction::Add; k = 1; break;
                    case Intrinsic::ssub_with_overflow: op = Instruction::Sub; k = 2; break;
                    case Intrinsic::usub_with_overflow: op = Instruction::Sub; k = 3; break;
                    case Intrinsic::smul_with_overflow: op = Instruction::Mul; k = 4; break;
                    default: op = Instruction::Mul; k = 5; break;
                }
                Instruction* ip = I->getNextNode();
                IRBuilder<> B(ip);
                Type* st = shTy(I->getType());
                sh[I] = slow(ip, orNZ(B, { sa, sb }), [&](IRBuilder<>& T) {
                    unsigned w = bits(a->getType());
                    Value* r = T.CreateCall(R.binop, { c32(op), c32(w), sa, val64(T, a), sb, val64(T, b) });
                    Value* o = T.CreateCall(R.ovf, { c32(k), c32(w), sa, val64(T, a), sb, val64(T, b) });
                    Value* v = Constant::getNullValue(st);
                    v = T.CreateInsertValue(v, r, 0);
                    return T.CreateInsertValue(v, o, 1);
                });
                return;
            }
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::assume:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::dbg_assign:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::stacksave:
            case Intrinsic::stackrestore:
            case Intrinsic::prefetch:
            case Intrinsic::is_constant:
            case Intrinsic::objectsize:
            case Intrinsic::trap:
                return;
            case Intrinsic::expect:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::ssa_copy:
                sh[I] = S(I->getArgOperand(0));
                return;
            default: {
                SmallVector<Value*, 4> ops;
                for (auto& o : I->args())
                    ops.push_back(o);
                concretizeOps(I, ops);
                return;
            }
        }
    }

    void visitCall(CallBase* I)
    {
        if (auto* ii = dyn_cast<IntrinsicInst>(I))
        {
            visitIntrinsic(ii);
            return;
        }
        if (I->isInlineAsm())
        {
            SmallVector<Value*, 4> ops(I->args());
            concretizeOps(I, ops);
            return;
        }
        Function* callee = I->getCalledFunction();
        bool isRuntime = callee && callee->getName().starts_with("__sx_") && !callee->getName().starts_with("__sx_w_");
        if (isRuntime)
            for (const char* n : { "__sx_assume", "__sx_assert", "__sx_fix", "__sx_is_symbolic" })
                if (callee->getName() == n)
                    isRuntime = false;
        if (isRuntime)
            return;
        // redirect libc functions with symbolic models
        if (callee && callee->isDeclaration())
            for (auto* w : wrapped)
                if (callee->getName() == w)
                {
                    auto nf = F.getParent()->getOrInsertFunction(
                        (Twine("__sx_w_") + w).str(), callee->getFunctionType());
                    I->setCalledFunction(nf);
                    callee = dyn_cast<Function>(nf.getCallee());
                    // the models have side effects (path constraints)
                    I->setAttributes(AttributeList());
                    callee->setAttributes(AttributeList());
                    break;
                }
        Value* target = I->getCalledOperand();
        SmallVector<Value*, 8> ss; // leaf shadows
        SmallVector<std::pair<unsigned, Value*>, 2> bv;
        {
            IRBuilder<> B(I);
            for (unsigned i = 0; i < I->arg_size(); ++i)
            {
                Value* a = I->getArgOperand(i);
                if (I->isByValArgument(i))
                {
                    bv.push_back({ (unsigned)ss.size(), a });
                    ss.push_back(c32(0));
                    continue;
                }
                Value* s = S(a);
                if (isa<MetadataAsValue>(a))
                    s = c32(0);
                if (nul(s) && isAgg(a->getType()))
                {
                    for (unsigned k = 0; k < leaves(a->getType()); ++k)
                        ss.push_back(c32(0));
                }
                else
                    flatten(B, s, ss);
            }
        }
        // indirect call through a symbolic pointer
        if (!nul(S(target)))
            concretizeOps(I, { target });
        bool mustTail = isa<CallInst>(I) && cast<CallInst>(I)->isMustTailCall();
        bool any = !bv.empty();
        for (auto* s : ss)
            any |= !nul(s);
        if (ss.size() > 120)
            any = false;
        auto setArgs = [&](IRBuilder<>& T) -> Value* {
            for (unsigned i = 0; i < ss.size(); ++i)
                T.CreateStore(ss[i], T.CreateConstInBoundsGEP2_64(R.args->getValueType(), R.args, 0, i));
            for (auto& [k, a] : bv)
                T.CreateStore(a, T.CreateConstInBoundsGEP2_64(R.byval->getValueType(), R.byval, 0, k));
            T.CreateCall(R.copyArgsCheck, { target, c32(ss.size()), fname() });
            return nullptr;
        };
        if (any)
        {
            IRBuilder<> B(I);
            Value* c;
            if (!bv.empty())
                setArgs(B);
            else
                slow(I, orNZ(B, ss), setArgs);
        }
        if (mustTail || I->getType()->isVoidTy() || I->use_empty())
            return;
        unsigned n = leaves(I->getType());
        if (n > 16)
            return;
        Instruction* ip;
        if (auto* inv = dyn_cast<InvokeInst>(I))
        {
            ip = &*inv->getNormalDest()->getFirstInsertionPt();
        }
        else
            ip = I->getNextNode();
        IRBuilder<> B(ip);
        Value* c = B.CreateICmpEQ(B.CreateLoad(R.ptr, R.retTag), target);
        Type* st = shTy(I->getType());
        sh[I] = slow(ip, c, [&](IRBuilder<>& T) {
            SmallVector<Value*, 8> l;
            for (unsigned i = 0; i < n; ++i)
                l.push_back(T.CreateLoad(R.i32, T.CreateConstInBoundsGEP2_64(R.ret->getValueType(), R.ret, 0, i)));
            T.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.ptr)), R.retTag);
            unsigned z = 0;
            return unflatten(T, st, l, z);
        });
    }
};

struct SxPass : PassInfoMixin<SxPass>
{
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        Rt R(M);
        std::vector<Function*> fs;
        for (auto& F : M)
        {
            if (F.isDeclaration() || F.hasAvailableExternallyLinkage())
                continue;
            if (F.getName().starts_with("__sx_") || F.getName().starts_with("sx_native_"))
                continue;
            // static initialisation runs before any value is symbolic
            if (F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__"))
                continue;
            fs.push_back(&F);
        }
        for (auto* F : fs)
        {
            // attributes that would let the optimizer/codegen reorder or drop instrumented calls
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::WillReturn);
            F->removeFnAttr(Attribute::Speculatable);
            F->removeFnAttr(Attribute::NoSync);
            F->removeFnAttr(Attribute::NoFree);
        }
        for (auto& F : M)
            for (auto& I : instructions(F))
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (!isa<IntrinsicInst>(cb))
                        cb->removeFnAttr(Attribute::Memory);
        for (auto* F : fs)
        {
            FnInst f(*F, R);
            f.run();
            if (verifyFunction(*F, &errs()))
                report_fatal_error(Twine("SxPass: invalid IR in ") + F->getName());
            F->setPrefixData(ConstantInt::get(Type::getInt64Ty(M.getContext()), PREFIX_MAGIC));
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return { LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback(
                    [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
                PB.registerPipelineParsingCallback(
                    [](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
                        if (n == "sx")
                        {
                            MPM.addPass(SxPass());
                            return true;
                        }
                        return false;
                    });
            } };
}
