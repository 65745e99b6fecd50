// LLVM 20 pass plugin: instruments every defined function of a module so that it
// computes, next to each concrete SSA value, the id of a symbolic expression over
// the harness inputs (0 = the value does not depend on any input).
//
// Protocol with the runtime (symrt.cpp):
//   rt_args[] / rt_argv[] / rt_arg_tag  shadows + values of the call arguments
//   rt_ret[]  / rt_ret_tag              shadows of the returned value's leaves
// A callee trusts the argument shadows only if rt_arg_tag is its own address, and a
// caller trusts the return shadows only if rt_ret_tag is the address it called, so
// uninstrumented code in between is safe.
#include "llvm/ADT/MapVector.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

using namespace llvm;

namespace
{
enum Op : unsigned { // must match symrt.cpp
    OpAdd = 1, OpSub, OpMul, OpUDiv, OpSDiv, OpURem, OpSRem, OpShl, OpLShr, OpAShr, OpAnd, OpOr, OpXor,
    OpEq, OpNe, OpUgt, OpUge, OpUlt, OpUle, OpSgt, OpSge, OpSlt, OpSle,
    OpTrunc, OpZExt, OpSExt,
    OpUMax, OpUMin, OpSMax, OpSMin, OpUAddSat, OpUSubSat, OpSAddSat, OpSSubSat,
    OpUAddOv, OpUSubOv, OpSAddOv, OpSSubOv, OpUMulOv, OpSMulOv,
    OpAbs, OpCtpop, OpCtlz, OpCttz, OpBswap, OpUCmp, OpSCmp
};

constexpr unsigned MaxArgs = 64;

struct Instrumenter {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I1, *I8, *I32, *I64, *VoidTy;
    PointerType *Ptr;
    Constant *Zero;
    GlobalVariable *Args, *Argv, *ArgTag, *Ret, *RetTag;
    FunctionCallee fBin, fCast, fSelect, fSelPtr, fFshl, fBranch, fSwitch, fLoad, fLoadCheck, fStore, fClear, fMemcpy, fMemset, fPreCall, fModel,
        fConc, fByval, fBytes;
    GlobalVariable *FuncName = nullptr;

    Instrumenter(Module &M)
        : M(M)
        , C(M.getContext())
        , DL(M.getDataLayout())
    {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        VoidTy = Type::getVoidTy(C);
        Ptr = PointerType::getUnqual(C);
        Zero = ConstantInt::get(I32, 0);
        auto G = [&](const char *n, Type *t) {
            return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
        };
        Args = G("rt_args", ArrayType::get(I32, MaxArgs));
        Argv = G("rt_argv", ArrayType::get(I64, MaxArgs));
        ArgTag = G("rt_arg_tag", Ptr);
        Ret = G("rt_ret", ArrayType::get(I32, MaxArgs));
        RetTag = G("rt_ret_tag", Ptr);
        auto F = [&](const char *n, Type *r, std::initializer_list<Type *> a) {
            return M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type *>(a.begin(), a.size()), false));
        };
        fBin = F("rt_bin", I32, {I32, I32, I64, I32, I64, I32});
        fCast = F("rt_cast", I32, {I32, I32, I32, I64, I32});
        fSelect = F("rt_select", I32, {I32, I32, I32, I64, I32, I64, I32});
        fSelPtr = F("rt_selptr", I32, {I32, I32, I64, I32, I64, I32, Ptr});
        fFshl = F("rt_fsh", I32, {I32, I32, I64, I32, I64, I32, I64, I32});
        fBranch = F("rt_branch", VoidTy, {I32, I32, Ptr, I32});
        fSwitch = F("rt_switch", VoidTy, {I64, I32, I32, I32, Ptr, Ptr, I32});
        fLoad = F("rt_load", I32, {Ptr, I32, I32, Ptr, I32});
        fLoadCheck = F("rt_load_check", VoidTy, {Ptr, I32, I64, Ptr, I32});
        fStore = F("rt_store", VoidTy, {Ptr, I32, I64, I32, I32, Ptr, I32});
        fClear = F("rt_clear", VoidTy, {Ptr, I64});
        fMemcpy = F("rt_memcpy", VoidTy, {Ptr, I32, Ptr, I32, I64, I32, Ptr, I32});
        fMemset = F("rt_memset", VoidTy, {Ptr, I32, I64, I32, I64, I32, Ptr, I32});
        fPreCall = F("rt_precall", VoidTy, {Ptr, I32, Ptr, Ptr, I32});
        fModel = F("rt_model", I32, {I32, I32, I64, Ptr, I32});
        fConc = F("rt_concretize", VoidTy, {I64, I32, I32, Ptr, I32});
        fByval = F("rt_byval", VoidTy, {Ptr, Ptr, I64});
    }

    static void leaves(Type *T, SmallVectorImpl<Type *> &Out)
    {
        if (auto *S = dyn_cast<StructType>(T)) {
            for (Type *E : S->elements())
                leaves(E, Out);
        } else if (auto *A = dyn_cast<ArrayType>(T)) {
            for (uint64_t i = 0; i < A->getNumElements(); ++i)
                leaves(A->getElementType(), Out);
        } else
            Out.push_back(T);
    }
    static unsigned leafCount(Type *T)
    {
        SmallVector<Type *, 4> L;
        if (T->isVoidTy())
            return 0;
        leaves(T, L);
        return L.size();
    }
    static unsigned leafOffset(Type *T, ArrayRef<unsigned> Idx, Type *&Sub)
    {
        unsigned off = 0;
        for (unsigned i : Idx) {
            if (auto *S = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; ++k)
                    off += leafCount(S->getElementType(k));
                T = S->getElementType(i);
            } else {
                auto *A = cast<ArrayType>(T);
                off += i * leafCount(A->getElementType());
                T = A->getElementType();
            }
        }
        Sub = T;
        return off;
    }
    static bool tracked(Type *T)
    {
        if (T->isPointerTy())
            return true;
        if (auto *I = dyn_cast<IntegerType>(T))
            return I->getBitWidth() <= 64;
        return false;
    }
    static unsigned width(Type *T)
    {
        return T->isPointerTy() ? 64 : cast<IntegerType>(T)->getBitWidth();
    }

    // ---- per function state
    using Shadow = SmallVector<Value *, 2>;
    MapVector<Value *, Shadow> S;

    Shadow zeros(Type *T)
    {
        return Shadow(leafCount(T), Zero);
    }
    Shadow get(Value *V)
    {
        auto it = S.find(V);
        if (it != S.end())
            return it->second;
        return zeros(V->getType());
    }
    Value *get1(Value *V)
    {
        auto s = get(V);
        assert(s.size() == 1);
        return s[0];
    }
    static bool isZero(Value *V)
    {
        auto *CI = dyn_cast<ConstantInt>(V);
        return CI && CI->isZero();
    }
    static bool allZero(const Shadow &s)
    {
        for (auto *v : s)
            if (!isZero(v))
                return false;
        return true;
    }
    Value *as64(IRBuilder<> &B, Value *V)
    {
        Type *T = V->getType();
        if (T->isPointerTy())
            return B.CreatePtrToInt(V, I64);
        if (T->isIntegerTy())
            return B.CreateZExtOrTrunc(V, I64);
        return ConstantInt::get(I64, 0);
    }
    Value *c32(unsigned v)
    {
        return ConstantInt::get(I32, v);
    }
    unsigned line(Instruction *I)
    {
        if (auto &D = I->getDebugLoc())
            return D.getLine();
        return 0;
    }
    Constant *fname(Function &F)
    {
        if (!FuncName) {
            auto *CD = ConstantDataArray::getString(C, F.getName());
            FuncName = new GlobalVariable(M, CD->getType(), true, GlobalValue::PrivateLinkage, CD, "rtfn");
        }
        return FuncName;
    }
    Value *slot(IRBuilder<> &B, GlobalVariable *G, unsigned i)
    {
        return B.CreateConstInBoundsGEP2_32(G->getValueType(), G, 0, i);
    }

    Value *bin(IRBuilder<> &B, unsigned op, unsigned w, Value *a, Value *sa, Value *b, Value *sb)
    {
        if (isZero(sa) && isZero(sb))
            return Zero;
        return B.CreateCall(fBin, {c32(op), c32(w), as64(B, a), sa, as64(B, b), sb});
    }

    static unsigned binop(unsigned o)
    {
        switch (o) {
        case Instruction::Add: return OpAdd;
        case Instruction::Sub: return OpSub;
        case Instruction::Mul: return OpMul;
        case Instruction::UDiv: return OpUDiv;
        case Instruction::SDiv: return OpSDiv;
        case Instruction::URem: return OpURem;
        case Instruction::SRem: return OpSRem;
        case Instruction::Shl: return OpShl;
        case Instruction::LShr: return OpLShr;
        case Instruction::AShr: return OpAShr;
        case Instruction::And: return OpAnd;
        case Instruction::Or: return OpOr;
        case Instruction::Xor: return OpXor;
        }
        return 0;
    }
    static unsigned pred(CmpInst::Predicate p)
    {
        switch (p) {
        case CmpInst::ICMP_EQ: return OpEq;
        case CmpInst::ICMP_NE: return OpNe;
        case CmpInst::ICMP_UGT: return OpUgt;
        case CmpInst::ICMP_UGE: return OpUge;
        case CmpInst::ICMP_ULT: return OpUlt;
        case CmpInst::ICMP_ULE: return OpUle;
        case CmpInst::ICMP_SGT: return OpSgt;
        case CmpInst::ICMP_SGE: return OpSge;
        case CmpInst::ICMP_SLT: return OpSlt;
        case CmpInst::ICMP_SLE: return OpSle;
        default: return 0;
        }
    }

    // concretize the operands of an instruction whose result is not tracked
    void concretizeOperands(IRBuilder<> &B, Instruction *I, Constant *FN)
    {
        for (Value *Op : I->operands()) {
            if (isa<BasicBlock>(Op) || isa<MetadataAsValue>(Op))
                continue;
            Shadow s = get(Op);
            if (s.size() == 1 && !isZero(s[0]) && tracked(Op->getType()))
                B.CreateCall(fConc, {as64(B, Op), s[0], c32(width(Op->getType())), FN, c32(line(I))});
        }
    }

    static int modelId(StringRef n, unsigned nargs)
    {
        // id, must match symrt.cpp
        struct E {
            const char *n;
            unsigned a;
            int id;
        };
        static const E T[] = {{"memcmp", 3, 1}, {"bcmp", 3, 1}, {"strlen", 1, 2}, {"memchr", 3, 3}, {"strcmp", 2, 4}, {"strncmp", 3, 5}, {"strchr", 2, 6},
                              {"isspace", 1, 10}, {"isdigit", 1, 11}, {"isxdigit", 1, 12}, {"isalpha", 1, 13}, {"isalnum", 1, 14}, {"isupper", 1, 15},
                              {"islower", 1, 16}, {"toupper", 1, 17}, {"tolower", 1, 18}, {"ispunct", 1, 19}, {"isprint", 1, 20},
                              {"strstr", 2, 7}, {"strcasecmp", 2, 8}, {"strncasecmp", 3, 9}};
        for (auto &e : T)
            if (n == e.n && e.a == nargs)
                return e.id;
        return 0;
    }

    void handleCall(CallBase *CB, Function &F, Constant *FN)
    {
        Value *Callee = CB->getCalledOperand();
        auto *Fn = dyn_cast<Function>(Callee->stripPointerCasts());
        IRBuilder<> B(CB);
        if (CB->isInlineAsm()) {
            concretizeOperands(B, CB, FN);
            return;
        }
        if (Fn && Fn->getName().starts_with("rt_"))
            return;
        unsigned n = CB->arg_size();
        Type *RT = CB->getType();
        int model = Fn && Fn->isDeclaration() ? modelId(Fn->getName(), n) : 0;
        bool memcpyLike = Fn && Fn->isDeclaration() && (Fn->getName() == "memcpy" || Fn->getName() == "memmove") && n == 3;
        bool memsetLike = Fn && Fn->isDeclaration() && Fn->getName() == "memset" && n == 3;
        if (memcpyLike) {
            B.CreateCall(fMemcpy,
                         {CB->getArgOperand(0), get1(CB->getArgOperand(0)), CB->getArgOperand(1), get1(CB->getArgOperand(1)), CB->getArgOperand(2),
                          get1(CB->getArgOperand(2)), FN, c32(line(CB))});
            S[CB] = {get1(CB->getArgOperand(0))};
            return;
        }
        if (memsetLike) {
            B.CreateCall(fMemset,
                         {CB->getArgOperand(0), get1(CB->getArgOperand(0)), as64(B, CB->getArgOperand(1)), get1(CB->getArgOperand(1)), CB->getArgOperand(2),
                          get1(CB->getArgOperand(2)), FN, c32(line(CB))});
            S[CB] = {get1(CB->getArgOperand(0))};
            return;
        }
        if (n > MaxArgs)
            n = MaxArgs;
        bool local = Fn && !Fn->isDeclaration() && !Fn->isInterposable();
        std::string kinds;
        unsigned k = 0; // leaf slots
        for (unsigned i = 0; i < n; ++i) {
            Value *A = CB->getArgOperand(i);
            Shadow s = get(A);
            if (A->getType()->isMetadataTy())
                return;
            for (unsigned j = 0; j < s.size() && k < MaxArgs; ++j, ++k) {
                B.CreateStore(s[j], slot(B, Args, k));
                bool byval = CB->isByValArgument(i);
                bool one = s.size() == 1 && tracked(A->getType());
                if (one)
                    B.CreateStore(as64(B, A), slot(B, Argv, k));
                kinds.push_back(!one ? 'x' : byval ? 'b' : A->getType()->isPointerTy() ? 'p' : width(A->getType()) >= 64 ? 'L' : 'i');
            }
        }
        if (model) {
            // run natively, then compute the shadow of the result
            if (model == 1) // (the magnitude of libc's result depends on the CPU; the model needs the byte difference)
                CB->setCalledFunction(M.getOrInsertFunction("rt_memcmp", CB->getFunctionType()));
            auto *Next = nextPoint(CB);
            IRBuilder<> B2(Next);
            // args may have been clobbered by nothing: libc functions are native
            Value *id = B2.CreateCall(fModel, {c32(model), c32(RT->isPointerTy() ? 64 : width(RT)), as64(B2, CB), FN, c32(line(CB))});
            S[CB] = {id};
            return;
        }
        if (!local && !kinds.empty()) {
            Constant *K = B.CreateGlobalString(kinds, "rtk", 0, &M);
            B.CreateCall(fPreCall, {Callee, c32(k), K, FN, c32(line(CB))});
        }
        B.CreateStore(Callee, ArgTag);
        unsigned rn = leafCount(RT);
        if (CB->doesNotReturn())
            return;
        auto *Next = nextPoint(CB);
        IRBuilder<> B2(Next);
        if (rn && rn <= MaxArgs) {
            Value *tag = B2.CreateLoad(Ptr, RetTag);
            Value *ok = B2.CreateICmpEQ(tag, Callee);
            Shadow r;
            for (unsigned i = 0; i < rn; ++i)
                r.push_back(B2.CreateSelect(ok, B2.CreateLoad(I32, slot(B2, Ret, i)), Zero));
            S[CB] = r;
        }
    }

    Instruction *nextPoint(CallBase *CB)
    {
        if (auto *II = dyn_cast<InvokeInst>(CB))
            return &*II->getNormalDest()->getFirstInsertionPt();
        return CB->getNextNode();
    }

    void run(Function &F)
    {
        S.clear();
        FuncName = nullptr;
        Constant *FN = fname(F);

        // split invoke normal edges so that code can be placed after the call
        SmallVector<InvokeInst *, 8> Invokes;
        for (auto &BB : F)
            if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
                Invokes.push_back(II);
        for (auto *II : Invokes)
            if (!II->getNormalDest()->getSinglePredecessor() || isa<PHINode>(II->getNormalDest()->begin()))
                SplitEdge(II->getParent(), II->getNormalDest());
        SmallVector<Instruction *, 256> Insts;
        // visit in reverse post order so that operands come before uses (except phis)
        {
            SmallVector<BasicBlock *, 32> PO;
            SmallPtrSet<BasicBlock *, 32> Seen;
            // iterative DFS
            SmallVector<std::pair<BasicBlock *, unsigned>, 32> St;
            St.push_back({&F.getEntryBlock(), 0});
            Seen.insert(&F.getEntryBlock());
            while (!St.empty()) {
                auto &[BB, i] = St.back();
                auto *T = BB->getTerminator();
                if (i < T->getNumSuccessors()) {
                    BasicBlock *N = T->getSuccessor(i++);
                    if (Seen.insert(N).second)
                        St.push_back({N, 0});
                } else {
                    PO.push_back(BB);
                    St.pop_back();
                }
            }
            for (auto *BB : llvm::reverse(PO))
                for (auto &I : *BB)
                    Insts.push_back(&I);
        }
        // musttail cannot be kept: code is inserted after the call
        for (auto *I : Insts)
            if (auto *CI = dyn_cast<CallInst>(I))
                if (!F.isVarArg())
                    CI->setTailCallKind(CallInst::TCK_None);
        if (F.isVarArg())
            for (auto *I : Insts)
                if (auto *CI = dyn_cast<CallInst>(I); CI && CI->isMustTailCall())
                    return;

        // prologue
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            // keep allocas first
            BasicBlock::iterator It = F.getEntryBlock().begin();
            while (isa<AllocaInst>(&*It))
                ++It;
            B.SetInsertPoint(&*It);
            unsigned k = 0;
            Value *ok = nullptr;
            if (F.arg_size()) {
                Value *tag = B.CreateLoad(Ptr, ArgTag);
                ok = B.CreateICmpEQ(tag, &F);
            }
            SmallVector<std::pair<Argument *, unsigned>, 2> byvals;
            for (auto &A : F.args()) {
                Shadow s;
                unsigned c = leafCount(A.getType());
                for (unsigned j = 0; j < c; ++j, ++k)
                    s.push_back(k < MaxArgs ? B.CreateSelect(ok, B.CreateLoad(I32, slot(B, Args, k)), Zero) : (Value *)Zero);
                if (A.hasByValAttr()) {
                    byvals.push_back({&A, k - 1});
                    s = {Zero};
                }
                S[&A] = s;
            }
            for (auto &[A, kk] : byvals) {
                Value *src = B.CreateIntToPtr(B.CreateLoad(I64, slot(B, Argv, kk)), Ptr);
                src = B.CreateSelect(ok, src, ConstantPointerNull::get(Ptr));
                B.CreateCall(fByval, {A, src, ConstantInt::get(I64, DL.getTypeAllocSize(A->getParamByValType()))});
            }
            B.CreateStore(ConstantPointerNull::get(Ptr), ArgTag);
            for (auto &I : F.getEntryBlock()) {
                auto *AI = dyn_cast<AllocaInst>(&I);
                if (!AI)
                    continue;
                if (auto sz = AI->getAllocationSize(DL); sz && !sz->isScalable())
                    B.CreateCall(fClear, {AI, ConstantInt::get(I64, sz->getFixedValue())});
            }
        }

        SmallVector<std::pair<PHINode *, SmallVector<PHINode *, 2>>, 32> Phis;
        for (auto *I : Insts) {
            if (auto *P = dyn_cast<PHINode>(I)) {
                SmallVector<PHINode *, 2> ps;
                Shadow s;
                IRBuilder<> B(P);
                for (unsigned j = 0; j < leafCount(P->getType()); ++j) {
                    auto *np = B.CreatePHI(I32, P->getNumIncomingValues());
                    ps.push_back(np);
                    s.push_back(np);
                }
                S[P] = s;
                Phis.push_back({P, ps});
                continue;
            }
            visit(I, F, FN);
        }
        for (auto &[P, ps] : Phis)
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                Shadow s = get(P->getIncomingValue(i));
                for (unsigned j = 0; j < ps.size(); ++j)
                    ps[j]->addIncoming(s[j], P->getIncomingBlock(i));
            }
    }

    void visit(Instruction *I, Function &F, Constant *FN)
    {
        IRBuilder<> B(I);
        Instruction *NextI = I->isTerminator() ? nullptr : I->getNextNode();
        auto after = [&]() {
            return IRBuilder<>(NextI);
        };
        Type *T = I->getType();
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
            if (!tracked(T)) {
                concretizeOperands(B, I, FN);
                return;
            }
            unsigned op = binop(BO->getOpcode());
            // before the instruction: a division must be checked before it traps
            S[I] = {bin(B, op, width(T), BO->getOperand(0), get1(BO->getOperand(0)), BO->getOperand(1), get1(BO->getOperand(1)))};
            return;
        }
        if (auto *IC = dyn_cast<ICmpInst>(I)) {
            if (!tracked(IC->getOperand(0)->getType())) {
                concretizeOperands(B, I, FN);
                return;
            }
            auto A2 = after();
            S[I] = {bin(A2, pred(IC->getPredicate()), width(IC->getOperand(0)->getType()), IC->getOperand(0), get1(IC->getOperand(0)), IC->getOperand(1),
                        get1(IC->getOperand(1)))};
            return;
        }
        if (auto *CI = dyn_cast<CastInst>(I)) {
            Value *O = CI->getOperand(0);
            if (!tracked(T) || !tracked(O->getType())) {
                concretizeOperands(B, I, FN);
                return;
            }
            Value *s = get1(O);
            if (isZero(s))
                return;
            unsigned wi = width(O->getType()), wo = width(T);
            if (wi == wo) {
                S[I] = {s};
                return;
            }
            unsigned op = isa<SExtInst>(CI) ? OpSExt : wo > wi ? OpZExt : OpTrunc;
            auto A2 = after();
            S[I] = {A2.CreateCall(fCast, {c32(op), c32(wi), c32(wo), as64(A2, O), s})};
            return;
        }
        if (auto *FI = dyn_cast<FreezeInst>(I)) {
            S[I] = get(FI->getOperand(0));
            return;
        }
        if (auto *SI = dyn_cast<SelectInst>(I)) {
            Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
            if (c->getType()->isVectorTy()) {
                concretizeOperands(B, I, FN);
                return;
            }
            Shadow sc = get(c), sa = get(a), sb = get(b);
            if (isZero(sc[0]) && allZero(sa) && allZero(sb))
                return;
            auto A2 = after();
            Shadow r;
            if (tracked(T)) {
                if (T->isPointerTy())
                    r.push_back(A2.CreateCall(fSelPtr, {A2.CreateZExt(c, I32), sc[0], as64(A2, a), sa[0], as64(A2, b), sb[0], FN}));
                else
                    r.push_back(A2.CreateCall(fSelect, {c32(width(T)), A2.CreateZExt(c, I32), sc[0], as64(A2, a), sa[0], as64(A2, b), sb[0]}));
            } else {
                if (!isZero(sc[0]))
                    A2.CreateCall(fBranch, {A2.CreateZExt(c, I32), sc[0], FN, c32(line(I))});
                for (unsigned j = 0; j < sa.size(); ++j)
                    r.push_back(A2.CreateSelect(c, sa[j], sb[j]));
            }
            S[I] = r;
            return;
        }
        if (auto *GEP = dyn_cast<GetElementPtrInst>(I)) {
            if (T->isVectorTy())
                return;
            SmallMapVector<Value *, APInt, 4> Var;
            APInt Off(64, 0);
            if (!cast<GEPOperator>(GEP)->collectOffset(DL, 64, Var, Off))
                return;
            Value *base = GEP->getPointerOperand();
            Value *acc = get1(base);
            bool any = !isZero(acc);
            for (auto &p : Var)
                any |= !isZero(get1(p.first));
            if (!any)
                return;
            auto A2 = after();
            Value *cv = A2.CreatePtrToInt(base, I64);
            for (auto &p : Var) {
                Value *ix = p.first;
                Value *six = get1(ix);
                unsigned wi = width(ix->getType());
                Value *ix64 = A2.CreateSExtOrTrunc(ix, I64);
                if (!isZero(six) && wi < 64)
                    six = A2.CreateCall(fCast, {c32(OpSExt), c32(wi), c32(64), as64(A2, ix), six});
                Value *sc = ConstantInt::get(I64, p.second.getSExtValue());
                Value *term = A2.CreateMul(ix64, sc);
                Value *sterm = bin(A2, OpMul, 64, ix64, six, sc, Zero);
                Value *ncv = A2.CreateAdd(cv, term);
                acc = bin(A2, OpAdd, 64, cv, acc, term, sterm);
                cv = ncv;
            }
            if (!Off.isZero())
                acc = bin(A2, OpAdd, 64, cv, acc, ConstantInt::get(I64, Off.getSExtValue()), Zero);
            S[I] = {acc};
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(I)) {
            Value *p = L->getPointerOperand();
            Value *sp = get1(p);
            if (tracked(T)) {
                unsigned bytes = DL.getTypeStoreSize(T).getFixedValue();
                auto A2 = after();
                Value *id = A2.CreateCall(fLoad, {p, sp, c32(bytes), FN, c32(line(I))});
                if (width(T) < bytes * 8)
                    id = A2.CreateCall(fCast, {c32(OpTrunc), c32(bytes * 8), c32(width(T)), as64(A2, I), id});
                S[I] = {id};
            } else if (T->isStructTy() || T->isArrayTy()) {
                auto A2 = after();
                SmallVector<Type *, 4> L2;
                leaves(T, L2);
                Shadow r;
                // leaf offsets: walk
                SmallVector<uint64_t, 4> offs;
                leafOffsets(T, 0, offs);
                for (unsigned j = 0; j < L2.size(); ++j) {
                    if (!tracked(L2[j])) {
                        r.push_back(Zero);
                        continue;
                    }
                    Value *q = A2.CreateConstGEP1_64(I8, p, offs[j]);
                    unsigned bytes = DL.getTypeStoreSize(L2[j]).getFixedValue();
                    r.push_back(A2.CreateCall(fLoad, {q, Zero, c32(bytes), FN, c32(line(I))}));
                }
                S[I] = r;
            } else {
                B.CreateCall(fLoadCheck, {p, sp, ConstantInt::get(I64, DL.getTypeStoreSize(T).getKnownMinValue()), FN, c32(line(I))});
            }
            return;
        }
        if (auto *St = dyn_cast<StoreInst>(I)) {
            Value *p = St->getPointerOperand(), *v = St->getValueOperand();
            Value *sp = get1(p);
            Type *VT = v->getType();
            auto A2 = after();
            if (tracked(VT)) {
                unsigned bytes = DL.getTypeStoreSize(VT).getFixedValue();
                Value *sv = get1(v);
                if (width(VT) < bytes * 8 && !isZero(sv))
                    sv = A2.CreateCall(fCast, {c32(OpZExt), c32(width(VT)), c32(bytes * 8), as64(A2, v), sv});
                A2.CreateCall(fStore, {p, sp, as64(A2, v), sv, c32(bytes), FN, c32(line(I))});
            } else if (VT->isStructTy() || VT->isArrayTy()) {
                SmallVector<Type *, 4> L2;
                leaves(VT, L2);
                SmallVector<uint64_t, 4> offs;
                leafOffsets(VT, 0, offs);
                Shadow s = get(v);
                A2.CreateCall(fClear, {p, ConstantInt::get(I64, DL.getTypeStoreSize(VT).getFixedValue())});
                for (unsigned j = 0; j < L2.size(); ++j)
                    if (tracked(L2[j]) && !isZero(s[j])) {
                        Value *q = A2.CreateConstGEP1_64(I8, p, offs[j]);
                        unsigned bytes = DL.getTypeStoreSize(L2[j]).getFixedValue();
                        Value *cv = bytes == 8 ? (Value *)A2.CreateLoad(I64, q) : A2.CreateZExt(A2.CreateLoad(IntegerType::get(C, bytes * 8), q), I64);
                        A2.CreateCall(fStore, {q, Zero, cv, s[j], c32(bytes), FN, c32(line(I))});
                    }
            } else {
                A2.CreateCall(fClear, {p, ConstantInt::get(I64, DL.getTypeStoreSize(VT).getKnownMinValue())});
            }
            return;
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
            Type *Sub;
            unsigned off = leafOffset(EV->getAggregateOperand()->getType(), EV->getIndices(), Sub);
            Shadow s = get(EV->getAggregateOperand());
            Shadow r;
            for (unsigned j = 0; j < leafCount(Sub); ++j)
                r.push_back(s[off + j]);
            S[I] = r;
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(I)) {
            Type *Sub;
            unsigned off = leafOffset(T, IV->getIndices(), Sub);
            Shadow r = get(IV->getAggregateOperand());
            Shadow v = get(IV->getInsertedValueOperand());
            for (unsigned j = 0; j < v.size(); ++j)
                r[off + j] = v[j];
            S[I] = r;
            return;
        }
        if (auto *Br = dyn_cast<BranchInst>(I)) {
            if (Br->isConditional()) {
                Value *s = get1(Br->getCondition());
                if (!isZero(s))
                    B.CreateCall(fBranch, {B.CreateZExt(Br->getCondition(), I32), s, FN, c32(line(I))});
            }
            return;
        }
        if (auto *Sw = dyn_cast<SwitchInst>(I)) {
            Value *s = get1(Sw->getCondition());
            if (isZero(s))
                return;
            SmallVector<Constant *, 16> cs;
            for (auto &c : Sw->cases())
                cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
            auto *AT = ArrayType::get(I64, cs.size());
            auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs), "rtsw");
            B.CreateCall(fSwitch, {as64(B, Sw->getCondition()), s, c32(width(Sw->getCondition()->getType())), c32(cs.size()), G, FN, c32(line(I))});
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(I)) {
            if (Value *v = R->getReturnValue()) {
                Shadow s = get(v);
                if (s.size() <= MaxArgs)
                    for (unsigned j = 0; j < s.size(); ++j)
                        B.CreateStore(s[j], slot(B, Ret, j));
            }
            B.CreateStore(&F, RetTag);
            return;
        }
        if (auto *II = dyn_cast<IntrinsicInst>(I)) {
            intrinsic(II, F, FN);
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(I)) {
            handleCall(CB, F, FN);
            return;
        }
        if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) {
            B.CreateCall(fLoadCheck, {RMW->getPointerOperand(), get1(RMW->getPointerOperand()), ConstantInt::get(I64, 8), FN, c32(line(I))});
            concretizeOperands(B, I, FN);
            return;
        }
        if (isa<AllocaInst>(I) || isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<FenceInst>(I))
            return;
        concretizeOperands(B, I, FN);
    }

    void leafOffsets(Type *T, uint64_t base, SmallVectorImpl<uint64_t> &Out)
    {
        if (auto *S = dyn_cast<StructType>(T)) {
            auto *SL = DL.getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); ++i)
                leafOffsets(S->getElementType(i), base + SL->getElementOffset(i).getFixedValue(), Out);
        } else if (auto *A = dyn_cast<ArrayType>(T)) {
            for (uint64_t i = 0; i < A->getNumElements(); ++i)
                leafOffsets(A->getElementType(), base + i * DL.getTypeAllocSize(A->getElementType()).getFixedValue(), Out);
        } else
            Out.push_back(base);
    }

    void intrinsic(IntrinsicInst *II, Function &F, Constant *FN)
    {
        IRBuilder<> B(II);
        IRBuilder<> A2(II->getNextNode() ? II->getNextNode() : II);
        Type *T = II->getType();
        auto id = II->getIntrinsicID();
        auto arg = [&](unsigned i) {
            return II->getArgOperand(i);
        };
        switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove:
            B.CreateCall(fMemcpy, {arg(0), get1(arg(0)), arg(1), get1(arg(1)), as64(B, arg(2)), get1(arg(2)), FN, c32(line(II))});
            return;
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
            A2.CreateCall(fMemset, {arg(0), get1(arg(0)), as64(A2, arg(1)), get1(arg(1)), as64(A2, arg(2)), get1(arg(2)), FN, c32(line(II))});
            return;
        case Intrinsic::lifetime_start: {
            auto *sz = dyn_cast<ConstantInt>(arg(0));
            if (sz && sz->getSExtValue() > 0)
                A2.CreateCall(fClear, {arg(1), as64(A2, arg(0))});
            return;
        }
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::annotation:
        case Intrinsic::ssa_copy:
        case Intrinsic::ptrmask:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address:
            if (id == Intrinsic::ptrmask)
                S[II] = {bin(A2, OpAnd, 64, arg(0), get1(arg(0)), arg(1), get1(arg(1)))};
            else
                S[II] = get(arg(0));
            return;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
        case Intrinsic::ucmp: case Intrinsic::scmp: {
            if (!tracked(arg(0)->getType()) || !tracked(T)) {
                concretizeOperands(B, II, FN);
                return;
            }
            unsigned op = id == Intrinsic::umax ? OpUMax : id == Intrinsic::umin ? OpUMin : id == Intrinsic::smax ? OpSMax : id == Intrinsic::smin ? OpSMin
                : id == Intrinsic::uadd_sat ? OpUAddSat : id == Intrinsic::usub_sat ? OpUSubSat : id == Intrinsic::sadd_sat ? OpSAddSat
                : id == Intrinsic::ssub_sat ? OpSSubSat : id == Intrinsic::ucmp ? OpUCmp : OpSCmp;
            Value *r = bin(A2, op, width(arg(0)->getType()), arg(0), get1(arg(0)), arg(1), get1(arg(1)));
            if ((op == OpUCmp || op == OpSCmp) && !isZero(r) && width(T) != 8)
                r = A2.CreateCall(fCast, {c32(width(T) > 8 ? OpSExt : OpTrunc), c32(8), c32(width(T)), A2.CreateSExtOrTrunc(II, I8)->getType() == I8 ? as64(A2, A2.CreateSExtOrTrunc(II, I8)) : as64(A2, II), r});
            S[II] = {r};
            return;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            if (!tracked(arg(0)->getType())) {
                concretizeOperands(B, II, FN);
                return;
            }
            unsigned ov, op;
            switch (id) {
            case Intrinsic::uadd_with_overflow: ov = OpUAddOv; op = OpAdd; break;
            case Intrinsic::usub_with_overflow: ov = OpUSubOv; op = OpSub; break;
            case Intrinsic::umul_with_overflow: ov = OpUMulOv; op = OpMul; break;
            case Intrinsic::sadd_with_overflow: ov = OpSAddOv; op = OpAdd; break;
            case Intrinsic::ssub_with_overflow: ov = OpSSubOv; op = OpSub; break;
            default: ov = OpSMulOv; op = OpMul; break;
            }
            unsigned w = width(arg(0)->getType());
            S[II] = {bin(A2, op, w, arg(0), get1(arg(0)), arg(1), get1(arg(1))), bin(A2, ov, w, arg(0), get1(arg(0)), arg(1), get1(arg(1)))};
            return;
        }
        case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
            if (!tracked(T)) {
                concretizeOperands(B, II, FN);
                return;
            }
            unsigned op = id == Intrinsic::abs ? OpAbs : id == Intrinsic::ctpop ? OpCtpop : id == Intrinsic::ctlz ? OpCtlz : id == Intrinsic::cttz ? OpCttz : OpBswap;
            S[II] = {bin(A2, op, width(T), arg(0), get1(arg(0)), ConstantInt::get(T, 0), Zero)};
            return;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            if (!tracked(T)) {
                concretizeOperands(B, II, FN);
                return;
            }
            Value *a = get1(arg(0)), *b = get1(arg(1)), *c = get1(arg(2));
            if (isZero(a) && isZero(b) && isZero(c))
                return;
            S[II] = {A2.CreateCall(fFshl, {c32(width(T) | (id == Intrinsic::fshr ? 256 : 0)), c32(0), as64(A2, arg(0)), a, as64(A2, arg(1)), b, as64(A2, arg(2)), c})};
            return;
        }
        case Intrinsic::assume: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::trap: case Intrinsic::ubsantrap:
        case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::load_relative: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
        case Intrinsic::eh_typeid_for:
            return;
        default:
            concretizeOperands(B, II, FN);
        }
    }
};

struct SymPass : PassInfoMixin<SymPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        SmallVector<Function *, 64> Fs;
        for (auto &F : M) {
            if (F.isDeclaration() || F.hasAvailableExternallyLinkage() || F.getName().starts_with("rt_"))
                continue;
            Fs.push_back(&F);
        }
        Instrumenter In(M);
        SmallVector<Constant *, 64> Addr, Names;
        auto *Ptr = PointerType::getUnqual(M.getContext());
        for (auto *F : Fs) {
            if (F->hasFnAttribute(Attribute::Naked))
                continue;
            // keep the shared libraries from binding to our instrumented copies
            if (F->hasLinkOnceLinkage() || F->hasWeakLinkage()) {
                if (!F->hasLocalLinkage() && F->getVisibility() == GlobalValue::DefaultVisibility && !F->hasDLLExportStorageClass()) {
                    F->setVisibility(GlobalValue::HiddenVisibility);
                    F->setDSOLocal(true);
                }
            }
            // inferred memory/argument attributes no longer hold
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::Speculatable);
            F->removeFnAttr(Attribute::NoSync);
            F->removeFnAttr(Attribute::WillReturn);
            F->removeFnAttr(Attribute::NoFree);
            In.run(*F);
            Addr.push_back(F);
        }
        // call sites and declarations may carry memory attributes too
        for (auto &F : M) {
            if (F.isIntrinsic())
                continue;
            F.removeFnAttr(Attribute::Memory);
            F.removeFnAttr(Attribute::NoSync);
            F.removeFnAttr(Attribute::WillReturn);
            for (auto &I : instructions(F))
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (!isa<IntrinsicInst>(CB))
                        CB->removeFnAttr(Attribute::Memory);
        }
        if (!Addr.empty()) {
            auto *AT = ArrayType::get(Ptr, Addr.size());
            auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, Addr), "rttab");
            auto *VoidTy = Type::getVoidTy(M.getContext());
            auto *I32 = Type::getInt32Ty(M.getContext());
            auto Reg = M.getOrInsertFunction("rt_register", FunctionType::get(VoidTy, {Ptr, I32}, false));
            auto *Ctor = Function::Create(FunctionType::get(VoidTy, false), GlobalValue::InternalLinkage, "rt_module_ctor", M);
            IRBuilder<> B(BasicBlock::Create(M.getContext(), "e", Ctor));
            B.CreateCall(Reg, {G, B.getInt32(Addr.size())});
            B.CreateRetVoid();
            appendToGlobalCtors(M, Ctor, 0);
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired()
    {
        return true;
    }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel, ThinOrFullLTOPhase) {
                    MPM.addPass(SymPass());
                });
            }};
}
