// LLVM pass: replaces every float/double operation by a call into the symbolic runtime (rt.cpp).
// A symbolic value is a negative quiet NaN whose payload indexes the runtime's term table, so loads, stores, phis,
// argument passing etc. need no rewriting; only operations that *compute* with floats do.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
// libm functions (double and float names) handled by the runtime: name -> arity
static const std::map<std::string, int> LIBM = {
    {"exp",1},{"exp2",1},{"expm1",1},{"log",1},{"log10",1},{"log2",1},{"log1p",1},{"pow",2},{"sqrt",1},{"cbrt",1},
    {"sin",1},{"cos",1},{"tan",1},{"asin",1},{"acos",1},{"atan",1},{"atan2",2},{"sinh",1},{"cosh",1},{"tanh",1},
    {"fabs",1},{"floor",1},{"ceil",1},{"trunc",1},{"round",1},{"rint",1},{"nearbyint",1},{"fmod",2},{"fmin",2},{"fmax",2},
    {"hypot",2},{"copysign",2},{"fma",3},{"tgamma",1},{"lgamma",1},{"erf",1},{"erfc",1},{"ldexp",0}};

struct SymPass : PassInfoMixin<SymPass> {
    Module* M; Type *F32, *F64, *I8, *I32, *I64;
    std::string sfx(Type* t) { return t == F32 ? "f32" : "f64"; }
    bool isfp(Type* t) { return t == F32 || t == F64; }
    FunctionCallee fn(const std::string& n, Type* ret, ArrayRef<Type*> args) {
        return M->getOrInsertFunction(n, FunctionType::get(ret, args, false));
    }
    Value* op(IRBuilder<>& B, const std::string& name, ArrayRef<Value*> args) {
        Type* t = args[0]->getType();
        std::vector<Type*> ts; for (auto a : args) ts.push_back(a->getType());
        return B.CreateCall(fn("svrt_" + name + "_" + sfx(t), t, ts), args);
    }
    // apply scalar transformation lane-wise when the type is a vector
    template<class F> Value* lanes(IRBuilder<>& B, Instruction* I, Type* resT, F f) {
        auto* vt = dyn_cast<FixedVectorType>(resT);
        if (!vt) { std::vector<Value*> ops; for (auto& o : I->operands()) ops.push_back(o.get()); return f(ops); }
        Value* r = PoisonValue::get(resT);
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
            std::vector<Value*> ops;
            for (auto& o : I->operands()) {
                Value* v = o.get();
                if (v->getType()->isVectorTy()) v = B.CreateExtractElement(v, (uint64_t) i);
                ops.push_back(v);
            }
            r = B.CreateInsertElement(r, f(ops), (uint64_t) i);
        }
        return r;
    }
    Value* fcmp(IRBuilder<>& B, CmpInst::Predicate p, Value* a, Value* b) {
        Type* t = a->getType();
        Value* r = B.CreateCall(fn("svrt_fcmp_" + sfx(t), I32, {I32, t, t}), {ConstantInt::get(I32, (int) p), a, b});
        return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
    }
    bool fpOrVec(Type* t) { return isfp(t->getScalarType()); }

    // If-conversion: a branch on a float comparison whose sides only pick float values for the join block's phis (or compute a
    // few float operations first) becomes selects, which the runtime merges into one term instead of forking.
    bool side(BasicBlock* S, BasicBlock* From, BasicBlock*& J) {
        if (S->getSinglePredecessor() != From || isa<PHINode>(S->front())) return false;
        auto* br = dyn_cast<BranchInst>(S->getTerminator()); if (!br || br->isConditional()) return false;
        int n = 0;
        for (auto& I : *S) {
            if (&I == br || I.isDebugOrPseudoInst()) continue;
            if (++n > 4) return false;
            if (auto* BO = dyn_cast<BinaryOperator>(&I)) { if (isfp(BO->getType()) && (BO->getOpcode() == Instruction::FAdd || BO->getOpcode() == Instruction::FSub || BO->getOpcode() == Instruction::FMul)) continue; return false; }
            if (isa<UnaryOperator>(I) || isa<FPExtInst>(I) || isa<FPTruncInst>(I)) continue;
            return false;
        }
        J = br->getSuccessor(0); return J != S && J != From;
    }
    bool convertOne(Function& Fn) {
        for (auto& BBr : Fn) {
            BasicBlock* BB = &BBr; auto* br = dyn_cast<BranchInst>(BB->getTerminator()); if (!br || !br->isConditional()) continue;
            auto* C = dyn_cast<FCmpInst>(br->getCondition()); if (!C || !isfp(C->getOperand(0)->getType())) continue;
            BasicBlock *T = br->getSuccessor(0), *F = br->getSuccessor(1), *JT = nullptr, *JF = nullptr; if (T == F) continue;
            bool st = side(T, BB, JT), sf = side(F, BB, JF); BasicBlock* J = nullptr; bool ut = false, uf = false;
            if (st && sf && JT == JF) { J = JT; ut = uf = true; } else if (st && JT == F) { J = F; ut = true; } else if (sf && JF == T) { J = T; uf = true; } else continue;
            if (J == BB) continue;
            BasicBlock *PT = ut ? T : BB, *PF = uf ? F : BB; bool ok = true, any = false;
            for (auto& P : J->phis()) { Value *a = P.getIncomingValueForBlock(PT), *b = P.getIncomingValueForBlock(PF); if (a == b) continue; any = true; if (!isfp(P.getType())) ok = false; }
            if (!ok || !any) continue;
            for (BasicBlock* S : {ut ? T : nullptr, uf ? F : nullptr}) if (S) for (auto it = S->begin(); &*it != S->getTerminator();) { Instruction* I = &*it++; if (I->isDebugOrPseudoInst()) I->eraseFromParent(); else I->moveBefore(br); }
            IRBuilder<> B(br); bool uniq = (J->getUniquePredecessor() == BB); (void) uniq;
            for (auto& P : J->phis()) {
                Value *a = P.getIncomingValueForBlock(PT), *b = P.getIncomingValueForBlock(PF), *v = a;
                if (a != b) { auto* C2 = cast<FCmpInst>(C->clone()); C2->insertBefore(br); v = SelectInst::Create(C2, a, b, "", br); }
                P.removeIncomingValue(PT, false); P.removeIncomingValue(PF, false); P.addIncoming(v, BB);
            }
            BranchInst::Create(J, br); br->eraseFromParent(); if (C->use_empty()) C->eraseFromParent();
            if (ut) T->eraseFromParent(); if (uf) F->eraseFromParent();
            return true;
        }
        return false;
    }
    // memory logging (race detection builds only)
    void memlog(Function& Fn) {
        std::vector<Instruction*> list; for (auto& I : instructions(Fn)) list.push_back(&I);
        const DataLayout& DL = M->getDataLayout(); Type* P = PointerType::get(M->getContext(), 0); Value* name = nullptr;
        for (auto* I : list) {
            IRBuilder<> B(I); auto nm = [&]() -> Value* { if (!name) name = B.CreateGlobalStringPtr(Fn.getName()); return name; };
            auto log = [&](const char* f, Value* p, Value* n) { if (isa<AllocaInst>(p->stripPointerCasts())) return; B.CreateCall(fn(f, Type::getVoidTy(M->getContext()), {P, I64, P}), {p, B.CreateZExtOrTrunc(n, I64), nm()}); };
            if (isa<LoadInst>(I) && cast<LoadInst>(I)->isAtomic()) log("svrt_ald", cast<LoadInst>(I)->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(I->getType())));
            else if (isa<StoreInst>(I) && cast<StoreInst>(I)->isAtomic()) log("svrt_ast", cast<StoreInst>(I)->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(cast<StoreInst>(I)->getValueOperand()->getType())));
            else if (auto* L = dyn_cast<LoadInst>(I)) log("svrt_ld", L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(L->getType())));
            else if (auto* S = dyn_cast<StoreInst>(I)) log("svrt_st", S->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(S->getValueOperand()->getType())));
            else if (auto* R = dyn_cast<AtomicRMWInst>(I)) log("svrt_ast", R->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(R->getType())));
            else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) log("svrt_ast", X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(X->getNewValOperand()->getType())));
            else if (auto* C = dyn_cast<MemTransferInst>(I)) { log("svrt_ld", C->getRawSource(), C->getLength()); log("svrt_st", C->getRawDest(), C->getLength()); }
            else if (auto* C = dyn_cast<MemSetInst>(I)) log("svrt_st", C->getRawDest(), C->getLength());
            else if (auto* C = dyn_cast<CallBase>(I)) {
                Function* f = C->getCalledFunction(); if (!f) continue; StringRef n = f->getName();
                if (n == "_Znwm") C->setCalledFunction(fn("svrt_new", P, {I64})); else if (n == "_ZdlPv") C->setCalledFunction(fn("svrt_delete", Type::getVoidTy(M->getContext()), {P}));
                else if (n == "_Znam") C->setCalledFunction(fn("svrt_new", P, {I64})); else if (n == "_ZdaPv") C->setCalledFunction(fn("svrt_delete", Type::getVoidTy(M->getContext()), {P}));
                else if (n == "malloc") C->setCalledFunction(fn("svrt_malloc", P, {I64})); else if (n == "calloc") C->setCalledFunction(fn("svrt_calloc", P, {I64, I64}));
                else if (n == "posix_memalign") C->setCalledFunction(fn("svrt_posix_memalign", I32, {P, I64, I64})); else if (n == "aligned_alloc") C->setCalledFunction(fn("svrt_aligned_alloc", P, {I64, I64}));
                else if (n == "_ZdlPvm") C->setCalledFunction(fn("svrt_delete2", Type::getVoidTy(M->getContext()), {P, I64}));
            }
        }
    }
    bool runOn(Function& Fn) {
        if (getenv("SV_MEM")) memlog(Fn);
        while (convertOne(Fn)) {}
        std::vector<Instruction*> list;
        for (auto& I : instructions(Fn)) list.push_back(&I);
        bool changed = false;
        std::set<Instruction*> dead;
        for (auto* I : list) {
            if (dead.count(I)) continue;
            IRBuilder<> B(I);
            Value* rep = nullptr;
            if (auto* S = dyn_cast<SelectInst>(I)) {
                auto* C = dyn_cast<FCmpInst>(S->getCondition());
                if (C && isfp(S->getType()) && isfp(C->getOperand(0)->getType()) && C->hasOneUse()) {
                    Type* ct = C->getOperand(0)->getType(); Type* t = S->getType();
                    rep = B.CreateCall(fn("svrt_select_" + sfx(ct) + "_" + sfx(t), t, {I32, ct, ct, t, t}),
                        {ConstantInt::get(I32, (int) C->getPredicate()), C->getOperand(0), C->getOperand(1), S->getTrueValue(), S->getFalseValue()});
                    S->replaceAllUsesWith(rep); S->eraseFromParent(); dead.insert(I);
                    // the compare may have been replaced already (it precedes the select): handled by order below
                    if (!dead.count(C)) { C->eraseFromParent(); dead.insert(C); }
                    changed = true; continue;
                }
                continue;
            }
            if (auto* BO = dyn_cast<BinaryOperator>(I)) {
                if (!fpOrVec(BO->getType())) continue;
                const char* n = nullptr;
                switch (BO->getOpcode()) {
                    case Instruction::FAdd: n = "fadd"; break; case Instruction::FSub: n = "fsub"; break;
                    case Instruction::FMul: n = "fmul"; break; case Instruction::FDiv: n = "fdiv"; break;
                    case Instruction::FRem: n = "fmod"; break; default: break;
                }
                if (!n) continue;
                rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) { return op(B, n, {o[0], o[1]}); });
            } else if (auto* U = dyn_cast<UnaryOperator>(I)) {
                if (U->getOpcode() != Instruction::FNeg || !fpOrVec(U->getType())) continue;
                rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) { return op(B, "fneg", {o[0]}); });
            } else if (auto* C = dyn_cast<FCmpInst>(I)) {
                if (!fpOrVec(C->getOperand(0)->getType())) continue;
                // a compare used only by one mergeable select is handled at the select
                if (C->hasOneUse()) if (auto* S = dyn_cast<SelectInst>(C->user_back()))
                    if (S->getCondition() == C && isfp(S->getType()) && isfp(C->getOperand(0)->getType())) continue;
                rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) { return fcmp(B, C->getPredicate(), o[0], o[1]); });
            } else if (isa<FPExtInst>(I)) {
                Type* st = I->getOperand(0)->getType()->getScalarType(); Type* dt = I->getType()->getScalarType();
                if (st == F32 && dt == F64)
                    rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) { return (Value*) B.CreateCall(fn("svrt_fpext", F64, {F32}), {o[0]}); });
                else if (isfp(st)) {  // to long double: must be concrete
                    Value* v = op(B, "concrete", {I->getOperand(0)}); I->setOperand(0, v); changed = true; continue;
                } else continue;
            } else if (isa<FPTruncInst>(I)) {
                Type* st = I->getOperand(0)->getType()->getScalarType(); Type* dt = I->getType()->getScalarType();
                if (st == F64 && dt == F32)
                    rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) { return (Value*) B.CreateCall(fn("svrt_fptrunc", F32, {F64}), {o[0]}); });
                else continue;
            } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
                Type* st = I->getOperand(0)->getType()->getScalarType(); Type* dt = I->getType()->getScalarType();
                if (!isfp(st)) continue;
                bool sg = isa<FPToSIInst>(I); unsigned bits = dt->getIntegerBitWidth();
                rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) {
                    Value* r = B.CreateCall(fn(std::string("svrt_fptoint_") + sfx(st), I64, {st, I32, I32}),
                        {o[0], ConstantInt::get(I32, bits), ConstantInt::get(I32, sg)});
                    return B.CreateTruncOrBitCast(r, dt); });
            } else if (auto* CI = dyn_cast<CallInst>(I)) {
                Function* f = CI->getCalledFunction();
                if (!f) continue;
                std::string n = f->getName().str();
                if (f->isIntrinsic()) {
                    if (n.rfind("llvm.is.fpclass", 0) == 0 && fpOrVec(CI->getArgOperand(0)->getType())) {
                        rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) {
                            Type* t = o[0]->getType();
                            Value* r = B.CreateCall(fn("svrt_fpclass_" + sfx(t), I32, {t, I32}), {o[0], o[1]});
                            return B.CreateICmpNE(r, ConstantInt::get(I32, 0)); });
                    } else if (fpOrVec(CI->getType())) {
                        size_t d = n.find('.', 5); std::string base = n.substr(5, d - 5);
                        if (base == "minnum") base = "fmin"; else if (base == "maxnum") base = "fmax";
                        else if (base == "fmuladd") base = "fma";
                        if (base == "powi") {
                            rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) {
                                return op(B, "pow", {o[0], B.CreateSIToFP(o[1], o[0]->getType())}); });
                        } else if (LIBM.count(base) && LIBM.at(base) > 0) {
                            int ar = LIBM.at(base);
                            rep = lanes(B, I, I->getType(), [&](std::vector<Value*> o) {
                                return op(B, base, ArrayRef<Value*>(o.data(), ar)); });
                        } else if (base == "vector" || base == "experimental") {
                            errs() << "SymPass: unsupported intrinsic " << n << "\n"; exit(3);
                        }
                    } else continue;
                } else if (f->isDeclaration() && isfp(CI->getType())) {
                    std::string base = n;
                    if (!LIBM.count(base) && base.size() > 1 && base.back() == 'f' && CI->getType() == F32) base.pop_back();
                    if (base == "__exp_finite") base = "exp"; 
                    if (!LIBM.count(base) || LIBM.at(base) == 0) continue;
                    std::vector<Value*> as(CI->arg_begin(), CI->arg_end());
                    rep = op(B, base, as);
                } else continue;
            } else continue;
            if (!rep) continue;
            I->replaceAllUsesWith(rep); I->eraseFromParent(); dead.insert(I); changed = true;
        }
        return changed;
    }
    PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&) {
        M = &Mod; auto& C = Mod.getContext();
        F32 = Type::getFloatTy(C); F64 = Type::getDoubleTy(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        for (auto& F : Mod) if (!F.isDeclaration() && !F.getName().starts_with("svrt_")) runOn(F);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
    }};
}
