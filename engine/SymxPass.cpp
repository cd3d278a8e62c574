// SymxPass: rewrites LLVM IR so that every scalar SSA value and every byte of memory carries a
// companion symbolic expression (a 32-bit handle into the runtime's expression table, 0 = concrete).
// The rewritten program executes the original code natively and, alongside, builds the symbolic
// expressions and reports every branch taken on one to the runtime (rt.cpp), which owns the path
// condition and the SMT solver.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/StringSet.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

namespace {

// Calls to these names go to the runtime's shadow-aware twin "sxw_<name>".
const char* const Redirects[] = {
    "strlen", "memcmp", "bcmp", "memchr", "strcmp", "strncmp", "strchr", "strncpy", "strcpy",
    "strtol", "strtoll", "strtoul", "strtoull", "__isoc23_strtol", "__isoc23_strtoll",
    "__isoc23_strtoul", "__isoc23_strtoull", "strtod",
    "isalpha", "isalnum", "isdigit", "isxdigit", "isspace", "isupper", "islower", "isprint", "ispunct",
    "toupper", "tolower",
    "memcpy", "memmove", "memset",
    "_ZSt11_Hash_bytesPKvmm",
    "xmlNodeListGetString", "xmlNodeGetContent", "xmlParseFile", "xmlReadFile", "xmlGetProp", "xmlNodeDump",
    // std::to_string() digit kernels
    "_ZNSt8__detail18__to_chars_10_implImEEvPcjT_", "_ZNSt8__detail18__to_chars_10_implIjEEvPcjT_",
    "_ZNSt8__detail18__to_chars_10_implIyEEvPcjT_",
    "_ZNSt8__detail14__to_chars_lenImEEjT_i", "_ZNSt8__detail14__to_chars_lenIjEEjT_i",
    "_ZNSt8__detail14__to_chars_lenIyEEjT_i",
    // formatted output of integers
    "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIyEERSoT_",
    "_ZNSo9_M_insertIxEERSoT_", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIbEERSoT_",
    "_ZNSt7__cxx119to_stringEd", "_ZNSt7__cxx119to_stringEf",
    // file output
    "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei", "_ZNSt12__basic_fileIcE6xsputnEPKcl",
    "_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l", "_ZNSt12__basic_fileIcE5closeEv",
    "_ZNKSt12__basic_fileIcE7is_openEv",
    "_ZNSt12__basic_fileIcE6xsgetnEPcl", "_ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir", "_ZNSt12__basic_fileIcE9showmanycEv",
    "_ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code", "_ZNSt10filesystem6statusERKNS_7__cxx114pathE",
    "_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code",
    "_ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code",
    "vsnprintf", "snprintf",
    "fwrite",
};

struct Symx {
    Module& M;
    LLVMContext& C;
    Type *I1, *I8, *I32, *I64, *PtrT, *VoidT;
    StringSet<> RedirectSet;
    GlobalVariable *GArgs, *GRet, *GCallee, *GRetFn, *GByval;
    FunctionCallee FBin, FCmp, FFCmp, FFBin, FCast, FLoad, FStore, FBr, FSwitch, FSelect, FConc, FPost,
        FMemcpy, FMemset, FOvf, FMinMax, FFsh, FUn, FClear, FLoadLost;
    std::map<Function*, Constant*> FnNames;

    explicit Symx(Module& m) : M(m), C(m.getContext())
    {
        I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        PtrT = PointerType::getUnqual(C); VoidT = Type::getVoidTy(C);
        for (auto* r : Redirects) RedirectSet.insert(r);
        auto ext = [&](const char* n, Type* t) {
            auto* g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
            g->setDSOLocal(true);
            return g;
        };
        GArgs = ext("__sx_args", ArrayType::get(I32, 64));
        GRet = ext("__sx_ret", ArrayType::get(I32, 16));
        GByval = ext("__sx_byval", ArrayType::get(PtrT, 64));
        GCallee = ext("__sx_callee", PtrT);
        GRetFn = ext("__sx_retfn", PtrT);
        auto fn = [&](const char* n, Type* r, ArrayRef<Type*> a) {
            auto c = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
            if (auto* f = dyn_cast<Function>(c.getCallee())) { f->setDoesNotThrow(); f->setDSOLocal(true); }
            return c;
        };
        FBin = fn("__sx_bin", I32, {I32, I32, I32, I32, I64, I64});     // op, width, a, b, av, bv
        FCmp = fn("__sx_cmp", I32, {I32, I32, I32, I32, I64, I64});     // pred, width, a, b, av, bv
        FFCmp = fn("__sx_fcmp", I32, {I32, I32, I32, I32, I64, I64});
        FFBin = fn("__sx_fbin", I32, {I32, I32, I32, I32, I64, I64});
        FCast = fn("__sx_cast", I32, {I32, I32, I32, I32});             // op, srcw, dstw, a
        FLoad = fn("__sx_load", I32, {PtrT, I32, I32, I32});            // addr, addrsh, bytes, bits
        FStore = fn("__sx_store", VoidT, {PtrT, I32, I32, I32, I32});   // addr, addrsh, sh, bytes, bits
        FBr = fn("__sx_br", VoidT, {I32, I1, PtrT});
        FSwitch = fn("__sx_switch", VoidT, {I32, I64, I32, I32, PtrT, PtrT}); // sh,val,width,n,cases,fn
        FSelect = fn("__sx_select", I32, {I32, I1, I32, I32, I64, I64, I32});
        FConc = fn("__sx_conc", VoidT, {I32, PtrT});
        FPost = fn("__sx_postcall", VoidT, {PtrT, I32, PtrT});
        FMemcpy = fn("__sx_memcpy", VoidT, {PtrT, PtrT, I64});
        FMemset = fn("__sx_memset", VoidT, {PtrT, I32, I64});
        FClear = fn("__sx_clear", VoidT, {PtrT, I64});
        FLoadLost = fn("__sx_loadlost", VoidT, {PtrT, I64, PtrT});
        FOvf = fn("__sx_ovf", I32, {I32, I32, I32, I32, I64, I64});
        FMinMax = fn("__sx_minmax", I32, {I32, I32, I32, I32, I64, I64});
        FFsh = fn("__sx_fsh", I32, {I32, I32, I32, I32, I64, I64, I64});
        FUn = fn("__sx_un", I32, {I32, I32, I32});
    }

    // ---- types
    static bool scalar(Type* t)
    {
        return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy();
    }
    static unsigned width(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        return 64;
    }
    static unsigned count(Type* t)
    {
        if (scalar(t)) return 1;
        if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += count(e); return n; }
        if (auto* a = dyn_cast<ArrayType>(t)) return count(a->getElementType()) * a->getNumElements();
        return 0;
    }
    static void flatten(Type* t, const DataLayout& dl, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out)
    {
        if (auto* s = dyn_cast<StructType>(t)) {
            auto* l = dl.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), dl, off + l->getElementOffset(i), out);
            return;
        }
        if (auto* a = dyn_cast<ArrayType>(t)) {
            uint64_t sz = dl.getTypeAllocSize(a->getElementType());
            for (uint64_t i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), dl, off + i * sz, out);
            return;
        }
        out.push_back({t, off});
    }

    Constant* z32() { return ConstantInt::get(I32, 0); }
    Constant* c32(uint64_t v) { return ConstantInt::get(I32, v); }
    static bool isZero(Value* v) { auto* c = dyn_cast<ConstantInt>(v); return c && c->isZero(); }

    Constant* fnName(Function* f)
    {
        auto& n = FnNames[f];
        if (!n) {
            auto* s = ConstantDataArray::getString(C, f->getName());
            auto* g = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s, "sxfn");
            n = g;
        }
        return n;
    }

    using SV = SmallVector<Value*, 2>;
    DenseMap<Value*, SV> Map;
    Function* F = nullptr;

    SV get(Value* v)
    {
        auto it = Map.find(v);
        if (it != Map.end()) return it->second;
        return SV(count(v->getType()), z32());
    }
    Value* get1(Value* v) { auto s = get(v); return s.empty() ? z32() : s[0]; }

    Value* asI64(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (isa<UndefValue>(v)) return ConstantInt::get(I64, 0);
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isIntegerTy(64)) return v;
        if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) return B.CreateZExt(v, I64);
        if (t->isIntegerTy()) return B.CreateTrunc(v, I64);
        return ConstantInt::get(I64, 0);
    }

    void conc(IRBuilder<>& B, Value* v, const char* why)
    {
        for (auto* s : get(v))
            if (!isZero(s)) B.CreateCall(FConc, {s, B.CreateGlobalStringPtr(why)});
    }
    void concAllOperands(IRBuilder<>& B, Instruction* I, const char* why)
    {
        for (auto& o : I->operands()) if (!isa<BasicBlock>(o.get()) && !isa<Constant>(o.get())) conc(B, o.get(), why);
    }

    void runOnFunction(Function& fn)
    {
        F = &fn;
        Map.clear();
        std::vector<InvokeInst*> invs;
        for (auto& bb : fn) if (auto* iv = dyn_cast<InvokeInst>(bb.getTerminator())) invs.push_back(iv);
        for (auto* iv : invs) if (!iv->getNormalDest()->getSinglePredecessor()) SplitEdge(iv->getParent(), iv->getNormalDest());
        std::vector<Instruction*> work;
        for (auto& bb : fn) for (auto& i : bb) work.push_back(&i);
        const DataLayout& DL = M.getDataLayout();

        // Entry: argument shadows.
        {
            IRBuilder<> B(&*fn.getEntryBlock().getFirstInsertionPt());
            // stay after static allocas is unnecessary: allocas need not be first, but keep them together
            BasicBlock::iterator ip = fn.getEntryBlock().begin();
            while (isa<AllocaInst>(&*ip)) ++ip;
            B.SetInsertPoint(&*ip);
            unsigned n = 0;
            bool any = false;
            for (auto& a : fn.args()) { n += count(a.getType()); if (count(a.getType())) any = true; }
            if (any && n < 64) {
                Value* cal = B.CreateLoad(PtrT, GCallee);
                Value* ok = B.CreateICmpEQ(cal, &fn);
                unsigned idx = 0, ai = 0;
                for (auto& a : fn.args()) {
                    unsigned k = count(a.getType());
                    SV s;
                    for (unsigned j = 0; j < k; ++j, ++idx) {
                        Value* l = B.CreateLoad(I32, B.CreateConstGEP2_32(GArgs->getValueType(), GArgs, 0, idx));
                        s.push_back(B.CreateSelect(ok, l, z32()));
                    }
                    if (k) Map[&a] = s;
                    if (a.hasByValAttr()) {
                        Value* src = B.CreateLoad(PtrT, B.CreateConstGEP2_32(GByval->getValueType(), GByval, 0, ai));
                        Value* srcOk = B.CreateSelect(ok, src, Constant::getNullValue(PtrT));
                        uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
                        B.CreateCall(FMemcpy, {&a, srcOk, ConstantInt::get(I64, sz)});
                    }
                    ++ai;
                }
                // consumed
                Value* nc = B.CreateSelect(ok, Constant::getNullValue(PtrT), cal);
                B.CreateStore(nc, GCallee);
            }
        }

        // Shadow phis first.
        for (auto* i : work) {
            if (auto* p = dyn_cast<PHINode>(i)) {
                unsigned k = count(p->getType());
                if (!k) continue;
                IRBuilder<> B(p);
                SV s;
                for (unsigned j = 0; j < k; ++j) s.push_back(B.CreatePHI(I32, p->getNumIncomingValues(), "sxphi"));
                Map[p] = s;
            }
        }
        // RPO so that operands are visited before uses (phis excepted).
        ReversePostOrderTraversal<Function*> rpo(&fn);
        std::vector<Instruction*> order;
        std::set<BasicBlock*> seen;
        for (auto* bb : rpo) { seen.insert(bb); for (auto& i : *bb) order.push_back(&i); }
        std::set<Instruction*> orig(work.begin(), work.end());
        for (auto* i : order) if (orig.count(i)) visit(i, DL);

        for (auto* i : work) {
            if (auto* p = dyn_cast<PHINode>(i)) {
                auto it = Map.find(p);
                if (it == Map.end()) continue;
                SV s = it->second;
                for (unsigned j = 0; j < s.size(); ++j) {
                    auto* sp = cast<PHINode>(s[j]);
                    for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                        SV in = get(p->getIncomingValue(k));
                        sp->addIncoming(in[j], p->getIncomingBlock(k));
                    }
                }
            }
        }
    }

    void visit(Instruction* I, const DataLayout& DL)
    {
        if (isa<PHINode>(I) || isa<AllocaInst>(I)) {
            if (auto* a = dyn_cast<AllocaInst>(I)) {
                if (a->isArrayAllocation()) { IRBuilder<> B(I); conc(B, a->getArraySize(), "alloca"); }
            }
            return;
        }
        if (auto* c = dyn_cast<CallBase>(I)) { visitCall(c, DL); return; }
        IRBuilder<> B(I);
        // insertion point after I for value-producing instructions
        auto after = [&]() { B.SetInsertPoint(I->getNextNode()); };

        if (auto* b = dyn_cast<BinaryOperator>(I)) {
            if (!scalar(b->getType())) { concAllOperands(B, I, "wide-binop"); return; }
            Value *sa = get1(b->getOperand(0)), *sb = get1(b->getOperand(1));
            if (isZero(sa) && isZero(sb)) return;
            auto& f = b->getType()->isFloatingPointTy() ? FFBin : FBin;
            Map[I] = {B.CreateCall(f, {c32(b->getOpcode()), c32(width(b->getType())), sa, sb, asI64(B, b->getOperand(0)), asI64(B, b->getOperand(1))})};
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(I)) {   // fneg
            if (!scalar(u->getType())) { concAllOperands(B, I, "wide-fneg"); return; }
            Value* sa = get1(u->getOperand(0));
            if (!isZero(sa)) Map[I] = {B.CreateCall(FUn, {c32(1), c32(width(u->getType())), sa})};
            return;
        }
        if (auto* c = dyn_cast<CmpInst>(I)) {
            Type* t = c->getOperand(0)->getType();
            if (!scalar(t)) { concAllOperands(B, I, "wide-cmp"); return; }
            Value *sa = get1(c->getOperand(0)), *sb = get1(c->getOperand(1));
            if (isZero(sa) && isZero(sb)) return;
            auto& f = isa<FCmpInst>(c) ? FFCmp : FCmp;
            Map[I] = {B.CreateCall(f, {c32(c->getPredicate()), c32(width(t)), sa, sb, asI64(B, c->getOperand(0)), asI64(B, c->getOperand(1))})};
            return;
        }
        if (auto* c = dyn_cast<CastInst>(I)) {
            Type *s = c->getSrcTy(), *d = c->getDestTy();
            if (!scalar(s) || !scalar(d)) { concAllOperands(B, I, "wide-cast"); return; }
            Value* sa = get1(c->getOperand(0));
            if (isZero(sa)) return;
            Map[I] = {B.CreateCall(FCast, {c32(c->getOpcode()), c32(width(s)), c32(width(d)), sa})};
            return;
        }
        if (auto* f = dyn_cast<FreezeInst>(I)) {
            if (count(f->getType())) Map[I] = get(f->getOperand(0));
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(I)) {
            if (!count(s->getType())) { concAllOperands(B, I, "wide-select"); return; }
            if (!s->getCondition()->getType()->isIntegerTy(1)) { concAllOperands(B, I, "vec-select"); return; }
            Value* sc = get1(s->getCondition());
            SV t = get(s->getTrueValue()), f = get(s->getFalseValue()), r;
            bool all0 = isZero(sc);
            for (unsigned j = 0; j < t.size(); ++j) all0 = all0 && isZero(t[j]) && isZero(f[j]);
            if (all0) return;
            if (isZero(sc)) {
                for (unsigned j = 0; j < t.size(); ++j) r.push_back(B.CreateSelect(s->getCondition(), t[j], f[j]));
            }
            else if (scalar(s->getType())) {
                r.push_back(B.CreateCall(FSelect, {sc, s->getCondition(), t[0], f[0], asI64(B, s->getTrueValue()), asI64(B, s->getFalseValue()), c32(width(s->getType()) | (s->getType()->isPointerTy() ? 256 : 0))}));
            }
            else {
                conc(B, s->getCondition(), "agg-select");
                for (unsigned j = 0; j < t.size(); ++j) r.push_back(B.CreateSelect(s->getCondition(), t[j], f[j]));
            }
            Map[I] = r;
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
            if (!g->getType()->isPointerTy()) { concAllOperands(B, I, "vec-gep"); return; }
            Value* sum = get1(g->getPointerOperand());
            bool any = !isZero(sum);
            for (auto& ix : g->indices()) if (!isZero(get1(ix.get()))) any = true;
            if (!any) return;
            Value* cur = B.CreatePtrToInt(g->getPointerOperand(), I64);
            for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                Value* ix = gti.getOperand();
                if (auto* st = gti.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    if (!off) continue;
                    Constant* k = ConstantInt::get(I64, off);
                    sum = B.CreateCall(FBin, {c32(Instruction::Add), c32(64), sum, z32(), cur, k});
                    cur = B.CreateAdd(cur, k);
                    continue;
                }
                uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
                Value* iv = ix->getType()->isIntegerTy(64) ? ix : B.CreateSExtOrTrunc(ix, I64);
                Value* is = get1(ix);
                if (!isZero(is) && !ix->getType()->isIntegerTy(64))
                    is = B.CreateCall(FCast, {c32(Instruction::SExt), c32(width(ix->getType())), c32(64), is});
                Value* k = ConstantInt::get(I64, sz);
                Value* m = B.CreateMul(iv, k);
                if (!isZero(is) && sz != 1)
                    is = B.CreateCall(FBin, {c32(Instruction::Mul), c32(64), is, z32(), iv, k});
                sum = B.CreateCall(FBin, {c32(Instruction::Add), c32(64), sum, is, cur, m});
                cur = B.CreateAdd(cur, m);
            }
            Map[I] = {sum};
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(I)) {
            Type* t = l->getType();
            Value* sa = get1(l->getPointerOperand());
            Value* addr = l->getPointerOperand();
            if (!count(t)) {
                if (!isZero(sa)) conc(B, addr, "load-addr");
                B.CreateCall(FLoadLost, {addr, ConstantInt::get(I64, DL.getTypeStoreSize(t)), fnName(F)});
                return;
            }
            // a load from a constant global with a concrete address needs no shadow
            if (isZero(sa)) {
                auto* base = addr->stripInBoundsOffsets();
                if (auto* g = dyn_cast<GlobalVariable>(base)) if (g->isConstant()) return;
            }
            if (scalar(t)) {
                Map[I] = {B.CreateCall(FLoad, {addr, sa, c32(DL.getTypeStoreSize(t)), c32(width(t))})};
                return;
            }
            if (!isZero(sa)) conc(B, addr, "load-addr");
            std::vector<std::pair<Type*, uint64_t>> el; flatten(t, DL, 0, el);
            SV r;
            for (auto& e : el) {
                if (!scalar(e.first)) continue;
                Value* p = B.CreateConstGEP1_64(I8, addr, e.second);
                r.push_back(B.CreateCall(FLoad, {p, z32(), c32(DL.getTypeStoreSize(e.first)), c32(width(e.first))}));
            }
            Map[I] = r;
            return;
        }
        if (auto* s = dyn_cast<StoreInst>(I)) {
            after();
            Type* t = s->getValueOperand()->getType();
            Value* addr = s->getPointerOperand();
            Value* sa = get1(addr);
            if (!count(t)) {
                if (!isZero(sa)) conc(B, addr, "store-addr");
                B.CreateCall(FClear, {addr, ConstantInt::get(I64, DL.getTypeStoreSize(t))});
                return;
            }
            SV v = get(s->getValueOperand());
            if (scalar(t)) {
                B.CreateCall(FStore, {addr, sa, v[0], c32(DL.getTypeStoreSize(t)), c32(width(t))});
                return;
            }
            if (!isZero(sa)) conc(B, addr, "store-addr");
            std::vector<std::pair<Type*, uint64_t>> el; flatten(t, DL, 0, el);
            unsigned j = 0;
            for (auto& e : el) {
                Value* p = B.CreateConstGEP1_64(I8, addr, e.second);
                if (!scalar(e.first)) { B.CreateCall(FClear, {p, ConstantInt::get(I64, DL.getTypeStoreSize(e.first))}); continue; }
                B.CreateCall(FStore, {p, z32(), v[j++], c32(DL.getTypeStoreSize(e.first)), c32(width(e.first))});
            }
            return;
        }
        if (auto* b = dyn_cast<BranchInst>(I)) {
            if (!b->isConditional()) return;
            Value* sc = get1(b->getCondition());
            if (isZero(sc)) return;
            B.CreateCall(FBr, {sc, b->getCondition(), fnName(F)});
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(I)) {
            Value* sc = get1(s->getCondition());
            if (isZero(sc)) return;
            std::vector<Constant*> cs;
            for (auto& c : s->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
            auto* at = ArrayType::get(I64, cs.size());
            auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "sxcases");
            B.CreateCall(FSwitch, {sc, asI64(B, s->getCondition()), c32(width(s->getCondition()->getType())), c32(cs.size()), g, fnName(F)});
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(I)) {
            Value* v = r->getReturnValue();
            if (!v) return;
            SV s = get(v);
            bool any = false;
            for (auto* x : s) if (!isZero(x)) any = true;
            if (!any || s.size() > 16) return;
            for (unsigned j = 0; j < s.size(); ++j)
                B.CreateStore(s[j], B.CreateConstGEP2_32(GRet->getValueType(), GRet, 0, j));
            B.CreateStore(F, GRetFn);
            return;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(I)) {
            if (!count(e->getType())) return;
            Type* t = e->getAggregateOperand()->getType();
            SV s = get(e->getAggregateOperand());
            unsigned off = 0;
            for (unsigned ix : e->indices()) {
                if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; ++j) off += count(st->getElementType(j)); t = st->getElementType(ix); }
                else { auto* at = cast<ArrayType>(t); off += ix * count(at->getElementType()); t = at->getElementType(); }
            }
            SV r;
            for (unsigned j = 0; j < count(t); ++j) r.push_back(s[off + j]);
            Map[I] = r;
            return;
        }
        if (auto* e = dyn_cast<InsertValueInst>(I)) {
            Type* t = e->getAggregateOperand()->getType();
            SV s = get(e->getAggregateOperand());
            unsigned off = 0;
            for (unsigned ix : e->indices()) {
                if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; ++j) off += count(st->getElementType(j)); t = st->getElementType(ix); }
                else { auto* at = cast<ArrayType>(t); off += ix * count(at->getElementType()); t = at->getElementType(); }
            }
            SV v = get(e->getInsertedValueOperand());
            for (unsigned j = 0; j < v.size(); ++j) s[off + j] = v[j];
            if (count(e->getType())) Map[I] = s;
            return;
        }
        if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
        if (auto* a = dyn_cast<AtomicRMWInst>(I)) {
            concAllOperands(B, I, "atomic");
            after();
            B.CreateCall(FClear, {a->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(a->getValOperand()->getType()))});
            return;
        }
        if (auto* a = dyn_cast<AtomicCmpXchgInst>(I)) {
            concAllOperands(B, I, "atomic");
            after();
            B.CreateCall(FClear, {a->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(a->getNewValOperand()->getType()))});
            return;
        }
        concAllOperands(B, I, I->getOpcodeName());
    }

    void visitCall(CallBase* c, const DataLayout& DL)
    {
        IRBuilder<> B(c);
        auto* callee = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (isa<InlineAsm>(c->getCalledOperand())) return;

        if (auto* mi = dyn_cast<MemTransferInst>(c)) {
            conc(B, mi->getLength(), "memcpy-len"); conc(B, mi->getDest(), "memcpy-dst"); conc(B, mi->getSource(), "memcpy-src");
            // shadow copy has to see the source before a memmove overwrites it: shadows are separate, order is free
            B.CreateCall(FMemcpy, {mi->getDest(), mi->getSource(), B.CreateZExtOrTrunc(mi->getLength(), I64)});
            return;
        }
        if (auto* ms = dyn_cast<MemSetInst>(c)) {
            conc(B, ms->getLength(), "memset-len"); conc(B, ms->getDest(), "memset-dst");
            B.SetInsertPoint(c->getNextNode());
            B.CreateCall(FMemset, {ms->getDest(), get1(ms->getValue()), B.CreateZExtOrTrunc(ms->getLength(), I64)});
            return;
        }
        if (callee && callee->isIntrinsic()) { visitIntrinsic(c, callee->getIntrinsicID(), DL); return; }
        if (callee && callee->getName().starts_with("__sx_")) return;
        if (callee && callee->getName().starts_with("__cxa_")) return;
        if (callee && callee->getName() == "__gxx_personality_v0") return;
        if (c->isMustTailCall()) return;
        if (auto* ci = dyn_cast<CallInst>(c)) ci->setTailCallKind(CallInst::TCK_None);

        Value* fnPtr = c->getCalledOperand();
        if (callee && RedirectSet.count(callee->getName())) {
            auto n = M.getOrInsertFunction(("sxw_" + callee->getName()).str(), callee->getFunctionType());
            // the twins keep the callee's exception behaviour; drop attributes that let LLVM reason about the original
            c->setCalledFunction(n);
            AttributeList al = c->getAttributes();
            c->setAttributes(al.removeFnAttributes(C));
            fnPtr = n.getCallee();
            callee = dyn_cast<Function>(fnPtr);
        }

        // argument shadows
        unsigned total = 0;
        bool any = false;
        for (auto& a : c->args()) { SV s = get(a.get()); total += s.size(); for (auto* x : s) if (!isZero(x)) any = true; }
        bool byval = false;
        for (unsigned i = 0; i < c->arg_size(); ++i) if (c->isByValArgument(i)) byval = true;
        // an indirect callee address must be concrete
        if (!callee) conc(B, fnPtr, "indirect-call");
        bool own = callee && (callee->getName().starts_with("sxw_") || callee->getName().starts_with("sxn_"));
        if ((any || byval || own) && total < 64) {
            unsigned idx = 0, ai = 0;
            for (auto& a : c->args()) {
                SV s = get(a.get());
                for (auto* x : s) B.CreateStore(x, B.CreateConstGEP2_32(GArgs->getValueType(), GArgs, 0, idx++));
                if (c->isByValArgument(ai)) B.CreateStore(a.get(), B.CreateConstGEP2_32(GByval->getValueType(), GByval, 0, ai));
                ++ai;
            }
            B.CreateStore(fnPtr, GCallee);
        }
        else {
            B.CreateStore(Constant::getNullValue(PtrT), GCallee);
        }
        unsigned k = count(c->getType());
        if (k > 16) k = 0;
        if (k) B.CreateStore(Constant::getNullValue(PtrT), GRetFn);

        bool needPost = any && !own && (!callee || callee->isDeclaration());
        if (!k && !needPost) return;

        if (auto* inv = dyn_cast<InvokeInst>(c)) {
            BasicBlock* nd = inv->getNormalDest();
            B.SetInsertPoint(&*nd->getFirstInsertionPt());
        }
        else {
            B.SetInsertPoint(c->getNextNode());
        }
        if (needPost) {
            Constant* nm = callee ? fnNameStr(callee->getName()) : fnNameStr("(indirect)");
            B.CreateCall(FPost, {fnPtr, c32(total), nm});
        }
        if (k) {
            Value* rf = B.CreateLoad(PtrT, GRetFn);
            Value* ok = B.CreateICmpEQ(rf, fnPtr);
            SV r;
            for (unsigned j = 0; j < k; ++j) {
                Value* l = B.CreateLoad(I32, B.CreateConstGEP2_32(GRet->getValueType(), GRet, 0, j));
                r.push_back(B.CreateSelect(ok, l, z32()));
            }
            Map[c] = r;
        }
    }

    std::map<std::string, Constant*> NameStrs;
    Constant* fnNameStr(StringRef n)
    {
        auto& s = NameStrs[n.str()];
        if (!s) {
            auto* d = ConstantDataArray::getString(C, n);
            s = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "sxcn");
        }
        return s;
    }

    void visitIntrinsic(CallBase* c, Intrinsic::ID id, const DataLayout&)
    {
        IRBuilder<> B(c);
        if (id == Intrinsic::lifetime_start) {
            if (auto* sz = dyn_cast<ConstantInt>(c->getArgOperand(0)))
                if (sz->getSExtValue() > 0) B.CreateCall(FClear, {c->getArgOperand(1), sz});
            return;
        }
        bool any = false;
        for (auto& a : c->args()) { if (a->getType()->isMetadataTy()) continue; for (auto* x : get(a.get())) if (!isZero(x)) any = true; }
        if (!any) return;
        auto v = [&](unsigned i) { return c->getArgOperand(i); };
        auto bin = [&](FunctionCallee f, unsigned op) {
            return B.CreateCall(f, {c32(op), c32(width(v(0)->getType())), get1(v(0)), get1(v(1)), asI64(B, v(0)), asI64(B, v(1))});
        };
        bool ok = scalar(v(0)->getType());
        switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start: case Intrinsic::eh_typeid_for:
            return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            Map[c] = get(v(0));
            return;
        case Intrinsic::umin: if (ok) { Map[c] = {bin(FMinMax, 0)}; return; } break;
        case Intrinsic::umax: if (ok) { Map[c] = {bin(FMinMax, 1)}; return; } break;
        case Intrinsic::smin: if (ok) { Map[c] = {bin(FMinMax, 2)}; return; } break;
        case Intrinsic::smax: if (ok) { Map[c] = {bin(FMinMax, 3)}; return; } break;
        case Intrinsic::uadd_sat: if (ok) { Map[c] = {bin(FMinMax, 4)}; return; } break;
        case Intrinsic::usub_sat: if (ok) { Map[c] = {bin(FMinMax, 5)}; return; } break;
        case Intrinsic::abs: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(2), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::fabs: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(3), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::ctpop: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(4), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::bswap: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(5), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::ctlz: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(6), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::cttz: if (ok) { Map[c] = {B.CreateCall(FUn, {c32(7), c32(width(v(0)->getType())), get1(v(0))})}; return; } break;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            if (!ok) break;
            unsigned op = 0, o = 0;
            switch (id) {
            case Intrinsic::uadd_with_overflow: op = Instruction::Add; o = 0; break;
            case Intrinsic::sadd_with_overflow: op = Instruction::Add; o = 1; break;
            case Intrinsic::usub_with_overflow: op = Instruction::Sub; o = 2; break;
            case Intrinsic::ssub_with_overflow: op = Instruction::Sub; o = 3; break;
            case Intrinsic::umul_with_overflow: op = Instruction::Mul; o = 4; break;
            default: op = Instruction::Mul; o = 5; break;
            }
            Value* r = bin(FBin, op);
            Value* q = bin(FOvf, o);
            Map[c] = {r, q};
            return;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
            if (!ok) break;
            if (!isZero(get1(v(2)))) break;
            Map[c] = {B.CreateCall(FFsh, {c32(id == Intrinsic::fshl ? 0 : 1), c32(width(v(0)->getType())), get1(v(0)), get1(v(1)), asI64(B, v(0)), asI64(B, v(1)), asI64(B, v(2))})};
            return;
        default: break;
        }
        concAllOperands(B, c, "intrinsic");
    }
};

// Summarised kernels must survive as calls until SymxPass sees them.
struct SymxEarly : PassInfoMixin<SymxEarly> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        for (auto* r : Redirects)
            if (auto* f = M.getFunction(r)) { f->removeFnAttr(Attribute::AlwaysInline); f->addFnAttr(Attribute::NoInline); }
        return PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};

struct SymxPass : PassInfoMixin<SymxPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        Symx s(M);
        std::vector<Function*> fs;
        for (auto& f : M) {
            if (f.isDeclaration()) continue;
            if (f.getName().starts_with("__sx_") || f.getName().starts_with("sxw_") || f.getName().starts_with("sxn_")) continue;
            if (f.getSection() == "nosymx") continue;
            f.removeFnAttr(Attribute::Memory);
            f.setMemoryEffects(MemoryEffects::unknown());
            fs.push_back(&f);
        }
        for (auto* f : fs) s.runOnFunction(*f);
        // calls were marked memory(none)/readonly by earlier inference: that no longer holds
        for (auto* f : fs)
            for (auto& i : instructions(f))
                if (auto* c = dyn_cast<CallBase>(&i))
                    if (!c->getCalledFunction() || !c->getCalledFunction()->isIntrinsic()) {
                        c->setMemoryEffects(MemoryEffects::unknown());
                    }
        for (auto& f : M) if (f.isDeclaration() && !f.isIntrinsic()) f.setMemoryEffects(MemoryEffects::unknown());
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "Symx", "1", [](PassBuilder& PB) {
        PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymxEarly()); });
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymxPass()); });
    }};
}
