// irdump: link LLVM modules, inline every defined helper into the requested
// entry functions, specialise them on the outcome of comparisons of scalar
// arguments with constants ("scenarios"), and dump the resulting control flow
// with memory accesses in scalar-evolution normal form.  Nothing is executed.
//
// usage: irdump OUT.json SPEC.json FILE.bc...
//   SPEC.json = {"entries": ["mangled", ...], "scenarios": true|false}
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include <map>
#include <set>

using namespace llvm;
namespace J = llvm::json;

// A scalar that comes from the caller: a parameter, or a field of a parameter
struct Scalar
{
    int param = -1;
    int64_t off = -1; // -1: the parameter itself
    bool operator<(const Scalar &o) const
    {
        return std::tie(param, off) < std::tie(o.param, o.off);
    }
};
struct Atom
{
    Scalar s;
    std::string c; // printed constant
    bool operator<(const Atom &o) const { return std::tie(s, c) < std::tie(o.s, o.c); }
};

static const Value *stripCasts(const Value *v)
{
    for(;;)
    {
        if(auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
        else if(auto *f = dyn_cast<FreezeInst>(v)) v = f->getOperand(0);
        else return v;
    }
}
static bool asScalar(const Value *v, const DataLayout &DL, Scalar &s)
{
    v = stripCasts(v);
    if(auto *a = dyn_cast<Argument>(v))
    {
        if(a->getType()->isPointerTy()) return false;
        s.param = a->getArgNo(); s.off = -1;
        return true;
    }
    if(auto *l = dyn_cast<LoadInst>(v))
    {
        int64_t off = 0;
        auto *b = GetPointerBaseWithConstantOffset(l->getPointerOperand(), off, DL);
        if(auto *a = dyn_cast<Argument>(b))
        {
            s.param = a->getArgNo(); s.off = off;
            return true;
        }
    }
    return false;
}
static bool constStr(const Value *v, std::string &out)
{
    v = stripCasts(v);
    if(auto *f = dyn_cast<ConstantFP>(v))
    {
        APFloat x = f->getValueAPF();
        bool li;
        x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        if(x.isZero()) { out = "0"; return true; }
        SmallString<32> s; x.toString(s);
        out = s.str().str();
        if(out == "1.0E+0" || out == "1") out = "1";
        return true;
    }
    if(auto *i = dyn_cast<ConstantInt>(v))
    {
        out = std::to_string(i->getSExtValue());
        return true;
    }
    return false;
}
// 1: equality, -1: inequality, 0: something else
static int eqKind(const CmpInst *c)
{
    switch(c->getPredicate())
    {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::ICMP_EQ: return 1;
        case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: case CmpInst::ICMP_NE: return -1;
        default: return 0;
    }
}
static bool asAtom(const CmpInst *c, const DataLayout &DL, Atom &a)
{
    if(!eqKind(c)) return false;
    if(asScalar(c->getOperand(0), DL, a.s) && constStr(c->getOperand(1), a.c)) return true;
    if(asScalar(c->getOperand(1), DL, a.s) && constStr(c->getOperand(0), a.c)) return true;
    return false;
}

class FnDump
{
public:
    Function &F;
    ScalarEvolution &SE;
    LoopInfo &LI;
    const DataLayout &DL;
    std::map<const BasicBlock *, int> B;
    std::map<const Loop *, int> L;
    //! Loop of the instruction being written: addresses are its operands there
    const Loop *Scope = nullptr;
    std::map<const Value *, int> Vid;

    LazyValueInfo &LVI;

    FnDump(Function &f, ScalarEvolution &se, LoopInfo &li, LazyValueInfo &lvi): F(f), SE(se), LI(li),
        DL(f.getParent()->getDataLayout()), LVI(lvi) {}

    int vid(const Value *v)
    {
        auto it = Vid.find(v);
        if(it != Vid.end()) return it->second;
        int n = Vid.size(); Vid[v] = n; return n;
    }
    std::string tyS(Type *t)
    {
        std::string s; raw_string_ostream os(s); t->print(os); return os.str();
    }
    J::Value loc(const Instruction &I)
    {
        if(DILocation *d = I.getDebugLoc().get())
        {
            return J::Value(d->getFilename().str() + ":" + std::to_string(d->getLine()));
        }
        return J::Value("");
    }
    J::Value Sc(const SCEV *s, int depth = 0)
    {
        J::Object o;
        if(depth > 24) { o["k"] = "deep"; return o; }
        switch(s->getSCEVType())
        {
            case scConstant:
            {
                auto v = cast<SCEVConstant>(s)->getAPInt();
                o["k"] = "c"; o["v"] = (int64_t)v.getSExtValue();
                return o;
            }
            case scAddExpr: case scMulExpr: case scSMaxExpr: case scUMaxExpr:
            case scSMinExpr: case scUMinExpr: case scSequentialUMinExpr:
            {
                const char *n = "?";
                switch(s->getSCEVType())
                {
                    case scAddExpr: n = "+"; break;
                    case scMulExpr: n = "*"; break;
                    case scSMaxExpr: n = "smax"; break;
                    case scUMaxExpr: n = "umax"; break;
                    case scSMinExpr: n = "smin"; break;
                    default: n = "umin"; break;
                }
                o["k"] = n;
                J::Array a;
                for(auto *x: cast<SCEVNAryExpr>(s)->operands()) a.push_back(Sc(x, depth+1));
                o["a"] = std::move(a);
                return o;
            }
            case scAddRecExpr:
            {
                auto *r = cast<SCEVAddRecExpr>(s);
                o["k"] = "rec"; o["loop"] = L.count(r->getLoop()) ? L[r->getLoop()] : -1;
                J::Array a;
                for(auto *x: r->operands()) a.push_back(Sc(x, depth+1));
                o["a"] = std::move(a);
                return o;
            }
            case scUDivExpr:
            {
                o["k"] = "udiv";
                J::Array a;
                a.push_back(Sc(cast<SCEVUDivExpr>(s)->getLHS(), depth+1));
                a.push_back(Sc(cast<SCEVUDivExpr>(s)->getRHS(), depth+1));
                o["a"] = std::move(a);
                return o;
            }
            case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt:
            {
                o["k"] = s->getSCEVType() == scTruncate ? "trunc" :
                    s->getSCEVType() == scZeroExtend ? "zext" :
                    s->getSCEVType() == scSignExtend ? "sext" : "p2i";
                J::Array a; a.push_back(Sc(cast<SCEVCastExpr>(s)->getOperand(), depth+1));
                o["a"] = std::move(a);
                o["w"] = (int64_t)SE.getTypeSizeInBits(s->getType());
                o["fw"] = (int64_t)SE.getTypeSizeInBits(cast<SCEVCastExpr>(s)->getOperand()->getType());
                return o;
            }
            case scUnknown:
                o["k"] = "u"; o["v"] = V(cast<SCEVUnknown>(s)->getValue(), depth+1);
                return o;
            case scCouldNotCompute: o["k"] = "cnc"; return o;
            default: o["k"] = "?"; return o;
        }
    }
    J::Value A(Value *p, int depth)
    {
        J::Object o;
        const SCEV *s = SE.getSCEVAtScope(SE.getSCEV(p), Scope);
        const SCEV *b = SE.getPointerBase(s);
        if(auto *u = dyn_cast<SCEVUnknown>(b))
        {
            o["base"] = V(u->getValue(), depth+1);
            o["off"] = Sc(SE.getMinusSCEV(s, b), depth+1);
        }
        else
        {
            J::Object q; q["k"] = "?";
            o["base"] = std::move(q); o["off"] = Sc(s, depth+1);
        }
        return o;
    }
    J::Value V(const Value *v, int depth = 0)
    {
        J::Object o;
        if(depth > 14 && isa<Instruction>(v)) { o["k"] = "deep"; o["id"] = vid(v); return o; }
        if(auto *a = dyn_cast<Argument>(v))
        {
            o["k"] = "param"; o["i"] = (int64_t)a->getArgNo(); o["n"] = a->getName().str();
            o["t"] = tyS(a->getType());
            return o;
        }
        if(auto *c = dyn_cast<ConstantInt>(v))
        {
            o["k"] = "ci";
            if(c->getBitWidth() <= 64) o["v"] = (int64_t)c->getSExtValue();
            o["w"] = (int64_t)c->getBitWidth();
            return o;
        }
        if(auto *c = dyn_cast<ConstantFP>(v))
        {
            o["k"] = "cf"; std::string s; constStr(c, s); o["v"] = s; return o;
        }
        if(auto *g = dyn_cast<GlobalVariable>(v))
        {
            o["k"] = "global"; o["n"] = demangle(g->getName().str()); o["m"] = g->getName().str();
            o["const"] = g->isConstant();
            if(g->isConstant() && g->hasInitializer())
                if(auto *d = dyn_cast<ConstantDataSequential>(g->getInitializer()))
                    if(d->isCString() && J::isUTF8(d->getAsCString())) o["s"] = d->getAsCString().str();
            return o;
        }
        if(auto *f = dyn_cast<Function>(v)) { o["k"] = "fn"; o["m"] = f->getName().str(); return o; }
        if(isa<ConstantPointerNull>(v)) { o["k"] = "null"; return o; }
        if(isa<UndefValue>(v)) { o["k"] = "undef"; return o; }
        if(auto *ce = dyn_cast<ConstantExpr>(v))
        {
            int64_t off = 0;
            auto *b = GetPointerBaseWithConstantOffset(const_cast<ConstantExpr *>(ce), off, DL);
            if(b != v && ce->getType()->isPointerTy())
            {
                o["k"] = "gep"; o["a"] = V(b, depth+1); o["off"] = off; return o;
            }
            o["k"] = "cexpr"; o["id"] = vid(v); return o;
        }
        auto *I = dyn_cast<Instruction>(v);
        if(!I) { o["k"] = "?"; o["id"] = vid(v); return o; }
        o["id"] = vid(v);
        if(auto *x = dyn_cast<LoadInst>(I))
        {
            o["k"] = "load"; o["t"] = tyS(x->getType());
            o["sz"] = (int64_t)DL.getTypeStoreSize(x->getType());
            auto *old = Scope;
            Scope = LI.getLoopFor(x->getParent());
            o["p"] = A(const_cast<Value *>(x->getPointerOperand()), depth+1);
            Scope = old;
            return o;
        }
        if(auto *x = dyn_cast<AllocaInst>(I))
        {
            o["k"] = "alloca"; o["t"] = tyS(x->getAllocatedType()); o["n"] = x->getName().str();
            if(auto s = x->getAllocationSize(DL)) o["sz"] = (int64_t)s->getFixedValue();
            return o;
        }
        if(auto *x = dyn_cast<CastInst>(I))
        {
            o["k"] = "cast"; o["op"] = x->getOpcodeName(); o["a"] = V(x->getOperand(0), depth+1);
            o["t"] = tyS(x->getType()); o["st"] = tyS(x->getOperand(0)->getType());
            return o;
        }
        if(auto *x = dyn_cast<PHINode>(I))
        {
            o["k"] = "phi"; o["n"] = x->getName().str();
            J::Array a;
            for(unsigned i = 0; i < x->getNumIncomingValues(); ++i)
            {
                J::Object q;
                q["b"] = B[x->getIncomingBlock(i)];
                auto *iv = x->getIncomingValue(i);
                if(isa<PHINode>(iv) && depth > 6) { J::Object z; z["k"] = "deep"; z["id"] = vid(iv); q["v"] = std::move(z); }
                else q["v"] = V(iv, depth+3);
                a.push_back(std::move(q));
            }
            o["in"] = std::move(a); o["blk"] = B[x->getParent()];
            return o;
        }
        if(auto *x = dyn_cast<CmpInst>(I))
        {
            o["k"] = "cmp"; o["p"] = CmpInst::getPredicateName(x->getPredicate()).str();
            o["a"] = V(x->getOperand(0), depth+1); o["b"] = V(x->getOperand(1), depth+1);
            return o;
        }
        if(auto *x = dyn_cast<CallBase>(I))
        {
            o["k"] = "call";
            if(auto *f = x->getCalledFunction()) { o["m"] = f->getName().str(); }
            J::Array a;
            for(auto &y: x->args()) a.push_back(V(y.get(), depth+2));
            o["a"] = std::move(a);
            return o;
        }
        if(auto *x = dyn_cast<GetElementPtrInst>(I))
        {
            J::Value r = A(const_cast<GetElementPtrInst *>(x), depth+1);
            o["k"] = "ptr"; o["p"] = std::move(r);
            return o;
        }
        o["k"] = "op"; o["op"] = I->getOpcodeName();
        o["t"] = tyS(I->getType());
        J::Array a;
        for(auto &y: I->operands()) a.push_back(V(y.get(), depth+1));
        o["a"] = std::move(a);
        return o;
    }
    // Dependence roots of a value: which loads and parameters it is computed from
    J::Value dump()
    {
        int n = 0;
        for(auto &b: F) B[&b] = n++;
        n = 0;
        auto pre = LI.getLoopsInPreorder();
        for(auto *l: pre) L[l] = n++;
        J::Object o;
        J::Array la;
        for(auto *l: pre)
        {
            J::Object q;
            q["id"] = L[l];
            q["parent"] = l->getParentLoop() ? L[l->getParentLoop()] : -1;
            q["header"] = B[l->getHeader()];
            if(auto *lt = l->getLoopLatch()) q["latch"] = B[lt];
            if(auto *p = l->getLoopPreheader()) q["pre"] = B[p];
            J::Array bs, ex;
            for(auto *b: l->blocks()) bs.push_back(B[b]);
            SmallVector<BasicBlock *, 4> eb; l->getExitingBlocks(eb);
            for(auto *b: eb) ex.push_back(B[b]);
            q["blocks"] = std::move(bs); q["exiting"] = std::move(ex);
            q["btc"] = Sc(SE.getBackedgeTakenCount(l));
            J::Object ec;
            for(auto *b: eb) ec[std::to_string(B[b])] = Sc(SE.getExitCount(l, b));
            q["ec"] = std::move(ec);
            for(auto &I: *l->getHeader()) if(I.getDebugLoc()) { q["loc"] = loc(I); break; }
            la.push_back(std::move(q));
        }
        o["loops"] = std::move(la);
        // every value once, operands by reference
        J::Object df;
        for(auto &b: F)
            for(auto &I: b)
            {
                if(I.getType()->isVoidTy() || isa<DbgInfoIntrinsic>(I)) continue;
                auto v = V(&I, 14);
                if(auto *vo = v.getAsObject()) (*vo)["bb"] = B[&b];
                df[std::to_string(vid(&I))] = std::move(v);
            }
        o["defs"] = std::move(df);
        J::Array bl;
        for(auto &b: F)
        {
            J::Object q;
            q["id"] = B[&b];
            J::Array su;
            for(auto *s: successors(&b)) su.push_back(B[s]);
            q["succ"] = std::move(su);
            Scope = LI.getLoopFor(&b);
            q["loop"] = Scope ? L[Scope] : -1;
            J::Array is;
            for(auto &I: b)
            {
                if(isa<DbgInfoIntrinsic>(I)) continue;
                J::Object i;
                if(auto *x = dyn_cast<LoadInst>(&I))
                {
                    i["k"] = "load"; i["sz"] = (int64_t)DL.getTypeStoreSize(x->getType());
                    i["t"] = tyS(x->getType());
                    i["p"] = A(x->getPointerOperand(), 0);
                    i["id"] = vid(x);
                    i["used"] = !x->use_empty();
                }
                else if(auto *x = dyn_cast<StoreInst>(&I))
                {
                    i["k"] = "store"; i["sz"] = (int64_t)DL.getTypeStoreSize(x->getValueOperand()->getType());
                    i["t"] = tyS(x->getValueOperand()->getType());
                    i["p"] = A(x->getPointerOperand(), 0);
                    i["v"] = V(x->getValueOperand(), 6);
                }
                else if(auto *x = dyn_cast<CallBase>(&I))
                {
                    if(auto *ii = dyn_cast<IntrinsicInst>(x))
                    {
                        auto id = ii->getIntrinsicID();
                        if(id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end
                                || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl)
                            continue;
                    }
                    i["k"] = isa<InvokeInst>(x) ? "invoke" : "call";
                    i["id"] = vid(x);
                    if(auto *f = dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts()))
                    {
                        i["m"] = f->getName().str(); i["f"] = demangle(f->getName().str());
                        i["intr"] = f->isIntrinsic();
                        i["ro"] = x->onlyReadsMemory(); i["rn"] = x->doesNotAccessMemory();
                    }
                    else i["ce"] = V(x->getCalledOperand(), 2);
                    if(auto *f = dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts()))
                        if(!f->isDeclaration())
                        {
                            J::Array an;
                            for(auto &y: f->args()) an.push_back(y.getName().str());
                            i["an"] = std::move(an);
                        }
                    J::Array a, p;
                    for(auto &y: x->args())
                    {
                        a.push_back(V(y.get(), 2));
                        if(y->getType()->isPointerTy()) p.push_back(A(y.get(), 2));
                        else if(SE.isSCEVable(y->getType())) p.push_back(Sc(SE.getSCEVAtScope(y.get(), Scope), 2));
                        else p.push_back(nullptr);
                    }
                    i["a"] = std::move(a); i["s"] = std::move(p);
                    if(auto *f = x->getCalledFunction())
                        if(f->getName().contains("task_insert") || f->getName().contains("insert_task"))
                        {
                            // value ranges of the integer parameters at this point
                            J::Object pr;
                            for(auto &g: F.args())
                                if(g.getType()->isIntegerTy(64))
                                {
                                    auto cr = LVI.getConstantRange(&g, &I, false);
                                    J::Array q; q.push_back(cr.getSignedMin().getSExtValue());
                                    q.push_back(cr.getSignedMax().getSExtValue());
                                    pr[std::to_string(g.getArgNo())] = std::move(q);
                                }
                            i["pr"] = std::move(pr);
                        }
                    i["used"] = !x->use_empty();
                    i["t"] = tyS(x->getType());
                }
                else if(auto *x = dyn_cast<BranchInst>(&I))
                {
                    i["k"] = "br";
                    if(x->isConditional()) i["c"] = V(x->getCondition(), 4);
                }
                else if(isa<SwitchInst>(&I)) { i["k"] = "switch"; i["c"] = V(I.getOperand(0), 4); }
                else if(auto *x = dyn_cast<ReturnInst>(&I))
                {
                    i["k"] = "ret"; if(x->getReturnValue()) i["v"] = V(x->getReturnValue(), 2);
                }
                else if(isa<UnreachableInst>(&I)) i["k"] = "unreachable";
                else if(isa<ResumeInst>(&I)) i["k"] = "resume";
                else if(isa<FPTruncInst>(&I))
                {
                    i["k"] = "fptrunc"; i["st"] = tyS(I.getOperand(0)->getType()); i["t"] = tyS(I.getType());
                    i["v"] = V(I.getOperand(0), 6);
                }
                else if(isa<FPExtInst>(&I) || isa<FPToSIInst>(&I) || isa<FPToUIInst>(&I))
                {
                    i["k"] = isa<FPExtInst>(&I) ? "fpext" : "fptoint";
                    i["st"] = tyS(I.getOperand(0)->getType()); i["t"] = tyS(I.getType());
                    i["v"] = V(I.getOperand(0), 6);
                }
                else if(isa<TruncInst>(&I))
                {
                    auto cr = LVI.getConstantRange(I.getOperand(0), &I, false);
                    auto need = ConstantRange(APInt::getSignedMinValue(I.getType()->getIntegerBitWidth()).sext(cr.getBitWidth()),
                            APInt::getSignedMaxValue(I.getType()->getIntegerBitWidth()).sext(cr.getBitWidth()) + 1);
                    i["fits"] = need.contains(cr);
                    i["k"] = "trunc"; i["st"] = tyS(I.getOperand(0)->getType()); i["t"] = tyS(I.getType());
                    i["v"] = V(I.getOperand(0), 6); i["id"] = vid(&I);
                }
                else if(isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I))
                {
                    i["k"] = "atomic"; i["p"] = A(I.getOperand(0), 0);
                }
                else continue;
                i["loc"] = loc(I);
                is.push_back(std::move(i));
            }
            q["is"] = std::move(is);
            bl.push_back(std::move(q));
        }
        o["blocks"] = std::move(bl);
        J::Array ps;
        for(auto &a: F.args())
        {
            J::Object q; q["n"] = a.getName().str(); q["t"] = tyS(a.getType());
            ps.push_back(std::move(q));
        }
        o["params"] = std::move(ps);
        return o;
    }
};

// The argument block of a task is immutable while the task runs: read each of
// its fields once, at entry, so that loop bounds taken from it are invariant
static void hoistArgs(Function &F, const DataLayout &DL)
{
    if(F.arg_size() != 2 || !F.getReturnType()->isVoidTy()) return;
    Argument *A = F.getArg(1);
    if(!A->getType()->isPointerTy() || !F.getArg(0)->getType()->isPointerTy()) return;
    std::map<std::pair<int64_t, Type *>, Value *> have;
    std::vector<LoadInst *> loads;
    for(auto &I: instructions(F))
        if(auto *l = dyn_cast<LoadInst>(&I)) if(!l->isVolatile()) loads.push_back(l);
    for(auto *l: loads)
    {
        APInt off(64, 0);
        const Value *b = l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
        if(b != A) continue;
        auto key = std::make_pair(off.getSExtValue(), l->getType());
        auto it = have.find(key);
        if(it == have.end())
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            Value *p = B.CreateConstGEP1_64(B.getInt8Ty(), A, key.first);
            auto *n = B.CreateAlignedLoad(l->getType(), p, l->getAlign());
            n->setDebugLoc(l->getDebugLoc());
            it = have.emplace(key, n).first;
        }
        l->replaceAllUsesWith(it->second);
        l->eraseFromParent();
    }
}

int main(int argc, char **argv)
{
    if(argc < 4) return 2;
    auto mb = MemoryBuffer::getFile(argv[2]);
    if(!mb) { errs() << "cannot read spec\n"; return 2; }
    auto spec = J::parse((*mb)->getBuffer());
    if(!spec) { errs() << "bad spec\n"; return 2; }
    std::set<std::string> entries;
    for(auto &x: *spec->getAsObject()->getArray("entries")) entries.insert(x.getAsString()->str());
    bool scen = spec->getAsObject()->getBoolean("scenarios").value_or(true);

    // functions that stay calls (prefixes of qualified names)
    std::vector<std::string> keep;
    if(auto *k = spec->getAsObject()->getArray("keep"))
        for(auto &x: *k) keep.push_back(x.getAsString()->str());
    auto kept = [&](const Function &f)
    {
        if(keep.empty()) return false;
        std::string d = demangle(f.getName().str());
        for(auto &k: keep)
        {
            // the return type of template instances is part of the name
            auto p = d.find(k);
            if(p != std::string::npos && d.find('(') > p && d.substr(0, p).find('<') == std::string::npos) return true;
        }
        return false;
    };
    LLVMContext C;
    std::unique_ptr<Module> M;
    for(int i = 3; i < argc; ++i)
    {
        SMDiagnostic e;
        auto m = parseIRFile(argv[i], e, C);
        if(!m) { errs() << "cannot parse " << argv[i] << "\n"; return 2; }
        if(!M) M = std::move(m);
        else if(Linker::linkModules(*M, std::move(m))) return 2;
    }
    J::Object out;
    for(auto &F: *M)
    {
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        if(F.isDeclaration()) continue;
        if(entries.count(F.getName().str()))
        {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
            F.setLinkage(GlobalValue::ExternalLinkage);
        }
        else if(kept(F)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
        else F.addFnAttr(Attribute::AlwaysInline);
    }
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    {
        ModulePassManager mpm;
        mpm.addPass(AlwaysInlinerPass(false));
        mpm.run(*M, MAM);
    }
    auto clean = [&](Function &F, bool full)
    {
        // exceptions that end the program are not an exit of a loop
        std::vector<InvokeInst *> inv;
        for(auto &I: instructions(F))
            if(auto *x = dyn_cast<InvokeInst>(&I))
                if(isa<UnreachableInst>(x->getUnwindDest()->getTerminator()))
                    for(auto &y: *x->getUnwindDest())
                        if(auto *c = dyn_cast<CallInst>(&y))
                            if(auto *f = c->getCalledFunction())
                                if(f->getName() == "_ZSt9terminatev" || f->getName() == "__clang_call_terminate")
                                { inv.push_back(x); break; }
        for(auto *x: inv) changeToCall(x);
        if(inv.size()) removeUnreachableBlocks(F);
        FAM.clear();
        FunctionPassManager p;
        p.addPass(SROAPass(SROAOptions::ModifyCFG));
        p.addPass(EarlyCSEPass(true));
        if(full)
        {
            p.addPass(SCCPPass());
            p.addPass(SimplifyCFGPass());
            p.addPass(EarlyCSEPass(true));
            p.addPass(InstCombinePass());
            p.addPass(SimplifyCFGPass());
            p.addPass(ADCEPass());
            p.addPass(LoopSimplifyPass());
            // loops over a few fixed things (a list of fields, of codelets)
            p.addPass(createFunctionToLoopPassAdaptor(LoopFullUnrollPass(3)));
            p.addPass(SROAPass(SROAOptions::ModifyCFG));
            p.addPass(EarlyCSEPass(true));
            p.addPass(SCCPPass());
            p.addPass(InstCombinePass());
            p.addPass(SimplifyCFGPass());
            p.addPass(ADCEPass());
            p.addPass(LoopSimplifyPass());
        }
        p.run(F, FAM);
    };
    auto dumpFn = [&](Function &F)
    {
        FAM.clear();
        auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
        auto &LI = FAM.getResult<LoopAnalysis>(F);
        auto &LVI = FAM.getResult<LazyValueAnalysis>(F);
        FnDump d(F, SE, LI, LVI);
        return d.dump();
    };
    const DataLayout &DL = M->getDataLayout();
    std::vector<Function *> todo;
    for(auto &F: *M) if(!F.isDeclaration() && entries.count(F.getName().str())) todo.push_back(&F);
    // Task insertion whose access modes or codelet stay open: the same function
    // with values for all scalars it compares or computes with
    auto inserts = [&](Function &F)
    {
        for(auto &I: instructions(F))
            if(auto *c = dyn_cast<CallBase>(&I))
                if(auto *f = c->getCalledFunction())
                    if(f->getName().contains("task_insert") || f->getName().contains("insert_task")
                            || f->getName().contains("task_build")) return true;
        return false;
    };
    auto unresolved = [&](Function &F)
    {
        for(auto &I: instructions(F))
            if(auto *c = dyn_cast<CallBase>(&I))
                if(auto *f = c->getCalledFunction())
                    if(f->getName().contains("task_insert") || f->getName().contains("insert_task")
                            || f->getName().contains("task_build"))
                    {
                        if(!isa<Constant>(c->getArgOperand(0))) return true;
                        for(unsigned i = 1; i < c->arg_size(); ++i)
                            if(c->getArgOperand(i)->getType()->isIntegerTy(32)
                                    && !isa<Constant>(c->getArgOperand(i)) && !isa<Argument>(c->getArgOperand(i)))
                                return true;
                    }
        return false;
    };
    auto witness = [&](Function &F, std::map<Scalar, std::string> &val, J::Array &lab0, J::Array &ss)
    {
        std::vector<std::pair<unsigned, std::vector<int>>> free;
        size_t prod = 1;
        for(auto &a: F.args())
        {
            bool fp = a.getType()->isFloatTy() || a.getType()->isDoubleTy();
            bool in = a.getType()->isIntegerTy(32) || a.getType()->isIntegerTy(8) || a.getType()->isIntegerTy(1);
            if(!fp && !in) continue;
            Scalar s; s.param = a.getArgNo(); s.off = -1;
            std::vector<int> vs;
            auto it = val.find(s);
            int64_t x;
            if(it == val.end()) { if(!fp) continue; vs = {2, 0, 1, -1}; }
            else if(it->second == "*") vs = {3};
            else if(!StringRef(it->second).getAsInteger(10, x)) vs = {int(x)};
            else continue;
            if(prod * vs.size() > 64) continue;
            prod *= vs.size();
            free.push_back({a.getArgNo(), vs});
        }
        for(size_t k = 0; k < prod; ++k)
        {
            size_t r = k;
            ValueToValueMapTy vm;
            Function *G = CloneFunction(&F, vm);
            J::Array lab(lab0);
            for(auto &d: free)
            {
                int v = d.second[r % d.second.size()];
                r /= d.second.size();
                Argument *a = G->getArg(d.first);
                Constant *c = a->getType()->isFloatingPointTy() ? ConstantFP::get(a->getType(), v)
                    : (Constant *)ConstantInt::getSigned(a->getType(), v);
                // the value stored in the argument block stays the argument
                for(auto &u: make_early_inc_range(a->uses()))
                    if(!isa<StoreInst>(u.getUser())) u.set(c);
                Scalar s; s.param = d.first; s.off = -1;
                if(val.count(s)) continue;
                J::Object q;
                q["param"] = d.first; q["off"] = -1; q["v"] = std::to_string(v);
                lab.push_back(std::move(q));
            }
            clean(*G, true);
            if(!unresolved(*G))
            {
                J::Object so;
                so["facts"] = std::move(lab);
                so["witness"] = true;
                so["fn"] = dumpFn(*G);
                ss.push_back(std::move(so));
            }
            FAM.clear();
            G->eraseFromParent();
        }
    };
    for(auto *F: todo)
    {
        clean(*F, false);
        hoistArgs(*F, DL);
        std::map<Scalar, std::set<std::string>> cs;
        if(scen)
            for(auto &I: instructions(*F))
                if(auto *c = dyn_cast<CmpInst>(&I))
                {
                    Atom a;
                    if(asAtom(c, DL, a)) cs[a.s].insert(a.c);
                }
                else if(auto *w = dyn_cast<SwitchInst>(&I))
                {
                    Scalar sc;
                    if(w->getNumCases() <= 8 && asScalar(w->getCondition(), DL, sc))
                        for(auto &k: w->cases())
                            cs[sc].insert(std::to_string(k.getCaseValue()->getSExtValue()));
                }
        // scalars only ever compared as loop bounds make poor scenarios: cap the product
        std::vector<std::pair<Scalar, std::vector<std::string>>> dims;
        size_t prod = 1;
        for(auto &kv: cs)
        {
            std::vector<std::string> vs(kv.second.begin(), kv.second.end());
            vs.push_back("*");
            if(prod * vs.size() > 128) continue;
            prod *= vs.size();
            dims.push_back({kv.first, vs});
        }
        J::Object fo;
        fo["name"] = demangle(F->getName().str());
        J::Array ss;
        for(size_t k = 0; k < prod; ++k)
        {
            size_t r = k;
            std::map<Scalar, std::string> val;
            J::Array lab;
            for(auto &d: dims)
            {
                auto &v = d.second[r % d.second.size()];
                r /= d.second.size();
                val[d.first] = v;
                J::Object q;
                q["param"] = d.first.param; q["off"] = d.first.off; q["v"] = v;
                lab.push_back(std::move(q));
            }
            ValueToValueMapTy vm;
            Function *G = CloneFunction(F, vm);
            for(auto &I: make_early_inc_range(instructions(*G)))
                if(auto *c = dyn_cast<CmpInst>(&I))
                {
                    Atom a;
                    if(!asAtom(c, DL, a)) continue;
                    auto it = val.find(a.s);
                    if(it == val.end()) continue;
                    bool eq = it->second == a.c;
                    bool t = eqKind(c) > 0 ? eq : !eq;
                    c->replaceAllUsesWith(ConstantInt::getBool(C, t));
                }
                else if(auto *w = dyn_cast<SwitchInst>(&I))
                {
                    Scalar sc;
                    if(w->getNumCases() > 8 || !asScalar(w->getCondition(), DL, sc)) continue;
                    auto it = val.find(sc);
                    if(it == val.end()) continue;
                    auto *ty = cast<IntegerType>(w->getCondition()->getType());
                    int64_t v = 0;
                    if(it->second == "*")
                        for(auto &k: w->cases()) v = std::max(v, k.getCaseValue()->getSExtValue() + 1);
                    else if(StringRef(it->second).getAsInteger(10, v)) continue;
                    w->setCondition(ConstantInt::getSigned(ty, v));
                }
            Function *B = nullptr;
            if(scen && inserts(*G)) { ValueToValueMapTy bm; B = CloneFunction(G, bm); }
            clean(*G, true);
            bool open = unresolved(*G);
            J::Array lab0(lab);
            J::Object so;
            so["facts"] = std::move(lab);
            so["fn"] = dumpFn(*G);
            ss.push_back(std::move(so));
            FAM.clear();
            G->eraseFromParent();
            if(!B) continue;
            if(open) witness(*B, val, lab0, ss);
            FAM.clear();
            B->eraseFromParent();
        }
        fo["scenarios"] = std::move(ss);
        out[F->getName().str()] = std::move(fo);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[1], ec);
    os << J::Value(std::move(out));
    return 0;
}
