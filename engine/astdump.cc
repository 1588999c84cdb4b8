// astdump: dump the type-resolved AST of every function that is defined in the
// analysed source roots (template instantiations included) as compact JSON.
//
// usage: astdump OUT.json ROOT[:ROOT...] FILE.cc [compiler args...]
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace
{

class Dumper
{
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::map<const Decl *, int> Ids;

    explicit Dumper(ASTContext &c): C(c), SM(c.getSourceManager()),
        PP(c.getLangOpts()), MC(c.createMangleContext())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
    }
    int id(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if(it != Ids.end()) return it->second;
        int n = (int)Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    int line(SourceLocation L)
    {
        return (int)SM.getExpansionLineNumber(L);
    }
    bool inRoots(SourceLocation L)
    {
        auto f = file(L);
        for(auto &r: Roots)
            if(f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string ty(QualType T)
    {
        if(T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string mangle(const FunctionDecl *F)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if(F->isExternC() || !MC->shouldMangleDeclName(F))
        {
            return F->getNameAsString();
        }
        if(auto *K = dyn_cast<CXXConstructorDecl>(F))
            MC->mangleName(GlobalDecl(K, Ctor_Complete), os);
        else if(auto *D = dyn_cast<CXXDestructorDecl>(F))
            MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
        else
            MC->mangleName(GlobalDecl(F), os);
        return os.str();
    }
    std::string qname(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    json::Value nul() { return json::Value(nullptr); }

    json::Value E(const Expr *e0)
    {
        if(!e0) return nul();
        const Expr *e = e0;
        // Strip the nodes that do not carry meaning here
        for(;;)
        {
            if(auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if(auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if(auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if(auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if(auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if(auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if(auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if(auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if(auto *x = dyn_cast<ImplicitCastExpr>(e))
            {
                auto k = x->getCastKind();
                if(k == CK_LValueToRValue || k == CK_NoOp
                        || k == CK_FunctionToPointerDecay
                        || k == CK_ArrayToPointerDecay
                        || k == CK_UncheckedDerivedToBase
                        || k == CK_DerivedToBase
                        || k == CK_ConstructorConversion
                        || k == CK_UserDefinedConversion
                        || k == CK_BitCast)
                    e = x->getSubExpr();
                else break;
            }
            else break;
        }
        json::Object o;
        int ln = line(e->getBeginLoc());
        o["l"] = ln;
        QualType T = e->getType();
        // Compile-time constants
        if(!e->isValueDependent() && !T.isNull() && e->isPRValue()
                && !isa<CXXConstructExpr>(e) && !isa<InitListExpr>(e))
        {
            Expr::EvalResult R;
            if(T->isIntegralOrEnumerationType()
                    && e->EvaluateAsRValue(R, C) && R.Val.isInt()
                    && !R.HasSideEffects)
            {
                o["k"] = "int";
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                long long v = 0;
                if(!StringRef(s).getAsInteger(10, v)) o["v"] = (int64_t)v;
                else o["v"] = s.str().str();
                o["t"] = ty(T);
                const Expr *b = e->IgnoreParenImpCasts();
                if(auto *D = dyn_cast<DeclRefExpr>(b))
                    o["n"] = D->getDecl()->getNameAsString();
                return o;
            }
            if(T->isRealFloatingType() && e->EvaluateAsRValue(R, C)
                    && R.Val.isFloat() && !R.HasSideEffects)
            {
                o["k"] = "flt";
                llvm::SmallString<32> s;
                R.Val.getFloat().toString(s);
                o["v"] = s.str().str();
                o["t"] = ty(T);
                const Expr *b = e->IgnoreParenImpCasts();
                if(auto *D = dyn_cast<DeclRefExpr>(b))
                    o["n"] = D->getDecl()->getNameAsString();
                return o;
            }
        }
        // constexpr variables read through a reference
        if(auto *D = dyn_cast<DeclRefExpr>(e))
        {
            if(auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl()))
            {
                o["k"] = "int";
                o["v"] = (int64_t)EC->getInitVal().getExtValue();
                o["n"] = EC->getNameAsString();
                o["t"] = ty(T);
                return o;
            }
            if(auto *F = dyn_cast<FunctionDecl>(D->getDecl()))
            {
                o["k"] = "fn";
                o["f"] = qname(F);
                o["m"] = mangle(F);
                return o;
            }
            if(auto *V = dyn_cast<VarDecl>(D->getDecl()))
            {
                if((V->isConstexpr() || (V->getType().isConstQualified()
                        && V->hasInit() && V->isUsableInConstantExpressions(C)))
                        && V->evaluateValue())
                {
                    auto *AV = V->evaluateValue();
                    if(AV->isInt())
                    {
                        o["k"] = "int";
                        o["v"] = (int64_t)AV->getInt().getExtValue();
                        o["n"] = V->getNameAsString();
                        o["t"] = ty(T);
                        return o;
                    }
                    if(AV->isFloat())
                    {
                        o["k"] = "flt";
                        llvm::SmallString<32> s;
                        AV->getFloat().toString(s);
                        o["v"] = s.str().str();
                        o["n"] = V->getNameAsString();
                        o["t"] = ty(T);
                        return o;
                    }
                }
                o["k"] = "var";
                o["id"] = id(V);
                o["n"] = V->getNameAsString();
                o["t"] = ty(T);
                if(isa<ParmVarDecl>(V)) o["s"] = "p";
                else if(V->isStaticLocal()) o["s"] = "sl";
                else if(V->hasLocalStorage()) o["s"] = "l";
                else { o["s"] = "g"; o["q"] = qname(V); }
                return o;
            }
            if(auto *B = dyn_cast<BindingDecl>(D->getDecl()))
            {
                o["k"] = "var"; o["id"] = id(B); o["n"] = B->getNameAsString();
                o["t"] = ty(T); o["s"] = "l";
                return o;
            }
            o["k"] = "ref"; o["n"] = D->getDecl()->getNameAsString();
            return o;
        }
        if(auto *x = dyn_cast<ImplicitCastExpr>(e)) return cast(x, o, "ic");
        if(auto *x = dyn_cast<ExplicitCastExpr>(e))
        {
            const char *kind = "cc";
            if(isa<CXXStaticCastExpr>(e)) kind = "sc";
            else if(isa<CXXReinterpretCastExpr>(e)) kind = "rc";
            else if(isa<CXXConstCastExpr>(e)) kind = "kc";
            else if(isa<CXXDynamicCastExpr>(e)) kind = "dc";
            else if(isa<CXXFunctionalCastExpr>(e)) kind = "fc";
            return cast(x, o, kind);
        }
        if(auto *x = dyn_cast<MemberExpr>(e))
        {
            o["k"] = "mem";
            if(auto *V = dyn_cast<VarDecl>(x->getMemberDecl()))
            {
                o["k"] = "var"; o["id"] = id(V); o["n"] = V->getNameAsString();
                o["t"] = ty(T); o["s"] = "g"; o["q"] = qname(V);
                return o;
            }
            o["n"] = x->getMemberDecl()->getNameAsString();
            if(auto *R = dyn_cast<CXXRecordDecl>(x->getMemberDecl()->getDeclContext()))
                o["c"] = R->getNameAsString();
            o["b"] = E(x->getBase());
            if(x->isArrow()) o["ar"] = 1;
            o["t"] = ty(T);
            return o;
        }
        if(isa<CXXThisExpr>(e)) { o["k"] = "this"; o["t"] = ty(T); return o; }
        if(auto *x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto op = x->getOperator();
            const FunctionDecl *F = x->getDirectCallee();
            if(op == OO_Subscript)
            {
                o["k"] = "idx"; o["b"] = E(x->getArg(0)); o["i"] = E(x->getArg(1));
                o["t"] = ty(T); o["bt"] = ty(x->getArg(0)->getType());
                return o;
            }
            if(op == OO_Equal && F && isa<CXXMethodDecl>(F))
            {
                o["k"] = "asg"; o["op"] = "="; o["a"] = E(x->getArg(0));
                o["b"] = E(x->getArg(1)); o["cls"] = 1; o["t"] = ty(T);
                return o;
            }
            if(op == OO_Star || op == OO_Arrow)
            {
                o["k"] = "un"; o["op"] = "*"; o["a"] = E(x->getArg(0));
                o["t"] = ty(T); o["ov"] = 1;
                return o;
            }
            std::string sp = getOperatorSpelling(op);
            if(op == OO_Call)
            {
                o["k"] = "call";
                o["f"] = F ? qname(F) : "";
                if(F) o["m"] = mangle(F);
                o["o"] = E(x->getArg(0));
                json::Array a;
                for(unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
                o["a"] = std::move(a);
                o["t"] = ty(T);
                return o;
            }
            if(x->getNumArgs() == 2)
            {
                bool asg = x->isAssignmentOp();
                o["k"] = asg ? "asg" : "bin"; o["op"] = sp; o["ov"] = 1;
                o["a"] = E(x->getArg(0)); o["b"] = E(x->getArg(1));
                o["t"] = ty(T);
                if(F) o["f"] = qname(F);
                return o;
            }
            if(x->getNumArgs() == 1)
            {
                o["k"] = "un"; o["op"] = sp; o["ov"] = 1; o["a"] = E(x->getArg(0));
                o["t"] = ty(T);
                return o;
            }
        }
        if(auto *x = dyn_cast<CallExpr>(e))
        {
            const FunctionDecl *F = x->getDirectCallee();
            o["k"] = "call";
            if(F)
            {
                o["f"] = qname(F);
                o["m"] = mangle(F);
                o["ft"] = ty(F->getType());
                if(!F->getReturnType()->isVoidType()) o["nv"] = 1;
                json::Array pn;
                for(auto *P: F->parameters())
                    pn.push_back(P->getNameAsString());
                o["pn"] = std::move(pn);
                if(auto *TA = F->getTemplateSpecializationArgs())
                {
                    json::Array ta;
                    for(unsigned i = 0; i < TA->size(); ++i)
                    {
                        std::string s; llvm::raw_string_ostream os(s);
                        TA->get(i).print(PP, os, true);
                        ta.push_back(os.str());
                    }
                    o["ta"] = std::move(ta);
                }
            }
            else { o["f"] = ""; o["ce"] = E(x->getCallee()); }
            if(auto *m = dyn_cast<CXXMemberCallExpr>(x))
            {
                o["o"] = E(m->getImplicitObjectArgument());
                if(auto *RD = m->getRecordDecl()) o["oc"] = RD->getNameAsString();
            }
            json::Array a;
            for(unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
            o["a"] = std::move(a);
            o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<CXXConstructExpr>(e))
        {
            // copy/move construction of the same class is a plain value use
            if(x->getConstructor()->isCopyOrMoveConstructor()
                    && x->getNumArgs() == 1 && !isa<CXXTemporaryObjectExpr>(x))
                return E(x->getArg(0));
            o["k"] = "ctor"; o["c"] = qname(x->getConstructor()->getParent());
            o["m"] = mangle(x->getConstructor());
            if(x->isListInitialization()) o["li"] = 1;
            json::Array a;
            for(unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
            o["a"] = std::move(a);
            json::Array pn;
            for(auto *P: x->getConstructor()->parameters()) pn.push_back(P->getNameAsString());
            o["pn"] = std::move(pn);
            o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
        if(auto *x = dyn_cast<InitListExpr>(e))
        {
            o["k"] = "il";
            json::Array a;
            for(unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(E(x->getInit(i)));
            o["a"] = std::move(a); o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<BinaryOperator>(e))
        {
            o["k"] = x->isAssignmentOp() ? "asg" : "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<UnaryOperator>(e))
        {
            o["k"] = "un";
            std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if(x->isIncrementDecrementOp() && x->isPostfix()) s = "p" + s;
            o["op"] = s; o["a"] = E(x->getSubExpr()); o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["k"] = "idx"; o["b"] = E(x->getBase()); o["i"] = E(x->getIdx());
            o["t"] = ty(T); o["bt"] = ty(x->getBase()->getType());
            return o;
        }
        if(auto *x = dyn_cast<AbstractConditionalOperator>(e))
        {
            o["k"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr());
            o["b"] = E(x->getFalseExpr()); o["t"] = ty(T);
            return o;
        }
        if(auto *x = dyn_cast<CXXThrowExpr>(e))
        {
            o["k"] = "throw"; o["a"] = E(x->getSubExpr());
            return o;
        }
        if(auto *x = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "new"; o["t"] = ty(T);
            json::Array a;
            if(auto *i = x->getInitializer()) a.push_back(E(i));
            o["a"] = std::move(a);
            if(x->isArray()) o["arr"] = 1;
            return o;
        }
        if(auto *x = dyn_cast<CXXDeleteExpr>(e))
        {
            o["k"] = "delete"; o["a"] = E(x->getArgument());
            return o;
        }
        if(auto *x = dyn_cast<clang::StringLiteral>(e))
        {
            o["k"] = "str";
            if(x->getCharByteWidth() == 1)
            {
                std::string s = x->getString().str();
                if(json::isUTF8(s)) o["v"] = s; else o["v"] = "?";
            }
            return o;
        }
        if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if(auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            o["k"] = "sizeof";
            o["of"] = ty(x->getTypeOfArgument());
            return o;
        }
        if(auto *x = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "lambda";
            const CXXMethodDecl *M = x->getCallOperator();
            o["m"] = mangle(M);
            json::Array ps;
            for(auto *P: M->parameters()) ps.push_back(param(P));
            o["ps"] = std::move(ps);
            o["body"] = S(x->getBody());
            json::Array caps;
            for(auto &c: x->captures())
            {
                if(c.capturesVariable())
                {
                    json::Object q;
                    q["id"] = id(c.getCapturedVar());
                    q["ref"] = c.getCaptureKind() == LCK_ByRef;
                    caps.push_back(std::move(q));
                }
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
        {
            o["k"] = "zero"; o["t"] = ty(T);
            return o;
        }
        o["k"] = "?"; o["cls"] = e->getStmtClassName(); o["t"] = ty(T);
        json::Array a;
        for(auto *c: e->children())
            if(auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
        o["a"] = std::move(a);
        return o;
    }
    json::Value cast(const CastExpr *x, json::Object &o, const char *kind)
    {
        o["k"] = "cast"; o["ck"] = kind; o["cn"] = x->getCastKindName();
        o["t"] = ty(x->getType()); o["st"] = ty(x->getSubExpr()->getType());
        o["a"] = E(x->getSubExpr());
        return std::move(o);
    }
    json::Value param(const ParmVarDecl *P)
    {
        json::Object o;
        o["id"] = id(P); o["n"] = P->getNameAsString(); o["t"] = ty(P->getType());
        return o;
    }
    json::Value vardecl(const VarDecl *V)
    {
        json::Object o;
        o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
        o["l"] = line(V->getLocation());
        if(V->isStaticLocal()) o["st"] = 1;
        if(V->isConstexpr()) o["ce"] = 1;
        if(V->getInit()) o["i"] = E(V->getInit());
        return o;
    }
    json::Value S(const Stmt *s)
    {
        if(!s) return nul();
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if(auto *x = dyn_cast<CompoundStmt>(s))
        {
            o["k"] = "block";
            json::Array a;
            for(auto *c: x->body()) a.push_back(S(c));
            o["b"] = std::move(a);
            o["e"] = line(x->getRBracLoc());
            return o;
        }
        if(auto *x = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "decl";
            json::Array a;
            for(auto *d: x->decls())
            {
                if(auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
                if(auto *DD = dyn_cast<DecompositionDecl>(d))
                {
                    json::Array b;
                    for(auto *B: DD->bindings()) b.push_back(id(B));
                    json::Object q; q["bindings"] = std::move(b);
                    a.push_back(std::move(q));
                }
            }
            o["d"] = std::move(a);
            return o;
        }
        if(auto *x = dyn_cast<IfStmt>(s))
        {
            o["k"] = "if";
            if(x->getInit()) o["in"] = S(x->getInit());
            if(x->isConstexpr())
            {
                if(auto v = x->getNondiscardedCase(C))
                {
                    // Only the selected arm exists
                    if(*v) return S(*v);
                    o["k"] = "nop"; return o;
                }
            }
            if(x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
            o["c"] = E(x->getCond()); o["t"] = S(x->getThen());
            if(x->getElse()) o["f"] = S(x->getElse());
            return o;
        }
        if(auto *x = dyn_cast<ForStmt>(s))
        {
            o["k"] = "for";
            o["in"] = S(x->getInit()); o["c"] = E(x->getCond());
            o["s"] = E(x->getInc()); o["b"] = S(x->getBody());
            return o;
        }
        if(auto *x = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "rfor"; o["v"] = vardecl(x->getLoopVariable());
            o["r"] = E(x->getRangeInit()); o["b"] = S(x->getBody());
            return o;
        }
        if(auto *x = dyn_cast<WhileStmt>(s))
        {
            o["k"] = "while"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if(auto *x = dyn_cast<DoStmt>(s))
        {
            o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if(auto *x = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "ret"; if(x->getRetValue()) o["a"] = E(x->getRetValue());
            return o;
        }
        if(isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if(isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
        if(isa<NullStmt>(s)) { o["k"] = "nop"; return o; }
        if(auto *x = dyn_cast<SwitchStmt>(s))
        {
            o["k"] = "switch"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if(auto *x = dyn_cast<CaseStmt>(s))
        {
            o["k"] = "case"; o["v"] = E(x->getLHS()); o["b"] = S(x->getSubStmt());
            return o;
        }
        if(auto *x = dyn_cast<DefaultStmt>(s))
        {
            o["k"] = "default"; o["b"] = S(x->getSubStmt());
            return o;
        }
        if(auto *x = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "try"; o["b"] = S(x->getTryBlock());
            json::Array a;
            for(unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                json::Object h;
                auto *H = x->getHandler(i);
                h["t"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : "...";
                h["b"] = S(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return o;
        }
        if(auto *x = dyn_cast<Expr>(s))
        {
            o["k"] = "expr"; o["e"] = E(x);
            return o;
        }
        if(auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if(auto *x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
        o["k"] = "?"; o["cls"] = s->getStmtClassName();
        return o;
    }
    json::Value F(const FunctionDecl *F)
    {
        json::Object o;
        o["q"] = qname(F); o["m"] = mangle(F); o["n"] = F->getNameAsString();
        o["file"] = file(F->getLocation()); o["l"] = line(F->getLocation());
        o["rt"] = ty(F->getReturnType());
        json::Array ps;
        for(auto *P: F->parameters()) ps.push_back(param(P));
        o["ps"] = std::move(ps);
        if(auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = qname(M->getParent());
            if(M->isStatic()) o["static"] = 1;
            if(auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
            {
                std::string s; llvm::raw_string_ostream os(s);
                S->getNameForDiagnostic(os, PP, true);
                o["clst"] = os.str();
            }
        }
        if(auto *TA = F->getTemplateSpecializationArgs())
        {
            json::Array ta;
            for(unsigned i = 0; i < TA->size(); ++i)
            {
                std::string s; llvm::raw_string_ostream os(s);
                TA->get(i).print(PP, os, true);
                ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
        if(auto *K = dyn_cast<CXXConstructorDecl>(F))
        {
            json::Array is;
            for(auto *I: K->inits())
            {
                json::Object q;
                if(I->isAnyMemberInitializer()) q["f"] = I->getAnyMember()->getNameAsString();
                else if(I->isBaseInitializer()) q["base"] = ty(QualType(I->getBaseClass(), 0));
                q["i"] = E(I->getInit());
                is.push_back(std::move(q));
            }
            o["inits"] = std::move(is);
        }
        if(F->getType()->getAs<FunctionProtoType>())
            o["noexc"] = F->getType()->getAs<FunctionProtoType>()->isNothrow();
        o["body"] = S(F->getBody());
        return o;
    }
};

class V: public RecursiveASTVisitor<V>
{
public:
    Dumper &D;
    json::Array Fs, Rs, Gs;
    std::set<const Decl *> Seen;
    explicit V(Dumper &d): D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseLambdaExpr(LambdaExpr *) { return true; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if(!F->isThisDeclarationADefinition() || !F->doesThisDeclarationHaveABody()) return true;
        if(F->isDependentContext() || F->isDefaulted() || F->isImplicit()) return true;
        if(F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
        if(!D.inRoots(F->getLocation())) return true;
        if(!Seen.insert(F->getCanonicalDecl()).second) return true;
        Fs.push_back(D.F(F));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if(!D.inRoots(R->getLocation())) return true;
        if(!Seen.insert(R).second) return true;
        json::Object o;
        o["q"] = D.qname(R);
        o["t"] = D.ty(D.C.getTypeDeclType(R));
        o["file"] = D.file(R->getLocation()); o["l"] = D.line(R->getLocation());
        json::Array fs, bs;
        for(auto *f: R->fields())
        {
            json::Object q;
            q["n"] = f->getNameAsString(); q["t"] = D.ty(f->getType());
            if(f->hasInClassInitializer()) q["init"] = 1;
            fs.push_back(std::move(q));
        }
        for(auto &b: R->bases()) bs.push_back(D.ty(b.getType()));
        o["fields"] = std::move(fs); o["bases"] = std::move(bs);
        Rs.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *X)
    {
        if(!X->isFileVarDecl() || X->isConstexpr()) return true;
        if(X->getDeclContext()->isDependentContext() || X->getType()->isDependentType()) return true;
        if(!D.inRoots(X->getLocation())) return true;
        json::Object o;
        o["q"] = D.qname(X); o["t"] = D.ty(X->getType());
        o["file"] = D.file(X->getLocation()); o["l"] = D.line(X->getLocation());
        o["def"] = X->isThisDeclarationADefinition() == VarDecl::Definition;
        o["const"] = X->getType().isConstQualified();
        Gs.push_back(std::move(o));
        return true;
    }
};

class Cons: public ASTConsumer
{
    void HandleTranslationUnit(ASTContext &C) override
    {
        if(C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(v.Fs);
        o["records"] = std::move(v.Rs);
        o["globals"] = std::move(v.Gs);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        os << json::Value(std::move(o));
    }
};
class Act: public ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};
}

int main(int c, char **v)
{
    if(c < 4) return 2;
    OutPath = v[1];
    llvm::SmallVector<StringRef, 4> rs;
    StringRef(v[2]).split(rs, ':');
    for(auto r: rs) Roots.push_back(r.str());
    std::vector<std::string> args;
    for(int i = 4; i < c; ++i) args.push_back(v[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool t(db, {v[3]});
    return t.run(tooling::newFrontendActionFactory<Act>().get());
}
