// gfexport: clang plugin that writes, as JSON, the *instantiated* bodies of all functions reachable from the
// functions in namespace `gfv` (the verification drivers), as far as they belong to the code under verification
// (namespace GooseFEM) or to the driver.  Functions of other namespaces (xt, std, Eigen, ...) are referenced by name only:
// they are the trusted library boundary.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendPluginRegistry.h>
#include <map>
#include <set>
#include <deque>
using namespace clang;
using llvm::raw_ostream;
namespace {

std::string esc(llvm::StringRef s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}

class Exporter {
public:
    Exporter(ASTContext& C, raw_ostream& O) : Ctx(C), O(O), PP(C.getPrintingPolicy()) {}

    void run()
    {
        collect(Ctx.getTranslationUnitDecl());
        O << "{\"entries\":[";
        for (size_t i = 0; i < entries.size(); ++i) {
            if (i) O << ",";
            O << fid(entries[i]);
        }
        O << "],\"functions\":[\n";
        bool first = true;
        while (!work.empty()) {
            const FunctionDecl* F = work.front();
            work.pop_front();
            if (!first) O << ",\n";
            first = false;
            emitFunction(F);
        }
        O << "\n],\"records\":[\n";
        first = true;
        for (size_t i = 0; i < recs.size(); ++i) {
            if (!first) O << ",\n";
            first = false;
            emitRecord(recs[i]);
        }
        O << "\n]}\n";
    }

private:
    ASTContext& Ctx;
    raw_ostream& O;
    PrintingPolicy PP;
    std::vector<const FunctionDecl*> entries;
    std::deque<const FunctionDecl*> work;
    std::map<const FunctionDecl*, int> fids;
    std::map<const Decl*, int> dids;
    std::map<const CXXRecordDecl*, int> rids;
    std::vector<const CXXRecordDecl*> recs;

    void collect(const DeclContext* DC)
    {
        for (const Decl* D : DC->decls()) {
            if (auto* N = dyn_cast<NamespaceDecl>(D)) {
                if (N->getName().starts_with("gfv")) {
                    for (const Decl* E : N->decls()) {
                        if (auto* F = dyn_cast<FunctionDecl>(E))
                            if (F->isThisDeclarationADefinition()) entries.push_back(F);
                    }
                }
            }
            else if (auto* L = dyn_cast<LinkageSpecDecl>(D)) collect(L);
        }
    }

    static std::string rootNs(const Decl* D)
    {
        const DeclContext* DC = D->getDeclContext();
        std::string r;
        while (DC && !DC->isTranslationUnit()) {
            if (auto* N = dyn_cast<NamespaceDecl>(DC)) r = N->getNameAsString();
            DC = DC->getParent();
        }
        return r;
    }

    bool ours(const Decl* D)
    {
        std::string n = rootNs(D);
        return n == "GooseFEM" || n.rfind("gfv", 0) == 0;
    }

    int did(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = dids.find(D);
        if (it != dids.end()) return it->second;
        int n = dids.size() + 1;
        dids[D] = n;
        return n;
    }

    const FunctionDecl* definition(const FunctionDecl* F)
    {
        const FunctionDecl* Def = nullptr;
        if (F->hasBody(Def)) return Def;
        return nullptr;
    }

    int fid(const FunctionDecl* F)
    {
        const FunctionDecl* Def = definition(F);
        if (!Def) return -1;
        auto it = fids.find(Def);
        if (it != fids.end()) return it->second;
        int n = fids.size() + 1;
        fids[Def] = n;
        work.push_back(Def);
        return n;
    }

    int rid(const CXXRecordDecl* R)
    {
        if (R->getDefinition()) R = R->getDefinition();
        R = cast<CXXRecordDecl>(R->getCanonicalDecl());
        auto it = rids.find(R);
        if (it != rids.end()) return it->second;
        int n = rids.size() + 1;
        rids[R] = n;
        recs.push_back(R);
        return n;
    }

    std::string targ(const TemplateArgument& A, int depth)
    {
        switch (A.getKind()) {
        case TemplateArgument::Type:
            return depth > 0 ? ty(A.getAsType(), depth - 1) : std::string("_");
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            A.getAsIntegral().toString(s, 10);
            return std::string(s.str());
        }
        case TemplateArgument::Pack: {
            std::string r;
            bool f = true;
            for (auto& P : A.pack_elements()) {
                if (!f) r += ",";
                f = false;
                r += targ(P, depth);
            }
            return r;
        }
        default:
            return "?";
        }
    }

    std::string ty(QualType T, int depth = 3)
    {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        if (T->isReferenceType()) return "&" + ty(T.getNonReferenceType(), depth);
        if (T->isPointerType()) return "*" + ty(T->getPointeeType(), depth);
        T = T.getUnqualifiedType();
        if (auto* B = T->getAs<BuiltinType>()) {
            if (B->getKind() == BuiltinType::Bool) return "b";
            if (B->isFloatingPoint()) return B->getKind() == BuiltinType::Double ? "f64" : "f32";
            if (B->isInteger()) return (B->isSignedInteger() ? "i" : "u") + std::to_string(Ctx.getTypeSize(T));
            if (B->isVoidType()) return "v";
            return "builtin";
        }
        if (auto* E = T->getAs<EnumType>()) return "enum:" + E->getDecl()->getQualifiedNameAsString();
        if (auto* A = dyn_cast<ConstantArrayType>(T.getTypePtr()))
            return "[" + std::to_string(A->getSize().getZExtValue()) + "]" + ty(A->getElementType(), depth);
        if (auto* R = T->getAsCXXRecordDecl()) {
            if (ours(R) || R->isLambda()) return "R" + std::to_string(rid(R));
            std::string q = R->getQualifiedNameAsString();
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                static const std::set<std::string> show = {
                    "std::array", "std::vector", "xt::xtensor_container", "xt::xarray_container", "xt::xfixed_container",
                    "xt::fixed_shape", "Eigen::Matrix", "Eigen::SparseMatrix", "Eigen::Triplet", "std::integral_constant",
                    "std::initializer_list", "xt::uvector", "xt::svector", "std::pair", "std::tuple", "xt::xtensor_adaptor", "xt::xbuffer_adaptor", "xt::xarray_adaptor", "xt::const_array"};
                if (show.count(q) && depth > 0) {
                    q += "<";
                    bool f = true;
                    for (auto& A : S->getTemplateArgs().asArray()) {
                        if (!f) q += ",";
                        f = false;
                        q += targ(A, depth);
                    }
                    q += ">";
                }
            }
            return q;
        }
        return "?";
    }

    std::string targs(const FunctionDecl* F)
    {
        std::string r = "[";
        if (auto* A = F->getTemplateSpecializationArgs()) {
            bool f = true;
            for (auto& X : A->asArray()) {
                if (!f) r += ",";
                f = false;
                r += esc(targ(X, 3));
            }
        }
        return r + "]";
    }

    void loc(SourceLocation L)
    {
        PresumedLoc P = Ctx.getSourceManager().getPresumedLoc(Ctx.getSourceManager().getExpansionLoc(L));
        if (P.isInvalid()) { O << "\"?\""; return; }
        llvm::StringRef f = P.getFilename();
        size_t p = f.rfind('/');
        if (p != llvm::StringRef::npos) f = f.substr(p + 1);
        O << esc((f + ":" + std::to_string(P.getLine())).str());
    }

    void emitVar(const VarDecl* V, bool withInit = true)
    {
        O << "{\"id\":" << did(V) << ",\"n\":" << esc(V->getNameAsString()) << ",\"t\":" << esc(ty(V->getType()));
        if (V->isStaticLocal()) O << ",\"static\":1";
        if (withInit && V->getInit()) {
            O << ",\"i\":";
            expr(V->getInit());
        }
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            O << ",\"bind\":[";
            bool f = true;
            for (auto* B : D->bindings()) {
                if (!f) O << ",";
                f = false;
                O << "{\"id\":" << did(B) << ",\"n\":" << esc(B->getNameAsString()) << "}";
            }
            O << "]";
        }
        O << "}";
    }

    void emitFunction(const FunctionDecl* F)
    {
        O << "{\"id\":" << fids[F] << ",\"q\":" << esc(F->getQualifiedNameAsString()) << ",\"n\":" << esc(F->getNameAsString())
          << ",\"ta\":" << targs(F) << ",\"ret\":" << esc(ty(F->getReturnType())) << ",\"loc\":";
        loc(F->getLocation());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            O << ",\"cls\":" << rid(M->getParent());
            if (M->isStatic()) O << ",\"static\":1";
            if (M->isConst()) O << ",\"const\":1";
            if (M->isDefaulted() || M->isImplicit()) O << ",\"implicit\":1";
        }
        O << ",\"params\":[";
        bool f = true;
        for (auto* P : F->parameters()) {
            if (!f) O << ",";
            f = false;
            emitVar(P, false);
        }
        O << "]";
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            O << ",\"kctor\":" << (K->isCopyConstructor() ? "\"copy\"" : K->isMoveConstructor() ? "\"move\"" : "\"plain\"");
            O << ",\"inits\":[";
            f = true;
            for (auto* I : K->inits()) {
                if (!f) O << ",";
                f = false;
                O << "{";
                if (I->isAnyMemberInitializer())
                    O << "\"fld\":" << did(I->getAnyMember()) << ",\"n\":" << esc(I->getAnyMember()->getNameAsString()) << ",\"t\":" << esc(ty(I->getAnyMember()->getType())) << ",";
                else if (I->isBaseInitializer()) O << "\"base\":" << esc(ty(QualType(I->getBaseClass(), 0))) << ",";
                else if (I->isDelegatingInitializer()) O << "\"deleg\":1,";
                O << "\"i\":";
                expr(I->getInit());
                O << "}";
            }
            O << "]";
        }
        O << ",\"body\":";
        stmt(F->getBody());
        O << "}";
    }

    void emitRecord(const CXXRecordDecl* R)
    {
        O << "{\"id\":" << rids[R] << ",\"q\":" << esc(R->getQualifiedNameAsString());
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            O << ",\"ta\":[";
            bool f = true;
            for (auto& A : S->getTemplateArgs().asArray()) {
                if (!f) O << ",";
                f = false;
                O << esc(targ(A, 1));
            }
            O << "]";
        }
        if (R->hasDefinition()) {
            O << ",\"fields\":[";
            bool f = true;
            for (auto* X : R->fields()) {
                if (!f) O << ",";
                f = false;
                O << "{\"id\":" << did(X) << ",\"n\":" << esc(X->getNameAsString()) << ",\"t\":" << esc(ty(X->getType())) << "}";
            }
            O << "],\"bases\":[";
            f = true;
            for (auto& B : R->bases()) {
                if (!f) O << ",";
                f = false;
                O << esc(ty(B.getType()));
            }
            O << "]";
        }
        O << "}";
    }

    void fref(const FunctionDecl* F)
    {
        // a reference to a function: exported id (ours) or an external name
        bool lam = false;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
        if ((ours(F) || lam)) {
            int id = fid(F);
            if (id > 0) { O << "\"f\":" << id; return; }
        }
        O << "\"x\":" << esc(F->getQualifiedNameAsString()) << ",\"xn\":" << esc(F->getNameAsString()) << ",\"ta\":" << targs(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) O << ",\"cls\":" << esc(ty(Ctx.getRecordType(M->getParent())));
    }

    template <class It>
    void exprs(It b, It e)
    {
        O << "[";
        bool f = true;
        for (; b != e; ++b) {
            if (!f) O << ",";
            f = false;
            expr(cast<Expr>(*b));
        }
        O << "]";
    }

    static const Expr* strip(const Expr* E)
    {
        while (true) {
            if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
            else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
            else return E;
        }
    }

    void expr(const Expr* E0)
    {
        if (!E0) { O << "null"; return; }
        const Expr* E = strip(E0);
        QualType T = E->getType();
        // constants
        if (!E->isValueDependent() && T->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, Ctx)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                if (T->isBooleanType()) O << "{\"k\":\"bool\",\"v\":" << (R.Val.getInt().getBoolValue() ? 1 : 0) << "}";
                else O << "{\"k\":\"int\",\"v\":\"" << s << "\",\"t\":" << esc(ty(T)) << "}";
                return;
            }
        }
        if (auto* L = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<32> s;
            L->getValue().toString(s, 10, T->isSignedIntegerType());
            O << "{\"k\":\"int\",\"v\":\"" << s << "\",\"t\":" << esc(ty(T)) << "}";
            return;
        }
        if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) { O << "{\"k\":\"bool\",\"v\":" << (L->getValue() ? 1 : 0) << "}"; return; }
        if (auto* L = dyn_cast<FloatingLiteral>(E)) {
            llvm::SmallString<64> s;
            L->getValue().toString(s, 0, 0);
            O << "{\"k\":\"flt\",\"v\":\"" << s << "\"}";
            return;
        }
        if (auto* L = dyn_cast<StringLiteral>(E)) { O << "{\"k\":\"str\",\"v\":" << (L->isOrdinary() ? esc(L->getString()) : std::string("\"\"")) << "}"; return; }
        if (isa<PredefinedExpr>(E) || isa<SourceLocExpr>(E)) { O << "{\"k\":\"str\",\"v\":\"\"}"; return; }
        if (auto* D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* V = D->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(V)) {
                O << "{\"k\":\"fref\",";
                fref(F);
                O << "}";
                return;
            }
            if (auto* X = dyn_cast<VarDecl>(V)) {
                if (X->hasGlobalStorage() && !X->isStaticLocal()) {
                    O << "{\"k\":\"gvar\",\"q\":" << esc(X->getQualifiedNameAsString()) << ",\"id\":" << did(X) << ",\"const\":" << (X->getType().isConstQualified() || X->isConstexpr() ? 1 : 0) << ",\"t\":" << esc(ty(X->getType()));
                    const VarDecl* Def = nullptr;
                    if (ours(X) && X->getAnyInitializer(Def)) { O << ",\"i\":"; expr(X->getAnyInitializer(Def)); }
                    O << "}";
                    return;
                }
            }
            O << "{\"k\":\"var\",\"id\":" << did(V) << ",\"n\":" << esc(V->getNameAsString()) << "}";
            return;
        }
        if (auto* M = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* V = M->getMemberDecl();
            if (isa<FieldDecl>(V)) {
                O << "{\"k\":\"fld\",\"id\":" << did(V) << ",\"n\":" << esc(V->getNameAsString()) << ",\"t\":" << esc(ty(V->getType())) << ",\"o\":";
                expr(M->getBase());
                O << "}";
                return;
            }
            if (auto* X = dyn_cast<VarDecl>(V)) {
                O << "{\"k\":\"gvar\",\"q\":" << esc(X->getQualifiedNameAsString()) << ",\"id\":" << did(X) << ",\"const\":" << (X->getType().isConstQualified() || X->isConstexpr() ? 1 : 0) << ",\"t\":" << esc(ty(X->getType()));
                const VarDecl* Def = nullptr;
                if (ours(X) && X->getAnyInitializer(Def)) { O << ",\"i\":"; expr(X->getAnyInitializer(Def)); }
                O << "}";
                return;
            }
        }
        if (isa<CXXThisExpr>(E)) { O << "{\"k\":\"this\"}"; return; }
        if (auto* C = dyn_cast<CastExpr>(E)) {
            CastKind K = C->getCastKind();
            if (K == CK_NoOp || K == CK_ConstructorConversion || K == CK_UserDefinedConversion) { expr(C->getSubExpr()); return; }
            O << "{\"k\":\"cast\",\"c\":" << esc(C->getCastKindName()) << ",\"t\":" << esc(ty(T)) << ",\"e\":";
            expr(C->getSubExpr());
            O << "}";
            return;
        }
        if (auto* B = dyn_cast<BinaryOperator>(E)) {
            O << "{\"k\":" << (B->isAssignmentOp() ? "\"asg\"" : "\"bin\"") << ",\"op\":" << esc(B->getOpcodeStr()) << ",\"t\":" << esc(ty(T));
            O << ",\"l\":";
            expr(B->getLHS());
            O << ",\"r\":";
            expr(B->getRHS());
            if (B->isAssignmentOp()) { O << ",\"ln\":"; loc(B->getOperatorLoc()); }
            O << "}";
            return;
        }
        if (auto* U = dyn_cast<UnaryOperator>(E)) {
            O << "{\"k\":\"un\",\"op\":" << esc(UnaryOperator::getOpcodeStr(U->getOpcode())) << ",\"post\":" << (U->isPostfix() ? 1 : 0)
              << ",\"t\":" << esc(ty(T)) << ",\"e\":";
            expr(U->getSubExpr());
            O << "}";
            return;
        }
        if (auto* C = dyn_cast<ConditionalOperator>(E)) {
            O << "{\"k\":\"cond\",\"c\":";
            expr(C->getCond());
            O << ",\"a\":";
            expr(C->getTrueExpr());
            O << ",\"b\":";
            expr(C->getFalseExpr());
            O << "}";
            return;
        }
        if (auto* S = dyn_cast<ArraySubscriptExpr>(E)) {
            O << "{\"k\":\"sub\",\"b\":";
            expr(S->getBase());
            O << ",\"i\":";
            expr(S->getIdx());
            O << "}";
            return;
        }
        if (auto* C = dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl* F = C->getDirectCallee();
            if (F) {
                O << "{\"k\":\"call\",\"op\":" << esc(getOperatorSpelling(C->getOperator())) << ",";
                fref(F);
                O << ",\"t\":" << esc(ty(T)) << ",\"ln\":";
                loc(C->getExprLoc());
                auto* M = dyn_cast<CXXMethodDecl>(F);
                if (M && !M->isStatic()) {
                    O << ",\"o\":";
                    expr(C->getArg(0));
                    O << ",\"a\":";
                    exprs(C->arg_begin() + 1, C->arg_end());
                }
                else {
                    O << ",\"a\":";
                    exprs(C->arg_begin(), C->arg_end());
                }
                O << "}";
                return;
            }
        }
        if (auto* C = dyn_cast<CXXMemberCallExpr>(E)) {
            const FunctionDecl* F = C->getDirectCallee();
            if (F) {
                O << "{\"k\":\"call\",";
                fref(F);
                O << ",\"t\":" << esc(ty(T)) << ",\"ln\":";
                loc(C->getExprLoc());
                O << ",\"o\":";
                expr(C->getImplicitObjectArgument());
                O << ",\"a\":";
                exprs(C->arg_begin(), C->arg_end());
                O << "}";
                return;
            }
        }
        if (auto* C = dyn_cast<CallExpr>(E)) {
            const FunctionDecl* F = C->getDirectCallee();
            if (F) {
                O << "{\"k\":\"call\",";
                fref(F);
                O << ",\"t\":" << esc(ty(T)) << ",\"ln\":";
                loc(C->getExprLoc());
                O << ",\"a\":";
                exprs(C->arg_begin(), C->arg_end());
                O << "}";
                return;
            }
        }
        if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl* K = C->getConstructor();
            O << "{\"k\":\"ctor\",\"t\":" << esc(ty(T)) << ",";
            if (K->isCopyOrMoveConstructor()) O << "\"copy\":1,";
            if (C->isListInitialization()) O << "\"list\":1,";
            if (C->isStdInitListInitialization()) O << "\"il\":1,";
            if (C->requiresZeroInitialization()) O << "\"zi\":1,";
            if (!(K->isCopyOrMoveConstructor() && K->isImplicit())) fref(K);
            else O << "\"x\":\"copy\"";
            O << ",\"ln\":";
            loc(C->getExprLoc());
            O << ",\"a\":";
            exprs(C->arg_begin(), C->arg_end());
            O << "}";
            return;
        }
        if (auto* C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O << "{\"k\":\"inhctor\",\"t\":" << esc(ty(T)) << ",";
            fref(C->getConstructor());
            O << "}";
            return;
        }
        if (auto* L = dyn_cast<InitListExpr>(E)) {
            O << "{\"k\":\"ilist\",\"t\":" << esc(ty(T)) << ",\"a\":";
            exprs(L->begin(), L->end());
            if (L->hasArrayFiller()) { O << ",\"filler\":"; expr(L->getArrayFiller()); }
            O << "}";
            return;
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { O << "{\"k\":\"zero\",\"t\":" << esc(ty(T)) << "}"; return; }
        if (auto* L = dyn_cast<LambdaExpr>(E)) {
            O << "{\"k\":\"lambda\",\"t\":" << esc(ty(T)) << ",\"caps\":[";
            bool f = true;
            auto I = L->capture_init_begin();
            for (auto& Cp : L->captures()) {
                if (!f) O << ",";
                f = false;
                if (Cp.capturesThis()) O << "{\"this\":1}";
                else if (Cp.capturesVariable()) {
                    O << "{\"id\":" << did(Cp.getCapturedVar()) << ",\"n\":" << esc(Cp.getCapturedVar()->getNameAsString()) << ",\"ref\":"
                      << (Cp.getCaptureKind() == LCK_ByRef ? 1 : 0) << ",\"i\":";
                    expr(*I);
                    O << "}";
                }
                else O << "{}";
                ++I;
            }
            O << "],\"fs\":[";
            std::vector<const FunctionDecl*> fs;
            if (auto* FT = L->getDependentCallOperator()) {
                for (auto* S : FT->specializations()) fs.push_back(S);
            }
            else fs.push_back(L->getCallOperator());
            f = true;
            for (auto* F : fs) {
                int id = fid(F);
                if (id < 0) continue;
                if (!f) O << ",";
                f = false;
                O << id;
            }
            O << "]}";
            return;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) { (void)X; O << "{\"k\":\"throw\",\"ln\":"; loc(E->getExprLoc()); O << "}"; return; }
        if (isa<CXXNullPtrLiteralExpr>(E)) { O << "{\"k\":\"null\"}"; return; }
        O << "{\"k\":\"unsup\",\"c\":" << esc(E->getStmtClassName()) << ",\"ln\":";
        loc(E->getExprLoc());
        O << "}";
    }

    void stmt(const Stmt* S)
    {
        if (!S) { O << "null"; return; }
        if (auto* E = dyn_cast<Expr>(S)) {
            O << "{\"k\":\"expr\",\"ln\":";
            loc(E->getExprLoc());
            O << ",\"e\":";
            expr(E);
            O << "}";
            return;
        }
        O << "{";
        if (auto* C = dyn_cast<CompoundStmt>(S)) {
            O << "\"k\":\"block\",\"s\":[";
            bool f = true;
            for (auto* X : C->body()) {
                if (!f) O << ",";
                f = false;
                stmt(X);
            }
            O << "]";
        }
        else if (auto* D = dyn_cast<DeclStmt>(S)) {
            O << "\"k\":\"decl\",\"ln\":";
            loc(D->getBeginLoc());
            O << ",\"vars\":[";
            bool f = true;
            for (auto* X : D->decls()) {
                if (auto* V = dyn_cast<VarDecl>(X)) {
                    if (!f) O << ",";
                    f = false;
                    emitVar(V);
                }
            }
            O << "]";
        }
        else if (auto* F = dyn_cast<ForStmt>(S)) {
            O << "\"k\":\"for\",\"ln\":";
            loc(F->getForLoc());
            O << ",\"init\":";
            stmt(F->getInit());
            O << ",\"c\":";
            expr(F->getCond());
            if (F->getConditionVariable()) O << ",\"cv\":1";
            O << ",\"inc\":";
            expr(F->getInc());
            O << ",\"b\":";
            stmt(F->getBody());
        }
        else if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
            O << "\"k\":\"rfor\",\"ln\":";
            loc(F->getForLoc());
            O << ",\"range\":";
            expr(F->getRangeInit());
            O << ",\"v\":";
            emitVar(F->getLoopVariable(), false);
            O << ",\"b\":";
            stmt(F->getBody());
        }
        else if (auto* W = dyn_cast<WhileStmt>(S)) {
            O << "\"k\":\"while\",\"ln\":";
            loc(W->getWhileLoc());
            O << ",\"c\":";
            expr(W->getCond());
            O << ",\"b\":";
            stmt(W->getBody());
        }
        else if (auto* W = dyn_cast<DoStmt>(S)) {
            O << "\"k\":\"do\",\"ln\":";
            loc(W->getDoLoc());
            O << ",\"c\":";
            expr(W->getCond());
            O << ",\"b\":";
            stmt(W->getBody());
        }
        else if (auto* I = dyn_cast<IfStmt>(S)) {
            O << "\"k\":\"if\",\"ln\":";
            loc(I->getIfLoc());
            if (I->getInit()) { O << ",\"init\":"; stmt(I->getInit()); }
            if (I->getConditionVariable()) O << ",\"cv\":1";
            O << ",\"c\":";
            expr(I->getCond());
            O << ",\"a\":";
            stmt(I->getThen());
            O << ",\"b\":";
            stmt(I->getElse());
        }
        else if (auto* R = dyn_cast<ReturnStmt>(S)) {
            O << "\"k\":\"return\",\"ln\":";
            loc(R->getReturnLoc());
            O << ",\"e\":";
            expr(R->getRetValue());
        }
        else if (isa<BreakStmt>(S)) O << "\"k\":\"break\"";
        else if (isa<ContinueStmt>(S)) O << "\"k\":\"continue\"";
        else if (isa<NullStmt>(S)) O << "\"k\":\"nop\"";
        else if (auto* A = dyn_cast<AttributedStmt>(S)) {
            O << "\"k\":\"block\",\"s\":[";
            stmt(A->getSubStmt());
            O << "]";
        }
        else if (auto* X = dyn_cast<CapturedStmt>(S)) {
            O << "\"k\":\"block\",\"s\":[";
            stmt(X->getCapturedStmt());
            O << "]";
        }
        else if (auto* X = dyn_cast<OMPExecutableDirective>(S)) {
            O << "\"k\":\"omp\",\"d\":" << esc(X->getStmtClassName()) << ",\"ln\":";
            loc(X->getBeginLoc());
            O << ",\"clauses\":[";
            bool f = true;
            for (auto* C : X->clauses()) {
                if (!f) O << ",";
                f = false;
                O << esc(llvm::omp::getOpenMPClauseName(C->getClauseKind()));
            }
            O << "],\"s\":";
            if (X->hasAssociatedStmt()) stmt(X->getInnermostCapturedStmt() ? X->getInnermostCapturedStmt()->getCapturedStmt() : X->getAssociatedStmt());
            else O << "null";
        }
        else if (auto* T = dyn_cast<CXXTryStmt>(S)) {
            O << "\"k\":\"try\",\"s\":";
            stmt(T->getTryBlock());
        }
        else {
            O << "\"k\":\"unsup\",\"c\":" << esc(S->getStmtClassName()) << ",\"ln\":";
            loc(S->getBeginLoc());
        }
        O << "}";
    }
};

class Consumer : public ASTConsumer {
public:
    Consumer(CompilerInstance& CI, std::string out) : CI(CI), out(out) {}
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        if (Ctx.getDiagnostics().hasErrorOccurred()) return;
        std::error_code EC;
        llvm::raw_fd_ostream O(out, EC);
        if (EC) { llvm::errs() << "gfexport: cannot write " << out << "\n"; return; }
        Exporter(Ctx, O).run();
    }

private:
    CompilerInstance& CI;
    std::string out;
};

class Action : public PluginASTAction {
    std::string out = "gfexport.json";

protected:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(CI, out);
    }
    bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& a) override
    {
        if (!a.empty()) out = a[0];
        return true;
    }
    PluginASTAction::ActionType getActionType() override { return ReplaceAction; }
};
} // namespace
static FrontendPluginRegistry::Add<Action> X("gfexport", "export instantiated GooseFEM functions");
