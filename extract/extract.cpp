// AST extractor: dumps every function body (including template instantiations and lambdas) that is defined in a file
// of the analysed repository, with resolved callees, declarations and types, as JSON.  Used by the Python analyses.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out, g_main;

namespace {

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    ASTNameGenerator NG;
    PrintingPolicy PP;
    std::string tu;
    json::Array types, files;
    std::map<const void*, int> type_ids;
    std::map<std::string, int> file_ids;
    std::map<const Decl*, int> decl_ids;
    std::set<const FunctionDecl*> done;
    std::vector<const FunctionDecl*> lambdas;
    const FunctionDecl *cur = nullptr;

    Dumper(ASTContext &C, std::string tu) : C(C), SM(C.getSourceManager()), NG(C), PP(C.getPrintingPolicy()), tu(tu) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
        PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.AnonymousTagLocations = true;
    }

    int did(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = decl_ids.find(D);
        if (it != decl_ids.end()) return it->second;
        int id = decl_ids.size() + 1;
        decl_ids[D] = id;
        return id;
    }

    std::string fname(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        llvm::SmallString<256> buf(P.getFilename());
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) return rp.str();
        }
        return std::string(buf);
    }
    // spelling file: for code coming from #include'd .tbl inside macros this is the expansion file
    bool in_repo(const Decl *D) {
        std::string f = fname(D->getLocation());
        if (f == g_main) return true;
        return f.rfind(g_root + "/", 0) == 0 && f.find(g_root + "/third-party") != 0 && f.find("/_build") == std::string::npos;
    }
    int fid(const std::string &f) {
        auto it = file_ids.find(f);
        if (it != file_ids.end()) return it->second;
        int id = files.size();
        std::string rel = f;
        if (rel.rfind(g_root + "/", 0) == 0) rel = rel.substr(g_root.size() + 1);
        files.push_back(rel);
        file_ids[f] = id;
        return id;
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        // template args of enclosing classes are omitted
        const DeclContext *DC = D->getDeclContext();
        llvm::SmallVector<std::string, 8> parts;
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() || N->isAnonymousNamespace())
                    if (!N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
            } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
                if (R->getDeclName()) parts.push_back(R->getNameAsString());
                else {
                    if (auto *CR = dyn_cast<CXXRecordDecl>(R); CR && CR->isLambda()) parts.push_back("(lambda)");
                    else parts.push_back("(anon)");
                }
            } else if (auto *E = dyn_cast<EnumDecl>(DC)) {
                if (E->isScoped() && E->getDeclName()) parts.push_back(E->getNameAsString());
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(F->getNameAsString() + "()");
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        os << D->getNameAsString();
        return os.str();
    }

    std::string fkey(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        bool lam = false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
        std::string n;
        if (!lam && !F->isDependentContext() && !F->getType()->isDependentType()) {
            GlobalDecl GD;
            if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
                std::unique_ptr<MangleContext> MC(C.createMangleContext());
                llvm::raw_string_ostream os(n);
                MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
            } else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) {
                std::unique_ptr<MangleContext> MC(C.createMangleContext());
                llvm::raw_string_ostream os(n);
                MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
            } else {
                n = NG.getName(F);
            }
        }
        if (n.empty()) n = qn(F);
        if (lam || F->getFormalLinkage() != Linkage::External || n.find("$_") != std::string::npos) {
            const FunctionDecl *D = F;
            n += "@" + std::to_string(did(D)) + "@" + tu;
        }
        return n;
    }

    int ty(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        auto it = type_ids.find(T.getAsOpaquePtr());
        if (it != type_ids.end()) return it->second;
        int id = types.size();
        type_ids[T.getAsOpaquePtr()] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = T.getAsString(PP);
        QualType B = T;
        if (T->isReferenceType()) { o["ref"] = T->isRValueReferenceType() ? 2 : 1; B = T.getNonReferenceType(); }
        if (B.isConstQualified()) o["const"] = true;
        if (B->isPointerType()) { o["ptr"] = true; B = B->getPointeeType(); if (B.isConstQualified()) o["pconst"] = true; }
        if (auto *R = B->getAsCXXRecordDecl()) {
            o["rec"] = qn(R);
            if (R->isLambda()) o["lam"] = fkey(R->getLambdaCallOperator());
        }
        if (auto *E = B->getAs<EnumType>()) { o["enum"] = qn(E->getDecl()); }
        if (B->isBooleanType()) o["bt"] = "bool";
        else if (B->isIntegerType() && !B->isDependentType() && !B->isIncompleteType()) {
            o["bt"] = "int"; o["w"] = (int64_t)C.getIntWidth(B); o["sg"] = B->isSignedIntegerOrEnumerationType();
        } else if (B->isFloatingType()) { o["bt"] = "float"; o["w"] = (int64_t)C.getTypeSize(B); }
        else if (B->isArrayType()) {
            o["bt"] = "array"; o["el"] = ty(C.getAsArrayType(B)->getElementType());
            if (auto *CA = C.getAsConstantArrayType(B)) o["n"] = (int64_t)CA->getSize().getZExtValue();
        }
        if (T->isPointerType() || T->isReferenceType()) o["to"] = ty(T->getPointeeType());
        types[id] = std::move(o);
        return id;
    }

    json::Object mk(const char *k, const Stmt *S) {
        json::Object o; o["k"] = k;
        SourceLocation L = S->getBeginLoc();
        if (auto *E = dyn_cast<Expr>(S)) L = E->getExprLoc();
        o["l"] = (int64_t)line(L);
        int f = fid(fname(L));
        if (f != cur_file) o["f"] = f;
        if (auto *E = dyn_cast<Expr>(S)) o["t"] = ty(E->getType());
        return o;
    }
    int cur_file = -1;

    void addcv(json::Object &o, const Expr *E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        if (!E->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            llvm::APSInt v = R.Val.getInt();
            if (v.isSigned()) o["cv"] = v.getExtValue();
            else o["cv"] = (v.getActiveBits() <= 63) ? json::Value((int64_t)v.getZExtValue()) : json::Value(v.getZExtValue());
        }
    }

    json::Value var(const VarDecl *V) {
        json::Object o;
        o["d"] = did(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = (int64_t)line(V->getLocation());
        if (V->isStaticLocal()) o["static"] = true;
        if (auto *I = V->getInit()) {
            o["init"] = ex(I);
            o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : "call";
        }
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto *B : D->bindings()) {
                json::Object b; b["d"] = did(B); b["n"] = B->getNameAsString(); b["t"] = ty(B->getType());
                if (auto *HV = B->getHoldingVar()) { b["hd"] = did(HV); if (HV->getInit()) b["e"] = ex(HV->getInit()); }
                else if (B->getBinding()) b["e"] = ex(B->getBinding());
                bs.push_back(std::move(b));
            }
            o["bind"] = std::move(bs);
        }
        return o;
    }

    json::Value st(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return ex(E);
        switch (S->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                auto o = mk("block", S); json::Array a;
                for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(st(c));
                o["b"] = std::move(a);
                o["el"] = (int64_t)line(S->getEndLoc());
                return o;
            }
            case Stmt::IfStmtClass: {
                auto *I = cast<IfStmt>(S); auto o = mk("if", S);
                if (I->getInit()) o["init"] = st(I->getInit());
                if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable());
                if (I->isConstexpr()) {
                    o["cx"] = true;
                    if (auto *c = I->getCond(); c && !c->isValueDependent()) {
                        Expr::EvalResult R;
                        if (c->EvaluateAsInt(R, C)) o["cxv"] = R.Val.getInt().getBoolValue();
                    }
                }
                if (I->isConsteval()) { o["cx"] = true; o["cxv"] = false; }
                if (I->getCond()) o["c"] = ex(I->getCond());
                if (I->getThen()) o["a"] = st(I->getThen());
                if (I->getElse()) o["e"] = st(I->getElse());
                return o;
            }
            case Stmt::WhileStmtClass: {
                auto *W = cast<WhileStmt>(S); auto o = mk("while", S);
                if (W->getConditionVariable()) o["cvar"] = var(W->getConditionVariable());
                o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); return o;
            }
            case Stmt::DoStmtClass: {
                auto *W = cast<DoStmt>(S); auto o = mk("do", S);
                o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); return o;
            }
            case Stmt::ForStmtClass: {
                auto *F = cast<ForStmt>(S); auto o = mk("for", S);
                if (F->getInit()) o["init"] = st(F->getInit());
                if (F->getConditionVariable()) o["cvar"] = var(F->getConditionVariable());
                if (F->getCond()) o["c"] = ex(F->getCond());
                if (F->getInc()) o["inc"] = ex(F->getInc());
                o["b"] = st(F->getBody()); return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *F = cast<CXXForRangeStmt>(S); auto o = mk("rfor", S);
                if (F->getInit()) o["init"] = st(F->getInit());
                o["v"] = var(F->getLoopVariable());
                o["r"] = ex(F->getRangeInit());
                if (F->getBeginStmt()) o["beg"] = st(F->getBeginStmt());
                if (F->getEndStmt()) o["end"] = st(F->getEndStmt());
                if (F->getCond()) o["c"] = ex(F->getCond());
                if (F->getInc()) o["inc"] = ex(F->getInc());
                if (F->getRangeStmt()) o["rs"] = st(F->getRangeStmt());
                o["b"] = st(F->getBody()); return o;
            }
            case Stmt::SwitchStmtClass: {
                auto *W = cast<SwitchStmt>(S); auto o = mk("switch", S);
                if (W->getInit()) o["init"] = st(W->getInit());
                if (W->getConditionVariable()) o["cvar"] = var(W->getConditionVariable());
                o["c"] = ex(W->getCond()); o["b"] = st(W->getBody()); return o;
            }
            case Stmt::CaseStmtClass: {
                auto *K = cast<CaseStmt>(S); auto o = mk("case", S);
                o["v"] = ex(K->getLHS());
                if (K->getRHS()) o["v2"] = ex(K->getRHS());
                o["s"] = st(K->getSubStmt()); return o;
            }
            case Stmt::DefaultStmtClass: { auto o = mk("default", S); o["s"] = st(cast<DefaultStmt>(S)->getSubStmt()); return o; }
            case Stmt::BreakStmtClass: return mk("break", S);
            case Stmt::ContinueStmtClass: return mk("continue", S);
            case Stmt::ReturnStmtClass: {
                auto o = mk("ret", S);
                if (auto *E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = ex(E);
                return o;
            }
            case Stmt::DeclStmtClass: {
                auto o = mk("decl", S); json::Array vs;
                for (auto *D : cast<DeclStmt>(S)->decls())
                    if (auto *V = dyn_cast<VarDecl>(D)) vs.push_back(var(V));
                o["vs"] = std::move(vs); return o;
            }
            case Stmt::CXXTryStmtClass: {
                auto *T = cast<CXXTryStmt>(S); auto o = mk("try", S);
                o["b"] = st(T->getTryBlock());
                json::Array hs;
                for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                    auto *H = T->getHandler(i); json::Object h;
                    if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
                    h["t"] = ty(H->getCaughtType());
                    h["b"] = st(H->getHandlerBlock());
                    hs.push_back(std::move(h));
                }
                o["h"] = std::move(hs); return o;
            }
            case Stmt::GotoStmtClass: { auto o = mk("goto", S); o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString(); return o; }
            case Stmt::IndirectGotoStmtClass: { auto o = mk("igoto", S); o["e"] = ex(cast<IndirectGotoStmt>(S)->getTarget()); return o; }
            case Stmt::LabelStmtClass: {
                auto o = mk("label", S); o["n"] = cast<LabelStmt>(S)->getName();
                o["s"] = st(cast<LabelStmt>(S)->getSubStmt()); return o;
            }
            case Stmt::NullStmtClass: return mk("nul", S);
            case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(S)->getSubStmt());
            default: {
                auto o = mk("?", S); o["c"] = S->getStmtClassName();
                json::Array a; for (auto *c : S->children()) if (c) a.push_back(st(c));
                o["ch"] = std::move(a); return o;
            }
        }
    }

    json::Value declref(const ValueDecl *D, const Expr *E) {
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
            auto o = mk("enumc", E); o["v"] = EC->getInitVal().getExtValue(); o["n"] = EC->getNameAsString(); o["q"] = qn(EC);
            return o;
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
            auto o = mk("fref", E); o["fn"] = fkey(F); o["q"] = qn(F); o["n"] = F->getNameAsString(); return o;
        }
        auto o = mk("ref", E); o["d"] = did(D); o["n"] = D->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D)) {
            if (V->hasGlobalStorage()) o["g"] = qn(V);
            if (isa<ParmVarDecl>(V)) o["p"] = true;
            if (V->getType().isConstQualified() || V->isConstexpr()) addcv(o, E);
            if (V->getType()->isReferenceType()) o["isref"] = true;
        }
        if (auto *B = dyn_cast<BindingDecl>(D)) {
            o["binding"] = true;
            if (auto *HV = B->getHoldingVar()) o["hd"] = did(HV);
        }
        return o;
    }

    void callargs(json::Object &o, llvm::ArrayRef<const Expr*> args) {
        json::Array a; for (auto *x : args) a.push_back(ex(x));
        o["args"] = std::move(a);
    }

    json::Value ex(const Expr *E) {
        if (!E) return nullptr;
        switch (E->getStmtClass()) {
            case Stmt::ParenExprClass: return ex(cast<ParenExpr>(E)->getSubExpr());
            case Stmt::ExprWithCleanupsClass: return ex(cast<ExprWithCleanups>(E)->getSubExpr());
            case Stmt::MaterializeTemporaryExprClass: return ex(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
            case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
            case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
            case Stmt::CXXDefaultArgExprClass: { auto v = ex(cast<CXXDefaultArgExpr>(E)->getExpr()); if (auto *o = v.getAsObject()) (*o)["def"] = true; return v; }
            case Stmt::CXXDefaultInitExprClass: return ex(cast<CXXDefaultInitExpr>(E)->getExpr());
            case Stmt::CXXRewrittenBinaryOperatorClass: return ex(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
            case Stmt::CXXStdInitializerListExprClass: return ex(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
            case Stmt::ConstantExprClass: { auto v = ex(cast<ConstantExpr>(E)->getSubExpr()); if (auto *o = v.getAsObject()) addcv(*o, E); return v; }
            case Stmt::IntegerLiteralClass: {
                auto o = mk("int", E); auto v = cast<IntegerLiteral>(E)->getValue();
                if (E->getType()->isSignedIntegerType()) o["v"] = v.getSExtValue();
                else o["v"] = v.getActiveBits() <= 63 ? json::Value((int64_t)v.getZExtValue()) : json::Value(v.getZExtValue());
                return o;
            }
            case Stmt::CharacterLiteralClass: { auto o = mk("int", E); o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue(); o["ch"] = true; return o; }
            case Stmt::CXXBoolLiteralExprClass: { auto o = mk("bool", E); o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue(); return o; }
            case Stmt::FloatingLiteralClass: { auto o = mk("float", E); o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); return o; }
            case Stmt::StringLiteralClass: {
                auto o = mk("str", E);
                auto *SL = cast<StringLiteral>(E);
                if (SL->getCharByteWidth() == 1 && llvm::json::isUTF8(SL->getString())) o["v"] = SL->getString(); else o["v"] = "?";
                return o;
            }
            case Stmt::PredefinedExprClass: { auto o = mk("str", E); o["v"] = "__func__"; return o; }
            case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return mk("null", E);
            case Stmt::CXXThisExprClass: return mk("this", E);
            case Stmt::DeclRefExprClass: return declref(cast<DeclRefExpr>(E)->getDecl(), E);
            case Stmt::MemberExprClass: {
                auto *M = cast<MemberExpr>(E);
                auto *D = M->getMemberDecl();
                if (isa<EnumConstantDecl>(D)) return declref(D, E);
                if (auto *V = dyn_cast<VarDecl>(D)) return declref(V, E);
                if (isa<FunctionDecl>(D) && cast<FunctionDecl>(D)->isStatic()) return declref(D, E);
                auto o = mk("mem", E); o["b"] = ex(M->getBase()); o["n"] = D->getNameAsString(); o["d"] = did(D);
                o["q"] = qn(D);
                if (D->getType()->isReferenceType()) o["isref"] = true;
                if (M->isArrow()) o["arrow"] = true;
                if (auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = fkey(F);
                return o;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto *M = cast<CXXMemberCallExpr>(E); auto o = mk("call", E);
                if (auto *F = M->getMethodDecl()) {
                    o["fn"] = fkey(F); o["q"] = qn(F); o["n"] = F->getNameAsString();
                    bool virt = F->isVirtual();
                    if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) virt = false; if (ME->isArrow()) o["arrow"] = true; }
                    if (virt) o["virt"] = true;
                    if (isa<CXXConversionDecl>(F)) o["conv"] = true;
                    if (F->isConst()) o["cm"] = true;
                    o["obj"] = ex(M->getImplicitObjectArgument());
                    targs(o, F);
                } else {
                    o["callee"] = ex(M->getCallee());
                }
                callargs(o, llvm::ArrayRef<const Expr*>(M->getArgs(), M->getNumArgs()));
                return o;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto *M = cast<CXXOperatorCallExpr>(E); auto o = mk("call", E);
                o["op"] = getOperatorSpelling(M->getOperator());
                unsigned first = 0;
                if (auto *F = M->getDirectCallee()) {
                    o["fn"] = fkey(F); o["q"] = qn(F); o["n"] = F->getNameAsString();
                    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
                        if (!MD->isStatic()) { o["obj"] = ex(M->getArg(0)); }
                        first = 1;
                        if (MD->isVirtual()) o["virt"] = true;
                        if (MD->isConst()) o["cm"] = true;
                        if (MD->getParent()->isLambda()) o["lamcall"] = true;
                    }
                } else o["callee"] = ex(M->getCallee());
                json::Array a; for (unsigned i = first; i < M->getNumArgs(); ++i) a.push_back(ex(M->getArg(i)));
                o["args"] = std::move(a);
                return o;
            }
            case Stmt::UserDefinedLiteralClass:
            case Stmt::CallExprClass: {
                auto *K = cast<CallExpr>(E); auto o = mk("call", E);
                if (auto *F = K->getDirectCallee()) { o["fn"] = fkey(F); o["q"] = qn(F); o["n"] = F->getNameAsString(); if (F->isNoReturn()) o["nr"] = true; 
                    if (F->getBuiltinID()) addcv(o, E); }
                else o["callee"] = ex(K->getCallee());
                if (auto *F = K->getDirectCallee(); F && F->isConstexpr()) addcv(o, E);
                // template arguments of the callee, printed (e.g. as<T>, is<T>, std::get<0>)
                if (auto *F = K->getDirectCallee()) targs(o, F);
                callargs(o, llvm::ArrayRef<const Expr*>(K->getArgs(), K->getNumArgs()));
                return o;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto *K = cast<CXXConstructExpr>(E); auto o = mk("ctor", E);
                auto *CD = K->getConstructor();
                o["q"] = qn(CD->getParent()); o["fn"] = fkey(CD);
                if (CD->isCopyOrMoveConstructor()) o["cm"] = CD->isMoveConstructor() ? "move" : "copy";
                if (CD->isDefaultConstructor()) o["dflt"] = true;
                if (K->isListInitialization()) o["li"] = true;
                if (K->isElidable()) o["el"] = true;
                callargs(o, llvm::ArrayRef<const Expr*>(K->getArgs(), K->getNumArgs()));
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass: { auto o = mk("ctor", E); o["q"] = qn(cast<CXXInheritedCtorInitExpr>(E)->getConstructor()->getParent()); o["args"] = json::Array(); return o; }
            case Stmt::UnaryOperatorClass: {
                auto *U = cast<UnaryOperator>(E); auto o = mk("un", E);
                std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
                if (U->isPostfix()) op = "p" + op;
                o["op"] = op; o["e"] = ex(U->getSubExpr());
                addcv(o, E);
                return o;
            }
            case Stmt::BinaryOperatorClass: {
                auto *B = cast<BinaryOperator>(E); auto o = mk(B->isAssignmentOp() ? "asg" : "bin", E);
                o["op"] = B->getOpcodeStr().str(); o["a"] = ex(B->getLHS()); o["b"] = ex(B->getRHS());
                if (!B->isAssignmentOp()) addcv(o, E);
                return o;
            }
            case Stmt::CompoundAssignOperatorClass: {
                auto *B = cast<CompoundAssignOperator>(E); auto o = mk("asg", E);
                o["op"] = B->getOpcodeStr().str(); o["a"] = ex(B->getLHS()); o["b"] = ex(B->getRHS());
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                auto *K = cast<ConditionalOperator>(E); auto o = mk("cond", E);
                o["c"] = ex(K->getCond()); o["a"] = ex(K->getTrueExpr()); o["b"] = ex(K->getFalseExpr()); return o;
            }
            case Stmt::BinaryConditionalOperatorClass: {
                auto *K = cast<BinaryConditionalOperator>(E); auto o = mk("elvis", E);
                o["c"] = ex(K->getCommon()); o["b"] = ex(K->getFalseExpr()); return o;
            }
            case Stmt::OpaqueValueExprClass: return ex(cast<OpaqueValueExpr>(E)->getSourceExpr());
            case Stmt::ArraySubscriptExprClass: {
                auto *A = cast<ArraySubscriptExpr>(E); auto o = mk("idx", E);
                o["b"] = ex(A->getBase()); o["i"] = ex(A->getIdx()); return o;
            }
            case Stmt::ImplicitCastExprClass: {
                auto *K = cast<ImplicitCastExpr>(E);
                switch (K->getCastKind()) {
                    case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToIntegral: case CK_IntegralToFloating:
                    case CK_FloatingToBoolean: case CK_FloatingCast: case CK_MemberPointerToBoolean: {
                        auto o = mk("cast", E); o["ck"] = K->getCastKindName(); o["e"] = ex(K->getSubExpr()); addcv(o, E); return o;
                    }
                    case CK_IntegralCast: {
                        auto *S = K->getSubExpr();
                        auto o = mk("cast", E); o["ck"] = "IntegralCast"; o["e"] = ex(S); addcv(o, E); return o;
                    }
                    case CK_LValueToRValue: {
                        auto v = ex(K->getSubExpr());
                        if (auto *o = v.getAsObject()) (*o)["rv"] = true;
                        return v;
                    }
                    case CK_NullToPointer: return mk("null", E);
                    case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_NoOp: case CK_FunctionToPointerDecay:
                    case CK_ArrayToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion:
                    default: return ex(K->getSubExpr());
                }
            }
            case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass:
            case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::BuiltinBitCastExprClass: {
                auto *K = cast<ExplicitCastExpr>(E); 
                if (K->getCastKind() == CK_ConstructorConversion || K->getCastKind() == CK_UserDefinedConversion) return ex(K->getSubExpr());
                auto o = mk("cast", E); o["ck"] = K->getCastKindName(); o["ex"] = true; o["e"] = ex(K->getSubExpr());
                if (isa<CXXDynamicCastExpr>(E)) o["dyn"] = true;
                addcv(o, E); return o;
            }
            case Stmt::LambdaExprClass: {
                auto *L = cast<LambdaExpr>(E); auto o = mk("lambda", E);
                auto *CO = L->getCallOperator();
                o["fn"] = fkey(CO);
                if (L->getLambdaClass()->isGenericLambda()) {
                    o["gen"] = true;
                    json::Array sp;
                    if (auto *T = CO->getDescribedFunctionTemplate())
                        for (auto *S : T->specializations()) { sp.push_back(fkey(S)); lambdas.push_back(S); }
                    o["specs"] = std::move(sp);
                } else lambdas.push_back(CO);
                json::Array caps;
                auto ii = L->capture_init_begin();
                for (auto &c : L->captures()) {
                    json::Object k;
                    if (c.capturesThis()) { k["this"] = true; k["byref"] = c.getCaptureKind() == LCK_This; }
                    else if (c.capturesVariable()) {
                        k["d"] = did(c.getCapturedVar()); k["n"] = c.getCapturedVar()->getNameAsString();
                        k["byref"] = c.getCaptureKind() == LCK_ByRef;
                        if (cast<ValueDecl>(c.getCapturedVar())->isInitCapture()) k["init"] = ex(cast<VarDecl>(c.getCapturedVar())->getInit());
                    }
                    caps.push_back(std::move(k)); ++ii;
                }
                o["caps"] = std::move(caps);
                return o;
            }
            case Stmt::CXXNewExprClass: {
                auto *N = cast<CXXNewExpr>(E); auto o = mk("new", E);
                o["ty"] = ty(N->getAllocatedType());
                if (N->getInitializer()) o["init"] = ex(N->getInitializer());
                if (N->isArray() && N->getArraySize()) o["n"] = ex(*N->getArraySize());
                json::Array a; for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) a.push_back(ex(N->getPlacementArg(i)));
                o["place"] = std::move(a);
                return o;
            }
            case Stmt::CXXDeleteExprClass: { auto o = mk("del", E); o["e"] = ex(cast<CXXDeleteExpr>(E)->getArgument()); return o; }
            case Stmt::CXXThrowExprClass: {
                auto o = mk("throw", E);
                if (auto *S = cast<CXXThrowExpr>(E)->getSubExpr()) o["e"] = ex(S);
                return o;
            }
            case Stmt::InitListExprClass: {
                auto *I = cast<InitListExpr>(E);
                if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
                auto o = mk("ilist", E); json::Array a; for (auto *x : I->inits()) a.push_back(ex(x));
                o["es"] = std::move(a);
                if (auto *R = E->getType()->getAsCXXRecordDecl(); R && R->isAggregate()) {
                    json::Array fs;
                    for (auto &b : R->bases()) fs.push_back("<base>");
                    for (auto *f : R->fields()) fs.push_back(f->getNameAsString());
                    o["fs"] = std::move(fs);
                }
                return o;
            }
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: return mk("zero", E);
            case Stmt::UnaryExprOrTypeTraitExprClass: { auto o = mk("sizeof", E); addcv(o, E); return o; }
            case Stmt::AddrLabelExprClass: { auto o = mk("addrlabel", E); o["n"] = cast<AddrLabelExpr>(E)->getLabel()->getNameAsString(); return o; }
            case Stmt::StmtExprClass: { auto o = mk("stmtexpr", E); o["s"] = st(cast<StmtExpr>(E)->getSubStmt()); return o; }
            default: {
                auto o = mk("?", E); o["c"] = E->getStmtClassName(); addcv(o, E);
                json::Array a; for (auto *c : E->children()) if (c) a.push_back(st(c));
                o["ch"] = std::move(a); return o;
            }
        }
    }

    void targs(json::Object &o, const FunctionDecl *F) {
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto &t : TA->asArray()) {
                std::string s; llvm::raw_string_ostream os(s);
                t.print(PP, os, true);
                a.push_back(os.str());
            }
            o["ta"] = std::move(a);
        }
    }

    json::Value func(const FunctionDecl *F) {
        json::Object o;
        cur = F;
        o["key"] = fkey(F); o["q"] = qn(F); o["n"] = F->getNameAsString();
        std::string f = fname(F->getLocation());
        cur_file = fid(f);
        o["f"] = cur_file; o["ln"] = (int64_t)line(F->getBeginLoc()); o["le"] = (int64_t)line(F->getEndLoc());
        o["col"] = (int64_t)SM.getExpansionColumnNumber(F->getLocation());
        json::Array ps;
        for (auto *P : F->parameters()) {
            json::Object p; p["d"] = did(P); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType());
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) { p["def"] = true; p["dv"] = ex(P->getDefaultArg()); }
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            std::string s; llvm::raw_string_ostream os(s);
            C.getRecordType(M->getParent()).getCanonicalType().print(os, PP);
            o["clst"] = os.str();
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lam"] = true;
            json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(fkey(x));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor";
            else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
        }
        if (F->isDefaulted()) o["defaulted"] = true;
        if (F->isVariadic()) o["variadic"] = true;
        if (auto *PT = F->getType()->getAs<FunctionProtoType>())
            if (PT->canThrow() == CT_Cannot) o["noexcept"] = true;
        targs(o, F);
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array in;
            for (auto *I : K->inits()) {
                json::Object i;
                if (I->isAnyMemberInitializer()) { i["m"] = I->getAnyMember()->getNameAsString(); i["mt"] = ty(I->getAnyMember()->getType()); }
                else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
                else i["deleg"] = true;
                if (I->isWritten()) i["w"] = true;
                i["e"] = ex(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = st(F->getBody());
        return o;
    }

    json::Value record(const CXXRecordDecl *R) {
        json::Object o; o["q"] = qn(R); o["f"] = fid(fname(R->getLocation())); o["ln"] = (int64_t)line(R->getLocation());
        std::string s; llvm::raw_string_ostream os(s);
        C.getRecordType(R).getCanonicalType().print(os, PP);
        o["s"] = os.str();
        json::Array bs; for (auto &b : R->bases()) { bs.push_back(ty(b.getType())); }
        o["bases"] = std::move(bs);
        json::Array fs; for (auto *F : R->fields()) { json::Object f; f["n"] = F->getNameAsString(); f["t"] = ty(F->getType()); if (F->isMutable()) f["mut"] = true;
            if (F->hasInClassInitializer()) { f["hasinit"] = true; if (F->getInClassInitializer()) { cur_file = -1; f["init"] = ex(F->getInClassInitializer()); } } fs.push_back(std::move(f)); }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto *M : R->methods()) {
            json::Object m; m["key"] = fkey(M); m["n"] = M->getNameAsString();
            if (M->isDefaulted()) m["defaulted"] = true;
            if (M->isDeleted()) m["deleted"] = true;
            if (M->isVirtual()) m["virt"] = true;
            if (M->isPureVirtual()) m["pure"] = true;
            if (M->isCopyAssignmentOperator()) m["sp"] = "copyassign";
            if (M->isMoveAssignmentOperator()) m["sp"] = "moveassign";
            if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { if (K->isCopyConstructor()) m["sp"] = "copyctor"; else if (K->isMoveConstructor()) m["sp"] = "movector"; else m["sp"] = "ctor"; }
            if (isa<CXXDestructorDecl>(M)) m["sp"] = "dtor";
            m["acc"] = (int)M->getAccess();
            if (M->isImplicit()) m["implicit"] = true;
            json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(fkey(x));
            if (!ov.empty()) m["over"] = std::move(ov);
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        if (R->isAbstract()) o["abstract"] = true;
        return o;
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper &D;
    json::Array funcs, recs, enums, vars;
    std::set<const Decl*> seen;
    V(Dumper &D) : D(D) { }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    void add(const FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody()) return;
        if (F->isDependentContext() || F->getType()->isDependentType()) return;
        if (auto *TK = F->getDescribedFunctionTemplate()) return;
        if (!seen.insert(F).second) return;
        if (!D.in_repo(F)) return;
        funcs.push_back(D.func(F));
        while (!D.lambdas.empty()) {
            auto *L = D.lambdas.back(); D.lambdas.pop_back();
            const FunctionDecl *def = nullptr;
            if (L->hasBody(def)) add(def);
        }
    }
    bool VisitFunctionDecl(FunctionDecl *F) { add(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!D.in_repo(R)) return true;
        if (!seen.insert(R).second) return true;
        recs.push_back(D.record(R));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || !D.in_repo(E) || E->isDependentContext()) return true;
        if (!seen.insert(E).second) return true;
        json::Object o; o["q"] = D.qn(E); json::Array a;
        for (auto *c : E->enumerators()) { json::Object k; k["n"] = c->getNameAsString(); k["v"] = c->getInitVal().getExtValue(); a.push_back(std::move(k)); }
        o["e"] = std::move(a); o["f"] = D.fid(D.fname(E->getLocation()));
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *Vd) {
        if (!Vd->hasGlobalStorage() || Vd->isStaticLocal() || isa<ParmVarDecl>(Vd)) return true;
        if (Vd->getDeclContext()->isDependentContext() || Vd->getType()->isDependentType()) return true;
        if (!D.in_repo(Vd)) return true;
        if (!seen.insert(Vd).second) return true;
        json::Object o; o["q"] = D.qn(Vd); D.cur_file = D.fid(D.fname(Vd->getLocation())); o["f"] = D.cur_file;
        o["v"] = D.var(Vd);
        if (Vd->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        vars.push_back(std::move(o));
        return true;
    }
};

struct Consumer : ASTConsumer {
    std::string tu;
    Consumer(std::string tu) : tu(tu) { }
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "extract: errors in " << tu << "\n"; }
        Dumper D(C, tu);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object root;
        root["tu"] = tu;
        root["errors"] = C.getDiagnostics().hasErrorOccurred();
        root["funcs"] = std::move(v.funcs); root["recs"] = std::move(v.recs); root["enums"] = std::move(v.enums); root["vars"] = std::move(v.vars);
        root["types"] = std::move(D.types); root["files"] = std::move(D.files);
        // dependencies in the repo (for the content-hash cache)
        json::Array deps;
        auto &SM = C.getSourceManager();
        std::set<std::string> ds;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            auto rp = it->first.getFileEntry().tryGetRealPathName().str();
            if (!rp.empty()) ds.insert(rp);
        }
        for (auto &d : ds) if (d.rfind(g_root + "/", 0) == 0) deps.push_back(d.substr(g_root.size() + 1));
        root["deps"] = std::move(deps);
        std::error_code EC;
        llvm::raw_fd_ostream os(g_out, EC);
        os << json::Value(std::move(root));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
        return std::make_unique<Consumer>(F.str());
    }
};

}

int main(int argc, const char **argv) {
    // extract ROOT OUT SOURCE -- flags...
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SOURCE -- FLAGS\n"; return 2; }
    g_root = argv[1]; g_out = argv[2];
    std::string src = argv[3];
    g_main = src;
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {src});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
