// Dumps the resolved, instantiated program of /repo/qcoro (function bodies as simplified typed trees,
// records, types) as JSON facts. Usage: extract <out.json> <root-prefix[,root-prefix...]> <source> -- <flags>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Sema/Sema.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Dumper {
    ASTContext &C; SourceManager &SM; PrintingPolicy PP;
    std::map<const Decl *, int> ids; int nextId = 1;
    std::map<const void *, int> typeIds; Array types;
    std::set<const FunctionDecl *> wanted, done; std::vector<const FunctionDecl *> queue;
    std::set<const CXXRecordDecl *> recDone; std::vector<const CXXRecordDecl *> recQueue;
    Array functions, records;
    std::map<const Expr*, int> opaque;

    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = false;
    }
    int id(const Decl *D) {
        if (!D) return 0;
        D = D->getCanonicalDecl();
        auto it = ids.find(D); if (it != ids.end()) return it->second;
        return ids[D] = nextId++;
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto P = SM.getPresumedLoc(L, false); return P.isValid() ? P.getFilename() : "";
    }
    int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); if (L.isInvalid()) return 0; return SM.getSpellingLineNumber(L); }
    static std::string normPath(std::string p) {
        llvm::SmallString<256> s(p); llvm::sys::path::remove_dots(s, true); return std::string(s);
    }
    bool inRoots(const Decl *D) {
        std::string f = normPath(fileOf(D->getLocation()));
        for (auto &r : Roots) if (llvm::StringRef(f).starts_with(r)) return true;
        return false;
    }
    std::string qname(const NamedDecl *D) {
        std::string s; llvm::raw_string_ostream os(s); 
        PrintingPolicy P2 = PP; P2.SuppressInlineNamespace = true; P2.SuppressUnwrittenScope = true;
        D->printQualifiedName(os, P2); os.flush(); return s;
    }
    std::string usr(const Decl *D) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(D, b)) return "";
        // the USR leaves out pointer-to-member types, which tell overloads apart
        if (auto *F = dyn_cast<FunctionDecl>(D))
            for (auto *p : F->parameters())
                if (p->getType().getCanonicalType()->isMemberPointerType()) { b += "|"; b += p->getType().getCanonicalType().getAsString(); }
        return std::string(b);
    }

    int type(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        auto key = T.getAsOpaquePtr();
        auto it = typeIds.find(key); if (it != typeIds.end()) return it->second;
        int n = types.size(); typeIds[key] = n; types.push_back(nullptr);
        Object o; o["s"] = T.getAsString(PP);
        if (T.isConstQualified()) o["const"] = true;
        QualType N = T.getNonReferenceType();
        if (T->isLValueReferenceType()) { o["ref"] = "l"; o["to"] = type(N); }
        else if (T->isRValueReferenceType()) { o["ref"] = "r"; o["to"] = type(N); }
        else if (auto *PT = T->getAs<clang::PointerType>()) { o["k"] = "ptr"; o["to"] = type(PT->getPointeeType()); }
        else if (auto *R = T->getAsCXXRecordDecl()) {
            o["k"] = "rec"; o["rec"] = id(R); o["qn"] = qname(R);
            Array ta;
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
                for (auto &A : S->getTemplateArgs().asArray()) {
                    if (A.getKind() == TemplateArgument::Type) ta.push_back(type(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) if (B.getKind() == TemplateArgument::Type) ta.push_back(type(B.getAsType())); }
                }
            if (!ta.empty()) o["targs"] = std::move(ta);
            if (derivesFrom(R, "QObject")) o["qobj"] = true;
            if (derivesFrom(R, "QIODevice")) o["qio"] = true;
            wantRec(R);
        }
        else if (T->isEnumeralType()) { o["k"] = "enum"; o["qn"] = qname(T->castAs<EnumType>()->getDecl()); }
        else if (T->isBooleanType()) o["k"] = "bool";
        else if (T->isIntegralType(C)) o["k"] = "int";
        else if (T->isVoidType()) o["k"] = "void";
        else if (T->isFloatingType()) o["k"] = "float";
        else if (T->isNullPtrType()) o["k"] = "nullptr";
        else if (T->isMemberPointerType()) o["k"] = "memptr";
        else if (T->isFunctionType()) o["k"] = "fn";
        else if (T->isArrayType()) o["k"] = "arr";
        else o["k"] = "?";
        types[n] = std::move(o);
        return n;
    }
    void wantRec(const CXXRecordDecl *R) {
        if (!R) return;
        if (R->getDefinition()) R = R->getDefinition();
        if (!inRoots(R)) return;
        if (recDone.insert(R).second) recQueue.push_back(R);
    }
    void wantFn(const FunctionDecl *F) {
        if (!F) return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) Def = nullptr;
        const FunctionDecl *X = Def ? Def : F;
        if (!inRoots(X)) {
            const FunctionDecl *P = X->getTemplateInstantiationPattern();
            if (!P || !inRoots(P)) return;
        }
        if (X->isDependentContext()) return;
        if (wanted.insert(cast<FunctionDecl>(X->getCanonicalDecl())).second) queue.push_back(X);
    }
    Object fnRef(const FunctionDecl *F) {
        Object o; o["id"] = id(F); o["qn"] = qname(F); o["n"] = F->getNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["rec"] = id(M->getParent()); 
            o["rqn"] = qname(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lambda"] = id(M->getParent());
        }
        if (F->isDeleted()) o["deleted"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        if (inRootsFn(F)) { o["repo"] = true; o["usr"] = usr(F); }
        Array pt; for (auto *P : F->parameters()) pt.push_back(type(P->getType()));
        o["pt"] = std::move(pt);
        if (auto *Spec = F->getTemplateSpecializationArgs()) {
            Array ta;
            for (auto &A : Spec->asArray()) {
                if (A.getKind() == TemplateArgument::Type) ta.push_back(type(A.getAsType()));
                else if (A.getKind() == TemplateArgument::Integral) ta.push_back(std::string("#") + std::to_string(A.getAsIntegral().getSExtValue()));
                else if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) if (B.getKind() == TemplateArgument::Type) ta.push_back(type(B.getAsType())); }
            }
            if (!ta.empty()) o["ta"] = std::move(ta);
        }
        wantFn(F);
        return o;
    }
    bool inRootsFn(const FunctionDecl *F) {
        if (inRoots(F)) return true;
        if (auto *P = F->getTemplateInstantiationPattern()) return inRoots(P);
        return false;
    }

    static Object mk(const char *k) { Object o; o["k"] = k; return o; }
    Object mkl(const char *k, SourceLocation L) { Object o; o["k"] = k; int l = lineOf(L); if (l) o["l"] = l; return o; }

    // constant chrono duration => nanoseconds
    bool durConst(const Expr *E, int64_t &ns) {
        QualType T = E->getType(); if (T.isNull()) return false;
        auto *R = T.getCanonicalType()->getAsCXXRecordDecl();
        auto *S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(R);
        if (!S || S->getNameAsString() != "duration" || S->getQualifiedNameAsString() != "std::chrono::duration") return false;
        if (E->isValueDependent()) return false;
        Expr::EvalResult ER;
        if (!E->EvaluateAsRValue(ER, C) || ER.HasSideEffects) return false;
        APValue *V = &ER.Val; 
        if (V->isStruct() && V->getStructNumFields() == 1) V = &V->getStructField(0);
        if (!V->isInt() || !V->getInt().isRepresentableByInt64()) return false;
        auto PT = S->getTemplateArgs()[1].getAsType();
        auto *PR = dyn_cast_or_null<ClassTemplateSpecializationDecl>(PT->getAsCXXRecordDecl());
        if (!PR) return false;
        int64_t num = PR->getTemplateArgs()[0].getAsIntegral().getExtValue(), den = PR->getTemplateArgs()[1].getAsIntegral().getExtValue();
        ns = (int64_t)((__int128)V->getInt().getExtValue() * num * 1000000000 / den);
        return true;
    }

    Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent wrappers
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E)) return exprC(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) { Object o = mkl("Full", E->getExprLoc()); o["e"] = expr(X->getSubExpr()); return std::move(o); }
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());
        if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { Value v = exprC(X->getExpr()); if (auto *o = v.getAsObject()) (*o)["defarg"] = true; return v; }
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return exprC(X->getExpr());
        return exprC(E);
    }
    Value exprC(const Expr *E) {
        Value v = expr0(E);
        if (auto *o = v.getAsObject()) {
            if (!o->get("t")) (*o)["t"] = type(E->getType());
            if (E->isGLValue()) (*o)["lv"] = E->isXValue() ? 2 : 1;
            int64_t ns;
            if (!E->isValueDependent() && !E->isTypeDependent()) {
                QualType T = E->getType();
                if (!T.isNull() && T->isIntegralOrEnumerationType()) {
                    Expr::EvalResult ER;
                    if (E->EvaluateAsInt(ER, C, Expr::SE_NoSideEffects) && ER.Val.isInt() && ER.Val.getInt().isRepresentableByInt64()) { (*o)["cv"] = ER.Val.getInt().getExtValue(); }
                } else if (!T.isNull() && T->isRecordType() && E->isPRValue() && durConst(E, ns)) (*o)["durns"] = ns;
            }
        }
        return v;
    }
    Value callArgs(llvm::iterator_range<CallExpr::const_arg_iterator> R, unsigned skip = 0) {
        Array a; for (auto *A : R) { if (skip) { --skip; continue; } a.push_back(expr(A)); } return std::move(a);
    }
    Value expr0(const Expr *E) {
        SourceLocation L = E->getExprLoc();
        if (isa<ParenExpr>(E) || isa<ConstantExpr>(E) || isa<ExprWithCleanups>(E) || isa<CXXBindTemporaryExpr>(E) || isa<SubstNonTypeTemplateParmExpr>(E)
            || isa<CXXRewrittenBinaryOperator>(E) || isa<CXXDefaultArgExpr>(E) || isa<CXXDefaultInitExpr>(E) || isa<CXXStdInitializerListExpr>(E)) return expr(E);
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { Object o = mkl("Temp", L); o["e"] = expr(X->getSubExpr()); if (X->getExtendingDecl()) o["ext"] = id(X->getExtendingDecl()); return std::move(o); }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) { Object o = mkl("Int", L); o["v"] = X->getValue().getSExtValue(); return std::move(o); }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = mkl("Bool", L); o["v"] = X->getValue(); return std::move(o); }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = mkl("Int", L); o["v"] = (int64_t)X->getValue(); return std::move(o); }
        if (auto *X = dyn_cast<clang::StringLiteral>(E)) { Object o = mkl("Str", L); o["v"] = X->isOrdinary() && llvm::json::isUTF8(X->getString()) ? X->getString().str() : "<str>"; return std::move(o); }
        if (isa<FloatingLiteral>(E)) { Object o = mkl("Float", L); return std::move(o); }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mkl("Null", L);
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mkl("ValueInit", L);
        if (isa<CXXThisExpr>(E)) return mkl("This", L);
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            Object o = mkl("Ref", L); o["d"] = id(D); o["n"] = D->getNameAsString();
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; o["f"] = fnRef(F); }
            else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["qn"] = qname(EC); o["v"] = EC->getInitVal().getExtValue(); }
            else if (isa<ParmVarDecl>(D)) o["dk"] = "param";
            else if (auto *B = dyn_cast<BindingDecl>(D)) { o["dk"] = "binding"; o["b"] = B->getBinding() ? expr(B->getBinding()) : Value(nullptr); }
            else if (auto *V = dyn_cast<VarDecl>(D)) { o["dk"] = V->isLocalVarDecl() ? "var" : "global"; if (!V->isLocalVarDecl()) o["qn"] = qname(V); }
            else if (isa<FieldDecl>(D)) { o["dk"] = "field"; o["qn"] = qname(cast<NamedDecl>(D)); }
            else o["dk"] = "other";
            if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            return std::move(o);
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            Object o = mkl("Member", L); o["base"] = expr(X->getBase()); o["arrow"] = X->isArrow();
            o["n"] = X->getMemberDecl()->getNameAsString(); o["d"] = id(X->getMemberDecl());
            if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) o["f"] = fnRef(F);
            else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { o["staticvar"] = true; o["qn"] = qname(V); }
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o = mkl("Call", L); const Expr *cal = X->getCallee()->IgnoreParenImpCasts();
            if (auto *M = X->getMethodDecl()) {
                o["f"] = fnRef(M);
                if (auto *ME = dyn_cast<MemberExpr>(cal)) { o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qual"] = true; o["obj"] = expr(ME->getBase()); }
                else o["obj"] = expr(X->getImplicitObjectArgument());
            } else if (auto *BO = dyn_cast<BinaryOperator>(cal)) { // (obj->*pmf)(...)
                o["pmf"] = expr(BO->getRHS()); o["obj"] = expr(BO->getLHS()); o["arrow"] = BO->getOpcode() == BO_PtrMemI;
            } else o["callee"] = expr(cal);
            o["args"] = callArgs(X->arguments());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object o = mkl("Call", L); o["op"] = getOperatorSpelling(X->getOperator());
            const FunctionDecl *F = X->getDirectCallee();
            if (F) {
                o["f"] = fnRef(F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = expr(X->getArg(0)); o["args"] = callArgs(X->arguments(), 1); return std::move(o); }
            } else o["callee"] = expr(X->getCallee());
            o["args"] = callArgs(X->arguments());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            Object o = mkl("Call", L);
            if (auto *F = X->getDirectCallee()) o["f"] = fnRef(F); else o["callee"] = expr(X->getCallee());
            o["args"] = callArgs(X->arguments());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            Object o = mkl("Construct", L); o["f"] = fnRef(X->getConstructor()); o["inherited"] = true; o["args"] = Array(); return std::move(o);
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            Object o = mkl("Construct", L); auto *CD = X->getConstructor(); o["f"] = fnRef(CD);
            if (CD->isCopyConstructor()) o["copy"] = true; if (CD->isMoveConstructor()) o["move"] = true;
            if (CD->isDefaultConstructor()) o["defctor"] = true;
            if (X->isElidable()) o["elide"] = true; if (isa<CXXTemporaryObjectExpr>(X)) o["tmp"] = true;
            if (X->isListInitialization()) o["list"] = true;
            if (X->isStdInitListInitialization()) o["stdlist"] = true;
            Array a; for (auto *A : X->arguments()) a.push_back(expr(A)); o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            Object o = mkl("New", L); o["at"] = type(X->getAllocatedType());
            o["init"] = expr(X->getInitializer()); return std::move(o);
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object o = mkl("Delete", L); o["e"] = expr(X->getArgument()); return std::move(o); }
        if (auto *X = dyn_cast<UnaryOperator>(E)) { Object o = mkl("Unary", L); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()); if (X->isPostfix()) o["post"] = true; o["e"] = expr(X->getSubExpr()); return std::move(o); }
        if (auto *X = dyn_cast<BinaryOperator>(E)) { Object o = mkl("Binary", L); o["op"] = X->getOpcodeStr(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return std::move(o); }
        if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) { Object o = mkl("Elvis", L); o["a"] = expr(X->getCommon()); o["b"] = expr(X->getFalseExpr()); return std::move(o); }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) { Object o = mkl("Cond", L); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return std::move(o); }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { Object o = mkl("Subscript", L); o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return std::move(o); }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            Object o = mkl("Cast", L); o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
            if (isa<CXXDynamicCastExpr>(X)) o["dyn"] = true;
            if (!isa<ImplicitCastExpr>(X)) o["expl"] = true;
            if (auto *CF = X->getConversionFunction()) if (auto *F = dyn_cast<FunctionDecl>(CF)) o["conv"] = qname(F);
            return std::move(o);
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            Object o = mkl("Lambda", L); const CXXRecordDecl *R = X->getLambdaClass(); o["rec"] = id(R);
            Array caps; auto ii = X->capture_init_begin();
            for (auto &cap : X->captures()) {
                Object c; Expr *init = ii != X->capture_init_end() ? *ii++ : nullptr;
                if (cap.capturesThis()) { c["k"] = cap.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
                else if (cap.capturesVariable()) { c["k"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy"; c["d"] = id(cap.getCapturedVar()); c["n"] = cap.getCapturedVar()->getNameAsString(); c["t"] = type(cast<ValueDecl>(cap.getCapturedVar())->getType()); if (cap.getCapturedVar()->isInitCapture()) c["init"] = true; }
                else c["k"] = "other";
                c["e"] = expr(init); caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            Array ops; lambdaOps(R, ops); o["ops"] = std::move(ops);
            return std::move(o);
        }
        if (auto *X = dyn_cast<CoroutineSuspendExpr>(E)) {
            Object o = mkl(isa<CoawaitExpr>(E) ? "CoAwait" : "CoYield", L);
            // operand as written; and what the awaiter is
            o["e"] = expr(X->getOperand());
            o["common"] = expr(X->getCommonExpr());
            o["at"] = type(X->getCommonExpr()->getType());
            if (X->getReadyExpr()) o["ready"] = calleeOf(X->getReadyExpr());
            if (X->getSuspendExpr()) o["suspend"] = calleeOf(X->getSuspendExpr());
            if (X->getResumeExpr()) o["resume"] = calleeOf(X->getResumeExpr());
            return std::move(o);
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            if (S->isTransparent() && S->getNumInits() == 1) return expr(S->getInit(0));
            Object o = mkl("InitList", L); Array a; for (auto *I : S->inits()) a.push_back(expr(I)); o["args"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o = mkl("Throw", L); o["e"] = expr(X->getSubExpr()); return std::move(o); }
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { Object o = mkl("Opaque", L); auto it = opaque.find(X); int n; if (it == opaque.end()) { n = nextId++; opaque[X] = n; } else n = it->second; o["d"] = n; if (X->getSourceExpr() && it == opaque.end()) o["e"] = expr(X->getSourceExpr()); return std::move(o); }
        if (auto *X = dyn_cast<StmtExpr>(E)) { Object o = mkl("StmtExpr", L); o["s"] = stmt(X->getSubStmt()); return std::move(o); }
        if (auto *X = dyn_cast<PseudoObjectExpr>(E)) return expr(X->getResultExpr());
        if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) { Object o = mkl("InitList", L); Array a; for (auto *I : X->getInitExprs()) a.push_back(expr(I)); o["args"] = std::move(a); return std::move(o); }
        Object o = mkl("Other", L); o["cls"] = E->getStmtClassName();
        Array a; for (auto *Ch : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(Ch)) a.push_back(expr(CE));
        o["args"] = std::move(a);
        return std::move(o);
    }
    Value calleeOf(const Expr *E) {
        const Expr *X = E;
        while (true) {
            X = X->IgnoreParens()->IgnoreImplicit();
            if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
                if (auto *MD = M->getMethodDecl()) {
                    // await_suspend(...).address() wrapping
                    if (MD->getNameAsString() == "address") { X = M->getImplicitObjectArgument(); continue; }
                    return fnRef(MD);
                }
            }
            if (auto *Cl = dyn_cast<CallExpr>(X)) {
                if (auto *F = Cl->getDirectCallee()) {
                    if (F->getBuiltinID() && Cl->getNumArgs()) { X = Cl->getArg(0); continue; }
                    return fnRef(F);
                }
            }
            return nullptr;
        }
    }
    void lambdaOps(const CXXRecordDecl *R, Array &ops) {
        if (auto *FT = R->getDependentLambdaCallOperator()) {
            for (auto *S : FT->specializations()) { if (S->hasBody()) { ops.push_back(id(S)); wantFn(S); } }
        } else if (auto *M = R->getLambdaCallOperator()) { ops.push_back(id(M)); wantFn(M); }
    }

    Value var(const VarDecl *V) {
        Object o = mkl("Var", V->getLocation()); o["d"] = id(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
        if (V->hasInit()) o["init"] = expr(V->getInit());
        if (V->isStaticLocal()) o["static"] = true;
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array b; for (auto *B : DD->bindings()) { Object x; x["d"] = id(B); x["n"] = B->getNameAsString(); if (auto *H = B->getHoldingVar()) { x["hd"] = id(H); x["h"] = H->hasInit() ? expr(H->getInit()) : Value(nullptr); } b.push_back(std::move(x)); }
            o["bindings"] = std::move(b);
        }
        return std::move(o);
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        SourceLocation L = S->getBeginLoc();
        if (auto *X = dyn_cast<CoroutineBodyStmt>(S)) return stmt(X->getBody());
        if (auto *X = dyn_cast<CompoundStmt>(S)) { Object o = mkl("Block", L); Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["b"] = std::move(a); return std::move(o); }
        if (auto *X = dyn_cast<DeclStmt>(S)) { Object o = mkl("Decl", L); Array a; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); o["vars"] = std::move(a); return std::move(o); }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            Object o = mkl("If", L); o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["var"] = var(X->getConditionVariable());
            o["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr);
            if (X->isConstexpr()) { o["cx"] = true; }
            o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); return std::move(o);
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) { Object o = mkl("While", L); if (X->getConditionVariable()) o["var"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if (auto *X = dyn_cast<DoStmt>(S)) { Object o = mkl("DoWhile", L); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if (auto *X = dyn_cast<ForStmt>(S)) { Object o = mkl("For", L); o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["var"] = var(X->getConditionVariable()); o["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr); o["inc"] = X->getInc() ? expr(X->getInc()) : Value(nullptr); o["body"] = stmt(X->getBody()); return std::move(o); }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { Object o = mkl("RangeFor", L); o["range"] = expr(X->getRangeInit()); o["var"] = var(X->getLoopVariable()); o["init"] = stmt(X->getInit()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { Object o = mkl("Return", L); o["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr); return std::move(o); }
        if (auto *X = dyn_cast<CoreturnStmt>(S)) { Object o = mkl("CoReturn", L); o["e"] = X->getOperand() ? expr(X->getOperand()) : Value(nullptr); 
            if (X->getPromiseCall()) if (auto *MC = dyn_cast<CXXMemberCallExpr>(X->getPromiseCall()->IgnoreImplicit())) { if (MC->getMethodDecl()) o["f"] = fnRef(MC->getMethodDecl()); if (MC->getNumArgs() == 1) o["arg"] = expr(MC->getArg(0)); }
            return std::move(o); }
        if (isa<BreakStmt>(S)) return mkl("Break", L);
        if (isa<ContinueStmt>(S)) return mkl("Continue", L);
        if (isa<NullStmt>(S)) return mkl("Nop", L);
        if (auto *X = dyn_cast<CXXTryStmt>(S)) { Object o = mkl("Try", L); o["body"] = stmt(X->getTryBlock()); Array h; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); Object c; c["k"] = "Catch"; c["l"] = lineOf(H->getBeginLoc()); if (H->getExceptionDecl()) { c["var"] = var(H->getExceptionDecl()); c["t"] = type(H->getCaughtType()); } else c["all"] = true; c["body"] = stmt(H->getHandlerBlock()); h.push_back(std::move(c)); } o["h"] = std::move(h); return std::move(o); }
        if (auto *X = dyn_cast<SwitchStmt>(S)) { Object o = mkl("Switch", L); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["var"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if (auto *X = dyn_cast<CaseStmt>(S)) { Object o = mkl("Case", L); o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); return std::move(o); }
        if (auto *X = dyn_cast<DefaultStmt>(S)) { Object o = mkl("Default", L); o["s"] = stmt(X->getSubStmt()); return std::move(o); }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto *X = dyn_cast<LabelStmt>(S)) { Object o = mkl("Label", L); o["d"] = id(X->getDecl()); o["s"] = stmt(X->getSubStmt()); return std::move(o); }
        if (auto *X = dyn_cast<GotoStmt>(S)) { Object o = mkl("Goto", L); o["d"] = id(X->getLabel()); return std::move(o); }
        if (auto *X = dyn_cast<Expr>(S)) { Object o = mkl("Expr", L); o["e"] = expr(X); return std::move(o); }
        Object o = mkl("OtherStmt", L); o["cls"] = S->getStmtClassName(); return std::move(o);
    }

    void fn(const FunctionDecl *F) {
        if (!done.insert(cast<FunctionDecl>(F->getCanonicalDecl())).second) return;
        Object o = fnRef(F);
        o["file"] = normPath(fileOf(F->getLocation())); o["line"] = lineOf(F->getLocation());
        o["usr"] = usr(F);
        o["ret"] = type(F->getReturnType());
        if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor"; else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv"; else if (isa<CXXMethodDecl>(F)) o["kind"] = "method"; else o["kind"] = "fn";
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (F->isImplicit()) o["implicit"] = true;
        o["access"] = (int)F->getAccess();
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) { auto est = FPT->getExceptionSpecType(); if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow) o["noexcept"] = true; else if (est == EST_Unevaluated || est == EST_Uninstantiated) o["noexcept_unk"] = true; }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            Array ov; for (auto *B : M->overridden_methods()) { ov.push_back(Object(fnRef(B))); } if (!ov.empty()) o["overrides"] = std::move(ov);
            wantRec(M->getParent()); o["reptype"] = type(C.getRecordType(M->getParent()));
            if (M->getRefQualifier() == RQ_LValue) o["refq"] = "&"; else if (M->getRefQualifier() == RQ_RValue) o["refq"] = "&&";
            if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { if (CD->isCopyConstructor()) o["copyctor"] = true; if (CD->isMoveConstructor()) o["movector"] = true; if (CD->isDefaultConstructor()) o["defctor"] = true; if (CD->isInheritingConstructor()) o["inheriting"] = true; }
            if (M->isCopyAssignmentOperator()) o["copyassign"] = true; if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
        }
        Array ps; const FunctionDecl *DA = F;
        for (unsigned i = 0; i < F->getNumParams(); ++i) {
            auto *P = F->getParamDecl(i); Object p; p["d"] = id(P); p["n"] = P->getNameAsString(); p["t"] = type(P->getType());
            // default args live on any redeclaration
            for (auto *R : F->redecls()) { auto *RP = R->getParamDecl(i); if (RP->hasDefaultArg() && !RP->hasUninstantiatedDefaultArg() && !RP->hasUnparsedDefaultArg() && RP->getDefaultArg()) { p["def"] = expr(RP->getDefaultArg()); break; } }
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto *Spec = F->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); printTemplateArgumentList(os, Spec->asArray(), PP); os.flush(); o["targs"] = s; }
        const FunctionDecl *Def = nullptr; const Stmt *B = F->hasBody(Def) ? F->getBody(Def) : nullptr;
        if (auto *CD = dyn_cast_or_null<CXXConstructorDecl>(Def ? Def : F)) {
            Array in;
            for (auto *I : CD->inits()) {
                Object x; x["l"] = lineOf(I->getSourceLocation());
                if (I->isAnyMemberInitializer()) { x["field"] = I->getAnyMember()->getNameAsString(); x["ft"] = type(I->getAnyMember()->getType()); }
                else if (I->isBaseInitializer()) { x["base"] = type(QualType(I->getBaseClass(), 0)); }
                else x["deleg"] = true;
                x["e"] = expr(I->getInit()); in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        if (B) {
            if (auto *CB = dyn_cast<CoroutineBodyStmt>(B)) {
                o["coro"] = true; o["promise"] = type(CB->getPromiseDecl()->getType());
                if (auto *S = dyn_cast_or_null<Expr>(CB->getInitSuspendStmt())) o["initsusp"] = suspRef(S);
                if (auto *S = dyn_cast_or_null<Expr>(CB->getFinalSuspendStmt())) o["finalsusp"] = suspRef(S);
                if (CB->getExceptionHandler()) if (auto *S = dyn_cast<Expr>(CB->getExceptionHandler())) o["unhandled"] = calleeOf(S);
                if (CB->getReturnValueInit()) o["getret"] = calleeOf(CB->getReturnValueInit());
            }
            o["body"] = stmt(B);
            // Def params may differ in ids
            if (Def && Def != F) { Array p2; for (auto *P : Def->parameters()) p2.push_back(id(P)); o["pids"] = std::move(p2); }
        }
        functions.push_back(std::move(o));
    }
    Value suspRef(const Expr *E) {
        const Expr *X = E->IgnoreImplicit();
        if (auto *S = dyn_cast<CoroutineSuspendExpr>(X)) {
            Object o; o["at"] = type(S->getCommonExpr()->getType()); o["op"] = calleeOf(S->getOperand());
            if (S->getReadyExpr()) o["ready"] = calleeOf(S->getReadyExpr());
            if (S->getSuspendExpr()) o["suspend"] = calleeOf(S->getSuspendExpr());
            if (S->getResumeExpr()) o["resume"] = calleeOf(S->getResumeExpr());
            return std::move(o);
        }
        return nullptr;
    }
    void rec(const CXXRecordDecl *R) {
        Object o; o["id"] = id(R); o["n"] = R->getNameAsString(); o["qn"] = qname(R); o["t"] = type(C.getRecordType(R));
        o["file"] = normPath(fileOf(R->getLocation())); o["line"] = lineOf(R->getLocation());
        if (R->isLambda()) { o["lambda"] = true; Array ops; lambdaOps(R, ops); o["ops"] = std::move(ops); }
        if (!R->isDependentContext() && R->hasDefinition()) {
            Array b; for (auto &B : R->bases()) b.push_back(type(B.getType())); o["bases"] = std::move(b);
            Array fs; for (auto *Fd : R->fields()) { Object f; f["n"] = Fd->getNameAsString(); f["d"] = id(Fd); f["t"] = type(Fd->getType()); f["access"] = (int)Fd->getAccess(); if (Fd->hasInClassInitializer() && Fd->getInClassInitializer() && !Fd->getInClassInitializer()->isTypeDependent()) f["init"] = expr(Fd->getInClassInitializer()); fs.push_back(std::move(f)); } o["fields"] = std::move(fs);
            Array ms; for (auto *M : R->methods()) { if (M->isDependentContext()) continue; ms.push_back(Object(fnRef(M))); } 
            for (auto *D : R->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) for (auto *S : FT->specializations()) ms.push_back(Object(fnRef(S)));
            o["methods"] = std::move(ms);
            bool qo = false; const CXXRecordDecl *Q = R;
            o["qobject"] = derivesFrom(R, "QObject");
        }
        records.push_back(std::move(o));
    }
    bool derivesFrom(const CXXRecordDecl *R, llvm::StringRef n) {
        if (!R->hasDefinition()) return false;
        if (R->getNameAsString() == n) return true;
        for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) if (derivesFrom(BR, n)) return true;
        return false;
    }
    void drain() {
        while (!queue.empty() || !recQueue.empty()) {
            if (!queue.empty()) { auto *F = queue.back(); queue.pop_back(); fn(F); }
            else { auto *R = recQueue.back(); recQueue.pop_back(); rec(R); }
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D; Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { if (!F->isDependentContext()) D.wantFn(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext()) D.wantRec(R); return true; }
};
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) { llvm::errs() << "extract: errors in TU\n"; return; }
        Dumper D(C); Visitor V(D); V.TraverseDecl(C.getTranslationUnitDecl()); D.drain();
        Object o; o["functions"] = std::move(D.functions); o["records"] = std::move(D.records); D.drain(); o["types"] = std::move(D.types);
        std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << Value(std::move(o)); os << "\n";
    }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); } };

int main(int argc, char **argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    OutPath = argv[1]; std::string r = argv[2]; llvm::SmallVector<llvm::StringRef> parts; llvm::StringRef(r).split(parts, ','); for (auto p : parts) Roots.push_back(p.str());
    std::string src = argv[3]; std::vector<std::string> args; for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool T(db, {src});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
