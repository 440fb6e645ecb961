// AST extractor: parses one translation unit that includes the real headers of /repo and dumps, as JSON,
// the bodies of every function reachable from the functions whose name starts with "vroot_" (plus, with
// --all-main, every function defined in the main file).  Template instantiations are dumped as clang
// instantiated them: the text that is verified is the text that is compiled.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
#include <string>
#include <fstream>
#include <sstream>

using namespace clang;

static std::string gOut;
static std::vector<std::string> gRepoPrefix;
static bool gAllMain = false;
static std::set<std::string> gExtraRoots;

struct J {  // tiny JSON writer
    std::string s;
    bool first = true;
    static std::string esc(llvm::StringRef in) {
        std::string o = "\"";
        for (unsigned char c : in) {
            switch (c) {
                case '"': o += "\\\""; break;
                case '\\': o += "\\\\"; break;
                case '\n': o += "\\n"; break;
                case '\t': o += "\\t"; break;
                case '\r': o += "\\r"; break;
                default:
                    if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
                    else o += c;
            }
        }
        return o + "\"";
    }
    J() { s = "{"; }
    J& raw(const char* k, const std::string& v) {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":"; s += v;
        return *this;
    }
    J& str(const char* k, llvm::StringRef v) { return raw(k, esc(v)); }
    J& num(const char* k, long v) { return raw(k, std::to_string(v)); }
    J& boolean(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
    std::string done() { return s + "}"; }
};

class Extractor {
public:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const FunctionDecl*, int> fnIds;
    std::vector<std::string> fnJson;
    std::deque<const FunctionDecl*> work;
    std::map<const ValueDecl*, int> varIds;
    std::map<std::string, int> typeIds;
    std::vector<std::string> typeJson;
    std::map<const RecordDecl*, int> recIds;
    std::vector<std::string> recJson;
    std::map<const VarDecl*, int> globIds;
    std::vector<std::string> globJson;
    std::map<const EnumDecl*, int> enumIds;
    std::vector<std::string> enumJson;

    explicit Extractor(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
    }

    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        if (SM.isInMainFile(L)) return true;
        llvm::StringRef f = SM.getFilename(L);
        for (auto& p : gRepoPrefix) if (f.startswith(p)) return true;
        return false;
    }

    std::string loc(SourceLocation L) {
        if (L.isInvalid()) return "?";
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "?";
        std::string f = P.getFilename();
        return f + ":" + std::to_string(P.getLine());
    }

    int enumOf(const EnumDecl* E) {
        E = E->getDefinition() ? E->getDefinition() : E;
        auto it = enumIds.find(E);
        if (it != enumIds.end()) return it->second;
        int id = enumJson.size();
        enumIds[E] = id;
        J j;
        j.str("name", E->getQualifiedNameAsString());
        std::string v = "{";
        bool f = true;
        for (auto* c : E->enumerators()) {
            if (!f) v += ",";
            f = false;
            v += J::esc(c->getName()) + ":" + llvm::toString(c->getInitVal(), 10);
        }
        j.raw("vals", v + "}");
        enumJson.push_back(j.done());
        return id;
    }

    std::string targ(const TemplateArgument& A) {
        switch (A.getKind()) {
            case TemplateArgument::Type: return std::to_string(type(A.getAsType()));
            case TemplateArgument::Integral: return "{\"int\":" + llvm::toString(A.getAsIntegral(), 10) + "}";
            case TemplateArgument::Pack: {
                std::string s = "[";
                bool f = true;
                for (auto& a : A.pack_elements()) { if (!f) s += ","; f = false; s += targ(a); }
                return s + "]";
            }
            default: return "null";
        }
    }

    int record(const RecordDecl* R) {
        if (R->getDefinition()) R = R->getDefinition();
        auto it = recIds.find(R);
        if (it != recIds.end()) return it->second;
        int id = recJson.size();
        recIds[R] = id;
        recJson.push_back("null");
        J j;
        j.str("name", R->getQualifiedNameAsString());
        if (R->isUnion()) j.boolean("union", true);
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            std::string s = "[";
            bool f = true;
            for (auto& a : S->getTemplateArgs().asArray()) { if (!f) s += ","; f = false; s += targ(a); }
            j.raw("targs", s + "]");
        }
        bool own = inRepo(R->getLocation());
        j.boolean("own", own);
        j.str("loc", loc(R->getLocation()));
        if (R->isCompleteDefinition() && (own || isa<CXXRecordDecl>(R) == false || R->isLambda() || R->getQualifiedNameAsString() == "std::pair" || R->getQualifiedNameAsString() == "timespec")) {
            std::string fs = "[";
            bool f = true;
            for (auto* F : R->fields()) {
                if (!f) fs += ",";
                f = false;
                J fj;
                fj.str("n", F->getName()).num("t", type(F->getType())).num("id", var(F));
                if (F->isMutable()) fj.boolean("mut", true);
                if (F->hasInClassInitializer() && F->getInClassInitializer()) fj.raw("init", expr(F->getInClassInitializer()));
                fs += fj.done();
            }
            j.raw("fields", fs + "]");
            if (auto* X = dyn_cast<CXXRecordDecl>(R)) {
                std::string bs = "[";
                f = true;
                for (auto& b : X->bases()) { if (!f) bs += ","; f = false; bs += std::to_string(type(b.getType())); }
                j.raw("bases", bs + "]");
                j.boolean("poly", X->isPolymorphic());
            }
        }
        recJson[id] = j.done();
        return id;
    }

    int type(QualType Q) {
        QualType T = Q.getCanonicalType();
        bool cst = T.isConstQualified();
        T = T.getUnqualifiedType();
        std::string key = (cst ? "const " : "") + T.getAsString(PP) + "@" + std::to_string((uintptr_t) T.getTypePtr());
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = typeJson.size();
        typeIds[key] = id;
        typeJson.push_back("null");
        J j;
        j.str("s", T.getAsString(PP));
        if (cst) j.boolean("const", true);
        const Type* t = T.getTypePtr();
        if (t->isVoidType()) j.str("k", "void");
        else if (t->isBooleanType()) j.str("k", "bool");
        else if (auto* E = dyn_cast<EnumType>(t)) {
            j.str("k", "enum").num("e", enumOf(E->getDecl()));
        } else if (t->isIntegerType()) {
            j.str("k", "int").num("w", C.getTypeSize(T)).boolean("u", t->isUnsignedIntegerType());
            if (t->isAnyCharacterType()) j.boolean("ch", true);
        } else if (t->isRealFloatingType()) j.str("k", "float").num("w", C.getTypeSize(T));
        else if (t->isNullPtrType()) j.str("k", "nullptr");
        else if (auto* P = dyn_cast<PointerType>(t)) j.str("k", "ptr").num("to", type(P->getPointeeType()));
        else if (auto* R = dyn_cast<ReferenceType>(t)) j.str("k", "ref").num("to", type(R->getPointeeType())).boolean("rv", isa<RValueReferenceType>(R));
        else if (auto* R = dyn_cast<RecordType>(t)) j.str("k", "rec").num("r", record(R->getDecl()));
        else if (auto* A = dyn_cast<ConstantArrayType>(t)) j.str("k", "arr").num("el", type(A->getElementType())).num("n", A->getSize().getZExtValue());
        else if (auto* A = dyn_cast<ArrayType>(t)) j.str("k", "arr").num("el", type(A->getElementType()));
        else if (auto* F = dyn_cast<FunctionProtoType>(t)) j.str("k", "fn").num("ret", type(F->getReturnType()));
        else j.str("k", "other").str("cls", t->getTypeClassName());
        typeJson[id] = j.done();
        return id;
    }

    int var(const ValueDecl* V) {
        V = cast<ValueDecl>(V->getCanonicalDecl());
        auto it = varIds.find(V);
        if (it != varIds.end()) return it->second;
        int id = varIds.size() + 1;
        varIds[V] = id;
        return id;
    }

    int glob(const VarDecl* V) {
        const VarDecl* D = V->getDefinition();
        if (!D) D = V->getCanonicalDecl();
        auto it = globIds.find(D);
        if (it != globIds.end()) return it->second;
        int id = globJson.size();
        globIds[D] = id;
        globJson.push_back("null");
        J j;
        j.str("name", D->getQualifiedNameAsString()).num("t", type(D->getType())).boolean("const", D->getType().isConstQualified());
        if (D->getAnyInitializer() && (inRepo(D->getLocation()))) j.raw("init", expr(D->getAnyInitializer()));
        globJson[id] = j.done();
        return id;
    }

    const FunctionDecl* bodyOf(const FunctionDecl* F) {
        const FunctionDecl* D = nullptr;
        if (F->hasBody(D)) return D;
        if (F->isDefined(D)) return D;
        return F;
    }

    int fn(const FunctionDecl* F0) {
        const FunctionDecl* F = bodyOf(F0);
        const FunctionDecl* K = F->getCanonicalDecl();
        auto it = fnIds.find(K);
        if (it != fnIds.end()) return it->second;
        int id = fnJson.size();
        fnIds[K] = id;
        fnJson.push_back("null");
        work.push_back(F);
        return id;
    }

    void emitFn(const FunctionDecl* F) {
        int id = fnIds[F->getCanonicalDecl()];
        J j;
        j.num("id", id);
        std::string nm;
        { llvm::raw_string_ostream os(nm); F->getNameForDiagnostic(os, PP, true); }
        j.str("qn", F->getQualifiedNameAsString()).str("sig", nm);
        j.str("loc", loc(F->getLocation()));
        j.num("ret", type(F->getReturnType()));
        std::string ps = "[";
        bool f = true;
        for (auto* p : F->parameters()) {
            if (!f) ps += ",";
            f = false;
            ps += J().str("n", p->getName()).num("id", var(p)).num("t", type(p->getType())).done();
        }
        j.raw("params", ps + "]");
        if (auto* A = F->getTemplateSpecializationArgs()) {
            std::string s = "[";
            bool ff = true;
            for (auto& a : A->asArray()) { if (!ff) s += ","; ff = false; s += targ(a); }
            j.raw("targs", s + "]");
        }
        if (F->isNoReturn()) j.boolean("noreturn", true);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            j.num("cls", record(M->getParent()));
            j.boolean("static", M->isStatic());
            j.boolean("constm", M->isConst());
            if (M->isVirtual()) j.boolean("virt", true);
            if (M->isVirtual()) {
                std::string s = "[";
                bool ff = true;
                for (auto* o : M->overridden_methods()) { if (!ff) s += ","; ff = false; s += std::to_string(fn(o)); }
                j.raw("ovr", s + "]");
            }
            if (M->isCopyAssignmentOperator()) j.str("spec", "copyassign");
            else if (M->isMoveAssignmentOperator()) j.str("spec", "moveassign");
        }
        bool own = inRepo(F->getLocation());
        j.boolean("own", own);
        if (F->isDefaulted()) j.boolean("defaulted", true);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            j.boolean("ctor", true);
            if (K->isCopyConstructor()) j.str("spec", "copy");
            else if (K->isMoveConstructor()) j.str("spec", "move");
            else if (K->isDefaultConstructor()) j.str("spec", "default");
            if (own && F->hasBody()) {
                std::string is = "[";
                f = true;
                for (auto* I : K->inits()) {
                    J ij;
                    if (I->isMemberInitializer()) ij.str("m", I->getMember()->getName()).num("mid", var(I->getMember()));
                    else if (I->isBaseInitializer()) ij.num("b", type(QualType(I->getBaseClass(), 0)));
                    else if (I->isDelegatingInitializer()) ij.boolean("deleg", true);
                    if (I->getInit()) ij.raw("e", expr(I->getInit()));
                    if (!f) is += ",";
                    f = false;
                    is += ij.done();
                }
                j.raw("inits", is + "]");
            }
        }
        if (isa<CXXDestructorDecl>(F)) j.boolean("dtor", true);
        if (own && F->hasBody()) {
            j.raw("body", stmt(F->getBody()));
            SourceRange R = F->getSourceRange();
            llvm::StringRef txt = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getExpansionRange(R).getAsRange()), SM, C.getLangOpts());
            j.num("srclen", txt.size());
            j.num("hash", (long) (llvm::hash_value(txt) & 0x7fffffff));
        }
        fnJson[id] = j.done();
    }

    std::string list(llvm::ArrayRef<const Expr*> es) {
        std::string s = "[";
        bool f = true;
        for (auto* e : es) { if (!f) s += ","; f = false; s += expr(e); }
        return s + "]";
    }

    std::string varDecl(const VarDecl* V) {
        J j;
        j.str("n", V->getName()).num("id", var(V)).num("t", type(V->getType()));
        if (V->isStaticLocal()) j.boolean("static", true).num("g", glob(V));
        if (V->getInit()) j.raw("init", expr(V->getInit()));
        if (auto* VA = dyn_cast<VariableArrayType>(V->getType().getTypePtr())) if (VA->getSizeExpr()) j.raw("vla", expr(VA->getSizeExpr()));
        return j.done();
    }

    std::string stmt(const Stmt* S) {
        if (!S) return "null";
        if (auto* E = dyn_cast<Expr>(S)) return J().str("k", "expr").str("l", loc(S->getBeginLoc())).raw("e", expr(E)).done();
        J j;
        j.str("l", loc(S->getBeginLoc()));
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            std::string s = "[";
            bool f = true;
            for (auto* c : X->body()) { if (!f) s += ","; f = false; s += stmt(c); }
            return j.str("k", "block").raw("b", s + "]").done();
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            std::string s = "[";
            bool f = true;
            for (auto* d : X->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) { if (!f) s += ","; f = false; s += varDecl(V); }
            }
            return j.str("k", "decl").raw("v", s + "]").done();
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            j.str("k", "if");
            if (X->getInit()) j.raw("init", stmt(X->getInit()));
            if (X->getConditionVariableDeclStmt()) j.raw("cv", stmt(X->getConditionVariableDeclStmt()));
            return j.raw("c", expr(X->getCond())).raw("t", stmt(X->getThen())).raw("e", stmt(X->getElse())).done();
        }
        if (auto* X = dyn_cast<ForStmt>(S))
            return j.str("k", "for").raw("init", stmt(X->getInit())).raw("c", X->getCond() ? expr(X->getCond()) : "null").raw("inc", X->getInc() ? expr(X->getInc()) : "null").raw("b", stmt(X->getBody())).done();
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            j.str("k", "while");
            if (X->getConditionVariableDeclStmt()) j.raw("cv", stmt(X->getConditionVariableDeclStmt()));
            return j.raw("c", expr(X->getCond())).raw("b", stmt(X->getBody())).done();
        }
        if (auto* X = dyn_cast<DoStmt>(S)) return j.str("k", "do").raw("c", expr(X->getCond())).raw("b", stmt(X->getBody())).done();
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            j.str("k", "rfor").raw("v", varDecl(X->getLoopVariable())).raw("r", X->getRangeInit() ? expr(X->getRangeInit()) : "null");
            return j.raw("b", stmt(X->getBody())).done();
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) return j.str("k", "return").raw("e", X->getRetValue() ? expr(X->getRetValue()) : "null").done();
        if (isa<BreakStmt>(S)) return j.str("k", "break").done();
        if (isa<ContinueStmt>(S)) return j.str("k", "continue").done();
        if (isa<NullStmt>(S)) return j.str("k", "null").done();
        if (auto* X = dyn_cast<SwitchStmt>(S)) return j.str("k", "switch").raw("c", expr(X->getCond())).raw("b", stmt(X->getBody())).done();
        if (auto* X = dyn_cast<CaseStmt>(S)) return j.str("k", "case").raw("v", expr(X->getLHS())).raw("s", stmt(X->getSubStmt())).done();
        if (auto* X = dyn_cast<DefaultStmt>(S)) return j.str("k", "default").raw("s", stmt(X->getSubStmt())).done();
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            std::string s = "[";
            bool f = true;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto* h = X->getHandler(i);
                if (!f) s += ",";
                f = false;
                J hj;
                if (h->getExceptionDecl()) hj.raw("v", varDecl(h->getExceptionDecl()));
                s += hj.raw("b", stmt(h->getHandlerBlock())).done();
            }
            return j.str("k", "try").raw("b", stmt(X->getTryBlock())).raw("h", s + "]").done();
        }
        if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<LabelStmt>(S)) return j.str("k", "label").str("n", X->getName()).raw("s", stmt(X->getSubStmt())).done();
        return j.str("k", "unsupported").str("cls", S->getStmtClassName()).done();
    }

    std::string unsupported(const Expr* E) { return J().str("k", "unsupported").str("cls", E->getStmtClassName()).num("t", type(E->getType())).done(); }

    std::string expr(const Expr* E) {
        if (!E) return "null";
        // transparent wrappers
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return J().str("k", "temp").num("t", type(E->getType())).raw("e", expr(X->getSubExpr())).done();
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return J().str("k", "stdinit").num("t", type(E->getType())).raw("e", expr(X->getSubExpr())).done();
        if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
            switch (X->getCastKind()) {
                case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_UserDefinedConversion: case CK_ConstructorConversion:
                    return expr(X->getSubExpr());
                case CK_LValueToRValue:
                    return J().str("k", "rv").num("t", type(E->getType())).raw("e", expr(X->getSubExpr())).done();
                default: break;
            }
        }
        J j;
        j.str("l", std::to_string(SM.getExpansionLineNumber(E->getExprLoc())));
        if (auto* X = dyn_cast<IntegerLiteral>(E)) return j.str("k", "int").raw("v", llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType())).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<CharacterLiteral>(E)) return j.str("k", "int").num("v", X->getValue()).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) return j.str("k", "bool").boolean("v", X->getValue()).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<32> s; X->getValue().toString(s); return j.str("k", "float").str("v", s).num("t", type(E->getType())).done(); }
        if (auto* X = dyn_cast<clang::StringLiteral>(E)) return j.str("k", "str").str("v", X->getBytes()).num("t", type(E->getType())).done();
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return j.str("k", "nullptr").num("t", type(E->getType())).done();
        if (isa<CXXThisExpr>(E)) return j.str("k", "this").num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) return j.str("k", "int").raw("v", llvm::toString(EC->getInitVal(), 10)).num("t", type(E->getType())).str("en", EC->getName()).done();
            if (auto* F = dyn_cast<FunctionDecl>(D)) return j.str("k", "fnref").num("fn", fn(F)).num("t", type(E->getType())).done();
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage()) return j.str("k", "glob").num("g", glob(V)).str("n", V->getName()).num("t", type(E->getType())).done();
                return j.str("k", "var").num("id", var(V)).str("n", V->getName()).num("t", type(E->getType())).done();
            }
            return unsupported(E);
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            auto* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D))
                return j.str("k", "mem").raw("o", expr(X->getBase())).boolean("ar", X->isArrow()).str("n", F->getName()).num("fid", var(F)).num("cls", record(F->getParent())).num("t", type(E->getType())).done();
            if (auto* V = dyn_cast<VarDecl>(D)) return j.str("k", "glob").num("g", glob(V)).str("n", V->getName()).num("t", type(E->getType())).done();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) return j.str("k", "int").raw("v", llvm::toString(EC->getInitVal(), 10)).num("t", type(E->getType())).done();
            return unsupported(E);
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            auto* M = X->getMethodDecl();
            if (!M) return unsupported(E);
            const Expr* callee = X->getCallee()->IgnoreParens();
            bool arrow = false, qual = false;
            if (auto* ME = dyn_cast<MemberExpr>(callee)) { arrow = ME->isArrow(); qual = ME->hasQualifier(); }
            std::vector<const Expr*> as(X->arg_begin(), X->arg_end());
            return j.str("k", "call").num("fn", fn(M)).raw("o", expr(X->getImplicitObjectArgument())).boolean("ar", arrow).boolean("virt", M->isVirtual() && !qual).raw("a", list(as)).num("t", type(E->getType())).num("rt", type(M->getReturnType())).done();
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto* F = X->getDirectCallee();
            if (!F) return unsupported(E);
            std::vector<const Expr*> as(X->arg_begin(), X->arg_end());
            if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
                std::vector<const Expr*> rest(as.begin() + 1, as.end());
                return j.str("k", "call").num("fn", fn(M)).raw("o", expr(as[0])).boolean("ar", false).boolean("virt", M->isVirtual()).boolean("op", true).raw("a", list(rest)).num("t", type(E->getType())).num("rt", type(M->getReturnType())).done();
            }
            return j.str("k", "call").num("fn", fn(F)).boolean("op", true).raw("a", list(as)).num("t", type(E->getType())).num("rt", type(F->getReturnType())).done();
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            std::vector<const Expr*> as(X->arg_begin(), X->arg_end());
            auto* F = X->getDirectCallee();
            if (!F) return j.str("k", "icall").raw("f", expr(X->getCallee())).raw("a", list(as)).num("t", type(E->getType())).done();
            return j.str("k", "call").num("fn", fn(F)).raw("a", list(as)).num("t", type(E->getType())).num("rt", type(F->getReturnType())).done();
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return j.str("k", "ctor").num("fn", fn(X->getConstructor())).raw("a", "[]").num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            std::vector<const Expr*> as(X->arg_begin(), X->arg_end());
            auto* K = X->getConstructor();
            if (K->isDefaulted() == false || inRepo(K->getLocation())) {}
            j.str("k", "ctor").num("fn", fn(K)).raw("a", list(as)).num("t", type(E->getType()));
            if (K->isCopyConstructor()) j.str("spec", "copy");
            else if (K->isMoveConstructor()) j.str("spec", "move");
            if (X->isElidable()) j.boolean("elide", true);
            if (X->isListInitialization()) j.boolean("list", true);
            if (X->isStdInitListInitialization()) j.boolean("stdil", true);
            return j.done();
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            j.str("k", "new").num("t", type(E->getType())).num("at", type(X->getAllocatedType()));
            if (X->isArray() && X->getArraySize()) j.raw("n", expr(*X->getArraySize()));
            if (X->getInitializer()) j.raw("init", expr(X->getInitializer()));
            return j.done();
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) return j.str("k", "delete").raw("e", expr(X->getArgument())).boolean("arr", X->isArrayForm()).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) return j.str("k", "throw").raw("e", X->getSubExpr() ? expr(X->getSubExpr()) : "null").num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<CastExpr>(E)) {
            j.str("k", "cast").str("ck", X->getCastKindName()).num("t", type(E->getType())).raw("e", expr(X->getSubExpr()));
            if (isa<CXXDynamicCastExpr>(E)) j.boolean("dyn", true);
            return j.done();
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(E))
            return j.str("k", "casg").str("op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode()))).raw("a", expr(X->getLHS())).raw("b", expr(X->getRHS())).num("t", type(E->getType())).num("ct", type(X->getComputationResultType())).done();
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            if (X->getOpcode() == BO_Assign) return j.str("k", "asg").raw("a", expr(X->getLHS())).raw("b", expr(X->getRHS())).num("t", type(E->getType())).done();
            return j.str("k", "bin").str("op", X->getOpcodeStr()).raw("a", expr(X->getLHS())).raw("b", expr(X->getRHS())).num("t", type(E->getType())).done();
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) op = "post" + op;
            return j.str("k", "un").str("op", op).raw("a", expr(X->getSubExpr())).num("t", type(E->getType())).done();
        }
        if (auto* X = dyn_cast<ConditionalOperator>(E)) return j.str("k", "cond").raw("c", expr(X->getCond())).raw("a", expr(X->getTrueExpr())).raw("b", expr(X->getFalseExpr())).num("t", type(E->getType())).boolean("lv", E->isLValue()).done();
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) return j.str("k", "idx").raw("a", expr(X->getBase())).raw("b", expr(X->getIdx())).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C)) return j.str("k", "int").raw("v", llvm::toString(R.Val.getInt(), 10)).num("t", type(E->getType())).boolean("sizeof", true).done();
            return unsupported(E);
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            const InitListExpr* S = X;
            std::vector<const Expr*> as;
            for (unsigned q = 0; q < S->getNumInits(); ++q) as.push_back(S->getInit(q));
            return j.str("k", "init").num("t", type(E->getType())).raw("a", list(as)).done();
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return j.str("k", "zero").num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            j.str("k", "lambda").num("t", type(E->getType())).num("fn", fn(X->getCallOperator()));
            std::string s = "[";
            bool f = true;
            for (auto& c : X->captures()) {
                if (!f) s += ",";
                f = false;
                if (c.capturesThis()) s += "{\"this\":true}";
                else if (c.capturesVariable()) s += J().num("id", var(c.getCapturedVar())).boolean("ref", c.getCaptureKind() == LCK_ByRef).done();
                else s += "null";
            }
            return j.raw("caps", s + "]").done();
        }
        if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) return j.str("k", "bool").boolean("v", X->getValue()).num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<TypeTraitExpr>(E)) return j.str("k", "bool").boolean("v", X->getValue()).num("t", type(E->getType())).done();
        if (isa<CXXTypeidExpr>(E)) return j.str("k", "typeid").num("t", type(E->getType())).done();
        if (isa<PredefinedExpr>(E)) return j.str("k", "str").str("v", "?").num("t", type(E->getType())).done();
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
        if (auto* X = dyn_cast<CompoundLiteralExpr>(E)) return expr(X->getInitializer());
        return unsupported(E);
    }

    void run() {
        struct V : RecursiveASTVisitor<V> {
            Extractor& X;
            explicit V(Extractor& x) : X(x) {}
            bool shouldVisitTemplateInstantiations() const { return true; }
            bool VisitFunctionDecl(FunctionDecl* F) {
                if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return true;
                if (F->getDeclName().isIdentifier() && F->getName().startswith("vroot_")) X.fn(F);
                else if (gAllMain && X.SM.isInMainFile(X.SM.getExpansionLoc(F->getLocation()))) X.fn(F);
                else if (!gExtraRoots.empty() && gExtraRoots.count(F->getQualifiedNameAsString()) && !F->isTemplated()) X.fn(F);
                return true;
            }
        } v(*this);
        v.TraverseDecl(C.getTranslationUnitDecl());
        while (!work.empty()) {
            auto* F = work.front();
            work.pop_front();
            emitFn(F);
        }
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        auto dump = [&](const char* n, std::vector<std::string>& v) {
            os << "\"" << n << "\":[\n";
            for (size_t i = 0; i < v.size(); ++i) os << v[i] << (i + 1 < v.size() ? ",\n" : "\n");
            os << "]";
        };
        os << "{";
        dump("fns", fnJson); os << ",\n";
        dump("types", typeJson); os << ",\n";
        dump("recs", recJson); os << ",\n";
        dump("enums", enumJson); os << ",\n";
        dump("globs", globJson); os << "}\n";
    }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& c) : CI(c) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Extractor(C).run();
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};
class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: extract SRC OUT.json [--repo PREFIX]... [--all-main] [--root QN]... -- compiler flags
int main(int argc, const char** argv) {
    std::string src = argv[1];
    gOut = argv[2];
    std::vector<std::string> flags;
    int i = 3;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "--repo") gRepoPrefix.push_back(argv[++i]);
        else if (a == "--all-main") gAllMain = true;
        else if (a == "--root") gExtraRoots.insert(argv[++i]);
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    Factory f;
    return tool.run(&f);
}
