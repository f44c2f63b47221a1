// Dumps the type-checked program of one translation unit as JSON (one object on stdout).
// Usage: vfront <source> <repo-prefix> -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Prefix;

namespace {

using llvm::APSInt;
Value ival(const APSInt &v) {
    if (v.isRepresentableByInt64()) return Value((int64_t)v.getExtValue());
    return Value((uint64_t)v.getLimitedValue());
}
std::string istr(const APSInt &v) {
    return v.isRepresentableByInt64() ? std::to_string(v.getExtValue()) : std::to_string((uint64_t)v.getLimitedValue());
}

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    int nextId = 1;
    std::map<const Type *, std::string> typeCache;

    explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        return std::string(P.str());
    }
    int lineOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
    }
    bool inRepo(const Decl *D) {
        std::string f = fileOf(D->getLocation());
        return f.compare(0, Prefix.size(), Prefix) == 0;
    }
    int idOf(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        return ids[D] = nextId++;
    }

    // ---- types ----
    static bool constInt(const Expr *E, ASTContext &C, int64_t &v) {
        if (!E) return false;
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->EvaluateAsInt(R, C) && R.Val.getInt().isRepresentableByInt64()) { v = R.Val.getInt().getExtValue(); return true; }
        return false;
    }
    bool findEnumerator(const CXXRecordDecl *R, StringRef Name, int64_t &v, int depth = 0) {
        if (!R || depth > 12) return false;
        R = R->getDefinition();
        if (!R) return false;
        for (const Decl *D : R->decls()) {
            if (const auto *ED = dyn_cast<EnumDecl>(D)) {
                for (const auto *EC : ED->enumerators())
                    if (EC->getName() == Name) { v = EC->getInitVal().isRepresentableByInt64() ? EC->getInitVal().getExtValue() : (int64_t)EC->getInitVal().getLimitedValue(); return true; }
            }
            if (const auto *VD = dyn_cast<VarDecl>(D)) {
                if (VD->getIdentifier() && VD->getName() == Name && VD->getAnyInitializer()) {
                    if (constInt(VD->getAnyInitializer(), C, v)) return true;
                }
            }
        }
        for (const auto &B : R->bases())
            if (findEnumerator(B.getType()->getAsCXXRecordDecl(), Name, v, depth + 1)) return true;
        return false;
    }
    bool derivesFrom(const CXXRecordDecl *R, StringRef Q, int depth = 0) {
        if (!R || depth > 12) return false;
        if (R->getQualifiedNameAsString() == Q) return true;
        const CXXRecordDecl *D = R->getDefinition();
        if (!D) return false;
        for (const auto &B : D->bases())
            if (derivesFrom(B.getType()->getAsCXXRecordDecl(), Q, depth + 1)) return true;
        return false;
    }
    std::string targ(const ClassTemplateSpecializationDecl *S, unsigned i) {
        if (i >= S->getTemplateArgs().size()) return "?";
        const TemplateArgument &A = S->getTemplateArgs()[i];
        if (A.getKind() == TemplateArgument::Type) return desc(A.getAsType());
        if (A.getKind() == TemplateArgument::Integral) return istr(A.getAsIntegral());
        return "?";
    }
    std::string desc(QualType T) {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        std::string pre;
        if (T->isLValueReferenceType()) { pre = "&"; T = T->getPointeeType(); }
        else if (T->isRValueReferenceType()) { pre = "&&"; T = T->getPointeeType(); }
        if (T.isConstQualified()) pre += "c:";
        const Type *Ty = T.getTypePtr();
        auto it = typeCache.find(Ty);
        if (it != typeCache.end()) return pre + it->second;
        typeCache[Ty] = "?";
        std::string s = descU(Ty);
        typeCache[Ty] = s;
        return pre + s;
    }
    std::string descU(const Type *T) {
        if (T->isVoidType()) return "void";
        if (T->isBooleanType()) return "b";
        if (const auto *ET = T->getAs<EnumType>()) return "e:" + ET->getDecl()->getQualifiedNameAsString();
        if (T->isIntegerType()) {
            if (T->isDependentType()) return "?";
            return std::string(T->isUnsignedIntegerType() ? "u" : "i") + std::to_string(C.getTypeSize(T));
        }
        if (T->isFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
        if (T->isNullPtrType()) return "null";
        if (T->isPointerType()) return "p<" + desc(T->getPointeeType().getUnqualifiedType()) + ">";
        if (T->isArrayType()) {
            std::string n = "?";
            if (const auto *CA = dyn_cast<ConstantArrayType>(T)) n = std::to_string(CA->getSize().getZExtValue());
            return "arr<" + desc(QualType(T->getArrayElementTypeNoTypeQual(), 0)) + ";" + n + ">";
        }
        if (const CXXRecordDecl *R = T->getAsCXXRecordDecl()) {
            std::string q = R->getQualifiedNameAsString();
            if (R->isLambda()) return "lambda";
            const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R);
            if (S) {
                if (q == "std::shared_ptr" || q == "std::unique_ptr" || q == "std::__shared_ptr") return "P<" + targ(S, 0) + ">";
                if (q == "std::weak_ptr") return "W<" + targ(S, 0) + ">";
                if (q == "std::vector") return "vec<" + targ(S, 0) + ">";
                if (q == "std::deque" || q == "std::list" || q == "std::queue") return "deq<" + targ(S, 0) + ">";
                if (q == "std::array") return "array<" + targ(S, 0) + ";" + targ(S, 1) + ">";
                if (q == "std::unordered_map") return "umap<" + targ(S, 0) + ";" + targ(S, 1) + ">";
                if (q == "std::map") return "map<" + targ(S, 0) + ";" + targ(S, 1) + ">";
                if (q == "std::multimap") return "mmap<" + targ(S, 0) + ";" + targ(S, 1) + ">";
                if (q == "std::multiset") return "mset<" + targ(S, 0) + ">";
                if (q == "std::set" || q == "std::unordered_set") return "set<" + targ(S, 0) + ">";
                if (q == "std::pair") return "pair<" + targ(S, 0) + ";" + targ(S, 1) + ">";
                if (q == "std::tuple") {
                    std::string r = "tup<";
                    if (S->getTemplateArgs().size() == 1 && S->getTemplateArgs()[0].getKind() == TemplateArgument::Pack) {
                        bool f = true;
                        for (const TemplateArgument &A : S->getTemplateArgs()[0].pack_elements()) {
                            if (!f) r += ";";
                            f = false;
                            r += A.getKind() == TemplateArgument::Type ? desc(A.getAsType()) : "?";
                        }
                    }
                    return r + ">";
                }
                if (q == "std::optional") return "opt<" + targ(S, 0) + ">";
                if (q == "std::initializer_list") return "il<" + targ(S, 0) + ">";
                if (q == "std::basic_string") return "str";
                if (q == "__gnu_cxx::__normal_iterator" || q == "std::_Deque_iterator" || q == "std::__detail::_Node_iterator" ||
                    q == "std::__detail::_Node_const_iterator" || q == "std::_Rb_tree_iterator" || q == "std::_Rb_tree_const_iterator" ||
                    q == "std::_List_iterator" || q == "std::_List_const_iterator" || q == "std::__detail::_Node_const_iterator_base" || q == "std::__detail::_Node_iterator_base") return "it";
                if (q == "std::reverse_iterator") return "rit";
                if (q == "std::_Bit_iterator" || q == "std::_Bit_reference") return "X:" + q;
                if (q == "Eigen::Matrix") return "M:" + targ(S, 0) + ":" + targ(S, 1) + "," + targ(S, 2);
                if (q == "Eigen::Quaternion") return "Q:" + targ(S, 0);
            }
            if (q.compare(0, 7, "Eigen::") == 0) {
                if (derivesFrom(R, "Eigen::QuaternionBase")) return "QX";
                int64_t r = 0, c = 0;
                if (findEnumerator(R, "RowsAtCompileTime", r) && findEnumerator(R, "ColsAtCompileTime", c)) {
                    std::string k = q.substr(7);
                    if (derivesFrom(R, "Eigen::ArrayBase") && k.compare(0, 5, "Array")) k = "Array" + k;
                    return "MX:" + k + ":" + std::to_string(r) + "," + std::to_string(c);
                }
                return "E:" + q;
            }
            std::string f = fileOf(R->getLocation());
            if (f.compare(0, Prefix.size(), Prefix) == 0) {
                if (S) { // template class of the repository: print arguments
                    std::string s; llvm::raw_string_ostream os(s);
                    QualType(T, 0).print(os, PP);
                    return "R:" + os.str();
                }
                return "R:" + q;
            }
            return "X:" + q;
        }
        std::string s; llvm::raw_string_ostream os(s);
        QualType(T, 0).print(os, PP);
        return "X:" + os.str();
    }

    // ---- functions ----
    std::string fnKey(const FunctionDecl *F) {
        std::string s; llvm::raw_string_ostream os(s);
        os << F->getQualifiedNameAsString();
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
            os << "<";
            for (unsigned i = 0; i < TA->size(); ++i) {
                if (i) os << ",";
                TA->get(i).print(PP, os, true);
            }
            os << ">";
        }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
                os << "[";
                for (unsigned i = 0; i < S->getTemplateArgs().size(); ++i) {
                    if (i) os << ",";
                    S->getTemplateArgs()[i].print(PP, os, true);
                }
                os << "]";
            }
        }
        os << "(";
        for (unsigned i = 0; i < F->getNumParams(); ++i) {
            if (i) os << ", ";
            F->getParamDecl(i)->getType().getCanonicalType().print(os, PP);
        }
        os << ")";
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << " const";
        return os.str();
    }
    Array templArgs(const FunctionDecl *F) {
        Array a;
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
            for (unsigned i = 0; i < TA->size(); ++i) {
                const auto &A = TA->get(i);
                if (A.getKind() == TemplateArgument::Integral) a.push_back(ival(A.getAsIntegral()));
                else if (A.getKind() == TemplateArgument::Type) a.push_back(desc(A.getAsType()));
                else a.push_back(nullptr);
            }
        }
        return a;
    }

    std::string varRef(const ValueDecl *D) {
        if (const auto *V = dyn_cast<VarDecl>(D)) {
            if (V->isStaticLocal()) {
                std::string fn = "?";
                if (const auto *F = dyn_cast_or_null<FunctionDecl>(V->getDeclContext())) fn = fnKey(F);
                return "s:" + fn + "::" + V->getNameAsString();
            }
            if (V->hasGlobalStorage()) return "g:" + V->getQualifiedNameAsString();
        }
        return "v" + std::to_string(idOf(D));
    }

    // ---- expressions ----
    Object node(const char *k, const Expr *E) {
        Object o;
        o["k"] = k;
        o["t"] = desc(E->getType());
        if (E->isLValue()) o["lv"] = 1;
        o["l"] = lineOf(E->getExprLoc());
        return o;
    }
    template <typename Rng> Array exprs(Rng R) {
        Array a;
        for (const Expr *E : R) a.push_back(expr(E));
        return a;
    }
    Value lambda(const LambdaExpr *L) {
        Object o = node("lambda", L);
        const CXXMethodDecl *M = L->getCallOperator();
        const FunctionDecl *F = M;
        if (const FunctionTemplateDecl *FT = L->getDependentCallOperator()) {
            // a generic lambda: one body for each instantiation
            Array specs;
            for (const FunctionDecl *S : FT->specializations()) {
                F = S;
                if (!S->hasBody() || S->isDependentContext()) continue;
                Object x;
                x["fn"] = fnKey(S);
                Array ps;
                for (const ParmVarDecl *P : S->parameters()) ps.push_back(var(P));
                x["params"] = std::move(ps);
                x["body"] = stmt(S->getBody());
                specs.push_back(std::move(x));
            }
            if (specs.size() > 1) o["specs"] = std::move(specs);
        }
        o["fn"] = fnKey(F);
        Array ps;
        for (const ParmVarDecl *P : F->parameters()) ps.push_back(var(P));
        o["params"] = std::move(ps);
        if (F->hasBody() && !F->isDependentContext()) o["body"] = stmt(F->getBody());
        if (L->isMutable()) o["mut"] = 1;
        Array caps;
        for (const auto &Cp : L->captures()) {
            Object c;
            if (Cp.capturesThis()) { c["this"] = 1; if (Cp.getCaptureKind() == LCK_StarThis) c["copy"] = 1; }
            else if (Cp.capturesVariable()) {
                c["id"] = varRef(Cp.getCapturedVar());
                c["byref"] = Cp.getCaptureKind() == LCK_ByRef ? 1 : 0;
                if (const auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
                    if (VD->isInitCapture() && VD->getInit()) c["init"] = expr(VD->getInit());
            }
            caps.push_back(std::move(c));
        }
        o["caps"] = std::move(caps);
        return std::move(o);
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        while (true) {
            if (const auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (const auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (const auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (const auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            break;
        }
        if (const auto *CE = dyn_cast<CastExpr>(E)) {
            switch (CE->getCastKind()) {
                case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_IntegralCast:
                case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_BooleanToSignedIntegral: {
                    Object o = node("cast", E);
                    o["e"] = expr(CE->getSubExpr());
                    o["from"] = desc(CE->getSubExpr()->getType());
                    if (!isa<ImplicitCastExpr>(CE)) o["x"] = 1;
                    return std::move(o);
                }
                case CK_ToVoid: return expr(CE->getSubExpr());
                case CK_NullToPointer: { Object o = node("null", E); return std::move(o); }
                default: return expr(CE->getSubExpr());
            }
        }
        if (const auto *I = dyn_cast<IntegerLiteral>(E)) {
            Object o = node("int", E); o["v"] = ival(APSInt(I->getValue(), I->getType()->isUnsignedIntegerType())); return std::move(o);
        }
        if (const auto *I = dyn_cast<FloatingLiteral>(E)) {
            Object o = node("flt", E);
            llvm::SmallString<32> S; I->getValue().toString(S, 17);
            o["v"] = std::string(S.str());
            if (!I->getValue().isFinite()) { o["v"] = I->getValue().isNaN() ? "nan" : (I->getValue().isNegative() ? "-inf" : "inf"); }
            return std::move(o);
        }
        if (const auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = node("bool", E); o["v"] = I->getValue(); return std::move(o); }
        if (const auto *I = dyn_cast<CharacterLiteral>(E)) { Object o = node("int", E); o["v"] = (int64_t)I->getValue(); return std::move(o); }
        if (const auto *S = dyn_cast<StringLiteral>(E)) {
            Object o = node("str", E);
            o["v"] = S->isOrdinary() ? llvm::json::fixUTF8(S->getString()) : std::string();
            return std::move(o);
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { return node("null", E); }
        if (isa<CXXThisExpr>(E)) { return node("this", E); }
        if (const auto *D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *V = D->getDecl();
            if (const auto *EC = dyn_cast<EnumConstantDecl>(V)) {
                Object o = node("int", E); o["v"] = ival(EC->getInitVal()); o["enum"] = EC->getQualifiedNameAsString();
                return std::move(o);
            }
            if (const auto *F = dyn_cast<FunctionDecl>(V)) {
                Object o = node("fnref", E); o["fn"] = F->getQualifiedNameAsString(); o["key"] = fnKey(F); return std::move(o);
            }
            if (const auto *Bd = dyn_cast<BindingDecl>(V)) {
                Object o = node("var", E); o["id"] = "v" + std::to_string(idOf(Bd)); o["name"] = Bd->getNameAsString(); o["bind"] = 1;
                return std::move(o);
            }
            Object o = node("var", E);
            o["id"] = varRef(V);
            o["name"] = V->getNameAsString();
            if (const auto *VD = dyn_cast<VarDecl>(V)) {
                // a namespace-scope constant: give its value
                if (VD->hasGlobalStorage() && VD->getType().isConstQualified() && !VD->isStaticLocal() &&
                    VD->getType()->isArithmeticType() && VD->getAnyInitializer() && !VD->getAnyInitializer()->isValueDependent()) {
                    Expr::EvalResult R;
                    if (VD->getAnyInitializer()->EvaluateAsRValue(R, C)) {
                        if (R.Val.isInt()) o["cv"] = ival(R.Val.getInt());
                        else if (R.Val.isFloat()) { llvm::SmallString<32> S; R.Val.getFloat().toString(S, 17); o["cf"] = std::string(S.str()); }
                    }
                }
                if (VD->getType()->isReferenceType()) o["ref"] = 1;
            }
            return std::move(o);
        }
        if (const auto *M = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *V = M->getMemberDecl();
            if (const auto *VD = dyn_cast<VarDecl>(V)) {
                Object o = node("var", E); o["id"] = varRef(VD); o["name"] = VD->getNameAsString(); return std::move(o);
            }
            if (const auto *EC = dyn_cast<EnumConstantDecl>(V)) {
                Object o = node("int", E); o["v"] = ival(EC->getInitVal()); return std::move(o);
            }
            Object o = node("mem", E);
            o["b"] = expr(M->getBase());
            o["f"] = V->getNameAsString();
            o["arrow"] = M->isArrow() ? 1 : 0;
            if (const auto *FD = dyn_cast<FieldDecl>(V)) {
                o["rec"] = FD->getParent()->getQualifiedNameAsString();
                if (FD->getType()->isReferenceType()) o["ref"] = 1;
            }
            return std::move(o);
        }
        if (const auto *U = dyn_cast<UnaryOperator>(E)) {
            Object o = node("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = 1;
            o["e"] = expr(U->getSubExpr());
            return std::move(o);
        }
        if (const auto *B = dyn_cast<BinaryOperator>(E)) {
            Object o = node(B->isAssignmentOp() ? "asg" : "bin", E);
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr(B->getLHS());
            o["c"] = expr(B->getRHS());
            if (const auto *CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = desc(CA->getComputationResultType());
            return std::move(o);
        }
        if (const auto *Q = dyn_cast<ConditionalOperator>(E)) {
            Object o = node("cond", E);
            o["q"] = expr(Q->getCond()); o["a"] = expr(Q->getTrueExpr()); o["c"] = expr(Q->getFalseExpr());
            return std::move(o);
        }
        if (const auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = node("idx", E);
            o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx());
            return std::move(o);
        }
        if (const auto *L = dyn_cast<LambdaExpr>(E)) return lambda(L);
        if (const auto *N = dyn_cast<CXXNewExpr>(E)) {
            Object o = node("new", E);
            o["of"] = desc(N->getAllocatedType());
            o["init"] = expr(N->getInitializer());
            return std::move(o);
        }
        if (const auto *N = dyn_cast<CXXDeleteExpr>(E)) {
            Object o = node("delete", E); o["e"] = expr(N->getArgument()); return std::move(o);
        }
        if (const auto *T = dyn_cast<CXXConstructExpr>(E)) {
            Object o = node("ctor", E);
            const CXXConstructorDecl *CD = T->getConstructor();
            o["key"] = fnKey(CD);
            o["rec"] = CD->getParent()->getQualifiedNameAsString();
            o["args"] = exprs(T->arguments());
            if (CD->isCopyOrMoveConstructor()) o["copy"] = 1;
            if (T->isListInitialization()) o["list"] = 1;
            if (T->requiresZeroInitialization()) o["zi"] = 1;
            if (CD->isDefaultConstructor()) o["dflt"] = 1;
            if (CD->isImplicit() || CD->isDefaulted()) o["impl"] = 1;
            return std::move(o);
        }
        if (const auto *S = dyn_cast<CXXScalarValueInitExpr>(E)) { return node("zero", S); }
        if (const auto *S = dyn_cast<ImplicitValueInitExpr>(E)) { return node("zero", S); }
        if (const auto *I = dyn_cast<InitListExpr>(E)) {
            if (const InitListExpr *Sem = I->getSemanticForm()) I = Sem;
            Object o = node("ilist", I);
            Array a;
            for (const Expr *X : I->inits()) a.push_back(expr(X));
            o["args"] = std::move(a);
            if (const CXXRecordDecl *R = I->getType()->getAsCXXRecordDecl()) {
                Array fs;
                for (const FieldDecl *F : R->fields()) fs.push_back(F->getNameAsString());
                o["fields"] = std::move(fs);
                o["rec"] = R->getQualifiedNameAsString();
            }
            return std::move(o);
        }
        if (const auto *Cl = dyn_cast<CallExpr>(E)) {
            Object o = node("call", E);
            const FunctionDecl *F = Cl->getDirectCallee();
            Array args;
            unsigned first = 0;
            if (const auto *OC = dyn_cast<CXXOperatorCallExpr>(Cl)) {
                o["op"] = std::string(getOperatorSpelling(OC->getOperator()));
                if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && OC->getNumArgs() > 0) {
                    o["obj"] = expr(OC->getArg(0));
                    first = 1;
                }
            } else if (const auto *MC = dyn_cast<CXXMemberCallExpr>(Cl)) {
                const Expr *Callee = MC->getCallee()->IgnoreParens();
                if (const auto *ME = dyn_cast<MemberExpr>(Callee)) {
                    o["obj"] = expr(ME->getBase());
                    o["arrow"] = ME->isArrow() ? 1 : 0;
                }
            }
            for (unsigned i = first; i < Cl->getNumArgs(); ++i) args.push_back(expr(Cl->getArg(i)));
            o["args"] = std::move(args);
            if (F) {
                o["fn"] = F->getQualifiedNameAsString();
                o["name"] = F->getNameAsString();
                o["key"] = fnKey(F);
                Array ta = templArgs(F);
                if (!ta.empty()) o["ta"] = std::move(ta);
                if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
                    o["rec"] = M->getParent()->getQualifiedNameAsString();
                    if (M->isStatic()) o["smeth"] = 1;
                    if (M->isConst()) o["const"] = 1;
                }
                if (inRepo(F)) o["repo"] = 1;
            } else {
                o["callee"] = expr(Cl->getCallee());
            }
            return std::move(o);
        }
        {
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
                Object o = node("int", E); o["v"] = ival(R.Val.getInt()); return std::move(o);
            }
        }
        Object o = node("opaque", E);
        o["cls"] = E->getStmtClassName();
        return std::move(o);
    }

    // ---- statements ----
    Object var(const VarDecl *V) {
        Object o;
        o["id"] = varRef(V);
        o["name"] = V->getNameAsString();
        o["t"] = desc(V->getType());
        o["l"] = lineOf(V->getLocation());
        if (V->isStaticLocal()) o["static"] = 1;
        if (!isa<ParmVarDecl>(V) && V->getInit()) o["init"] = expr(V->getInit());
        return o;
    }
    Object snode(const char *k, const Stmt *S) {
        Object o;
        o["k"] = k;
        o["l"] = lineOf(S->getBeginLoc());
        return o;
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (const auto *E = dyn_cast<Expr>(S)) {
            Object o = snode("expr", S); o["e"] = expr(E); return std::move(o);
        }
        if (const auto *B = dyn_cast<CompoundStmt>(S)) {
            Object o = snode("block", S);
            Array a;
            for (const Stmt *X : B->body()) a.push_back(stmt(X));
            o["b"] = std::move(a);
            return std::move(o);
        }
        if (const auto *D = dyn_cast<DeclStmt>(S)) {
            Object o = snode("decl", S);
            Array a;
            for (const Decl *X : D->decls()) {
                if (const auto *DD = dyn_cast<DecompositionDecl>(X)) {
                    Object v = var(DD);
                    Array bs;
                    for (const BindingDecl *Bd : DD->bindings()) bs.push_back("v" + std::to_string(idOf(Bd)));
                    v["bindings"] = std::move(bs);
                    a.push_back(std::move(v));
                } else if (const auto *V = dyn_cast<VarDecl>(X)) a.push_back(var(V));
            }
            o["vars"] = std::move(a);
            return std::move(o);
        }
        if (const auto *I = dyn_cast<IfStmt>(S)) {
            if (I->isConsteval()) return snode("opaque", S);
            Object o = snode("if", S);
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
            int64_t v;
            if (I->isConstexpr() && constInt(I->getCond(), C, v)) {
                Object b; b["k"] = "bool"; b["t"] = "b"; b["l"] = lineOf(I->getBeginLoc()); b["v"] = v != 0;
                o["q"] = std::move(b);
            } else o["q"] = expr(I->getCond());
            o["a"] = stmt(I->getThen());
            if (I->getElse()) o["c"] = stmt(I->getElse());
            return std::move(o);
        }
        if (const auto *W = dyn_cast<WhileStmt>(S)) {
            Object o = snode("while", S); 
            if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
            o["q"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o);
        }
        if (const auto *W = dyn_cast<DoStmt>(S)) {
            Object o = snode("do", S); o["q"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o);
        }
        if (const auto *F = dyn_cast<ForStmt>(S)) {
            Object o = snode("for", S);
            o["init"] = stmt(F->getInit()); o["q"] = expr(F->getCond()); o["inc"] = expr(F->getInc()); o["b"] = stmt(F->getBody());
            return std::move(o);
        }
        if (const auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            Object o = snode("rfor", S);
            const VarDecl *LV = F->getLoopVariable();
            Object v = var(LV);
            v.erase("init");
            if (const auto *DD = dyn_cast<DecompositionDecl>(LV)) {
                Array bs;
                for (const BindingDecl *Bd : DD->bindings()) bs.push_back("v" + std::to_string(idOf(Bd)));
                v["bindings"] = std::move(bs);
            }
            o["var"] = std::move(v);
            o["range"] = expr(F->getRangeInit());
            o["b"] = stmt(F->getBody());
            return std::move(o);
        }
        if (const auto *R = dyn_cast<ReturnStmt>(S)) { Object o = snode("ret", S); o["e"] = expr(R->getRetValue()); return std::move(o); }
        if (isa<BreakStmt>(S)) return snode("break", S);
        if (isa<ContinueStmt>(S)) return snode("cont", S);
        if (isa<NullStmt>(S)) return snode("nop", S);
        if (const auto *W = dyn_cast<SwitchStmt>(S)) {
            Object o = snode("switch", S); o["q"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o);
        }
        if (const auto *W = dyn_cast<CaseStmt>(S)) {
            Object o = snode("case", S);
            int64_t v = 0; constInt(W->getLHS(), C, v); o["v"] = v;
            o["b"] = stmt(W->getSubStmt()); return std::move(o);
        }
        if (const auto *W = dyn_cast<DefaultStmt>(S)) { Object o = snode("default", S); o["b"] = stmt(W->getSubStmt()); return std::move(o); }
        if (const auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (const auto *L = dyn_cast<LabelStmt>(S)) { Object o = snode("opaque", S); o["cls"] = "LabelStmt"; (void)L; return std::move(o); }
        Object o = snode("opaque", S);
        o["cls"] = S->getStmtClassName();
        return std::move(o);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper D;
    Array functions, records, vars;
    Object enums;
    std::set<std::string> seenF, seenR, seenV;
    explicit Visitor(ASTContext &C) : D(C) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !D.inRepo(F)) return true;
        if (F->isDeleted() || F->isDefaulted()) return true;
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (!F->getBody()) return true;
        std::string key = D.fnKey(F);
        if (!seenF.insert(key).second) return true;
        Object o;
        o["key"] = key;
        o["fn"] = F->getQualifiedNameAsString();
        o["name"] = F->getNameAsString();
        o["file"] = D.fileOf(F->getLocation());
        o["line"] = D.lineOf(F->getLocation());
        o["end"] = D.lineOf(F->getEndLoc());
        o["ret"] = D.desc(F->getReturnType());
        Array ps;
        for (const ParmVarDecl *P : F->parameters()) ps.push_back(D.var(P));
        o["params"] = std::move(ps);
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["rec"] = M->getParent()->getQualifiedNameAsString();
            if (M->isStatic()) o["smeth"] = 1;
            if (M->isConst()) o["const"] = 1;
            if (M->getAccess() == AS_public) o["pub"] = 1;
            if (M->isVirtual()) o["virt"] = 1;
        }
        if (const auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = 1;
            Array is;
            for (const CXXCtorInitializer *I : K->inits()) {
                Object x;
                if (I->isMemberInitializer()) { x["f"] = I->getMember()->getNameAsString(); x["t"] = D.desc(I->getMember()->getType()); }
                else if (I->isDelegatingInitializer()) x["deleg"] = 1;
                else x["base"] = 1;
                x["w"] = I->isWritten() ? 1 : 0;
                x["e"] = D.expr(I->getInit());
                is.push_back(std::move(x));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
        if (const auto *TS = F->getTemplateSpecializationArgs()) { (void)TS; o["tmpl"] = 1; }
        o["body"] = D.stmt(F->getBody());
        functions.push_back(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !D.inRepo(R) || R->isLambda()) return true;
        std::string q = R->getQualifiedNameAsString();
        if (!seenR.insert(q).second) return true;
        Object o;
        o["name"] = q;
        o["file"] = D.fileOf(R->getLocation());
        o["line"] = D.lineOf(R->getLocation());
        Array fs;
        for (const FieldDecl *F : R->fields()) {
            Object x;
            x["name"] = F->getNameAsString();
            x["t"] = D.desc(F->getType());
            x["l"] = D.lineOf(F->getLocation());
            x["pub"] = F->getAccess() == AS_public ? 1 : 0;
            if (F->hasInClassInitializer() && F->getInClassInitializer()) x["init"] = D.expr(F->getInClassInitializer());
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (const auto &B : R->bases()) bs.push_back(D.desc(B.getType()));
        o["bases"] = std::move(bs);
        records.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal() || !D.inRepo(V) || isa<ParmVarDecl>(V)) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
        std::string id = D.varRef(V);
        if (!seenV.insert(id).second) return true;
        Object o;
        o["id"] = id;
        o["t"] = D.desc(V->getType());
        o["file"] = D.fileOf(V->getLocation());
        o["line"] = D.lineOf(V->getLocation());
        if (V->getInit()) o["init"] = D.expr(V->getInit());
        vars.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!D.inRepo(E)) return true;
        for (const auto *C : E->enumerators()) enums[C->getQualifiedNameAsString()] = ival(C->getInitVal());
        return true;
    }
};

// The translation unit is parsed as a prefix, so that bodies of library templates are not instantiated;
// the function templates of the analysed repository are instantiated here.
struct Consumer : SemaConsumer {
    Sema *S = nullptr;
    void InitializeSema(Sema &X) override { S = &X; }
    void ForgetSema() override { S = nullptr; }
    // library templates are instantiated where a generic lambda of the repository is passed to them
    static bool genericLambda(QualType T, Dumper &D, int depth = 0) {
        if (T.isNull() || depth > 6) return false;
        T = T.getNonReferenceType().getCanonicalType();
        if (T->isPointerType()) T = T->getPointeeType();
        const CXXRecordDecl *R = T->getAsCXXRecordDecl();
        if (!R) return false;
        if (R->isLambda()) return R->isGenericLambda() && D.inRepo(R);
        if (const auto *CS = dyn_cast<ClassTemplateSpecializationDecl>(R))
            for (const auto &A : CS->getTemplateArgs().asArray())
                if (A.getKind() == TemplateArgument::Type && genericLambda(A.getAsType(), D, depth + 1)) return true;
        return false;
    }
    static bool takesGenericLambda(const FunctionDecl *F, Dumper &D) {
        if (const TemplateArgumentList *L = F->getTemplateSpecializationArgs())
            for (const auto &A : L->asArray()) {
                if (A.getKind() == TemplateArgument::Type && genericLambda(A.getAsType(), D)) return true;
                if (A.getKind() == TemplateArgument::Pack)
                    for (const auto &B : A.pack_elements())
                        if (B.getKind() == TemplateArgument::Type && genericLambda(B.getAsType(), D)) return true;
            }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F))
            if (!M->getParent()->isLambda() && genericLambda(D.C.getRecordType(M->getParent()), D)) return true;
        return false;
    }
    void instantiateRepo(ASTContext &C) {
        Dumper D(C);
        while (S && !S->PendingInstantiations.empty()) {
            auto P = S->PendingInstantiations.front();
            S->PendingInstantiations.pop_front();
            auto *F = dyn_cast<FunctionDecl>(P.first);
            if (!F || F->isDefined()) continue;
            const FunctionDecl *Pat = F->getTemplateInstantiationPattern();
            if (!Pat || (!D.inRepo(Pat) && !takesGenericLambda(F, D))) continue;
            S->InstantiateFunctionDefinition(P.second, F, false, true);
        }
    }
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        instantiateRepo(C);
        Visitor V(C);
        for (Decl *D : C.getTranslationUnitDecl()->decls())
            if (V.D.inRepo(D)) V.TraverseDecl(D);
        Object o;
        o["functions"] = std::move(V.functions);
        o["records"] = std::move(V.records);
        o["vars"] = std::move(V.vars);
        o["enums"] = std::move(V.enums);
        llvm::outs() << Value(std::move(o)) << "\n";
        llvm::outs().flush();
    }
};
struct Action : ASTFrontendAction {
    TranslationUnitKind getTranslationUnitKind() override { return TU_Prefix; }
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
    if (argc < 4) { llvm::errs() << "usage: vfront source prefix -- args\n"; return 2; }
    std::string src = argv[1];
    Prefix = argv[2];
    std::vector<std::string> args = {"vfront", "-fsyntax-only", "-w"};
    for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(src);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation Inv(args, std::make_unique<Action>(), FM.get());
    return Inv.run() ? 0 : 1;
}
