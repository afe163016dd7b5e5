// Exports the type-checked AST of the repository's own functions (bodies whose definition lies under
// the root passed with -root) as JSON.  Nothing is executed; this is the front end of the analyser.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot, gOut;
static bool gErrors = false;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::map<const Decl *, unsigned> ids;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()),
    MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
  }
  unsigned id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    unsigned n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    if (s.size() > 160) { s.resize(160); }
    return s;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  std::string key(const FunctionDecl *F) {
    if (F->isDependentContext()) return F->getQualifiedNameAsString();
    std::string s;
    llvm::raw_string_ostream os(s);
    if (isa<CXXConstructorDecl>(F))
      MC->mangleName(GlobalDecl(cast<CXXConstructorDecl>(F), Ctor_Complete), os);
    else if (isa<CXXDestructorDecl>(F))
      MC->mangleName(GlobalDecl(cast<CXXDestructorDecl>(F), Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    os.flush();
    if (!F->isExternallyVisible()) {  // keep internal-linkage functions of different files apart
      s += "@" + file(F->getCanonicalDecl()->getLocation());
      if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())
        s += ":" + std::to_string(id(F));
    }
    return s;
  }
  bool constInt(const CXXRecordDecl *R, StringRef name, int64_t &out, int depth = 0) {
    if (!R || !R->hasDefinition() || depth > 12) return false;
    R = R->getDefinition();
    for (auto *D : R->lookup(&C.Idents.get(name))) {
      if (auto *E = dyn_cast<EnumConstantDecl>(D)) { out = E->getInitVal().getSExtValue(); return true; }
    }
    for (auto &B : R->bases())
      if (constInt(B.getType()->getAsCXXRecordDecl(), name, out, depth + 1)) return true;
    return false;
  }
  void dims(QualType T, Object &O) {
    if (T.isNull()) return;
    T = T.getNonReferenceType();
    auto *R = T->getAsCXXRecordDecl();
    if (!R) return;
    if (R->getQualifiedNameAsString().compare(0, 5, "Eigen") != 0) return;
    int64_t r, c;
    if (constInt(R, "RowsAtCompileTime", r) && constInt(R, "ColsAtCompileTime", c))
      O["dim"] = Array{r, c};
    if (isArray(R)) O["arr"] = true;
  }
  bool isArray(const CXXRecordDecl *R, int depth = 0) {
    if (!R || !R->hasDefinition() || depth > 12) return false;
    R = R->getDefinition();
    if (R->getNameAsString() == "ArrayBase") return true;
    for (auto &B : R->bases())
      if (isArray(B.getType()->getAsCXXRecordDecl(), depth + 1)) return true;
    return false;
  }
  std::string shortQN(const NamedDecl *D) { return D->getQualifiedNameAsString(); }

  Value targs(const TemplateArgumentList *L) {
    Array A;
    if (L) for (auto &a : L->asArray()) {
      std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &a) {
        if (a.getKind() == TemplateArgument::Integral) A.push_back(a.getAsIntegral().isRepresentableByInt64() ? a.getAsIntegral().getExtValue() : (int64_t)-1);
        else if (a.getKind() == TemplateArgument::Type) A.push_back(type(a.getAsType()));
        else if (a.getKind() == TemplateArgument::Pack) for (auto &p : a.pack_elements()) add(p);
        else A.push_back(nullptr);
      };
      add(a);
    }
    return A;
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    Object O;
    Value V = ex0(E, O);
    return V;
  }
  Value done(Object &O, const Expr *E) {
    O["ln"] = line(E->getExprLoc());
    return std::move(O);
  }
  void callee(Object &O, const FunctionDecl *F) {
    O["f"] = shortQN(F);
    O["key"] = key(F);
    if (auto *S = F->getTemplateSpecializationArgs()) O["targs"] = targs(S);
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) O["ctargs"] = targs(&S->getTemplateArgs());
      if (M->isConst()) O["const"] = true;
      if (isa<CXXConversionDecl>(M)) O["conv"] = true;
    }
    Array PR;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      // passing convention: r = non-const lvalue ref, c = const ref/rvalue ref, v = value
      std::string m = "v";
      if (T->isReferenceType()) m = (T->isLValueReferenceType() && !T.getNonReferenceType().isConstQualified()) ? "r" : "c";
      else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? "p" : "P";
      PR.push_back(m);
    }
    O["pm"] = std::move(PR);
    QualType RT = F->getReturnType();
    if (RT->isLValueReferenceType() && !RT.getNonReferenceType().isConstQualified()) O["lvr"] = true;
  }
  Value ex0(const Expr *E, Object &O) {
    // transparent wrappers
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return ex(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(X->getSemanticForm());

    if (auto *X = dyn_cast<CastExpr>(E)) {
      std::string ck = X->getCastKindName();
      bool keep = false;
      switch (X->getCastKind()) {
        case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_FloatingToBoolean:
        case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_IntegralCast:
        case CK_BaseToDerived: case CK_FloatingCast: case CK_BooleanToSignedIntegral: keep = true; break;
        default: break;
      }
      if (X->getCastKind() == CK_ToVoid) keep = false;
      if (!keep) return ex(X->getSubExpr());
      O["k"] = "Cast"; O["ck"] = ck; O["t"] = type(X->getType()); O["e"] = ex(X->getSubExpr());
      return done(O, E);
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      O["k"] = "Int"; O["v"] = s.str().str(); return done(O, E);
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "Float"; O["v"] = X->getValueAsApproximateDouble();
      llvm::SmallString<64> s; X->getValue().toString(s, 0, 0); O["s"] = s.str().str();
      return done(O, E);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "Bool"; O["v"] = X->getValue(); return done(O, E); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "Int"; O["v"] = std::to_string(X->getValue()); O["chr"] = true; return done(O, E); }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "Str"; std::string s = X->isOrdinary() ? X->getString().str() : ""; 
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      O["v"] = s; return done(O, E); }
    if (isa<PredefinedExpr>(E)) { O["k"] = "Str"; O["v"] = "__func__"; return done(O, E); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "Null"; return done(O, E); }
    if (isa<CXXThisExpr>(E)) { O["k"] = "This"; O["t"] = type(E->getType()->getPointeeType()); return done(O, E); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "Enum"; O["qn"] = shortQN(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue();
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) { O["enum"] = shortQN(ED); O["scoped"] = ED->isScoped(); }
        return done(O, E);
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "FRef"; callee(O, FD); return done(O, E);
      }
      O["k"] = "Ref"; O["id"] = id(D); O["name"] = D->getNameAsString(); O["t"] = type(D->getType());
      dims(D->getType(), O);
      if (auto *BD = dyn_cast<BindingDecl>(D)) { O["bind"] = ex(BD->getBinding()); }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage()) {
          O["g"] = VD->isStaticLocal() ? "static" : "global"; O["qn"] = VD->isStaticLocal() ? ("static#" + VD->getNameAsString()) : shortQN(VD);
          if (VD->isStaticDataMember()) O["g"] = "member";
          if (VD->isConstexpr() || (VD->getType().isConstQualified())) {
            const VarDecl *Def; const Expr *I = VD->getAnyInitializer(Def);
            if (I && !I->isValueDependent() && !inRoot(Def->getLocation())) { O["init"] = ex(I); }
          }
        }
        if (VD->getType()->isReferenceType()) O["ref"] = true;
      }
      return done(O, E);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        O["k"] = "Ref"; O["id"] = id(D); O["name"] = D->getNameAsString(); O["t"] = type(D->getType());
        O["g"] = "member"; O["qn"] = shortQN(VD); dims(D->getType(), O);
        return done(O, E);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "Enum"; O["qn"] = shortQN(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue(); return done(O, E);
      }
      O["k"] = "Mem"; O["n"] = D->getNameAsString(); O["b"] = ex(X->getBase()); O["arrow"] = X->isArrow();
      O["t"] = type(D->getType());
      if (auto *FD = dyn_cast<FieldDecl>(D)) O["cls"] = shortQN(FD->getParent());
      if (D->getType()->isReferenceType()) O["ref"] = true;
      dims(D->getType(), O);
      return done(O, E);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "Call"; O["t"] = type(X->getType()); dims(X->getType(), O);
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) callee(O, M);
      const Expr *CE = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(CE)) {
        O["obj"] = ex(ME->getBase()); O["arrow"] = ME->isArrow();
        QualType BT = ME->getBase()->getType(); if (BT->isPointerType()) BT = BT->getPointeeType();
        O["objt"] = type(BT);
        if (ME->hasQualifier()) O["nonvirt"] = true;
      } else O["obj"] = ex(X->getImplicitObjectArgument());
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      O["args"] = std::move(A);
      return done(O, E);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {  // includes CXXOperatorCallExpr
      O["k"] = "Call"; O["t"] = type(X->getType()); dims(X->getType(), O);
      const FunctionDecl *F = X->getDirectCallee();
      if (F) callee(O, F); else O["fe"] = ex(X->getCallee());
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
        O["opcall"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { O["memop"] = true; }
        if (X->getNumArgs()) O["objt"] = type(X->getArg(0)->getType());
      }
      O["args"] = std::move(A);
      return done(O, E);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Ctor"; O["t"] = type(X->getType()); dims(X->getType(), O);
      auto *CD = X->getConstructor();
      O["cls"] = shortQN(CD->getParent()); O["key"] = key(CD);
      O["copy"] = CD->isCopyOrMoveConstructor(); O["dflt"] = CD->isDefaultConstructor();
      if (CD->isExplicit()) O["expl"] = true;
      if (CD->isDefaulted() || CD->isImplicit()) O["impl"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) O["tmp"] = true;
      if (X->isListInitialization()) O["list"] = true;
      Array PR;
      for (auto *P : CD->parameters()) {
        QualType T = P->getType(); std::string m = "v";
        if (T->isReferenceType()) m = (T->isLValueReferenceType() && !T.getNonReferenceType().isConstQualified()) ? "r" : "c";
        else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? "p" : "P";
        PR.push_back(m);
      }
      O["pm"] = std::move(PR);
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      O["args"] = std::move(A);
      return done(O, E);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "Other"; O["c"] = X->getStmtClassName(); return done(O, E); }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["op"] = X->getOpcodeStr().str(); O["t"] = type(X->getType());
      O["k"] = X->isAssignmentOp() ? "Asg" : "Bin";
      O["l"] = ex(X->getLHS()); O["r"] = ex(X->getRHS());
      O["fl"] = X->getLHS()->getType()->isFloatingType() || X->getRHS()->getType()->isFloatingType();
      return done(O, E);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix();
      O["e"] = ex(X->getSubExpr()); O["t"] = type(X->getType());
      return done(O, E);
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = ex(X->getCond()); O["a"] = ex(X->getTrueExpr()); O["b"] = ex(X->getFalseExpr());
      return done(O, E);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "Index"; O["b"] = ex(X->getBase()); O["i"] = ex(X->getIdx()); return done(O, E);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "List"; O["t"] = type(X->getType()); dims(X->getType(), O);
      if (auto *R = X->getType()->getAsCXXRecordDecl()) {
        O["cls"] = shortQN(R); Array F; for (auto *f : R->fields()) F.push_back(f->getNameAsString()); O["fields"] = std::move(F);
      }
      Array A; for (auto *a : X->inits()) A.push_back(ex(a));
      O["args"] = std::move(A); return done(O, E);
    }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { O["k"] = "Zero"; O["t"] = type(X->getType()); return done(O, E); }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { O["k"] = "Zero"; O["t"] = type(X->getType()); return done(O, E); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda"; Array P;
      const CXXMethodDecl *M = X->getCallOperator();
      if (auto *FT = X->isGenericLambda() ? M->getDescribedFunctionTemplate() : nullptr) {
        // the body of a generic lambda is its only instantiation (up to constness of the parameters)
        const CXXMethodDecl *one = nullptr; bool same = true;
        for (auto *S : FT->specializations()) {
          auto *SM = dyn_cast<CXXMethodDecl>(S);
          if (!SM || !SM->hasBody()) continue;
          if (!one) { one = SM; continue; }
          for (unsigned i = 0; i < SM->getNumParams() && i < one->getNumParams(); ++i)
            if (SM->getParamDecl(i)->getType().getNonReferenceType().getUnqualifiedType().getCanonicalType() !=
                one->getParamDecl(i)->getType().getNonReferenceType().getUnqualifiedType().getCanonicalType()) same = false;
        }
        if (one && same) M = one;
      }
      O["key"] = key(M);
      Array Ps; for (auto *p : M->parameters()) Ps.push_back(param(p));
      O["params"] = std::move(Ps);
      Array Cs;
      for (auto &c : X->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["name"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef; }
        Cs.push_back(std::move(co));
      }
      O["caps"] = std::move(Cs);
      O["body"] = st(M == X->getCallOperator() ? X->getBody() : M->getBody());
      return done(O, E);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "New"; O["t"] = type(X->getAllocatedType()); O["e"] = ex(X->getConstructExpr()); return done(O, E); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "Delete"; O["e"] = ex(X->getArgument()); return done(O, E); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "Throw"; O["e"] = ex(X->getSubExpr()); return done(O, E); }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "Int"; Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) O["v"] = std::to_string(R.Val.getInt().getExtValue()); else O["v"] = "0";
      return done(O, E);
    }
    O["k"] = "Other"; O["c"] = E->getStmtClassName(); O["t"] = type(E->getType());
    Array A; for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) A.push_back(ex(ce));
    O["args"] = std::move(A);
    return done(O, E);
  }

  Value param(const ParmVarDecl *P) {
    Object O; O["id"] = id(P); O["name"] = P->getNameAsString(); O["t"] = type(P->getType()); dims(P->getType(), O);
    QualType T = P->getType();
    O["m"] = T->isReferenceType() ? (T.getNonReferenceType().isConstQualified() || T->isRValueReferenceType() ? "c" : "r") : (T->isPointerType() ? "p" : "v");
    return std::move(O);
  }

  Value var(const VarDecl *V) {
    Object O; O["id"] = id(V); O["name"] = V->getNameAsString(); O["t"] = type(V->getType());
    dims(V->getType(), O);
    O["ref"] = V->getType()->isReferenceType(); O["cst"] = V->getType().getNonReferenceType().isConstQualified();
    if (V->isStaticLocal()) O["static"] = true;
    O["init"] = ex(V->getInit()); O["ln"] = line(V->getLocation());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B; for (auto *b : DD->bindings()) { Object bo; bo["id"] = id(b); bo["name"] = b->getNameAsString(); B.push_back(std::move(bo)); }
      O["bindings"] = std::move(B);
    }
    if (auto *R = V->getType()->getAsCXXRecordDecl()) O["cls"] = shortQN(R);
    return std::move(O);
  }

  Value st(const Stmt *S) {
    if (!S) return nullptr;
    Object O;
    O["ln"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) { O["k"] = "Expr"; O["e"] = ex(E); return std::move(O); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Array A; for (auto *s : X->body()) A.push_back(st(s));
      O["k"] = "Block"; O["s"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Array A; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V));
      O["k"] = "Decl"; O["v"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If"; O["init"] = st(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond()); O["a"] = st(X->getThen()); O["b"] = st(X->getElse()); return std::move(O);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For"; O["init"] = st(X->getInit()); O["c"] = ex(X->getCond()); O["inc"] = ex(X->getInc()); O["b"] = st(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "While"; O["c"] = ex(X->getCond()); O["b"] = st(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["c"] = ex(X->getCond()); O["b"] = st(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RFor"; O["var"] = var(X->getLoopVariable()); O["range"] = ex(X->getRangeInit()); O["b"] = st(X->getBody());
      O["rt"] = type(X->getRangeInit()->getType());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "Ret"; O["e"] = ex(X->getRetValue()); return std::move(O); }
    if (isa<BreakStmt>(S)) { O["k"] = "Break"; return std::move(O); }
    if (isa<ContinueStmt>(S)) { O["k"] = "Continue"; return std::move(O); }
    if (isa<NullStmt>(S)) { O["k"] = "Null"; return std::move(O); }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; O["c"] = ex(X->getCond()); O["b"] = st(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "Case"; O["c"] = ex(X->getLHS()); O["s"] = st(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["s"] = st(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try"; O["b"] = st(X->getTryBlock()); Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) A.push_back(st(X->getHandler(i)->getHandlerBlock()));
      O["h"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return st(X->getSubStmt());
    O["k"] = "Other"; O["c"] = S->getStmtClassName();
    return std::move(O);
  }

  Value func(const FunctionDecl *F) {
    Object O;
    O["key"] = key(F); O["qn"] = shortQN(F); O["name"] = F->getNameAsString();
    O["file"] = file(F->getLocation()); O["ln"] = line(F->getLocation()); O["end"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType()); dims(F->getReturnType(), O);
    O["retref"] = F->getReturnType()->isReferenceType();
    if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) O["internal"] = true;
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = shortQN(M->getParent());
      O["static"] = M->isStatic(); O["virt"] = M->isVirtual(); O["const"] = M->isConst();
      switch (M->getAccess()) { case AS_public: O["acc"] = "public"; break; case AS_protected: O["acc"] = "protected"; break; default: O["acc"] = "private"; }
      Array Ov; for (auto *o : M->overridden_methods()) Ov.push_back(key(o)); O["overrides"] = std::move(Ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true; Array I;
        for (auto *i : CD->inits()) {
          Object io; io["written"] = i->isWritten();
          if (i->isMemberInitializer()) { io["field"] = i->getMember()->getNameAsString(); io["t"] = type(i->getMember()->getType()); }
          else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          io["e"] = ex(i->getInit()); I.push_back(std::move(io));
        }
        O["inits"] = std::move(I);
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
    }
    Array P; for (auto *p : F->parameters()) P.push_back(param(p));
    O["params"] = std::move(P);
    O["body"] = st(F->getBody());
    return std::move(O);
  }
};

struct Consumer : ASTConsumer {
  Array funcs, records, globals, enums;
  std::unique_ptr<Dumper> D;
  std::set<const Decl *> seen;

  void ctx(const DeclContext *DC) {
    for (auto *d : DC->decls()) decl(d);
  }
  void decl(const clang::Decl *d) {
    if (auto *NS = dyn_cast<NamespaceDecl>(d)) { if (D->inRoot(NS->getLocation())) ctx(NS); return; }
    if (auto *LS = dyn_cast<LinkageSpecDecl>(d)) { if (D->inRoot(LS->getLocation())) ctx(LS); return; }
    if (!D->inRoot(d->getLocation())) return;
    if (auto *FT = dyn_cast<FunctionTemplateDecl>(d)) {
      for (auto *s : FT->specializations()) func(s);
      return;
    }
    if (auto *CT = dyn_cast<ClassTemplateDecl>(d)) {
      for (auto *s : CT->specializations()) rec(s);
      return;
    }
    if (auto *F = dyn_cast<FunctionDecl>(d)) { func(F); return; }
    if (auto *R = dyn_cast<CXXRecordDecl>(d)) { rec(R); return; }
    if (auto *E = dyn_cast<EnumDecl>(d)) {
      Object O; O["qn"] = E->getQualifiedNameAsString(); Array A;
      for (auto *c : E->enumerators()) A.push_back(Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
      O["v"] = std::move(A); O["file"] = D->file(E->getLocation()); enums.push_back(std::move(O)); return;
    }
    if (auto *V = dyn_cast<VarDecl>(d)) { glob(V); return; }
  }
  void glob(const VarDecl *V) {
    if (V->getType()->isDependentType() || V->isInvalidDecl()) return;
    Object O; O["qn"] = V->getQualifiedNameAsString(); O["name"] = V->getNameAsString(); O["t"] = D->type(V->getType());
    D->dims(V->getType(), O);
    O["cst"] = V->isConstexpr() || V->getType().isConstQualified();
    O["file"] = D->file(V->getLocation()); O["ln"] = D->line(V->getLocation());
    const VarDecl *Def; const Expr *I = V->getAnyInitializer(Def);
    O["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    O["init"] = I ? D->ex(I) : Value(nullptr);
    globals.push_back(std::move(O));
  }
  void func(const FunctionDecl *F) {
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    if (!F->doesThisDeclarationHaveABody() && !(F->isTemplateInstantiation() && F->hasBody())) {
      return;
    }
    if (F->isImplicit()) return;
    if (!seen.insert(F).second) return;
    funcs.push_back(D->func(F));
  }
  void rec(const CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition() || R->isLambda() || R->isInvalidDecl()) return;
    Object O; O["qn"] = R->getQualifiedNameAsString(); O["file"] = D->file(R->getLocation()); O["ln"] = D->line(R->getLocation());
    Array B; for (auto &b : R->bases()) B.push_back(D->type(b.getType()));
    O["bases"] = std::move(B);
    Array F;
    for (auto *f : R->fields()) {
      Object fo; fo["name"] = f->getNameAsString(); fo["t"] = D->type(f->getType()); D->dims(f->getType(), fo);
      fo["ln"] = D->line(f->getLocation());
      fo["acc"] = f->getAccess() == AS_public ? "public" : (f->getAccess() == AS_protected ? "protected" : "private");
      fo["init"] = f->hasInClassInitializer() ? D->ex(f->getInClassInitializer()) : Value(nullptr);
      fo["cst"] = f->getType().isConstQualified();
      F.push_back(std::move(fo));
    }
    O["fields"] = std::move(F);
    Array M;
    for (auto *m : R->methods()) if (!m->isImplicit()) {
      Object mo; mo["name"] = m->getNameAsString(); mo["key"] = D->key(m); mo["virt"] = m->isVirtual(); mo["const"] = m->isConst();
      mo["acc"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_protected ? "protected" : "private");
      mo["static"] = m->isStatic();
      M.push_back(std::move(mo));
    }
    O["methods"] = std::move(M);
    records.push_back(std::move(O));
    for (auto *d : R->decls()) {
      if (auto *V = dyn_cast<VarDecl>(d)) glob(V);
      else if (isa<FunctionDecl>(d) || isa<CXXRecordDecl>(d) || isa<EnumDecl>(d) || isa<FunctionTemplateDecl>(d)) decl(d);
    }
  }
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) gErrors = true;
    D = std::make_unique<Dumper>(C);
    ctx(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream os(gOut, EC);
    Object O; O["funcs"] = std::move(funcs); O["records"] = std::move(records); O["globals"] = std::move(globals);
    O["enums"] = std::move(enums); O["errors"] = gErrors;
    os << Value(std::move(O));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char **argv) {
  // astdump ROOT OUT FILE -- compiler flags
  if (argc < 4) { llvm::errs() << "usage: astdump ROOT OUT FILE -- flags\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2];
  std::vector<std::string> flags, files{argv[3]};
  for (int i = 4; i < argc; ++i) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, files);
  int r = T.run(tooling::newFrontendActionFactory<Action>().get());
  return (r || gErrors) ? 1 : 0;
}
