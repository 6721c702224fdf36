// simox-facts: libTooling front end of the static checks in /verif.
// Parses one translation unit with the project's flags and prints, as JSON, for every function
// defined in the analysed tree its control-flow graph over a simplified, fully resolved
// expression language, plus class layouts.  No property logic lives here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot = "/repo/";
static std::string gMain;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Object fns;      // usr -> info
  Array funcs;     // function definitions
  Object classes;  // qname -> info
  std::set<std::string> seenFn;
  std::set<std::string> seenDef;
  std::map<const Decl *, std::string> usrCache;

  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string s = F.str();
    if (s.empty()) return s;
    llvm::SmallString<256> p(s);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p.str());
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inTree(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, gRoot.size(), gRoot) == 0 && f.find("/_build/") == std::string::npos;
  }
  std::string usr(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = usrCache.find(D);
    if (it != usrCache.end()) return it->second;
    llvm::SmallString<256> buf;
    std::string r;
    if (index::generateUSRForDecl(D, buf)) r = "";
    else r = std::string(buf.str());
    if (auto *MD = dyn_cast<CXXMethodDecl>(D))
      if (MD->getParent()->isLambda()) {
        r = "lambda@" + fileOf(MD->getLocation()) + ":" + std::to_string(line(MD->getLocation())) + ":" +
            std::to_string(SM.getExpansionColumnNumber(MD->getLocation())) + "#" + MD->getNameAsString();
      }
    usrCache[D] = r;
    return r;
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2(PP);
    D->printQualifiedName(os, P2);
    return os.str();
  }
  std::string clsName(const CXXRecordDecl *R) {
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) return ty(C.getTypeDeclType(S));
    return qn(R);
  }
  static bool nullDefault(const Expr *E) {
    for (;;) {
      E = E->IgnoreParenImpCasts();
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        std::string n = X->getConstructor()->getParent()->getNameAsString();
        if (n != "shared_ptr" && n != "unique_ptr" && n != "scoped_ptr") return false;
        if (X->getNumArgs() == 0) return true;
        E = X->getArg(0);
        if (isa<CXXDefaultArgExpr>(E)) return true;
      } else break;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return true;
    return false;
  }
  std::string fnInfo(const FunctionDecl *F) {
    std::string u = usr(F);
    if (!seenFn.insert(u).second) return u;
    Object o;
    o["q"] = qn(F);
    o["ret"] = ty(F->getReturnType());
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["p"] = std::move(ps);
    Array pd; // parameters that are null when left out
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      auto *P = F->getParamDecl(i);
      if (!P->hasDefaultArg() || P->hasUnparsedDefaultArg() || P->hasUninstantiatedDefaultArg()) continue;
      if (nullDefault(P->getDefaultArg())) pd.push_back((int64_t)i);
    }
    if (!pd.empty()) o["pd"] = std::move(pd);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->getParent()->isLambda()) o["lambda"] = true;
      Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(fnInfo(O));
      if (!ov.empty()) o["ov"] = std::move(ov);
      switch (M->getAccess()) {
      case AS_private: o["acc"] = "private"; break;
      case AS_protected: o["acc"] = "protected"; break;
      default: o["acc"] = "public";
      }
      if (M->isImplicit() || M->isDefaulted()) o["impl"] = true;
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    } else if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) o["internal"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    fns[u] = std::move(o);
    return u;
  }
  void addClass(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentType() || !inTree(R->getLocation())) return;
    std::string q = clsName(R);
    if (classes.find(q) != classes.end()) return;
    Object o;
    o["file"] = fileOf(R->getLocation());
    o["line"] = (int64_t)line(R->getLocation());
    if (R->isAbstract()) o["abstract"] = true;
    if (R->isLambda()) return;
    Array bases;
    for (auto &B : R->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases.push_back(clsName(BR));
    o["bases"] = std::move(bases);
    Array fs;
    for (auto *F : R->fields()) {
      Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["w"] = F->getType().getAsString(PP);
      f["line"] = (int64_t)line(F->getLocation());
      if (F->hasInClassInitializer()) f["init"] = true;
      QualType T = C.getBaseElementType(F->getType());
      if (T->isScalarType() && !T->isReferenceType()) f["scalar"] = true;
      if (auto *CAT = dyn_cast_or_null<ConstantArrayType>(C.getAsArrayType(F->getType())))
        f["arr"] = (int64_t)CAT->getSize().getZExtValue();
      if (auto *RT = T->getAsCXXRecordDecl()) {
        if (RT->hasDefinition() && RT->hasTrivialDefaultConstructor()) f["podrec"] = true;
        f["rec"] = clsName(RT);
      }
      switch (F->getAccess()) {
      case AS_private: f["acc"] = "private"; break;
      case AS_protected: f["acc"] = "protected"; break;
      default: f["acc"] = "public";
      }
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : R->methods())
      if (!M->isImplicit()) ms.push_back(fnInfo(M));
    o["methods"] = std::move(ms);
    bool userCtor = false;
    for (auto *K : R->ctors())
      if (K->isUserProvided() || K->isDefaulted()) userCtor = userCtor || !K->isImplicit();
    o["userctor"] = userCtor;
    classes[q] = std::move(o);
  }

  // ---- expressions -------------------------------------------------------------------------
  std::map<const Stmt *, int> sid;
  Object vars;
  std::string varId(const ValueDecl *V) {
    std::string n = V->getNameAsString();
    bool local = false;
    Object o;
    std::string id;
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      VD = VD->getCanonicalDecl();
      local = VD->isLocalVarDeclOrParm();
      if (!local) {
        id = "g:" + qn(VD);
      } else {
        id = n + "@" + std::to_string(line(V->getLocation())) + ":" +
             std::to_string(SM.getExpansionColumnNumber(V->getLocation()));
        if (n.empty() || V->getLocation().isMacroID() || V->isImplicit())
          id += "#" + std::to_string(SM.getSpellingColumnNumber(V->getLocation())) + "." + std::to_string(V->getID() % 100003);
        if (VD->isStaticLocal()) o["static"] = true;
        if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      }
      if (isa<ParmVarDecl>(VD)) o["k"] = "param";
      else o["k"] = local ? "local" : "global";
    } else if (auto *BD = dyn_cast<BindingDecl>(V)) {
      id = n + "@b" + std::to_string(line(BD->getLocation()));
      o["k"] = "local";
    } else {
      id = "?" + n;
      o["k"] = "other";
    }
    if (vars.find(id) == vars.end()) {
      o["n"] = n;
      o["t"] = ty(V->getType());
      if (V->getType()->isReferenceType()) o["ref"] = true;
      vars[id] = std::move(o);
    }
    return id;
  }
  Value nul() { return Value(nullptr); }
  Array node(const char *k, const Stmt *S) {
    Array a;
    a.push_back(k);
    auto it = S ? sid.find(S) : sid.end();
    a.push_back(it == sid.end() ? 0 : it->second);
    a.push_back(S ? (int64_t)line(S->getBeginLoc()) : 0);
    return a;
  }
  // copy sid of an outer transparent node to the inner one if the inner one has none
  Value pass(const Stmt *Outer, const Expr *Inner) {
    Value v = expr(Inner);
    auto it = sid.find(Outer);
    if (it != sid.end()) {
      if (auto *a = v.getAsArray()) {
        if (a->size() > 1 && (*a)[1].getAsInteger() && *(*a)[1].getAsInteger() == 0) (*a)[1] = it->second;
        else {
          Array w = node("P", Outer);
          w.push_back(std::move(v));
          return w;
        }
      }
    }
    return v;
  }
  Value lit(const char *k, const Expr *E, Value v) {
    Array a = node("L", E);
    a.push_back(k);
    a.push_back(std::move(v));
    return a;
  }
  Array args(llvm::ArrayRef<const Expr *> A, unsigned from = 0) {
    Array r;
    for (unsigned i = from; i < A.size(); i++) {
      if (isa<CXXDefaultArgExpr>(A[i])) {
        Array d = node("def", A[i]);
        d.push_back(expr(cast<CXXDefaultArgExpr>(A[i])->getExpr()));
        r.push_back(std::move(d));
      } else
        r.push_back(expr(A[i]));
    }
    return r;
  }
  Value expr(const Expr *E) {
    if (!E) return nul();
    if (auto *X = dyn_cast<ParenExpr>(E)) return pass(E, X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return pass(E, X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return pass(E, X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return pass(E, X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return pass(E, X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return pass(E, X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return pass(E, X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return pass(E, X->getSemanticForm());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? pass(E, X->getSourceExpr()) : nul();
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
      case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
      case CK_PointerToBoolean: case CK_PointerToIntegral: case CK_IntegralToPointer: case CK_BitCast: {
        Array a = node("K", E);
        a.push_back(X->getCastKindName());
        a.push_back(ty(E->getType()));
        a.push_back(ty(X->getSubExpr()->getType()));
        a.push_back(expr(X->getSubExpr()));
        return a;
      }
      case CK_Dynamic: {
        Array a = node("dyn", E);
        a.push_back(ty(E->getType()));
        a.push_back(expr(X->getSubExpr()));
        return a;
      }
      case CK_NullToPointer: return lit("null", E, nullptr);
      default: return pass(E, X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      if (X->getValue().getActiveBits() < 62) return lit("int", E, (int64_t)X->getValue().getZExtValue());
      return lit("bigint", E, std::string(s.str()));
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) return lit("float", E, X->getValueAsApproximateDouble());
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return lit("bool", E, X->getValue());
    if (auto *X = dyn_cast<CharacterLiteral>(E)) return lit("char", E, (int64_t)X->getValue());
    if (auto *X = dyn_cast<StringLiteral>(E)) return lit("str", E, X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string("?"));
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return lit("null", E, nullptr);
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return lit("str", E, "<fn>");
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) return lit("int", E, (int64_t)R.Val.getInt().getZExtValue());
      return lit("unk", E, nullptr);
    }
    if (isa<CXXThisExpr>(E)) return node("T", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Array a = node("E", E);
        a.push_back(qn(EC));
        a.push_back(EC->getInitVal().getExtValue());
        return a;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Array a = node("F", E);
        a.push_back(fnInfo(F));
        return a;
      }
      Array a = node("V", E);
      a.push_back(varId(D));
      return a;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        Array a = node("M", E);
        a.push_back(X->isArrow() ? deref(X->getBase()) : expr(X->getBase()));
        std::string cn = "?";
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) cn = clsName(R);
        else cn = qn(FD->getParent());
        a.push_back(cn + "::" + FD->getNameAsString());
        a.push_back(ty(FD->getType()));
        return a;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Array a = node("E", E);
        a.push_back(qn(EC));
        a.push_back(EC->getInitVal().getExtValue());
        return a;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Array a = node("F", E);
        a.push_back(fnInfo(F));
        return a;
      }
      Array a = node("V", E);
      a.push_back(varId(D));
      return a;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        Array a = node("C", E);
        a.push_back(fnInfo(F));
        llvm::ArrayRef<const Expr *> A(X->getArgs(), X->getNumArgs());
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          a.push_back(expr(A[0]));
          a.push_back(args(A, 1));
        } else {
          a.push_back(nul());
          a.push_back(args(A, 0));
        }
        a.push_back(0);
        return a;
      }
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Array a = node("C", E);
      llvm::ArrayRef<const Expr *> A(X->getArgs(), X->getNumArgs());
      if (auto *M = X->getMethodDecl()) {
        a.push_back(fnInfo(M));
        auto *RE = X->getImplicitObjectArgument();
        a.push_back(RE && RE->getType()->isPointerType() ? deref(RE) : expr(RE));
        a.push_back(args(A));
        bool v = M->isVirtual();
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) v = false;
        a.push_back(v ? 1 : 0);
      } else {
        a.push_back("");
        a.push_back(expr(X->getCallee()));
        a.push_back(args(A));
        a.push_back(0);
      }
      return a;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Array a = node("C", E);
      llvm::ArrayRef<const Expr *> A(X->getArgs(), X->getNumArgs());
      if (auto *F = X->getDirectCallee()) {
        a.push_back(fnInfo(F));
        a.push_back(nul());
      } else {
        a.push_back("");
        a.push_back(expr(X->getCallee()));
      }
      a.push_back(args(A));
      a.push_back(0);
      return a;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Array a = node("N", E);
      a.push_back(fnInfo(X->getConstructor()));
      a.push_back(ty(X->getType()));
      a.push_back(Array());
      return a;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = X->getConstructor();
      llvm::ArrayRef<const Expr *> A(X->getArgs(), X->getNumArgs());
      Array a = node("N", E);
      a.push_back(fnInfo(K));
      a.push_back(ty(X->getType()));
      a.push_back(args(A));
      if (K->isCopyOrMoveConstructor()) a.push_back("copy");
      return a;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return lit("zero", E, ty(E->getType()));
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return lit("zero", E, ty(E->getType()));
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Array a = node("new", E);
      a.push_back(ty(X->getAllocatedType()));
      if (X->isArray() && X->getArraySize()) a.push_back(expr(*X->getArraySize()));
      else a.push_back(nul());
      a.push_back(X->getInitializer() ? expr(X->getInitializer()) : nul());
      a.push_back(X->isArray());
      return a;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Array a = node("del", E);
      a.push_back(expr(X->getArgument()));
      a.push_back(X->isArrayForm());
      return a;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Array a = node("thr", E);
      a.push_back(X->getSubExpr() ? expr(X->getSubExpr()) : nul());
      return a;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Array a = node("I", E);
      a.push_back(expr(X->getBase()));
      a.push_back(expr(X->getIdx()));
      auto *BT = X->getBase()->IgnoreImpCasts();
      a.push_back(ty(BT->getType()));
      return a;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Array a = node("U", E);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      a.push_back(op);
      a.push_back(expr(X->getSubExpr()));
      a.push_back(ty(E->getType()));
      return a;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Array a = node(X->isAssignmentOp() ? "A" : "B", E);
      a.push_back(X->getOpcodeStr().str());
      a.push_back(expr(X->getLHS()));
      a.push_back(expr(X->getRHS()));
      a.push_back(ty(E->getType()));
      return a;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      Array a = node("?", E);
      a.push_back(expr(X->getCond()));
      a.push_back(expr(X->getTrueExpr()));
      a.push_back(expr(X->getFalseExpr()));
      return a;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      Array a = node("li", E);
      Array l;
      for (auto *I : X->inits()) l.push_back(expr(I));
      a.push_back(std::move(l));
      a.push_back(ty(E->getType()));
      return a;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return pass(E, X->getSubExpr());
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Array a = node("lam", E);
      a.push_back(fnInfo(X->getCallOperator()));
      Array caps;
      unsigned i = 0;
      for (auto &c : X->captures()) {
        Array k;
        if (c.capturesVariable()) {
          k.push_back(c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
          k.push_back(varId(cast<ValueDecl>(c.getCapturedVar())));
        } else if (c.capturesThis()) {
          k.push_back("this");
          k.push_back(nul());
        }
        caps.push_back(std::move(k));
        i++;
      }
      a.push_back(std::move(caps));
      addFunc(X->getCallOperator());
      return a;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) return lit("typeid", E, nullptr);
    if (auto *X = dyn_cast<StmtExpr>(E)) return lit("unk", E, "StmtExpr");
    // generic: keep children
    Array a = node("G", E);
    a.push_back(E->getStmtClassName());
    Array l;
    for (auto *S : E->children())
      if (auto *SE = dyn_cast_or_null<Expr>(S)) l.push_back(expr(SE));
    a.push_back(std::move(l));
    return a;
  }

  Value deref(const Expr *P) {
    Array a = node("U", nullptr);
    a[2] = (int64_t)line(P->getBeginLoc());
    a.push_back("*");
    a.push_back(expr(P));
    a.push_back(ty(P->getType()->getPointeeType()));
    return a;
  }

  Value stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Array a = node("DS", S);
      Array l;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) {
          Array d;
          d.push_back(varId(V));
          d.push_back(V->hasInit() ? expr(V->getInit()) : nul());
          d.push_back(ty(V->getType()));
          l.push_back(std::move(d));
        }
      a.push_back(std::move(l));
      return a;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Array a = node("R", S);
      a.push_back(R->getRetValue() ? expr(R->getRetValue()) : nul());
      return a;
    }
    Array a = node("S", S);
    a.push_back(S->getStmtClassName());
    return a;
  }

  std::vector<const FunctionDecl *> work;
  std::set<const FunctionDecl *> queued;
  void addFunc(const FunctionDecl *F) {
    if (queued.insert(F).second) work.push_back(F);
  }
  void emitFunc(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) {
      auto *M = dyn_cast<CXXMethodDecl>(F);
      if (!M || !M->getParent()->isLambda()) return;
    }
    std::string u = fnInfo(F);
    if (!seenDef.insert(u).second) return;
    CFG::BuildOptions BO;
    // side effects nested in larger expressions become elements of their own
    BO.setAlwaysAdd(Stmt::UnaryOperatorClass);
    BO.setAlwaysAdd(Stmt::BinaryOperatorClass);
    BO.setAlwaysAdd(Stmt::CompoundAssignOperatorClass);
    auto pure = [](const Stmt *S) {
      if (auto *U = dyn_cast<UnaryOperator>(S)) return !U->isIncrementDecrementOp();
      if (auto *B = dyn_cast<BinaryOperator>(S)) return !B->isAssignmentOp() && !B->isLogicalOp();
      return false;
    };
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddCXXNewAllocator = false;
    BO.PruneTriviallyFalseEdges = true;
    auto cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
    Object o;
    o["id"] = u;
    o["file"] = fileOf(F->getLocation());
    o["line"] = (int64_t)line(F->getLocation());
    o["end"] = (int64_t)line(F->getBody()->getEndLoc());
    if (!cfg) {
      o["nocfg"] = true;
      funcs.push_back(std::move(o));
      return;
    }
    sid.clear();
    Object savedVars = std::move(vars);
    vars = Object();
    int n = 0;
    for (auto *B : *cfg)
      for (auto &El : *B)
        if (auto S = El.getAs<CFGStmt>(); S && !pure(S->getStmt())) sid[S->getStmt()] = ++n;
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(varId(P));
    o["params"] = std::move(ps);
    // try blocks: which dispatch block (with the handlers as successors) an element's exceptions go to
    std::map<const Stmt *, const CFGBlock *> disp;
    for (auto *B : *cfg)
      if (auto *T = dyn_cast_or_null<CXXTryStmt>(B->getTerminatorStmt())) disp[T] = B;
    if (!disp.empty()) {
      Object tryof, trys;
      std::function<void(const Stmt *, int64_t)> rec = [&](const Stmt *S, int64_t cur) {
        if (!S || isa<LambdaExpr>(S)) return;
        if (cur >= 0)
          if (auto it = sid.find(S); it != sid.end()) tryof[std::to_string(it->second)] = cur;
        if (auto *T = dyn_cast<CXXTryStmt>(S); T && disp.count(T)) {
          int64_t id = disp[T]->getBlockID();
          trys[std::to_string(id)] = cur;
          rec(T->getTryBlock(), id);
          for (unsigned i = 0; i < T->getNumHandlers(); ++i) rec(T->getHandler(i)->getHandlerBlock(), cur);
          return;
        }
        for (auto *K : S->children()) rec(K, cur);
      };
      rec(F->getBody(), -1);
      o["tryof"] = std::move(tryof);
      o["trys"] = std::move(trys);
    }
    Object blocks;
    for (auto *B : *cfg) {
      Object bo;
      Array els;
      for (auto &El : *B) {
        switch (El.getKind()) {
        case CFGElement::Statement:
        case CFGElement::Constructor:
        case CFGElement::CXXRecordTypedCall:
          if (!pure(El.castAs<CFGStmt>().getStmt())) els.push_back(stmt(El.castAs<CFGStmt>().getStmt()));
          break;
        case CFGElement::Initializer: {
          auto *I = El.castAs<CFGInitializer>().getInitializer();
          Array a;
          a.push_back("init");
          a.push_back(0);
          a.push_back((int64_t)line(I->getSourceLocation()));
          if (auto *FD = I->getAnyMember()) {
            std::string cn = "?";
            if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) cn = clsName(R);
            a.push_back(cn + "::" + FD->getNameAsString());
          } else if (I->isBaseInitializer())
            a.push_back("base:" + ty(QualType(I->getBaseClass(), 0)));
          else
            a.push_back("deleg");
          a.push_back(I->getInit() ? expr(I->getInit()) : nul());
          a.push_back(I->isWritten());
          els.push_back(std::move(a));
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto *V = El.castAs<CFGAutomaticObjDtor>().getVarDecl();
          std::string t = ty(V->getType());
          Array a;
          a.push_back("dtor");
          a.push_back(0);
          a.push_back((int64_t)line(El.castAs<CFGAutomaticObjDtor>().getTriggerStmt()->getEndLoc()));
          a.push_back(varId(V));
          if (t.find("ock") != std::string::npos || t.find("uard") != std::string::npos ||
              t.compare(0, gRoot.size(), gRoot) == 0 || t.compare(0, 6, "boost:") != 0 && t.compare(0, 5, "std::") != 0)
            els.push_back(std::move(a));
          break;
        }
        default: break;
        }
      }
      bo["e"] = std::move(els);
      if (auto *T = B->getTerminatorStmt()) {
        bo["t"] = T->getStmtClassName();
        bo["tl"] = (int64_t)line(T->getBeginLoc());
        if (auto *BOp = dyn_cast<BinaryOperator>(T)) bo["top"] = BOp->getOpcodeStr().str();
        if (auto *SW = dyn_cast<SwitchStmt>(T)) bo["sw"] = expr(SW->getCond());
        else if (auto *L = B->getLastCondition()) bo["c"] = expr(L);
        else if (auto *TC = dyn_cast_or_null<Expr>(B->getTerminatorCondition()))
          bo["c"] = expr(TC);
        if (isa<IfStmt>(T) || isa<ForStmt>(T) || isa<WhileStmt>(T) || isa<DoStmt>(T) || isa<CXXForRangeStmt>(T)) {
          if (isa<ForStmt>(T) || isa<WhileStmt>(T) || isa<DoStmt>(T) || isa<CXXForRangeStmt>(T)) bo["loop"] = true;
        }
      }
      if (auto *L = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          Array cv;
          if (CS->getLHS()->EvaluateAsInt(R, C)) cv.push_back(R.Val.getInt().getExtValue());
          cv.push_back(expr(CS->getLHS()));
          bo["case"] = std::move(cv);
        } else if (isa<DefaultStmt>(L)) bo["default"] = true;
        else if (isa<CXXCatchStmt>(L)) {
          auto *K = cast<CXXCatchStmt>(L);
          bo["catch"] = K->getExceptionDecl() ? ty(K->getCaughtType()) : std::string("...");
        }
      }
      if (B->hasNoReturnElement()) bo["noret"] = true;
      Array ss;
      auto *SW = dyn_cast_or_null<SwitchStmt>(B->getTerminatorStmt());
      bool all = SW && SW->isAllEnumCasesCovered();   // enumerations hold one of their enumerators
      for (auto &S : B->succs()) {
        const CFGBlock *SB = S.getReachableBlock();
        if (SB && all && SB->getLabel() && isa<DefaultStmt>(SB->getLabel())) SB = nullptr;
        if (SB) ss.push_back((int64_t)SB->getBlockID());
        else ss.push_back(nul());
      }
      bo["s"] = std::move(ss);
      blocks[std::to_string(B->getBlockID())] = std::move(bo);
    }
    o["blocks"] = std::move(blocks);
    o["entry"] = (int64_t)cfg->getEntry().getBlockID();
    o["exit"] = (int64_t)cfg->getExit().getBlockID();
    o["vars"] = std::move(vars);
    vars = std::move(savedVars);
    funcs.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Emitter &E;
  Visitor(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && E.inTree(F->getLocation())) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda()) return true; // added from the LambdaExpr
      E.addFunc(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition()) E.addClass(R);
    return true;
  }
};

static std::vector<std::string> gErrors;
struct Diags : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<128> m;
    I.FormatDiagnostic(m);
    std::string w = "?";
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      auto &SM = I.getSourceManager();
      auto P = SM.getPresumedLoc(SM.getExpansionLoc(I.getLocation()));
      if (P.isValid()) w = std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }
    gErrors.push_back(w + ": " + std::string(m.str()));
  }
};

struct Consumer : ASTConsumer {
  std::string out;
  Consumer(std::string o) : out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Emitter E(C);
    Visitor V(E);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < E.work.size(); i++) E.emitFunc(E.work[i]);
    Object top;
    Array errs;
    for (auto &e : gErrors) errs.push_back(llvm::json::fixUTF8(e));
    top["errors"] = std::move(errs);
    Array deps;
    auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string s = it->first.getName().str();
      llvm::SmallString<256> p(s);
      llvm::sys::path::remove_dots(p, true);
      std::string q(p.str());
      if (q.compare(0, gRoot.size(), gRoot) == 0) deps.push_back(q);
    }
    top["deps"] = std::move(deps);
    top["fns"] = std::move(E.fns);
    top["classes"] = std::move(E.classes);
    top["funcs"] = std::move(E.funcs);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << Value(std::move(top));
  }
};
struct Action : ASTFrontendAction {
  std::string out;
  Action(std::string o) : out(std::move(o)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(out);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::string out;
  Factory(std::string o) : out(std::move(o)) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
};

int main(int argc, const char **argv) {
  // usage: simox-facts ROOT/ OUT.json FILE -- flags...
  if (argc < 5) return 64;
  gRoot = argv[1];
  std::string out = argv[2];
  std::vector<std::string> files = {argv[3]};
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, files);
  Factory F(out);
  Diags D;
  T.setDiagnosticConsumer(&D);
  T.setPrintErrorMessage(false);
  T.run(&F);
  return 0;
}
