// ogvx: parse translation units with clang and dump, as JSON, the typed and
// resolved syntax trees of every function whose body lies in the analysed
// source roots (including implicit instantiations of templates), the records
// defined there, the global variables defined there and a declaration table
// of every callee.  No source text is interpreted: names are resolved
// declarations, types are canonical, constants are folded by the compiler.
#include "clang/AST/AST.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {
class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Globals;
  json::Object Decls, Types;
  std::set<std::string> seenFn, seenRec, seenDecl;
  std::map<const Type *, std::string> tyCache;
  std::map<std::string, int> tyIndex;
  std::map<const ValueDecl *, int> declIds;
  std::string curFile;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> path(P.getFilename());
    SM.getFileManager().makeAbsolutePath(path);
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(path, real)) return real.str().str();
    return path.str().str();
  }
  std::map<std::string, std::string> fileCache;
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = rootCache.find(F);
    if (it != rootCache.end()) return it->second;
    std::string f = fileOf(L);
    bool r = false;
    for (auto &R : Roots)
      if (f.compare(0, R.size(), R) == 0) r = true;
    rootCache[F] = r;
    return r;
  }
  std::map<FileID, bool> rootCache;

  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "?";
    return B.str().str();
  }

  int declId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }

  // --- types -------------------------------------------------------------
  bool eigenDims(const CXXRecordDecl *RD, std::string &out) {
    if (!RD || !RD->hasDefinition()) return false;
    RD = RD->getDefinition();
    // search this record and its bases for the enumerators RowsAtCompileTime
    std::vector<const CXXRecordDecl *> work{RD};
    std::set<const CXXRecordDecl *> vis;
    long rows = -2, cols = -2, flags = 0;
    std::string scalar;
    while (!work.empty()) {
      auto *R = work.back();
      work.pop_back();
      if (!R || !R->hasDefinition() || !vis.insert(R).second) continue;
      R = R->getDefinition();
      for (auto *D : R->decls()) {
        if (auto *E = dyn_cast<EnumDecl>(D)) {
          for (auto *EC : E->enumerators()) {
            if (EC->getInitVal().getBitWidth() > 64) continue;
            if (EC->getName() == "RowsAtCompileTime" && rows == -2)
              rows = EC->getInitVal().getExtValue();
            if (EC->getName() == "ColsAtCompileTime" && cols == -2)
              cols = EC->getInitVal().getExtValue();
          }
        }
        if (scalar.empty())
          if (auto *T = dyn_cast<TypedefNameDecl>(D))
            if (T->getName() == "Scalar" &&
                !T->getUnderlyingType()->isDependentType())
              scalar = T->getUnderlyingType().getCanonicalType().getAsString(PP);
      }
      if (rows != -2 && cols != -2 && !scalar.empty()) break;
      for (auto &B : R->bases())
        work.push_back(B.getType()->getAsCXXRecordDecl());
    }
    if (rows == -2 || cols == -2) return false;
    std::string kind = RD->getNameAsString();
    out = "E|" + kind + "|" + std::to_string(rows) + "|" + std::to_string(cols) +
          "|" + scalar;
    return true;
  }
  std::string typeStr(QualType QT) {
    if (QT.isNull()) return "?";
    QT = QT.getCanonicalType();
    if (QT->isDependentType()) return "dep";
    std::string pre, post;
    if (QT->isReferenceType()) {
      bool rv = QT->isRValueReferenceType();
      QT = QT.getNonReferenceType();
      post = rv ? "&&" : "&";
    }
    while (QT->isPointerType()) {
      std::string q = QT.isConstQualified() ? "const" : "";
      post = "*" + q + post;
      QT = QT->getPointeeType();
    }
    if (QT.isConstQualified()) pre = "const ";
    QualType U = QT.getUnqualifiedType();
    auto it = tyCache.find(U.getTypePtr());
    if (it != tyCache.end()) return pre + it->second + post;
    std::string s;
    if (auto *RD = U->getAsCXXRecordDecl()) {
      if (RD->isInStdNamespace() || !eigenDims(RD, s)) {
        s = U.getAsString(PP);
        if (s.size() > 400) s = RD->getQualifiedNameAsString() + "<...>";
      }
    } else {
      s = U.getAsString(PP);
      if (s.size() > 400) s = s.substr(0, 400);
    }
    tyCache[U.getTypePtr()] = s;
    return pre + s + post;
  }
  int ty(QualType QT) {
    std::string s = typeStr(QT);
    auto it = tyIndex.find(s);
    if (it != tyIndex.end()) return it->second;
    int n = tyIndex.size();
    tyIndex[s] = n;
    return n;
  }

  // --- declarations of callees ---------------------------------------------
  std::string fnRef(const FunctionDecl *FD) {
    // Callees are identified by the canonical declaration of the (possibly
    // instantiated) function.
    std::string u = usr(FD);
    if (!seenDecl.insert(u).second) return u;
    json::Object o;
    o["q"] = FD->getQualifiedNameAsString();
    o["n"] = FD->getNameAsString();
    json::Array ps;
    for (auto *P : FD->parameters()) {
      QualType T = P->getType();
      std::string m = "val";
      if (T->isReferenceType()) {
        m = T.getNonReferenceType().isConstQualified() ? "cref" : "mref";
        if (T->isRValueReferenceType() && m == "mref") m = "rref";
      } else if (T->isPointerType())
        m = T->getPointeeType().isConstQualified() ? "cptr" : "mptr";
      ps.push_back(json::Object{{"t", ty(T)}, {"m", m}, {"n", P->getNameAsString()}});
    }
    o["p"] = std::move(ps);
    o["r"] = ty(FD->getReturnType());
    o["in"] = inRoots(FD->getLocation());
    o["noret"] = FD->isNoReturn();
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = MD->getParent()->getQualifiedNameAsString();
      o["clsT"] = typeStr(C.getRecordType(MD->getParent()));
      o["const"] = MD->isConst();
      o["virt"] = MD->isVirtual();
      o["pure"] = MD->isPureVirtual();
      o["static"] = MD->isStatic();
      json::Array ov;
      for (auto *O : MD->overridden_methods()) ov.push_back(fnRef(O));
      o["over"] = std::move(ov);
      if (isa<CXXConstructorDecl>(FD)) {
        auto *CD = cast<CXXConstructorDecl>(FD);
        o["ctor"] = true;
        o["copy"] = CD->isCopyOrMoveConstructor();
      }
      if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(FD)) o["conv"] = true;
    }
    Decls[u] = std::move(o);
    return u;
  }

  // --- expressions -----------------------------------------------------------
  json::Value cval(const Expr *E, json::Object &o) {
    // fold integral and floating constants
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::APSInt v = R.Val.getInt();
        if (v.getSignificantBits() <= 64)
          o["c"] = (int64_t)(v.isSigned() ? v.getSExtValue() : (int64_t)v.getZExtValue());
      }
    } else if (T->isRealFloatingType()) {
      llvm::APFloat F(0.0);
      if (E->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
        bool li;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        double d = F.convertToDouble();
        if (d == d && d - d == 0) o["c"] = d;
        else o["cs"] = (d != d) ? "nan" : (d > 0 ? "inf" : "-inf");
      }
    }
    return nullptr;
  }
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral:
        case CK_FloatingCast: case CK_IntegralCast:
        case CK_FloatingToBoolean: case CK_IntegralToBoolean: case CK_PointerToBoolean:
          return E;
        default: E = X->getSubExpr();
        }
      } else break;
    }
    return E;
  }
  // does an explicit cast lose const on what a pointer or reference leads to?
  static bool dropsConst(const Expr *S, const ExplicitCastExpr *X) {
    QualType A = S->getType().getCanonicalType(), B = X->getTypeAsWritten().getCanonicalType();
    if (B->isReferenceType())
      return A.isConstQualified() && !B->getPointeeType().isConstQualified() && S->isGLValue() && B->isLValueReferenceType();
    while (A->isPointerType() && B->isPointerType()) {
      A = A->getPointeeType(); B = B->getPointeeType();
      if (A.isConstQualified() && !B.isConstQualified()) return true;
    }
    return false;
  }
  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto *x : r) a.push_back(expr(x));
    return a;
  }
  json::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    json::Object o;
    o["l"] = (int64_t)lineOf(E->getExprLoc());
    o["t"] = ty(E->getType());
    cval(E, o);
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      CastKind K = X->getCastKind();
      const Expr *S = X->getSubExpr();
      bool drop = dropsConst(S, X);
      if (K == CK_ConstructorConversion || K == CK_UserDefinedConversion || K == CK_NoOp ||
          K == CK_LValueToRValue) {
        json::Value v = expr(S);
        if (K == CK_NoOp && (drop || isa<CXXConstCastExpr>(X))) {
          o["k"] = "constcast"; o["e"] = std::move(v); o["drop"] = drop; return o;
        }
        return v;
      }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["x"] = true; o["e"] = expr(S);
      if (drop) o["drop"] = true;
      if (isa<CXXConstCastExpr>(X)) o["k"] = "constcast";
      return o;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { (void)X; o["k"] = "lit"; return o; }
    if (isa<FloatingLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) {
      o["k"] = "lit"; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      if (X->isOrdinary()) {
        std::string s = X->getString().str();
        o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);
      }
      return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      o["k"] = "ref"; o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; o["fn"] = fnRef(F); return o; }
      o["id"] = declId(D);
      if (isa<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = D->getQualifiedNameAsString(); }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) o["dk"] = "parm";
        else if (V->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = V->getQualifiedNameAsString(); o["u"] = usr(V); }
        else o["dk"] = "var";
      } else o["dk"] = "other";
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        o["k"] = "ref"; o["dk"] = "global"; o["n"] = V->getNameAsString();
        o["q"] = V->getQualifiedNameAsString(); o["id"] = declId(V); o["u"] = usr(V);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "memfn"; o["fn"] = fnRef(F); o["b"] = expr(X->getBase()); return o;
      }
      if (isa<EnumConstantDecl>(D)) { o["k"] = "ref"; o["dk"]="enum"; o["n"]=D->getNameAsString(); o["q"]=D->getQualifiedNameAsString(); return o; }
      o["k"] = "mem"; o["f"] = D->getNameAsString(); o["b"] = expr(X->getBase());
      if (X->isArrow()) o["ar"] = true;
      if (auto *F = dyn_cast<FieldDecl>(D)) o["cls"] = F->getParent()->getQualifiedNameAsString();
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "op"; o["o"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["fn"] = fnRef(F);
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *M = X->getMethodDecl()) {
        o["fn"] = fnRef(M); o["n"] = M->getNameAsString();
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          o["qual"] = ME->hasQualifier();
      }
      o["b"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        if (ME->isArrow()) o["ar"] = true;
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) { o["fn"] = fnRef(F); o["n"] = F->getNameAsString(); }
      else o["callee"] = expr(X->getCallee());
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["fn"] = fnRef(X->getConstructor());
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
      auto *CD = X->getConstructor();
      if (CD->isCopyOrMoveConstructor()) o["copy"] = true;
      if (CD->isDefaultConstructor() ) o["def"] = true;
      if (CD->isTrivial()) o["triv"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["fn"] = fnRef(X->getConstructor()); o["a"] = json::Array(); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; 
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      o["o"] = op; o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "asg"; o["o"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS()); return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "asg" : "bin"; o["o"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS()); return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond"; o["x"] = expr(X->getCond()); o["y"] = expr(X->getTrueExpr());
      o["z"] = expr(X->getFalseExpr()); return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["x"] = expr(X->getBase()); o["y"] = expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist"; json::Array a;
      for (auto *I : X->inits()) a.push_back(expr(I));
      o["a"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = ty(X->getAllocatedType()); o["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      o["place"] = (int64_t)X->getNumPlacementArgs();
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "del"; o["arr"] = X->isArrayForm(); o["e"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; o["k"] = "zero"; return o; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { (void)X; o["k"] = "zero"; return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { (void)X; o["k"] = "lit"; return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["fn"] = fnRef(X->getCallOperator());
      json::Array caps;
      for (auto &cp : X->captures()) {
        json::Object c;
        if (cp.capturesThis()) c["this"] = true;
        else if (cp.capturesVariable()) {
          c["id"] = declId(cp.getCapturedVar()); c["n"] = cp.getCapturedVar()->getNameAsString();
          c["ref"] = cp.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      json::Array ps;
      for (auto *P : X->getCallOperator()->parameters())
        ps.push_back(json::Object{{"id", declId(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}});
      o["params"] = std::move(ps);
      o["body"] = stmt(X->getBody());
      return o;
    }
    // generic
    o["k"] = "other"; o["cls"] = E->getStmtClassName();
    json::Array ch;
    for (auto *S : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(S)) ch.push_back(expr(CE));
    o["a"] = std::move(ch);
    return o;
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object d;
    d["id"] = declId(V); d["n"] = V->getNameAsString(); d["t"] = ty(V->getType());
    d["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) d["static"] = true;
    if (V->hasInit()) d["i"] = expr(V->getInit());
    return d;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block"; json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a); o["le"] = (int64_t)lineOf(X->getRBracLoc()); return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; json::Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen());
      if (X->getElse()) o["b"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["i"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["n"] = expr(X->getInc());
      o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["v"] = varDecl(X->getLoopVariable());
      o["r"] = expr(X->getRangeInit()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      o["allenum"] = X->isAllEnumCasesCovered(); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case"; o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default"; o["s"] = stmt(X->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "return"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (isa<NullStmt>(S)) { o["k"] = "nop"; return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["e"] = expr(X); return o; }
    o["k"] = "otherstmt"; o["cls"] = S->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() || FD->isDependentContext()) return;
    if (FD->isDefaulted() && !FD->isUserProvided()) {
      if (!isa<CXXConstructorDecl>(FD)) return;
    }
    if (!inRoots(FD->getLocation())) return;
    std::string u = fnRef(FD);
    if (!seenFn.insert(u).second) return;
    json::Object o;
    o["u"] = u;
    o["q"] = FD->getQualifiedNameAsString();
    o["n"] = FD->getNameAsString();
    o["file"] = fileOf(FD->getLocation());
    o["line"] = (int64_t)lineOf(FD->getLocation());
    o["ret"] = ty(FD->getReturnType());
    o["implicit"] = FD->isImplicit();
    json::Array ps;
    for (auto *P : FD->parameters())
      ps.push_back(json::Object{{"id", declId(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}});
    o["params"] = std::move(ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = MD->getParent()->getQualifiedNameAsString();
      o["clsT"] = typeStr(C.getRecordType(MD->getParent()));
      o["const"] = MD->isConst(); o["static"] = MD->isStatic();
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o["ctor"] = true;
      json::Array is;
      for (auto *I : CD->inits()) {
        json::Object io;
        io["l"] = (int64_t)lineOf(I->getSourceLocation());
        io["written"] = I->isWritten();
        if (I->isMemberInitializer()) { io["f"] = I->getMember()->getNameAsString(); io["ft"] = ty(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = typeStr(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(FD->getBody());
    Functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() ||
        RD->isLambda() || !inRoots(RD->getLocation()))
      return;
    std::string u = usr(RD);
    if (!seenRec.insert(u).second) return;
    json::Object o;
    o["u"] = u; o["q"] = RD->getQualifiedNameAsString();
    o["T"] = typeStr(C.getRecordType(RD));
    o["file"] = fileOf(RD->getLocation()); o["line"] = (int64_t)lineOf(RD->getLocation());
    json::Array bases;
    for (auto &B : RD->bases()) bases.push_back(json::Object{
        {"T", typeStr(B.getType())},
        {"q", B.getType()->getAsCXXRecordDecl() ? B.getType()->getAsCXXRecordDecl()->getQualifiedNameAsString() : ""}});
    o["bases"] = std::move(bases);
    json::Array fs;
    for (auto *F : RD->fields())
      fs.push_back(json::Object{{"n", F->getNameAsString()}, {"t", ty(F->getType())},
        {"mutable", F->isMutable()}, {"l", (int64_t)lineOf(F->getLocation())},
        {"ref", F->getType()->isReferenceType()},
        {"align", (int64_t)(F->getType()->isIncompleteType() || F->getType()->isReferenceType() ? 0 : C.getTypeAlignInChars(F->getType()).getQuantity())},
        {"acc", (int64_t)F->getAccess()}});
    o["fields"] = std::move(fs);
    o["align"] = RD->isInvalidDecl() ? 0 : (int64_t)C.getASTRecordLayout(RD).getAlignment().getQuantity();
    o["poly"] = RD->isPolymorphic();
    o["abstract"] = RD->isAbstract();
    if (auto *D = RD->getDestructor()) { o["vdtor"] = D->isVirtual(); o["udtor"] = D->isUserProvided(); }
    json::Array ms;
    bool opnew = false;
    for (auto *M : RD->methods()) {
      if (M->getDeclName().getCXXOverloadedOperator() == OO_New) opnew = true;
      if (M->isImplicit()) continue;
      json::Object m;
      m["u"] = fnRef(M); m["n"] = M->getNameAsString();
      m["const"] = M->isConst(); m["virt"] = M->isVirtual(); m["pure"] = M->isPureVirtual();
      m["deleted"] = M->isDeleted(); m["acc"] = (int64_t)M->getAccess();
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    // inherited operator new?
    std::set<const CXXRecordDecl *> vis;
    std::vector<const CXXRecordDecl *> w{RD};
    while (!w.empty() && !opnew) {
      auto *R = w.back(); w.pop_back();
      if (!R || !R->hasDefinition() || !vis.insert(R).second) continue;
      R = R->getDefinition();
      for (auto *M : R->methods())
        if (M->getDeclName().getCXXOverloadedOperator() == OO_New) opnew = true;
      for (auto &B : R->bases()) w.push_back(B.getType()->getAsCXXRecordDecl());
    }
    o["opnew"] = opnew;
    Records.push_back(std::move(o));
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V)) return;
    if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
    if (!inRoots(V->getLocation())) return;
    json::Object o;
    o["q"] = V->getQualifiedNameAsString(); o["u"] = usr(V); o["id"] = declId(V); o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    QualType BT = C.getBaseElementType(V->getType());
    o["const"] = BT.isConstQualified(); o["constexpr"] = V->isConstexpr();
    o["local"] = V->isStaticLocal(); o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    o["file"] = fileOf(V->getLocation()); o["line"] = (int64_t)lineOf(V->getLocation());
    if (V->hasInit() && !V->getInit()->isValueDependent()) o["i"] = expr(V->getInit());
    Globals.push_back(std::move(o));
  }
  void enumDecl(const EnumDecl *E) {
    if (!inRoots(E->getLocation()) || !E->isThisDeclarationADefinition() || E->isDependentContext()) return;
    json::Object o; o["q"] = E->getQualifiedNameAsString();
    o["file"] = fileOf(E->getLocation()); o["line"] = (int64_t)lineOf(E->getLocation());
    json::Array a;
    for (auto *c : E->enumerators())
      a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", (int64_t)c->getInitVal().getExtValue()}});
    o["e"] = std::move(a);
    Enums.push_back(std::move(o));
  }
  json::Array Enums;

  json::Object finish() {
    json::Array T;
    std::vector<std::string> v(tyIndex.size());
    for (auto &p : tyIndex) v[p.second] = p.first;
    for (auto &s : v) T.push_back(json::isUTF8(s) ? s : json::fixUTF8(s));
    json::Object o;
    o["types"] = std::move(T); o["functions"] = std::move(Functions);
    o["decls"] = std::move(Decls); o["records"] = std::move(Records);
    o["globals"] = std::move(Globals); o["enums"] = std::move(Enums);
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *X) {
    if (!X) return true;
    // skip system headers wholesale (but not namespaces, that may be reopened)
    return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.global(V); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumDecl(E); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    // traverse only top-level declarations located in the roots, plus
    // everything reachable as template instantiation of a root template
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(D.finish());
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: ogvx OUT.json SRC.cpp ROOT[:ROOT...] -- clang args
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutFile = argv[1];
  std::string src = argv[2];
  std::string r = argv[3];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(':', p);
    if (q == std::string::npos) q = r.size();
    Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", args);
  clang::tooling::ClangTool Tool(DB, {src});
  return Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
