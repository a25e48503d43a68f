// AST exporter: dumps the resolved, macro-expanded, type-checked program of one
// translation unit as JSON (functions, classes, globals, diagnostics).
// Only declarations whose (file) location lies under --root are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::string Root;
static J::Array OutFuncs, OutClasses, OutGlobals, OutDiags, OutEnums;

class Exporter : public RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::set<const Decl *> done;
  std::map<const ValueDecl *, std::string> ids;
  int counter = 0;

public:
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string file(SourceLocation L) {
    L = SM.getFileLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    SM.getFileManager().makeAbsolutePath(P);
    llvm::sys::path::remove_dots(P, true);
    return std::string(P.str());
  }
  std::string rel(SourceLocation L) {
    std::string f = file(L);
    if (f.rfind(Root, 0) == 0) return f.substr(Root.size());
    return "";
  }
  bool inRoot(SourceLocation L) { return !rel(L).empty(); }
  int line(SourceLocation L) {
    L = SM.getFileLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getSpellingLineNumber(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string cls(const CXXRecordDecl *R) {
    if (!R) return "";
    return C.getTypeDeclType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      s = cls(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(F)) s += "<ctor>";
      else if (isa<CXXDestructorDecl>(F)) s += "<dtor>";
      else s += F->getNameAsString();
    } else {
      llvm::raw_string_ostream os(s);
      F->getNameForDiagnostic(os, PP, true);
      os.flush();
    }
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) s += ",";
      s += ty(F->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += " const";
    return s;
  }
  std::string fname(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string s = cls(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(F)) return s + "<ctor>";
      if (isa<CXXDestructorDecl>(F)) return s + "<dtor>";
      return s + F->getNameAsString();
    }
    return F->getQualifiedNameAsString();
  }
  std::string vid(const ValueDecl *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    std::string s;
    if (auto *F = dyn_cast<FieldDecl>(V)) {
      s = cls(dyn_cast<CXXRecordDecl>(F->getParent())) + "::" + F->getNameAsString();
    } else if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (VD->isLocalVarDeclOrParm() ) {
        s = VD->getNameAsString() + "#" + std::to_string(counter++);
      } else if (VD->isStaticDataMember())
        s = cls(dyn_cast<CXXRecordDecl>(VD->getDeclContext())) + "::" + VD->getNameAsString();
      else s = VD->getQualifiedNameAsString();
    } else s = V->getQualifiedNameAsString();
    ids[V] = s;
    return s;
  }

  J::Value null() { return J::Value(nullptr); }

  J::Object node(const char *k, SourceLocation L) {
    J::Object o;
    o["k"] = k;
    o["ln"] = line(L);
    return o;
  }

  J::Value varref(const ValueDecl *V, SourceLocation L) {
    J::Object o = node("ref", L);
    o["id"] = vid(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (isa<ParmVarDecl>(VD)) o["vk"] = "param";
      else if (VD->isLocalVarDecl()) o["vk"] = VD->isStaticLocal() ? "slocal" : "local";
      else o["vk"] = "global";
    } else if (isa<FunctionDecl>(V)) {
      o["vk"] = "func";
      o["id"] = fid(cast<FunctionDecl>(V));
    } else if (auto *E = dyn_cast<EnumConstantDecl>(V)) {
      o["vk"] = "enum";
      o["v"] = (int64_t)E->getInitVal().getExtValue();
    } else if (isa<FieldDecl>(V)) o["vk"] = "field";
    else o["vk"] = "other";
    return o;
  }

  J::Array exprs(llvm::ArrayRef<const Expr *> A) {
    J::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }

  J::Value expr(const Expr *E) {
    if (!E) return null();
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      J::Object o = node("defarg", E->getBeginLoc());
      o["e"] = expr(P->getExpr());
      return o;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    SourceLocation L = E->getExprLoc();
    if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
      switch (P->getCastKind()) {
      case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating:
      case CK_FloatingToIntegral: case CK_PointerToBoolean: case CK_FloatingCast:
      case CK_FloatingToBoolean: {
        J::Object o = node("icast", L);
        o["t"] = ty(E->getType());
        o["ck"] = P->getCastKindName();
        o["e"] = expr(P->getSubExpr());
        return o;
      }
      case CK_LValueToRValue: {
        J::Object o = node("rv", L);
        o["e"] = expr(P->getSubExpr());
        return o;
      }
      case CK_NullToPointer: {
        J::Object o = node("null", L);
        o["t"] = ty(E->getType());
        return o;
      }
      default: return expr(P->getSubExpr());
      }
    }
    if (auto *P = dyn_cast<ExplicitCastExpr>(E)) {
      J::Object o = node("cast", L);
      o["t"] = ty(E->getType());
      o["ck"] = P->getCastKindName();
      o["e"] = expr(P->getSubExpr());
      return o;
    }
    if (auto *P = dyn_cast<IntegerLiteral>(E)) {
      J::Object o = node("int", L);
      llvm::SmallString<40> S;
      P->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      o["v"] = std::string(S.str());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *P = dyn_cast<FloatingLiteral>(E)) {
      J::Object o = node("float", L);
      o["v"] = P->getValueAsApproximateDouble();
      return o;
    }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J::Object o = node("bool", L);
      o["v"] = P->getValue();
      return o;
    }
    if (auto *P = dyn_cast<CharacterLiteral>(E)) {
      J::Object o = node("char", L);
      o["v"] = (int64_t)P->getValue();
      return o;
    }
    if (auto *P = dyn_cast<StringLiteral>(E)) {
      J::Object o = node("str", L);
      std::string s = P->isOrdinary() || P->isUTF8() ? P->getString().str() : std::string("?");
      if (!J::isUTF8(s)) s = J::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (isa<GNUNullExpr>(E) || isa<CXXNullPtrLiteralExpr>(E)) {
      J::Object o = node("null", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (isa<CXXThisExpr>(E)) {
      J::Object o = node("this", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *P = dyn_cast<DeclRefExpr>(E)) return varref(P->getDecl(), L);
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      J::Object o = node("mem", L);
      o["t"] = ty(E->getType());
      o["f"] = P->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(P->getMemberDecl())) {
        o["c"] = cls(dyn_cast<CXXRecordDecl>(FD->getParent()));
        o["b"] = expr(P->getBase());
        o["arrow"] = P->isArrow();
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(P->getMemberDecl())) return varref(VD, L);
      if (auto *FD = dyn_cast<FunctionDecl>(P->getMemberDecl())) {
        o["k"] = "memfn";
        o["fn"] = fid(FD);
        o["b"] = expr(P->getBase());
        return o;
      }
      if (auto *ED = dyn_cast<EnumConstantDecl>(P->getMemberDecl())) return varref(ED, L);
      return o;
    }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) {
      J::Object o = node("idx", L);
      o["t"] = ty(E->getType());
      o["b"] = expr(P->getBase());
      o["i"] = expr(P->getIdx());
      return o;
    }
    if (auto *P = dyn_cast<UnaryOperator>(E)) {
      J::Object o = node("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isPostfix()) o["post"] = true;
      // pointer to member
      if (P->getOpcode() == UO_AddrOf)
        if (auto *DR = dyn_cast<DeclRefExpr>(P->getSubExpr()->IgnoreParens())) {
          if (auto *MD = dyn_cast<CXXMethodDecl>(DR->getDecl())) {
            J::Object m = node("fnptr", L);
            m["fn"] = fid(MD);
            m["name"] = fname(MD);
            return m;
          }
          if (auto *FD = dyn_cast<FunctionDecl>(DR->getDecl())) {
            J::Object m = node("fnptr", L);
            m["fn"] = fid(FD);
            m["name"] = fname(FD);
            return m;
          }
        }
      o["t"] = ty(E->getType());
      o["e"] = expr(P->getSubExpr());
      return o;
    }
    if (auto *P = dyn_cast<BinaryOperator>(E)) {
      if (P->getOpcode() == BO_PtrMemD || P->getOpcode() == BO_PtrMemI) {
        J::Object o = node("ptrmem", L);
        o["b"] = expr(P->getLHS());
        o["p"] = expr(P->getRHS());
        o["t"] = ty(E->getType());
        return o;
      }
      J::Object o = node(P->isAssignmentOp() ? "asg" : "bin", L);
      o["op"] = P->getOpcodeStr().str();
      o["t"] = ty(E->getType());
      o["l"] = expr(P->getLHS());
      o["r"] = expr(P->getRHS());
      return o;
    }
    if (auto *P = dyn_cast<AbstractConditionalOperator>(E)) {
      J::Object o = node("cond", L);
      o["t"] = ty(E->getType());
      o["c"] = expr(P->getCond());
      o["l"] = expr(P->getTrueExpr());
      o["r"] = expr(P->getFalseExpr());
      return o;
    }
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J::Object o = node("sizeof", L);
      o["t"] = ty(P->getTypeOfArgument());
      Expr::EvalResult R;
      if (!E->isInstantiationDependent() && E->EvaluateAsInt(R, C))
        o["v"] = (int64_t)R.Val.getInt().getExtValue();
      return o;
    }
    if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      J::Object o = node("new", L);
      o["t"] = ty(P->getAllocatedType());
      o["array"] = P->isArray();
      if (P->isArray() && P->getArraySize()) o["size"] = expr(*P->getArraySize());
      o["init"] = expr(P->getInitializer());
      J::Array pl;
      for (unsigned i = 0; i < P->getNumPlacementArgs(); ++i) pl.push_back(expr(P->getPlacementArg(i)));
      o["placement"] = std::move(pl);
      return o;
    }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) {
      J::Object o = node("delete", L);
      o["array"] = P->isArrayForm();
      o["e"] = expr(P->getArgument());
      o["t"] = ty(P->getDestroyedType());
      return o;
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      J::Object o = node("ctor", L);
      auto *CD = P->getConstructor();
      o["cls"] = cls(CD->getParent());
      o["fn"] = fid(CD);
      o["triv"] = CD->isTrivial();
      o["copy"] = CD->isCopyOrMoveConstructor();
      o["elide"] = P->isElidable();
      o["zero"] = P->requiresZeroInitialization();
      o["args"] = exprs(llvm::ArrayRef<const Expr *>(P->getArgs(), P->getNumArgs()));
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *P = dyn_cast<CXXScalarValueInitExpr>(E)) {
      J::Object o = node("zeroinit", L);
      o["t"] = ty(P->getType());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E)) {
      J::Object o = node("zeroinit", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *P = dyn_cast<InitListExpr>(E)) {
      J::Object o = node("initlist", L);
      o["t"] = ty(E->getType());
      J::Array a;
      for (auto *i : P->inits()) a.push_back(expr(i));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<CallExpr>(E)) {
      J::Object o = node("call", L);
      o["t"] = ty(E->getType());
      llvm::SmallVector<const Expr *, 8> args(P->arg_begin(), P->arg_end());
      const FunctionDecl *FD = P->getDirectCallee();
      const Expr *cal = P->getCallee()->IgnoreParenImpCasts();
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        if (auto *ME = dyn_cast<MemberExpr>(cal)) {
          o["obj"] = expr(ME->getBase());
          o["arrow"] = ME->isArrow();
          if (auto *MD = MC->getMethodDecl()) {
            o["virt"] = MD->isVirtual() && !ME->hasQualifier();
            o["constm"] = MD->isConst();
          }
        } else {
          o["k"] = "mpcall";
          o["callee"] = expr(cal);
        }
      } else if (isa<CXXOperatorCallExpr>(E)) {
        o["opcall"] = true;
        if (FD && isa<CXXMethodDecl>(FD) && !args.empty()) {
          o["obj"] = expr(args[0]);
          o["arrow"] = false;
          args.erase(args.begin());
        }
      }
      if (FD) {
        o["fn"] = fid(FD);
        o["name"] = fname(FD);
        if (!inRoot(FD->getLocation())) o["ext"] = true;
      } else if (o.get("callee") == nullptr) o["callee"] = expr(P->getCallee());
      J::Array a;
      for (auto *x : args) a.push_back(expr(x));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      J::Object o = node("lambda", L);
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<CXXTypeidExpr>(E)) {
      J::Object o = node("typeid", L);
      o["of"] = ty(P->isTypeOperand() ? P->getTypeOperand(C) : P->getExprOperand()->getType());
      return o;
    }
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) {
      J::Object o = node("throw", L);
      o["e"] = expr(P->getSubExpr());
      return o;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) { (void)P; J::Object o = node("str", L); o["v"] = "__func__"; return o; }
    // generic
    J::Object o = node("unk", L);
    o["sc"] = E->getStmtClassName();
    J::Array a;
    for (auto *c : E->children())
      if (c) { if (auto *ce = dyn_cast<Expr>(c)) a.push_back(expr(ce)); else a.push_back(stmt(c)); }
    o["args"] = std::move(a);
    return o;
  }

  J::Value vardecl(const VarDecl *V) {
    J::Object o = node("var", V->getLocation());
    o["id"] = vid(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["static"] = V->isStaticLocal();
    if (auto *VA = C.getAsVariableArrayType(V->getType())) o["vla"] = expr(VA->getSizeExpr());
    if (V->hasInit()) o["init"] = expr(V->getInit());
    return o;
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return null();
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object o = node("expr", S->getBeginLoc());
      o["e"] = expr(E);
      return o;
    }
    SourceLocation L = S->getBeginLoc();
    if (auto *P = dyn_cast<CompoundStmt>(S)) {
      J::Object o = node("block", L);
      J::Array a;
      for (auto *c : P->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<DeclStmt>(S)) {
      J::Object o = node("decl", L);
      J::Array a;
      for (auto *d : P->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
      o["d"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<IfStmt>(S)) {
      J::Object o = node("if", L);
      o["init"] = stmt(P->getInit());
      if (P->getConditionVariableDeclStmt()) o["cvar"] = stmt(P->getConditionVariableDeclStmt());
      o["c"] = expr(P->getCond());
      o["then"] = stmt(P->getThen());
      o["else"] = stmt(P->getElse());
      return o;
    }
    if (auto *P = dyn_cast<ForStmt>(S)) {
      J::Object o = node("for", L);
      o["init"] = stmt(P->getInit());
      o["c"] = expr(P->getCond());
      o["inc"] = expr(P->getInc());
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) {
      J::Object o = node("forrange", L);
      o["var"] = vardecl(P->getLoopVariable());
      o["range"] = expr(P->getRangeInit());
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<WhileStmt>(S)) {
      J::Object o = node("while", L);
      o["c"] = expr(P->getCond());
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<DoStmt>(S)) {
      J::Object o = node("do", L);
      o["c"] = expr(P->getCond());
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<ReturnStmt>(S)) {
      J::Object o = node("return", L);
      o["e"] = expr(P->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return node("break", L);
    if (isa<ContinueStmt>(S)) return node("continue", L);
    if (isa<NullStmt>(S)) return node("nop", L);
    if (auto *P = dyn_cast<SwitchStmt>(S)) {
      J::Object o = node("switch", L);
      o["c"] = expr(P->getCond());
      o["body"] = stmt(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<CaseStmt>(S)) {
      J::Object o = node("case", L);
      o["v"] = expr(P->getLHS());
      o["s"] = stmt(P->getSubStmt());
      return o;
    }
    if (auto *P = dyn_cast<DefaultStmt>(S)) {
      J::Object o = node("default", L);
      o["s"] = stmt(P->getSubStmt());
      return o;
    }
    if (auto *P = dyn_cast<LabelStmt>(S)) {
      J::Object o = node("label", L);
      o["s"] = stmt(P->getSubStmt());
      return o;
    }
    if (auto *P = dyn_cast<CapturedStmt>(S)) return stmt(P->getCapturedStmt());
    if (auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      J::Object o = node("omp", L);
      o["dir"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      J::Array cl;
      for (auto *c : P->clauses()) {
        if (!c || c->isImplicit()) continue;
        J::Object co;
        co["kind"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        J::Array a;
        if (auto *N = dyn_cast<OMPNumThreadsClause>(c)) {
          const Expr *e = N->getNumThreads();
          // the captured pre-init expression: prefer the original declaration
          a.push_back(expr(e));
        } else
          for (auto *ch : c->children())
            if (auto *ce = dyn_cast_or_null<Expr>(ch)) a.push_back(expr(ce));
        co["args"] = std::move(a);
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (P->hasAssociatedStmt()) {
        const Stmt *B = P->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        o["body"] = stmt(B);
      }
      return o;
    }
    if (auto *P = dyn_cast<CXXTryStmt>(S)) {
      J::Object o = node("try", L);
      o["body"] = stmt(P->getTryBlock());
      J::Array h;
      for (unsigned i = 0; i < P->getNumHandlers(); ++i) h.push_back(stmt(P->getHandler(i)->getHandlerBlock()));
      o["handlers"] = std::move(h);
      return o;
    }
    J::Object o = node("unkstmt", L);
    o["sc"] = S->getStmtClassName();
    J::Array a;
    for (auto *c : S->children()) if (c) a.push_back(stmt(c));
    o["s"] = std::move(a);
    return o;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoot(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    bool def = F->doesThisDeclarationHaveABody() || F->isDefaulted() || F->isDeleted();
    if (def && !F->doesThisDeclarationHaveABody() && F->isImplicit()) return true;
    if (!done.insert(F).second) return true;
    J::Object o;
    o["id"] = fid(F);
    o["name"] = fname(F);
    o["base"] = F->getNameAsString();
    o["file"] = rel(F->getLocation());
    o["ln"] = line(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    o["variadic"] = F->isVariadic();
    o["externc"] = F->isExternC();
    o["static"] = F->getStorageClass() == SC_Static;
    o["templ"] = F->isTemplateInstantiation();
    o["deleted"] = F->isDeleted();
    J::Array ps;
    for (auto *p : F->parameters()) {
      J::Object po;
      po["id"] = vid(p);
      po["n"] = p->getNameAsString();
      po["t"] = ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["kind"] = "func";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = cls(M->getParent());
      o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method";
      o["virt"] = M->isVirtual();
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["pure"] = M->isPureVirtual();
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      J::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(fid(b));
      o["overrides"] = std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        o["copyctor"] = CD->isCopyOrMoveConstructor();
        J::Array in;
        if (F->doesThisDeclarationHaveABody())
        for (auto *I : CD->inits()) {
          J::Object io;
          if (I->isAnyMemberInitializer()) {
            io["field"] = I->getAnyMember()->getNameAsString();
            io["c"] = cls(CD->getParent());
          } else if (I->isDelegatingInitializer()) io["deleg"] = true;
          else if (I->isBaseInitializer())
            io["basecls"] = cls(I->getBaseClass()->getAsCXXRecordDecl());
          io["e"] = expr(I->getInit());
          io["written"] = I->isWritten();
          io["ln"] = line(I->getSourceLocation());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
    }
    o["isdef"] = F->doesThisDeclarationHaveABody();
    if (F->doesThisDeclarationHaveABody()) {
      o["body"] = stmt(F->getBody());
      o["endln"] = line(F->getBodyRBrace());
    }
    OutFuncs.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    SourceLocation RL = R->getLocation();
    if (auto *Pt = R->getTemplateInstantiationPattern()) RL = Pt->getLocation();
    if (!R->isThisDeclarationADefinition() || !inRoot(RL)) return true;
    if (R->isDependentContext() || R->isLambda()) return true;
    if (!done.insert(R).second) return true;
    J::Object o;
    o["name"] = cls(R);
    o["file"] = rel(RL);
    o["ln"] = line(RL);
    o["union"] = R->isUnion();
    J::Array bs, vb;
    for (auto &b : R->bases())
      if (auto *br = b.getType()->getAsCXXRecordDecl()) {
        bs.push_back(cls(br));
        if (b.isVirtual()) vb.push_back(cls(br));
      }
    o["bases"] = std::move(bs);
    o["vbases"] = std::move(vb);
    J::Array fs;
    for (auto *f : R->fields()) {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = ty(f->getType());
      fo["ln"] = line(f->getLocation());
      fo["mutable"] = f->isMutable();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array ms;
    for (auto *m : R->methods()) {
      J::Object mo;
      mo["id"] = fid(m);
      mo["n"] = m->getNameAsString();
      mo["virt"] = m->isVirtual();
      mo["implicit"] = m->isImplicit();
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    o["usercopyctor"] = R->hasUserDeclaredCopyConstructor();
    o["usercopyassign"] = R->hasUserDeclaredCopyAssignment();
    o["userdtor"] = R->hasUserDeclaredDestructor();
    if (auto *D = R->getDestructor()) o["virtdtor"] = D->isVirtual();
    OutClasses.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || V->isLocalVarDecl()) return true;
    if (!inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) return true;
    if (V->isTemplated()) return true;
    J::Object o;
    o["id"] = vid(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["file"] = rel(V->getLocation());
    o["ln"] = line(V->getLocation());
    o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    o["extern"] = V->hasExternalStorage();
    o["const"] = V->getType().isConstQualified();
    if (V->hasInit()) o["init"] = expr(V->getInit());
    OutGlobals.push_back(std::move(o));
    return true;
  }
};

class DiagC : public DiagnosticConsumer {
public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &D) override {
    DiagnosticConsumer::HandleDiagnostic(L, D);
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<256> M;
    D.FormatDiagnostic(M);
    J::Object o;
    o["msg"] = std::string(M.str());
    if (D.hasSourceManager() && D.getLocation().isValid()) {
      auto &SM = D.getSourceManager();
      auto FL = SM.getFileLoc(D.getLocation());
      o["file"] = SM.getFilename(FL).str();
      o["ln"] = (int64_t)SM.getSpellingLineNumber(FL);
    }
    OutDiags.push_back(std::move(o));
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char **argv) {
  // exporter ROOT OUT FILE -- flags
  if (argc < 4) return 2;
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  std::string out = argv[2], src = argv[3];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i)
    if (std::string(argv[i]) != "--") args.push_back(argv[i]);
  args.push_back("-fsyntax-only");
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  DiagC D;
  T.setDiagnosticConsumer(&D);
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  J::Object R;
  R["tu"] = src;
  R["rc"] = rc;
  R["functions"] = std::move(OutFuncs);
  R["classes"] = std::move(OutClasses);
  R["globals"] = std::move(OutGlobals);
  R["diags"] = std::move(OutDiags);
  std::error_code EC;
  llvm::raw_fd_ostream os(out, EC);
  if (EC) return 2;
  os << J::Value(std::move(R)) << "\n";
  return 0;
}
