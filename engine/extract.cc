// Fact extractor: type-checked clang AST + CFG of the repository's own
// functions, written as JSON three-address code (one file per run).
//
//   extract OUT.json ROOT SRC -- <clang args>
//
// Every function with a body whose definition lies under ROOT (minus the
// vendored openfst/ and gemmlowp/ trees) is exported, template instantiations
// and lambdas included.  Nothing is executed; the deciding rules (Python) work
// on this export only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;

struct Ctx {
  ASTContext &AC;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  json::Object functions, records, globals, enums;
  std::set<const FunctionDecl *> done;
  explicit Ctx(ASTContext &A)
      : AC(A), MC(A.createMangleContext()), PP(A.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string fileOf(SourceLocation L, unsigned *line = nullptr,
                     unsigned *col = nullptr) {
    SourceManager &SM = AC.getSourceManager();
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    if (line) *line = P.getLine();
    if (col) *col = P.getColumn();
    return P.getFilename();
  }
  bool ours(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.compare(0, gRoot.size(), gRoot) != 0) return false;
    if (f.find("/openfst/") != std::string::npos) return false;
    if (f.find("/gemmlowp/") != std::string::npos) return false;
    return true;
  }
  std::string loc(SourceLocation L) {
    unsigned l = 0, c = 0;
    std::string f = fileOf(L, &l, &c);
    if (f.compare(0, gRoot.size(), gRoot) == 0) f = f.substr(gRoot.size());
    while (!f.empty() && f[0] == '/') f = f.substr(1);
    return f + ":" + std::to_string(l);
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // equal names of static locals in different functions are different objects
    if (auto *V = dyn_cast<VarDecl>(D); V && V->isStaticLocal())
      if (auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod()))
        os << qname(FD) << "::";
    D->printQualifiedName(os, PP);
    os.flush();
    return s;
  }
  std::string mangled(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (F->getDeclContext()->isDependentContext() || F->isDependentContext())
      return "dependent:" + qname(F);
    GlobalDecl GD;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F))
      GD = GlobalDecl(C, Ctor_Complete);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F))
      GD = GlobalDecl(D, Dtor_Complete);
    else
      GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F))
      MC->mangleName(GD, os);
    else
      os << F->getNameAsString();
    os.flush();
    // Internal linkage functions may collide between TUs.
    if (F->getFormalLinkage() == Linkage::Internal ||
        F->isInAnonymousNamespace())
      s += "@" + loc(F->getLocation());
    return s;
  }
  json::Object fninfo(const FunctionDecl *F) {
    json::Object o;
    o["q"] = qname(F);
    o["m"] = mangled(F);
    o["ret"] = ty(F->getReturnType());
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["pt"] = std::move(ps);
    if (F->isVariadic()) o["variadic"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clst"] = ty(AC.getTypeDeclType(M->getParent()));
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (isa<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        auto *C = cast<CXXConstructorDecl>(M);
        if (C->isCopyConstructor()) o["copyctor"] = true;
        if (C->isMoveConstructor()) o["movector"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
    }
    if (F->isOverloadedOperator())
      o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (ours(F->getLocation())) o["ours"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isExternC()) o["externc"] = true;
    return o;
  }
};

struct FnExport {
  Ctx &C;
  const FunctionDecl *F;
  json::Object vars;
  std::map<const ValueDecl *, int> varid;
  std::map<const Stmt *, int> id;
  std::set<const Stmt *> incfg;
  int next = 1;
  json::Array *cur = nullptr;
  std::vector<const CXXMethodDecl *> lambdas;

  FnExport(Ctx &c, const FunctionDecl *f) : C(c), F(f) {}

  static const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<GenericSelectionExpr>(E)) E = P->getResultExpr();
      else if (auto *P = dyn_cast<ChooseExpr>(E)) E = P->getChosenSubExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
          case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
          case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
          case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
          case CK_LValueToRValue:
            E = P->getSubExpr(); continue;
          default: return E;
        }
      } else return E;
    }
  }

  int var(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = varid.find(V);
    if (it != varid.end()) return it->second;
    int n = varid.size() + 1;
    varid[V] = n;
    json::Object o;
    o["name"] = V->getNameAsString();
    o["type"] = C.ty(V->getType());
    o["loc"] = C.loc(V->getLocation());
    std::string k = "local";
    if (auto *P = dyn_cast<ParmVarDecl>(V)) {
      k = "param";
      if (P->getDeclContext() != F) k = "outerparam";
    } else if (auto *D = dyn_cast<VarDecl>(V)) {
      if (D->isStaticLocal()) k = "static";
      else if (D->hasGlobalStorage()) k = "global";
      if (k != "local") {
        o["q"] = C.qname(D);
        o["const"] = D->getType().isConstQualified() || D->isConstexpr();
        if (!C.ours(D->getLocation())) o["ext"] = true;
      } else if (D->getDeclContext() != F) k = "captured";
    }
    o["k"] = k;
    vars[std::to_string(n)] = std::move(o);
    return n;
  }

  int ref(const Expr *E) {
    if (!E) return 0;
    E = strip(E);
    auto it = id.find(E);
    if (it != id.end() && (incfg.count(E) || it->second)) return it->second;
    if (incfg.count(E)) { int n = next++; id[E] = n; return n; }
    emit(E);
    return id[E];
  }

  json::Array refs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (const Expr *e : r) a.push_back(ref(e));
    return a;
  }

  void push(json::Object o) { cur->push_back(std::move(o)); }

  void emit(const Expr *E0) {
    const Expr *E = strip(E0);
    if (E != E0 && incfg.count(E)) return;  // emitted as its own element
    int n;
    auto it = id.find(E);
    if (it != id.end()) n = it->second; else { n = next++; id[E] = n; }
    json::Object o;
    o["t"] = C.ty(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    o["loc"] = C.loc(E->getExprLoc());
    // Constant folding.
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue()) {
      Expr::EvalResult R;
      if (E->getType()->isIntegralOrEnumerationType() &&
          E->EvaluateAsInt(R, C.AC, Expr::SE_NoSideEffects)) {
        o["k"] = "const";
        o["v"] = llvm::toString(R.Val.getInt(), 10);
        o["i"] = n;
        push(std::move(o));
        return;
      }
      if (E->getType()->isRealFloatingType() &&
          E->EvaluateAsRValue(R, C.AC) && !R.HasSideEffects &&
          R.Val.isFloat()) {
        o["k"] = "const";
        o["fl"] = true;
        llvm::SmallString<32> s;
        R.Val.getFloat().toString(s);
        o["v"] = s.str().str();
        o["i"] = n;
        push(std::move(o));
        return;
      }
      if (E->getType()->isPointerType() || E->getType()->isNullPtrType()) {
        if (E->isNullPointerConstant(C.AC, Expr::NPC_NeverValueDependent) !=
            Expr::NPCK_NotNull) {
          o["k"] = "null";
          o["i"] = n;
          push(std::move(o));
          return;
        }
      }
    }
    body(E, o);
    o["i"] = n;
    push(std::move(o));
  }

  void callee(json::Object &o, const FunctionDecl *D) {
    o["f"] = C.fninfo(D);
  }

  void body(const Expr *E, json::Object &o) {
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = json::fixUTF8(X->getBytes());
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "func";
        callee(o, FD);
      } else if (isa<VarDecl>(D) || isa<BindingDecl>(D)) {
        o["k"] = "var";
        o["var"] = var(D);
      } else {
        o["k"] = "other";
        o["cls"] = "declref";
        o["name"] = C.qname(D);
      }
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      o["base"] = ref(X->getBase());
      o["arrow"] = X->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["k"] = "member";
        o["field"] = FD->getNameAsString();
        o["rec"] = C.qname(FD->getParent());
        o["ft"] = C.ty(FD->getType());
        if (FD->isMutable()) o["mutable"] = true;
      } else if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["k"] = "var";
        o["var"] = var(VD);
      } else {
        o["k"] = "methodref";
        o["name"] = C.qname(X->getMemberDecl());
      }
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["a"] = ref(X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        o["k"] = "assign";
        if (X->isCompoundAssignmentOp())
          o["op"] = BinaryOperator::getOpcodeStr(
              BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      } else {
        o["k"] = X->isLogicalOp() ? "logic" : "bin";
        o["op"] = X->getOpcodeStr().str();
      }
      o["a"] = ref(X->getLHS());
      o["b"] = ref(X->getRHS());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = ref(X->getCond());
      o["a"] = ref(X->getTrueExpr());
      o["b"] = ref(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "index";
      o["a"] = ref(X->getBase());
      o["b"] = ref(X->getIdx());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      callee(o, X->getConstructor());
      json::Array a;
      for (const Expr *e : X->arguments()) a.push_back(ref(e));
      o["args"] = std::move(a);
      if (X->isElidable()) o["elide"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      const FunctionDecl *FD = X->getDirectCallee();
      json::Array a;
      if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
        if (M->getImplicitObjectArgument()) {
          o["obj"] = ref(M->getImplicitObjectArgument());
          if (auto *ME = dyn_cast<MemberExpr>(strip(M->getCallee()))) {
            if (ME->isArrow()) o["arrow"] = true;
            if (FD && cast<CXXMethodDecl>(FD)->isVirtual() && !ME->hasQualifier())
              o["dyn"] = true;
          }
        }
        for (const Expr *e : X->arguments()) a.push_back(ref(e));
      } else if (isa<CXXOperatorCallExpr>(X) && FD && isa<CXXMethodDecl>(FD) &&
                 X->getNumArgs() > 0) {
        o["obj"] = ref(X->getArg(0));
        for (unsigned i = 1; i < X->getNumArgs(); ++i)
          a.push_back(ref(X->getArg(i)));
      } else {
        for (const Expr *e : X->arguments()) a.push_back(ref(e));
      }
      if (FD) callee(o, FD);
      else {
        const Expr *CE = strip(X->getCallee());
        if (!isa<CXXPseudoDestructorExpr>(CE)) o["fp"] = ref(X->getCallee());
      }
      o["args"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["nt"] = C.ty(X->getAllocatedType());
      if (X->isArray()) {
        o["array"] = true;
        if (auto s = X->getArraySize()) o["size"] = ref(*s);
      }
      if (X->getNumPlacementArgs() > 0) {
        json::Array a;
        for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i)
          a.push_back(ref(X->getPlacementArg(i)));
        o["placement"] = std::move(a);
      }
      if (X->getInitializer()) o["init"] = ref(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      if (X->isArrayForm()) o["array"] = true;
      o["a"] = ref(X->getArgument());
      o["dt"] = C.ty(X->getDestroyedType());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) {
        o["explicit"] = true;
        if (isa<CXXConstCastExpr>(E)) o["constcast"] = true;
        o["wt"] = C.ty(cast<ExplicitCastExpr>(E)->getTypeAsWritten());
      }
      o["st"] = C.ty(X->getSubExpr()->getType());
      o["a"] = ref(X->getSubExpr());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "initlist";
      json::Array a;
      for (unsigned i = 0; i < X->getNumInits(); ++i) a.push_back(ref(X->getInit(i)));
      o["args"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (X->getSubExpr()) {
        o["a"] = ref(X->getSubExpr());
        o["tt"] = C.ty(X->getSubExpr()->getType());
      }
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      o["op"] = C.mangled(X->getCallOperator());
      lambdas.push_back(X->getCallOperator());
      json::Array caps;
      for (auto &cap : X->captures()) {
        if (cap.capturesVariable()) {
          json::Object co;
          co["var"] = var(cap.getCapturedVar());
          co["byref"] = cap.getCaptureKind() == LCK_ByRef;
          co["name"] = cap.getCapturedVar()->getNameAsString();
          caps.push_back(std::move(co));
        } else if (cap.capturesThis()) {
          json::Object co; co["this"] = true; caps.push_back(std::move(co));
        }
      }
      o["caps"] = std::move(caps);
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "const";
      o["v"] = "0";
    } else if (isa<PredefinedExpr>(E)) {
      o["k"] = "str";
      o["v"] = "";
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      (void)X;
    } else {
      o["k"] = "other";
      o["cls"] = E->getStmtClassName();
      json::Array a;
      for (const Stmt *s : E->children())
        if (auto *e = dyn_cast_or_null<Expr>(s)) a.push_back(ref(e));
      o["args"] = std::move(a);
    }
  }

  void stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) { emit(E); return; }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      for (const Decl *d : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          json::Object o;
          int init = 0;
          if (V->getInit() && !V->isStaticLocal()) init = ref(V->getInit());
          else if (V->getInit()) init = ref(V->getInit());
          o["i"] = next++;
          o["k"] = "decl";
          o["var"] = var(V);
          if (init) o["init"] = init;
          o["t"] = C.ty(V->getType());
          o["loc"] = C.loc(V->getLocation());
          push(std::move(o));
        }
      }
      return;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      json::Object o;
      int v = R->getRetValue() ? ref(R->getRetValue()) : 0;
      o["i"] = next++;
      o["k"] = "return";
      if (v) o["a"] = v;
      o["loc"] = C.loc(R->getReturnLoc());
      push(std::move(o));
      return;
    }
    json::Object o;
    o["i"] = next++;
    o["k"] = "stmt";
    o["cls"] = S->getStmtClassName();
    o["loc"] = C.loc(S->getBeginLoc());
    push(std::move(o));
  }

  bool run(json::Object &out) {
    CFG::BuildOptions BO;
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C.AC, BO);
    if (!G) return false;
    for (const CFGBlock *B : *G)
      for (const CFGElement &El : *B)
        if (auto S = El.getAs<CFGStmt>())
          if (auto *E = dyn_cast<Expr>(S->getStmt()))
            if (strip(E) == E) incfg.insert(E);
    json::Object fo = C.fninfo(F);
    fo["loc"] = C.loc(F->getLocation());
    unsigned l1 = 0;
    C.fileOf(F->getBodyRBrace(), &l1);
    fo["endline"] = (int64_t)l1;
    fo["line"] = 0;
    unsigned l0 = 0;
    C.fileOf(F->getLocation(), &l0);
    fo["line"] = (int64_t)l0;
    json::Array params;
    for (auto *P : F->parameters()) params.push_back(var(P));
    json::Array blocks;
    // reverse iteration of CFG gives entry first
    std::vector<const CFGBlock *> bs(G->begin(), G->end());
    for (auto bi = bs.rbegin(); bi != bs.rend(); ++bi) {
      const CFGBlock *B = *bi;
      json::Object bo;
      json::Array elems;
      cur = &elems;
      for (const CFGElement &El : *B) {
        if (auto S = El.getAs<CFGStmt>()) {
          stmt(S->getStmt());
        } else if (auto I = El.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *CI = I->getInitializer();
          json::Object o;
          int v = ref(CI->getInit());
          o["i"] = next++;
          o["k"] = "init";
          if (CI->isAnyMemberInitializer()) {
            o["field"] = CI->getAnyMember()->getNameAsString();
            o["rec"] = C.qname(CI->getAnyMember()->getParent());
            o["ft"] = C.ty(CI->getAnyMember()->getType());
          } else if (CI->isBaseInitializer()) {
            o["basecls"] = C.ty(QualType(CI->getBaseClass(), 0));
          } else {
            o["delegating"] = true;
          }
          if (v) o["a"] = v;
          if (CI->isWritten()) o["written"] = true;
          o["loc"] = C.loc(CI->getSourceLocation());
          push(std::move(o));
        } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
          json::Object o;
          o["i"] = next++;
          o["k"] = "autodtor";
          o["var"] = var(D->getVarDecl());
          o["t"] = C.ty(D->getVarDecl()->getType());
          o["loc"] = C.loc(D->getTriggerStmt() ? D->getTriggerStmt()->getBeginLoc() : SourceLocation());
          push(std::move(o));
        } else if (auto D = El.getAs<CFGMemberDtor>()) {
          json::Object o;
          o["i"] = next++;
          o["k"] = "memberdtor";
          o["field"] = D->getFieldDecl()->getNameAsString();
          o["t"] = C.ty(D->getFieldDecl()->getType());
          push(std::move(o));
        } else if (auto D = El.getAs<CFGBaseDtor>()) {
          json::Object o;
          o["i"] = next++;
          o["k"] = "basedtor";
          o["t"] = C.ty(D->getBaseSpecifier()->getType());
          push(std::move(o));
        }
      }
      // terminator
      if (const Stmt *T = B->getTerminatorStmt()) {
        json::Object to;
        to["cls"] = T->getStmtClassName();
        to["loc"] = C.loc(T->getBeginLoc());
        if (const Stmt *cond = B->getTerminatorCondition()) {
          if (auto *ce = dyn_cast<Expr>(cond)) {
            // For logical terminators the condition is the LHS.
            to["cond"] = ref(ce);
          }
        }
        if (isa<SwitchStmt>(T)) {
          json::Array cases;
          for (auto si = B->succ_begin(); si != B->succ_end(); ++si) {
            const CFGBlock *S = si->getReachableBlock();
            json::Object co;
            if (!S) S = si->getPossiblyUnreachableBlock();
            if (S) {
              if (const Stmt *L = S->getLabel()) {
                if (auto *CS = dyn_cast<CaseStmt>(L)) {
                  Expr::EvalResult R;
                  json::Array vals;
                  // stacked case labels share a block chain; each label has
                  // its own (possibly empty) block, so one value suffices.
                  if (CS->getLHS()->EvaluateAsInt(R, C.AC))
                    co["v"] = llvm::toString(R.Val.getInt(), 10);
                } else if (isa<DefaultStmt>(L)) {
                  co["default"] = true;
                }
              }
            }
            if (!co.get("v") && !co.get("default")) co["default"] = true;
            cases.push_back(std::move(co));
          }
          to["cases"] = std::move(cases);
        }
        bo["term"] = std::move(to);
      }
      json::Array succs;
      for (auto si = B->succ_begin(); si != B->succ_end(); ++si) {
        const CFGBlock *S = si->getReachableBlock();
        if (S) succs.push_back((int64_t)S->getBlockID());
        else succs.push_back(nullptr);
      }
      bo["id"] = (int64_t)B->getBlockID();
      if (B->hasNoReturnElement()) bo["noreturn"] = true;
      bo["elems"] = std::move(elems);
      bo["succs"] = std::move(succs);
      blocks.push_back(std::move(bo));
    }
    fo["params"] = std::move(params);
    fo["vars"] = std::move(vars);
    fo["blocks"] = std::move(blocks);
    fo["entry"] = (int64_t)G->getEntry().getBlockID();
    fo["exit"] = (int64_t)G->getExit().getBlockID();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(C.mangled(O));
      if (!ov.empty()) fo["overrides"] = std::move(ov);
    }
    if (F->isInlined()) fo["inline"] = true;
    out = std::move(fo);
    return true;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Ctx &C;
  explicit Visitor(Ctx &c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  void exportFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext()) return;
    if (!C.ours(F->getLocation())) return;
    if (F->isDefaulted() && F->isImplicit() && F->isTrivial()) return;
    if (!C.done.insert(F->getCanonicalDecl()).second) return;
    FnExport X(C, F);
    json::Object o;
    if (X.run(o)) C.functions[C.mangled(F)] = std::move(o);
    else C.functions[C.mangled(F)] = json::Object{{"error", "no cfg"}};
    for (auto *L : X.lambdas) exportFn(L);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    exportFn(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && C.ours(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext()) {
      json::Object o;
      o["q"] = C.qname(V);
      o["type"] = C.ty(V->getType());
      o["const"] = V->getType().isConstQualified() || V->isConstexpr();
      o["loc"] = C.loc(V->getLocation());
      o["static_local"] = V->isStaticLocal();
      if (auto *I = V->getAnyInitializer()) {
        const Expr *E = FnExport::strip(I);
        if (auto *S = dyn_cast<StringLiteral>(E)) o["str"] = json::fixUTF8(S->getBytes());
        if (auto *L = dyn_cast<InitListExpr>(E)) {
          json::Array a;
          for (unsigned i = 0; i < L->getNumInits(); ++i) {
            Expr::EvalResult R;
            if (!L->getInit(i)->isValueDependent() &&
                L->getInit(i)->EvaluateAsInt(R, C.AC))
              a.push_back(llvm::toString(R.Val.getInt(), 10));
            else a.push_back(nullptr);
          }
          o["list"] = std::move(a);
        }
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C.AC))
          o["v"] = llvm::toString(R.Val.getInt(), 10);
      }
      // real constants, also those of a class template
      {
        const VarDecl *P = V;
        if (!P->getAnyInitializer())
          if (auto *Q = V->getInstantiatedFromStaticDataMember()) P = Q;
        const Expr *I = P->getAnyInitializer();
        Expr::EvalResult R;
        if (I && !I->isValueDependent() && I->getType()->isRealFloatingType() && V->getType().isConstQualified() &&
            I->EvaluateAsRValue(R, C.AC) && R.Val.isFloat()) {
          llvm::SmallString<32> t;
          R.Val.getFloat().toString(t);
          o["v"] = t.str().str();
        }
      }
      C.globals[C.qname(V)] = std::move(o);
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!C.ours(E->getLocation()) || E->isDependentContext()) return true;
    json::Object o;
    json::Object vals;
    for (auto *c : E->enumerators())
      vals[c->getNameAsString()] = llvm::toString(c->getInitVal(), 10);
    std::string key = C.qname(E) + "@" + C.loc(E->getLocation());
    o["vals"] = std::move(vals);
    if (auto *P = dyn_cast<NamedDecl>(E->getDeclContext())) o["in"] = C.qname(P);
    C.enums[key] = std::move(o);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        !C.ours(R->getLocation()) || R->isLambda())
      return true;
    json::Object o;
    std::string t = C.ty(C.AC.getTypeDeclType(R));
    o["q"] = C.qname(R);
    o["loc"] = C.loc(R->getLocation());
    if (R->isCompleteDefinition() && !R->isInvalidDecl())
      o["size"] = (int64_t)C.AC.getTypeSizeInChars(C.AC.getTypeDeclType(R)).getQuantity();
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object fo;
      fo["name"] = F->getNameAsString();
      fo["type"] = C.ty(F->getType());
      if (F->isMutable()) fo["mutable"] = true;
      if (F->hasInClassInitializer()) fo["init"] = true;
      QualType T = F->getType();
      fo["scalar"] = T->isScalarType();
      fo["pointer"] = T->isPointerType();
      fo["loc"] = C.loc(F->getLocation());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bases;
    for (auto &b : R->bases()) bases.push_back(C.ty(b.getType()));
    o["bases"] = std::move(bases);
    o["polymorphic"] = R->isPolymorphic();
    o["abstract"] = R->isAbstract();
    auto *D = R->getDestructor();
    o["virtual_dtor"] = D && D->isVirtual();
    o["user_dtor"] = R->hasUserDeclaredDestructor();
    // copy operations usable from outside?
    auto usable = [&](bool assign) {
      bool any = false, user = false;
      if (!assign) {
        for (auto *c : R->ctors())
          if (c->isCopyConstructor()) {
            user = !c->isImplicit();
            if (!c->isDeleted() && c->getAccess() == AS_public) any = true;
          }
        if (R->needsImplicitCopyConstructor()) {
          any = !R->defaultedCopyConstructorIsDeleted();
          if (R->hasMoveConstructor() || R->hasMoveAssignment()) any = false;
        }
      } else {
        for (auto *m : R->methods())
          if (m->isCopyAssignmentOperator()) {
            user = !m->isImplicit();
            if (!m->isDeleted() && m->getAccess() == AS_public) any = true;
          }
        if (R->needsImplicitCopyAssignment()) {
          any = true;
          if (R->hasMoveConstructor() || R->hasMoveAssignment()) any = false;
        }
      }
      return std::make_pair(any, user);
    };
    auto cc = usable(false), ca = usable(true);
    o["copyctor_usable"] = cc.first;
    o["copyctor_user"] = cc.second;
    o["copyassign_usable"] = ca.first;
    o["copyassign_user"] = ca.second;
    C.records[t] = std::move(o);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &AC) override {
    Ctx C(AC);
    Visitor V(C);
    V.TraverseDecl(AC.getTranslationUnitDecl());
    json::Object root;
    root["functions"] = std::move(C.functions);
    root["records"] = std::move(C.records);
    root["globals"] = std::move(C.globals);
    root["enums"] = std::move(C.enums);
    root["errors"] = (int64_t)AC.getDiagnostics().hasErrorOccurred();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(root));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};

struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override {
    return std::make_unique<Action>();
  }
};

int main(int argc, const char **argv) {
  if (argc < 5) return 64;
  gOut = argv[1];
  gRoot = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args;
  int i = 4;
  if (std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(gRoot, args);
  tooling::ClangTool T(DB, {src});
  Factory Fa;
  return T.run(&Fa);
}
