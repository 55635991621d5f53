// mpx-extract: dumps the type-checked, template-instantiated bodies of every function of the analysed
// repository that is reachable from the driver translation unit (plus class layouts) as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string OutFile;
static std::string RepoMark = "/libmpdata++/";

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const FunctionDecl*, int> FIds; std::vector<const FunctionDecl*> FList;
  std::map<const CXXRecordDecl*, int> RIds; std::vector<const CXXRecordDecl*> RList;
  std::map<const Decl*, int> VIds;
  std::map<const Type*, int> TIds; std::vector<Value> TList;
  std::map<std::string,int> FileIds; std::vector<std::string> Files;
  std::deque<const FunctionDecl*> Work; std::set<const FunctionDecl*> Queued;
  std::map<const VarDecl*, int> GIds; std::vector<const VarDecl*> GList;
  std::string MainFile, MainDir;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
    if (auto FE = SM.getFileEntryRefForID(SM.getMainFileID())) { MainFile = FE->getName().str(); MainDir = MainFile.substr(0, MainFile.rfind('/') + 1); }
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  bool inRepo(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    return f == MainFile || f.find(RepoMark) != std::string::npos || (MainDir.size() > 1 && f.compare(0, MainDir.size(), MainDir) == 0 && f.find('/', MainDir.size()) == std::string::npos);
  }
  Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return nullptr;
    std::string f = SM.getFilename(L).str();
    auto it = FileIds.find(f); int id;
    if (it == FileIds.end()) { id = Files.size(); FileIds[f] = id; Files.push_back(f); } else id = it->second;
    return Array{id, (int)SM.getExpansionLineNumber(L)};
  }
  int vid(const Decl *D) { D = D->getCanonicalDecl(); auto it = VIds.find(D); if (it != VIds.end()) return it->second; int id = VIds.size(); VIds[D] = id; return id; }
  // ---- types
  int ty(QualType Q) {
    if (Q.isNull()) return -1;
    Q = Q.getCanonicalType();
    const Type *T = Q.getTypePtr();
    auto it = TIds.find(T); if (it != TIds.end()) return it->second;
    int id = TList.size(); TIds[T] = id; TList.push_back(nullptr);
    Object o;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      o["k"] = B->isBooleanType() ? "bool" : B->isInteger() ? "int" : B->isFloatingPoint() ? "real" : "builtin";
      o["s"] = B->getName(PP).str();
      if (B->isInteger()) { o["sg"] = B->isSignedInteger(); o["w"] = (int)C.getTypeSize(Q); }
    } else if (auto *P = dyn_cast<PointerType>(T)) { o["k"] = "ptr"; o["to"] = ty(P->getPointeeType()); }
    else if (auto *R = dyn_cast<ReferenceType>(T)) { o["k"] = "ref"; o["to"] = ty(R->getPointeeType()); }
    else if (auto *A = dyn_cast<ArrayType>(T)) {
      o["k"] = "array"; o["of"] = ty(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(T)) o["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (auto *E = dyn_cast<EnumType>(T)) { o["k"] = "enum"; o["s"] = E->getDecl()->getQualifiedNameAsString(); }
    else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec"; const RecordDecl *RD = R->getDecl();
      o["s"] = RD->getQualifiedNameAsString();
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) { o["r"] = rid(CR); if (CR->isLambda()) o["lambda"] = true; }
    } else if (isa<FunctionType>(T)) o["k"] = "func";
    else if (auto *M = dyn_cast<MemberPointerType>(T)) { o["k"] = "memptr"; o["to"] = ty(M->getPointeeType()); }
    else { o["k"] = "other"; o["s"] = std::string(T->getTypeClassName()); }
    TList[id] = std::move(o);
    return id;
  }
  bool wantArgs(const std::string &qn) {
    static const char *ok[] = {"blitz::Array","blitz::TinyVector","blitz::RectDomain","blitz::Range","std::array","std::vector","std::unique_ptr",
      "std::map","std::unordered_map","std::pair","boost::ptr_vector","std::reference_wrapper","std::plus","boost::mpi::minimum","boost::mpi::maximum","blitz::GeneralArrayStorage","std::initializer_list","std::tuple","blitz::IndexPlaceholder"};
    for (auto *s : ok) if (qn == s) return true;
    return false;
  }
  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return Object{{"t", ty(A.getAsType())}};
      case TemplateArgument::Integral: return A.getAsIntegral().isSigned() ? Value(A.getAsIntegral().getSExtValue()) : Value((int64_t)A.getAsIntegral().getZExtValue());
      case TemplateArgument::Pack: { Array p; for (auto &x : A.pack_elements()) p.push_back(targ(x)); return Value(std::move(p)); }
      default: return nullptr;
    }
  }
  int rid(const CXXRecordDecl *R) {
    R = R->getCanonicalDecl();
    auto it = RIds.find(R); if (it != RIds.end()) return it->second;
    int id = RList.size(); RIds[R] = id; RList.push_back(R); return id;
  }
  int fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = FIds.find(F); int id;
    if (it == FIds.end()) { id = FList.size(); FIds[F] = id; FList.push_back(F);
    } else id = it->second;
    if (!Queued.count(F) && inRepo(F)) { Queued.insert(F); Work.push_back(F); }
    return id;
  }
  // ---- expressions
  bool foldable(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent() || E->isInstantiationDependent()) return false;
    return E->getType()->isIntegralOrEnumerationType();
  }
  Value ex(const Expr *E) {
    if (!E) return nullptr;
    if (foldable(E)) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        Object o{{"k","int"},{"t",ty(E->getType())},{"v",(int64_t)(R.Val.getInt().isSigned()?R.Val.getInt().getSExtValue():(int64_t)R.Val.getInt().getZExtValue())}};
        const Expr *X = E->IgnoreParenImpCasts();
        if (auto *D = dyn_cast<DeclRefExpr>(X)) o["n"] = D->getDecl()->getNameAsString();
        return o;
      }
    }
    Object o;
    o["t"] = ty(E->getType());
    auto sub = [&](const Expr *X) { return ex(X); };
    auto list = [&](auto range) { Array a; for (auto *x : range) a.push_back(ex(cast<Expr>(x))); return a; };
    if (auto *P = dyn_cast<ParenExpr>(E)) return sub(P->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return sub(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return sub(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return sub(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return sub(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return sub(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return sub(X->getExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"]="tmp"; o["e"]=sub(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"]="stdinit"; o["e"]=sub(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"]="int"; o["v"]=(int64_t)X->getValue().getLimitedValue(); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"]="int"; o["v"]=X->getValue()?1:0; return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"]="int"; o["v"]=(int64_t)X->getValue(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"]="flt"; llvm::SmallString<32> s; X->getValue().toString(s, 0, 0); o["v"]=s.str().str(); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"]="str"; o["v"]=X->isOrdinary()||X->isUTF8()? (llvm::json::isUTF8(X->getString())?X->getString().str():std::string("?")):std::string("?"); return o; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { o["k"]="str"; o["v"]="__func__"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"]="null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"]="this"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"]="fref"; o["f"]=fid(F); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["k"]="gref"; o["g"]=gid(V); return o; }
        if (V->isStaticLocal()) { o["k"]="gref"; o["g"]=gid(V); return o; }
        o["k"]="var"; o["id"]=vid(V); return o; }
      if (auto *B = dyn_cast<BindingDecl>(D)) { o["k"]="var"; o["id"]=vid(B); return o; }
      o["k"]="dref"; return o; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      o["n"] = D->getNameAsString(); o["arrow"]=X->isArrow(); o["e"]=sub(X->getBase()); o["l"]=loc(X->getMemberLoc());
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["k"]="mem"; o["fd"]=vid(F); if (auto*R=dyn_cast<CXXRecordDecl>(F->getParent())) o["r"]=rid(R); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) { o["k"]="gref"; o["g"]=gid(V); return o; }
      if (auto *F = dyn_cast<CXXMethodDecl>(D)) { o["k"]="mfref"; o["f"]=fid(F); o["virt"]= F->isVirtual() && !X->hasQualifier(); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"]="int"; o["v"]=(int64_t)EC->getInitVal().getExtValue(); o.erase("e"); return o; }
      o["k"]="memother"; return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"]="ctor"; o["f"]=fid(X->getConstructor()); o["r"]=rid(X->getConstructor()->getParent()); o["l"]=loc(X->getBeginLoc());
      Array a; for (unsigned i=0;i<X->getNumArgs();++i) a.push_back(ex(X->getArg(i))); o["a"]=std::move(a);
      if (X->isListInitialization()) o["li"]=true;
      if (X->isElidable()) o["el"]=true;
      if (X->requiresZeroInitialization()) o["zi"]=true;
      return o; }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"]="inhctor"; o["f"]=fid(X->getConstructor()); o["r"]=rid(X->getConstructor()->getParent()); return o; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"]="op"; o["op"]=getOperatorSpelling(X->getOperator()); o["l"]=loc(X->getOperatorLoc());
      if (auto *F = X->getDirectCallee()) o["f"]=fid(F); else o["fe"]=sub(X->getCallee());
      Array a; for (auto *x : X->arguments()) a.push_back(ex(x)); o["a"]=std::move(a); return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"]="mcall"; o["l"]=loc(X->getExprLoc());
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) { o["f"]=fid(M);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { o["e"]=sub(ME->getBase()); o["arrow"]=ME->isArrow(); o["virt"]=M->isVirtual() && !ME->hasQualifier(); o["n"]=M->getNameAsString();
          o["l"]=loc(ME->getMemberLoc()); }
      } else o["fe"]=sub(X->getCallee());
      Array a; for (auto *x : X->arguments()) a.push_back(ex(x)); o["a"]=std::move(a); return o; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"]="call"; o["l"]=loc(X->getExprLoc());
      if (auto *F = X->getDirectCallee()) o["f"]=fid(F); else o["fe"]=sub(X->getCallee());
      Array a; for (auto *x : X->arguments()) a.push_back(ex(x)); o["a"]=std::move(a); return o; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"]="cast"; o["ck"]=std::string(X->getCastKindName()); o["e"]=sub(X->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) o["x"]=true; return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"]="cas"; o["op"]=X->getOpcodeStr().str(); o["a"]=Array{sub(X->getLHS()),sub(X->getRHS())}; o["l"]=loc(X->getOperatorLoc()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"]="bin"; o["op"]=X->getOpcodeStr().str(); o["a"]=Array{sub(X->getLHS()),sub(X->getRHS())}; o["l"]=loc(X->getOperatorLoc()); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"]=X->isPostfix(); o["e"]=sub(X->getSubExpr()); o["l"]=loc(X->getOperatorLoc()); return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"]="cond"; o["a"]=Array{sub(X->getCond()),sub(X->getTrueExpr()),sub(X->getFalseExpr())}; o["l"]=loc(X->getQuestionLoc()); return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"]="idx"; o["a"]=Array{sub(X->getBase()),sub(X->getIdx())}; o["l"]=loc(X->getExprLoc()); return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm()||!X->getSemanticForm()?X:X->getSemanticForm();
      o["k"]="il"; Array a; for (unsigned i=0;i<S->getNumInits();++i) a.push_back(ex(S->getInit(i))); o["a"]=std::move(a);
      if (auto *F = S->getInitializedFieldInUnion()) o["uf"]=F->getNameAsString();
      return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"]="zero"; return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"]="new"; o["at"]=ty(X->getAllocatedType()); o["l"]=loc(X->getBeginLoc());
      if (X->getInitializer()) o["e"]=sub(X->getInitializer()); if (X->isArray()&&X->getArraySize()) o["sz"]=sub(*X->getArraySize()); return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"]="delete"; o["e"]=sub(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"]="throw"; o["l"]=loc(X->getThrowLoc()); if (X->getSubExpr()) o["e"]=sub(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"]="lambda"; o["f"]=fid(X->getCallOperator()); o["r"]=rid(X->getLambdaClass()); Array caps; unsigned i=0;
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) { Object co; if (c.capturesThis()) co["this"]=true; else if (c.capturesVariable()) { co["v"]=vid(c.getCapturedVar()); co["ref"]=c.getCaptureKind()==LCK_ByRef; }
        co["init"]=ex(*ii); ++ii; caps.push_back(std::move(co)); }
      o["caps"]=std::move(caps); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"]="sizeof"; return o; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return sub(X->getSourceExpr()); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { o["k"]="typeid"; return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"]="arrinit"; o["e"]=sub(X->getCommonExpr()); return o; }
    o["k"]="unk"; o["cls"]=std::string(E->getStmtClassName()); o["l"]=loc(E->getExprLoc());
    return o;
  }
  int gid(const VarDecl *V) { const VarDecl *Cn = V->getCanonicalDecl(); auto it=GIds.find(Cn); if (it!=GIds.end()) return it->second; int id=GList.size(); GIds[Cn]=id; GList.push_back(V); return id; }
  // ---- statements
  Value vardecl(const VarDecl *V) {
    Object o{{"k","vd"},{"id",vid(V)},{"n",V->getNameAsString()},{"t",ty(V->getType())},{"l",loc(V->getLocation())}};
    if (V->isStaticLocal()) { o["static"]=true; o["g"]=gid(V); if (V->getTLSKind() != VarDecl::TLS_None) o["tls"]=true; }
    if (V->getInit()) o["e"]=ex(V->getInit());
    return o;
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return Object{{"k","ex"},{"e",ex(E)},{"l",loc(E->getExprLoc())}};
    Object o; o["l"]=loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"]="blk"; Array a; for (auto *s : X->body()) a.push_back(st(s)); o["b"]=std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { o["k"]="decl"; Array a; for (auto *d : X->decls()) if (auto *V=dyn_cast<VarDecl>(d)) {
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) { Object q{{"k","decomp"},{"id",vid(V)},{"t",ty(V->getType())}}; if (V->getInit()) q["e"]=ex(V->getInit());
             Array bs; for (auto *b : DD->bindings()) bs.push_back(Object{{"id",vid(b)},{"e",b->getBinding()?ex(b->getBinding()):Value(nullptr)}}); q["bs"]=std::move(bs); a.push_back(std::move(q)); }
          else a.push_back(vardecl(V)); } o["d"]=std::move(a); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"]="ret"; if (X->getRetValue()) o["e"]=ex(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { o["k"]="if"; if (X->getInit()) o["i"]=st(X->getInit());
      if (X->isConstexpr() && X->getCond()) {
        Expr::EvalResult R; if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R,C)) {
          bool b = R.Val.getInt().getBoolValue(); const Stmt *T = b?X->getThen():X->getElse();
          if (!T) { o["k"]="nop"; return o; } return st(T); } }
      if (auto *V=X->getConditionVariable()) o["cv"]=vardecl(V);
      o["c"]=ex(X->getCond()); o["a"]=st(X->getThen()); if (X->getElse()) o["b"]=st(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { o["k"]="for"; o["i"]=st(X->getInit()); o["c"]=ex(X->getCond()); o["n"]=ex(X->getInc()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"]="while"; o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"]="do"; o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["k"]="range"; o["v"]=vardecl(X->getLoopVariable()); o["e"]=ex(cast<VarDecl>(X->getRangeStmt()->getSingleDecl())->getInit()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"]="switch"; o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"]="case"; o["c"]=ex(X->getLHS()); o["b"]=st(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"]="default"; o["b"]=st(X->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) { o["k"]="break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"]="cont"; return o; }
    if (isa<NullStmt>(S)) { o["k"]="nop"; return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"]="try"; o["b"]=st(X->getTryBlock()); Array h; for (unsigned i=0;i<X->getNumHandlers();++i) h.push_back(st(X->getHandler(i)->getHandlerBlock())); o["h"]=std::move(h); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) { o["k"]="omp"; o["d"]=std::string(S->getStmtClassName());
      Array cl; for (auto *c : X->clauses()) { Object co{{"k",llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
        if (auto *nt = dyn_cast<OMPNumThreadsClause>(c)) co["e"]=ex(nt->getNumThreads());
        cl.push_back(std::move(co)); }
      o["cl"]=std::move(cl);
      if (X->hasAssociatedStmt()) o["b"]=st(X->getInnermostCapturedStmt()->getCapturedStmt()); return o; }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return st(X->getCapturedStmt());
    o["k"]="unk"; o["cls"]=std::string(S->getStmtClassName());
    return o;
  }
  std::string fqn(const FunctionDecl *F) { std::string s; llvm::raw_string_ostream os(s); F->printQualifiedName(os, PP); return os.str(); }
  Object func(const FunctionDecl *F) {
    Object o{{"id",FIds[F->getCanonicalDecl()]},{"q",fqn(F)},{"n",F->getNameAsString()}};
    o["l"]=loc(F->getLocation());
    o["rt"]=ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["r"]=rid(M->getParent()); if (M->isStatic()) o["static"]=true; if (M->isVirtual()) o["virt"]=true;
      if (M->isPureVirtual()) o["pure"]=true;
      if (M->isDefaulted()) o["dflt"]=true;
      Array ov; for (auto *x : M->overridden_methods()) { ov.push_back(FIds.count(x->getCanonicalDecl())?FIds[x->getCanonicalDecl()]:fid(x)); } if (!ov.empty()) o["ov"]=std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { o["ctor"]=true; if (CD->isCopyOrMoveConstructor()) o["copy"]=true; if (CD->isDefaultConstructor()) o["dctor"]=true;
        if (CD->isInheritingConstructor()) o["inh"]=fid(CD->getInheritedConstructor().getConstructor()); }
      if (isa<CXXDestructorDecl>(M)) o["dtor"]=true;
      if (M->isCopyAssignmentOperator()||M->isMoveAssignmentOperator()) o["asgn"]=true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) { Array a; for (auto &x : TA->asArray()) { if (x.getKind()==TemplateArgument::Type && !inRepo(F)) a.push_back(nullptr); else a.push_back(targ(x)); } o["ta"]=std::move(a); }
    Array ps; for (auto *p : F->parameters()) ps.push_back(Object{{"id",vid(p)},{"n",p->getNameAsString()},{"t",ty(p->getType())}});
    o["p"]=std::move(ps);
    return o;
  }
  Object funcBody(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    Object o;
    if (!F->hasBody(D)) {
      if (auto *Pat = F->getTemplateInstantiationPattern()) (void)Pat;
      D = nullptr;
    }
    const FunctionDecl *P = D ? D : F;
    o = func(P); o["id"]=FIds[F->getCanonicalDecl()];
    if (D) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
        Array in; for (auto *I : CD->inits()) { Object io; if (I->isAnyMemberInitializer()) { io["m"]=I->getAnyMember()->getNameAsString(); io["fd"]=vid(I->getAnyMember()); io["r"]=rid(cast<CXXRecordDecl>(I->getAnyMember()->getDeclContext())); }
            else if (I->isBaseInitializer()) { if (auto *R=I->getBaseClass()->getAsCXXRecordDecl()) io["b"]=rid(R); }
            else if (I->isDelegatingInitializer()) io["dlg"]=true;
            io["e"]=ex(I->getInit()); io["w"]=I->isWritten(); in.push_back(std::move(io)); }
        o["in"]=std::move(in);
      }
      o["b"]=st(D->getBody());
    }
    return o;
  }
  Object record(const CXXRecordDecl *R) {
    Object o{{"id",RIds[R]},{"q",R->getQualifiedNameAsString()},{"n",R->getNameAsString()}};
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      bool rep = inRepo(R);
      if (rep || wantArgs(R->getQualifiedNameAsString())) { Array a; for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x)); o["ta"]=std::move(a); }
    }
    const CXXRecordDecl *D = R->getDefinition();
    o["l"]=loc(R->getLocation());
    bool rep = inRepo(R);
    o["repo"]=rep;
    if (D) {
      Array bs; for (auto &b : D->bases()) if (auto *B=b.getType()->getAsCXXRecordDecl()) bs.push_back(rid(B)); o["bases"]=std::move(bs);
      if (rep) {
        o["l"]=loc(D->getLocation());
        Array fs; for (auto *f : D->fields()) { Object fo{{"id",vid(f)},{"n",f->getNameAsString()},{"t",ty(f->getType())},{"l",loc(f->getLocation())}};
          if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["e"]=ex(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
        o["f"]=std::move(fs);
        Array ms; for (auto *m : D->methods()) { if (m->isImplicit() && !isa<CXXConstructorDecl>(m)) continue;
          Object mo{{"f",FIds.count(m->getCanonicalDecl())?FIds[m->getCanonicalDecl()]:-1},{"n",m->getNameAsString()}};
          if (m->isVirtual()) { mo["f"]=fid(m); mo["virt"]=true; Array ov; for (auto *x : m->overridden_methods()) ov.push_back(fid(x)); mo["ov"]=std::move(ov); }
          ms.push_back(std::move(mo)); }
        o["m"]=std::move(ms);
      }
    }
    return o;
  }
  void run() {
    // roots: functions with a body in the main file
    for (auto *D : C.getTranslationUnitDecl()->decls()) root(D);
    Array funcs, recs, globs;
    size_t gi=0, ri=0; std::set<int> doneF;
    std::vector<Object> recOut; std::vector<Object> globOut;
    while (true) {
      if (!Work.empty()) { const FunctionDecl *F=Work.front(); Work.pop_front(); int id=FIds[F]; if (doneF.insert(id).second) funcs.push_back(funcBody(F)); continue; }
      if (ri<RList.size()) { recOut.push_back(record(RList[ri])); ++ri; continue; }
      if (gi<GList.size()) { const VarDecl *V=GList[gi]; Object o{{"g",(int)gi},{"q",V->getQualifiedNameAsString()},{"t",ty(V->getType())},{"repo",inRepo(V)},{"tls",V->getTLSKind() != VarDecl::TLS_None}};
        const VarDecl *Df=nullptr; if (inRepo(V)) { if (const Expr *I=V->getAnyInitializer(Df)) if (!I->isValueDependent()) o["e"]=ex(I); }
        globOut.push_back(std::move(o)); ++gi; continue; }
      break;
    }
    Array decls; for (size_t i=0;i<FList.size();++i) if (!doneF.count(i)) decls.push_back(func(FList[i]));
    // enums of repo
    for (size_t i=0;i<recOut.size();++i) recs.push_back(std::move(recOut[i]));
    for (auto &g : globOut) globs.push_back(std::move(g));
    // func() may have added records/types
    while (ri<RList.size()) { recs.push_back(record(RList[ri])); ++ri; }
    Array enums; enumsIn(C.getTranslationUnitDecl(), enums);
    Array ts; for (auto &t : TList) ts.push_back(std::move(t));
    Array fl; for (auto &f : Files) fl.push_back(f);
    Object top{{"funcs",std::move(funcs)},{"decls",std::move(decls)},{"recs",std::move(recs)},{"globs",std::move(globs)},{"types",std::move(ts)},{"files",std::move(fl)},{"enums",std::move(enums)},{"main",MainFile}};
    std::error_code EC; llvm::raw_fd_ostream os(OutFile, EC); os << Value(std::move(top)); 
  }
  void enumsIn(const DeclContext *DC, Array &out) {
    for (auto *D : DC->decls()) {
      if (auto *E = dyn_cast<EnumDecl>(D)) { if (inRepo(E)) { Array cs; for (auto *c : E->enumerators()) cs.push_back(Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()}); out.push_back(Object{{"q",E->getQualifiedNameAsString()},{"c",std::move(cs)},{"l",loc(E->getLocation())}}); } }
      else if (auto *N = dyn_cast<NamespaceDecl>(D)) enumsIn(N, out);
    }
  }
  void root(const Decl *D) {
    if (auto *N = dyn_cast<NamespaceDecl>(D)) { for (auto *d : N->decls()) root(d); return; }
    if (fileOf(D->getLocation()) != MainFile) return;
    if (auto *F = dyn_cast<FunctionDecl>(D)) { if (!F->isDependentContext()) fid(F); }
    else if (auto *R = dyn_cast<CXXRecordDecl>(D)) { if (!R->isDependentContext()) rid(R); }
    else if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) rid(S);
  }
};

struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Dumper(C).run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, const char **argv) {
  // usage: mpx-extract OUT.json SRC -- flags...
  if (argc < 4) { llvm::errs() << "usage\n"; return 2; }
  OutFile = argv[1]; std::string Src = argv[2]; std::vector<std::string> Flags;
  for (int i = 4; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {Src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
