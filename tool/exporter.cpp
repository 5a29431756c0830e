// cnx: exports the resolved program (clang AST of every function, record, enum and
// variable defined under the analysed root) as JSON for the rule engine in /verif/cnv.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutPath;

namespace {
class Exporter : public RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::set<const Decl *> Done;

public:
  Array Functions, Records, Enums, Vars;
  std::set<std::string> Files;
  unsigned NExpr = 0;
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, /*UseLineDirectives=*/false);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  std::string rel(const std::string &F) {
    llvm::SmallString<256> R;
    if (!llvm::sys::fs::real_path(F, R)) {
      std::string S = R.str().str();
      if (S.rfind(Root + "/", 0) == 0) return S.substr(Root.size() + 1);
      return "";
    }
    return "";
  }
  std::map<unsigned, std::string> RelCache;
  std::string relOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    FileID F = SM.getFileID(SM.getExpansionLoc(L));
    auto It = RelCache.find(F.getHashValue());
    if (It != RelCache.end()) return It->second;
    std::string R = rel(fileOf(L));
    RelCache[F.getHashValue()] = R;
    return R;
  }
  bool inRoot(SourceLocation L) { return !relOf(L).empty(); }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }

  // ---------------------------------------------------------------- exprs
  Value node(const char *K, SourceLocation L, Object O) {
    O["k"] = K;
    O["l"] = line(L);
    ++NExpr;
    return Value(std::move(O));
  }
  Value fnref(const FunctionDecl *F) {
    Object O;
    // use definition identity
    O["u"] = usr(F);
    O["n"] = qn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent());
      O["st"] = M->isStatic();
      O["virt"] = M->isVirtual();
    }
    if (F->isDefaulted() || F->isImplicit()) O["dflt"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor()) O["cc"] = "copy";
      else if (CD->isMoveConstructor()) O["cc"] = "move";
      else if (CD->isDefaultConstructor()) O["cc"] = "default";
      if (CD->isInheritingConstructor()) O["inh"] = true;
    }
    Array P;
    for (auto *A : F->parameters()) P.push_back(ty(A->getType()));
    O["pt"] = std::move(P);
    O["rt"] = ty(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array T;
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Type) T.push_back(ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) T.push_back(A.getAsIntegral().getExtValue());
        else T.push_back(nullptr);
      O["ta"] = std::move(T);
    }
    return Value(std::move(O));
  }
  Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (const Expr *E : R) A.push_back(expr(E));
    return Value(std::move(A));
  }
  Value lambda(const LambdaExpr *L) {
    Object O;
    Array Caps;
    auto IE = L->capture_init_begin();
    for (auto &Cp : L->captures()) {
      Object CO;
      if (Cp.capturesThis()) {
        CO["this"] = true;
        CO["byref"] = Cp.getCaptureKind() == LCK_This;
      } else if (Cp.capturesVariable()) {
        auto *V = Cp.getCapturedVar();
        CO["d"] = id(V);
        CO["n"] = V->getNameAsString();
        CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
        if (IE != L->capture_init_end() && *IE) {
          CO["t"] = ty(V->getType());
          CO["init"] = expr(*IE);
        }
      }
      ++IE;
      Caps.push_back(std::move(CO));
    }
    O["caps"] = std::move(Caps);
    const CXXMethodDecl *Op = L->getCallOperator();
    Array Ops;
    if (L->isGenericLambda()) {
      if (auto *FT = Op->getDescribedFunctionTemplate())
        for (auto *S : FT->specializations())
          if (S->hasBody()) Ops.push_back(fnbody(S));
      O["generic"] = true;
    } else
      Ops.push_back(fnbody(Op));
    O["ops"] = std::move(Ops);
    O["cls"] = ty(L->getType());
    return node("Lambda", L->getBeginLoc(), std::move(O));
  }
  Object fnbody(const FunctionDecl *F) {
    Object O;
    Array Ps;
    for (auto *P : F->parameters()) {
      Object PO;
      PO["d"] = id(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg())
        PO["def"] = expr(P->getDefaultArg());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    O["rt"] = ty(F->getReturnType());
    const FunctionDecl *Def = nullptr;
    if (const Stmt *B = F->getBody(Def)) O["body"] = stmt(B);
    return O;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    SourceLocation L = E->getExprLoc();
    // constant folding of sizeof and friends
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!U->isValueDependent() && U->EvaluateAsInt(R, C))
        return node("Int", L, Object{{"v", R.Val.getInt().getExtValue()}, {"t", ty(E->getType())}});
    }
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: {
      auto *M = cast<MaterializeTemporaryExpr>(E);
      return node("Temp", L, Object{{"e", expr(M->getSubExpr())}, {"t", ty(E->getType())}});
    }
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
    case Stmt::CXXStdInitializerListExprClass:
      return node("StdInit", L, Object{{"e", expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr())}, {"t", ty(E->getType())}});
    case Stmt::IntegerLiteralClass: {
      auto V = cast<IntegerLiteral>(E)->getValue();
      bool S = E->getType()->isSignedIntegerType();
      return node("Int", L, Object{{"v", S ? V.getSExtValue() : (int64_t)V.getZExtValue()}, {"t", ty(E->getType())}});
    }
    case Stmt::CharacterLiteralClass:
      return node("Int", L, Object{{"v", (int64_t)cast<CharacterLiteral>(E)->getValue()}, {"t", ty(E->getType())}});
    case Stmt::FloatingLiteralClass:
      return node("Float", L, Object{{"v", cast<FloatingLiteral>(E)->getValueAsApproximateDouble()}, {"t", ty(E->getType())}});
    case Stmt::CXXBoolLiteralExprClass: return node("Bool", L, Object{{"v", cast<CXXBoolLiteralExpr>(E)->getValue()}});
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return node("Null", L, Object{});
    case Stmt::StringLiteralClass: {
      auto *S = cast<StringLiteral>(E);
      std::string V = S->getCharByteWidth() == 1 ? S->getString().str() : std::string("<wide>");
      return node("Str", L, Object{{"v", llvm::json::fixUTF8(V)}});
    }
    case Stmt::PredefinedExprClass: return node("Str", L, Object{{"v", "<fn>"}});
    case Stmt::CXXThisExprClass: return node("This", L, Object{});
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      Object O;
      O["d"] = id(D);
      O["n"] = D->getNameAsString();
      O["t"] = ty(E->getType());
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["v"] = EC->getInitVal().getExtValue();
        O["qn"] = qn(EC);
        return node("EnumC", L, std::move(O));
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["fn"] = fnref(F);
        return node("FnRef", L, std::move(O));
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (!V->isLocalVarDeclOrParm()) {
          O["g"] = true;
          O["qn"] = qn(V);
        } else if (V->isStaticLocal())
          O["sl"] = true;
        if (V->getType()->isReferenceType()) O["ref"] = true;
      }
      if (isa<BindingDecl>(D)) O["bind"] = true;
      return node("Ref", L, std::move(O));
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      auto *D = M->getMemberDecl();
      Object O;
      O["b"] = expr(M->getBase());
      O["arrow"] = M->isArrow();
      O["m"] = D->getNameAsString();
      O["t"] = ty(E->getType());
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        O["cls"] = qn(FD->getParent());
        if (FD->getType()->isReferenceType()) O["ref"] = true;
        if (FD->isBitField()) O["bits"] = (int)FD->getBitWidthValue(C);
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        O["static"] = true;
        O["qn"] = qn(VD);
      } else if (auto *F = dyn_cast<FunctionDecl>(D))
        O["fn"] = fnref(F);
      return node("Member", L, std::move(O));
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      Object O;
      const Expr *Cal = M->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
        O["o"] = expr(ME->getBase());
        O["arrow"] = ME->isArrow();
        O["qualcall"] = ME->hasQualifier();
        O["ot"] = ty(ME->getBase()->getType());
      } else
        O["callee"] = expr(Cal);
      if (auto *F = M->getMethodDecl()) O["fn"] = fnref(F);
      O["a"] = args(M->arguments());
      O["t"] = ty(E->getType());
      return node("MCall", L, std::move(O));
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E);
      Object O;
      O["op"] = getOperatorSpelling(M->getOperator());
      if (auto *F = M->getDirectCallee()) O["fn"] = fnref(F);
      O["a"] = args(M->arguments());
      Array T;
      for (auto *A : M->arguments()) T.push_back(ty(A->getType()));
      O["at"] = std::move(T);
      O["t"] = ty(E->getType());
      return node("OpCall", L, std::move(O));
    }
    case Stmt::CallExprClass: {
      auto *M = cast<CallExpr>(E);
      Object O;
      if (auto *F = M->getDirectCallee()) O["fn"] = fnref(F);
      else O["callee"] = expr(M->getCallee());
      O["a"] = args(M->arguments());
      Array T;
      for (auto *A : M->arguments()) T.push_back(ty(A->getType()));
      O["at"] = std::move(T);
      O["t"] = ty(E->getType());
      return node("Call", L, std::move(O));
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *M = cast<CXXConstructExpr>(E);
      Object O;
      O["fn"] = fnref(M->getConstructor());
      O["cls"] = qn(M->getConstructor()->getParent());
      O["t"] = ty(E->getType());
      Array A;
      for (auto *X : M->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      Array T;
      for (auto *X : M->arguments()) T.push_back(ty(X->getType()));
      O["at"] = std::move(T);
      O["elide"] = M->isElidable();
      O["il"] = M->isListInitialization();
      O["temp"] = isa<CXXTemporaryObjectExpr>(E);
      if (M->requiresZeroInitialization()) O["zero"] = true;
      return node("Ctor", L, std::move(O));
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *M = cast<CXXInheritedCtorInitExpr>(E);
      return node("InhCtor", L, Object{{"fn", fnref(M->getConstructor())}});
    }
    case Stmt::CXXNewExprClass: {
      auto *M = cast<CXXNewExpr>(E);
      Object O;
      O["t"] = ty(M->getAllocatedType());
      if (M->isArray()) O["arr"] = M->getArraySize() ? expr(*M->getArraySize()) : Value(nullptr);
      O["init"] = M->getInitializer() ? expr(M->getInitializer()) : Value(nullptr);
      O["place"] = M->getNumPlacementArgs() > 0;
      if (M->getNumPlacementArgs() == 1 && M->getPlacementArg(0)->getType()->isPointerType()) O["at"] = expr(M->getPlacementArg(0));
      return node("New", L, std::move(O));
    }
    case Stmt::CXXDeleteExprClass: {
      auto *M = cast<CXXDeleteExpr>(E);
      return node("Delete", L, Object{{"e", expr(M->getArgument())}, {"t", ty(M->getArgument()->getType())}, {"dt", ty(M->getDestroyedType())}, {"arr", M->isArrayForm()}});
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *M = cast<BinaryOperator>(E);
      Object O;
      O["op"] = M->getOpcodeStr().str();
      O["x"] = expr(M->getLHS());
      O["y"] = expr(M->getRHS());
      O["t"] = ty(E->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
        O["ct"] = ty(CA->getComputationResultType());
        O["cl"] = ty(CA->getComputationLHSType());
      }
      return node("Bin", L, std::move(O));
    }
    case Stmt::UnaryOperatorClass: {
      auto *M = cast<UnaryOperator>(E);
      return node("Un", L, Object{{"op", UnaryOperator::getOpcodeStr(M->getOpcode()).str()}, {"post", M->isPostfix()}, {"x", expr(M->getSubExpr())}, {"t", ty(E->getType())}});
    }
    case Stmt::ConditionalOperatorClass: {
      auto *M = cast<ConditionalOperator>(E);
      return node("Cond", L, Object{{"c", expr(M->getCond())}, {"x", expr(M->getTrueExpr())}, {"y", expr(M->getFalseExpr())}, {"t", ty(E->getType())}, {"lv", E->isLValue()}});
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto *M = cast<BinaryConditionalOperator>(E);
      return node("Elvis", L, Object{{"c", expr(M->getCommon())}, {"y", expr(M->getFalseExpr())}});
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *M = cast<ArraySubscriptExpr>(E);
      return node("Sub", L, Object{{"b", expr(M->getBase())}, {"i", expr(M->getIdx())}, {"t", ty(E->getType())}});
    }
    case Stmt::InitListExprClass: {
      auto *M = cast<InitListExpr>(E);
      if (M->isSyntacticForm() && M->getSemanticForm()) M = M->getSemanticForm();
      Array A;
      for (auto *X : M->inits()) A.push_back(expr(X));
      Object O;
      O["t"] = ty(E->getType());
      if (auto *AT = C.getAsConstantArrayType(E->getType())) O["n"] = (int64_t)AT->getSize().getZExtValue();
      if (E->getType()->isRecordType()) {
        Array F;
        if (auto *RD = E->getType()->getAsRecordDecl())
          for (auto *FD : RD->fields()) F.push_back(FD->getNameAsString());
        O["fields"] = std::move(F);
      }
      O["e"] = std::move(A);
      if (M->hasArrayFiller()) O["fill"] = true;
      return node("Init", L, std::move(O));
    }
    case Stmt::LambdaExprClass: return lambda(cast<LambdaExpr>(E));
    case Stmt::CXXThrowExprClass: return node("Throw", L, Object{{"e", expr(cast<CXXThrowExpr>(E)->getSubExpr())}});
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass: return node("Zero", L, Object{{"t", ty(E->getType())}});
    default: break;
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      const Expr *S = K->getSubExpr();
      switch (K->getCastKind()) {
      case CK_NoOp: {
        // const_cast / qualification: irrelevant, but keep reference casts as plain
        return expr(S);
      }
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr: return expr(S);
      default: {
        Object O;
        O["ck"] = K->getCastKindName();
        O["e"] = expr(S);
        O["t"] = ty(E->getType());
        O["ft"] = ty(S->getType());
        if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
        return node("Cast", L, std::move(O));
      }
      }
    }
    Array Ch;
    for (const Stmt *S : E->children())
      if (auto *X = dyn_cast_or_null<Expr>(S)) Ch.push_back(expr(X));
    return node("Unk", L, Object{{"sc", E->getStmtClassName()}, {"ch", std::move(Ch)}, {"t", ty(E->getType())}});
  }

  // ---------------------------------------------------------------- stmts
  Value vardecl(const VarDecl *V) {
    Object O;
    O["d"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = line(V->getLocation());
    O["init"] = V->getInit() ? expr(V->getInit()) : Value(nullptr);
    if (V->isStaticLocal()) O["sl"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *BD : DD->bindings()) {
        Object BO;
        BO["d"] = id(BD);
        BO["n"] = BD->getNameAsString();
        if (auto *HV = BD->getHoldingVar()) BO["hv"] = expr(HV->getInit());
        else if (auto *ME = dyn_cast_or_null<MemberExpr>(BD->getBinding())) BO["field"] = ME->getMemberDecl()->getNameAsString();
        B.push_back(std::move(BO));
      }
      O["binds"] = std::move(B);
    }
    return Value(std::move(O));
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) return node("Expr", L, Object{{"e", expr(E)}});
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Array A;
      for (auto *X : cast<CompoundStmt>(S)->body()) A.push_back(stmt(X));
      return node("Block", L, Object{{"b", std::move(A)}});
    }
    case Stmt::DeclStmtClass: {
      Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(vardecl(V));
      return node("Decl", L, Object{{"v", std::move(A)}});
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      Object O;
      O["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = stmt(I->getConditionVariableDeclStmt());
      O["c"] = expr(I->getCond());
      O["x"] = stmt(I->getThen());
      O["y"] = stmt(I->getElse());
      if (I->isConstexpr()) {
        O["ce"] = true;
        if (auto R = I->getNondiscardedCase(C)) {
          const Stmt *Chosen = *R;
          if (!Chosen) return node("Nop", L, Object{});
          return stmt(Chosen);
        }
      }
      return node("If", L, std::move(O));
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      return node("For", L, Object{{"init", stmt(F->getInit())}, {"c", F->getCond() ? expr(F->getCond()) : Value(nullptr)}, {"inc", F->getInc() ? expr(F->getInc()) : Value(nullptr)}, {"b", stmt(F->getBody())}});
    }
    case Stmt::WhileStmtClass: {
      auto *F = cast<WhileStmt>(S);
      return node("While", L, Object{{"cv", F->getConditionVariableDeclStmt() ? stmt(F->getConditionVariableDeclStmt()) : Value(nullptr)}, {"c", expr(F->getCond())}, {"b", stmt(F->getBody())}});
    }
    case Stmt::DoStmtClass: {
      auto *F = cast<DoStmt>(S);
      return node("Do", L, Object{{"c", expr(F->getCond())}, {"b", stmt(F->getBody())}});
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      Object O;
      O["init"] = stmt(F->getInit());
      O["r"] = expr(F->getRangeInit());
      O["rt"] = ty(F->getRangeInit()->getType());
      O["v"] = vardecl(F->getLoopVariable());
      O["vt"] = ty(F->getLoopVariable()->getType());
      O["b"] = stmt(F->getBody());
      // begin/end resolved calls, for user-defined ranges
      if (auto *B = F->getBeginStmt())
        if (auto *V = dyn_cast<VarDecl>(B->getSingleDecl())) O["bt"] = ty(V->getType());
      return node("ForR", L, std::move(O));
    }
    case Stmt::ReturnStmtClass: {
      auto *R = cast<ReturnStmt>(S);
      return node("Ret", L, Object{{"e", R->getRetValue() ? expr(R->getRetValue()) : Value(nullptr)}});
    }
    case Stmt::BreakStmtClass: return node("Break", L, Object{});
    case Stmt::ContinueStmtClass: return node("Cont", L, Object{});
    case Stmt::NullStmtClass: return node("Nop", L, Object{});
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      return node("Switch", L, Object{{"init", stmt(W->getInit())}, {"c", expr(W->getCond())}, {"b", stmt(W->getBody())}});
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(S);
      Object O;
      Expr::EvalResult R;
      if (K->getLHS()->EvaluateAsInt(R, C)) O["v"] = R.Val.getInt().getExtValue();
      O["s"] = stmt(K->getSubStmt());
      return node("Case", L, std::move(O));
    }
    case Stmt::DefaultStmtClass: return node("Default", L, Object{{"s", stmt(cast<DefaultStmt>(S)->getSubStmt())}});
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *Hd = T->getHandler(i);
        Object O;
        O["v"] = Hd->getExceptionDecl() ? vardecl(Hd->getExceptionDecl()) : Value(nullptr);
        O["t"] = ty(Hd->getCaughtType());
        O["b"] = stmt(Hd->getHandlerBlock());
        H.push_back(std::move(O));
      }
      return node("Try", L, Object{{"b", stmt(T->getTryBlock())}, {"h", std::move(H)}});
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: {
      return node("Label", L, Object{{"n", cast<LabelStmt>(S)->getName()}, {"s", stmt(cast<LabelStmt>(S)->getSubStmt())}});
    }
    default: return node("UnkS", L, Object{{"sc", S->getStmtClassName()}});
    }
  }

  // ---------------------------------------------------------------- decls
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return true;
    if (F->isDependentContext()) return true;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F) && !isa<CXXDestructorDecl>(F)) {
      // implicit assignment etc: memberwise, modelled by the engine
      return true;
    }
    if (F->isDeleted()) return true;
    std::string R = relOf(F->getLocation());
    if (R.empty()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!Done.insert(F->getCanonicalDecl()).second) return true;
    bool hasBody = F->hasBody() && F->doesThisDeclarationHaveABody();
    if (!hasBody && !isa<CXXConstructorDecl>(F)) return true;
    Files.insert(R);
    Object O = fnbody(F);
    O["fn"] = fnref(F);
    O["file"] = R;
    O["l"] = line(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["implicit"] = F->isImplicit() || F->isDefaulted();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *CI : CD->inits()) {
        Object IO;
        if (CI->isAnyMemberInitializer()) IO["m"] = CI->getAnyMember()->getNameAsString();
        else if (CI->isDelegatingInitializer()) IO["deleg"] = true;
        else if (CI->isBaseInitializer()) IO["base"] = ty(QualType(CI->getBaseClass(), 0));
        IO["w"] = CI->isWritten();
        IO["l"] = line(CI->getSourceLocation());
        IO["e"] = expr(CI->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
      O["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    Functions.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() || D->isLambda()) return true;
    std::string R = relOf(D->getLocation());
    if (R.empty()) return true;
    if (!Done.insert(D).second) return true;
    Object O;
    O["n"] = qn(D);
    O["t"] = ty(C.getRecordType(D));
    O["file"] = R;
    O["l"] = line(D->getLocation());
    Array B, F, M;
    for (auto &X : D->bases()) B.push_back(ty(X.getType()));
    for (auto *X : D->fields()) {
      Object FO;
      FO["n"] = X->getNameAsString();
      FO["t"] = ty(X->getType());
      FO["l"] = line(X->getLocation());
      FO["acc"] = (int)X->getAccess();
      if (X->isBitField()) FO["bits"] = (int)X->getBitWidthValue(C);
      if (X->hasInClassInitializer() && X->getInClassInitializer()) FO["init"] = expr(X->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    for (auto *X : D->methods()) {
      Object MO;
      MO["n"] = X->getNameAsString();
      MO["u"] = usr(X);
      MO["virt"] = X->isVirtual();
      MO["implicit"] = X->isImplicit();
      MO["deleted"] = X->isDeleted();
      MO["dflt"] = X->isDefaulted();
      MO["copyassign"] = X->isCopyAssignmentOperator();
      MO["moveassign"] = X->isMoveAssignmentOperator();
      if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) {
        MO["ctor"] = true;
        MO["copyctor"] = CD->isCopyConstructor();
        MO["movector"] = CD->isMoveConstructor();
      }
      MO["dtor"] = isa<CXXDestructorDecl>(X);
      M.push_back(std::move(MO));
    }
    O["bases"] = std::move(B);
    O["fields"] = std::move(F);
    O["methods"] = std::move(M);
    O["poly"] = D->isPolymorphic();
    auto *DD = D->getDestructor();
    O["vdtor"] = DD && DD->isVirtual();
    O["udtor"] = D->hasUserDeclaredDestructor();
    O["trivdtor"] = D->hasTrivialDestructor();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition()) return true;
    std::string R = relOf(D->getLocation());
    if (R.empty() || !Done.insert(D).second) return true;
    Object O;
    O["n"] = qn(D);
    O["file"] = R;
    O["l"] = line(D->getLocation());
    Array E;
    for (auto *X : D->enumerators()) {
      Object EO;
      EO["n"] = X->getNameAsString();
      EO["v"] = X->getInitVal().getExtValue();
      E.push_back(std::move(EO));
    }
    O["e"] = std::move(E);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    std::string R = relOf(V->getLocation());
    if (R.empty() || !Done.insert(V).second) return true;
    Object O;
    O["n"] = qn(V);
    O["file"] = R;
    O["l"] = line(V->getLocation());
    O["t"] = ty(V->getType());
    O["init"] = V->getInit() ? expr(V->getInit()) : Value(nullptr);
    O["internal"] = V->getFormalLinkage() == Linkage::Internal;
    O["const"] = V->getType().isConstQualified() || (C.getAsArrayType(V->getType()) && C.getAsArrayType(V->getType())->getElementType().isConstQualified());
    Vars.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;

public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["enums"] = std::move(X.Enums);
    O["vars"] = std::move(X.Vars);
    Array F;
    auto &SM = C.getSourceManager();
    std::set<std::string> Fs(X.Files);
    for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
      std::string R = X.rel(It->first.getName().str());
      if (!R.empty()) Fs.insert(R);
    }
    for (auto &S : Fs) F.push_back(S);
    O["files"] = std::move(F);
    O["nodes"] = (int64_t)X.NExpr;
    O["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

int main(int argc, char **argv) {
  // cnx ROOT OUT.json FILE -- flags...
  if (argc < 5) {
    llvm::errs() << "usage: cnx ROOT OUT FILE -- FLAGS\n";
    return 2;
  }
  llvm::SmallString<256> RR;
  llvm::sys::fs::real_path(argv[1], RR);
  Root = RR.str().str();
  OutPath = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
