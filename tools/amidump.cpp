// amidump: a libTooling front end that prints the resolved syntax tree of every
// function defined under a set of root directories, as JSON, one file per
// translation unit.  The analyses in /verif/engine read nothing else.
//
// usage: amidump --root DIR [--root DIR ...] -o OUT.json -- clang args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

class Dumper {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int64_t> Ids;
  std::map<std::string, bool> FileInRoot;
  std::deque<const FunctionDecl *> Queue;
  std::set<const FunctionDecl *> Queued;
  int64_t NextId = 1;

  explicit Dumper(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressScope = false;
    PP.AnonymousTagLocations = false;
    PP.Bool = true;
  }

  int64_t id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end())
      return It->second;
    return Ids[D] = NextId++;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid())
      return "";
    llvm::StringRef N = SM.getFilename(L);
    llvm::SmallString<256> P(N);
    llvm::sys::fs::make_absolute(P);
    llvm::SmallString<256> R;
    if (!llvm::sys::fs::real_path(P, R))
      return std::string(R);
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid())
      return false;
    std::string N = std::string(SM.getFilename(L));
    auto It = FileInRoot.find(N);
    if (It != FileInRoot.end())
      return It->second;
    std::string F = fileOf(L);
    bool R = false;
    for (auto &Rt : Roots)
      if (F.compare(0, Rt.size(), Rt) == 0)
        R = true;
    return FileInRoot[N] = R;
  }
  json::Object loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    json::Object O;
    O["f"] = fileOf(L);
    O["l"] = (int64_t)SM.getSpellingLineNumber(L);
    O["c"] = (int64_t)SM.getSpellingColumnNumber(L);
    return O;
  }
  std::string ty(QualType T) {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }
  // Cross-TU function identity: qualified name and canonical type; internal
  // linkage functions also carry their file.
  std::string fkey(const FunctionDecl *F) {
    std::string S = qname(F);
    if (auto *A = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (unsigned i = 0; i < A->size(); ++i) {
        std::string T;
        llvm::raw_string_ostream OS(T);
        A->get(i).print(PP, OS, true);
        S += (i ? "," : "") + T;
      }
      S += ">";
    }
    S += " : " + ty(F->getType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        S += " @lambda" + std::to_string(id(M->getParent()));
    if (!F->isExternallyVisible())
      S += " @" + fileOf(F->getLocation());
    return S;
  }
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def))
      return;
    if (Def->isDependentContext())
      return;
    if (!inRoot(Def->getLocation()))
      return;
    if (Queued.insert(Def->getCanonicalDecl()).second)
      Queue.push_back(Def);
  }

  json::Value targs(const TemplateArgumentList *A) {
    json::Array R;
    if (A)
      for (unsigned i = 0; i < A->size(); ++i)
        targ(A->get(i), R);
    return R;
  }
  void targ(const TemplateArgument &T, json::Array &R) {
    if (T.getKind() == TemplateArgument::Pack) {
      for (auto &E : T.pack_elements())
        targ(E, R);
      return;
    }
    if (T.getKind() == TemplateArgument::Type) {
      R.push_back(ty(T.getAsType()));
      return;
    }
    std::string S;
    llvm::raw_string_ostream OS(S);
    T.print(PP, OS, true);
    R.push_back(S);
  }

  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    if (!F) {
      O["fn"] = "?";
      return;
    }
    O["fn"] = qname(F);
    O["fk"] = fkey(F);
    O["std"] = !inRoot(F->getLocation());
    if (F->getTemplateSpecializationArgs())
      O["ta"] = targs(F->getTemplateSpecializationArgs());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["cls"] = ty(Ctx.getTypeDeclType(M->getParent()));
      O["lambda"] = M->getParent()->isLambda();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
        O["cta"] = targs(&S->getTemplateArgs());
    }
    json::Array P;
    for (auto *A : F->parameters())
      P.push_back(ty(A->getType()));
    O["pt"] = std::move(P);
    if (F->isVariadic())
      O["variadic"] = true;
    enqueue(F);
  }

  json::Value refTo(const ValueDecl *D) {
    json::Object O;
    O["k"] = "ref";
    O["id"] = id(D);
    O["name"] = D->getNameAsString();
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      O["v"] = std::stoll(llvm::toString(E->getInitVal(), 10));
      O["en"] = qname(E);
    } else if (isa<ParmVarDecl>(D)) {
      O["dk"] = "param";
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal() || V->hasGlobalStorage()) {
        O["dk"] = "global";
        O["name"] = qname(V);
        O["const"] = V->getType().isConstQualified() || V->isConstexpr();
        O["in"] = inRoot(V->getLocation());
        if (inRoot(V->getLocation()) && V->getAnyInitializer())
          O["init"] = expr(V->getAnyInitializer());
      } else
        O["dk"] = "local";
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "fn";
      calleeInfo(O, F);
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["dk"] = "binding";
      if (B->getBinding())
        O["bind"] = expr(B->getBinding());
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      O["dk"] = "field";
      O["name"] = F->getNameAsString();
      O["rec"] = qname(F->getParent());
    } else
      O["dk"] = D->getDeclKindName();
    return O;
  }

  json::Value exprArr(ArrayRef<const Expr *> Es) {
    json::Array A;
    for (auto *E : Es)
      A.push_back(expr(E));
    return A;
  }

  json::Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    json::Value V = expr0(E);
    if (auto *O = V.getAsObject()) {
      if (!O->get("t"))
        (*O)["t"] = ty(E->getType());
      if (!O->get("l")) {
        SourceLocation L = SM.getExpansionLoc(E->getExprLoc());
        (*O)["l"] = (int64_t)SM.getSpellingLineNumber(L);
      }
      if (!O->get("vc"))
        (*O)["vc"] = E->isLValue() ? "l" : (E->isXValue() ? "x" : "r");
    }
    return V;
  }

  json::Value expr0(const Expr *E) {
    json::Object O;
    if (auto *X = dyn_cast<ParenExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      O["k"] = "defarg";
      // default arguments of repository functions carry their value
      if (inRoot(X->getParam()->getLocation()))
        O["e"] = expr(X->getExpr());
      return O;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      if (X->getField() && inRoot(X->getField()->getLocation()))
        return expr(X->getExpr());
      O["k"] = "definit";
      return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      O["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float";
      llvm::SmallString<32> S;
      X->getValue().toString(S, 40, 100);
      O["v"] = std::string(S);
      llvm::SmallString<32> H;
      char Buf[64];
      X->getValue().convertToHexString(Buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
      O["hex"] = std::string(Buf);
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool";
      O["v"] = X->getValue();
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "char";
      O["v"] = (int64_t)X->getValue();
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string();
      return O;
    }
    if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
      return O;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      json::Value V = refTo(X->getDecl());
      return V;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        O["k"] = "member";
        O["name"] = F->getNameAsString();
        O["rec"] = qname(F->getParent());
        O["arrow"] = X->isArrow();
        O["mut"] = F->isMutable();
        O["b"] = expr(X->getBase());
        return O;
      }
      if (auto *VD = dyn_cast<VarDecl>(D))
        return refTo(VD);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
        return refTo(EC);
      O["k"] = "methodref";
      O["b"] = expr(X->getBase());
      O["arrow"] = X->isArrow();
      if (auto *FD = dyn_cast<FunctionDecl>(D))
        calleeInfo(O, FD);
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "index";
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall";
      O["op"] = getOperatorSpelling(X->getOperator());
      calleeInfo(O, X->getDirectCallee());
      std::vector<const Expr *> A;
      for (auto *Arg : X->arguments())
        A.push_back(Arg);
      O["a"] = exprArr(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      calleeInfo(O, X->getDirectCallee());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["obj"] = expr(ME->getBase());
        O["arrow"] = ME->isArrow();
        O["objt"] = ty(ME->getBase()->getType());
      } else
        O["obj"] = expr(X->getCallee());
      std::vector<const Expr *> A;
      for (auto *Arg : X->arguments())
        A.push_back(Arg);
      O["a"] = exprArr(A);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      const FunctionDecl *F = X->getDirectCallee();
      calleeInfo(O, F);
      if (!F)
        O["ce"] = expr(X->getCallee());
      std::vector<const Expr *> A;
      for (auto *Arg : X->arguments())
        A.push_back(Arg);
      O["a"] = exprArr(A);
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      json::Array Caps;
      for (auto &C : X->captures()) {
        json::Object CO;
        if (C.capturesThis())
          CO["this"] = true;
        else if (C.capturesVariable()) {
          CO["id"] = id(C.getCapturedVar());
          CO["name"] = C.getCapturedVar()->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(C.getCapturedVar()))
            if (VD->isInitCapture() && VD->getInit())
              CO["init"] = expr(VD->getInit());
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      const CXXRecordDecl *L = X->getLambdaClass();
      const CXXMethodDecl *Op = X->getCallOperator();
      if (X->isGenericLambda()) {
        Op = nullptr;
        if (auto *FT = L->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations())
            if (S->hasBody()) {
              Op = cast<CXXMethodDecl>(S);
              break;
            }
      }
      if (Op) {
        O["op"] = fkey(Op);
        enqueue(Op);
      }
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cassign";
      O["op"] = X->getOpcodeStr();
      O["lhs"] = expr(X->getLHS());
      O["rhs"] = expr(X->getRHS());
      O["ct"] = ty(X->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        O["k"] = "assign";
        O["lhs"] = expr(X->getLHS());
        O["rhs"] = expr(X->getRHS());
        return O;
      }
      O["k"] = "bin";
      O["op"] = X->getOpcodeStr();
      O["a"] = exprArr({X->getLHS(), X->getRHS()});
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      O["ex"] = !isa<ImplicitCastExpr>(E);
      O["e"] = expr(X->getSubExpr());
      if (X->getCastKind() == CK_UserDefinedConversion)
        if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction()))
          O["conv"] = qname(F);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor";
      auto *C = X->getConstructor();
      O["cls"] = ty(X->getType());
      O["ck"] = C->isCopyConstructor()   ? "copy"
                : C->isMoveConstructor() ? "move"
                : C->isDefaultConstructor() ? "default"
                                            : "other";
      O["il"] = X->isStdInitListInitialization();
      O["list"] = X->isListInitialization();
      O["zero"] = X->requiresZeroInitialization();
      calleeInfo(O, C);
      std::vector<const Expr *> A;
      for (auto *Arg : X->arguments())
        A.push_back(Arg);
      O["a"] = exprArr(A);
      // implicit special members of repository classes: emit field-wise info
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "unk";
      O["cls"] = "CXXInheritedCtorInitExpr";
      (void)X;
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "ilist";
      json::Array A;
      auto *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S)
        S = X;
      for (unsigned i = 0; i < S->getNumInits(); ++i)
        A.push_back(expr(S->getInit(i)));
      O["a"] = std::move(A);
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "zeroinit";
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = ty(X->getAllocatedType());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "sizeof";
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, Ctx))
        O["v"] = llvm::toString(R.Val.getInt(), 10);
      return O;
    }
    // constant-foldable leftovers
    O["k"] = "unk";
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *C : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(C))
        A.push_back(expr(CE));
    O["a"] = std::move(A);
    return O;
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object O;
    O["id"] = id(V);
    O["name"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["static"] = V->isStaticLocal() || V->hasGlobalStorage();
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["ref"] = V->getType()->isReferenceType();
    O["l"] = (int64_t)SM.getExpansionLineNumber(V->getLocation());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *Bd : D->bindings()) {
        json::Object BO;
        BO["id"] = id(Bd);
        BO["name"] = Bd->getNameAsString();
        if (Bd->getHoldingVar()) {
          BO["hold"] = id(Bd->getHoldingVar());
        }
        if (Bd->getBinding())
          BO["e"] = expr(Bd->getBinding());
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    if (V->hasInit())
      O["init"] = expr(V->getInit());
    else
      O["init"] = nullptr;
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    json::Object O;
    SourceLocation L = SM.getExpansionLoc(S->getBeginLoc());
    if (L.isValid())
      O["l"] = (int64_t)SM.getSpellingLineNumber(L);
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      json::Array A;
      for (auto *C : X->body())
        A.push_back(stmt(C));
      O["b"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(varDecl(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->isConstexpr())
        O["constexpr"] = true;
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["then"] = stmt(X->getThen());
      O["else"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = expr(X->getRangeInit());
      O["rt"] = ty(X->getRangeInit()->getType());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret";
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) {
      O["k"] = "break";
      return O;
    }
    if (isa<ContinueStmt>(S)) {
      O["k"] = "continue";
      return O;
    }
    if (isa<NullStmt>(S)) {
      O["k"] = "nop";
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, Ctx))
        O["v"] = std::stoll(llvm::toString(R.Val.getInt(), 10));
      if (X->getRHS())
        O["range"] = true;
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        H.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<Expr>(S)) {
      O["k"] = "expr";
      O["e"] = expr(X);
      return O;
    }
    O["k"] = "unk";
    O["cls"] = S->getStmtClassName();
    json::Array A;
    for (auto *C : S->children())
      if (C) {
        if (auto *CE = dyn_cast<Expr>(C)) {
          json::Object EO;
          EO["k"] = "expr";
          EO["e"] = expr(CE);
          A.push_back(std::move(EO));
        } else
          A.push_back(stmt(C));
      }
    O["b"] = std::move(A);
    return O;
  }

  json::Value func(const FunctionDecl *F) {
    json::Object O;
    O["name"] = qname(F);
    O["key"] = fkey(F);
    O["loc"] = loc(F->getLocation());
    O["end"] = (int64_t)SM.getExpansionLineNumber(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["variadic"] = F->isVariadic();
    O["implicit"] = F->isImplicit();
    O["defaulted"] = F->isDefaulted();
    json::Array P;
    for (auto *A : F->parameters()) {
      json::Object PO;
      PO["id"] = id(A);
      PO["name"] = A->getNameAsString();
      PO["t"] = ty(A->getType());
      P.push_back(std::move(PO));
    }
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(Ctx.getTypeDeclType(M->getParent()));
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["lambda"] = M->getParent()->isLambda();
      O["access"] = M->getAccess() == AS_public ? "public" : "nonpublic";
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array I;
      for (auto *Init : C->inits()) {
        json::Object IO;
        if (Init->isAnyMemberInitializer()) {
          IO["field"] = Init->getAnyMember()->getNameAsString();
          IO["written"] = Init->isWritten();
        } else if (Init->isDelegatingInitializer())
          IO["delegating"] = true;
        else
          IO["base"] = true;
        IO["e"] = expr(Init->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(F->getBody());
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  json::Array Records, Globals, Specs, Enums;
  std::vector<std::pair<std::string, bool>> Decls;
  json::Array Methods;
  explicit Visitor(Dumper &Dm) : D(Dm) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!D.inRoot(F->getLocation()))
      return true;
    if (F->isDependentContext())
      return true;
    if (F->doesThisDeclarationHaveABody() || F->isDefaulted())
      if (F->hasBody())
        D.enqueue(F);
    json::Object O;
    O["name"] = D.qname(F);
    O["key"] = D.fkey(F);
    O["t"] = D.ty(F->getType());
    O["def"] = F->isDefined();
    O["loc"] = D.loc(F->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = D.ty(D.Ctx.getTypeDeclType(M->getParent()));
      O["virtual"] = M->isVirtual();
      O["access"] = M->getAccess() == AS_public ? "public" : "nonpublic";
      O["implicit"] = M->isImplicit();
    }
    Methods.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!D.inRoot(V->getLocation()) || isa<ParmVarDecl>(V))
      return true;
    if (V->getDeclContext()->isDependentContext())
      return true;
    if (!(V->hasGlobalStorage()))
      return true;
    json::Object O;
    O["name"] = D.qname(V);
    O["t"] = D.ty(V->getType());
    O["loc"] = D.loc(V->getLocation());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["local"] = V->isStaticLocal();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    Globals.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!D.inRoot(E->getLocation()) || E->getDeclContext()->isDependentContext())
      return true;
    json::Object O;
    O["name"] = D.ty(D.Ctx.getTypeDeclType(E));
    json::Array C;
    for (auto *X : E->enumerators()) {
      json::Object CO;
      CO["name"] = X->getNameAsString();
      CO["v"] = std::stoll(llvm::toString(X->getInitVal(), 10));
      C.push_back(std::move(CO));
    }
    O["c"] = std::move(C);
    O["loc"] = D.loc(E->getLocation());
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *S) {
    if (S->getSpecializationKind() != TSK_ExplicitSpecialization)
      return true;
    if (!D.inRoot(S->getLocation()))
      return true;
    json::Object O;
    O["name"] = D.qname(S);
    O["args"] = D.targs(&S->getTemplateArgs());
    json::Array B;
    if (S->hasDefinition())
      for (auto &Bs : S->bases())
        B.push_back(D.ty(Bs.getType()));
    O["bases"] = std::move(B);
    O["loc"] = D.loc(S->getLocation());
    Specs.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        R->isLambda())
      return true;
    if (!D.inRoot(R->getLocation()))
      return true;
    json::Object O;
    O["name"] = D.ty(D.Ctx.getTypeDeclType(R));
    O["loc"] = D.loc(R->getLocation());
    json::Array F;
    const ASTRecordLayout *Lay = nullptr;
    if (!R->isInvalidDecl())
      Lay = &D.Ctx.getASTRecordLayout(R);
    unsigned i = 0;
    for (auto *Fd : R->fields()) {
      json::Object FO;
      FO["name"] = Fd->getNameAsString();
      FO["t"] = D.ty(Fd->getType());
      FO["mutable"] = Fd->isMutable();
      FO["access"] = Fd->getAccess() == AS_public ? "public" : "nonpublic";
      FO["l"] = (int64_t)D.SM.getExpansionLineNumber(Fd->getLocation());
      if (Fd->hasInClassInitializer() && Fd->getInClassInitializer())
        FO["init"] = D.expr(Fd->getInClassInitializer());
      if (Lay)
        FO["off"] = (int64_t)Lay->getFieldOffset(i);
      ++i;
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (auto &Bs : R->bases())
      B.push_back(D.ty(Bs.getType()));
    O["bases"] = std::move(B);
    O["poly"] = R->isPolymorphic();
    if (Lay) {
      O["size"] = (int64_t)Lay->getSize().getQuantity();
      O["align"] = (int64_t)Lay->getAlignment().getQuantity();
    }
    Records.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Array Fs;
    while (!D.Queue.empty()) {
      auto *F = D.Queue.front();
      D.Queue.pop_front();
      Fs.push_back(D.func(F));
    }
    json::Object Root;
    Root["functions"] = std::move(Fs);
    Root["records"] = std::move(V.Records);
    Root["globals"] = std::move(V.Globals);
    Root["enums"] = std::move(V.Enums);
    Root["specs"] = std::move(V.Specs);
    Root["decls"] = std::move(V.Methods);
    Root["errors"] = (int64_t)Ctx.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(Root));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

class Factory : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override {
    return std::make_unique<Action>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  std::vector<std::string> Args;
  std::string Src;
  int i = 1;
  for (; i < argc; ++i) {
    std::string A = argv[i];
    if (A == "--root" && i + 1 < argc)
      Roots.push_back(argv[++i]);
    else if (A == "-o" && i + 1 < argc)
      OutPath = argv[++i];
    else if (A == "--") {
      ++i;
      break;
    } else
      Src = A;
  }
  for (; i < argc; ++i)
    Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {Src});
  Factory F;
  return Tool.run(&F);
}
