// hycu-front: prints, as JSON, the resolved abstract syntax of every function, record, enum and
// global that one translation unit defines under a given source root.  It decides nothing itself.
//   hycu-front --root=/repo/src FILE -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("hycu-front");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C;
  SourceManager &SM;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals, Types;
  std::map<const void *, int> TypeIds;
  std::map<const Decl *, int> VarIds;
  std::set<const Decl *> Done;
  int NextVar = 0, NextNode = 0;

  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    return std::string(S);
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    SourceLocation L = D->getLocation();
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return F.compare(0, Root.size(), Root) == 0;
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return "lambda@" + fileOf(F->getLocation()) + ":" + std::to_string(lineOf(F->getLocation())) + ":" +
               std::to_string(SM.getExpansionColumnNumber(F->getLocation()));
    return NG.getName(F);
  }
  int vid(const ValueDecl *D) {
    const Decl *K = D->getCanonicalDecl();
    auto It = VarIds.find(K);
    if (It != VarIds.end()) return It->second;
    return VarIds[K] = NextVar++;
  }
  std::string recName(const CXXRecordDecl *R) {
    QualType T = C.getRecordType(R);
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  // qualified name with the class's template arguments but without inline namespaces
  std::string gname(const VarDecl *D) {
    if (auto *R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) return recName(R) + "::" + D->getNameAsString();
    return qname(D);
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    const void *K = T.getAsOpaquePtr();
    auto It = TypeIds.find(K);
    if (It != TypeIds.end()) return It->second;
    int Id = (int)Types.size();
    TypeIds[K] = Id;
    Types.push_back(nullptr);
    json::Object O;
    O["s"] = T.getAsString(PP);
    if (T.isConstQualified()) O["const"] = true;
    if (T->isReferenceType()) {
      O["k"] = T->isRValueReferenceType() ? "rref" : "lref";
      O["to"] = type(T->getPointeeType());
    } else if (T->isPointerType()) {
      O["k"] = "ptr";
      O["to"] = type(T->getPointeeType());
    } else if (auto *AT = C.getAsArrayType(T)) {
      O["k"] = "array";
      O["to"] = type(AT->getElementType());
    } else if (auto *R = T->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["q"] = qname(R);
      O["rec"] = recName(R);
      O["repo"] = inRoot(R);
      if (R->isLambda()) O["lambda"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array A;
        for (auto &Arg : S->getTemplateArgs().asArray()) targ(Arg, A);
        O["args"] = std::move(A);
      }
    } else if (auto *ET = T->getAs<EnumType>()) {
      O["k"] = "enum";
      O["q"] = qname(ET->getDecl());
    } else if (auto *BT = T->getAs<BuiltinType>()) {
      O["k"] = "builtin";
      if (BT->isInteger()) {
        O["bits"] = (int64_t)C.getTypeSize(T);
        O["signed"] = BT->isSignedInteger();
      }
      if (BT->isFloatingPoint()) O["float"] = true;
    } else
      O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }
  void targ(const TemplateArgument &Arg, json::Array &A) {
    if (Arg.getKind() == TemplateArgument::Type)
      A.push_back(json::Object{{"t", type(Arg.getAsType())}});
    else if (Arg.getKind() == TemplateArgument::Integral)
      A.push_back(json::Object{{"v", Arg.getAsIntegral().getExtValue()}});
    else if (Arg.getKind() == TemplateArgument::Pack)
      for (auto &P : Arg.pack_elements()) targ(P, A);
  }

  json::Value loc(json::Object &O, SourceLocation L) {
    O["l"] = lineOf(L);
    return nullptr;
  }

  const char *mode(QualType T) {
    if (T->isRValueReferenceType()) return "m";
    if (T->isLValueReferenceType()) return T->getPointeeType().isConstQualified() ? "c" : "r";
    if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? "cp" : "p";
    if (T->isArrayType()) return "p";
    return "v";
  }
  json::Object callee(const FunctionDecl *F) {
    json::Object O;
    O["fn"] = fid(F);
    O["q"] = qname(F);
    const FunctionDecl *Def = nullptr;
    bool Has = F->hasBody(Def);
    if (Has && inRoot(Def)) O["repo"] = true;
    if (inRoot(F)) O["inroot"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recName(M->getParent());
      O["recq"] = qname(M->getParent());
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isImplicit() || M->isDefaulted()) O["dflt"] = true;
    }
    if (F->isNoReturn()) O["noret"] = true;
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &Arg : TA->asArray()) targ(Arg, A);
      O["targs"] = std::move(A);
    }
    json::Array Ms;
    for (auto *P : F->parameters()) Ms.push_back(mode(P->getType()));
    O["modes"] = std::move(Ms);
    O["rt"] = type(F->getReturnType());
    return O;
  }

  json::Value S(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *E = dyn_cast<Expr>(St)) return X(E);
    json::Object O;
    O["i"] = NextNode++;
    O["l"] = lineOf(St->getBeginLoc());
    auto kids = [&](const Stmt *P) {
      json::Array A;
      for (auto *Ch : P->children()) A.push_back(S(Ch));
      return A;
    };
    switch (St->getStmtClass()) {
    case Stmt::CompoundStmtClass:
      O["k"] = "compound";
      O["le"] = lineOf(St->getEndLoc());
      O["c"] = kids(St);
      break;
    case Stmt::DeclStmtClass: {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : cast<DeclStmt>(St)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["vars"] = std::move(A);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(St);
      O["k"] = "if";
      if (I->getInit()) O["init"] = S(I->getInit());
      if (I->getConditionVariable()) O["var"] = var(I->getConditionVariable());
      O["cond"] = X(I->getCond());
      O["then"] = S(I->getThen());
      O["else"] = S(I->getElse());
      if (I->isConstexpr()) {
        O["constexpr"] = true;
      }
      break;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(St);
      O["k"] = "for";
      O["init"] = S(I->getInit());
      if (I->getConditionVariable()) O["var"] = var(I->getConditionVariable());
      O["cond"] = S(I->getCond());
      O["inc"] = S(I->getInc());
      O["body"] = S(I->getBody());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(St);
      O["k"] = "while";
      if (I->getConditionVariable()) O["var"] = var(I->getConditionVariable());
      O["cond"] = X(I->getCond());
      O["body"] = S(I->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(St);
      O["k"] = "do";
      O["cond"] = X(I->getCond());
      O["body"] = S(I->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(St);
      O["k"] = "rangefor";
      if (I->getInit()) O["init"] = S(I->getInit());
      O["range"] = X(I->getRangeInit());
      O["var"] = var(I->getLoopVariable(), true);
      O["body"] = S(I->getBody());
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(St);
      O["k"] = "switch";
      if (I->getInit()) O["init"] = S(I->getInit());
      if (I->getConditionVariable()) O["var"] = var(I->getConditionVariable());
      O["cond"] = X(I->getCond());
      O["body"] = S(I->getBody());
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(St);
      O["k"] = "case";
      Expr::EvalResult R;
      if (I->getLHS()->EvaluateAsInt(R, C)) O["v"] = R.Val.getInt().getExtValue();
      O["val"] = X(I->getLHS());
      O["sub"] = S(I->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass:
      O["k"] = "default";
      O["sub"] = S(cast<DefaultStmt>(St)->getSubStmt());
      break;
    case Stmt::ReturnStmtClass:
      O["k"] = "return";
      if (auto *V = cast<ReturnStmt>(St)->getRetValue()) O["v"] = X(V);
      break;
    case Stmt::BreakStmtClass: O["k"] = "break"; break;
    case Stmt::ContinueStmtClass: O["k"] = "continue"; break;
    case Stmt::NullStmtClass: O["k"] = "null"; break;
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(St)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *I = cast<CXXTryStmt>(St);
      O["k"] = "try";
      O["body"] = S(I->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < I->getNumHandlers(); ++i) {
        json::Object HO;
        auto *Ha = I->getHandler(i);
        if (Ha->getExceptionDecl()) HO["var"] = var(Ha->getExceptionDecl());
        HO["body"] = S(Ha->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["handlers"] = std::move(H);
      break;
    }
    default:
      O["k"] = "unsup";
      O["cls"] = St->getStmtClassName();
      O["c"] = kids(St);
    }
    return O;
  }

  json::Value var(const VarDecl *V, bool NoInit = false) {
    json::Object O;
    O["id"] = vid(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (!NoInit && V->getInit()) O["init"] = X(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array A;
      for (auto *B : D->bindings()) {
        json::Object BO;
        BO["id"] = vid(B);
        BO["n"] = B->getNameAsString();
        if (B->getHoldingVar()) BO["hid"] = vid(B->getHoldingVar());
        if (B->getBinding()) BO["b"] = X(B->getBinding());
        A.push_back(std::move(BO));
      }
      O["bind"] = std::move(A);
    }
    return O;
  }

  json::Value X(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return X(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return X(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return X(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return X(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return X(P->getExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E))
      if (P->getSourceExpr()) return X(P->getSourceExpr());

    json::Object O;
    O["i"] = NextNode++;
    O["l"] = lineOf(E->getExprLoc());
    O["t"] = type(E->getType());
    if (E->isGLValue()) O["lv"] = true;
    if (E->isXValue()) O["xv"] = true;
    auto args = [&](auto Begin, auto End) {
      json::Array A;
      for (auto It = Begin; It != End; ++It) A.push_back(X(*It));
      return A;
    };
    auto cv = [&]() {
      if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && !E->isTypeDependent()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) O["cv"] = R.Val.getInt().getExtValue();
      }
    };
    switch (E->getStmtClass()) {
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *K = cast<CastExpr>(E);
      switch (K->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_BuiltinFnToFnPtr:
        return X(K->getSubExpr());
      default:;
      }
      O["k"] = "cast";
      O["ck"] = K->getCastKindName();
      O["c"] = json::Array{X(K->getSubExpr())};
      cv();
      break;
    }
    case Stmt::ExprWithCleanupsClass:
      O["k"] = "full";
      O["c"] = json::Array{X(cast<ExprWithCleanups>(E)->getSubExpr())};
      break;
    case Stmt::MaterializeTemporaryExprClass: {
      auto *M = cast<MaterializeTemporaryExpr>(E);
      O["k"] = "mat";
      if (M->getExtendingDecl()) O["ext"] = true;
      O["c"] = json::Array{X(M->getSubExpr())};
      break;
    }
    case Stmt::CXXBindTemporaryExprClass:
      O["k"] = "bindtemp";
      O["c"] = json::Array{X(cast<CXXBindTemporaryExpr>(E)->getSubExpr())};
      break;
    case Stmt::IntegerLiteralClass:
      O["k"] = "int";
      O["v"] = (int64_t)cast<IntegerLiteral>(E)->getValue().getLimitedValue();
      break;
    case Stmt::CharacterLiteralClass:
      O["k"] = "int";
      O["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
      O["char"] = true;
      break;
    case Stmt::CXXBoolLiteralExprClass:
      O["k"] = "int";
      O["v"] = (int64_t)cast<CXXBoolLiteralExpr>(E)->getValue();
      break;
    case Stmt::FloatingLiteralClass:
      O["k"] = "float";
      O["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
      break;
    case Stmt::StringLiteralClass:
      O["k"] = "str";
      if (cast<StringLiteral>(E)->isOrdinary()) O["v"] = json::fixUTF8(cast<StringLiteral>(E)->getString());
      break;
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass:
      O["k"] = "nullptr";
      break;
    case Stmt::CXXThisExprClass: O["k"] = "this"; break;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      O["k"] = "ref";
      O["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["rk"] = "func";
        O["callee"] = callee(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["rk"] = "enum";
        O["v"] = EC->getInitVal().getExtValue();
        O["q"] = qname(EC);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
          O["rk"] = "local";
          O["id"] = vid(V);
        } else if (V->isStaticLocal()) {
          O["rk"] = "global";
          O["q"] = "static:" + V->getNameAsString() + "@" + std::to_string(lineOf(V->getLocation()));
        } else {
          O["rk"] = "global";
          O["q"] = gname(V);
          if (inRoot(V)) O["repo"] = true;
        }
        cv();
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["rk"] = "binding";
        O["id"] = vid(B);
      } else {
        O["rk"] = "other";
        O["q"] = qname(D);
      }
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      auto *D = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static data member through an object
        O["k"] = "ref";
        O["rk"] = "global";
        O["n"] = V->getNameAsString();
        O["q"] = gname(V);
        if (inRoot(V)) O["repo"] = true;
        cv();
        break;
      }
      O["k"] = "member";
      O["n"] = D->getNameAsString();
      O["arrow"] = M->isArrow();
      if (auto *R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) O["rec"] = recName(R);
      if (isa<CXXMethodDecl>(D)) O["callee"] = callee(cast<FunctionDecl>(D));
      O["c"] = json::Array{X(M->getBase())};
      break;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      O["k"] = "mcall";
      if (auto *F = M->getMethodDecl()) {
        O["callee"] = callee(F);
        if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) O["qualified"] = true;
      }
      O["obj"] = X(M->getImplicitObjectArgument());
      if (auto *IO = M->getImplicitObjectArgument()) O["objt"] = type(IO->getType());
      O["c"] = args(M->arg_begin(), M->arg_end());
      break;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E);
      O["k"] = "opcall";
      O["op"] = getOperatorSpelling(M->getOperator());
      if (auto *F = M->getDirectCallee()) {
        O["callee"] = callee(F);
        O["member"] = isa<CXXMethodDecl>(F);
      } else
        O["fexpr"] = X(M->getCallee());
      O["c"] = args(M->arg_begin(), M->arg_end());
      break;
    }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *M = cast<CallExpr>(E);
      O["k"] = "call";
      if (auto *F = M->getDirectCallee())
        O["callee"] = callee(F);
      else
        O["fexpr"] = X(M->getCallee());
      O["c"] = args(M->arg_begin(), M->arg_end());
      cv();
      break;
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *M = cast<CXXConstructExpr>(E);
      auto *Ct = M->getConstructor();
      O["k"] = "construct";
      O["callee"] = callee(Ct);
      O["rec"] = recName(Ct->getParent());
      if (Ct->isCopyConstructor()) O["copy"] = true;
      if (Ct->isMoveConstructor()) O["move"] = true;
      if (Ct->isDefaultConstructor()) O["dctor"] = true;
      if (M->isElidable()) O["elide"] = true;
      if (M->isListInitialization()) O["list"] = true;
      if (M->requiresZeroInitialization()) O["zero"] = true;
      if (Ct->isImplicit() || Ct->isDefaulted()) O["dflt"] = true;
      O["c"] = args(M->arg_begin(), M->arg_end());
      break;
    }
    case Stmt::CXXInheritedCtorInitExprClass:
      O["k"] = "opaque";
      O["cls"] = "CXXInheritedCtorInitExpr";
      O["c"] = json::Array{};
      break;
    case Stmt::CXXNewExprClass: {
      auto *M = cast<CXXNewExpr>(E);
      O["k"] = "new";
      O["nt"] = type(M->getAllocatedType());
      O["array"] = M->isArray();
      if (M->hasInitializer()) O["init"] = X(M->getInitializer());
      if (M->isArray() && M->getArraySize()) O["size"] = X(*M->getArraySize());
      break;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *M = cast<CXXDeleteExpr>(E);
      O["k"] = "delete";
      O["array"] = M->isArrayForm();
      O["c"] = json::Array{X(M->getArgument())};
      break;
    }
    case Stmt::CXXThrowExprClass:
      O["k"] = "throw";
      if (auto *T = cast<CXXThrowExpr>(E)->getSubExpr()) O["c"] = json::Array{X(T)};
      break;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      O["k"] = "lambda";
      O["fn"] = fid(L->getCallOperator());
      json::Array Caps;
      auto CI = L->capture_init_begin();
      for (auto It = L->capture_begin(); It != L->capture_end(); ++It, ++CI) {
        json::Object CO;
        if (It->capturesThis()) {
          CO["this"] = true;
          CO["byref"] = It->getCaptureKind() == LCK_This;
        } else if (It->capturesVariable()) {
          CO["id"] = vid(It->getCapturedVar());
          CO["byref"] = It->getCaptureKind() == LCK_ByRef;
          CO["n"] = It->getCapturedVar()->getNameAsString();
          if (auto *VD = dyn_cast<VarDecl>(It->getCapturedVar()))
            if (VD->isInitCapture()) CO["initcap"] = true;
        }
        CO["init"] = X(*CI);
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      break;
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      O["k"] = "initlist";
      json::Array A;
      for (auto *In : I->inits()) A.push_back(X(In));
      O["c"] = std::move(A);
      break;
    }
    case Stmt::CXXStdInitializerListExprClass:
      return X(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass:
      O["k"] = "zeroinit";
      break;
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "unop";
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["post"] = U->isPostfix();
      O["c"] = json::Array{X(U->getSubExpr())};
      cv();
      break;
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = B->isAssignmentOp() ? "assign" : "binop";
      O["op"] = B->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) O["ct"] = type(CA->getComputationResultType());
      O["c"] = json::Array{X(B->getLHS()), X(B->getRHS())};
      if (!B->isAssignmentOp()) cv();
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *B = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["c"] = json::Array{X(B->getCond()), X(B->getTrueExpr()), X(B->getFalseExpr())};
      break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *B = cast<ArraySubscriptExpr>(E);
      O["k"] = "index";
      O["c"] = json::Array{X(B->getBase()), X(B->getIdx())};
      break;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass:
    case Stmt::SizeOfPackExprClass:
    case Stmt::TypeTraitExprClass:
      O["k"] = "opaque";
      O["cls"] = E->getStmtClassName();
      cv();
      break;
    default: {
      O["k"] = "opaque";
      O["cls"] = E->getStmtClassName();
      json::Array A;
      for (auto *Ch : E->children())
        if (Ch) A.push_back(S(Ch));
      O["c"] = std::move(A);
      cv();
    }
    }
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isDeleted()) return true;
    if (!inRoot(F)) return true;
    if (!F->hasBody() ) return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!Done.insert(F).second) return true;
    json::Object O;
    O["fn"] = fid(F);
    O["q"] = qname(F);
    O["file"] = fileOf(F->getLocation());
    O["l"] = lineOf(F->getLocation());
    O["le"] = lineOf(F->getEndLoc());
    O["rt"] = type(F->getReturnType());
    if (F->isImplicit() || F->isDefaulted()) O["implicit"] = true;
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO;
      PO["id"] = vid(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = type(P->getType());
      PO["m"] = mode(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg()) PO["def"] = X(P->getDefaultArg());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recName(M->getParent());
      O["recq"] = qname(M->getParent());
      if (M->getParent()->isLambda()) O["lambda"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->isVirtual()) O["virt"] = true;
      O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      O["overrides"] = std::move(Ov);
      if (M->isCopyAssignmentOperator()) O["special"] = "copyassign";
      if (M->isMoveAssignmentOperator()) O["special"] = "moveassign";
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      if (Ct->isCopyConstructor()) O["special"] = "copyctor";
      if (Ct->isMoveConstructor()) O["special"] = "movector";
      json::Array In;
      for (auto *I : Ct->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer())
          IO["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["l"] = lineOf(I->getSourceLocation());
        IO["e"] = X(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = S(F->getBody());
    Functions.push_back(std::move(O));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoot(R) || R->isLambda()) return true;
    if (!Done.insert(R).second) return true;
    json::Object O;
    O["rec"] = recName(R);
    O["q"] = qname(R);
    O["file"] = fileOf(R->getLocation());
    O["l"] = lineOf(R->getLocation());
    json::Array Fs, Bs, Ms;
    for (auto *F : R->fields()) {
      json::Object FO{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"l", lineOf(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = X(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto &B : R->bases()) Bs.push_back(type(B.getType()));
    for (auto *M : R->methods()) {
      json::Object MO{{"fn", fid(M)}, {"q", qname(M)}, {"virt", M->isVirtual()}, {"pure", M->isPureVirtual()},
                      {"deleted", M->isDeleted()}, {"implicit", M->isImplicit()}, {"userprov", M->isUserProvided()},
                      {"used", M->isUsed() || M->isReferenced()}, {"l", lineOf(M->getLocation())}};
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      MO["overrides"] = std::move(Ov);
      std::string Kind = "method";
      if (auto *Ct = dyn_cast<CXXConstructorDecl>(M))
        Kind = Ct->isCopyConstructor() ? "copyctor" : Ct->isMoveConstructor() ? "movector" : Ct->isDefaultConstructor() ? "dctor" : "ctor";
      else if (isa<CXXDestructorDecl>(M)) Kind = "dtor";
      else if (M->isCopyAssignmentOperator()) Kind = "copyassign";
      else if (M->isMoveAssignmentOperator()) Kind = "moveassign";
      MO["kind"] = Kind;
      json::Array Pt;
      for (auto *P : M->parameters()) Pt.push_back(type(P->getType()));
      MO["pt"] = std::move(Pt);
      Ms.push_back(std::move(MO));
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    O["methods"] = std::move(Ms);
    O["trivcopy"] = R->isTriviallyCopyable();
    O["copyctor_implicit"] = R->needsImplicitCopyConstructor();
    O["copyassign_implicit"] = R->needsImplicitCopyAssignment();
    O["has_user_dtor"] = R->hasUserDeclaredDestructor();
    O["has_user_copyctor"] = R->hasUserDeclaredCopyConstructor();
    O["has_user_copyassign"] = R->hasUserDeclaredCopyAssignment();
    O["has_user_movector"] = R->hasUserDeclaredMoveConstructor();
    O["has_user_moveassign"] = R->hasUserDeclaredMoveAssignment();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoot(E)) return true;
    if (!Done.insert(E).second) return true;
    json::Object O{{"q", qname(E)}, {"file", fileOf(E->getLocation())}, {"l", lineOf(E->getLocation())}};
    json::Array A;
    for (auto *K : E->enumerators()) A.push_back(json::Object{{"n", K->getNameAsString()}, {"v", K->getInitVal().getExtValue()}});
    O["vals"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || V->getDeclContext()->isDependentContext() || !inRoot(V)) return true;
    if (isa<VarTemplateSpecializationDecl>(V) || V->getDescribedVarTemplate()) return true;
    if (!Done.insert(V).second) return true;
    json::Object O{{"q", gname(V)}, {"file", fileOf(V->getLocation())}, {"l", lineOf(V->getLocation())}, {"t", type(V->getType())}};
    if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = X(V->getInit());
    Globals.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["functions"] = std::move(E.Functions);
    O["records"] = std::move(E.Records);
    O["enums"] = std::move(E.Enums);
    O["globals"] = std::move(E.Globals);
    O["types"] = std::move(E.Types);
    O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    llvm::outs() << json::Value(std::move(O)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) {
    llvm::errs() << llvm::toString(P.takeError());
    return 2;
  }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
