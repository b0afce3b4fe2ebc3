// astx: dump the resolved AST + CFG of every entity of one translation unit
// that is written below a given root directory, as one JSON document.
//   astx --root=/repo  -p builddir file.cpp   (or: file.cpp -- flags)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"),
                                       llvm::cl::cat(Cat), llvm::cl::init("/repo"));
static llvm::cl::opt<std::string> Excl("exclude", llvm::cl::desc("excluded subdir"),
                                       llvm::cl::cat(Cat), llvm::cl::init("/repo/_build"));
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"),
                                          llvm::cl::cat(Cat), llvm::cl::init("-"));

namespace {

struct Dumper
{
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  json::OStream &J;
  std::map<const Stmt *, unsigned> StmtId;
  unsigned NextId = 1;
  std::map<const Decl *, unsigned> LocalId;
  unsigned NextLocal = 1;
  std::vector<const CXXMethodDecl *> PendingLambdas;
  std::set<const Decl *> Done;

  Dumper(ASTContext &C, json::OStream &JJ)
      : Ctx(C)
      , SM(C.getSourceManager())
      , PP(C.getLangOpts())
      , J(JJ)
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  std::string fileOf(SourceLocation L)
  {
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    std::string n;
    if (FE) n = FE->getFileEntry().tryGetRealPathName().str();
    if (n.empty()) n = P.getFilename();
    return n;
  }
  unsigned lineOf(SourceLocation L)
  {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  unsigned colOf(SourceLocation L)
  {
    if (L.isInvalid()) return 0;
    return SM.getExpansionColumnNumber(L);
  }
  bool inRoot(SourceLocation L)
  {
    auto f = fileOf(L);
    if (f.rfind(Root + "/", 0) != 0) return false;
    if (!Excl.empty() && f.rfind(Excl + "/", 0) == 0) return false;
    return true;
  }
  std::string typeStr(QualType T)
  {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D)
  {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), B)) return "";
    return B.str().str();
  }
  unsigned localId(const Decl *D)
  {
    D = D->getCanonicalDecl();
    auto &I = LocalId[D];
    if (!I) I = NextLocal++;
    return I;
  }
  bool isLocal(const Decl *D)
  {
    if (auto *V = dyn_cast<VarDecl>(D)) return V->isLocalVarDeclOrParm();
    if (isa<BindingDecl>(D)) return true;
    return false;
  }
  std::string qname(const NamedDecl *D)
  {
    std::string s;
    llvm::raw_string_ostream OS(s);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string fid(const FunctionDecl *F)
  {
    // stable id; lambdas get file:line:col
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return "lambda@" + fileOf(M->getBeginLoc()) + ":" +
               std::to_string(lineOf(M->getParent()->getBeginLoc())) + ":" +
               std::to_string(colOf(M->getParent()->getBeginLoc()));
    return usr(F);
  }
  void declRef(const ValueDecl *D)
  {
    J.attribute("n", D->getNameAsString());
    if (isLocal(D))
    {
      J.attribute("dk", isa<ParmVarDecl>(D) ? "parm" : "var");
      J.attribute("d", "L" + std::to_string(localId(D)));
      if (auto *V = dyn_cast<VarDecl>(D))
        if (V->isStaticLocal()) J.attribute("static", true);
    }
    else if (auto *F = dyn_cast<FunctionDecl>(D))
    {
      J.attribute("dk", "fn");
      J.attribute("q", qname(F));
      J.attribute("d", fid(F));
    }
    else if (auto *E = dyn_cast<EnumConstantDecl>(D))
    {
      J.attribute("dk", "enumc");
      J.attribute("q", qname(E));
      J.attribute("d", usr(E));
      J.attribute("v", (int64_t)E->getInitVal().getExtValue());
    }
    else if (isa<FieldDecl>(D))
    {
      J.attribute("dk", "field");
      J.attribute("q", qname(D));
      J.attribute("d", usr(D));
    }
    else
    {
      J.attribute("dk", "global");
      J.attribute("q", qname(D));
      J.attribute("d", usr(D));
    }
  }

  void varDecl(const VarDecl *V)
  {
    J.object(
        [&]
        {
          J.attribute("k", "VarDecl");
          J.attribute("n", V->getNameAsString());
          J.attribute("t", typeStr(V->getType()));
          J.attribute("l", lineOf(V->getLocation()));
          if (isLocal(V))
            J.attribute("d", "L" + std::to_string(localId(V)));
          else
            J.attribute("d", usr(V));
          if (V->isStaticLocal()) J.attribute("static", true);
          if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", true);
          if (V->isConstexpr()) J.attribute("constexpr", true);
          if (V->hasInit())
          {
            J.attributeBegin("c");
            J.arrayBegin();
            stmt(V->getInit());
            J.arrayEnd();
            J.attributeEnd();
          }
          if (auto *DD = dyn_cast<DecompositionDecl>(V))
          {
            J.attributeArray("bind",
                             [&]
                             {
                               for (auto *B : DD->bindings())
                                 J.object(
                                     [&]
                                     {
                                       J.attribute("n", B->getNameAsString());
                                       J.attribute(
                                           "d", "L" + std::to_string(localId(B)));
                                     });
                             });
          }
        });
  }

  const Stmt *strip(const Stmt *S)
  {
    while (S)
    {
      if (auto *P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(S)) { S = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) break;
      if (auto *P = dyn_cast<ImplicitCastExpr>(S))
      {
        switch (P->getCastKind())
        {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr:
        case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase:
          S = P->getSubExpr();
          continue;
        default: break;
        }
      }
      break;
    }
    return S;
  }

  unsigned idOf(const Stmt *S)
  {
    auto &I = StmtId[S];
    if (!I) I = NextId++;
    return I;
  }

  void stmt(const Stmt *S0)
  {
    if (!S0)
    {
      J.value(nullptr);
      return;
    }
    const Stmt *S = strip(S0);
    unsigned Id   = idOf(S);
    // register wrappers with the same id
    for (const Stmt *W = S0; W && W != S;)
    {
      StmtId[W]      = Id;
      const Stmt *N = nullptr;
      for (auto *C : W->children())
      {
        N = C;
        break;
      }
      W = N;
    }
    J.object(
        [&]
        {
          J.attribute("k", S->getStmtClassName());
          J.attribute("i", Id);
          J.attribute("l", lineOf(S->getBeginLoc()));
          if (auto *E = dyn_cast<Expr>(S))
          {
            J.attribute("t", typeStr(E->getType()));
            if (E->isLValue()) J.attribute("lv", true);
          }
          body(S);
        });
  }

  template <class R> void kids(R &&r)
  {
    J.attributeBegin("c");
    J.arrayBegin();
    for (auto *C : r)
      stmt(C);
    J.arrayEnd();
    J.attributeEnd();
  }
  void kid1(const Stmt *S)
  {
    J.attributeBegin("c");
    J.arrayBegin();
    stmt(S);
    J.arrayEnd();
    J.attributeEnd();
  }
  void named(const char *N, const Stmt *S)
  {
    if (!S) return;
    J.attributeBegin(N);
    stmt(S);
    J.attributeEnd();
  }

  void callee(const FunctionDecl *F)
  {
    if (!F) return;
    J.attribute("q", qname(F));
    J.attribute("f", fid(F));
    J.attribute("ft", typeStr(F->getType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
    {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isConst()) J.attribute("cm", true);
      if (M->isStatic()) J.attribute("sm", true);
    }
    if (inRoot(F->getLocation())) J.attribute("own", true);
    if (F->isNoReturn()) J.attribute("noret", true);
    J.attributeArray("pt",
                     [&]
                     {
                       for (auto *P : F->parameters())
                         J.value(typeStr(P->getType()));
                     });
  }

  void body(const Stmt *S)
  {
    if (auto *E = dyn_cast<IntegerLiteral>(S))
    {
      llvm::SmallString<32> B;
      E->getValue().toString(B, 10, E->getType()->isSignedIntegerType());
      J.attribute("v", B.str());
      return;
    }
    if (auto *E = dyn_cast<FloatingLiteral>(S))
    {
      // source spelling keeps the exact decimal value
      auto R = CharSourceRange::getTokenRange(E->getSourceRange());
      R = Lexer::getAsCharRange(SM.getExpansionRange(R), SM, Ctx.getLangOpts());
      auto T = Lexer::getSourceText(R, SM, Ctx.getLangOpts());
      llvm::SmallString<32> B;
      E->getValue().toString(B, 17);
      J.attribute("v", B.str());
      if (!E->getBeginLoc().isMacroID()) J.attribute("txt", T);
      return;
    }
    if (auto *E = dyn_cast<clang::StringLiteral>(S))
    {
      std::string s;
      if (E->getCharByteWidth() == 1) s = E->getString().str();
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      J.attribute("v", s);
      return;
    }
    if (auto *E = dyn_cast<CharacterLiteral>(S))
    {
      J.attribute("v", (int64_t)E->getValue());
      return;
    }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S))
    {
      J.attribute("v", E->getValue());
      return;
    }
    if (auto *E = dyn_cast<DeclRefExpr>(S))
    {
      declRef(E->getDecl());
      return;
    }
    if (auto *E = dyn_cast<MemberExpr>(S))
    {
      declRef(E->getMemberDecl());
      J.attribute("arrow", E->isArrow());
      if (auto *M = dyn_cast<CXXMethodDecl>(E->getMemberDecl()))
        if (M->isVirtual() && !E->hasQualifier()) J.attribute("virt", true);
      kid1(E->getBase());
      return;
    }
    if (auto *E = dyn_cast<UnaryOperator>(S))
    {
      J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode()));
      J.attribute("post", E->isPostfix());
      kid1(E->getSubExpr());
      return;
    }
    if (auto *E = dyn_cast<BinaryOperator>(S))
    {
      J.attribute("op", E->getOpcodeStr());
      kids(E->children());
      return;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S))
    {
      callee(E->getConstructor());
      J.attribute("list", E->isListInitialization());
      kids(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S))
    {
      callee(E->getConstructor());
      return;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S))
    {
      callee(E->getDirectCallee());
      J.attribute("op", getOperatorSpelling(E->getOperator()));
      kids(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S))
    {
      callee(E->getMethodDecl());
      if (auto *ME = dyn_cast_or_null<MemberExpr>(E->getCallee()->IgnoreParens()))
      {
        if (ME->hasQualifier()) J.attribute("qualified", true);
        named("obj", ME->getBase());
        J.attribute("arrow", ME->isArrow());
      }
      else
        named("fnexpr", E->getCallee());
      kids(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CallExpr>(S))
    {
      if (auto *F = E->getDirectCallee())
        callee(F);
      else
        named("fnexpr", E->getCallee());
      kids(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CastExpr>(S))
    {
      J.attribute("ck", E->getCastKindName());
      kid1(E->getSubExpr());
      return;
    }
    if (auto *E = dyn_cast<LambdaExpr>(S))
    {
      const CXXMethodDecl *M = E->getCallOperator();
      J.attribute("f", fid(M));
      J.attributeArray(
          "caps",
          [&]
          {
            auto II = E->capture_init_begin();
            for (auto &C : E->captures())
            {
              const Expr *Init = *II++;
              J.object(
                  [&]
                  {
                    if (C.capturesThis())
                      J.attribute("this", true);
                    else if (C.capturesVariable())
                    {
                      J.attribute("n", C.getCapturedVar()->getNameAsString());
                      J.attribute("t", typeStr(C.getCapturedVar()->getType()));
                      if (isLocal(C.getCapturedVar()))
                        J.attribute("d", "L" + std::to_string(localId(
                                                   C.getCapturedVar())));
                    }
                    J.attribute("ref", C.getCaptureKind() == LCK_ByRef ||
                                           C.getCaptureKind() == LCK_This);
                    if (Init && C.capturesVariable() &&
                        cast<VarDecl>(C.getCapturedVar())->isInitCapture())
                    {
                      J.attributeBegin("init");
                      stmt(Init);
                      J.attributeEnd();
                    }
                  });
            }
          });
      PendingLambdas.push_back(M);
      return;
    }
    if (auto *E = dyn_cast<InitListExpr>(S))
    {
      kids(E->inits());
      return;
    }
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S))
    {
      // do not share ids between uses of one default argument
      J.attribute("deflt", true);
      J.attributeBegin("c");
      J.arrayBegin();
      auto Saved = StmtId;
      stmt(E->getExpr());
      StmtId = Saved;
      J.arrayEnd();
      J.attributeEnd();
      return;
    }
    if (isa<CXXDefaultInitExpr>(S)) return;
    if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S))
    {
      kid1(E->getSubExpr());
      return;
    }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S))
    {
      J.attribute("trait", (int)E->getKind());
      J.attribute("at", typeStr(E->getTypeOfArgument()));
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx))
        J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
      return;
    }
    if (auto *D = dyn_cast<DeclStmt>(S))
    {
      J.attributeBegin("decls");
      J.arrayBegin();
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) varDecl(V);
      J.arrayEnd();
      J.attributeEnd();
      return;
    }
    if (auto *I = dyn_cast<IfStmt>(S))
    {
      J.attribute("constexpr", I->isConstexpr());
      named("init", I->getInit());
      if (auto *CV = I->getConditionVariableDeclStmt()) named("cv", CV);
      named("cond", I->getCond());
      named("then", I->getThen());
      named("else", I->getElse());
      return;
    }
    if (auto *W = dyn_cast<WhileStmt>(S))
    {
      named("cond", W->getCond());
      named("body", W->getBody());
      return;
    }
    if (auto *W = dyn_cast<DoStmt>(S))
    {
      named("cond", W->getCond());
      named("body", W->getBody());
      return;
    }
    if (auto *W = dyn_cast<ForStmt>(S))
    {
      named("init", W->getInit());
      named("cond", W->getCond());
      named("inc", W->getInc());
      named("body", W->getBody());
      return;
    }
    if (auto *W = dyn_cast<CXXForRangeStmt>(S))
    {
      named("range", W->getRangeInit());
      named("rangestmt", W->getRangeStmt());
      named("beginstmt", W->getBeginStmt());
      named("endstmt", W->getEndStmt());
      named("rcond", W->getCond());
      named("rinc", W->getInc());
      J.attributeBegin("var");
      varDecl(W->getLoopVariable());
      J.attributeEnd();
      named("body", W->getBody());
      return;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S))
    {
      named("cond", W->getCond());
      named("body", W->getBody());
      return;
    }
    if (auto *W = dyn_cast<CaseStmt>(S))
    {
      named("val", W->getLHS());
      named("body", W->getSubStmt());
      return;
    }
    if (auto *W = dyn_cast<DefaultStmt>(S))
    {
      named("body", W->getSubStmt());
      return;
    }
    if (auto *W = dyn_cast<CXXCatchStmt>(S))
    {
      J.attribute("ct", typeStr(W->getCaughtType()));
      if (W->getExceptionDecl())
        J.attribute("cd", "L" + std::to_string(localId(W->getExceptionDecl())));
      named("body", W->getHandlerBlock());
      return;
    }
    if (auto *W = dyn_cast<CXXTryStmt>(S))
    {
      named("body", W->getTryBlock());
      J.attributeBegin("handlers");
      J.arrayBegin();
      for (unsigned i = 0; i < W->getNumHandlers(); i++)
        stmt(W->getHandler(i));
      J.arrayEnd();
      J.attributeEnd();
      return;
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S))
    {
      J.attribute("nt", typeStr(E->getAllocatedType()));
      kids(E->children());
      return;
    }
    if (auto *E = dyn_cast<CXXTypeidExpr>(S))
    {
      (void)E;
      return;
    }
    // generic
    kids(S->children());
  }

  void cfg(const FunctionDecl *F, Stmt *B)
  {
    CFG::BuildOptions O;
    O.AddEHEdges             = false;
    O.AddImplicitDtors       = false;
    O.AddInitializers        = true;
    O.PruneTriviallyFalseEdges = false;
    O.AddCXXDefaultInitExprInCtors = false;
    O.setAllAlwaysAdd();
    auto G = CFG::buildCFG(F, B, &Ctx, O);
    if (!G) return;
    J.attributeObject(
        "cfg",
        [&]
        {
          J.attribute("entry", G->getEntry().getBlockID());
          J.attribute("exit", G->getExit().getBlockID());
          J.attributeArray(
              "blocks",
              [&]
              {
                for (auto *Bk : *G)
                  J.object(
                      [&]
                      {
                        J.attribute("id", Bk->getBlockID());
                        J.attributeArray(
                            "e",
                            [&]
                            {
                              for (auto &El : *Bk)
                              {
                                if (auto SE = El.getAs<CFGStmt>())
                                {
                                  auto It = StmtId.find(SE->getStmt());
                                  if (It != StmtId.end()) J.value(It->second);
                                }
                              }
                            });
                        if (auto *T = Bk->getTerminatorStmt())
                        {
                          auto It = StmtId.find(T);
                          if (It != StmtId.end()) J.attribute("term", It->second);
                          J.attribute("tk", T->getStmtClassName());
                        }
                        if (auto *C = Bk->getTerminatorCondition(false))
                        {
                          auto It = StmtId.find(C);
                          if (It != StmtId.end()) J.attribute("cond", It->second);
                        }
                        if (auto *L = Bk->getLabel())
                        {
                          auto It = StmtId.find(L);
                          if (It != StmtId.end()) J.attribute("label", It->second);
                        }
                        if (Bk->hasNoReturnElement()) J.attribute("noret", true);
                        J.attributeArray("s",
                                         [&]
                                         {
                                           for (auto &Sc : Bk->succs())
                                           {
                                             const CFGBlock *X = Sc;
                                             if (!X) X = Sc.getPossiblyUnreachableBlock();
                                             if (X)
                                               J.value(X->getBlockID());
                                             else
                                               J.value(nullptr);
                                           }
                                         });
                      });
              });
        });
  }

  void function(const FunctionDecl *F)
  {
    const FunctionDecl *Def = F;
    if (!Done.insert(F).second) return;
    StmtId.clear();
    NextId = 1;
    if (!F->getParentFunctionOrMethod())
    {
      LocalId.clear();
      NextLocal = 1;
    }
    J.object(
        [&]
        {
          J.attribute("f", fid(F));
          J.attribute("q", qname(F));
          J.attribute("n", F->getNameAsString());
          J.attribute("file", fileOf(F->getLocation()));
          J.attribute("l", lineOf(F->getLocation()));
          J.attribute("el", lineOf(F->getEndLoc()));
          J.attribute("t", typeStr(F->getType()));
          J.attribute("rt", typeStr(F->getReturnType()));
          J.attribute("def", F->doesThisDeclarationHaveABody());
          if (F->isTemplateInstantiation()) J.attribute("inst", true);
          if (F->isDefaulted()) J.attribute("defaulted", true);
          if (F->isImplicit()) J.attribute("implicit", true);
          if (auto *M = dyn_cast<CXXMethodDecl>(F))
          {
            J.attribute("cls", M->getParent()->isLambda() ? std::string("<lambda>")
                                                          : qname(M->getParent()));
            J.attribute("const", M->isConst());
            J.attribute("virt", M->isVirtual());
            J.attribute("pure", M->isPureVirtual());
            J.attribute("sm", M->isStatic());
            J.attribute("access", (int)M->getAccess());
            if (M->size_overridden_methods())
              J.attributeArray("ovr",
                               [&]
                               {
                                 for (auto *O : M->overridden_methods())
                                   J.value(fid(O));
                               });
            if (M->getParent()->isLambda())
              J.attribute("lambda", true);
          }
          if (isa<CXXConstructorDecl>(F)) J.attribute("ctor", true);
          if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
          J.attributeArray("params",
                           [&]
                           {
                             for (auto *P : F->parameters())
                               J.object(
                                   [&]
                                   {
                                     J.attribute("n", P->getNameAsString());
                                     J.attribute("t", typeStr(P->getType()));
                                     J.attribute(
                                         "d", "L" + std::to_string(localId(P)));
                                     if (P->hasDefaultArg() &&
                                         !P->hasUninstantiatedDefaultArg() &&
                                         !P->hasUnparsedDefaultArg())
                                     {
                                       J.attributeBegin("def");
                                       stmt(P->getInit());
                                       J.attributeEnd();
                                     }
                                   });
                           });
          if (F->doesThisDeclarationHaveABody())
          {
            if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
            {
              J.attributeArray(
                  "inits",
                  [&]
                  {
                    for (auto *I : CD->inits())
                      J.object(
                          [&]
                          {
                            if (I->isAnyMemberInitializer())
                            {
                              J.attribute("n", I->getAnyMember()->getNameAsString());
                              J.attribute("d", usr(I->getAnyMember()));
                            }
                            else
                              J.attribute("base", typeStr(QualType(
                                                      I->getBaseClass(), 0)));
                            J.attribute("written", I->isWritten());
                            J.attributeBegin("init");
                            stmt(I->getInit());
                            J.attributeEnd();
                          });
                  });
            }
            J.attributeBegin("body");
            stmt(F->getBody());
            J.attributeEnd();
            cfg(Def, F->getBody());
          }
        });
    // lambdas found in this function, printed after it (local ids shared)
    while (!PendingLambdas.empty())
    {
      auto *L = PendingLambdas.back();
      PendingLambdas.pop_back();
      function(L);
    }
  }

  void record(const CXXRecordDecl *R)
  {
    if (!Done.insert(R).second) return;
    J.object(
        [&]
        {
          J.attribute("q", qname(R));
          J.attribute("u", usr(R));
          J.attribute("file", fileOf(R->getLocation()));
          J.attribute("l", lineOf(R->getLocation()));
          if (R->isAbstract()) J.attribute("abstract", true);
          J.attributeArray("bases",
                           [&]
                           {
                             for (auto &B : R->bases())
                               J.value(typeStr(B.getType()));
                           });
          J.attributeArray(
              "fields",
              [&]
              {
                for (auto *F : R->fields())
                  J.object(
                      [&]
                      {
                        J.attribute("n", F->getNameAsString());
                        J.attribute("d", usr(F));
                        J.attribute("t", typeStr(F->getType()));
                        J.attribute("l", lineOf(F->getLocation()));
                        J.attribute("mutable", F->isMutable());
                        J.attribute("access", (int)F->getAccess());
                        if (F->getType()->isScalarType())
                          J.attribute("scalar", true);
                        if (F->hasInClassInitializer() && F->getInClassInitializer())
                        {
                          J.attributeBegin("init");
                          stmt(F->getInClassInitializer());
                          J.attributeEnd();
                        }
                      });
              });
          J.attributeArray("statics",
                           [&]
                           {
                             for (auto *D : R->decls())
                               if (auto *V = dyn_cast<VarDecl>(D))
                                 varDecl(V);
                           });
        });
    PendingLambdas.clear();
  }
  void enumd(const EnumDecl *E)
  {
    if (!Done.insert(E).second) return;
    J.object(
        [&]
        {
          J.attribute("q", qname(E));
          J.attribute("u", usr(E));
          J.attribute("file", fileOf(E->getLocation()));
          J.attribute("l", lineOf(E->getLocation()));
          J.attribute("scoped", E->isScoped());
          J.attributeArray("e",
                           [&]
                           {
                             for (auto *C : E->enumerators())
                               J.object(
                                   [&]
                                   {
                                     J.attribute("n", C->getNameAsString());
                                     J.attribute("d", usr(C));
                                     J.attribute(
                                         "v",
                                         (int64_t)C->getInitVal().getExtValue());
                                   });
                           });
        });
  }
};

struct Collector : RecursiveASTVisitor<Collector>
{
  Dumper &D;
  std::vector<const FunctionDecl *> Fs;
  std::vector<const CXXRecordDecl *> Rs;
  std::vector<const EnumDecl *> Es;
  std::vector<const VarDecl *> Vs;
  Collector(Dumper &DD) : D(DD) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (F->isDependentContext()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    Fs.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition() || R->isLambda() ||
        R->isDependentContext())
      return true;
    if (!D.inRoot(R->getLocation())) return true;
    Rs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E)
  {
    if (E->isThisDeclarationADefinition() && D.inRoot(E->getLocation()))
      Es.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V)
  {
    if (V->isLocalVarDeclOrParm() || V->isStaticDataMember()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    Vs.push_back(V);
    return true;
  }
};

struct Cons : ASTConsumer
{
  void HandleTranslationUnit(ASTContext &C) override
  {
    if (C.getDiagnostics().hasErrorOccurred())
    {
      llvm::errs() << "astx: errors in TU\n";
      std::exit(3);
    }
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    json::OStream J(OS);
    Dumper D(C, J);
    Collector Co(D);
    Co.TraverseDecl(C.getTranslationUnitDecl());
    J.object(
        [&]
        {
          J.attributeArray("enums",
                           [&]
                           {
                             for (auto *E : Co.Es)
                               D.enumd(E);
                           });
          J.attributeArray("records",
                           [&]
                           {
                             for (auto *R : Co.Rs)
                               D.record(R);
                           });
          J.attributeArray("globals",
                           [&]
                           {
                             for (auto *V : Co.Vs)
                             {
                               if (!V->isThisDeclarationADefinition()) continue;
                               J.object(
                                   [&]
                                   {
                                     J.attribute("q", D.qname(V));
                                     J.attribute("file", D.fileOf(V->getLocation()));
                                     J.attribute("const",
                                                 V->getType().isConstQualified());
                                     J.attributeBegin("v");
                                     D.varDecl(V);
                                     J.attributeEnd();
                                   });
                               D.PendingLambdas.clear();
                             }
                           });
          J.attributeArray("functions",
                           [&]
                           {
                             for (auto *F : Co.Fs)
                               D.function(F);
                           });
        });
  }
};

struct Act : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  {
    return std::make_unique<Cons>();
  }
};
} // namespace

int main(int argc, const char **argv)
{
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P)
  {
    llvm::errs() << P.takeError();
    return 2;
  }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
