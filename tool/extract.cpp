// mltk-extract: dump the resolved program (instantiated templates, resolved
// callees, clang CFGs, record layouts) of everything defined under a source
// root as JSON facts.  No code of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root, Out;
static int64_t i64(const llvm::APSInt &v) { if (v.isUnsigned()) return v.getActiveBits() <= 63 ? (int64_t)v.getZExtValue() : INT64_MAX; return v.getSignificantBits() <= 64 ? v.getSExtValue() : INT64_MAX; }

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  json::OStream &J;
  std::map<const Decl *, int> declIds;
  std::set<std::string> doneF, doneR;
  std::vector<const FunctionDecl *> queue;
  std::vector<std::string> uninst;
  Dumper(ASTContext &C, json::OStream &J) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), MC(C.createMangleContext()), J(J) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryForID(SM.getFileID(L));
    if (!FE) return "";
    StringRef n = FE->tryGetRealPathName();
    return n.str();
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(Root, 0) == 0;
  }
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.rfind(Root, 0) == 0) { f = f.substr(Root.size()); while (!f.empty() && f[0] == '/') f = f.substr(1); }
    return f;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1; declIds[D] = n; return n;
  }
  std::string key(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream os(s);
    if (F->isDependentContext() || F->getType()->isDependentType()) { os << "dep:" << F->getQualifiedNameAsString() << "@" << line(F->getLocation()); return os.str(); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        os << "lambda@" << rel(F->getLocation()) << ":" << line(F->getLocation()) << ":" << col(F->getLocation());
        // distinguish enclosing instantiations
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) os << "#" << key(cast<FunctionDecl>(DC));
        if (M->isFunctionTemplateSpecialization()) os << "<" << ty(M->getType()) << ">";
        return os.str();
      }
    }
    if (auto *X = dyn_cast<CXXConstructorDecl>(F)) { MC->mangleName(GlobalDecl(X, Ctor_Complete), os); return os.str(); }
    if (auto *X = dyn_cast<CXXDestructorDecl>(F)) { MC->mangleName(GlobalDecl(X, Dtor_Complete), os); return os.str(); }
    if (MC->shouldMangleDeclName(F)) { MC->mangleName(GlobalDecl(F), os); return os.str(); }
    os << F->getNameAsString();
    return os.str();
  }
  std::string rname(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "lambda@" + rel(R->getLocation()) + ":" + std::to_string(line(R->getLocation())) + ":" + std::to_string(col(R->getLocation()));
    return ty(C.getTypeDeclType(R));
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP); return os.str();
  }

  // ---- function refs ----
  void fnref(const FunctionDecl *F) {
    J.attribute("fk", key(F));
    J.attribute("fq", qname(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("rec", rname(M->getParent()));
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isStatic()) J.attribute("stat", true);
      if (M->isConst()) J.attribute("cst", true);
      if (auto *X = dyn_cast<CXXConstructorDecl>(F)) {
        if (X->isCopyConstructor()) J.attribute("ck", "copy");
        else if (X->isMoveConstructor()) J.attribute("ck", "move");
      } else if (M->isCopyAssignmentOperator()) J.attribute("ck", "copyassign");
      else if (M->isMoveAssignmentOperator()) J.attribute("ck", "moveassign");
    }
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def && inRoot(Def->getLocation())) { J.attribute("repo", true); queue.push_back(Def); }
    else if (F->isDefaulted() && inRoot(F->getLocation())) J.attribute("dflt", true);
    if (F->isNoReturn()) J.attribute("noreturn", true);
    // parameter passing kinds: v value, r const ref, R mutable ref, p const ptr, P mutable ptr
    std::string pk;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType()) pk += T->getPointeeType().isConstQualified() ? 'r' : 'R';
      else if (T->isPointerType()) pk += T->getPointeeType().isConstQualified() ? 'p' : 'P';
      else pk += 'v';
    }
    J.attribute("pk", pk);
  }

  std::map<const Stmt *, int> sid; std::vector<const Stmt *> order;
  int idOf(const Stmt *S) {
    auto it = sid.find(S); if (it != sid.end()) return it->second;
    int n = order.size(); sid[S] = n; order.push_back(S); return n;
  }
  void number(const Stmt *S) {
    if (!S) return;
    if (sid.count(S)) return;
    idOf(S);
    if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) { number(DA->getExpr()); return; }
    if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) { number(DI->getExpr()); return; }
    if (auto *L = dyn_cast<LambdaExpr>(S)) { for (auto *I : L->capture_inits()) number(I); return; }
    if (auto *IL = dyn_cast<InitListExpr>(S)) { if (IL->isSemanticForm() == false && IL->getSemanticForm()) {} }
    if (auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
      number(RF->getInit()); number(RF->getRangeStmt()); number(RF->getBeginStmt()); number(RF->getEndStmt());
      number(RF->getCond()); number(RF->getInc()); number(RF->getLoopVarStmt()); number(RF->getBody()); return;
    }
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) if (V->getInit()) number(V->getInit());
      return;
    }
    if (auto *PO = dyn_cast<PseudoObjectExpr>(S)) { (void)PO; }
    if (auto *OV = dyn_cast<OpaqueValueExpr>(S)) { number(OV->getSourceExpr()); return; }
    for (const Stmt *K : S->children()) number(K);
  }
  void kids(const Stmt *S) {
    J.attributeArray("k", [&] {
      auto put = [&](const Stmt *K) { if (K) J.value(idOf(K)); else J.value(-1); };
      if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) { put(DA->getExpr()); return; }
      if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) { put(DI->getExpr()); return; }
      if (auto *L = dyn_cast<LambdaExpr>(S)) { for (auto *I : L->capture_inits()) put(I); return; }
      if (auto *RF = dyn_cast<CXXForRangeStmt>(S)) { put(RF->getInit()); put(RF->getRangeStmt()); put(RF->getBeginStmt()); put(RF->getEndStmt()); put(RF->getCond()); put(RF->getInc()); put(RF->getLoopVarStmt()); put(RF->getBody()); return; }
      if (auto *F = dyn_cast<ForStmt>(S)) { put(F->getInit()); put(F->getCond()); put(F->getInc()); put(F->getBody()); return; }
      if (auto *W = dyn_cast<WhileStmt>(S)) { put(W->getCond()); put(W->getBody()); return; }
      if (auto *W = dyn_cast<DoStmt>(S)) { put(W->getCond()); put(W->getBody()); return; }
      if (auto *I = dyn_cast<IfStmt>(S)) { put(I->getCond()); put(I->getThen()); put(I->getElse()); return; }
      if (auto *DS = dyn_cast<DeclStmt>(S)) { for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) if (V->getInit()) put(V->getInit()); return; }
      if (auto *OV = dyn_cast<OpaqueValueExpr>(S)) { put(OV->getSourceExpr()); return; }
      for (const Stmt *K : S->children()) put(K);
    });
  }
  void vardecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("id", did(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", ty(V->getType()));
      J.attribute("l", line(V->getLocation()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->getInit()) { J.attribute("init", idOf(V->getInit())); J.attribute("is", V->getInitStyle() == VarDecl::CInit ? "c" : "x"); }
    });
  }
  void dref(const ValueDecl *D) {
    J.attribute("n", D->getNameAsString());
    J.attribute("id", did(D));
    if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "fn"); fnref(F); }
    else if (auto *P = dyn_cast<ParmVarDecl>(D)) { (void)P; J.attribute("dk", "parm"); }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      J.attribute("dk", V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "var") : "global");
      if (!V->isLocalVarDecl()) { J.attribute("fq", qname(V)); if (inRoot(V->getLocation())) J.attribute("repo", true); }
    }
    else if (isa<EnumConstantDecl>(D)) { J.attribute("dk", "enum"); J.attribute("v", i64(cast<EnumConstantDecl>(D)->getInitVal())); J.attribute("fq", qname(D)); }
    else if (isa<FieldDecl>(D)) J.attribute("dk", "field");
    else if (auto *B = dyn_cast<BindingDecl>(D)) { J.attribute("dk", "binding"); (void)B; }
    else J.attribute("dk", D->getDeclKindName());
  }
  void node(const Stmt *S) {
    J.object([&] {
      J.attribute("c", S->getStmtClassName());
      J.attribute("l", line(S->getBeginLoc()));
      if (S->getBeginLoc().isMacroID()) J.attribute("mac", Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts()).str());
      kids(S);
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", ty(E->getType()));
        if (E->isLValue()) J.attribute("lv", true);
        else if (E->isXValue()) J.attribute("xv", true);
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
          Expr::EvalResult R; if (E->isPRValue() && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && true) J.attribute("ice", i64(R.Val.getInt()));
        }
      }
      if (auto *D = dyn_cast<DeclRefExpr>(S)) dref(D->getDecl());
      else if (auto *M = dyn_cast<MemberExpr>(S)) {
        dref(M->getMemberDecl());
        if (M->isArrow()) J.attribute("arrow", true);
        if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) { if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) { if (!R->isAnonymousStructOrUnion()) J.attribute("rec", rname(R)); if (inRoot(F->getLocation())) J.attribute("repo", true); } }
      } else if (auto *CE = dyn_cast<CallExpr>(S)) {
        if (auto *F = CE->getDirectCallee()) {
          J.attributeObject("f", [&] { fnref(F); });
          if (auto *ME = dyn_cast_or_null<MemberExpr>(CE->getCallee()->IgnoreParenImpCasts())) if (ME->hasQualifier()) J.attribute("nonvirt", true);
        }
        J.attribute("na", (int)CE->getNumArgs());
        if (isa<CXXMemberCallExpr>(CE)) J.attribute("mc", true);
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(CE)) { J.attribute("op", getOperatorSpelling(O->getOperator())); }
        J.attributeArray("a", [&] { for (auto *A : CE->arguments()) J.value(idOf(A)); });
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) if (auto *O = MC->getImplicitObjectArgument()) J.attribute("o", idOf(O));
      } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
        J.attributeObject("f", [&] { fnref(X->getConstructor()); });
        J.attributeArray("a", [&] { for (auto *A : X->arguments()) J.value(idOf(A)); });
        if (X->isElidable()) J.attribute("elide", true);
      } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
        J.attributeObject("f", [&] { fnref(X->getConstructor()); });
      } else if (auto *N = dyn_cast<CXXNewExpr>(S)) { J.attribute("at", ty(N->getAllocatedType())); if (N->isArray()) { J.attribute("arr", true); if (N->getArraySize()) J.attribute("asz", idOf(*N->getArraySize())); } if (N->getInitializer()) J.attribute("init", idOf(N->getInitializer())); }
      else if (auto *D = dyn_cast<CXXDeleteExpr>(S)) { if (D->isArrayForm()) J.attribute("arr", true); }
      else if (auto *B = dyn_cast<BinaryOperator>(S)) { J.attribute("op", B->getOpcodeStr().str()); if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) { J.attribute("clt", ty(CA->getComputationLHSType())); J.attribute("crt", ty(CA->getComputationResultType())); } }
      else if (auto *U = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()).str()); if (U->isPostfix()) J.attribute("post", true); }
      else if (auto *I = dyn_cast<IntegerLiteral>(S)) { llvm::APInt v = I->getValue(); J.attribute("v", v.getActiveBits() <= 63 ? (int64_t)v.getZExtValue() : (int64_t)INT64_MAX); }
      else if (auto *F = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<32> b; F->getValue().toString(b); J.attribute("v", b.str()); }
      else if (auto *X = dyn_cast<StringLiteral>(S)) { if (X->getCharByteWidth() == 1) { std::string v = X->getString().str(); J.attribute("v", json::isUTF8(v) ? v : json::fixUTF8(v)); } }
      else if (auto *X = dyn_cast<CharacterLiteral>(S)) J.attribute("v", (int64_t)X->getValue());
      else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) J.attribute("v", X->getValue());
      else if (auto *X = dyn_cast<CastExpr>(S)) { J.attribute("ck", X->getCastKindName()); if (isa<ImplicitCastExpr>(X)) { if (cast<ImplicitCastExpr>(X)->isPartOfExplicitCast()) J.attribute("pex", true); } if (auto *CF = X->getConversionFunction()) if (auto *FD = dyn_cast<FunctionDecl>(CF)) J.attributeObject("f", [&] { fnref(FD); }); }
      else if (auto *L = dyn_cast<LambdaExpr>(S)) {
        auto *Op = L->getCallOperator();
        if (L->isGenericLambda()) {
          J.attribute("generic", true);
          J.attributeArray("specs", [&] { if (auto *FT = Op->getDescribedFunctionTemplate()) for (auto *Sp : FT->specializations()) { J.value(key(Sp)); const FunctionDecl *Def; if (Sp->isDefined(Def)) queue.push_back(Def); } });
        } else { J.attribute("lk", key(Op)); queue.push_back(Op); }
        J.attributeArray("caps", [&] {
          for (auto &Cp : L->captures()) J.object([&] {
            if (Cp.capturesThis()) { J.attribute("this", true); J.attribute("ref", Cp.getCaptureKind() == LCK_This); }
            else if (Cp.capturesVariable()) { J.attribute("n", Cp.getCapturedVar()->getNameAsString()); J.attribute("id", did(Cp.getCapturedVar())); J.attribute("ref", Cp.getCaptureKind() == LCK_ByRef); }
          });
        });
      } else if (auto *D = dyn_cast<DeclStmt>(S)) {
        J.attributeArray("d", [&] { for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) vardecl(V); });
      } else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) { J.attribute("lvid", did(R->getLoopVariable())); }
      else if (auto *X = dyn_cast<CaseStmt>(S)) { if (X->getLHS()) { Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) J.attribute("v", i64(R.Val.getInt())); } }
      else if (auto *X = dyn_cast<CXXCatchStmt>(S)) { J.attribute("ct", ty(X->getCaughtType())); if (X->getExceptionDecl()) J.attribute("id", did(X->getExceptionDecl())); }
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { J.attribute("tk", (int)X->getKind()); }
      else if (auto *X = dyn_cast<SwitchStmt>(S)) { J.attribute("cond", idOf(X->getCond())); J.attribute("ct", ty(X->getCond()->IgnoreParenImpCasts()->getType())); }
      else if (auto *X = dyn_cast<GotoStmt>(S)) { J.attribute("lbl", X->getLabel()->getNameAsString()); }
    });
  }

  void fn(const FunctionDecl *F) {
    std::string k = key(F);
    if (!doneF.insert(k).second) return;
    sid.clear(); order.clear();
    Stmt *Body = F->getBody();
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddCXXDefaultInitExprInCtors = true; BO.AddCXXNewAllocator = false; BO.PruneTriviallyFalseEdges = true; BO.AddScopes = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, Body, &C, BO);
    if (auto *X = dyn_cast<CXXConstructorDecl>(F)) for (auto *I : X->inits()) number(I->getInit());
    number(Body);
    J.object([&] {
      J.attribute("key", k); J.attribute("q", qname(F)); J.attribute("n", F->getNameAsString());
      J.attribute("file", rel(F->getLocation())); J.attribute("line", line(F->getLocation()));
      J.attribute("endline", line(Body->getEndLoc()));
      J.attribute("ret", ty(F->getReturnType()));
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("rec", rname(M->getParent())); J.attribute("static", M->isStatic()); J.attribute("const", M->isConst()); J.attribute("virt", M->isVirtual());
        J.attribute("access", (int)M->getAccess());
        J.attributeArray("ovr", [&] { std::function<void(const CXXMethodDecl *)> rec = [&](const CXXMethodDecl *X) { for (auto *O : X->overridden_methods()) { J.value(key(O)); rec(O); } }; rec(M); });
        if (M->getParent()->isLambda()) {
          J.attribute("lambda", true);
          const DeclContext *DC = M->getParent()->getDeclContext(); while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
          if (DC) J.attribute("parent", key(cast<FunctionDecl>(DC)));
        }
      }
      if (isa<CXXConstructorDecl>(F)) { J.attribute("kind", "ctor"); auto *X = cast<CXXConstructorDecl>(F); if (X->isCopyConstructor()) J.attribute("ck", "copy"); else if (X->isMoveConstructor()) J.attribute("ck", "move"); if (X->isDelegatingConstructor()) J.attribute("deleg", true); }
      else if (isa<CXXDestructorDecl>(F)) J.attribute("kind", "dtor");
      else if (isa<CXXConversionDecl>(F)) J.attribute("kind", "conv");
      else if (isa<CXXMethodDecl>(F)) { J.attribute("kind", "method"); auto *M = cast<CXXMethodDecl>(F); if (M->isCopyAssignmentOperator()) J.attribute("ck", "copyassign"); else if (M->isMoveAssignmentOperator()) J.attribute("ck", "moveassign"); }
      else J.attribute("kind", "func");
      if (F->isDefaulted()) J.attribute("defaulted", true);
      if (F->isImplicit()) J.attribute("implicit", true);
      if (F->isInlineSpecified() || F->isInlined()) J.attribute("inl", true);
      if (F->getTemplateInstantiationPattern() || F->isTemplateInstantiation()) J.attribute("tmpl", true);
      if (F->getStorageClass() == SC_Static) J.attribute("sstatic", true);
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) J.object([&] { J.attribute("id", did(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", ty(P->getType())); if (P->hasDefaultArg()) J.attribute("def", true); }); });
      J.attribute("body", idOf(Body));
      if (auto *X = dyn_cast<CXXConstructorDecl>(F)) J.attributeArray("inits", [&] {
        for (auto *I : X->inits()) J.object([&] {
          if (I->isAnyMemberInitializer()) { J.attribute("field", I->getAnyMember()->getNameAsString()); J.attribute("id", did(I->getAnyMember())); }
          else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
          else J.attribute("deleg", true);
          J.attribute("e", idOf(I->getInit())); J.attribute("written", I->isWritten());
        });
      });
      // CFG (may number additional synthesized statements)
      if (G) {
        for (auto *B : *G) for (auto &El : *B) if (auto CS = El.getAs<CFGStmt>()) number(CS->getStmt());
        J.attributeObject("cfg", [&] {
          J.attribute("entry", (int)G->getEntry().getBlockID()); J.attribute("exit", (int)G->getExit().getBlockID());
          J.attributeArray("b", [&] {
            for (auto *B : *G) J.object([&] {
              J.attribute("id", (int)B->getBlockID());
              J.attributeArray("e", [&] {
                for (auto &El : *B) {
                  if (auto CS = El.getAs<CFGStmt>()) J.value(idOf(CS->getStmt()));
                  else if (auto CI = El.getAs<CFGInitializer>()) { auto *I = CI->getInitializer(); J.object([&] { if (I->isAnyMemberInitializer()) J.attribute("field", I->getAnyMember()->getNameAsString()); else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0))); J.attribute("e", idOf(I->getInit())); }); }
                  else if (auto AD = El.getAs<CFGAutomaticObjDtor>()) { J.object([&] { J.attribute("dtor", did(AD->getVarDecl())); J.attribute("t", ty(AD->getVarDecl()->getType())); }); }
                  else if (auto DD = El.getAs<CFGDeleteDtor>()) { J.object([&] { J.attribute("deldtor", idOf(DD->getDeleteExpr())); }); }
                }
              });
              if (auto *T = B->getTerminatorStmt()) { number(T); J.attribute("term", idOf(T)); if (auto *TC = B->getTerminatorCondition(false)) { number(TC); J.attribute("cond", idOf(TC)); } }
              if (auto *L = B->getLabel()) { number(L); J.attribute("label", idOf(L)); }
              if (auto *LT = B->getLoopTarget()) { number(LT); J.attribute("loopback", idOf(LT)); }
              if (B->hasNoReturnElement()) J.attribute("noret", true);
              J.attributeArray("s", [&] { for (auto &S : B->succs()) { if (S.getReachableBlock()) J.value((int)S.getReachableBlock()->getBlockID()); else J.value(-1); } });
            });
          });
        });
      }
      J.attributeArray("nodes", [&] { for (size_t i = 0; i < order.size(); ++i) { number(order[i]); node(order[i]); } });
    });
  }

  void record(const CXXRecordDecl *R) {
    SourceLocation RL = R->getLocation();
    if (auto *Pat = R->getTemplateInstantiationPattern()) RL = Pat->getLocation();
    if (!R->isCompleteDefinition() || R->isDependentContext() || !inRoot(RL)) return;
    std::string n = rname(R);
    if (!doneR.insert(n).second) return;
    J.object([&] {
      J.attribute("name", n); J.attribute("file", rel(RL)); J.attribute("line", line(RL));
      J.attribute("lambda", R->isLambda());
      J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(ty(B.getType())); });
      J.attributeArray("fields", [&] { for (auto *F : R->fields()) J.object([&] {
        J.attribute("n", F->getNameAsString()); J.attribute("id", did(F)); J.attribute("t", ty(F->getType())); J.attribute("l", line(F->getLocation())); J.attribute("init", F->hasInClassInitializer()); J.attribute("access", (int)F->getAccess());
        if (F->hasInClassInitializer() && F->getInClassInitializer() && F->getType()->isScalarType()) {
          const Expr *IE = F->getInClassInitializer()->IgnoreParens();
          if (auto *IL = dyn_cast<InitListExpr>(IE)) IE = IL->getNumInits() == 1 ? IL->getInit(0) : nullptr;
          Expr::EvalResult ER;
          if (!IE) J.attribute("iv", "0");
          else if (!IE->isValueDependent() && IE->EvaluateAsRValue(ER, F->getASTContext()) && !ER.HasSideEffects) {
            if (ER.Val.isInt()) { SmallString<32> sb; ER.Val.getInt().toString(sb, 10); J.attribute("iv", sb.str()); }
            else if (ER.Val.isFloat()) { SmallString<40> sb; ER.Val.getFloat().toString(sb, 17, 40); J.attribute("iv", sb.str()); } } }
        QualType T = F->getType(); J.attribute("pod", T->isScalarType() || T->isArrayType()); J.attribute("const", T.isConstQualified());
        if (auto *CR = T->getAsCXXRecordDecl()) { J.attribute("trivdef", CR->hasDefinition() && CR->hasTrivialDefaultConstructor()); } }); });
      J.attribute("user_dc", R->hasUserProvidedDefaultConstructor());
      J.attribute("abstract", R->isAbstract());
      J.attribute("polymorphic", R->isPolymorphic());
      J.attribute("user_cc", R->hasUserDeclaredCopyConstructor()); J.attribute("user_ca", R->hasUserDeclaredCopyAssignment());
      J.attribute("user_mc", R->hasUserDeclaredMoveConstructor()); J.attribute("user_ma", R->hasUserDeclaredMoveAssignment()); J.attribute("user_d", R->hasUserDeclaredDestructor());
      auto has = [&](auto pred) { for (auto *X : R->ctors()) if (pred(X)) return true; return false; };
      J.attribute("cc_deleted", has([](const CXXConstructorDecl *X) { return X->isCopyConstructor() && X->isDeleted(); }));
      bool cad = false, vd = false; for (auto *M : R->methods()) { if (M->isCopyAssignmentOperator() && M->isDeleted()) cad = true; }
      if (auto *D = R->getDestructor()) vd = D->isVirtual();
      J.attribute("ca_deleted", cad); J.attribute("virt_dtor", vd);
      J.attribute("defctor_deleted", !R->hasDefaultConstructor());
      J.attribute("implicit_defctor", R->hasDefaultConstructor() && !R->hasUserProvidedDefaultConstructor());
      J.attributeArray("methods", [&] { for (auto *M : R->methods()) J.object([&] { J.attribute("n", M->getNameAsString()); J.attribute("key", key(M)); J.attribute("access", (int)M->getAccess()); J.attribute("virt", M->isVirtual()); J.attribute("pure", M->isPureVirtual()); J.attribute("implicit", M->isImplicit()); J.attribute("deleted", M->isDeleted()); J.attribute("defaulted", M->isDefaulted()); J.attribute("ret", ty(M->getReturnType())); J.attributeArray("ovr", [&] { for (auto *O : M->overridden_methods()) J.value(key(O)); }); }); });
    });
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D; std::vector<const FunctionDecl *> fs; std::vector<const CXXRecordDecl *> rs; std::vector<const EnumDecl *> es; std::vector<const VarDecl *> gs; std::vector<const FunctionTemplateDecl *> fts; std::vector<const ClassTemplateDecl *> cts;
  Collect(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (F->isThisDeclarationADefinition() && !F->isDependentContext() && F->hasBody() && D.inRoot(F->getLocation())) fs.push_back(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { rs.push_back(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (D.inRoot(E->getLocation())) es.push_back(E); return true; }
  bool VisitVarDecl(VarDecl *V) { if (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V) && D.inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext()) gs.push_back(V); return true; }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *F) { if (D.inRoot(F->getLocation())) fts.push_back(F); return true; }
  bool VisitClassTemplateDecl(ClassTemplateDecl *F) { if (D.inRoot(F->getLocation())) cts.push_back(F); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC; llvm::raw_fd_ostream os(Out, EC);
    json::OStream J(os);
    Dumper D(C, J); Collect K(D); K.TraverseDecl(C.getTranslationUnitDecl());
    J.object([&] {
      J.attribute("errors", (int)C.getDiagnostics().getClient()->getNumErrors());
      J.attributeArray("records", [&] { for (size_t i = 0; i < K.rs.size(); ++i) D.record(K.rs[i]); });
      J.attributeArray("enums", [&] { for (auto *E : K.es) J.object([&] { J.attribute("name", D.qname(E)); J.attribute("line", D.line(E->getLocation())); J.attribute("file", D.rel(E->getLocation())); J.attributeArray("c", [&] { for (auto *X : E->enumerators()) J.object([&] { J.attribute("n", X->getNameAsString()); J.attribute("v", i64(X->getInitVal())); }); }); }); });
      J.attributeArray("globals", [&] { for (auto *V : K.gs) J.object([&] { J.attribute("q", D.qname(V)); J.attribute("id", D.did(V)); J.attribute("t", D.ty(V->getType())); J.attribute("file", D.rel(V->getLocation())); J.attribute("line", D.line(V->getLocation())); J.attribute("static", V->getStorageClass() == SC_Static); J.attribute("tls", V->getTLSKind() != VarDecl::TLS_None); }); });
      J.attributeArray("functions", [&] {
        for (auto *F : K.fs) D.fn(F);
        for (size_t i = 0; i < D.queue.size(); ++i) { auto *F = D.queue[i]; if (F->hasBody() && !F->isDependentContext() && D.inRoot(F->getLocation())) { const FunctionDecl *Def; if (F->hasBody(Def)) D.fn(Def); } }
      });
      J.attributeArray("uninstantiated", [&] {
        auto patDone = [&](const FunctionTemplateDecl *T) { for (auto *S : T->specializations()) if (S->hasBody()) return true; return false; };
        std::set<std::string> seen;
        for (auto *T : K.fts) { if (!T->getTemplatedDecl()->hasBody()) continue; if (T->getTemplatedDecl()->isDependentContext() && isa<CXXRecordDecl>(T->getDeclContext()) && cast<CXXRecordDecl>(T->getDeclContext())->isDependentContext()) continue; if (!patDone(T)) { std::string s = D.rel(T->getLocation()) + ":" + std::to_string(D.line(T->getLocation())) + " " + T->getQualifiedNameAsString(); if (seen.insert(s).second) J.value(s); } }
        for (auto *T : K.cts) { bool any = false; for (auto *S : T->specializations()) if (S->isCompleteDefinition()) any = true; if (!any && T->getTemplatedDecl()->isCompleteDefinition()) { std::string s = D.rel(T->getLocation()) + ":" + std::to_string(D.line(T->getLocation())) + " class " + T->getQualifiedNameAsString(); if (seen.insert(s).second) J.value(s); } }
      });
    });
    os << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  // extract ROOT OUT FILE -- flags
  if (argc < 4) return 2;
  Root = argv[1]; Out = argv[2]; std::string file = argv[3];
  std::vector<std::string> args;
  int i = 4; if (i < argc && std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-fsyntax-only"));
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
