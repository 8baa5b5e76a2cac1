// smx: dump the resolved, type-checked program (functions, records, variables)
// of one translation unit as JSON.  Only declarations located below one of the
// given roots are dumped; everything they refer to is named by qualified name.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/ExceptionSpecificationType.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> DeclIds;
  std::vector<J::Value> Decls;
  std::vector<const Decl *> Pending; // functions/records to emit in full
  std::map<std::string, int> TypeIds;
  std::vector<std::string> TypeNames;
  std::map<std::string, int> FileIds;
  std::vector<std::string> FileNames;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
  }

  static J::Value apint(const llvm::APSInt &V) {
    if (V.isRepresentableByInt64()) return (int64_t)V.getExtValue();
    llvm::SmallString<40> S;
    V.toString(S, 10);
    return std::string(S.str());
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto I = TypeIds.find(S);
    if (I != TypeIds.end()) return I->second;
    int id = TypeNames.size();
    TypeNames.push_back(S);
    TypeIds[S] = id;
    return id;
  }
  int file(const std::string &F) {
    auto I = FileIds.find(F);
    if (I != FileIds.end()) return I->second;
    int id = FileNames.size();
    FileNames.push_back(F);
    FileIds[F] = id;
    return id;
  }
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::SmallString<256> P(FE->getName());
    SM.getFileManager().makeAbsolutePath(P);
    llvm::SmallString<256> R;
    if (!llvm::sys::fs::real_path(P, R)) return std::string(R.str());
    return std::string(P.str());
  }
  bool headerFile(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string PS = fileOf(L); llvm::StringRef P(PS);
    return P.ends_with(".h") || P.ends_with(".hpp") || P.ends_with(".hh") || P.ends_with(".hxx");
  }
  bool declaredInHeader(const FunctionDecl *FD) {
    for (auto *R : FD->redecls())
      if (headerFile(R->getLocation())) return true;
    if (auto *P = FD->getTemplateInstantiationPattern())
      for (auto *R : P->redecls())
        if (headerFile(R->getLocation())) return true;
    if (auto *P = FD->getPrimaryTemplate())
      for (auto *R : P->redecls())
        if (headerFile(R->getLocation())) return true;
    return false;
  }
  std::map<FileID, bool> InRootsCache;
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    FileID F = SM.getFileID(SM.getExpansionLoc(L));
    auto I = InRootsCache.find(F);
    if (I != InRootsCache.end()) return I->second;
    std::string P = fileOf(L);
    bool R = false;
    for (auto &X : Roots)
      if (P.compare(0, X.size(), X) == 0) R = true;
    return InRootsCache[F] = R;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(OS, P2);
    if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
      printTemplateArgumentList(OS, CTS->getTemplateArgs().asArray(), P2);
    }
    return OS.str();
  }
  // qualified name with template arguments of the enclosing classes
  std::string qnFull(const NamedDecl *D) {
    if (auto *M = dyn_cast<CXXMethodDecl>(D))
      return Ctx.getRecordType(M->getParent()).getCanonicalType().getAsString(PP) + "::" + D->getNameAsString();
    if (auto *F = dyn_cast<FieldDecl>(D))
      if (auto *RD = dyn_cast<CXXRecordDecl>(F->getParent()))
        return Ctx.getRecordType(RD).getCanonicalType().getAsString(PP) + "::" + D->getNameAsString();
    if (auto *RD = dyn_cast<CXXRecordDecl>(D))
      return Ctx.getRecordType(RD).getCanonicalType().getAsString(PP);
    return qn(D);
  }

  int declRef(const Decl *D) {
    if (!D) return -1;
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      // prefer the definition as canonical node
      const FunctionDecl *Def = nullptr;
      if (FD->isDefined(Def)) D = Def; else D = FD->getCanonicalDecl();
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      D = RD->getDefinition() ? (const Decl *)RD->getDefinition() : RD->getCanonicalDecl();
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (!isa<ParmVarDecl>(VD)) {
        if (auto *Def = VD->getDefinition()) D = Def; else D = VD->getCanonicalDecl();
      }
    }
    auto I = DeclIds.find(D);
    if (I != DeclIds.end()) return I->second;
    int id = Decls.size();
    DeclIds[D] = id;
    Decls.push_back(nullptr);
    J::Object O;
    O["id"] = id;
    O["k"] = D->getDeclKindName();
    if (auto *ND = dyn_cast<NamedDecl>(D)) {
      O["n"] = ND->getNameAsString();
      if (!isa<ParmVarDecl>(D) && !(isa<VarDecl>(D) && cast<VarDecl>(D)->isLocalVarDecl()))
        O["q"] = qnFull(ND);
    }
    bool Mine = inRoots(D->getLocation());
    O["f"] = file(fileOf(D->getLocation()));
    O["l"] = line(D->getLocation());
    if (Mine) O["mine"] = true;
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      O["t"] = type(FD->getType());
      O["rt"] = type(FD->getReturnType());
      J::Array Ps;
      for (auto *P : FD->parameters()) Ps.push_back(declRef(P));
      O["ps"] = std::move(Ps);
      if (FD->isVariadic()) O["variadic"] = true;
      if (FD->isNoReturn()) O["noret"] = true;
      if (FD->isInlined()) O["inline"] = true;
      if (FD->isConstexpr()) O["constexpr"] = true;
      if (FD->isDefaulted()) O["defaulted"] = true;
      if (FD->isDeleted()) O["deleted"] = true;
      if (FD->isStatic()) O["static"] = true;
      if (FD->isTemplateInstantiation()) O["inst"] = true;
      if (FD->isDependentContext()) O["dep"] = true;
      O["linkext"] = FD->isExternallyVisible();
      if (!FD->isDependentContext() && FD->doesThisDeclarationHaveABody() && Ctx.GetGVALinkageForFunction(FD) == GVA_StrongExternal) O["strong"] = true;
      if (FD->isTemplateInstantiation() && FD->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition) O["explinst"] = true;
      if (declaredInHeader(FD)) O["hdr"] = true;
      if (auto *TAL = FD->getTemplateSpecializationArgs()) {
        std::string S; llvm::raw_string_ostream OS(S);
        printTemplateArgumentList(OS, TAL->asArray(), PP);
        O["targs"] = OS.str();
      }
      if (const auto *FPT = FD->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->getExceptionSpecType() != EST_DependentNoexcept && FPT->canThrow() == CT_Cannot) O["nothrow"] = true;
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
        O["cls"] = declRef(MD->getParent());
        if (MD->isConst()) O["const"] = true;
        if (MD->isVirtual()) O["virtual"] = true;
        if (MD->isPureVirtual()) O["pure"] = true;
        if (MD->isStatic()) O["static"] = true;
        O["access"] = (int)MD->getAccess();
        J::Array Ov;
        for (auto *X : MD->overridden_methods()) Ov.push_back(declRef(X));
        if (!Ov.empty()) O["ov"] = std::move(Ov);
        if (isa<CXXConstructorDecl>(MD)) {
          O["ctor"] = true;
          auto *CD = cast<CXXConstructorDecl>(MD);
          if (CD->isCopyConstructor()) O["copyctor"] = true;
          if (CD->isMoveConstructor()) O["movector"] = true;
          if (CD->isExplicit()) O["explicit"] = true;
          if (CD->isDefaultConstructor()) O["defctor"] = true;
        }
        if (isa<CXXDestructorDecl>(MD)) O["dtor"] = true;
        if (isa<CXXConversionDecl>(MD)) O["conv"] = true;
        if (MD->isCopyAssignmentOperator()) O["copyassign"] = true;
      }
      if (FD->isOverloadedOperator()) O["op"] = getOperatorSpelling(FD->getOverloadedOperator());
      if (Mine) Pending.push_back(D);
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      if (RD->getDefinition()) {
        O["ty"] = type(Ctx.getRecordType(RD));
        if (RD->isDependentContext()) O["dep"] = true;
        if (RD->hasDefinition() && !RD->isDependentContext()) {
          if (auto *Dt = RD->getDestructor()) O["dtor"] = declRef(Dt);
          O["trivdtor"] = RD->hasTrivialDestructor();
          O["abstract"] = RD->isAbstract();
          if (RD->isUnion()) O["union"] = true;
        }
        J::Array Bs;
        if (RD->hasDefinition())
          for (auto &B : RD->bases()) {
            if (auto *BR = B.getType()->getAsCXXRecordDecl()) Bs.push_back(declRef(BR));
          }
        O["bases"] = std::move(Bs);
        J::Array Fs;
        for (auto *F : RD->fields()) Fs.push_back(declRef(F));
        O["fields"] = std::move(Fs);
        if (RD->isLambda()) O["lambda"] = true;
        if (Mine) Pending.push_back(D);
      }
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      O["t"] = type(F->getType());
      O["access"] = (int)F->getAccess();
      if (F->isMutable()) O["mutable"] = true;
      if (F->getType().isVolatileQualified()) O["volatile"] = true;
      if (F->getType().isConstQualified()) O["constq"] = true;
      O["cls"] = declRef(cast<Decl>(F->getParent()));
      O["idx"] = (int)F->getFieldIndex();
      if (F->hasInClassInitializer()) { O["hasinit"] = true; if (Mine && F->getInClassInitializer()) O["init"] = expr(F->getInClassInitializer()); }
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      O["t"] = type(V->getType());
      if (isa<ParmVarDecl>(V)) O["param"] = true;
      if (V->isLocalVarDecl()) O["local"] = true;
      if (V->isStaticLocal()) O["staticlocal"] = true;
      if (V->isStaticDataMember()) O["staticmember"] = true;
      if (V->getType().isConstQualified()) O["constq"] = true;
      if (V->isConstexpr()) O["constexpr"] = true;
      if (V->isInline()) O["inline"] = true;
      if (V->hasGlobalStorage()) {
        O["global"] = true;
        O["linkext"] = V->isExternallyVisible();
        if (!V->getType()->isDependentType() && !V->getDeclContext()->isDependentContext() && V->isThisDeclarationADefinition() == VarDecl::Definition && Ctx.GetGVALinkageForVariable(V) == GVA_StrongExternal) O["strong"] = true;
        if (V->getTSCSpec() != TSCS_unspecified || V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
        O["isdef"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        if (Mine) Pending.push_back(D);
      }
    } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["v"] = apint(EC->getInitVal());
      if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) O["enum"] = declRef(ED);
    } else if (auto *ED = dyn_cast<EnumDecl>(D)) {
      J::Array Es;
      for (auto *E : ED->enumerators()) Es.push_back(declRef(E));
      O["consts"] = std::move(Es);
    }
    Decls[id] = J::Value(std::move(O));
    return id;
  }

  J::Value expr(const Expr *E) { return stmt(E); }

  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_PointerToIntegral:
        case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
          return E;
        default:
          E = X->getSubExpr();
          continue;
        }
      }
      return E;
    }
  }

  static std::string fltStr(const llvm::APFloat &F) {
    llvm::SmallString<64> S;
    F.toString(S, 40, 0);
    return std::string(S.str());
  }

  J::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    J::Array A;
    for (auto *X : R) A.push_back(stmt(X));
    return std::move(A);
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E0 = dyn_cast<Expr>(S)) S = strip(E0);
    J::Object O;
    O["l"] = line(S->getBeginLoc());
    if (S->getBeginLoc().isMacroID()) {
      // outermost macro name
      SourceLocation L = S->getBeginLoc();
      StringRef Name;
      while (L.isMacroID()) {
        Name = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
        auto R = SM.getImmediateExpansionRange(L);
        L = R.getBegin();
      }
      if (!Name.empty()) O["m"] = Name.str();
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      if (!E->getType().isNull()) O["t"] = type(E->getType());
      exprBody(E, O);
      return J::Value(std::move(O));
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      O["k"] = "block";
      J::Array A;
      for (auto *C : cast<CompoundStmt>(S)->body()) A.push_back(stmt(C));
      O["c"] = std::move(A);
      O["le"] = line(S->getEndLoc());
      break;
    }
    case Stmt::DeclStmtClass: {
      O["k"] = "decl";
      J::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          J::Object VO;
          VO["d"] = declRef(V);
          VO["l"] = line(V->getLocation());
          if (V->getInit()) VO["i"] = stmt(V->getInit());
          A.push_back(std::move(VO));
        }
      }
      O["v"] = std::move(A);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      O["k"] = "if";
      if (I->getInit()) O["i"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = stmt(I->getConditionVariableDeclStmt());
      O["c"] = stmt(I->getCond());
      O["a"] = stmt(I->getThen());
      if (I->getElse()) O["b"] = stmt(I->getElse());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      O["k"] = "while";
      if (W->getConditionVariableDeclStmt()) O["cv"] = stmt(W->getConditionVariableDeclStmt());
      O["c"] = stmt(W->getCond());
      O["b"] = stmt(W->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      O["k"] = "do";
      O["c"] = stmt(W->getCond());
      O["b"] = stmt(W->getBody());
      break;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      O["k"] = "for";
      if (F->getInit()) O["i"] = stmt(F->getInit());
      if (F->getCond()) O["c"] = stmt(F->getCond());
      if (F->getInc()) O["n"] = stmt(F->getInc());
      O["b"] = stmt(F->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      O["k"] = "rfor";
      O["d"] = declRef(F->getLoopVariable());
      O["r"] = stmt(F->getRangeInit());
      O["b"] = stmt(F->getBody());
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      O["k"] = "switch";
      O["c"] = stmt(W->getCond());
      O["b"] = stmt(W->getBody());
      O["allenum"] = W->isAllEnumCasesCovered();
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(S);
      O["k"] = "case";
      O["e"] = stmt(W->getLHS());
      O["s"] = stmt(W->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass:
      O["k"] = "default";
      O["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      break;
    case Stmt::BreakStmtClass: O["k"] = "break"; break;
    case Stmt::ContinueStmtClass: O["k"] = "continue"; break;
    case Stmt::NullStmtClass: O["k"] = "null"; break;
    case Stmt::ReturnStmtClass:
      O["k"] = "ret";
      if (cast<ReturnStmt>(S)->getRetValue()) O["e"] = stmt(cast<ReturnStmt>(S)->getRetValue());
      break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      O["k"] = "try";
      O["b"] = stmt(T->getTryBlock());
      J::Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *C = T->getHandler(i);
        J::Object HO;
        if (C->getExceptionDecl()) { HO["d"] = declRef(C->getExceptionDecl()); HO["ct"] = type(C->getCaughtType()); }
        HO["b"] = stmt(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      break;
    }
    case Stmt::GotoStmtClass: O["k"] = "goto"; O["to"] = cast<GotoStmt>(S)->getLabel()->getNameAsString(); break;
    case Stmt::LabelStmtClass: O["k"] = "label"; O["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString(); O["s"] = stmt(cast<LabelStmt>(S)->getSubStmt()); break;
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default: {
      O["k"] = "x";
      O["cls"] = S->getStmtClassName();
      J::Array A;
      for (auto *C : S->children()) A.push_back(stmt(C));
      O["c"] = std::move(A);
    }
    }
    return J::Value(std::move(O));
  }

  void exprBody(const Expr *E, J::Object &O) {
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: {
      O["k"] = "int";
      llvm::SmallString<40> S;
      cast<IntegerLiteral>(E)->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
      return;
    }
    case Stmt::FloatingLiteralClass: O["k"] = "flt"; O["v"] = fltStr(cast<FloatingLiteral>(E)->getValue()); {
        // the literal as spelled, for exact decimal reasoning
        SourceLocation L = SM.getSpellingLoc(E->getBeginLoc());
        bool Inv = false;
        const char *P = SM.getCharacterData(L, &Inv);
        if (!Inv) { unsigned N = Lexer::MeasureTokenLength(L, SM, Ctx.getLangOpts()); O["s"] = std::string(P, N); }
      } return;
    case Stmt::StringLiteralClass: {
      O["k"] = "str";
      auto *SL = cast<StringLiteral>(E);
      if (SL->getCharByteWidth() == 1) {
        std::string B = SL->getBytes().str();
        std::string R;
        for (unsigned char c : B) { if (c < 0x80) R += (char)c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); R += b; } }
        O["v"] = R;
      }
      return;
    }
    case Stmt::CharacterLiteralClass: O["k"] = "int"; O["chr"] = true; O["v"] = std::to_string((int64_t)(int)cast<CharacterLiteral>(E)->getValue()); return;
    case Stmt::CXXBoolLiteralExprClass: O["k"] = "bool"; O["v"] = cast<CXXBoolLiteralExpr>(E)->getValue(); return;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: O["k"] = "nullp"; return;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E);
      O["k"] = "ref";
      O["d"] = declRef(D->getDecl());
      if (auto *V = dyn_cast<VarDecl>(D->getDecl()))
        if (!E->isValueDependent() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, Ctx)) O["cvv"] = apint(R.Val.getInt());
        }
      return;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      O["k"] = "mem";
      O["d"] = declRef(M->getMemberDecl());
      O["b"] = stmt(M->getBase());
      if (M->isArrow()) O["ar"] = true;
      return;
    }
    case Stmt::CXXThisExprClass: O["k"] = "this"; return;
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *C = cast<CallExpr>(E);
      O["k"] = "call";
      if (auto *FD = C->getDirectCallee()) {
        O["f"] = declRef(FD);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          if (MD->isVirtual()) {
            bool V = true;
            if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParenImpCasts())) if (ME->hasQualifier()) V = false;
            if (V) O["virt"] = true;
          }
        }
      }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
        if (MC->getImplicitObjectArgument()) O["o"] = stmt(MC->getImplicitObjectArgument());
        if (!C->getDirectCallee()) O["fe"] = stmt(C->getCallee());
        if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParenImpCasts())) if (ME->isArrow()) O["ar"] = true;
        O["a"] = args(C->arguments());
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
        O["op"] = getOperatorSpelling(OC->getOperator());
        bool Mem = C->getDirectCallee() && isa<CXXMethodDecl>(C->getDirectCallee()) && !cast<CXXMethodDecl>(C->getDirectCallee())->isStatic();
        if (Mem && C->getNumArgs() > 0) {
          O["o"] = stmt(C->getArg(0));
          J::Array A;
          for (unsigned i = 1; i < C->getNumArgs(); ++i) A.push_back(stmt(C->getArg(i)));
          O["a"] = std::move(A);
        } else {
          O["a"] = args(C->arguments());
          if (!C->getDirectCallee()) O["fe"] = stmt(C->getCallee());
        }
      } else {
        if (!C->getDirectCallee()) O["fe"] = stmt(C->getCallee());
        O["a"] = args(C->arguments());
      }
      return;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *C = cast<CXXConstructExpr>(E);
      O["k"] = "ctor";
      O["f"] = declRef(C->getConstructor());
      J::Array A;
      for (auto *X : C->arguments()) A.push_back(stmt(X));
      O["a"] = std::move(A);
      if (C->isListInitialization()) O["list"] = true;
      return;
    }
    case Stmt::CXXInheritedCtorInitExprClass: O["k"] = "ictor"; O["f"] = declRef(cast<CXXInheritedCtorInitExpr>(E)->getConstructor()); return;
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      O["k"] = "new";
      O["at"] = type(N->getAllocatedType());
      if (N->getInitializer()) O["i"] = stmt(N->getInitializer());
      if (N->isArray()) { O["arr"] = true; if (N->getArraySize() && *N->getArraySize()) O["n"] = stmt(*N->getArraySize()); }
      return;
    }
    case Stmt::CXXDeleteExprClass: O["k"] = "del"; O["e"] = stmt(cast<CXXDeleteExpr>(E)->getArgument()); return;
    case Stmt::CXXThrowExprClass: O["k"] = "throw"; if (cast<CXXThrowExpr>(E)->getSubExpr()) O["e"] = stmt(cast<CXXThrowExpr>(E)->getSubExpr()); return;
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = true;
      O["e"] = stmt(U->getSubExpr());
      return;
    }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = B->isAssignmentOp() ? "asg" : "bin";
      O["op"] = B->getOpcodeStr().str();
      O["x"] = stmt(B->getLHS());
      O["y"] = stmt(B->getRHS());
      return;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["c"] = stmt(C->getCond());
      O["x"] = stmt(C->getTrueExpr());
      O["y"] = stmt(C->getFalseExpr());
      return;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      O["k"] = "idx";
      O["b"] = stmt(A->getBase());
      O["i"] = stmt(A->getIdx());
      return;
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      O["k"] = "ilist";
      J::Array A;
      for (auto *X : I->inits()) A.push_back(stmt(X));
      O["a"] = std::move(A);
      return;
    }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: O["k"] = "zero"; return;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      O["k"] = "lam";
      O["d"] = declRef(L->getCallOperator());
      J::Array C;
      auto It = L->capture_init_begin();
      for (auto &Cap : L->captures()) {
        J::Object CO;
        if (Cap.capturesThis()) CO["this"] = true;
        else if (Cap.capturesVariable()) {
          CO["d"] = declRef(Cap.getCapturedVar());
          CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
        }
        if (*It) CO["i"] = stmt(*It);
        ++It;
        C.push_back(std::move(CO));
      }
      O["cap"] = std::move(C);
      return;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      O["k"] = "szof";
      O["kind"] = (int)U->getKind();
      if (!E->isValueDependent()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) O["v"] = apint(R.Val.getInt());
      }
      if (U->isArgumentType()) O["at"] = type(U->getArgumentType());
      else O["e"] = stmt(U->getArgumentExpr());
      return;
    }
    case Stmt::CXXDefaultArgExprClass: {
      J::Value V = stmt(cast<CXXDefaultArgExpr>(E)->getExpr());
      O["k"] = "defarg";
      O["e"] = std::move(V);
      return;
    }
    case Stmt::CXXDefaultInitExprClass: O["k"] = "definit"; O["e"] = stmt(cast<CXXDefaultInitExpr>(E)->getExpr()); return;
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXFunctionalCastExprClass: {
      auto *C = cast<CastExpr>(E);
      O["k"] = "cast";
      O["ck"] = C->getCastKindName();
      O["sk"] = isa<ImplicitCastExpr>(E) ? "impl" : isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXReinterpretCastExpr>(E) ? "reinterpret" : isa<CXXConstCastExpr>(E) ? "const" : isa<CXXDynamicCastExpr>(E) ? "dynamic" : isa<CXXFunctionalCastExpr>(E) ? "func" : "c";
      O["e"] = stmt(C->getSubExpr());
      return;
    }
    case Stmt::CXXTypeidExprClass: O["k"] = "typeid"; return;
    case Stmt::PredefinedExprClass: O["k"] = "str"; O["v"] = "__func__"; return;
    case Stmt::StmtExprClass: O["k"] = "stmtexpr"; O["b"] = stmt(cast<StmtExpr>(E)->getSubStmt()); return;
    case Stmt::CXXPseudoDestructorExprClass: O["k"] = "pseudodtor"; return;
    case Stmt::UnresolvedLookupExprClass: {
      O["k"] = "x"; O["cls"] = "UnresolvedLookupExpr"; O["n"] = cast<UnresolvedLookupExpr>(E)->getName().getAsString(); return;
    }
    case Stmt::CXXDependentScopeMemberExprClass: {
      auto *D = cast<CXXDependentScopeMemberExpr>(E);
      O["k"] = "x"; O["cls"] = "CXXDependentScopeMemberExpr"; O["n"] = D->getMember().getAsString();
      J::Array A; if (!D->isImplicitAccess()) A.push_back(stmt(D->getBase())); O["c"] = std::move(A);
      return;
    }
    default: {
      O["k"] = "x";
      O["cls"] = E->getStmtClassName();
      if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) O["cvv"] = apint(R.Val.getInt());
      }
      J::Array A;
      for (auto *C : E->children()) A.push_back(stmt(C));
      O["c"] = std::move(A);
    }
    }
  }

  // emit bodies
  void complete(const Decl *D) {
    int id = declRef(D);
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
      if (!FD->getBody() && !isa<CXXConstructorDecl>(FD)) return;
      J::Value Body = FD->getBody() ? stmt(FD->getBody()) : J::Value(nullptr);
      J::Array Inits;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
        for (auto *I : CD->inits()) {
          J::Object IO;
          if (I->isAnyMemberInitializer()) IO["field"] = declRef(I->getAnyMember());
          else if (I->isBaseInitializer()) IO["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) IO["deleg"] = true;
          IO["written"] = I->isWritten();
          IO["e"] = stmt(I->getInit());
          IO["l"] = line(I->getSourceLocation());
          Inits.push_back(std::move(IO));
        }
      }
      J::Array Defs;
      for (auto *P : FD->parameters()) {
        if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) Defs.push_back(stmt(P->getDefaultArg()));
        else Defs.push_back(nullptr);
      }
      auto *O = Decls[id].getAsObject();
      (*O)["body"] = std::move(Body);
      (*O)["le"] = line(FD->getEndLoc());
      if (!Inits.empty()) { O = Decls[id].getAsObject(); (*O)["inits"] = std::move(Inits); }
      (*O)["defs"] = std::move(Defs);
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->getInit() && V->hasGlobalStorage()) {
        J::Value I = stmt(V->getInit());
        auto *O = Decls[id].getAsObject();
        (*O)["init"] = std::move(I);
      }
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      J::Array Ms;
      for (auto *M : RD->methods()) Ms.push_back(declRef(M));
      for (auto *X : RD->decls())
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(X))
          for (auto *Sp : FT->specializations()) Ms.push_back(declRef(Sp));
      J::Array Sv;
      for (auto *X : RD->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) Sv.push_back(declRef(V));
      auto *O = Decls[id].getAsObject();
      (*O)["methods"] = std::move(Ms);
      (*O)["statics"] = std::move(Sv);
    }
  }

  struct V : RecursiveASTVisitor<V> {
    Dumper &D;
    V(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseStmt(Stmt *) { return true; } // bodies are dumped on demand
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (D.inRoots(F->getLocation())) D.declRef(F);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (R->isThisDeclarationADefinition() && D.inRoots(R->getLocation())) D.declRef(R);
      return true;
    }
    bool VisitVarDecl(VarDecl *R) {
      if (R->hasGlobalStorage() && D.inRoots(R->getLocation())) D.declRef(R);
      return true;
    }
    bool VisitEnumDecl(EnumDecl *R) {
      if (D.inRoots(R->getLocation())) D.declRef(R);
      return true;
    }
  };

  void run() {
    V Vis(*this);
    Vis.TraverseDecl(Ctx.getTranslationUnitDecl());
    for (size_t i = 0; i < Pending.size(); ++i) complete(Pending[i]);
    J::Object Top;
    J::Array T, F;
    for (auto &S : TypeNames) T.push_back(S);
    for (auto &S : FileNames) F.push_back(S);
    Top["types"] = std::move(T);
    Top["files"] = std::move(F);
    Top["decls"] = J::Array(std::move(Decls));
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << J::Value(std::move(Top));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: smx OUT.json SOURCE root[:root...] -- flags
int main(int argc, const char **argv) {
  if (argc < 5) return 3;
  OutFile = argv[1];
  std::string Src = argv[2];
  std::string R = argv[3];
  size_t p = 0;
  while (p <= R.size()) {
    size_t q = R.find(':', p);
    if (q == std::string::npos) q = R.size();
    if (q > p) Roots.push_back(R.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> Flags;
  bool Seen = false;
  for (int i = 4; i < argc; ++i) {
    if (!Seen) { Seen = std::string(argv[i]) == "--"; continue; }
    Flags.push_back(argv[i]);
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
