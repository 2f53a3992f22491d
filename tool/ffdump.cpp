// ffdump: dump the resolved (type-checked, instantiated) program of the translation units
// given on the command line as JSON lines, one per function definition located under ROOT.
// Usage: ffdump OUT ROOT[,ROOT2...] FILE -- clang-args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
using namespace clang;

static std::vector<std::string> Roots;
static std::string OutPath;
static bool gError = false;

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  std::ostream &OS;
  PrintingPolicy PP;
  std::map<std::string, int> strtab;
  std::map<const Decl *, int> vid;
  std::set<const Decl *> seen;
  int nextVid = 0;
  std::vector<const LambdaExpr*> lambdas;

  Dumper(ASTContext &C, std::ostream &o) : Ctx(C), SM(C.getSourceManager()), OS(o), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> abs(P.getFilename());
    SM.getFileManager().makeAbsolutePath(abs);
    llvm::sys::path::remove_dots(abs, true);
    return std::string(abs);
  }
  std::map<FileID, std::string> fcache;
  std::string fileC(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID f = SM.getFileID(L);
    auto it = fcache.find(f);
    if (it != fcache.end()) return it->second;
    return fcache[f] = fileOf(L);
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileC(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return std::string(b);
  }
  std::unique_ptr<ItaniumMangleContext> MC;
  std::string mangled(const FunctionDecl *FD) {
    if (FD->isDependentContext() || isa<CXXConstructorDecl>(FD) || isa<CXXDestructorDecl>(FD)) return "";
    if (!MC) MC.reset(ItaniumMangleContext::create(Ctx, Ctx.getDiagnostics()));
    if (!MC->shouldMangleDeclName(FD)) return FD->getNameAsString();
    std::string o; llvm::raw_string_ostream R(o); MC->mangleName(GlobalDecl(FD), R); return R.str();
  }
  std::string fid(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    std::string u = usr(FD->getCanonicalDecl());
    if (u.empty()) u = FD->getQualifiedNameAsString();
    // USR does not always separate instantiations: append type
    std::string s = u + "|" + targs(FD) + "|" + ty(FD->getType());
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) s += "|" + ty(Ctx.getTypeDeclType(M->getParent()));
    (void)Def;
    // hash
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    char b[20]; snprintf(b, 20, "%016lx", (unsigned long)h);
    return b;
  }
  std::string targs(const FunctionDecl *FD) {
    std::string r;
    if (auto *A = FD->getTemplateSpecializationArgs()) {
      llvm::raw_string_ostream o(r);
      bool first = true;
      for (auto &a : A->asArray()) { if (!first) o << ","; first = false; a.print(PP, o, true); }
      o.flush();
    }
    return r;
  }
  int var(const Decl *D) {
    auto *VD = dyn_cast<VarDecl>(D);
    const Decl *K = VD ? (const Decl *)VD->getCanonicalDecl() : D;
    auto it = vid.find(K);
    if (it != vid.end()) return it->second;
    return vid[K] = nextVid++;
  }
  std::string N(const char *k) { return std::string("[\"") + k + "\""; }

  std::string refDecl(const ValueDecl *D) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      return "[\"en\"," + jstr(EC->getQualifiedNameAsString()) + "," + std::to_string((long long)EC->getInitVal().getExtValue()) + "]";
    }
    if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->isLocalVarDecl() && VD->isStaticLocal())
        return "[\"g\"," + jstr(VD->getQualifiedNameAsString()) + "]";
      if (VD->isLocalVarDeclOrParm())
        return "[\"v\"," + jstr(VD->getNameAsString()) + "," + std::to_string(var(VD)) + "]";
      if (VD->getInit() && !VD->getInit()->isValueDependent() && VD->getType()->isIntegralOrEnumerationType() && VD->isUsableInConstantExpressions(Ctx)) {
        if (const APValue *V = VD->evaluateValue()) if (V->isInt())
          return "[\"kg\"," + jstr(VD->getQualifiedNameAsString()) + "," + llvm::toString(V->getInt(), 10) + "]";
      }
      return "[\"g\"," + jstr(VD->getQualifiedNameAsString()) + "]";
    }
    if (auto *FD = dyn_cast<FunctionDecl>(D))
      return "[\"fn\"," + calleeInfo(FD) + "]";
    if (isa<NonTypeTemplateParmDecl>(D)) return "[\"tp\"," + jstr(D->getNameAsString()) + "]";
    if (isa<BindingDecl>(D)) return "[\"v\"," + jstr(D->getNameAsString()) + "," + std::to_string(var(D)) + "]";
    return "[\"g\"," + jstr(D->getQualifiedNameAsString()) + "]";
  }
  std::string calleeInfo(const FunctionDecl *FD) {
    const FunctionDecl *P = FD->getTemplateInstantiationPattern();
    (void)P;
    return "{\"q\":" + jstr(FD->getQualifiedNameAsString()) + ",\"i\":\"" + fid(FD) + "\"" +
           (FD->getTemplateSpecializationArgs() ? ",\"t\":" + jstr(targs(FD)) : std::string()) + ",\"r\":" + jstr(ty(FD->getReturnType())) + "}";
  }
  std::string args(llvm::ArrayRef<const Expr *> A) {
    std::string r = "[";
    bool f = true;
    for (auto *e : A) { if (!f) r += ","; f = false; r += expr(e); }
    return r + "]";
  }
  template <class R> std::string argsR(R rng) {
    std::vector<const Expr *> v;
    for (auto *e : rng) v.push_back(e);
    return args(v);
  }
  std::string declName(DeclarationName n) { return n.getAsString(); }

  std::string expr(const Expr *E) {
    if (!E) return "null";
    if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<FullExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return "[\"darg\"," + expr(x->getExpr()) + "]";
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return "[\"darg\"," + expr(x->getExpr()) + "]";
    if (auto *x = dyn_cast<ImplicitCastExpr>(E)) {
      // keep arithmetic conversions visible through a light node only when they change the type class
      CastKind k = x->getCastKind();
      if (k == CK_FloatingToIntegral || k == CK_IntegralToFloating || k == CK_FloatingCast || k == CK_IntegralCast) {
        if (!isa<IntegerLiteral>(x->getSubExpr()->IgnoreParens()))
          return "[\"ic\"," + jstr(ty(x->getType())) + "," + jstr(ty(x->getSubExpr()->getType())) + "," + expr(x->getSubExpr()) + "]";
      }
      return expr(x->getSubExpr());
    }
    if (auto *x = dyn_cast<DeclRefExpr>(E)) return refDecl(x->getDecl());
    if (auto *x = dyn_cast<IntegerLiteral>(E)) return "[\"i\"," + llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()) + "]";
    if (auto *x = dyn_cast<FloatingLiteral>(E)) { std::ostringstream o; o.precision(17); double d = x->getValueAsApproximateDouble(); o << d; std::string s=o.str(); if (s.find_first_not_of("0123456789+-.e")!=std::string::npos) return "[\"f\",1e308]"; return "[\"f\"," + s + "]"; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) return x->getValue() ? "[\"b\",1]" : "[\"b\",0]";
    if (auto *x = dyn_cast<CharacterLiteral>(E)) return "[\"i\"," + std::to_string(x->getValue()) + "]";
    if (auto *x = dyn_cast<clang::StringLiteral>(E)) return "[\"s\"," + (x->isOrdinary() ? jstr(std::string(x->getString())) : "\"\"") + "]";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "[\"null\"]";
    if (isa<CXXThisExpr>(E)) return "[\"this\"]";
    if (auto *x = dyn_cast<UnaryOperator>(E))
      return "[\"un\"," + std::to_string(line(x->getOperatorLoc())) + "," + jstr(std::string(UnaryOperator::getOpcodeStr(x->getOpcode())) + (x->isPostfix() ? "post" : "")) + "," + expr(x->getSubExpr()) + "]";
    if (auto *x = dyn_cast<CompoundAssignOperator>(E))
      return "[\"asg\"," + std::to_string(line(x->getOperatorLoc())) + "," + jstr(std::string(BinaryOperator::getOpcodeStr(x->getOpcode()))) + "," + expr(x->getLHS()) + "," + expr(x->getRHS()) + "]";
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      if (x->getOpcode() == BO_Assign)
        return "[\"asg\"," + std::to_string(line(x->getOperatorLoc())) + ",\"=\"," + expr(x->getLHS()) + "," + expr(x->getRHS()) + "]";
      return "[\"bin\"," + std::to_string(line(x->getOperatorLoc())) + "," + jstr(std::string(BinaryOperator::getOpcodeStr(x->getOpcode()))) + "," + expr(x->getLHS()) + "," + expr(x->getRHS()) + "]";
    }
    if (auto *x = dyn_cast<ConditionalOperator>(E))
      return "[\"cond\"," + std::to_string(line(x->getQuestionLoc())) + "," + condv(x->getCond()) + "," + expr(x->getCond()) + "," + expr(x->getTrueExpr()) + "," + expr(x->getFalseExpr()) + "]";
    if (auto *x = dyn_cast<BinaryConditionalOperator>(E))
      return "[\"cond\"," + std::to_string(line(x->getQuestionLoc())) + ",null," + expr(x->getCond()) + "," + expr(x->getTrueExpr()) + "," + expr(x->getFalseExpr()) + "]";
    if (auto *x = dyn_cast<OpaqueValueExpr>(E)) return x->getSourceExpr() ? expr(x->getSourceExpr()) : "[\"?\",\"opaque\"]";
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      std::string op = getOperatorSpelling(x->getOperator());
      std::string ci = "null";
      if (auto *FD = x->getDirectCallee()) ci = calleeInfo(FD);
      return "[\"op\"," + std::to_string(line(x->getOperatorLoc())) + "," + jstr(op) + "," + ci + "," + argsR(x->arguments()) + "]";
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      std::string ci = "null", obj = "null";
      if (auto *MD = x->getMethodDecl()) ci = calleeInfo(MD);
      if (auto *o = x->getImplicitObjectArgument()) obj = expr(o);
      else obj = expr(x->getCallee());
      return "[\"mcall\"," + std::to_string(line(x->getExprLoc())) + "," + ci + "," + obj + "," + argsR(x->arguments()) + "]";
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      if (auto *FD = x->getDirectCallee())
        return "[\"call\"," + std::to_string(line(x->getBeginLoc())) + "," + calleeInfo(FD) + "," + argsR(x->arguments()) + "]";
      const Expr *C = x->getCallee()->IgnoreParenImpCasts();
      if (auto *U = dyn_cast<OverloadExpr>(C)) {
        std::string nm = declName(U->getName());
        std::string ci = "{\"q\":" + jstr(nm) + ",\"dep\":1}";
        if (isa<UnresolvedMemberExpr>(U)) {
          auto *UM = cast<UnresolvedMemberExpr>(U);
          std::string obj = UM->isImplicitAccess() ? "[\"this\"]" : expr(UM->getBase());
          return "[\"mcall\"," + std::to_string(line(x->getBeginLoc())) + "," + ci + "," + obj + "," + argsR(x->arguments()) + "]";
        }
        return "[\"call\"," + std::to_string(line(x->getBeginLoc())) + "," + ci + "," + argsR(x->arguments()) + "]";
      }
      if (auto *U = dyn_cast<CXXDependentScopeMemberExpr>(C)) {
        std::string ci = "{\"q\":" + jstr(declName(U->getMember())) + ",\"dep\":1}";
        std::string obj = U->isImplicitAccess() ? "[\"this\"]" : expr(U->getBase());
        return "[\"mcall\"," + std::to_string(line(x->getBeginLoc())) + "," + ci + "," + obj + "," + argsR(x->arguments()) + "]";
      }
      if (auto *U = dyn_cast<DependentScopeDeclRefExpr>(C)) {
        std::string q; llvm::raw_string_ostream o(q);
        if (U->getQualifier()) U->getQualifier()->print(o, PP);
        o << declName(U->getDeclName()); o.flush();
        return "[\"call\"," + std::to_string(line(x->getBeginLoc())) + ",{\"q\":" + jstr(q) + ",\"dep\":1}," + argsR(x->arguments()) + "]";
      }
      return "[\"icall\"," + std::to_string(line(x->getBeginLoc())) + "," + expr(C) + "," + argsR(x->arguments()) + "]";
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      return "[\"ctor\"," + std::to_string(line(x->getBeginLoc())) + "," + jstr(ty(x->getType())) + "," + calleeInfo(x->getConstructor()) + "," + argsR(x->arguments()) + "," + (x->getConstructor()->isCopyOrMoveConstructor() ? "1" : "0") + "]";
    }
    if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(E))
      return "[\"ctor\"," + std::to_string(line(x->getBeginLoc())) + "," + jstr(ty(x->getTypeAsWritten())) + ",null," + argsR(x->arguments()) + ",0]";
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      std::string sz = "null";
      if (x->isArray()) { auto s = x->getArraySize(); sz = s && *s ? expr(*s) : "[\"i\",0]"; }
      return "[\"new\"," + std::to_string(line(x->getBeginLoc())) + "," + jstr(ty(x->getAllocatedType())) + "," + sz + "," + (x->getInitializer() ? expr(x->getInitializer()) : (x->getConstructExpr() ? expr(x->getConstructExpr()) : std::string("null"))) + "," + (x->getNumPlacementArgs() ? "1" : "0") + "]";
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E))
      return "[\"delete\"," + std::to_string(line(x->getBeginLoc())) + "," + (x->isArrayForm() ? "1" : "0") + "," + expr(x->getArgument()) + "]";
    if (auto *x = dyn_cast<ExplicitCastExpr>(E)) {
      std::string k = "c";
      if (isa<CXXConstCastExpr>(x)) k = "const_cast";
      else if (isa<CXXReinterpretCastExpr>(x)) k = "reinterpret_cast";
      else if (isa<CXXStaticCastExpr>(x)) k = "static_cast";
      else if (isa<CXXDynamicCastExpr>(x)) k = "dynamic_cast";
      else if (isa<CXXFunctionalCastExpr>(x)) k = "functional";
      return "[\"cast\"," + std::to_string(line(x->getBeginLoc())) + "," + jstr(k) + "," + jstr(ty(x->getType())) + "," + jstr(ty(x->getSubExpr()->getType())) + "," + expr(x->getSubExpr()) + "]";
    }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      auto *MD = x->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(MD)) return refDecl(VD);
      if (auto *EC = dyn_cast<EnumConstantDecl>(MD)) return refDecl(EC);
      std::string base = expr(x->getBase());
      return "[\"mem\"," + jstr(MD->getNameAsString()) + "," + base + "," + (x->isArrow() ? "1" : "0") + "," + jstr(ty(x->getType())) + "]";
    }
    if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(E))
      return "[\"mem\"," + jstr(declName(x->getMember())) + "," + (x->isImplicitAccess() ? std::string("[\"this\"]") : expr(x->getBase())) + ",0,\"\"]";
    if (auto *x = dyn_cast<UnresolvedMemberExpr>(E))
      return "[\"mem\"," + jstr(declName(x->getMemberName())) + "," + (x->isImplicitAccess() ? std::string("[\"this\"]") : expr(x->getBase())) + ",0,\"\"]";
    if (auto *x = dyn_cast<UnresolvedLookupExpr>(E)) return "[\"g\"," + jstr(declName(x->getName())) + "]";
    if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(E)) {
      std::string q; llvm::raw_string_ostream o(q);
      if (x->getQualifier()) x->getQualifier()->print(o, PP);
      o << declName(x->getDeclName()); o.flush();
      return "[\"g\"," + jstr(q) + "]";
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E))
      return "[\"idx\"," + std::to_string(line(x->getRBracketLoc())) + "," + expr(x->getBase()) + "," + expr(x->getIdx()) + "]";
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      std::string c = "[";
      bool f = true;
      for (auto &cap : x->captures()) {
        if (!f) c += ","; f = false;
        if (cap.capturesVariable()) c += "[" + jstr(cap.getCapturedVar()->getNameAsString()) + "," + std::to_string(var(cap.getCapturedVar())) + "," + (cap.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
        else if (cap.capturesThis()) c += "[\"this\",-1,1]";
        else c += "[\"?\",-1,0]";
      }
      c += "]";
      std::string ps = "[";
      f = true;
      if (auto *CO = x->getCallOperator())
        for (auto *p : CO->parameters()) { if (!f) ps += ","; f = false; ps += param(p); }
      ps += "]";
      return "[\"lambda\"," + std::to_string(line(x->getBeginLoc())) + "," + c + "," + ps + "," + stmt(x->getBody()) + "]";
    }
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      return "[\"init\"," + jstr(ty(s->getType())) + "," + argsR(s->inits()) + "]";
    }
    if (auto *x = dyn_cast<ParenListExpr>(E)) {
      std::vector<const Expr*> v; for (unsigned i=0;i<x->getNumExprs();++i) v.push_back(x->getExpr(i));
      return "[\"plist\"," + args(v) + "]";
    }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(x->getSubExpr());
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return "[\"zero\"," + jstr(ty(E->getType())) + "]";
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) return "[\"szof\"," + llvm::toString(R.Val.getInt(), 10) + "," + jstr(ty(x->getTypeOfArgument())) + "]";
      return "[\"szof\",null," + jstr(ty(x->getTypeOfArgument())) + "]";
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) return "[\"throw\"," + std::to_string(line(x->getThrowLoc())) + "," + (x->getSubExpr() ? expr(x->getSubExpr()) : "null") + "]";
    if (auto *x = dyn_cast<CXXNoexceptExpr>(E)) return x->getValue() ? "[\"b\",1]" : "[\"b\",0]";
    if (isa<TypeTraitExpr>(E)) {
      bool b; if (!E->isValueDependent() && E->EvaluateAsBooleanCondition(b, Ctx)) return b ? "[\"b\",1]" : "[\"b\",0]";
    }
    if (auto *x = dyn_cast<PackExpansionExpr>(E)) return "[\"pack\"," + expr(x->getPattern()) + "]";
    if (isa<PredefinedExpr>(E)) return "[\"s\",\"__func__\"]";
    if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; return "[\"typeid\"]"; }
    if (auto *x = dyn_cast<ShuffleVectorExpr>(E)) {
      std::vector<const Expr*> v; for (unsigned i=0;i<x->getNumSubExprs();++i) v.push_back(x->getExpr(i));
      return "[\"shufv\"," + args(v) + "]";
    }
    if (auto *x = dyn_cast<StmtExpr>(E)) return "[\"stmtexpr\"," + stmt(x->getSubStmt()) + "]";
    if (auto *x = dyn_cast<RecoveryExpr>(E)) { (void)x; return "[\"?\",\"recovery\"]"; }
    return std::string("[\"?\",") + jstr(E->getStmtClassName()) + "]";
  }
  std::string condv(const Expr *E) {
    if (!E || E->isValueDependent() || E->isTypeDependent()) return "null";
    bool b;
    if (E->EvaluateAsBooleanCondition(b, Ctx, true)) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects) return b ? "1" : "0";
    }
    return "null";
  }
  std::string param(const ParmVarDecl *p) {
    return "[" + jstr(p->getNameAsString()) + "," + std::to_string(var(p)) + "," + jstr(ty(p->getType())) + "]";
  }
  std::string varDecl(const VarDecl *V) {
    std::string r = "[\"decl\"," + std::to_string(line(V->getLocation())) + "," + jstr(V->getNameAsString()) + "," + std::to_string(var(V)) + "," + jstr(ty(V->getType())) + ",";
    r += V->isStaticLocal() ? "1," : "0,";
    r += V->getInit() ? expr(V->getInit()) : std::string("null");
    // does the type have a non-trivial destructor?
    bool nd = false;
    if (!V->getType()->isDependentType())
      if (auto *RD = V->getType()->getBaseElementTypeUnsafe()->getAsCXXRecordDecl()) nd = RD->hasDefinition() && !RD->hasTrivialDestructor();
    r += nd ? ",1" : ",0";
    if (auto *VAT = Ctx.getAsVariableArrayType(V->getType())) r += "," + expr(VAT->getSizeExpr());
    return r + "]";
  }
  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      std::string r = "[\"blk\",[";
      bool f = true;
      for (auto *c : x->body()) { if (!f) r += ","; f = false; r += stmt(c); }
      return r + "]," + std::to_string(line(x->getRBracLoc())) + "]";
    }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      std::string r = "[\"ds\",[";
      bool f = true;
      for (auto *d : x->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) { if (!f) r += ","; f = false; r += varDecl(V); }
      }
      return r + "]]";
    }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      std::string r = "[\"if\"," + std::to_string(line(x->getIfLoc())) + "," + condv(x->getCond()) + "," + expr(x->getCond()) + "," + stmt(x->getThen()) + "," + stmt(x->getElse());
      if (x->getConditionVariable()) r += "," + varDecl(x->getConditionVariable());
      return r + "]";
    }
    if (auto *x = dyn_cast<ForStmt>(S))
      return "[\"for\"," + std::to_string(line(x->getForLoc())) + "," + stmt(x->getInit()) + "," + expr(x->getCond()) + "," + expr(x->getInc()) + "," + stmt(x->getBody()) + "]";
    if (auto *x = dyn_cast<WhileStmt>(S))
      return "[\"while\"," + std::to_string(line(x->getWhileLoc())) + "," + condv(x->getCond()) + "," + expr(x->getCond()) + "," + stmt(x->getBody()) + "]";
    if (auto *x = dyn_cast<DoStmt>(S))
      return "[\"do\"," + std::to_string(line(x->getDoLoc())) + "," + condv(x->getCond()) + "," + expr(x->getCond()) + "," + stmt(x->getBody()) + "]";
    if (auto *x = dyn_cast<CXXForRangeStmt>(S))
      return "[\"rfor\"," + std::to_string(line(x->getForLoc())) + "," + (x->getLoopVariable() ? varDecl(x->getLoopVariable()) : "null") + "," + expr(x->getRangeInit()) + "," + stmt(x->getBody()) + "]";
    if (auto *x = dyn_cast<ReturnStmt>(S)) return "[\"ret\"," + std::to_string(line(x->getReturnLoc())) + "," + expr(x->getRetValue()) + "]";
    if (auto *x = dyn_cast<BreakStmt>(S)) return "[\"brk\"," + std::to_string(line(x->getBreakLoc())) + "]";
    if (auto *x = dyn_cast<ContinueStmt>(S)) return "[\"cont\"," + std::to_string(line(x->getContinueLoc())) + "]";
    if (isa<NullStmt>(S)) return "[\"nop\"]";
    if (auto *x = dyn_cast<SwitchStmt>(S)) return "[\"sw\"," + std::to_string(line(x->getSwitchLoc())) + "," + expr(x->getCond()) + "," + stmt(x->getBody()) + "]";
    if (auto *x = dyn_cast<CaseStmt>(S)) return "[\"case\"," + std::to_string(line(x->getCaseLoc())) + "," + expr(x->getLHS()) + "," + stmt(x->getSubStmt()) + "]";
    if (auto *x = dyn_cast<DefaultStmt>(S)) return "[\"default\"," + std::to_string(line(x->getDefaultLoc())) + "," + stmt(x->getSubStmt()) + "]";
    if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      std::string r = "[\"try\"," + std::to_string(line(x->getTryLoc())) + "," + stmt(x->getTryBlock()) + ",[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) r += ","; auto *h = x->getHandler(i); r += "[" + jstr(h->getExceptionDecl() ? ty(h->getCaughtType()) : "...") + "," + stmt(h->getHandlerBlock()) + "]"; }
      return r + "]]";
    }
    if (auto *x = dyn_cast<GotoStmt>(S)) return "[\"goto\"," + std::to_string(line(x->getGotoLoc())) + "," + jstr(x->getLabel()->getNameAsString()) + "]";
    if (auto *x = dyn_cast<LabelStmt>(S)) return "[\"label\"," + std::to_string(line(x->getIdentLoc())) + "," + jstr(x->getDecl()->getNameAsString()) + "," + stmt(x->getSubStmt()) + "]";
    if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<CapturedStmt>(S)) return stmt(x->getCapturedStmt());
    if (auto *x = dyn_cast<OMPCanonicalLoop>(S)) return stmt(x->getLoopStmt());
    if (auto *x = dyn_cast<OMPExecutableDirective>(S)) {
      std::string r = "[\"omp\"," + std::to_string(line(x->getBeginLoc())) + "," + jstr(llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str()) + ",[";
      bool f = true;
      for (auto *c : x->clauses()) {
        if (!c) continue;
        if (!f) r += ","; f = false;
        r += "[" + jstr(llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()) + "," + (c->isImplicit() ? "1" : "0") + ",[";
        bool g = true;
        std::string extra;
        if (auto *dc = dyn_cast<OMPDependClause>(c)) extra = jstr(std::to_string((int)dc->getDependencyKind()));
        if (auto *rc = dyn_cast<OMPReductionClause>(c)) extra = jstr(rc->getNameInfo().getAsString());
        for (auto *ch : c->children()) {
          if (!ch) continue;
          if (!isa<Expr>(ch)) continue;
          if (!g) r += ","; g = false;
          r += expr(cast<Expr>(ch));
        }
        r += "]";
        if (!extra.empty()) r += "," + extra;
        r += "]";
      }
      r += "],";
      if (x->hasAssociatedStmt()) {
        const Stmt *A = x->getAssociatedStmt();
        while (auto *CS = dyn_cast_or_null<CapturedStmt>(A)) A = CS->getCapturedStmt();
        r += stmt(A);
      } else r += "null";
      return r + "]";
    }
    if (auto *x = dyn_cast<Expr>(S)) return "[\"ex\"," + std::to_string(line(x->getBeginLoc())) + "," + expr(x) + "]";
    return std::string("[\"?s\",") + jstr(S->getStmtClassName()) + "]";
  }

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (isa<CXXDeductionGuideDecl>(FD)) return true;
    if (!inRoot(FD->getLocation())) return true;
    // explicit instantiation declarations/definitions
    if (FD->isTemplateInstantiation()) {
      auto k = FD->getTemplateSpecializationKind();
      if (k == TSK_ExplicitInstantiationDeclaration || k == TSK_ExplicitInstantiationDefinition) {
        SourceLocation P = FD->getPointOfInstantiation();
        if (seenEI.insert(FD).second)
        OS << "{\"k\":\"ei\",\"def\":" << (k == TSK_ExplicitInstantiationDefinition) << ",\"q\":" << jstr(FD->getQualifiedNameAsString()) << ",\"t\":" << jstr(targs(FD)) << ",\"mg\":" << jstr(mangled(FD)) << ",\"type\":" << jstr(ty(FD->getType()))
           << ",\"file\":" << jstr(fileC(P)) << ",\"line\":" << line(P) << "}\n";
      }
    }
    if (!FD->doesThisDeclarationHaveABody()) {
      if (!FD->isDefined() && !FD->isImplicit() && !FD->isTemplateInstantiation()) {
        if (!seenD.insert(FD->getCanonicalDecl()).second) return true;
        OS << "{\"k\":\"fdecl\"," << head(FD) << "}\n";
      }
      return true;
    }
    if (FD->isDefaulted() || FD->isImplicit()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return true;
    if (!seen.insert(FD->getCanonicalDecl()).second) return true;
    vid.clear(); nextVid = 0;
    std::string h = head(FD);
    std::string inits = "[";
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) {
      bool f = true;
      for (auto *I : C->inits()) {
        if (!I->getInit()) continue;
        if (!f) inits += ","; f = false;
        std::string nm = I->isAnyMemberInitializer() ? I->getAnyMember()->getNameAsString() : (I->isBaseInitializer() ? "base:" + ty(QualType(I->getBaseClass(), 0)) : "delegate");
        inits += "[" + jstr(nm) + "," + expr(I->getInit()) + "," + (I->isWritten() ? "1" : "0") + "]";
      }
    }
    inits += "]";
    std::string b = stmt(FD->getBody());
    OS << "{\"k\":\"fn\"," << h;
    if (inits != "[]") OS << ",\"inits\":" << inits;
    OS << ",\"body\":" << b << "}\n";
    return true;
  }
  std::set<const Decl *> seenD, seenEI;
  std::string head(const FunctionDecl *FD) {
    std::string r = "\"q\":" + jstr(FD->getQualifiedNameAsString()) + ",\"i\":\"" + fid(FD) + "\"";
    r += ",\"t\":" + jstr(targs(FD));
    r += ",\"file\":" + jstr(fileC(FD->getLocation())) + ",\"line\":" + std::to_string(line(FD->getLocation()));
    r += ",\"end\":" + std::to_string(line(FD->getEndLoc()));
    r += ",\"ret\":" + jstr(ty(FD->getReturnType()));
    r += ",\"dep\":" + std::string(FD->isDependentContext() ? "1" : "0");
    r += ",\"inst\":" + std::string(FD->isTemplateInstantiation() ? "1" : "0");
    r += ",\"inl\":" + std::string(FD->isInlined() ? "1" : "0");
    r += ",\"ext\":" + std::string(FD->isExternallyVisible() ? "1" : "0");
    r += ",\"spec\":" + std::to_string((int)FD->getTemplateSpecializationKind());
    if (FD->isExternC()) r += ",\"c\":1";
    if (FD->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) r += ",\"mg\":" + jstr(mangled(FD));
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      r += ",\"cls\":" + jstr(ty(Ctx.getTypeDeclType(M->getParent())));
      r += std::string(",\"mk\":") + (isa<CXXConstructorDecl>(M) ? "\"ctor\"" : isa<CXXDestructorDecl>(M) ? "\"dtor\"" : M->isStatic() ? "\"static\"" : "\"method\"");
      if (M->isConst()) r += ",\"const\":1";
    }
    r += ",\"ps\":[";
    bool f = true;
    for (auto *p : FD->parameters()) {
      if (!f) r += ","; f = false;
      r += param(p);
    }
    r += "]";
    return r;
  }
  std::set<const Decl *> seenV;
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!V->hasGlobalStorage()) return true;
    if (!inRoot(V->getLocation())) return true;
    if (!seenV.insert(V).second) return true;
    QualType T = V->getType();
    bool isConst = T.isConstQualified() || (T->isArrayType() && Ctx.getBaseElementType(T).isConstQualified());
    bool mutableMember = false;
    if (!T->isDependentType()) if (auto *RD = T->getBaseElementTypeUnsafe()->getAsCXXRecordDecl()) mutableMember = RD->hasDefinition() && RD->hasMutableFields();
    OS << "{\"k\":\"var\",\"q\":" << jstr(V->getQualifiedNameAsString()) << ",\"type\":" << jstr(ty(T)) << ",\"file\":" << jstr(fileC(V->getLocation())) << ",\"line\":" << line(V->getLocation())
       << ",\"const\":" << (isConst || V->isConstexpr()) << ",\"mut\":" << mutableMember << ",\"local\":" << V->isStaticLocal() << ",\"member\":" << V->isStaticDataMember()
       << ",\"ref\":" << T->isReferenceType() << ",\"tls\":" << (V->getTLSKind() != VarDecl::TLS_None) << ",\"def\":" << (int)V->isThisDeclarationADefinition()
       << ",\"inl\":" << V->isInline() << ",\"ext\":" << V->isExternallyVisible() << ",\"dep\":" << V->getDeclContext()->isDependentContext() << ",\"inst\":" << isTemplateInstantiation(V->getTemplateSpecializationKind()) << "}\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()) || E->isDependentContext()) return true;
    OS << "{\"k\":\"enum\",\"q\":" << jstr(E->getQualifiedNameAsString()) << ",\"type\":" << jstr(ty(Ctx.getTypeDeclType(E))) << ",\"file\":" << jstr(fileC(E->getLocation())) << ",\"line\":" << line(E->getLocation()) << ",\"vals\":[";
    bool f = true;
    for (auto *C : E->enumerators()) { if (!f) OS << ","; f = false; OS << "[" << jstr(C->getNameAsString()) << "," << C->getInitVal().getExtValue() << "]"; }
    OS << "]}\n";
    return true;
  }
  std::set<const Decl *> seenR;
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (!seenR.insert(R).second) return true;
    OS << "{\"k\":\"rec\",\"q\":" << jstr(R->getQualifiedNameAsString()) << ",\"type\":" << jstr(ty(Ctx.getTypeDeclType(R))) << ",\"file\":" << jstr(fileC(R->getLocation())) << ",\"line\":" << line(R->getLocation())
       << ",\"dep\":" << R->isDependentContext() << ",\"fields\":[";
    bool f = true;
    for (auto *F : R->fields()) { if (!f) OS << ","; f = false; OS << "[" << jstr(F->getNameAsString()) << "," << jstr(ty(F->getType())) << "]"; }
    OS << "],\"bases\":[";
    f = true;
    for (auto &b : R->bases()) { if (!f) OS << ","; f = false; OS << jstr(ty(b.getType())); }
    OS << "]}\n";
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasUncompilableErrorOccurred()) { gError = true; }
    std::ofstream o(OutPath);
    Dumper D(Ctx, o);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    o.close();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: ffdump OUT ROOTS FILE -- args\n"; return 2; }
  OutPath = argv[1];
  std::stringstream ss(argv[2]); std::string s;
  while (std::getline(ss, s, ',')) Roots.push_back(s);
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
  if (rc || gError) return 3;
  return 0;
}
