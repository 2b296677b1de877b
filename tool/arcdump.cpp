// arcdump: parses one translation unit with clang and dumps, as JSON, the resolved program of every
// function (template instantiations and lambda bodies included) that is defined under the given roots.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Funcs, Records, Globals;
  std::map<const Decl *, int> DeclIds;
  std::set<const Decl *> SeenF, SeenR, SeenG;
  std::vector<const FunctionDecl *> Work;
  std::vector<const RecordDecl *> RWork;

  explicit Dumper(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoots(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    StringRef F = SM.getFilename(L);
    for (auto &R : Roots)
      if (F.starts_with(R)) return true;
    return false;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) { return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = (int)DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    // qualified name without template arguments, without inline namespaces
    std::string s;
    std::vector<std::string> parts;
    const DeclContext *DC = D->getDeclContext();
    std::string n = D->getDeclName().getAsString();
    if (isa<CXXConstructorDecl>(D)) n = cast<CXXConstructorDecl>(D)->getParent()->getNameAsString();
    if (isa<CXXDestructorDecl>(D)) n = "~" + cast<CXXDestructorDecl>(D)->getParent()->getNameAsString();
    parts.push_back(n);
    while (DC) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        parts.push_back(R->getNameAsString());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getDeclName().getAsString());
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!s.empty()) s += "::";
      s += *it;
    }
    return s;
  }
  std::string targs(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *A = F->getTemplateSpecializationArgs()) {
      bool first = true;
      for (auto &a : A->asArray()) {
        if (!first) os << ", ";
        first = false;
        a.print(PP, os, true);
      }
    }
    return os.str();
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> Buf;
    if (index::generateUSRForDecl(D, Buf)) return "";
    std::string r(Buf.str());
    // two lambdas of one instantiated function share a USR: tell them apart by where they are written
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
      if (auto *R = dyn_cast<CXXRecordDecl>(DC))
        if (R->isLambda()) {
          auto L = SM.getSpellingLoc(R->getBeginLoc());
          r += "@lam" + std::to_string(SM.getFileOffset(L)) + "@" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(R->getBeginLoc())));
        }
    return r;
  }
  const FunctionDecl *def(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    return F;
  }
  void noteFn(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) D = F;
    if (D->isDependentContext()) return;
    Work.push_back(D);
  }

  // ---------- expressions
  json::Value E(const Expr *X) {
    if (!X) return nullptr;
    json::Object o = expr(X);
    const Expr *I = X;
    if (!o.get("t")) o["t"] = ty(I->getType());
    if (!o.get("ln")) o["ln"] = line(X->getBeginLoc());
    if (I->isLValue()) o["lv"] = true;
    return json::Value(std::move(o));
  }
  json::Array EA(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto *e : A) r.push_back(E(e));
    return r;
  }
  template <class T>
  json::Array EArgs(T *CE, unsigned from = 0) {
    json::Array r;
    for (unsigned i = from; i < CE->getNumArgs(); i++) r.push_back(E(CE->getArg(i)));
    return r;
  }
  static std::string apint(const llvm::APSInt &v) {
    llvm::SmallString<40> s;
    v.toString(s, 10);
    return std::string(s.str());
  }
  json::Value apv(const APValue &V) {
    switch (V.getKind()) {
      case APValue::Int:
        return json::Object{{"k", "int"}, {"v", apint(V.getInt())}};
      case APValue::Float: {
        llvm::SmallString<60> s;
        V.getFloat().toString(s, 25);
        return json::Object{{"k", "flt"}, {"v", std::string(s.str())}};
      }
      case APValue::Array: {
        json::Array a;
        unsigned n = V.getArraySize(), m = V.getArrayInitializedElts();
        for (unsigned i = 0; i < n && i < 70000; i++) {
          if (i < m)
            a.push_back(apv(V.getArrayInitializedElt(i)));
          else if (V.hasArrayFiller())
            a.push_back(apv(V.getArrayFiller()));
        }
        return json::Object{{"k", "arr"}, {"e", std::move(a)}};
      }
      case APValue::Struct: {
        json::Array a;
        for (unsigned i = 0; i < V.getStructNumFields(); i++) a.push_back(apv(V.getStructField(i)));
        return json::Object{{"k", "struct"}, {"e", std::move(a)}};
      }
      default:
        return json::Object{{"k", "unk"}};
    }
  }
  bool tryConst(const Expr *X, json::Object &o) {
    if (X->isValueDependent() || X->isTypeDependent()) return false;
    QualType T = X->getType();
    if (T->isIntegralOrEnumerationType() && !X->isLValue()) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        o["cv"] = apint(R.Val.getInt());
        return true;
      }
    } else if (T->isRealFloatingType() && !X->isLValue()) {
      llvm::APFloat F(0.0);
      if (X->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<60> s;
        F.toString(s, 25);
        o["cf"] = std::string(s.str());
        return true;
      }
    }
    return false;
  }
  void fnref(json::Object &o, const FunctionDecl *F) {
    o["q"] = qname(F);
    o["f"] = usr(F);
    if (F->isNoReturn()) o["nr"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["mconst"] = true;
      if (M->isStatic()) o["mstatic"] = true;
    }
    std::string ta = targs(F);
    if (!ta.empty()) o["ta"] = ta;
    json::Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if (inRoots(F->getLocation())) noteFn(F);
  }
  json::Object expr(const Expr *X) {
    json::Object o;
    // transparent nodes
    if (auto *P = dyn_cast<ParenExpr>(X)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(X)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) {
      json::Object r = expr(P->getSubExpr());
      r["tmp"] = true;
      return r;
    }
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) {
      o["k"] = "il";
      o["e"] = json::Array{E(P->getSubExpr())};
      return o;
    }
    if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
      switch (P->getCastKind()) {
        case CK_LValueToRValue: {
          json::Object r = expr(P->getSubExpr());
          r["ld"] = true;
          r["t"] = ty(P->getType());
          return r;
        }
        case CK_NoOp:
        case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        case CK_NullToPointer:
        case CK_BuiltinFnToFnPtr:
          return expr(P->getSubExpr());
        default:
          break;
      }
    }
    if (auto *P = dyn_cast<CastExpr>(X)) {
      if (isa<ExplicitCastExpr>(X)) {
        switch (P->getCastKind()) {
          case CK_NoOp:
          case CK_LValueToRValue:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
          case CK_DerivedToBase:
          case CK_UncheckedDerivedToBase: {
            json::Object r = expr(P->getSubExpr());
            return r;
          }
          default:
            break;
        }
      }
      o["k"] = "cast";
      o["kind"] = P->getCastKindName();
      o["e"] = E(P->getSubExpr());
      o["t"] = ty(P->getType());
      o["ft"] = ty(P->getSubExpr()->getType());
      if (isa<ImplicitCastExpr>(X)) o["imp"] = true;
      tryConst(X, o);
      return o;
    }
    if (auto *P = dyn_cast<IntegerLiteral>(X)) {
      o["k"] = "int";
      llvm::SmallString<40> s;
      P->getValue().toString(s, 10, P->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *P = dyn_cast<CharacterLiteral>(X)) {
      o["k"] = "int";
      o["v"] = std::to_string(P->getValue());
      return o;
    }
    if (auto *P = dyn_cast<FloatingLiteral>(X)) {
      o["k"] = "flt";
      // source spelling keeps the decimal value
      llvm::SmallString<60> s;
      P->getValue().toString(s, 25);
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *P = dyn_cast<clang::StringLiteral>(X)) {
      o["k"] = "str";
      if (P->getCharByteWidth() == 1) {
        std::string b = P->getString().str();
        std::string esc;
        for (unsigned char c : b) {
          if (c >= 32 && c < 127)
            esc += (char)c;
          else {
            char buf[8];
            snprintf(buf, sizeof buf, "\\x%02x", c);
            esc += buf;
          }
        }
        o["v"] = esc;
        o["len"] = (int)b.size();
      }
      return o;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(X)) {
      o["k"] = "str";
      o["v"] = "__func__";
      (void)P;
      return o;
    }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(X)) {
      o["k"] = "int";
      o["v"] = P->getValue() ? "1" : "0";
      o["b"] = true;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) {
      o["k"] = "null";
      return o;
    }
    if (isa<CXXThisExpr>(X)) {
      o["k"] = "this";
      return o;
    }
    if (auto *P = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = P->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int";
        o["v"] = apint(EC->getInitVal());
        o["en"] = qname(EC);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fn";
        fnref(o, F);
        return o;
      }
      o["k"] = "var";
      o["n"] = D->getNameAsString();
      o["id"] = id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V))
          o["sc"] = "param";
        else if (V->isLocalVarDecl() && !V->isStaticLocal())
          o["sc"] = "local";
        else {
          o["sc"] = V->isStaticLocal() ? "static" : "global";
          o["q"] = qname(V);
          noteGlobal(V);
        }
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (P->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      }
      tryConst(X, o);
      if (!o.get("cv") && X->getType().isConstQualified() && X->isLValue()) {
        Expr::EvalResult R;
        if (!X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() &&
            X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
          o["cv"] = apint(R.Val.getInt());
        else if (X->getType()->isRealFloatingType()) {
          llvm::APFloat F(0.0);
          if (X->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
            llvm::SmallString<60> s;
            F.toString(s, 25);
            o["cf"] = std::string(s.str());
          }
        }
      }
      return o;
    }
    if (auto *P = dyn_cast<MemberExpr>(X)) {
      const ValueDecl *D = P->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "memfn";
        o["o"] = E(P->getBase());
        fnref(o, F);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var";
        o["n"] = V->getNameAsString();
        o["id"] = id(V);
        o["sc"] = "global";
        o["q"] = qname(V);
        noteGlobal(V);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int";
        o["v"] = apint(EC->getInitVal());
        return o;
      }
      o["k"] = "mem";
      o["o"] = E(P->getBase());
      o["n"] = D->getNameAsString();
      if (P->isArrow()) o["arrow"] = true;
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        o["rec"] = qname(FD->getParent());
        if (FD->getNameAsString().empty()) o["anon"] = true;
        if (FD->getParent()->isUnion()) o["union"] = true;
        if (FD->getType()->isReferenceType()) o["ref"] = true;
      }
      return o;
    }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(X)) {
      o["k"] = "idx";
      o["o"] = E(P->getBase());
      o["i"] = E(P->getIdx());
      if (auto *A = C.getAsConstantArrayType(P->getBase()->IgnoreParenImpCasts()->getType()))
        o["n"] = std::to_string(A->getSize().getZExtValue());
      return o;
    }
    if (auto *P = dyn_cast<UnaryOperator>(X)) {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["e"] = E(P->getSubExpr());
      tryConst(X, o);
      return o;
    }
    if (auto *P = dyn_cast<BinaryOperator>(X)) {
      o["k"] = "bin";
      o["op"] = P->getOpcodeStr().str();
      o["l"] = E(P->getLHS());
      o["r"] = E(P->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = ty(CA->getComputationResultType());
      if (!P->isAssignmentOp() && !P->isCommaOp()) tryConst(X, o);
      return o;
    }
    if (auto *P = dyn_cast<ConditionalOperator>(X)) {
      o["k"] = "cond";
      o["c"] = E(P->getCond());
      o["a"] = E(P->getTrueExpr());
      o["b"] = E(P->getFalseExpr());
      return o;
    }
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      o["k"] = "int";
      o["szof"] = P->isArgumentType() ? ty(P->getArgumentType()) : ty(P->getArgumentExpr()->getType());
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) o["v"] = apint(R.Val.getInt());
      return o;
    }
    if (auto *P = dyn_cast<CXXOperatorCallExpr>(X)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(P->getOperator());
      const FunctionDecl *F = P->getDirectCallee();
      unsigned from = 0;
      if (F) {
        fnref(o, F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          o["o"] = E(P->getArg(0));
          from = 1;
        }
      }
      o["a"] = EArgs(P, from);
      o["ln"] = line(P->getOperatorLoc());
      return o;
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(X)) {
      o["k"] = "call";
      const CXXMethodDecl *M = P->getMethodDecl();
      if (M) {
        fnref(o, M);
        o["o"] = E(P->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["virt"] = false;
          o["ln"] = line(ME->getMemberLoc());
        }
      } else {
        o["ce"] = E(P->getCallee());
      }
      o["a"] = EArgs(P);
      return o;
    }
    if (auto *P = dyn_cast<CallExpr>(X)) {
      o["k"] = "call";
      if (const FunctionDecl *F = P->getDirectCallee())
        fnref(o, F);
      else
        o["ce"] = E(P->getCallee());
      o["a"] = EArgs(P);
      tryConst(X, o);
      return o;
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
      const CXXConstructorDecl *D = P->getConstructor();
      o["k"] = "ctor";
      fnref(o, D);
      o["rec"] = qname(D->getParent());
      if (D->isCopyConstructor()) o["cm"] = "copy";
      if (D->isMoveConstructor()) o["cm"] = "move";
      if (D->isDefaultConstructor()) o["dflt"] = true;
      if (!D->isUserProvided()) o["triv"] = true;
      if (P->isListInitialization()) o["list"] = true;
      o["a"] = EArgs(P);
      o["t"] = ty(P->getType());
      noteRec(D->getParent());
      return o;
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
      o["k"] = "ctor";
      fnref(o, P->getConstructor());
      o["inh"] = true;
      o["a"] = json::Array();
      return o;
    }
    if (auto *P = dyn_cast<InitListExpr>(X)) {
      o["k"] = "init";
      json::Array a;
      for (unsigned i = 0; i < P->getNumInits(); i++) a.push_back(E(P->getInit(i)));
      o["e"] = std::move(a);
      if (auto *RT = P->getType()->getAs<RecordType>()) {
        json::Array fs;
        for (auto *f : RT->getDecl()->fields()) fs.push_back(f->getNameAsString());
        o["fs"] = std::move(fs);
        o["rec"] = qname(RT->getDecl());
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
      o["k"] = "zero";
      return o;
    }
    if (auto *P = dyn_cast<LambdaExpr>(X)) {
      o["k"] = "lambda";
      CXXMethodDecl *M = P->getCallOperator();
      const FunctionDecl *F = M;
      if (P->isGenericLambda()) {
        json::Array sp;
        for (auto *S : P->getDependentCallOperator() ? std::vector<FunctionDecl *>() : std::vector<FunctionDecl *>())
          (void)S;
        o["generic"] = true;
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) {
            sp.push_back(usr(S));
            noteFn(S);
          }
        o["specs"] = std::move(sp);
        F = nullptr;
      }
      if (F) {
        o["f"] = usr(F);
        noteFn(F);
      } else
        o["f"] = usr(M);
      json::Array caps;
      auto ci = P->capture_init_begin();
      for (auto &cap : P->captures()) {
        json::Object c;
        if (cap.capturesThis())
          c["this"] = true;
        else if (cap.capturesVariable()) {
          c["n"] = cap.getCapturedVar()->getNameAsString();
          c["id"] = id(cap.getCapturedVar());
          c["byref"] = cap.getCaptureKind() == LCK_ByRef;
        }
        if (*ci && !cap.capturesThis()) c["e"] = E(*ci);
        ++ci;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *P = dyn_cast<CXXNewExpr>(X)) {
      o["k"] = "new";
      o["nt"] = ty(P->getAllocatedType());
      if (P->isArray() && P->getArraySize()) o["arr"] = E(*P->getArraySize());
      if (P->getInitializer()) o["init"] = E(P->getInitializer());
      return o;
    }
    if (auto *P = dyn_cast<CXXDeleteExpr>(X)) {
      o["k"] = "delete";
      o["e"] = E(P->getArgument());
      if (P->isArrayForm()) o["arr"] = true;
      return o;
    }
    if (auto *P = dyn_cast<CXXThrowExpr>(X)) {
      o["k"] = "throw";
      o["nr"] = true;
      if (P->getSubExpr()) o["e"] = E(P->getSubExpr());
      return o;
    }
    if (auto *P = dyn_cast<OpaqueValueExpr>(X)) return P->getSourceExpr() ? expr(P->getSourceExpr()) : std::move(o);
    if (auto *P = dyn_cast<StmtExpr>(X)) {
      o["k"] = "stmtexpr";
      o["body"] = S(P->getSubStmt());
      return o;
    }
    if (tryConst(X, o)) {
      o["k"] = "int";
      if (o.get("cf"))
        o["k"] = "flt", o["v"] = *o.get("cf");
      else
        o["v"] = *o.get("cv");
      return o;
    }
    o["k"] = "unk";
    o["c"] = X->getStmtClassName();
    json::Array kids;
    for (auto *K : X->children())
      if (auto *KE = dyn_cast_or_null<Expr>(K)) kids.push_back(E(KE));
    o["e"] = std::move(kids);
    return o;
  }

  // ---------- statements
  json::Object varDecl(const VarDecl *V) {
    json::Object v;
    v["id"] = id(V);
    v["n"] = V->getNameAsString();
    v["t"] = ty(V->getType());
    if (V->isStaticLocal()) v["static"] = true;
    if (V->getType()->isReferenceType()) v["ref"] = true;
    if (V->getType().isConstQualified()) v["const"] = true;
    if (auto *RD = V->getType()->getAsCXXRecordDecl()) noteRec(RD);
    if (V->hasInit()) v["init"] = E(V->getInit());
    v["ln"] = line(V->getLocation());
    return v;
  }
  json::Value S(const Stmt *X) {
    if (!X) return nullptr;
    json::Object o;
    o["ln"] = line(X->getBeginLoc());
    if (auto *P = dyn_cast<CompoundStmt>(X)) {
      o["k"] = "blk";
      json::Array a;
      for (auto *s : P->body()) a.push_back(S(s));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<DeclStmt>(X)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *d : P->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *P = dyn_cast<IfStmt>(X)) {
      o["k"] = "if";
      if (P->getInit()) o["init"] = S(P->getInit());
      if (P->getConditionVariable()) o["cvar"] = varDecl(P->getConditionVariable());
      o["c"] = E(P->getCond());
      o["a"] = S(P->getThen());
      if (P->getElse()) o["b"] = S(P->getElse());
      return o;
    }
    if (auto *P = dyn_cast<ForStmt>(X)) {
      o["k"] = "for";
      o["init"] = S(P->getInit());
      o["c"] = P->getCond() ? E(P->getCond()) : json::Value(nullptr);
      o["inc"] = P->getInc() ? E(P->getInc()) : json::Value(nullptr);
      o["body"] = S(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<WhileStmt>(X)) {
      o["k"] = "while";
      o["c"] = E(P->getCond());
      o["body"] = S(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<DoStmt>(X)) {
      o["k"] = "do";
      o["c"] = E(P->getCond());
      o["body"] = S(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<CXXForRangeStmt>(X)) {
      o["k"] = "rfor";
      o["var"] = varDecl(P->getLoopVariable());
      o["range"] = E(P->getRangeInit());
      o["body"] = S(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<SwitchStmt>(X)) {
      o["k"] = "switch";
      o["c"] = E(P->getCond());
      o["body"] = S(P->getBody());
      return o;
    }
    if (auto *P = dyn_cast<CaseStmt>(X)) {
      o["k"] = "case";
      o["v"] = E(P->getLHS());
      o["s"] = S(P->getSubStmt());
      return o;
    }
    if (auto *P = dyn_cast<DefaultStmt>(X)) {
      o["k"] = "default";
      o["s"] = S(P->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(X)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(X)) {
      o["k"] = "continue";
      return o;
    }
    if (auto *P = dyn_cast<ReturnStmt>(X)) {
      o["k"] = "ret";
      if (P->getRetValue()) o["e"] = E(P->getRetValue());
      return o;
    }
    if (auto *P = dyn_cast<CXXTryStmt>(X)) {
      o["k"] = "try";
      o["body"] = S(P->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < P->getNumHandlers(); i++) {
        auto *H = P->getHandler(i);
        json::Object ho;
        if (H->getExceptionDecl()) ho["var"] = varDecl(H->getExceptionDecl());
        ho["body"] = S(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (isa<NullStmt>(X)) {
      o["k"] = "nop";
      return o;
    }
    if (auto *P = dyn_cast<OMPExecutableDirective>(X)) {
      o["k"] = "omp";
      o["d"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : P->clauses()) {
        json::Object co;
        co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        json::Array vs;
        for (auto *ch : c->children())
          if (auto *DR = dyn_cast_or_null<DeclRefExpr>(ch)) vs.push_back(id(DR->getDecl()));
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      const Stmt *B = nullptr;
      if (P->hasAssociatedStmt()) {
        B = P->getAssociatedStmt();
        while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
      }
      o["body"] = S(B);
      return o;
    }
    if (auto *P = dyn_cast<LabelStmt>(X)) {
      o["k"] = "label";
      o["n"] = P->getName();
      o["s"] = S(P->getSubStmt());
      return o;
    }
    if (auto *P = dyn_cast<AttributedStmt>(X)) return S(P->getSubStmt());
    if (auto *P = dyn_cast<Expr>(X)) {
      o["k"] = "expr";
      o["e"] = E(P);
      return o;
    }
    o["k"] = "unk";
    o["c"] = X->getStmtClassName();
    return o;
  }

  // ---------- declarations
  void noteRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!inRoots(R->getLocation())) return;
    if (SeenR.insert(R->getCanonicalDecl()).second) emitRec(R);
  }
  static const char *sm(bool user, bool del, bool deflt, bool exists) {
    if (del) return "deleted";
    if (user) return "user";
    if (deflt) return "default";
    return exists ? "implicit" : "none";
  }
  void emitRec(const CXXRecordDecl *R) {
    json::Object o;
    o["q"] = qname(R);
    o["t"] = ty(C.getTypeDeclType(R));
    o["file"] = file(R->getLocation());
    o["ln"] = line(R->getLocation());
    json::Array fs;
    for (auto *f : R->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"ln", line(f->getLocation())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
      if (f->getType().isConstQualified()) fo["const"] = true;
      fo["acc"] = (int)f->getAccess();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto &b : R->bases()) {
      bs.push_back(ty(b.getType()));
      if (auto *BR = b.getType()->getAsCXXRecordDecl()) noteRec(BR);
    }
    o["bases"] = std::move(bs);
    json::Array ms;
    auto sp = [&](const char *k, bool user, bool del, bool exists) { o[k] = del ? "deleted" : user ? "user" : exists ? "default" : "none"; };
    bool cu = false, cd = false, ce = false, au = false, ad = false, ae = false, mcu = false, mcd = false, mce = false, mau = false, mad = false, mae = false;
    for (auto *c : R->ctors()) {
      if (c->isCopyConstructor()) { ce = true; cu |= c->isUserProvided(); cd |= c->isDeleted(); }
      if (c->isMoveConstructor()) { mce = true; mcu |= c->isUserProvided(); mcd |= c->isDeleted(); }
    }
    for (auto *m : R->methods()) {
      if (m->isCopyAssignmentOperator()) { ae = true; au |= m->isUserProvided(); ad |= m->isDeleted(); }
      if (m->isMoveAssignmentOperator()) { mae = true; mau |= m->isUserProvided(); mad |= m->isDeleted(); }
      json::Object mo{{"n", m->getNameAsString()}, {"f", usr(m)}, {"virt", m->isVirtual()}, {"const", m->isConst()}, {"acc", (int)m->getAccess()}, {"user", m->isUserProvided()}};
      json::Array ov;
      for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
      mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
      if (m->isUserProvided() && !m->isDependentContext() && (m->hasBody() || m->getTemplateInstantiationPattern())) noteFn(m);
    }
    if (!ce && !R->needsImplicitCopyConstructor()) cd = R->defaultedCopyConstructorIsDeleted();
    if (R->needsImplicitCopyConstructor()) { ce = true; cd = R->defaultedCopyConstructorIsDeleted(); }
    if (R->needsImplicitCopyAssignment()) { ae = true; ad = R->implicitCopyAssignmentHasConstParam() ? false : false; }
    if (R->needsImplicitMoveConstructor()) mce = true;
    if (R->needsImplicitMoveAssignment()) mae = true;
    sp("cc", cu, cd, ce);
    sp("ca", au, ad, ae);
    sp("mc", mcu, mcd, mce);
    sp("ma", mau, mad, mae);
    bool du = R->getDestructor() && R->getDestructor()->isUserProvided();
    sp("dtor", du, false, true);
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void noteGlobal(const VarDecl *V) {
    const VarDecl *D = V->getDefinition();
    if (!D) D = V;
    if (!inRoots(D->getLocation())) return;
    if (!SeenG.insert(D->getCanonicalDecl()).second) return;
    if (D->getType()->isDependentType()) return;
    json::Object o;
    o["q"] = qname(D);
    o["id"] = id(D);
    o["t"] = ty(D->getType());
    o["file"] = file(D->getLocation());
    o["ln"] = line(D->getLocation());
    o["const"] = D->getType().isConstQualified() || (C.getAsArrayType(D->getType()) && C.getAsArrayType(D->getType())->getElementType().isConstQualified());
    if (D->isStaticLocal()) o["staticlocal"] = true;
    if (D->hasInit() && !D->getInit()->isValueDependent()) {
      if (auto *V2 = D->evaluateValue())
        o["cv"] = apv(*V2);
      else
        o["init"] = E(D->getInit());
    }
    Globals.push_back(std::move(o));
  }
  void emitFn(const FunctionDecl *F) {
    if (!SeenF.insert(F->getCanonicalDecl()).second) return;
    if (!F->doesThisDeclarationHaveABody()) { SeenF.erase(F->getCanonicalDecl()); return; }
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation())) return;
    json::Object o;
    o["f"] = usr(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["ln"] = line(F->getLocation());
    o["eln"] = line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    std::string ta = targs(F);
    if (!ta.empty()) o["ta"] = ta;
    const char *kind = "func";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      kind = "method";
      o["rec"] = qname(M->getParent());
      o["rect"] = ty(C.getTypeDeclType(M->getParent()));
      o["virt"] = M->isVirtual();
      o["mconst"] = M->isConst();
      o["mstatic"] = M->isStatic();
      o["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *x : M->overridden_methods()) ov.push_back(usr(x));
      o["ov"] = std::move(ov);
      if (M->getParent()->isLambda()) kind = "lambda";
      noteRec(M->getParent());
    }
    if (isa<CXXConstructorDecl>(F)) kind = "ctor";
    if (isa<CXXDestructorDecl>(F)) kind = "dtor";
    o["kind"] = kind;
    if (F->isDefaulted()) o["defaulted"] = true;
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object po{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}};
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) po["def"] = E(P->getDefaultArg());
      ps.push_back(std::move(po));
      if (auto *RD = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) noteRec(RD);
    }
    o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      if (CD->isCopyConstructor()) o["cm"] = "copy";
      if (CD->isMoveConstructor()) o["cm"] = "move";
      if (CD->isDefaultConstructor()) o["dflt"] = true;
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer())
          io["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          io["base"] = ty(QualType(I->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = E(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = S(F->getBody());
    Funcs.push_back(std::move(o));
  }

  // ---------- visitors
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isImplicit() && !isa<CXXMethodDecl>(F)) return true;
    if (F->isImplicit() || F->isDefaulted()) return true;
    if (!inRoots(F->getLocation())) return true;
    Work.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isLambda()) noteRec(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!isa<ParmVarDecl>(V) && !V->isLocalVarDecl() && !V->getDeclContext()->isDependentContext()) noteGlobal(V);
    return true;
  }
  void finish() {
    while (!Work.empty()) {
      auto W = std::move(Work);
      Work.clear();
      for (auto *F : W) emitFn(F);
    }
  }
};

static bool Failed = false;
class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.finish();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    json::Object top;
    top["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    top["funcs"] = std::move(D.Funcs);
    top["records"] = std::move(D.Records);
    top["globals"] = std::move(D.Globals);
    os << json::Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

// arcdump OUT FILE ROOT[,ROOT..] -- flags
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1];
  std::string File = argv[2];
  std::string rs = argv[3];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = rs.find(',', p);
    Roots.push_back(rs.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {File});
  Tool.setPrintErrorMessage(true);
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
