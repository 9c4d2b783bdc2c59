// qdbfacts: dumps the type-resolved syntax trees of every function defined under
// a source root (template instantiations and lambdas included) as JSON lines.
// It only parses; it neither executes nor modifies anything.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Basic/Diagnostic.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <set>
#include <map>
#include <iostream>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string gRoot;
static std::set<std::string> gSeen;
static llvm::raw_fd_ostream *gOut;
static int64_t ext(const llvm::APSInt &v) { return v.isRepresentableByInt64() ? v.getExtValue() : INT64_MAX; }
static long gIds = 0;

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const Decl *, long> ids;
  std::string mainFile;
  std::vector<const VarDecl*> pendingGlobals;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  long idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    return ids[D] = ++gIds;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto f = SM.getFilename(L).str();
    if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size());
    return f;
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto f = SM.getFilename(L);
    return f.starts_with(gRoot);
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string qname(const NamedDecl *D) {
    std::vector<std::string> parts;
    const Decl *cur = D;
    std::string nm;
    {
      if (auto *M = dyn_cast<CXXConstructorDecl>(D)) nm = M->getParent()->getNameAsString();
      else if (isa<CXXDestructorDecl>(D)) nm = "~" + cast<CXXDestructorDecl>(D)->getParent()->getNameAsString();
      else if (isa<CXXConversionDecl>(D)) nm = "operator " + typeStr(cast<CXXConversionDecl>(D)->getConversionType());
      else if (auto *R = dyn_cast<CXXRecordDecl>(D); R && R->isLambda()) {
        nm = "lambda@" + fileOf(R->getBeginLoc()) + ":" + std::to_string(lineOf(R->getBeginLoc())) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getBeginLoc()));
      }
      else nm = D->getNameAsString();
    }
    parts.push_back(nm);
    const DeclContext *DC = cur->getDeclContext();
    while (DC) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        auto *CR = dyn_cast<CXXRecordDecl>(R);
        if (CR && CR->isLambda()) { parts.push_back(qname(CR)); break; }
        parts.push_back(R->getNameAsString());
      } else if (isa<FunctionDecl>(DC)) {
        parts.push_back(qname(cast<FunctionDecl>(DC)));
        break;
      } else if (auto *E = dyn_cast<EnumDecl>(DC)) {
        if (!E->getNameAsString().empty()) parts.push_back(E->getNameAsString());
      }
      DC = DC->getParent();
    }
    std::string out;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (it->empty()) continue;
      if (!out.empty()) out += "::";
      out += *it;
    }
    return out;
  }

  std::string targStr(const TemplateArgument &A, int depth) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return typeStr(A.getAsType(), depth + 1);
      case TemplateArgument::Integral: return llvm::toString(A.getAsIntegral(), 10);
      case TemplateArgument::Pack: {
        std::string s;
        for (auto &p : A.pack_elements()) { if (!s.empty()) s += ","; s += targStr(p, depth); }
        return s;
      }
      default: return "?";
    }
  }

  std::string typeStr(QualType T, int depth = 0) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string pre, post;
    if (T->isLValueReferenceType()) { post = "&"; T = T->getPointeeType(); }
    else if (T->isRValueReferenceType()) { post = "&&"; T = T->getPointeeType(); }
    while (T->isPointerType()) { post = std::string("*") + post; T = T->getPointeeType(); }
    if (T.isConstQualified()) pre = "const ";
    T = T.getUnqualifiedType();
    if (auto *RT = T->getAs<RecordType>()) {
      auto *R = RT->getDecl();
      std::string n = qname(R);
      if (n == "std::basic_string") n = "std::string";
      else if (n == "std::basic_string_view") n = "std::string_view";
      else if (depth < 4) {
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          std::string a;
          unsigned cnt = 0, maxargs = 3;
          if (n == "std::vector" || n == "std::list" || n == "std::deque" || n == "std::set" || n == "std::unique_ptr") maxargs = 1;
          if (n == "std::map" || n == "std::multimap") maxargs = 2;
          for (auto &A : S->getTemplateArgs().asArray()) {
            if (cnt++ >= maxargs) break;
            if (!a.empty()) a += ",";
            a += targStr(A, depth);
          }
          n += "<" + a + ">";
        }
      }
      return pre + n + post;
    }
    if (auto *ET = T->getAs<EnumType>()) return pre + qname(ET->getDecl()) + post;
    PrintingPolicy PP(C.getLangOpts());
    return pre + T.getAsString(PP) + post;
  }

  std::string keyOf(const FunctionDecl *F) {
    std::string k;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) k = qname(M->getParent()) + "::operator()";
      else k = typeStr(C.getRecordType(M->getParent())) + "::" + (isa<CXXConstructorDecl>(M) ? "<ctor>" : isa<CXXDestructorDecl>(M) ? "<dtor>" : isa<CXXConversionDecl>(M) ? "operator " + typeStr(cast<CXXConversionDecl>(M)->getConversionType()) : M->getNameAsString());
    } else k = qname(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      k += "<";
      bool first = true;
      for (auto &A : TA->asArray()) { if (!first) k += ","; first = false; k += targStr(A, 1); }
      k += ">";
    }
    k += "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) k += ","; first = false; k += typeStr(P->getType()); }
    k += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) k += "const";
    // file-local functions need their file to be unique
    if (!isa<CXXMethodDecl>(F) && (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace())) k += "@" + fileOf(F->getLocation());
    return k;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(E)) E = I->getSubExpr();
      else if (auto *F = dyn_cast<FullExpr>(E)) E = F->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) E = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) E = B->getSubExpr();
      else if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = S->getReplacement();
      else if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) E = D->getExpr();
      else if (auto *D = dyn_cast<CXXDefaultInitExpr>(E)) E = D->getExpr();
      else if (auto *D = dyn_cast<CXXStdInitializerListExpr>(E)) E = D->getSubExpr();
      else if (auto *O = dyn_cast<OpaqueValueExpr>(E); O && O->getSourceExpr()) E = O->getSourceExpr();
      else break;
    }
    return E;
  }

  Value node(const char *k, SourceLocation L, Object o = Object()) {
    o["k"] = k;
    if (L.isValid()) o["l"] = lineOf(L);
    return Value(std::move(o));
  }

  Array exprs(llvm::ArrayRef<const Expr *> v) {
    Array a;
    for (auto *e : v) a.push_back(expr(e));
    return a;
  }

  void noteGlobal(const VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRepo(V->getLocation())) return;
    pendingGlobals.push_back(V);
  }

  static std::string sanitize(llvm::StringRef s) {
    // JSON needs UTF-8: encode every byte as latin-1 code point
    std::string o;
    for (unsigned char c : s) {
      if (c < 0x80) o.push_back(c);
      else { o.push_back(0xC0 | (c >> 6)); o.push_back(0x80 | (c & 0x3F)); }
    }
    return o;
  }

  Value calleeInfo(Object &o, const FunctionDecl *F) {
    o["f"] = qname(F);
    o["key"] = keyOf(F);
    o["rt"] = typeStr(F->getReturnType());
    if (inRepo(F->getLocation())) o["rp"] = 1;
    if (F->isNoReturn()) o["nr"] = 1;
    Array pm;
    for (auto *P : F->parameters()) {
      QualType t = P->getType();
      if (t->isReferenceType()) pm.push_back(t->getPointeeType().isConstQualified() ? "c" : (t->isRValueReferenceType() ? "m" : "r"));
      else if (t->isPointerType()) pm.push_back(t->getPointeeType().isConstQualified() ? "v" : "p");
      else pm.push_back("v");
    }
    o["pm"] = std::move(pm);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["cm"] = 1;
      if (M->isStatic()) o["sm"] = 1;
      if (M->isVirtual()) o["vm"] = 1;
    }
    return nullptr;
  }

  Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    SourceLocation L = E->getExprLoc();
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      Object o; o["v"] = I->getValue().getLimitedValue() > (uint64_t)INT64_MAX ? Value(INT64_MAX) : Value((int64_t)I->getValue().getLimitedValue());
      return node("int", L, std::move(o));
    }
    if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o; o["v"] = B->getValue(); return node("bool", L, std::move(o)); }
    if (auto *Ch = dyn_cast<CharacterLiteral>(E)) { Object o; o["v"] = (int64_t)(signed char)Ch->getValue(); return node("char", L, std::move(o)); }
    if (auto *S = dyn_cast<StringLiteral>(E)) { Object o; o["v"] = S->getCharByteWidth() == 1 ? sanitize(S->getString()) : std::string("?"); return node("str", L, std::move(o)); }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) { Object o; o["v"] = "__func__"; return node("str", L, std::move(o)); }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) { Object o; o["v"] = F->getValueAsApproximateDouble(); return node("float", L, std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", L);
    if (isa<CXXThisExpr>(E)) return node("this", L);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *V = D->getDecl();
      Object o;
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        o["n"] = qname(EC); o["v"] = ext(EC->getInitVal());
        return node("enum", L, std::move(o));
      }
      if (auto *FD = dyn_cast<FunctionDecl>(V)) {
        calleeInfo(o, FD);
        return node("fn", L, std::move(o));
      }
      o["t"] = typeStr(V->getType());
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage()) {
          o["n"] = qname(VD);
          o["st"] = "g";
          noteGlobal(VD);
          if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (VD->getAnyInitializer() && !VD->getAnyInitializer()->isValueDependent() && VD->getAnyInitializer()->EvaluateAsInt(R, C)) o["cv"] = ext(R.Val.getInt());
          }
          return node("ref", L, std::move(o));
        }
        o["id"] = idOf(VD);
        o["n"] = VD->getNameAsString();
        o["st"] = isa<ParmVarDecl>(VD) ? "p" : "l";
        return node("ref", L, std::move(o));
      }
      if (auto *BD = dyn_cast<BindingDecl>(V)) {
        o["id"] = idOf(BD); o["n"] = BD->getNameAsString(); o["st"] = "l";
        return node("ref", L, std::move(o));
      }
      o["n"] = qname(V); o["st"] = "?";
      return node("ref", L, std::move(o));
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      Object o;
      auto *MD = M->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(MD)) {
        o["n"] = qname(VD); o["st"] = "g"; o["t"] = typeStr(VD->getType());
        noteGlobal(VD);
        if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()) {
          Expr::EvalResult R;
          if (VD->getAnyInitializer() && !VD->getAnyInitializer()->isValueDependent() && VD->getAnyInitializer()->EvaluateAsInt(R, C)) o["cv"] = ext(R.Val.getInt());
        }
        return node("ref", L, std::move(o));
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(MD)) {
        o["n"] = qname(EC); o["v"] = ext(EC->getInitVal());
        return node("enum", L, std::move(o));
      }
      if (auto *FD = dyn_cast<FunctionDecl>(MD)) { calleeInfo(o, FD); return node("fn", L, std::move(o)); }
      o["f"] = qname(MD);
      o["b"] = expr(M->getBase());
      if (M->isArrow()) o["ar"] = 1;
      o["t"] = typeStr(MD->getType());
      return node("mem", L, std::move(o));
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o;
      auto *F = OC->getDirectCallee();
      std::vector<const Expr *> args(OC->arg_begin(), OC->arg_end());
      if (F) {
        calleeInfo(o, F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["o"] = expr(args[0]); args.erase(args.begin()); }
      } else o["f"] = "?";
      o["a"] = exprs(args);
      o["op"] = getOperatorSpelling(OC->getOperator());
      o["t"] = typeStr(E->getType());
      return node("call", L, std::move(o));
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o;
      auto *F = MC->getMethodDecl();
      if (F) {
        calleeInfo(o, F);
        o["o"] = expr(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["ar"] = 1;
          if (ME->hasQualifier()) o["ql"] = 1;
        }
      } else { o["f"] = "?"; o["o"] = expr(MC->getCallee()); }
      std::vector<const Expr *> args(MC->arg_begin(), MC->arg_end());
      o["a"] = exprs(args);
      o["t"] = typeStr(E->getType());
      return node("call", L, std::move(o));
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      Object o;
      if (auto *F = CE->getDirectCallee()) calleeInfo(o, F);
      else { o["f"] = "?"; o["ce"] = expr(CE->getCallee()); }
      std::vector<const Expr *> args(CE->arg_begin(), CE->arg_end());
      o["a"] = exprs(args);
      o["t"] = typeStr(E->getType());
      return node("call", L, std::move(o));
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(E)) {
      auto *F = CC->getConstructor();
      if (F->isCopyOrMoveConstructor() && CC->getNumArgs() >= 1) {
        Object o;
        o["e"] = expr(CC->getArg(0));
        o["c"] = typeStr(C.getRecordType(F->getParent()));
        if (F->isMoveConstructor()) o["mv"] = 1;
        if (inRepo(F->getLocation()) && F->isUserProvided()) { o["key"] = keyOf(F); o["up"] = 1; }
        return node("copy", L, std::move(o));
      }
      Object o;
      calleeInfo(o, F);
      o["c"] = typeStr(C.getRecordType(F->getParent()));
      std::vector<const Expr *> args(CC->arg_begin(), CC->arg_end());
      o["a"] = exprs(args);
      return node("ctor", L, std::move(o));
    }
    if (auto *IC = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o; o["c"] = qname(IC->getConstructor()->getParent()); o["a"] = Array(); return node("ctor", L, std::move(o)); }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      Object o;
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["e"] = expr(U->getSubExpr());
      o["t"] = typeStr(E->getType());
      return node("un", L, std::move(o));
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Object o;
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      o["t"] = typeStr(E->getType());
      if (B->isAssignmentOp()) return node("asg", L, std::move(o));
      return node("bin", L, std::move(o));
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
      Object o;
      o["c"] = expr(Q->getCond()); o["a"] = expr(Q->getTrueExpr()); o["b"] = expr(Q->getFalseExpr());
      o["t"] = typeStr(E->getType());
      return node("cond", L, std::move(o));
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      if (auto *CCE = dyn_cast_or_null<CXXConstructExpr>(strip(X->getSubExpr())); CCE && isa<CXXFunctionalCastExpr>(X)) return expr(X->getSubExpr());
      Object o;
      o["e"] = expr(X->getSubExpr());
      o["t"] = typeStr(X->getTypeAsWritten());
      if (X->getTypeAsWritten()->isVoidType()) o["void"] = 1;
      return node("cast", L, std::move(o));
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o; o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx()); o["t"] = typeStr(E->getType());
      return node("idx", L, std::move(o));
    }
    if (auto *T = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o;
      Expr::EvalResult R;
      if (!T->isValueDependent() && T->EvaluateAsInt(R, C)) { o["v"] = ext(R.Val.getInt()); }
      else o["v"] = 0;
      o["sz"] = typeStr(T->getTypeOfArgument());
      return node("int", L, std::move(o));
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Object o;
      o["t"] = typeStr(N->getAllocatedType());
      if (N->isArray() && N->getArraySize()) o["n"] = expr(*N->getArraySize());
      if (N->getInitializer()) o["e"] = expr(N->getInitializer());
      return node("new", L, std::move(o));
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { Object o; o["e"] = expr(D->getArgument()); return node("delete", L, std::move(o)); }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Object o;
      if (T->getSubExpr()) { o["e"] = expr(T->getSubExpr()); o["t"] = typeStr(T->getSubExpr()->getType()); }
      return node("throw", L, std::move(o));
    }
    if (auto *LE = dyn_cast<LambdaExpr>(E)) {
      Object o;
      auto *M = LE->getCallOperator();
      o["key"] = keyOf(M);
      o["params"] = params(M);
      Array caps;
      auto init = LE->capture_init_begin();
      for (auto &cap : LE->captures()) {
        Object co;
        if (cap.capturesThis()) co["this"] = 1;
        else if (cap.capturesVariable()) {
          co["id"] = idOf(cap.getCapturedVar());
          co["n"] = cap.getCapturedVar()->getNameAsString();
          co["by"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          if (LE->isInitCapture(&cap) && *init) co["e"] = expr(*init);
        }
        ++init;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["body"] = stmt(LE->getBody());
      return node("lambda", L, std::move(o));
    }
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (IL->isSemanticForm() == false && IL->getSemanticForm()) IL = IL->getSemanticForm();
      Object o;
      Array a;
      for (unsigned i = 0; i < IL->getNumInits(); i++) a.push_back(expr(IL->getInit(i)));
      o["a"] = std::move(a);
      o["t"] = typeStr(E->getType());
      return node("init", L, std::move(o));
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { Object o; o["t"] = typeStr(E->getType()); return node("zero", L, std::move(o)); }
    {
      Object o;
      o["c"] = E->getStmtClassName();
      Array a;
      for (auto *c : E->children()) {
        if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
        else if (c) a.push_back(stmt(c));
      }
      o["a"] = std::move(a);
      o["t"] = typeStr(E->getType());
      return node("x", L, std::move(o));
    }
  }

  Array params(const FunctionDecl *F) {
    Array a;
    for (auto *P : F->parameters()) {
      Object o;
      o["id"] = idOf(P);
      o["n"] = P->getNameAsString();
      o["t"] = typeStr(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) o["d"] = 1;
      a.push_back(std::move(o));
    }
    return a;
  }

  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro
    SourceLocation cur = L;
    std::string name;
    while (cur.isMacroID()) {
      name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
      cur = SM.getImmediateMacroCallerLoc(cur);
    }
    return name;
  }

  Value varDecl(const VarDecl *V) {
    Object o;
    o["id"] = idOf(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeStr(V->getType());
    if (V->isStaticLocal()) { o["static"] = 1; o["gn"] = qname(V); }
    if (V->getInit()) o["e"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *B : DD->bindings()) { Object bo; bo["id"] = idOf(B); bo["n"] = B->getNameAsString(); b.push_back(std::move(bo)); }
      o["bind"] = std::move(b);
    }
    o["l"] = lineOf(V->getLocation());
    return Value(std::move(o));
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o; o["e"] = expr(E);
      auto m = macroOf(L); if (!m.empty()) o["m"] = m;
      return node("expr", L, std::move(o));
    }
    if (auto *CS = dyn_cast<CompoundStmt>(S)) {
      Object o; Array a;
      for (auto *c : CS->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["el"] = lineOf(CS->getEndLoc());
      return node("block", L, std::move(o));
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Object o; Array a;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return node("decl", L, std::move(o));
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      Object o;
      if (I->isConstexpr()) {
        o["cx"] = 1;
        Expr::EvalResult R;
        if (!I->getCond()->isValueDependent() && I->getCond()->EvaluateAsInt(R, C)) o["cv"] = R.Val.getInt().getBoolValue();
      }
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cvar"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["t"] = stmt(I->getThen());
      if (I->getElse()) o["e"] = stmt(I->getElse());
      auto m = macroOf(L); if (!m.empty()) o["m"] = m;
      return node("if", L, std::move(o));
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      Object o;
      if (W->getConditionVariable()) o["cvar"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody());
      return node("while", L, std::move(o));
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      Object o; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody());
      return node("do", L, std::move(o));
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      Object o;
      if (F->getInit()) o["init"] = stmt(F->getInit());
      if (F->getConditionVariable()) o["cvar"] = varDecl(F->getConditionVariable());
      if (F->getCond()) o["c"] = expr(F->getCond());
      if (F->getInc()) o["inc"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return node("for", L, std::move(o));
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      Object o;
      o["v"] = varDecl(F->getLoopVariable());
      o["r"] = expr(F->getRangeInit());
      o["b"] = stmt(F->getBody());
      return node("rfor", L, std::move(o));
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      Object o;
      if (W->getInit()) o["init"] = stmt(W->getInit());
      if (W->getConditionVariable()) o["cvar"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody());
      if (W->isAllEnumCasesCovered()) o["all"] = 1;
      if (auto *ET = strip(W->getCond())->getType()->getAs<EnumType>()) {
        Array en;
        for (auto *ec : ET->getDecl()->enumerators()) en.push_back(qname(ec));
        o["enums"] = std::move(en);
      }
      return node("switch", L, std::move(o));
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      Object o; o["v"] = expr(K->getLHS());
      if (K->getRHS()) o["v2"] = expr(K->getRHS());
      o["s"] = stmt(K->getSubStmt());
      return node("case", L, std::move(o));
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) { Object o; o["s"] = stmt(K->getSubStmt()); return node("default", L, std::move(o)); }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Object o; if (R->getRetValue()) o["e"] = expr(R->getRetValue());
      return node("ret", L, std::move(o));
    }
    if (isa<BreakStmt>(S)) return node("break", L);
    if (isa<ContinueStmt>(S)) return node("continue", L);
    if (isa<NullStmt>(S)) return node("null", L);
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Object o; o["b"] = stmt(T->getTryBlock());
      Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        Object ho;
        ho["t"] = H->getCaughtType().isNull() ? std::string("...") : typeStr(H->getCaughtType());
        if (H->getExceptionDecl()) ho["v"] = varDecl(H->getExceptionDecl());
        ho["b"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return node("try", L, std::move(o));
    }
    if (auto *G = dyn_cast<GotoStmt>(S)) { Object o; o["n"] = G->getLabel()->getNameAsString(); return node("goto", L, std::move(o)); }
    if (auto *G = dyn_cast<LabelStmt>(S)) { Object o; o["n"] = G->getDecl()->getNameAsString(); o["s"] = stmt(G->getSubStmt()); return node("label", L, std::move(o)); }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    Object o; o["c"] = S->getStmtClassName();
    return node("xs", L, std::move(o));
  }

  void emit(const std::string &dedup, Object o) {
    if (!gSeen.insert(dedup).second) return;
    *gOut << Value(std::move(o)) << "\n";
  }

  void doFunction(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) {
      if (!F->isDefaulted()) return;
      if (!F->getBody()) return;
    }
    if (F->isDependentContext() || F->isTemplated()) return;
    if (!inRepo(F->getLocation())) return;
    if (F->isImplicit()) return;
    std::string key = keyOf(F);
    if (gSeen.count("F" + key)) return;
    gSeen.insert("F" + key);
    Object o;
    o["R"] = "fn";
    o["key"] = key;
    o["name"] = qname(F);
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    o["eline"] = lineOf(F->getEndLoc());
    o["ret"] = typeStr(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clst"] = typeStr(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virtual"] = 1;
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = 1;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
      Array ov;
      for (auto *x : M->overridden_methods()) ov.push_back(keyOf(x));
      if (!ov.empty()) o["over"] = std::move(ov);
    } else {
      o["acc"] = F->getStorageClass() == SC_Static || F->isInAnonymousNamespace() ? "static" : "public";
    }
    o["params"] = params(F);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) io["f"] = qname(I->getAnyMember());
        else if (I->isBaseInitializer()) io["base"] = typeStr(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = 1;
        io["e"] = expr(I->getInit());
        if (I->isWritten()) io["w"] = 1;
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    *gOut << Value(std::move(o)) << "\n";
  }

  void doRecord(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
    if (!inRepo(R->getLocation())) return;
    if (R->isLambda()) return;
    Object o;
    o["R"] = "rec";
    o["name"] = qname(R);
    std::string t = typeStr(C.getRecordType(R));
    o["t"] = t;
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    Array b;
    for (auto &x : R->bases()) b.push_back(typeStr(x.getType()));
    o["bases"] = std::move(b);
    Array fs;
    for (auto *f : R->fields()) {
      Object fo;
      fo["n"] = qname(f); fo["t"] = typeStr(f->getType()); fo["l"] = lineOf(f->getLocation());
      if (f->getInClassInitializer()) fo["e"] = expr(f->getInClassInitializer());
      if (f->isMutable()) fo["mut"] = 1;
      if (f->getType().isConstQualified() || f->getType()->isReferenceType()) fo["imm"] = 1;
      fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *m : R->methods()) {
      if (m->isImplicit()) continue;
      Object mo;
      mo["n"] = qname(m); mo["key"] = keyOf(m);
      if (m->isVirtual()) mo["virtual"] = 1;
      if (m->isDeleted()) mo["deleted"] = 1;
      if (m->isDefaulted()) mo["defaulted"] = 1;
      if (m->isConst()) mo["const"] = 1;
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    emit("R" + t, std::move(o));
  }

  void doEnum(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return;
    Object o;
    o["R"] = "enum"; o["name"] = qname(E); o["file"] = fileOf(E->getLocation()); o["line"] = lineOf(E->getLocation());
    Array a;
    for (auto *c : E->enumerators()) { Array p; p.push_back(qname(c)); p.push_back(ext(c->getInitVal())); a.push_back(std::move(p)); }
    o["vals"] = std::move(a);
    emit("E" + qname(E), std::move(o));
  }

  void doGlobal(const VarDecl *V0) {
    const VarDecl *V = V0;
    const VarDecl *def = nullptr;
    const Expr *init = V->getAnyInitializer(def);
    if (!init) return;
    if (init->isValueDependent() || init->isTypeDependent()) return;
    Object o;
    o["R"] = "glob"; o["name"] = qname(V); o["t"] = typeStr(V->getType());
    o["file"] = fileOf(def->getLocation()); o["line"] = lineOf(def->getLocation());
    o["e"] = expr(init);
    emit("G" + qname(V), std::move(o));
  }

  void walk(const DeclContext *DC) {
    for (auto *D : DC->decls()) visit(D);
  }
  void visit(const Decl *D) {
    if (auto *N = dyn_cast<NamespaceDecl>(D)) {
      auto n = N->getName();
      if (n == "std" || n == "__gnu_cxx" || n == "rocksdb" || n == "asio" || n == "boost") {
        return;
      }
      walk(N); return;
    }
    if (auto *LS = dyn_cast<LinkageSpecDecl>(D)) { walk(LS); return; }
    if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
      if (!inRepo(CT->getLocation())) return;
      for (auto *S : CT->specializations()) {
        if (S->isCompleteDefinition()) { doRecord(S); walk(S); }
      }
      return;
    }
    if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
      if (!inRepo(FT->getLocation())) return;
      for (auto *S : FT->specializations()) {
        const FunctionDecl *def = nullptr;
        if (S->hasBody(def)) doFunction(def);
      }
      return;
    }
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) {
      if (!inRepo(R->getLocation())) return;
      doRecord(R);
      if (!R->isDependentContext()) walk(R);
      return;
    }
    if (auto *E = dyn_cast<EnumDecl>(D)) { doEnum(E); return; }
    if (auto *F = dyn_cast<FunctionDecl>(D)) { doFunction(F); return; }
    if (auto *V = dyn_cast<VarDecl>(D)) { if (inRepo(V->getLocation()) && V->hasGlobalStorage() && !V->isTemplated()) doGlobal(V); return; }
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper d(C);
    d.walk(C.getTranslationUnitDecl());
    for (size_t i = 0; i < d.pendingGlobals.size(); i++) d.doGlobal(d.pendingGlobals[i]);
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}

// usage: qdbfacts ROOT OUT FLAGSFILE FILE...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  gRoot = argv[1];
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[2], ec);
  gOut = &out;
  std::vector<std::string> flags;
  { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) if (!l.empty()) flags.push_back(l); }
  tooling::FixedCompilationDatabase db("/", flags);
  for (int i = 4; i < argc; i++) {
    std::vector<std::string> one{argv[i]};
    tooling::ClangTool tool(db, one);
    Factory f;
    int rc = tool.run(&f);
    Object o; o["R"] = "tu"; o["file"] = argv[i]; o["ok"] = rc == 0;
    *gOut << Value(std::move(o)) << "\n";
  }
  return 0;
}
