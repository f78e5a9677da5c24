// cxx2json: lowers the functions of a C++ translation unit to JSON for the VC generator.
// Everything reachable from the functions defined in the main file is emitted with its body
// as long as the definition lives under one of the given source prefixes (or the main file).
// Nothing is rewritten: each node is one clang AST node; dropped are only value-preserving
// wrappers (parens, cleanups, temporaries) - see DESIGN.md "What the extraction drops".
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;

struct Lower {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Type *, int> typeIds;
  json::Array types;
  std::map<const Decl *, int> declIds;
  json::Array functions, records;
  std::set<const FunctionDecl *> queued;
  std::deque<const FunctionDecl *> work;
  std::map<const CXXRecordDecl *, int> recIds;
  json::Array globals;
  std::set<const VarDecl *> globalsDone;

  Lower(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int id = (int)declIds.size() + 1;
    declIds[D] = id;
    return id;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inSources(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    if (SM.isInMainFile(L)) return true;
    std::string f = fileOf(L);
    for (auto &p : Prefixes)
      if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  std::string qual(const NamedDecl *D) {
    // qualified name without template arguments and without inline namespaces of the library
    std::string s;
    llvm::SmallVector<const DeclContext *, 8> ctxs;
    const DeclContext *ctx = D->getDeclContext();
    while (ctx) {
      ctxs.push_back(ctx);
      ctx = ctx->getParent();
    }
    for (auto it = ctxs.rbegin(); it != ctxs.rend(); ++it) {
      if (auto *NS = dyn_cast<NamespaceDecl>(*it)) {
        if (NS->isInline() || NS->isAnonymousNamespace()) continue;
        s += NS->getNameAsString() + "::";
      } else if (auto *RD = dyn_cast<RecordDecl>(*it)) {
        s += (RD->getName().empty() ? std::string("(anon)") : RD->getNameAsString()) + "::";
      } else if (auto *FD = dyn_cast<FunctionDecl>(*it)) {
        s += FD->getNameAsString() + "()::";
      }
    }
    std::string n = D->getNameAsString();
    // constructor names carry template args: strip
    if (isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D)) {
      auto p = n.find('<');
      if (p != std::string::npos) n = n.substr(0, p);
    }
    if (isa<CXXConversionDecl>(D)) n = "operator conv";
    return s + n;
  }

  json::Array templArgs(llvm::ArrayRef<TemplateArgument> A) {
    json::Array out;
    for (auto &a : A) {
      switch (a.getKind()) {
        case TemplateArgument::Type:
          out.push_back(json::Object{{"t", type(a.getAsType())}});
          break;
        case TemplateArgument::Integral: {
          llvm::SmallString<32> s;
          a.getAsIntegral().toString(s, 10);
          out.push_back(json::Object{{"v", s.str().str()}});
          break;
        }
        case TemplateArgument::Pack:
          for (auto &x : templArgs(a.getPackAsArray())) out.push_back(x);
          break;
        default:
          out.push_back(json::Object{{"o", "?"}});
      }
    }
    return out;
  }

  int type(QualType T) {
    T = T.getCanonicalType();
    bool isConst = T.isConstQualified();
    (void)isConst;
    const Type *ty = T.getUnqualifiedType().getTypePtr();
    auto it = typeIds.find(ty);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[ty] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = T.getUnqualifiedType().getAsString(PP);
    if (ty->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto *E = ty->getAs<EnumType>()) {
      o["k"] = "enum";
      o["n"] = qual(E->getDecl());
      o["w"] = (int64_t)C.getTypeSize(T);
      o["sg"] = E->getDecl()->getIntegerType()->isSignedIntegerType();
    } else if (ty->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(T);
      o["sg"] = ty->isSignedIntegerType();
    } else if (ty->isFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSize(T);
    } else if (ty->isVoidType()) {
      o["k"] = "void";
    } else if (ty->isReferenceType()) {
      QualType P = ty->getPointeeType();
      o["k"] = "ref";
      o["e"] = type(P);
      o["c"] = P.isConstQualified();
      o["rv"] = ty->isRValueReferenceType();
    } else if (ty->isPointerType()) {
      QualType P = ty->getPointeeType();
      o["k"] = "ptr";
      o["e"] = type(P);
      o["c"] = P.isConstQualified();
    } else if (auto *A = dyn_cast<ConstantArrayType>(ty)) {
      o["k"] = "arr";
      o["e"] = type(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (ty->isFunctionType()) {
      o["k"] = "fn";
    } else if (auto *RT = ty->getAs<RecordType>()) {
      auto *RD = RT->getDecl();
      o["k"] = "rec";
      o["n"] = qual(RD);
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
        if (CR->isLambda()) o["lambda"] = true;
        if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
          o["a"] = templArgs(SD->getTemplateArgs().asArray());
        }
        if (inSources(CR) && CR->hasDefinition()) o["rec"] = record(CR->getDefinition());
        else if (CR->hasDefinition()) {
          json::Array bases;
          for (auto &B : CR->getDefinition()->bases()) bases.push_back(type(B.getType()));
          o["bases"] = std::move(bases);
        }
      }
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }

  int record(const CXXRecordDecl *R) {
    auto it = recIds.find(R);
    if (it != recIds.end()) return it->second;
    int id = (int)records.size();
    recIds[R] = id;
    records.push_back(nullptr);
    json::Object o;
    o["n"] = qual(R);
    json::Array bases;
    for (auto &B : R->bases()) bases.push_back(type(B.getType()));
    o["bases"] = std::move(bases);
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object fo{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"id", declId(F)}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    if (!R->isLambda()) {
      json::Array calls;
      for (auto *M : R->methods())
        if (M->getOverloadedOperator() == OO_Call && M->isUserProvided() && !M->isDependentContext()) calls.push_back(fnRef(M));
      o["callop"] = std::move(calls);
    }
    records[id] = std::move(o);
    return id;
  }

  json::Value fnRef(const FunctionDecl *FD) {
    json::Object o;
    o["q"] = qual(FD);
    const FunctionDecl *Def = nullptr;
    if (FD->isDefined(Def) && Def) FD = Def;
    else if (auto *P = FD->getTemplateInstantiationPattern()) { (void)P; }
    o["id"] = declId(FD);
    if (FD->hasBody() || FD->isDefaulted()) {
      bool skip = false;
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
        if (MD->isDefaulted() || !MD->isUserProvided()) { o["defaulted"] = true; skip = true; }
      }
      if (!skip && inSources(FD)) {
        o["body"] = true;
        enqueue(FD);
      }
    }
    json::Array ps;
    for (auto *P : FD->parameters()) ps.push_back(type(P->getType()));
    o["p"] = std::move(ps);
    o["r"] = type(FD->getReturnType());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["const"] = MD->isConst();
      o["static"] = MD->isStatic();
      o["virt"] = MD->isVirtual();
      if (isa<CXXConstructorDecl>(MD)) {
        auto *CD = cast<CXXConstructorDecl>(MD);
        o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      }
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) o["ta"] = templArgs(TA->asArray());
    return json::Value(std::move(o));
  }

  void enqueue(const FunctionDecl *FD) {
    if (queued.insert(FD).second) work.push_back(FD);
  }

  json::Value exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return json::Value(std::move(a));
  }
  template <typename R>
  json::Value exprList(R r) {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return json::Value(std::move(a));
  }

  json::Value constant(const APValue &V, QualType T, const Expr *E) {
    json::Object o;
    o["t"] = type(T);
    if (V.isInt()) {
      llvm::SmallString<32> s;
      V.getInt().toString(s, 10);
      o["k"] = T->isBooleanType() ? "bool" : "int";
      o["v"] = s.str().str();
      return json::Value(std::move(o));
    }
    if (V.isFloat()) {
      return flt(V.getFloat(), T);
    }
    return nullptr;
  }
  json::Value flt(const llvm::APFloat &F, QualType T) {
    json::Object o;
    o["k"] = "flt";
    o["t"] = type(T);
    if (F.isInfinity()) o["v"] = F.isNegative() ? "-inf" : "inf";
    else if (F.isNaN()) o["v"] = "nan";
    else {
      char buf[128];
      F.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
      o["v"] = std::string(buf);
    }
    return json::Value(std::move(o));
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // value-preserving wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object o{{"k", "mat"}, {"e", expr(P->getSubExpr())}, {"t", type(E->getType())}};
      return json::Value(std::move(o));
    }
    json::Object o;
    o["t"] = type(E->getType());
    if (E->isLValue()) o["lv"] = 1;
    o["l"] = lineOf(E->getExprLoc());
    // constants coming from library calls (numeric_limits, constexpr) and sizeof
    if (isa<CallExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || (isa<DeclRefExpr>(E) && E->getType()->isIntegralOrEnumerationType())) {
      bool tryEval = !E->isValueDependent() && !E->isTypeDependent() &&
                     (E->getType()->isIntegralOrEnumerationType() || E->getType()->isFloatingType());
      if (auto *CE = dyn_cast<CallExpr>(E)) {
        if (auto *FD = CE->getDirectCallee())
          if (!FD->isConstexpr() && FD->getBuiltinID() == 0) tryEval = false;
      }
      if (auto *DR = dyn_cast<DeclRefExpr>(E)) {
        auto *VD = dyn_cast<VarDecl>(DR->getDecl());
        tryEval = tryEval && ((VD && VD->isConstexpr()) || isa<EnumConstantDecl>(DR->getDecl()));
        if (VD && VD->getDeclContext()->isFunctionOrMethod()) tryEval = false;
      }
      Expr::EvalResult R;
      if (tryEval && E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
        auto v = constant(R.Val, E->getType(), E);
        if (v.getAsObject()) return v;
      }
    }
    switch (E->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        llvm::SmallString<32> s;
        cast<IntegerLiteral>(E)->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
        o["k"] = "int";
        o["v"] = s.str().str();
        break;
      }
      case Stmt::CharacterLiteralClass:
        o["k"] = "int";
        o["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue());
        break;
      case Stmt::CXXBoolLiteralExprClass:
        o["k"] = "bool";
        o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue() ? "1" : "0";
        break;
      case Stmt::FloatingLiteralClass:
        return flt(cast<FloatingLiteral>(E)->getValue(), E->getType());
      case Stmt::StringLiteralClass: {
        o["k"] = "str";
        json::Array b;
        auto s = cast<StringLiteral>(E)->getBytes();
        for (unsigned char c : s) b.push_back((int64_t)c);
        o["b"] = std::move(b);
        break;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        o["k"] = "null";
        break;
      case Stmt::CXXThisExprClass:
        o["k"] = "this";
        break;
      case Stmt::DeclRefExprClass: {
        auto *D = cast<DeclRefExpr>(E)->getDecl();
        if (auto *FD = dyn_cast<FunctionDecl>(D)) {
          o["k"] = "fnref";
          o["fn"] = fnRef(FD);
        } else if (auto *VD = dyn_cast<VarDecl>(D)) {
          o["k"] = "var";
          o["id"] = declId(D);
          o["n"] = D->getNameAsString();
          if (VD->hasGlobalStorage()) {
            o["g"] = true;
            global(VD);
          }
        } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
          llvm::SmallString<32> s;
          EC->getInitVal().toString(s, 10);
          o["k"] = "int";
          o["v"] = s.str().str();
        } else {
          o["k"] = "unk";
          o["c"] = "declref";
        }
        break;
      }
      case Stmt::MemberExprClass: {
        auto *M = cast<MemberExpr>(E);
        if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
          o["k"] = "var";
          o["id"] = declId(VD);
          o["n"] = VD->getNameAsString();
          o["g"] = true;
          global(VD);
        } else {
          o["k"] = "field";
          o["b"] = expr(M->getBase());
          o["arrow"] = M->isArrow();
          o["f"] = M->getMemberDecl()->getNameAsString();
        }
        break;
      }
      case Stmt::UnaryOperatorClass: {
        auto *U = cast<UnaryOperator>(E);
        o["k"] = "un";
        o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
        o["post"] = U->isPostfix();
        o["e"] = expr(U->getSubExpr());
        break;
      }
      case Stmt::BinaryOperatorClass: {
        auto *B = cast<BinaryOperator>(E);
        o["k"] = B->isAssignmentOp() ? "asg" : "bin";
        o["op"] = B->getOpcodeStr().str();
        o["a"] = expr(B->getLHS());
        o["b"] = expr(B->getRHS());
        break;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto *B = cast<CompoundAssignOperator>(E);
        o["k"] = "asg";
        o["op"] = B->getOpcodeStr().str();
        o["ct"] = type(B->getComputationResultType());
        o["lt"] = type(B->getComputationLHSType());
        o["a"] = expr(B->getLHS());
        o["b"] = expr(B->getRHS());
        break;
      }
      case Stmt::ConditionalOperatorClass: {
        auto *B = cast<ConditionalOperator>(E);
        o["k"] = "cond";
        o["c"] = expr(B->getCond());
        o["a"] = expr(B->getTrueExpr());
        o["b"] = expr(B->getFalseExpr());
        break;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto *A = cast<ArraySubscriptExpr>(E);
        o["k"] = "idx";
        o["b"] = expr(A->getBase());
        o["i"] = expr(A->getIdx());
        break;
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXDynamicCastExprClass: {
        auto *K = cast<CastExpr>(E);
        auto ck = K->getCastKind();
        if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr)
          return expr(K->getSubExpr());
        o["k"] = "cast";
        o["ck"] = K->getCastKindName();
        if (isa<ExplicitCastExpr>(E)) o["x"] = 1;
        o["e"] = expr(K->getSubExpr());
        break;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto *K = cast<CXXConstructExpr>(E);
        o["k"] = "ctor";
        o["fn"] = fnRef(K->getConstructor());
        json::Array a;
        for (auto *x : K->arguments()) a.push_back(expr(x));
        o["a"] = std::move(a);
        o["il"] = K->isListInitialization();
        o["ilc"] = K->isStdInitListInitialization();
        if (K->requiresZeroInitialization()) o["zi"] = true;
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        o["k"] = "unk";
        o["c"] = "inhctor";
        break;
      case Stmt::CXXStdInitializerListExprClass:
        o["k"] = "stdil";
        o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
        break;
      case Stmt::InitListExprClass: {
        auto *I = cast<InitListExpr>(E);
        if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
        o["k"] = "init";
        json::Array a;
        for (auto *x : I->inits()) a.push_back(expr(x));
        o["a"] = std::move(a);
        if (I->hasArrayFiller()) o["filler"] = expr(I->getArrayFiller());
        break;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass:
        o["k"] = "zero";
        break;
      case Stmt::CXXMemberCallExprClass: {
        auto *M = cast<CXXMemberCallExpr>(E);
        o["k"] = "mcall";
        if (auto *MD = M->getMethodDecl()) o["fn"] = fnRef(MD);
        o["obj"] = expr(M->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
        o["a"] = exprs(M->arguments());
        break;
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto *M = cast<CXXOperatorCallExpr>(E);
        o["k"] = "call";
        o["opc"] = getOperatorSpelling(M->getOperator());
        if (auto *FD = M->getDirectCallee()) {
          o["fn"] = fnRef(FD);
          if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) o["memop"] = !MD->isStatic();
        }
        o["a"] = exprs(M->arguments());
        break;
      }
      case Stmt::CallExprClass: {
        auto *M = cast<CallExpr>(E);
        o["k"] = "call";
        if (auto *FD = M->getDirectCallee()) o["fn"] = fnRef(FD);
        else o["cal"] = expr(M->getCallee());
        o["a"] = exprs(M->arguments());
        break;
      }
      case Stmt::LambdaExprClass: {
        auto *L = cast<LambdaExpr>(E);
        o["k"] = "lambda";
        auto *CO = L->getCallOperator();
        o["cls"] = type(E->getType());
        if (L->isGenericLambda()) {
          o["generic"] = true;
          json::Array specs;
          if (auto *FT = CO->getDescribedFunctionTemplate())
            for (auto *S : FT->specializations()) specs.push_back(fnRef(S));
          o["specs"] = std::move(specs);
        } else o["fn"] = fnRef(CO);
        json::Array caps;
        auto init = L->capture_init_begin();
        for (auto &cap : L->captures()) {
          json::Object co;
          if (cap.capturesThis()) co["this"] = true;
          else if (cap.capturesVariable()) {
            co["id"] = declId(cap.getCapturedVar());
            co["n"] = cap.getCapturedVar()->getNameAsString();
            co["ref"] = cap.getCaptureKind() == LCK_ByRef;
            if (auto *VD = dyn_cast<VarDecl>(cap.getCapturedVar()))
              if (VD->isInitCapture()) co["init"] = expr(VD->getInit());
          }
          caps.push_back(std::move(co));
          ++init;
        }
        o["caps"] = std::move(caps);
        break;
      }
      case Stmt::CXXThrowExprClass:
        o["k"] = "throw";
        o["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
        break;
      case Stmt::CXXNewExprClass: {
        auto *N = cast<CXXNewExpr>(E);
        o["k"] = "new";
        o["nt"] = type(N->getAllocatedType());
        o["arr"] = N->isArray();
        if (N->isArray() && N->getArraySize()) o["sz"] = expr(*N->getArraySize());
        if (N->getInitializer()) o["e"] = expr(N->getInitializer());
        break;
      }
      case Stmt::CXXDeleteExprClass:
        o["k"] = "delete";
        o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument());
        break;
      case Stmt::UnaryExprOrTypeTraitExprClass:
        o["k"] = "unk";
        o["c"] = "sizeof";
        break;
      case Stmt::StmtExprClass:
        o["k"] = "stmtexpr";
        o["s"] = stmt(cast<StmtExpr>(E)->getSubStmt());
        break;
      case Stmt::PredefinedExprClass: {
        o["k"] = "str";
        o["b"] = json::Array{};
        break;
      }
      default:
        o["k"] = "unk";
        o["c"] = E->getStmtClassName();
    }
    return json::Value(std::move(o));
  }

  void global(const VarDecl *VD) {
    VD = VD->getCanonicalDecl();
    if (!globalsDone.insert(VD).second) return;
    const VarDecl *D = nullptr;
    const Expr *I = VD->getAnyInitializer(D);
    if (!I) if (auto *Def = VD->getDefinition()) I = Def->getAnyInitializer(D);
    json::Object g{{"id", declId(VD)}, {"n", qual(VD)}, {"t", type(VD->getType())}, {"const", VD->getType().isConstQualified()}};
    bool sources = inSources(VD);
    if (VD->getType()->isArrayType())
      if (auto *AT = C.getAsArrayType(VD->getType())) if (AT->getElementType().isConstQualified()) g["const"] = true;
    if (I && (sources || (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()))) g["init"] = expr(I);
    globals.push_back(std::move(g));
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o{{"k", "vd"}, {"id", declId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", lineOf(V->getLocation())}};
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->isStaticLocal()) { o["static"] = true; }
    if (V->getInit()) o["i"] = expr(V->getInit());
    return json::Value(std::move(o));
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o{{"k", "expr"}, {"e", expr(E)}, {"l", lineOf(S->getBeginLoc())}};
      return json::Value(std::move(o));
    }
    json::Object o;
    o["l"] = lineOf(S->getBeginLoc());
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        json::Array a;
        for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x));
        o["b"] = std::move(a);
        break;
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto *d : cast<DeclStmt>(S)->decls())
          if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
        o["d"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S);
        o["k"] = "if";
        if (I->getInit()) o["init"] = stmt(I->getInit());
        if (auto *VD = I->getConditionVariableDeclStmt()) o["cv"] = stmt(VD);
        o["c"] = expr(I->getCond());
        o["a"] = stmt(I->getThen());
        if (I->getElse()) o["b"] = stmt(I->getElse());
        break;
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S);
        o["k"] = "for";
        if (F->getInit()) o["init"] = stmt(F->getInit());
        if (F->getCond()) o["c"] = expr(F->getCond());
        if (F->getInc()) o["inc"] = expr(F->getInc());
        o["b"] = stmt(F->getBody());
        break;
      }
      case Stmt::WhileStmtClass: {
        auto *F = cast<WhileStmt>(S);
        o["k"] = "while";
        o["c"] = expr(F->getCond());
        o["b"] = stmt(F->getBody());
        break;
      }
      case Stmt::DoStmtClass: {
        auto *F = cast<DoStmt>(S);
        o["k"] = "do";
        o["c"] = expr(F->getCond());
        o["b"] = stmt(F->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *F = cast<CXXForRangeStmt>(S);
        o["k"] = "rfor";
        o["v"] = varDecl(F->getLoopVariable());
        o["r"] = expr(F->getRangeInit());
        o["b"] = stmt(F->getBody());
        break;
      }
      case Stmt::ReturnStmtClass:
        o["k"] = "ret";
        if (auto *E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(E);
        break;
      case Stmt::BreakStmtClass:
        o["k"] = "break";
        break;
      case Stmt::ContinueStmtClass:
        o["k"] = "cont";
        break;
      case Stmt::NullStmtClass:
        o["k"] = "null";
        break;
      case Stmt::GCCAsmStmtClass: {
        // an empty asm statement is only an optimisation barrier
        auto *A = cast<GCCAsmStmt>(S);
        if (A->getAsmString()->getString().empty() && A->getNumOutputs() == 0 && A->getNumInputs() == 0) {
          o["k"] = "null";
        } else {
          o["k"] = "unk";
          o["c"] = "GCCAsmStmt";
        }
        break;
      }
      case Stmt::SwitchStmtClass: {
        auto *W = cast<SwitchStmt>(S);
        o["k"] = "switch";
        o["c"] = expr(W->getCond());
        o["b"] = stmt(W->getBody());
        break;
      }
      case Stmt::CaseStmtClass: {
        auto *W = cast<CaseStmt>(S);
        o["k"] = "case";
        o["v"] = expr(W->getLHS());
        o["s"] = stmt(W->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass:
        o["k"] = "default";
        o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
        break;
      case Stmt::CXXTryStmtClass: {
        auto *W = cast<CXXTryStmt>(S);
        o["k"] = "try";
        o["b"] = stmt(W->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < W->getNumHandlers(); i++) {
          auto *H = W->getHandler(i);
          json::Object ho;
          ho["b"] = stmt(H->getHandlerBlock());
          if (H->getExceptionDecl()) ho["v"] = varDecl(H->getExceptionDecl());
          hs.push_back(std::move(ho));
        }
        o["h"] = std::move(hs);
        break;
      }
      default:
        if (auto *OD = dyn_cast<OMPExecutableDirective>(S)) {
          o["k"] = "omp";
          o["b"] = stmt(OD->getRawStmt());
          break;
        }
        if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
        if (auto *AS = dyn_cast<AttributedStmt>(S)) return stmt(AS->getSubStmt());
        o["k"] = "unk";
        o["c"] = S->getStmtClassName();
    }
    return json::Value(std::move(o));
  }

  void function(const FunctionDecl *FD) {
    json::Object o;
    o["q"] = qual(FD);
    o["id"] = declId(FD);
    o["file"] = fileOf(FD->getLocation());
    o["line"] = lineOf(FD->getLocation());
    o["end"] = lineOf(FD->getEndLoc());
    o["r"] = type(FD->getReturnType());
    json::Array ps;
    for (auto *P : FD->parameters())
      ps.push_back(json::Object{{"id", declId(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
    o["p"] = std::move(ps);
    if (auto *TA = FD->getTemplateSpecializationArgs()) o["ta"] = templArgs(TA->asArray());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = type(C.getRecordType(MD->getParent()));
      o["static"] = MD->isStatic();
      o["const"] = MD->isConst();
      if (MD->getAccess() == AS_private || MD->getAccess() == AS_protected) o["np"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      json::Array inits;
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) io["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(I->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
      o["ctor"] = true;
    }
    o["b"] = stmt(FD->getBody());
    functions.push_back(std::move(o));
  }

  struct RootFinder : RecursiveASTVisitor<RootFinder> {
    Lower &L;
    RootFinder(Lower &L) : L(L) {}
    bool VisitFunctionDecl(FunctionDecl *FD) {
      if (!FD->isThisDeclarationADefinition() || FD->isDependentContext()) return true;
      if (!L.SM.isInMainFile(L.SM.getExpansionLoc(FD->getLocation()))) {
        bool cpp = false;
        std::string f = L.fileOf(FD->getLocation());
        if (f.size() > 4 && f.substr(f.size() - 4) == ".cpp") cpp = true;
        if (!cpp || !L.inSources(FD)) return true;
      }
      L.enqueue(FD);
      return true;
    }
  };

  void run() {
    RootFinder rf(*this);
    rf.TraverseDecl(C.getTranslationUnitDecl());
    while (!work.empty()) {
      auto *F = work.front();
      work.pop_front();
      if (F->getBody() && !F->isDependentContext()) function(F);
    }
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Lower L(C);
    L.run();
    json::Object out;
    out["functions"] = std::move(L.functions);
    out["types"] = std::move(L.types);
    out["records"] = std::move(L.records);
    out["globals"] = std::move(L.globals);
    llvm::outs() << json::Value(std::move(out)) << "\n";
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: cxx2json file.cpp prefix[,prefix] -- compiler args
int main(int argc, char **argv) {
  std::vector<std::string> args;
  std::string file = argv[1];
  std::string pf = argv[2];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = pf.find(',', p);
    Prefixes.push_back(pf.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  bool rest = false;
  for (int i = 3; i < argc; i++) {
    if (rest) args.push_back(argv[i]);
    if (std::string(argv[i]) == "--") rest = true;
  }
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {file});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
