// vx: exports a resolved, simplified program model (typed syntax trees with resolved callees)
// of the C++ translation units given on the command line, as JSON on stdout.
// Usage: vx ROOT file.cpp -- <compiler flags>   (one unit per process)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

struct X {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> ids;
  int nid = 0;
  X(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string s = F.str();
    // canonicalise
    if (auto FE = SM.getFileEntryForID(SM.getFileID(L))) {
      auto rp = FE->tryGetRealPathName();
      if (!rp.empty()) s = rp.str();
    }
    return s;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRoot(const Decl *D) {
    auto f = file(D->getLocation());
    if (f.compare(0, Root.size(), Root) != 0) return false;
    return f.find("/tests/") == std::string::npos;
  }

  Value type(QualType Q) {
    if (Q.isNull()) return nullptr;
    Object o;
    bool cst = false;
    if (Q->isReferenceType()) {
      QualType P = Q->getPointeeType();
      return Object{{"t", "ref"}, {"rv", Q->isRValueReferenceType()}, {"const", P.isConstQualified()}, {"to", type(P.getUnqualifiedType())}};
    }
    cst = Q.isConstQualified();
    QualType T = Q.getCanonicalType().getUnqualifiedType();
    const Type *t = T.getTypePtr();
    if (t->isBooleanType()) return Object{{"t", "bool"}};
    if (auto *E = t->getAs<EnumType>()) {
      QualType U = E->getDecl()->getIntegerType();
      int bits = U.isNull() ? 32 : (int)C.getTypeSize(U);
      bool sg = U.isNull() ? true : U->isSignedIntegerType();
      return Object{{"t", "enum"}, {"name", E->getDecl()->getQualifiedNameAsString()}, {"bits", bits}, {"signed", sg}};
    }
    if (t->isIntegerType()) {
      return Object{{"t", "int"}, {"bits", (int)C.getTypeSize(T)}, {"signed", t->isSignedIntegerType()}, {"char", t->isCharType()}};
    }
    if (t->isRealFloatingType()) return Object{{"t", "float"}, {"bits", (int)C.getTypeSize(T)}};
    if (t->isPointerType()) {
      QualType P = t->getPointeeType();
      return Object{{"t", "ptr"}, {"const", P.isConstQualified()}, {"to", type(P.getUnqualifiedType())}};
    }
    if (t->isNullPtrType()) return Object{{"t", "nullptr"}};
    if (t->isVoidType()) return Object{{"t", "void"}};
    if (auto *A = dyn_cast_or_null<ConstantArrayType>(C.getAsArrayType(T))) {
      return Object{{"t", "arr"}, {"n", (int64_t)A->getSize().getZExtValue()}, {"of", type(A->getElementType())}};
    }
    if (auto *R = t->getAsCXXRecordDecl()) {
      std::string n = R->getQualifiedNameAsString();
      if (n.empty() || n.find("(anonymous") != std::string::npos || R->getName().empty()) {
        if (auto *TD = R->getTypedefNameForAnonDecl()) n = TD->getQualifiedNameAsString();
        else if (R->isLambda()) n = "<lambda>";
      }
      Object r{{"t", "rec"}, {"name", n}};
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        Array a;
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type) {
            // only descend one level for std containers
            a.push_back(shallow(A.getAsType(), 3));
          } else if (A.getKind() == TemplateArgument::Integral) {
            a.push_back((int64_t)A.getAsIntegral().getExtValue());
          } else break;
          if (a.size() >= 2) break;
        }
        r["args"] = std::move(a);
      }
      return std::move(r);
    }
    if (t->isFunctionType()) return Object{{"t", "func"}};
    return Object{{"t", "other"}, {"s", T.getAsString(PP)}};
  }
  int depth = 0;
  Value shallow(QualType Q, int) {
    if (depth > 3) return Object{{"t", "other"}};
    depth++;
    Value v = type(Q);
    depth--;
    return v;
  }

  std::string fnName(const FunctionDecl *F) {
    std::string n;
    llvm::raw_string_ostream os(n);
    F->printQualifiedName(os, PP);
    os.flush();
    return n;
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string n = fnName(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      n += "<";
      bool first = true;
      for (auto &A : TA->asArray()) {
        if (!first) n += ",";
        first = false;
        if (A.getKind() == TemplateArgument::Integral) n += std::to_string(A.getAsIntegral().getExtValue());
        else if (A.getKind() == TemplateArgument::Type) n += A.getAsType().getCanonicalType().getAsString(PP);
        else n += "?";
      }
      n += ">";
    }
    n += "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) n += ",";
      first = false;
      n += P->getType().getCanonicalType().getAsString(PP);
    }
    if (F->isVariadic()) n += ",...";
    n += ")";
    if (F->getLinkageInternal() == Linkage::Internal && !isa<CXXMethodDecl>(F)) n += "@" + file(F->getLocation());
    return n;
  }

  std::string vid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    std::string n = "v" + std::to_string(nid++);
    if (auto *ND = dyn_cast<NamedDecl>(D)) n = ND->getNameAsString() + "#" + std::to_string(nid - 1);
    ids[D] = n;
    return n;
  }
  std::string gvarKey(const VarDecl *V) {
    std::string n = V->getQualifiedNameAsString();
    if (V->getFormalLinkage() == Linkage::Internal) n += "@" + file(V->getLocation());
    return n;
  }

  Object mk(const char *k, const Stmt *S) { return Object{{"k", k}, {"l", line(S->getBeginLoc())}}; }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    Value v = expr0(E);
    if (Object *o = v.getAsObject()) {
      if (!o->get("ty")) (*o)["ty"] = type(E->getType());
      if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !o->get("v")) {
        Expr::EvalResult R;
        if (!E->containsErrors() && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
          auto &I = R.Val.getInt();
          if (I.isSigned() ? I.isSignedIntN(64) : I.isIntN(63)) (*o)["cv"] = (int64_t)I.getExtValue();
          else {
            llvm::SmallString<32> s; I.toString(s, 10); (*o)["cvs"] = s.str().str();
          }
        }
      }
    }
    return v;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> as) {
    Array a;
    for (auto *e : as) a.push_back(expr(e));
    return a;
  }

  Value expr0(const Expr *E) {
    E = E->IgnoreParens();
    if (auto *e = dyn_cast<ExprWithCleanups>(E)) return expr(e->getSubExpr());
    if (auto *e = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(e->getSubExpr());
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(e->getSubExpr());
    if (auto *e = dyn_cast<ConstantExpr>(E)) return expr(e->getSubExpr());
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(e->getReplacement());
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(E)) { auto v = expr(e->getExpr()); if (auto *o = v.getAsObject()) (*o)["defarg"] = true; return v; }
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(E)) return expr(e->getExpr());
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(e->getSubExpr());
    if (auto *e = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(e->getSemanticForm());
    if (auto *e = dyn_cast<OpaqueValueExpr>(E)) { if (e->getSourceExpr()) return expr(e->getSourceExpr()); }

    if (auto *e = dyn_cast<IntegerLiteral>(E)) {
      Object o = mk("Int", E);
      auto I = e->getValue();
      llvm::SmallString<32> s; I.toString(s, 10, e->getType()->isSignedIntegerType());
      if (I.getActiveBits() <= 63) o["v"] = (int64_t)I.getZExtValue(); else o["vs"] = s.str().str();
      return std::move(o);
    }
    if (auto *e = dyn_cast<CharacterLiteral>(E)) { Object o = mk("Int", E); o["v"] = (int64_t)(int)e->getValue(); o["ch"] = true; return std::move(o); }
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = mk("Bool", E); o["v"] = e->getValue(); return std::move(o); }
    if (auto *e = dyn_cast<FloatingLiteral>(E)) { Object o = mk("Float", E); o["v"] = e->getValueAsApproximateDouble(); return std::move(o); }
    if (auto *e = dyn_cast<StringLiteral>(E)) {
      Object o = mk("Str", E);
      std::string s = e->isUnevaluated() || e->getCharByteWidth() != 1 ? std::string() : e->getString().str();
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
      return std::move(o);
    }
    if (auto *e = dyn_cast<PredefinedExpr>(E)) { return expr(e->getFunctionName()); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("Null", E);
    if (isa<CXXThisExpr>(E)) return mk("This", E);
    if (auto *e = dyn_cast<DeclRefExpr>(E)) {
      Object o = mk("Ref", E);
      const ValueDecl *D = e->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["kind"] = "func"; o["name"] = fnName(F); o["key"] = fnKey(F); return std::move(o); }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["kind"] = "enumc"; o["name"] = EC->getQualifiedNameAsString(); o["v"] = (int64_t)EC->getInitVal().getExtValue(); return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["kind"] = "global"; o["name"] = gvarKey(V); o["id"] = gvarKey(V); }
        else { o["kind"] = isa<ParmVarDecl>(V) ? "param" : (V->isStaticLocal() ? "static" : "local"); o["name"] = V->getNameAsString(); o["id"] = vid(V); }
        return std::move(o);
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        if (B->getBinding()) { return expr(B->getBinding()); }
      }
      o["kind"] = "other"; o["name"] = D->getNameAsString();
      return std::move(o);
    }
    if (auto *e = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(e->getMemberDecl())) { Object o = mk("Ref", E); o["kind"] = "global"; o["name"] = gvarKey(V); o["id"] = gvarKey(V); return std::move(o); }
      Object o = mk("Member", E);
      o["field"] = e->getMemberDecl()->getNameAsString();
      o["arrow"] = e->isArrow();
      o["base"] = expr(e->getBase());
      return std::move(o);
    }
    if (auto *e = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = mk("Index", E);
      o["base"] = expr(e->getBase());
      o["idx"] = expr(e->getIdx());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CastExpr>(E)) {
      switch (e->getCastKind()) {
        case CK_LValueToRValue: { Value v = expr(e->getSubExpr()); return v; }
        case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          return expr(e->getSubExpr());
        case CK_NullToPointer: return mk("Null", E);
        default: break;
      }
      Object o = mk("Cast", E);
      o["ck"] = e->getCastKindName();
      o["explicit"] = isa<ExplicitCastExpr>(e);
      o["e"] = expr(e->getSubExpr());
      o["ty"] = type(E->getType());
      return std::move(o);
    }
    if (auto *e = dyn_cast<UnaryOperator>(E)) {
      Object o = mk("Un", E);
      std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) op = "post" + op; 
      o["op"] = op;
      o["e"] = expr(e->getSubExpr());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = mk("CAssign", E);
      std::string op = e->getOpcodeStr().str(); op.pop_back();
      o["op"] = op;
      o["lhs"] = expr(e->getLHS()); o["rhs"] = expr(e->getRHS());
      o["cty"] = type(e->getComputationResultType());
      o["lty"] = type(e->getLHS()->getType());
      o["clty"] = type(e->getComputationLHSType());
      return std::move(o);
    }
    if (auto *e = dyn_cast<BinaryOperator>(E)) {
      Object o = mk(e->getOpcode() == BO_Assign ? "Assign" : "Bin", E);
      o["op"] = e->getOpcodeStr().str();
      o["lhs"] = expr(e->getLHS()); o["rhs"] = expr(e->getRHS());
      return std::move(o);
    }
    if (auto *e = dyn_cast<AbstractConditionalOperator>(E)) {
      Object o = mk("Cond", E);
      o["c"] = expr(e->getCond()); o["a"] = expr(e->getTrueExpr()); o["b"] = expr(e->getFalseExpr());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = mk("OpCall", E);
      o["op"] = getOperatorSpelling(e->getOperator());
      if (auto *F = e->getDirectCallee()) { o["callee"] = fnName(F); o["key"] = fnKey(F); o["method"] = isa<CXXMethodDecl>(F); o["user"] = inRoot(F); ptypes(o, F); }
      else o["fn"] = expr(e->getCallee());
      o["args"] = exprs(e->arguments());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = mk("MCall", E);
      auto *M = e->getMethodDecl();
      if (M) { o["callee"] = fnName(M); o["key"] = fnKey(M); o["name"] = M->getNameAsString(); o["user"] = inRoot(M); o["const"] = M->isConst(); ptypes(o, M);
        o["cls"] = type(C.getRecordType(M->getParent())); }
      auto *Cal = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens());
      o["obj"] = expr(e->getImplicitObjectArgument());
      o["arrow"] = Cal ? Cal->isArrow() : false;
      o["args"] = exprs(e->arguments());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CallExpr>(E)) {
      Object o = mk("Call", E);
      if (auto *F = e->getDirectCallee()) { o["callee"] = fnName(F); o["key"] = fnKey(F); o["user"] = inRoot(F); o["noret"] = F->isNoReturn(); ptypes(o, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["static"] = M->isStatic(); }
      else o["fn"] = expr(e->getCallee());
      o["args"] = exprs(e->arguments());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(E)) {
      Object o = mk("Construct", E);
      auto *D = e->getConstructor();
      o["copy"] = D->isCopyOrMoveConstructor();
      o["default"] = D->isDefaultConstructor();
      o["key"] = fnKey(D);
      o["user"] = inRoot(D);
      o["list"] = e->isStdInitListInitialization();
      o["implicit"] = D->isImplicit();
      ptypes(o, D);
      Array a;
      for (auto *x : e->arguments()) a.push_back(expr(x));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXScalarValueInitExpr>(E)) { return mk("ZeroInit", E); }
    if (auto *e = dyn_cast<ImplicitValueInitExpr>(E)) { return mk("ZeroInit", E); }
    if (auto *e = dyn_cast<InitListExpr>(E)) {
      if (auto *S = e->getSemanticForm()) e = S;
      Object o = mk("InitList", E);
      Array a;
      for (auto *x : e->inits()) a.push_back(expr(x));
      o["args"] = std::move(a);
      if (e->hasArrayFiller()) o["fill"] = true;
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXNewExpr>(E)) {
      Object o = mk("New", E);
      o["of"] = type(e->getAllocatedType());
      o["array"] = e->isArray();
      if (e->isArray() && e->getArraySize()) o["size"] = expr(*e->getArraySize());
      if (e->getInitializer()) o["init"] = expr(e->getInitializer());
      return std::move(o);
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(E)) { Object o = mk("Delete", E); o["array"] = e->isArrayForm(); o["e"] = expr(e->getArgument()); return std::move(o); }
    if (auto *e = dyn_cast<LambdaExpr>(E)) {
      Object o = mk("Lambda", E);
      Array ps, cs;
      for (auto *P : e->getCallOperator()->parameters()) ps.push_back(Object{{"id", vid(P)}, {"name", P->getNameAsString()}, {"ty", type(P->getType())}});
      for (auto &c : e->captures()) {
        Object co{{"this", c.capturesThis()}, {"ref", c.getCaptureKind() == LCK_ByRef}};
        if (c.capturesVariable()) { co["id"] = vid(c.getCapturedVar()); co["name"] = c.getCapturedVar()->getNameAsString();
          if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) if (V->isInitCapture() && V->getInit()) co["init"] = expr(V->getInit()); }
        cs.push_back(std::move(co));
      }
      o["params"] = std::move(ps);
      o["captures"] = std::move(cs);
      const FunctionDecl *Op = e->getCallOperator();
      if (e->isGenericLambda()) {
        o["generic"] = true;
        if (auto *FT = Op->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) if (S->getBody()) {
            Array ps2;
            for (auto *P : S->parameters()) ps2.push_back(Object{{"id", vid(P)}, {"name", P->getNameAsString()}, {"ty", type(P->getType())}});
            o["params"] = std::move(ps2);
            o["body"] = stmt(S->getBody());
            break;
          }
      }
      if (!o.get("body")) o["body"] = stmt(e->getBody());
      return std::move(o);
    }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { return mk("SizeOf", E); }
    if (auto *e = dyn_cast<CXXThrowExpr>(E)) { Object o = mk("Throw", E); if (e->getSubExpr()) o["e"] = expr(e->getSubExpr()); return std::move(o); }
    if (auto *e = dyn_cast<VAArgExpr>(E)) { return mk("VAArg", E); }
    Object o = mk("UnknownExpr", E);
    o["cls"] = E->getStmtClassName();
    return std::move(o);
  }

  void ptypes(Object &o, const FunctionDecl *F) {
    Array a;
    for (auto *P : F->parameters()) {
      QualType Q = P->getType();
      std::string s = "val";
      if (Q->isReferenceType()) s = Q->getPointeeType().isConstQualified() ? "cref" : (Q->isRValueReferenceType() ? "rref" : "ref");
      else if (Q->isPointerType()) s = Q->getPointeeType().isConstQualified() ? "cptr" : "ptr";
      a.push_back(s);
    }
    o["pt"] = std::move(a);
    if (F->isVariadic()) o["variadic"] = true;
    if (!F->getReturnType()->isDependentType()) o["rty"] = type(F->getReturnType());
  }

  Value varDecl(const VarDecl *V) {
    Object o{{"id", vid(V)}, {"name", V->getNameAsString()}, {"ty", type(V->getType())}, {"l", line(V->getLocation())}};
    o["static"] = V->isStaticLocal();
    if (V->isStaticLocal()) o["const"] = V->getType().isConstQualified();
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) o["decomp"] = true;
    return std::move(o);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *s = dyn_cast<CompoundStmt>(S)) {
      Object o = mk("Block", S);
      Array a;
      for (auto *x : s->body()) a.push_back(stmt(x));
      o["b"] = std::move(a);
      return std::move(o);
    }
    if (auto *s = dyn_cast<DeclStmt>(S)) {
      Object o = mk("Decl", S);
      Array a;
      for (auto *d : s->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return std::move(o);
    }
    if (auto *s = dyn_cast<IfStmt>(S)) {
      Object o = mk("If", S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (s->getConditionVariableDeclStmt()) o["cvar"] = stmt(s->getConditionVariableDeclStmt());
      o["c"] = expr(s->getCond());
      o["t"] = stmt(s->getThen());
      if (s->getElse()) o["e"] = stmt(s->getElse());
      return std::move(o);
    }
    if (auto *s = dyn_cast<ForStmt>(S)) {
      Object o = mk("For", S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      if (s->getCond()) o["c"] = expr(s->getCond());
      if (s->getInc()) o["inc"] = expr(s->getInc());
      o["b"] = stmt(s->getBody());
      return std::move(o);
    }
    if (auto *s = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = mk("RangeFor", S);
      o["var"] = varDecl(s->getLoopVariable());
      o["range"] = expr(s->getRangeInit());
      o["b"] = stmt(s->getBody());
      return std::move(o);
    }
    if (auto *s = dyn_cast<WhileStmt>(S)) {
      Object o = mk("While", S);
      if (s->getConditionVariableDeclStmt()) o["cvar"] = stmt(s->getConditionVariableDeclStmt());
      o["c"] = expr(s->getCond());
      o["b"] = stmt(s->getBody());
      return std::move(o);
    }
    if (auto *s = dyn_cast<DoStmt>(S)) { Object o = mk("Do", S); o["c"] = expr(s->getCond()); o["b"] = stmt(s->getBody()); return std::move(o); }
    if (auto *s = dyn_cast<ReturnStmt>(S)) { Object o = mk("Return", S); if (s->getRetValue()) o["e"] = expr(s->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) return mk("Break", S);
    if (isa<ContinueStmt>(S)) return mk("Continue", S);
    if (isa<NullStmt>(S)) return mk("Null", S);
    if (auto *s = dyn_cast<SwitchStmt>(S)) {
      Object o = mk("Switch", S);
      if (s->getInit()) o["init"] = stmt(s->getInit());
      o["c"] = expr(s->getCond());
      o["b"] = stmt(s->getBody());
      return std::move(o);
    }
    if (auto *s = dyn_cast<CaseStmt>(S)) {
      Object o = mk("Case", S);
      o["v"] = expr(s->getLHS());
      o["b"] = stmt(s->getSubStmt());
      return std::move(o);
    }
    if (auto *s = dyn_cast<DefaultStmt>(S)) { Object o = mk("Default", S); o["b"] = stmt(s->getSubStmt()); return std::move(o); }
    if (auto *s = dyn_cast<CXXTryStmt>(S)) {
      Object o = mk("Try", S);
      o["b"] = stmt(s->getTryBlock());
      Array a;
      for (unsigned i = 0; i < s->getNumHandlers(); i++) {
        auto *H = s->getHandler(i);
        Object h{{"all", H->getExceptionDecl() == nullptr}};
        if (H->getExceptionDecl()) h["ty"] = type(H->getCaughtType().getNonReferenceType());
        h["b"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
      return std::move(o);
    }
    if (auto *e = dyn_cast<Expr>(S)) { Object o = mk("Expr", S); o["e"] = expr(e); return std::move(o); }
    if (auto *s = dyn_cast<AttributedStmt>(S)) return stmt(s->getSubStmt());
    Object o = mk("UnknownStmt", S);
    o["cls"] = S->getStmtClassName();
    return std::move(o);
  }
};

struct V : RecursiveASTVisitor<V> {
  X x;
  Array fns, recs, enums, globals;
  std::set<const Decl *> seen;
  V(ASTContext &C) : x(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isDefaulted()) return true;
    if (!x.inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!seen.insert(F).second) return true;
    Object o{{"name", x.fnName(F)}, {"key", x.fnKey(F)}, {"file", x.file(F->getLocation())}, {"line", x.line(F->getLocation())},
             {"end", x.line(F->getEndLoc())}, {"ret", x.type(F->getReturnType())}, {"variadic", F->isVariadic()}};
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = M->getParent()->getQualifiedNameAsString(); o["smethod"] = M->isStatic(); o["mconst"] = M->isConst(); }
    Array ps;
    for (auto *P : F->parameters()) { Object p{{"id", x.vid(P)}, {"name", P->getNameAsString()}, {"ty", x.type(P->getType())}}; ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Array is;
      for (auto *I : CD->inits()) {
        Object i;
        if (I->isMemberInitializer()) i["field"] = I->getMember()->getNameAsString();
        i["e"] = x.expr(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["dtor"] = isa<CXXDestructorDecl>(F);
    o["body"] = x.stmt(F->getBody());
    fns.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isLambda() || R->isDependentContext() || !x.inRoot(R)) return true;
    if (!seen.insert(R).second) return true;
    Array fs;
    for (auto *F : R->fields()) {
      Object f{{"name", F->getNameAsString()}, {"ty", x.type(F->getType())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = x.expr(F->getInClassInitializer());
      if (F->isBitField()) f["bits"] = (int64_t)F->getBitWidthValue(x.C);
      fs.push_back(std::move(f));
    }
    auto ty = x.type(x.C.getRecordType(R));
    recs.push_back(Object{{"name", ty.getAsObject()->getString("name")->str()}, {"file", x.file(R->getLocation())}, {"line", x.line(R->getLocation())}, {"fields", std::move(fs)},
      {"userctor", R->hasUserDeclaredConstructor()}});
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isCompleteDefinition() || !x.inRoot(E)) return true;
    if (!seen.insert(E).second) return true;
    Array cs;
    for (auto *c : E->enumerators()) cs.push_back(Object{{"name", c->getNameAsString()}, {"v", (int64_t)c->getInitVal().getExtValue()}});
    enums.push_back(Object{{"name", E->getQualifiedNameAsString()}, {"consts", std::move(cs)}, {"file", x.file(E->getLocation())}, {"line", x.line(E->getLocation())}});
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || D->isStaticLocal() || isa<ParmVarDecl>(D) || D->getType()->isDependentType()) return true;
    if (!x.inRoot(D)) return true;
    if (!D->isThisDeclarationADefinition() && !D->hasInit()) return true;
    if (!seen.insert(D).second) return true;
    Object o{{"name", x.gvarKey(D)}, {"ty", x.type(D->getType())}, {"const", D->getType().isConstQualified()}, {"file", x.file(D->getLocation())}, {"line", x.line(D->getLocation())}};
    if (D->hasInit()) o["init"] = x.expr(D->getInit());
    globals.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "vx: unit has errors\n"; exit(3); }
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Object o{{"fns", std::move(v.fns)}, {"recs", std::move(v.recs)}, {"enums", std::move(v.enums)}, {"globals", std::move(v.globals)}};
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  Root = argv[1];
  std::string f = argv[2];
  std::vector<std::string> flags;
  for (int i = 3; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {f});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
