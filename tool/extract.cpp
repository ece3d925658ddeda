// extract: dumps a compact JSON intermediate representation of every function,
// record and global that the given translation unit defines under --root.
// It is the mechanical extraction step of the verifier: it drops nothing of a
// function body except source formatting, comments and pure value-category
// bookkeeping (parentheses, lvalue-to-rvalue and no-op casts, temporary
// binding/materialisation, cleanups).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclFriend.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string gRoot;

namespace {
struct X {
  ASTContext &C;
  json::Array types;
  std::map<std::string, int> typeIx;
  std::map<const Decl *, int> varIx;
  json::Array funcs, recs, globals;
  std::map<std::string, bool> rootMemo;
  std::set<std::string> seenF, seenR, seenG;
  explicit X(ASTContext &c) : C(c) {}

  bool inRoot(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    if (L.isInvalid()) return false;
    StringRef f = C.getSourceManager().getFilename(L);
    auto it = rootMemo.find(f.str());
    if (it != rootMemo.end()) return it->second;
    llvm::SmallString<256> p(f);
    llvm::sys::path::remove_dots(p, true);
    bool r = p.starts_with(gRoot);
    rootMemo[f.str()] = r;
    return r;
  }
  int line(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return (int)C.getSourceManager().getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return C.getSourceManager().getFilename(L).str();
  }
  int vid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = varIx.find(D);
    if (it != varIx.end()) return it->second;
    int n = (int)varIx.size();
    varIx[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P(C.getLangOpts());
    P.SuppressInlineNamespace = true;
    P.AnonymousTagLocations = true;
    D->printQualifiedName(os, P);
    os.flush();
    // strip inline namespaces that printing keeps
    for (const char *ns : {"__cxx11::", "_V2::"}) {
      size_t p;
      while ((p = s.find(ns)) != std::string::npos) s.erase(p, strlen(ns));
    }
    return s;
  }
  int ty(QualType T) {
    if (T.isNull()) return addT(json::Object{{"k", "none"}});
    T = T.getCanonicalType();
    json::Object o;
    if (T.isConstQualified()) o["c"] = 1;
    const Type *t = T.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) {
      if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) {
        o["k"] = "int";
        o["w"] = (int)C.getTypeSize(T);
        o["s"] = b->isSignedInteger() ? 1 : 0;
      } else if (b->isFloatingPoint()) {
        o["k"] = "double";
        o["w"] = (int)C.getTypeSize(T);
      } else if (b->isVoidType()) o["k"] = "void";
      else if (b->isNullPtrType()) o["k"] = "nullptr";
      else { o["k"] = "builtin"; o["n"] = b->getName(PrintingPolicy(C.getLangOpts())).str(); }
    } else if (auto *r = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      auto *d = r->getDecl();
      std::string nm = qname(d);
      if (auto *cd = dyn_cast<CXXRecordDecl>(d))
        if (cd->isLambda()) nm = "lambda@" + std::to_string(line(cd->getLocation()));
      o["n"] = nm;
      if (inRoot(d->getLocation())) o["r"] = 1;
      if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
        json::Array a;
        for (auto &arg : s->getTemplateArgs().asArray()) targ(arg, a);
        o["a"] = std::move(a);
      }
    } else if (auto *e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = qname(e->getDecl());
    } else if (auto *p = dyn_cast<PointerType>(t)) {
      o["k"] = p->getPointeeType()->isFunctionType() ? "fnptr" : "ptr";
      o["to"] = ty(p->getPointeeType());
    } else if (auto *rf = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(t) ? 1 : 0;
      o["to"] = ty(rf->getPointeeType());
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      o["k"] = "arr";
      o["to"] = ty(a->getElementType());
      if (auto *ca = dyn_cast<ConstantArrayType>(t)) o["len"] = (int64_t)ca->getSize().getZExtValue();
    } else if (isa<FunctionType>(t)) {
      o["k"] = "fn";
    } else {
      o["k"] = "other";
      o["n"] = T.getAsString();
    }
    return addT(std::move(o));
  }
  void targ(const TemplateArgument &arg, json::Array &a) {
    if (arg.getKind() == TemplateArgument::Type) a.push_back(ty(arg.getAsType()));
    else if (arg.getKind() == TemplateArgument::Pack)
      for (auto &x : arg.pack_elements()) targ(x, a);
    else if (arg.getKind() == TemplateArgument::Integral)
      a.push_back(addT(json::Object{{"k", "val"}, {"v", (int64_t)arg.getAsIntegral().getExtValue()}}));
    else a.push_back(addT(json::Object{{"k", "none"}}));
  }
  int addT(json::Object o) {
    std::string s;
    llvm::raw_string_ostream os(s);
    json::Object copy = o;
    os << json::Value(std::move(copy));
    os.flush();
    auto it = typeIx.find(s);
    if (it != typeIx.end()) return it->second;
    int n = (int)types.size();
    types.push_back(json::Value(std::move(o)));
    typeIx[s] = n;
    return n;
  }
  std::string sig(const FunctionDecl *F) {
    std::string s = qname(F);
    if (F->getTemplateSpecializationArgs()) {
      s += "<";
      bool first = true;
      for (auto &a : F->getTemplateSpecializationArgs()->asArray()) {
        std::string t;
        llvm::raw_string_ostream os(t);
        a.print(PrintingPolicy(C.getLangOpts()), os, true);
        os.flush();
        if (!first) s += ",";
        first = false;
        s += t;
      }
      s += ">";
    }
    s += "(";
    bool first = true;
    PrintingPolicy P(C.getLangOpts());
    P.SuppressInlineNamespace = true;
    for (auto *p : F->parameters()) {
      if (!first) s += ",";
      first = false;
      s += p->getType().getCanonicalType().getUnqualifiedType().getAsString(P);
    }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(F))
      if (m->isConst()) s += "const";
    return s;
  }
  json::Value fref(const FunctionDecl *F) {
    json::Object o;
    const FunctionDecl *T = F;
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    bool r = inRoot(T->getLocation());
    if (r) { o["r"] = 1; o["sig"] = sig(F); }
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(m->getParent()));
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (isa<CXXConversionDecl>(m)) o["conv"] = 1;
    }
    if (F->isImplicit() || F->isDefaulted()) o["implicit"] = 1;
    if (F->isNoReturn()) o["noreturn"] = 1;
    o["ret"] = ty(F->getReturnType());
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(ty(p->getType()));
    o["ps"] = std::move(ps);
    return json::Value(std::move(o));
  }
  json::Object unsup(const Stmt *S) {
    return json::Object{{"e", "unsupported"}, {"what", S->getStmtClassName()}, {"l", line(S->getBeginLoc())}};
  }
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    json::Object o = ex0(E);
    if (!o.get("t")) o["t"] = ty(E->getType());
    if (!o.get("l")) o["l"] = line(E->getExprLoc());
    if (E->isGLValue()) o["gl"] = 1;
    return json::Value(std::move(o));
  }
  json::Array args(ArrayRef<const Expr *> as) {
    json::Array a;
    for (auto *e : as) a.push_back(ex(e));
    return a;
  }
  json::Object sub(const Expr *E) { json::Value v = ex(E); return std::move(*v.getAsObject()); }
  json::Object ex0(const Expr *E) {
    if (auto *x = dyn_cast<ParenExpr>(E)) return sub(x->getSubExpr());
    if (auto *x = dyn_cast<FullExpr>(E)) return sub(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E))
      return json::Object{{"e", "mat"}, {"s", ex(x->getSubExpr())}};
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return sub(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return sub(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return sub(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return sub(x->getExpr());
    if (auto *x = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      return json::Object{{"e", "int"}, {"v", std::string(s.str())}};
    }
    if (auto *x = dyn_cast<FloatingLiteral>(E)) {
      llvm::APFloat f = x->getValue();
      bool li;
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      char buf[64];
      snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
      return json::Object{{"e", "flt"}, {"v", std::string(buf)}};
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) return json::Object{{"e", "bool"}, {"v", x->getValue()}};
    if (auto *x = dyn_cast<CharacterLiteral>(E)) return json::Object{{"e", "int"}, {"v", std::to_string(x->getValue())}};
    if (isa<StringLiteral>(E)) return json::Object{{"e", "str"}, {"v", cast<StringLiteral>(E)->getBytes().str()}};
    if (isa<PredefinedExpr>(E)) return json::Object{{"e", "str"}, {"v", "__func__"}};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return json::Object{{"e", "null"}};
    if (isa<SourceLocExpr>(E)) return json::Object{{"e", "str"}, {"v", "loc"}};
    if (isa<CXXThisExpr>(E)) return json::Object{{"e", "this"}};
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      auto *d = x->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(d)) return json::Object{{"e", "fref"}, {"f", fref(f)}};
      if (auto *ec = dyn_cast<EnumConstantDecl>(d))
        return json::Object{{"e", "int"}, {"v", std::to_string(ec->getInitVal().getExtValue())}, {"enum", qname(ec)}};
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage() && !v->isStaticLocal()) {
          json::Object o{{"e", "gref"}, {"q", qname(v)}};
          if (inRoot(v->getLocation())) { o["r"] = 1; global(v); }
          return o;
        }
        return json::Object{{"e", "ref"}, {"v", vid(v)}, {"n", v->getNameAsString()}};
      }
      if (auto *b = dyn_cast<BindingDecl>(d))
        return json::Object{{"e", "bind"}, {"n", b->getNameAsString()}, {"s", ex(b->getBinding())}};
      return unsup(E);
    }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      auto *d = x->getMemberDecl();
      if (auto *f = dyn_cast<FieldDecl>(d)) {
        json::Object o{{"e", "mem"}, {"b", ex(x->getBase())}, {"f", f->getNameAsString()},
                       {"arrow", x->isArrow() ? 1 : 0}, {"cls", ty(C.getRecordType(f->getParent()))}};
        return o;
      }
      if (auto *v = dyn_cast<VarDecl>(d)) {
        json::Object o{{"e", "gref"}, {"q", qname(v)}};
        if (inRoot(v->getLocation())) { o["r"] = 1; global(v); }
        return o;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d))
        return json::Object{{"e", "memfn"}, {"b", ex(x->getBase())}, {"f", fref(f)}, {"arrow", x->isArrow() ? 1 : 0}};
      return unsup(E);
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return sub(x->getSemanticForm());
    if (auto *x = dyn_cast<UnaryOperator>(E)) {
      return json::Object{{"e", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()},
                          {"post", x->isPostfix() ? 1 : 0}, {"s", ex(x->getSubExpr())}};
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
      return json::Object{{"e", "casg"}, {"op", x->getOpcodeStr().str()}, {"a", ex(x->getLHS())}, {"b", ex(x->getRHS())},
                          {"ct", ty(x->getComputationResultType())}};
    }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      return json::Object{{"e", "bin"}, {"op", x->getOpcodeStr().str()}, {"a", ex(x->getLHS())}, {"b", ex(x->getRHS())}};
    }
    if (auto *x = dyn_cast<ConditionalOperator>(E))
      return json::Object{{"e", "cond"}, {"c", ex(x->getCond())}, {"a", ex(x->getTrueExpr())}, {"b", ex(x->getFalseExpr())}};
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object o{{"e", "opcall"}, {"op", getOperatorSpelling(x->getOperator())}};
      json::Array a;
      for (auto *e : x->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      if (auto *f = x->getDirectCallee()) {
        o["f"] = fref(f);
        if (isa<CXXMethodDecl>(f)) o["method"] = 1;
      }
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *m = x->getMethodDecl();
      if (!m) return unsup(E);
      auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      json::Object o{{"e", "mcall"}, {"o", ex(x->getImplicitObjectArgument())}, {"f", fref(m)}};
      if (me) {
        o["arrow"] = me->isArrow() ? 1 : 0;
        o["qual"] = me->hasQualifier() ? 1 : 0;
      }
      json::Array a;
      for (auto *e : x->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      json::Object o{{"e", "call"}};
      if (auto *f = x->getDirectCallee()) o["f"] = fref(f);
      else o["ce"] = ex(x->getCallee());
      json::Array a;
      for (auto *e : x->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return sub(x->getSubExpr());
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      json::Array a;
      const InitListExpr *s = x->isSemanticForm() ? x : x->getSemanticForm();
      for (auto *e : s->inits()) a.push_back(ex(e));
      return json::Object{{"e", "ilist"}, {"args", std::move(a)}};
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)x; return unsup(E); }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      json::Array a;
      for (auto *e : x->arguments()) a.push_back(ex(e));
      auto *c = x->getConstructor();
      return json::Object{{"e", "ctor"}, {"f", fref(c)}, {"args", std::move(a)},
                          {"copy", c->isCopyConstructor() ? 1 : 0}, {"move", c->isMoveConstructor() ? 1 : 0},
                          {"ilist", x->isStdInitListInitialization() ? 1 : 0}};
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return json::Object{{"e", "zero"}};
    if (auto *x = dyn_cast<CastExpr>(E)) {
      switch (x->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
        return sub(x->getSubExpr());
      default:
        return json::Object{{"e", "cast"}, {"ck", x->getCastKindName()}, {"s", ex(x->getSubExpr())}};
      }
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E))
      return json::Object{{"e", "idx"}, {"a", ex(x->getBase())}, {"b", ex(x->getIdx())}};
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) return json::Object{{"e", "throw"}, {"s", ex(x->getSubExpr())}};
    if (auto *x = dyn_cast<CXXNewExpr>(E))
      return json::Object{{"e", "new"}, {"nt", ty(x->getAllocatedType())}, {"init", x->getInitializer() ? ex(x->getInitializer()) : json::Value(nullptr)}};
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) return json::Object{{"e", "delete"}, {"s", ex(x->getArgument())}};
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (x->EvaluateAsInt(R, C)) return json::Object{{"e", "int"}, {"v", std::to_string(R.Val.getInt().getExtValue())}};
      return unsup(E);
    }
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      json::Object o{{"e", "lambda"}};
      json::Array caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = 1;
        else if (c.capturesVariable()) {
          co["v"] = vid(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
          co["init"] = ex(*ci);
        }
        caps.push_back(std::move(co));
        ++ci;
      }
      o["caps"] = std::move(caps);
      o["fn"] = lambdaFn(x);
      return o;
    }
    return unsup(E);
  }
  json::Value lambdaFn(const LambdaExpr *x) {
    auto *m = x->getCallOperator();
    json::Object o{{"q", "lambda"}};
    json::Array ps;
    for (auto *p : m->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    o["ret"] = ty(m->getReturnType());
    o["body"] = st(x->getBody());
    return json::Value(std::move(o));
  }
  json::Object var(const VarDecl *v) {
    json::Object o{{"v", vid(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}};
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getInit() && !isa<ParmVarDecl>(v)) o["init"] = ex(v->getInit());
    o["l"] = line(v->getLocation());
    return o;
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o = st0(S);
    o["l"] = line(S->getBeginLoc());
    return json::Value(std::move(o));
  }
  json::Object st0(const Stmt *S) {
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      json::Array a;
      for (auto *s : x->body()) a.push_back(st(s));
      return json::Object{{"s", "block"}, {"b", std::move(a)}};
    }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      json::Array a;
      for (auto *d : x->decls()) {
        if (auto *dd = dyn_cast<DecompositionDecl>(d)) {
          json::Object o = var(dd);
          json::Array bs;
          for (auto *b : dd->bindings()) {
            json::Object bo{{"n", b->getNameAsString()}};
            if (auto *hv = b->getHoldingVar()) { bo["hv"] = var(hv); }
            bs.push_back(std::move(bo));
          }
          o["bind"] = std::move(bs);
          a.push_back(std::move(o));
        } else if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      }
      return json::Object{{"s", "decl"}, {"d", std::move(a)}};
    }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      json::Object o{{"s", "if"}, {"c", ex(x->getCond())}, {"a", st(x->getThen())}, {"b", st(x->getElse())}};
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(S)) {
      json::Object o{{"s", "for"}, {"init", st(x->getInit())}, {"c", ex(x->getCond())}, {"inc", ex(x->getInc())}, {"b", st(x->getBody())}};
      if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(S)) {
      json::Object o{{"s", "while"}, {"c", ex(x->getCond())}, {"b", st(x->getBody())}};
      if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(S))
      return json::Object{{"s", "do"}, {"c", ex(x->getCond())}, {"b", st(x->getBody())}};
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object o{{"s", "rfor"}, {"r", ex(x->getRangeInit())}, {"b", st(x->getBody())}};
      auto *lv = x->getLoopVariable();
      o["v"] = var(lv);
      if (auto *dd = dyn_cast<DecompositionDecl>(lv)) {
        json::Array bs;
        for (auto *b : dd->bindings()) {
          json::Object bo{{"n", b->getNameAsString()}};
          if (auto *hv = b->getHoldingVar()) { bo["hv"] = var(hv); }
          bs.push_back(std::move(bo));
        }
        (*o["v"].getAsObject())["bind"] = std::move(bs);
      }
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(S)) return json::Object{{"s", "ret"}, {"e", x->getRetValue() ? ex(x->getRetValue()) : json::Value(nullptr)}};
    if (isa<BreakStmt>(S)) return json::Object{{"s", "break"}};
    if (isa<ContinueStmt>(S)) return json::Object{{"s", "continue"}};
    if (isa<NullStmt>(S)) return json::Object{{"s", "null"}};
    if (auto *x = dyn_cast<SwitchStmt>(S)) return json::Object{{"s", "switch"}, {"c", ex(x->getCond())}, {"b", st(x->getBody())}};
    if (auto *x = dyn_cast<CaseStmt>(S)) return json::Object{{"s", "case"}, {"c", ex(x->getLHS())}, {"b", st(x->getSubStmt())}};
    if (auto *x = dyn_cast<DefaultStmt>(S)) return json::Object{{"s", "default"}, {"b", st(x->getSubStmt())}};
    if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler(i);
        json::Object ho{{"b", st(h->getHandlerBlock())}};
        if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
        hs.push_back(std::move(ho));
      }
      return json::Object{{"s", "try"}, {"b", st(x->getTryBlock())}, {"h", std::move(hs)}};
    }
    if (auto *x = dyn_cast<AttributedStmt>(S)) return st0(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(S)) return json::Object{{"s", "expr"}, {"e", ex(x)}};
    return json::Object{{"s", "unsupported"}, {"what", S->getStmtClassName()}};
  }
  void global(const VarDecl *v) {
    std::string q = qname(v);
    if (!seenG.insert(q).second) return;
    const VarDecl *d = v->getDefinition() ? v->getDefinition() : v;
    json::Object o{{"q", q}, {"t", ty(v->getType())}};
    if (d->getInit()) o["init"] = ex(d->getInit());
    o["file"] = file(v->getLocation());
    globals.push_back(std::move(o));
  }
  void func(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return;
    if (F->isDeleted()) return;
    if (F->isDependentContext()) return;
    if (!F->hasBody() && !F->isDefaulted()) return;
    if (F->isImplicit()) return;
    std::string s = sig(F);
    if (!seenF.insert(s).second) return;
    json::Object o{{"sig", s}, {"q", qname(F)}, {"n", F->getNameAsString()}, {"file", file(F->getLocation())},
                   {"l", line(F->getLocation())}, {"el", line(F->getEndLoc())}, {"ret", ty(F->getReturnType())}};
    if (F->isDefaulted()) o["defaulted"] = 1;
    if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) o["internal"] = 1;
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(m->getParent()));
      o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (m->isConst()) o["const"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isVirtual()) o["virt"] = 1;
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(sig(b));
      o["over"] = std::move(ov);
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    }
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      json::Array is;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["b"] = ty(QualType(i->getBaseClass(), 0));
        else io["deleg"] = 1;
        io["init"] = ex(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (F->getBody()) o["body"] = st(F->getBody());
    funcs.push_back(std::move(o));
  }
  void rec(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string q = qname(R);
    json::Object o{{"q", q}, {"t", ty(C.getRecordType(R))}, {"file", file(R->getLocation())}, {"l", line(R->getLocation())}};
    json::Array bs, fs;
    for (auto &b : R->bases()) bs.push_back(json::Object{{"t", ty(b.getType())}, {"virt", b.isVirtual() ? 1 : 0}});
    for (auto *f : R->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["hasctor"] = R->hasUserDeclaredConstructor() ? 1 : 0;
    std::string key = q + std::to_string(ty(C.getRecordType(R)));
    if (!seenR.insert(key).second) return;
    recs.push_back(std::move(o));
    for (auto *d : R->decls()) decl(d);
  }
  void decl(const Decl *D) {
    if (auto *n = dyn_cast<NamespaceDecl>(D)) {
      for (auto *d : n->decls()) decl(d);
      return;
    }
    if (auto *n = dyn_cast<LinkageSpecDecl>(D)) {
      for (auto *d : n->decls()) decl(d);
      return;
    }
    if (!inRoot(D->getLocation())) return;
    if (auto *t = dyn_cast<FunctionTemplateDecl>(D)) {
      for (auto *s : t->specializations()) if (s->hasBody()) func(cast<FunctionDecl>(s->getDefinition() ? s->getDefinition() : s));
      return;
    }
    if (auto *t = dyn_cast<ClassTemplateDecl>(D)) {
      for (auto *s : t->specializations()) rec(s);
      return;
    }
    if (auto *fd = dyn_cast<FriendDecl>(D)) { if (fd->getFriendDecl()) if (auto *f = dyn_cast<FunctionDecl>(fd->getFriendDecl())) func(f); return; }
    if (auto *f = dyn_cast<FunctionDecl>(D)) { func(f); return; }
    if (auto *r = dyn_cast<CXXRecordDecl>(D)) { rec(r); return; }
    if (auto *v = dyn_cast<VarDecl>(D)) { if (v->hasGlobalStorage()) global(v); return; }
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    X x(C);
    for (auto *d : C.getTranslationUnitDecl()->decls()) x.decl(d);
    json::Object o{{"types", std::move(x.types)}, {"funcs", std::move(x.funcs)}, {"recs", std::move(x.recs)}, {"globals", std::move(x.globals)}};
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

// usage: extract ROOT FILE clang-args...
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  gRoot = argv[1];
  std::vector<std::string> a{"clang++", "-fsyntax-only", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"};
  for (int i = 3; i < argc; ++i) a.push_back(argv[i]);
  a.push_back(argv[2]);
  IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(a, std::make_unique<Act>(), fm.get());
  return inv.run() ? 0 : 1;
}
