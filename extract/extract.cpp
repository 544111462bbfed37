// FVC extractor: dumps the typed AST of every function whose body lies below a given root
// directory as JSON. Nothing is dropped from bodies; implicit code is made explicit.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <deque>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string Root;

static std::string jstr(llvm::StringRef s) { return llvm::json::isUTF8(s) ? s.str() : llvm::json::fixUTF8(s); }

struct Dumper {
  ASTContext &C;
  Array functions, types, records, globals;
  std::map<const Type *, int> typeIds;
  std::set<const FunctionDecl *> doneFns;
  std::deque<const FunctionDecl *> fnQueue;
  std::set<const RecordDecl *> doneRecs;
  std::set<const VarDecl *> doneVars;
  std::map<const Decl *, int> declIds;
  PrintingPolicy PP;

  Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.SuppressInlineNamespace = true; }

  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[d] = n;
    return n;
  }

  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    auto &SM = C.getSourceManager();
    l = SM.getExpansionLoc(l);
    llvm::StringRef f = SM.getFilename(l);
    return f.starts_with(Root);
  }
  std::string fileOf(SourceLocation l) {
    auto &SM = C.getSourceManager();
    llvm::StringRef f = SM.getFilename(SM.getExpansionLoc(l));
    if (f.starts_with(Root)) { f = f.substr(Root.size()); while (f.starts_with("/")) f = f.substr(1); }
    return f.str();
  }
  int lineOf(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }

  std::string usr(const Decl *d) {
    llvm::SmallString<256> s;
    if (index::generateUSRForDecl(d, s)) return "";
    return s.str().str();
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    return os.str();
  }

  Value targ(const TemplateArgument &a) {
    switch (a.getKind()) {
    case TemplateArgument::Type: return Object{{"t", type(a.getAsType())}};
    case TemplateArgument::Integral: return Object{{"i", (int64_t)a.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: { Array p; for (auto &x : a.pack_elements()) p.push_back(targ(x)); return Object{{"pack", std::move(p)}}; }
    default: return Object{{"o", 1}};
    }
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType().getUnqualifiedType();
    const Type *t = q.getTypePtr();
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[t] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = jstr(q.getAsString(PP));
    if (t->isBooleanType()) o["k"] = "bool";
    else if (auto *et = t->getAs<EnumType>()) {
      auto *ed = et->getDecl();
      o["k"] = "enum"; o["n"] = qname(ed);
      QualType it = ed->getIntegerType();
      if (!it.isNull()) { o["w"] = (int64_t)C.getIntWidth(it); o["sg"] = it->isSignedIntegerType(); }
      Array cs; for (auto *e : ed->enumerators()) cs.push_back(Array{e->getNameAsString(), (int64_t)e->getInitVal().getExtValue()});
      o["c"] = std::move(cs);
    }
    else if (t->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getIntWidth(q); o["sg"] = t->isSignedIntegerType(); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (t->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(q); }
    else if (t->isPointerType()) { o["k"] = "ptr"; QualType p = t->getPointeeType(); o["to"] = type(p); o["cst"] = p.isConstQualified(); }
    else if (t->isReferenceType()) { o["k"] = "ref"; QualType p = t->getPointeeType(); o["to"] = type(p); o["cst"] = p.isConstQualified(); o["rv"] = t->isRValueReferenceType(); }
    else if (auto *ct = C.getAsConstantArrayType(q)) { o["k"] = "arr"; o["to"] = type(ct->getElementType()); o["n"] = (int64_t)ct->getSize().getZExtValue(); }
    else if (t->isArrayType()) { o["k"] = "arr"; o["to"] = type(C.getAsArrayType(q)->getElementType()); o["n"] = -1; }
    else if (auto *vt = t->getAs<VectorType>()) { o["k"] = "vec"; o["to"] = type(vt->getElementType()); o["n"] = (int64_t)vt->getNumElements(); }
    else if (t->isFunctionType()) { o["k"] = "fn"; if (auto *ft = t->getAs<FunctionProtoType>()) { o["ret"] = type(ft->getReturnType()); Array ps; for (auto p : ft->param_types()) ps.push_back(type(p)); o["ps"] = std::move(ps);} }
    else if (t->isMemberPointerType()) { o["k"] = "memptr"; }
    else if (auto *rt = t->getAs<RecordType>()) {
      auto *rd = rt->getDecl();
      o["k"] = "rec"; 
      if (auto *cr = dyn_cast<CXXRecordDecl>(rd); cr && cr->isLambda()) { o["n"] = "<lambda>"; o["lam"] = declId(cr); }
      else {
        o["n"] = qname(rd);
        if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
          Array as; for (auto &a : ts->getTemplateArgs().asArray()) as.push_back(targ(a));
          o["a"] = std::move(as);
          o["qt"] = qname(ts->getSpecializedTemplate());
        }
      }
      o["rid"] = declId(rd);
      types[id] = std::move(o);
      record(rd, id);
      return id;
    }
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  void record(const RecordDecl *rd, int tid) {
    rd = rd->getDefinition();
    if (!rd || doneRecs.count(rd) || rd->isDependentType()) return;
    doneRecs.insert(rd);
    bool local = inRoot(rd->getLocation());
    bool plain = false;
    if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) plain = cr->isCLike() || (cr->isPOD() && !cr->isInStdNamespace());
    if (!local && !plain) return;
    Object o;
    o["t"] = tid; o["file"] = fileOf(rd->getLocation()); o["line"] = lineOf(rd->getLocation());
    o["union"] = rd->isUnion();
    o["size"] = rd->isInvalidDecl() ? 0 : (int64_t)C.getASTRecordLayout(rd).getSize().getQuantity();
    o["align"] = rd->isInvalidDecl() ? 0 : (int64_t)C.getASTRecordLayout(rd).getAlignment().getQuantity();
    auto &L = C.getASTRecordLayout(rd);
    if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) {
      Array bs; for (auto &b : cr->bases()) bs.push_back(type(b.getType()));
      o["bases"] = std::move(bs);
      o["lambda"] = cr->isLambda();
      if (cr->hasDefinition() ) o["poly"] = cr->isPolymorphic();
      Array ms;
      for (auto *m : cr->methods()) if (m->isDefaulted() == false || m->isUserProvided()) { }
      o["methods"] = std::move(ms);
    }
    Array fs;
    for (auto *f : rd->fields()) {
      Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType()); fo["id"] = declId(f);
      fo["off"] = (int64_t)L.getFieldOffset(f->getFieldIndex());
      if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(C);
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fo["mut"] = f->isMutable();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    records.push_back(std::move(o));
  }

  void want(const FunctionDecl *f) {
    if (!f) return;
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def) || !def) {
      if (f->isDefaulted() || f->isDeleted()) {}
      // maybe an instantiation pattern with pending definition
      return;
    }
    if (def->isDependentContext()) return;
    if (doneFns.count(def)) return;
    if (!inRoot(def->getLocation())) return;
    doneFns.insert(def);
    fnQueue.push_back(def);
  }

  void drain() {
    while (!fnQueue.empty()) { auto *f = fnQueue.front(); fnQueue.pop_front(); functions.push_back(function(f)); }
  }

  Object fnref(const FunctionDecl *f) {
    Object o;
    want(f);
    o["id"] = usr(f); o["qn"] = qname(f); o["n"] = f->getNameAsString();
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = type(C.getRecordType(m->getParent()));
      o["st"] = m->isStatic(); o["cst"] = m->isConst();
      if (m->isVirtual()) o["virt"] = true;
      if (m->isDefaulted()) o["def"] = true;
      if (m->isImplicit()) o["impl"] = true;
      if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) { o["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other"; }
      if (m->isCopyAssignmentOperator()) o["asg"] = "copy";
      if (m->isMoveAssignmentOperator()) o["asg"] = "move";
      if (m->getParent()->isLambda()) o["lamcall"] = declId(m->getParent());
    }
    o["ret"] = type(f->getReturnType());
    Array ps; for (auto *p : f->parameters()) ps.push_back(type(p->getType()));
    o["ps"] = std::move(ps);
    if (auto *ta = f->getTemplateSpecializationArgs()) { Array as; for (auto &a : ta->asArray()) as.push_back(targ(a)); o["ta"] = std::move(as); }
    if (f->getBuiltinID()) o["bi"] = true;
    if (f->isNoReturn()) o["noret"] = true;
    if (f->isVariadic()) o["va"] = true;
    if (f->isInlined()) {}
    const FunctionDecl *def = nullptr;
    if (f->hasBody(def) && def && inRoot(def->getLocation())) o["body"] = true;
    else if (inRoot(f->getLocation())) o["repo"] = true;
    return o;
  }

  Value varDecl(const VarDecl *v) {
    Object o; o["id"] = declId(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType());
    o["cst"] = v->getType().isConstQualified();
    if (v->isStaticLocal()) { o["static"] = true; }
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs; for (auto *b : dd->bindings()) { Object bo; bo["id"] = declId(b); bo["n"] = b->getNameAsString(); bo["e"] = expr(b->getBinding()); 
        if (b->getHoldingVar()) bo["hv"] = varDecl(b->getHoldingVar());
        bs.push_back(std::move(bo)); }
      o["bind"] = std::move(bs);
    }
    if (v->hasInit()) { o["init"] = expr(v->getInit()); }
    o["l"] = lineOf(v->getLocation());
    return o;
  }

  void global(const VarDecl *v) {
    v = v->getDefinition() ? v->getDefinition() : v;
    if (doneVars.count(v)) return;
    doneVars.insert(v);
    if (!inRoot(v->getLocation())) return;
    Object o; o["id"] = declId(v); o["qn"] = qname(v); o["t"] = type(v->getType()); o["cst"] = v->getType().isConstQualified();
    if (v->hasInit() && !v->getInit()->isValueDependent()) o["init"] = expr(v->getInit());
    globals.push_back(std::move(o));
  }

  Value function(const FunctionDecl *f) {
    Object o = fnref(f);
    o["file"] = fileOf(f->getLocation()); o["line"] = lineOf(f->getLocation());
    o["endline"] = lineOf(f->getEndLoc());
    Array ps;
    for (auto *p : f->parameters()) { Object po; po["id"] = declId(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); }
    o["params"] = std::move(ps);
    if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) {
      Array is;
      for (auto *i : cd->inits()) {
        Object io;
        if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); io["ft"] = type(i->getAnyMember()->getType()); }
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["b"] = stmt(f->getBody());
    return o;
  }

  // ---------------------------------------------------------------- statements
  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return expr(e);
    Object o; o["l"] = lineOf(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) { o["k"] = "Compound"; Array a; for (auto *c : x->body()) a.push_back(stmt(c)); o["b"] = std::move(a); o["el"] = lineOf(s->getEndLoc()); }
    else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl"; Array a;
      for (auto *d : x->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); }
      o["d"] = std::move(a);
    }
    else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If"; if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); 
      if (x->isConstexpr()) { o["cx"] = true; }
      o["th"] = stmt(x->getThen()); if (x->getElse()) o["el"] = stmt(x->getElse());
    }
    else if (auto *x = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ForStmt>(s)) { o["k"] = "For"; if (x->getInit()) o["i"] = stmt(x->getInit()); if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable()); if (x->getCond()) o["c"] = expr(x->getCond()); if (x->getInc()) o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RangeFor"; if (x->getInit()) o["i"] = stmt(x->getInit());
      o["r"] = expr(x->getRangeInit()); o["rt"] = type(x->getRangeInit()->getType()); o["v"] = varDecl(x->getLoopVariable()); o["b"] = stmt(x->getBody());
    }
    else if (auto *x = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; if (x->getInit()) o["i"] = stmt(x->getInit()); if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["v"] = expr(x->getLHS()); if (x->getRHS()) o["v2"] = expr(x->getRHS()); o["b"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["b"] = stmt(x->getSubStmt()); }
    else if (isa<BreakStmt>(s)) o["k"] = "Break";
    else if (isa<ContinueStmt>(s)) o["k"] = "Continue";
    else if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); }
    else if (isa<NullStmt>(s)) o["k"] = "Null";
    else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["b"] = stmt(x->getTryBlock()); Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto *h = x->getHandler(i); Object ho; if (h->getExceptionDecl()) { ho["v"] = varDecl(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType()); } ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
      o["h"] = std::move(hs);
    }
    else if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    else if (auto *x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
    else { o["k"] = "Unsupported"; o["sc"] = s->getStmtClassName(); }
    return o;
  }

  // ---------------------------------------------------------------- expressions
  Array exprs(llvm::ArrayRef<const Expr *> es) { Array a; for (auto *e : es) a.push_back(expr(e)); return a; }
  template <class R> Array exprsR(R r) { Array a; for (auto *e : r) a.push_back(expr(cast<Expr>(e))); return a; }

  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) { Object o; o["k"] = "Cleanups"; o["e"] = expr(x->getSubExpr()); o["t"] = type(x->getType()); o["vk"] = x->isGLValue() ? "l" : "r"; return o; }
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { Object o; o["k"] = "StdInitList"; o["e"] = expr(x->getSubExpr()); o["t"] = type(x->getType()); o["vk"] = "r"; return o; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
    if (auto *x = dyn_cast<GenericSelectionExpr>(e)) return expr(x->getResultExpr());
    if (auto *x = dyn_cast<ChooseExpr>(e)) return expr(x->getChosenSubExpr());
    if (auto *x = dyn_cast<UnaryOperator>(e)) if (x->getOpcode() == UO_Extension) return expr(x->getSubExpr());

    Object o;
    QualType ty = e->getType();
    int tid = type(ty);
    o["t"] = tid; o["vk"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
    // integral constants
    if (e->isPRValue() && ty->isIntegralOrEnumerationType() && !e->isValueDependent()) {
      Expr::EvalResult r;
      if (!isa<CallExpr>(e) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
        bool hasCall = false;
        o["k"] = "Const";
        llvm::SmallString<40> sv; r.Val.getInt().toString(sv, 10);
        o["v"] = sv.str().str();
        (void)hasCall;
        return o;
      }
    }
    o["l"] = lineOf(e->getExprLoc());
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str"; Array a; for (unsigned i = 0; i < x->getLength(); i++) a.push_back((int64_t)x->getCodeUnit(i)); o["v"] = std::move(a);
    }
    else if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; o["v"] = x->getValueAsApproximateDouble(); }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) o["k"] = "Null";
    else if (isa<CXXThisExpr>(e)) o["k"] = "This";
    else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "FnRef"; o["f"] = fnref(f); }
      else {
        o["k"] = "Ref"; o["id"] = declId(d); o["n"] = d->getNameAsString(); o["dt"] = type(d->getType());
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["g"] = qname(v); global(v); if (v->getTLSKind()!=VarDecl::TLS_None) o["tls"]=true; }
          else if (v->isStaticLocal()) { o["sl"] = true; }
        } else if (isa<BindingDecl>(d)) o["bind"] = true;
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      }
    }
    else if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "Mem"; o["b"] = expr(x->getBase()); o["ar"] = x->isArrow(); o["f"] = f->getNameAsString(); o["fid"] = declId(f);
        o["ft"] = type(f->getType());
        o["dc"] = type(C.getRecordType(f->getParent()));
      } else if (auto *f = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["k"] = "MemFn"; o["b"] = expr(x->getBase()); o["ar"] = x->isArrow(); o["f"] = fnref(f); }
      else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "Ref"; o["id"] = declId(v); o["n"] = v->getNameAsString(); o["g"] = qname(v); o["dt"] = type(v->getType()); global(v); }
      else { o["k"] = "Unsupported"; o["sc"] = "MemberExpr"; }
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "Call"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = x->getDirectCallee()) o["f"] = fnref(f); else o["fe"] = expr(x->getCallee());
      o["a"] = exprsR(x->arguments());
      if (auto *m = dyn_cast_or_null<CXXMethodDecl>(x->getDirectCallee())) if (!m->isStatic()) o["mem"] = true;
    }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall"; 
      if (auto *m = x->getMethodDecl()) {
        o["f"] = fnref(m);
        const Expr *cal = x->getCallee()->IgnoreParens();
        if (auto *me = dyn_cast<MemberExpr>(cal)) { o["b"] = expr(me->getBase()); o["ar"] = me->isArrow(); if (me->hasQualifier()) o["qual"] = true; }
      } else { o["k"] = "Unsupported"; o["sc"] = "memptrcall"; }
      o["a"] = exprsR(x->arguments());
    }
    else if (auto *x = dyn_cast<UserDefinedLiteral>(e)) { o["k"] = "Call"; if (auto *f = x->getDirectCallee()) o["f"] = fnref(f); o["a"] = exprsR(x->arguments()); }
    else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call"; 
      if (auto *f = x->getDirectCallee()) o["f"] = fnref(f); else o["fe"] = expr(x->getCallee());
      o["a"] = exprsR(x->arguments());
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor"; o["f"] = fnref(x->getConstructor()); o["a"] = exprsR(x->arguments());
      if (x->isListInitialization()) o["list"] = true;
      if (x->isStdInitListInitialization()) o["il"] = true;
      if (x->requiresZeroInitialization()) o["zi"] = true;
      if (x->isElidable()) o["elid"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
    }
    else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "InhCtor"; o["f"] = fnref(x->getConstructor()); }
    else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { o["k"] = "Mat"; o["e"] = expr(x->getSubExpr()); if (x->getExtendingDecl()) o["ext"] = true; }
    else if (auto *x = dyn_cast<CXXDynamicCastExpr>(e)) { o["k"] = "Cast"; o["ck"] = "Dynamic"; o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
      if (isa<ImplicitCastExpr>(x)) o["imp"] = true;
      if (auto *uc = x->getConversionFunction()) { if (auto *fd = dyn_cast<FunctionDecl>(uc)) o["cf"] = fnref(fd); }
    }
    else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "CAsg"; o["op"] = x->getOpcodeStr().str(); o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS()); o["lt"] = type(x->getComputationLHSType()); o["ct"] = type(x->getComputationResultType()); }
    else if (auto *x = dyn_cast<BinaryOperator>(e)) { o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS()); }
    else if (auto *x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["x"] = expr(x->getTrueExpr()); o["y"] = expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["x"] = expr(x->getTrueExpr()); o["y"] = expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Sub"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); }
    else if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isTransparent()) return expr(x->getInit(0));
      o["k"] = "InitList"; Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a);
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
    }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) o["k"] = "ZeroInit";
    else if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; if (x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); o["et"] = type(x->getSubExpr()->getType()); } }
    else if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "New"; o["at"] = type(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize()); if (x->getInitializer()) o["init"] = expr(x->getInitializer()); if (x->getNumPlacementArgs()) o["pl"] = true; }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument()); o["arr"] = x->isArrayForm(); }
    else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda"; Array cs;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) { co["this"] = true; co["byref"] = c.getCaptureKind() == LCK_This; }
        else if (c.capturesVariable()) { auto *v = c.getCapturedVar(); co["id"] = declId(v); co["n"] = v->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["vt"] = type(v->getType()); co["e"] = expr(*ci); }
        cs.push_back(std::move(co)); ++ci;
      }
      o["caps"] = std::move(cs);
      auto *op = x->getCallOperator();
      o["lid"] = declId(x->getLambdaClass());
      if (!op->isDependentContext() && !x->isGenericLambda()) {
        Array ps; for (auto *p : op->parameters()) { Object po; po["id"] = declId(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); }
        o["params"] = std::move(ps); o["ret"] = type(op->getReturnType()); o["b"] = stmt(x->getBody());
      } else o["generic"] = true;
    }
    else if (auto *x = dyn_cast<StmtExpr>(e)) { o["k"] = "StmtExpr"; o["b"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<PredefinedExpr>(e)) { if (x->getFunctionName()) return expr(x->getFunctionName()); o["k"] = "Unsupported"; o["sc"] = "Predefined"; }
    else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "ArrayInitLoop"; o["c"] = expr(x->getCommonExpr()->getSourceExpr()); }
    else if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "TypeId"; }
    else if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) { o["k"] = "PseudoDtor"; }
    else if (auto *x = dyn_cast<AtomicExpr>(e)) { o["k"] = "Atomic"; }
    else if (auto *x = dyn_cast<ShuffleVectorExpr>(e)) { o["k"] = "Unsupported"; o["sc"] = "Shuffle"; }
    else { o["k"] = "Unsupported"; o["sc"] = e->getStmtClassName(); }
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->doesThisDeclarationHaveABody()) D.want(f);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext() && D.inRoot(v->getLocation()) && !v->getType()->isDependentType()) D.global(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && !r->isDependentType() && D.inRoot(r->getLocation()) && !r->isLambda()) D.type(D.C.getRecordType(r));
    return true;
  }
};

static std::string OutPath;
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    Object o; o["functions"] = std::move(D.functions); o["types"] = std::move(D.types); o["records"] = std::move(D.records); o["globals"] = std::move(D.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
static llvm::cl::OptionCategory Cat("fvc");
static llvm::cl::opt<std::string> OptRoot("root", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OptOut("o", llvm::cl::cat(Cat));
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  Root = OptRoot; OutPath = OptOut;
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
