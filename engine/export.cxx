// AST exporter: a clang plugin that writes the resolved, type-checked program
// (functions, records and their bodies) as compact JSON, one file per unit.
// Usage: clang++ ... -Xclang -load -Xclang export.so -Xclang -plugin
//          -Xclang soda-export -Xclang -plugin-arg-soda-export -Xclang OUT
//          (further plugin args: directory prefixes whose code is exported)
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Frontend/CompilerInstance.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
typedef json::Object O;
typedef json::Value J;

namespace {
std::string out_file;
std::vector<std::string> roots;

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array funcs, records, enums, globals;
  std::map<const Decl *, int> ids;
  std::set<const Decl *> doneF, doneR;
  std::vector<const FunctionDecl *> pending;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }
  std::string ty(QualType q) { if (q.isNull()) return "?"; return q.getCanonicalType().getAsString(PP); }
  std::string safe(StringRef s) { return json::fixUTF8(s); }
  std::string file(SourceLocation l) { l = SM.getExpansionLoc(l); auto f = SM.getFilename(l); if (auto fe = SM.getFileEntryRefForID(SM.getFileID(l))) { auto r = fe->getFileEntry().tryGetRealPathName(); if (!r.empty()) return r.str(); } return f.str(); }
  unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool ours(SourceLocation l) { std::string f = file(l); for (auto &r : roots) if (f.compare(0, r.size(), r) == 0) return true; return false; }
  std::string qn(const NamedDecl *d) { // qualified, no template arguments
    std::string s; llvm::raw_string_ostream os(s); PrintingPolicy p = PP; d->printQualifiedName(os, p);
    os.flush();
    // drop template arguments and inline namespaces
    std::string r; int depth = 0;
    for (size_t i = 0; i < s.size(); i++) { char c = s[i];
      if (c == '<' && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0) && !(i >= 9 && s.compare(i - 9, 9, "operator<") == 0)) { depth++; continue; }
      if (c == '>' && depth > 0) { depth--; continue; }
      if (depth == 0) r.push_back(c); }
    for (const char *ns : {"__cxx11::", "_V2::", "__detail::"}) { size_t p; while ((p = r.find(ns)) != std::string::npos) r.erase(p, strlen(ns)); }
    return r;
  }
  std::string fq(const NamedDecl *d) { std::string s; llvm::raw_string_ostream os(s); d->getNameForDiagnostic(os, PP, true); return os.str(); }
  std::string rkey(const RecordDecl *r) { return ty(C.getRecordType(r)); }
  std::string fkey(const FunctionDecl *f) {
    std::string s = fq(f) + "(";
    bool first = true;
    for (auto p : f->parameters()) { if (!first) s += ","; first = false; s += ty(p->getType()); }
    s += ")";
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
    return s;
  }
  static const char *acc(AccessSpecifier a) { switch (a) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; } }

  O node(const char *k, SourceLocation l) { O o; o["k"] = k; o["l"] = (int64_t)line(l); std::string f = file(l); o["f"] = safe(f.substr(f.rfind('/') + 1)); return o; }

  J expr(const Expr *e) {
    if (!e) return nullptr;
    switch (e->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: { O o = node("tmp", e->getExprLoc()); o["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr()); o["t"] = ty(e->getType()); return o; }
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: { auto d = cast<CXXDefaultArgExpr>(e); return expr(d->getExpr()); }
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
    case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
    case Stmt::ExpressionTraitExprClass: break;
    default: break;
    }
    SourceLocation L = e->getExprLoc();
    auto fin = [&](O &&o) -> J { o["t"] = ty(e->getType()); if (e->isGLValue()) o["lv"] = true; return std::move(o); };
    if (auto i = dyn_cast<IntegerLiteral>(e)) { O o = node("int", L); llvm::SmallString<32> s; i->getValue().toString(s, 10, i->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return fin(std::move(o)); }
    if (auto i = dyn_cast<CharacterLiteral>(e)) { O o = node("int", L); o["v"] = std::to_string((long long)(e->getType()->isCharType() ? (int)(signed char)i->getValue() : (int)i->getValue())); return fin(std::move(o)); }
    if (auto i = dyn_cast<CXXBoolLiteralExpr>(e)) { O o = node("int", L); o["v"] = i->getValue() ? "1" : "0"; return fin(std::move(o)); }
    if (auto i = dyn_cast<FloatingLiteral>(e)) { O o = node("flt", L); bool li; llvm::APFloat v = i->getValue(); v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", v.convertToDouble()); o["v"] = std::string(b); return fin(std::move(o)); }
    if (auto s = dyn_cast<StringLiteral>(e)) { O o = node("str", L); json::Array a; for (unsigned i = 0; i < s->getLength(); i++) a.push_back((int64_t)(s->getCodeUnit(i) & 0xff)); o["v"] = std::move(a); return fin(std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return fin(node("null", L));
    if (isa<CXXThisExpr>(e)) return fin(node("this", L));
    if (auto d = dyn_cast<DeclRefExpr>(e)) {
      auto vd = d->getDecl();
      if (auto ec = dyn_cast<EnumConstantDecl>(vd)) { O o = node("int", L); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["en"] = qn(ec); return fin(std::move(o)); }
      if (auto f = dyn_cast<FunctionDecl>(vd)) { note(f); O o = node("fn", L); o["key"] = safe(fkey(f)); o["qn"] = qn(f); return fin(std::move(o)); }
      if (auto bd = dyn_cast<BindingDecl>(vd)) {        // a structured binding names a part of what it was initialised with
        auto dd = dyn_cast_or_null<DecompositionDecl>(bd->getDecomposedDecl());
        if (dd && !bd->getHoldingVar() && bd->getBinding()) return expr(bd->getBinding());
        if (dd && bd->getHoldingVar()) {
          QualType t = dd->getType().getNonReferenceType();
          auto rd = t->getAsCXXRecordDecl(); int at = -1, i = 0;
          for (auto x : dd->bindings()) { if (x == bd) at = i; i++; }
          if (rd && qn(rd) == "std::pair" && (at == 0 || at == 1)) {
            O b = node("var", L); b["id"] = id(dd); b["n"] = "pair"; b["lv"] = true; b["t"] = ty(t); if (dd->getType()->isReferenceType()) b["ref"] = true;
            O o = node("mem", L); o["n"] = at ? "second" : "first"; o["b"] = std::move(b); o["cls"] = "std::pair"; o["ext"] = true;
            return fin(std::move(o));
          }
        }
      }
      O o = node("var", L); o["id"] = id(vd); o["n"] = vd->getNameAsString();
      if (auto v = dyn_cast<VarDecl>(vd)) { if (!v->isLocalVarDeclOrParm() ) { o["g"] = qn(v);
            if (v->getType().isConstQualified()) { const VarDecl *def; if (auto in = v->getAnyInitializer(def)) { Expr::EvalResult r; if (!in->isValueDependent() && in->getType()->isIntegralOrEnumerationType() && in->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); } } } }
        else if (v->isStaticLocal()) o["g"] = "static:" + v->getNameAsString() + ":" + std::to_string(line(v->getLocation()));
        if (v->getType()->isReferenceType()) o["ref"] = true; }
      return fin(std::move(o));
    }
    if (auto m = dyn_cast<MemberExpr>(e)) {
      auto md = m->getMemberDecl();
      if (auto v = dyn_cast<VarDecl>(md)) { O o = node("var", L); o["id"] = id(v); o["n"] = v->getNameAsString(); o["g"] = qn(v);
         if (v->getType().isConstQualified()) { const VarDecl *def; if (auto in = v->getAnyInitializer(def)) { Expr::EvalResult r; if (!in->isValueDependent() && in->getType()->isIntegralOrEnumerationType() && in->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); } } }
         return fin(std::move(o)); }
      if (auto ec = dyn_cast<EnumConstantDecl>(md)) { O o = node("int", L); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["en"] = qn(ec); return fin(std::move(o)); }
      if (auto f = dyn_cast<FunctionDecl>(md)) { note(f); O o = node("fn", L); o["key"] = safe(fkey(f)); o["qn"] = qn(f); o["obj"] = expr(m->getBase()); return fin(std::move(o)); }
      O o = node("mem", L); o["n"] = md->getNameAsString(); o["b"] = expr(m->getBase()); if (m->isArrow()) o["arrow"] = true;
      if (auto fd = dyn_cast<FieldDecl>(md)) { o["cls"] = qn(fd->getParent()); if (fd->getType()->isReferenceType()) o["ref"] = true; if (!ours(fd->getLocation())) o["ext"] = true; }
      return fin(std::move(o));
    }
    if (auto c = dyn_cast<CXXMemberCallExpr>(e)) {
      O o = node("call", L); const CXXMethodDecl *md = c->getMethodDecl();
      const Expr *obj = c->getImplicitObjectArgument();
      if (md) { callee(o, md); 
        bool vq = md->isVirtual(); if (auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) if (me->hasQualifier()) vq = false;
        if (vq) o["virt"] = true; }
      o["obj"] = expr(obj); if (obj && obj->getType()->isPointerType()) o["arrow"] = true;
      o["ot"] = obj ? ty(obj->getType()) : "?";
      args(o, c->arguments(), md); return fin(std::move(o));
    }
    if (auto c = dyn_cast<CXXOperatorCallExpr>(e)) {
      O o = node("call", L); const FunctionDecl *fd = c->getDirectCallee();
      if (fd) callee(o, fd);
      auto as = c->arguments(); 
      std::vector<const Expr *> v(as.begin(), as.end());
      if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) { o["obj"] = expr(v[0]); o["ot"] = ty(v[0]->getType()); v.erase(v.begin()); }
      o["oper"] = true;
      json::Array a; for (auto x : v) a.push_back(expr(x)); o["args"] = std::move(a);
      return fin(std::move(o));
    }
    if (auto c = dyn_cast<CallExpr>(e)) {
      const FunctionDecl *fd = c->getDirectCallee();
      if (fd && fd->isConstexpr() && !ours(fd->getLocation()) && !e->isValueDependent()) {       // std::numeric_limits<double>::max() and such
        Expr::EvalResult r;
        if (e->getType()->isIntegralOrEnumerationType() && e->isPRValue() && e->EvaluateAsInt(r, C)) { O o = node("int", L); llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return fin(std::move(o)); }
        llvm::APFloat v(0.0);
        if (e->getType()->isRealFloatingType() && e->isPRValue() && e->EvaluateAsFloat(v, C)) { O o = node("flt", L); bool li; v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", v.convertToDouble()); o["v"] = std::string(b); return fin(std::move(o)); }
      }
      O o = node("call", L);
      if (fd) callee(o, fd); else o["fe"] = expr(c->getCallee());
      args(o, c->arguments(), fd); return fin(std::move(o));
    }
    if (auto c = dyn_cast<CXXConstructExpr>(e)) {
      O o = node("ctor", L); auto cd = c->getConstructor(); note(cd); o["key"] = safe(fkey(cd)); o["qn"] = qn(cd->getParent()); o["rk"] = safe(rkey(cd->getParent()));
      if (cd->isCopyConstructor()) o["cp"] = true; if (cd->isMoveConstructor()) o["mv"] = true; if (cd->isDefaultConstructor()) o["dflt"] = true; if (c->isElidable()) o["el"] = true; if (cd->isInheritingConstructor()) o["inh"] = true;
      if (isa<CXXTemporaryObjectExpr>(c)) o["tmpobj"] = true; if (c->isListInitialization()) o["list"] = true;
      json::Array a; for (auto x : c->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); 
      json::Array pt; for (auto p : cd->parameters()) pt.push_back(ty(p->getType())); o["pt"] = std::move(pt);
      return fin(std::move(o));
    }
    if (auto c = dyn_cast<CXXNewExpr>(e)) { O o = node("new", L); o["at"] = ty(c->getAllocatedType()); o["init"] = c->getInitializer() ? expr(c->getInitializer()) : J(nullptr); if (c->isArray()) o["arr"] = true; return fin(std::move(o)); }
    if (auto c = dyn_cast<CXXDeleteExpr>(e)) { O o = node("del", L); o["e"] = expr(c->getArgument()); return fin(std::move(o)); }
    if (auto u = dyn_cast<UnaryOperator>(e)) { O o = node("un", L); std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); if (u->isPostfix()) op = "post" + op; o["op"] = op; o["e"] = expr(u->getSubExpr()); return fin(std::move(o)); }
    if (auto b = dyn_cast<BinaryOperator>(e)) { 
      if (b->isAssignmentOp()) { O o = node("asg", L); o["op"] = b->getOpcodeStr().str(); o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS()); if (auto ca = dyn_cast<CompoundAssignOperator>(b)) { o["ct"] = ty(ca->getComputationLHSType()); o["crt"] = ty(ca->getComputationResultType()); } return fin(std::move(o)); }
      O o = node("bin", L); o["op"] = b->getOpcodeStr().str(); o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS()); o["ot"] = ty(b->getLHS()->getType()); return fin(std::move(o)); }
    if (auto c = dyn_cast<AbstractConditionalOperator>(e)) { O o = node("cond", L); o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); return fin(std::move(o)); }
    if (auto c = dyn_cast<CastExpr>(e)) {
      auto ck = c->getCastKind();
      if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) return expr(c->getSubExpr());
      if (ck == CK_UserDefinedConversion) return expr(c->getSubExpr());
      if (ck == CK_LValueToRValue) { O o = node("ld", L); o["e"] = expr(c->getSubExpr()); return fin(std::move(o)); }
      O o = node("cast", L); o["ck"] = c->getCastKindName(); o["e"] = expr(c->getSubExpr()); o["ft"] = ty(c->getSubExpr()->getType()); if (isa<ExplicitCastExpr>(c)) o["xp"] = true; return fin(std::move(o));
    }
    if (auto a = dyn_cast<ArraySubscriptExpr>(e)) { O o = node("idx", L); o["b"] = expr(a->getBase()); o["i"] = expr(a->getIdx()); return fin(std::move(o)); }
    if (auto t = dyn_cast<CXXThrowExpr>(e)) { O o = node("throw", L); o["e"] = t->getSubExpr() ? expr(t->getSubExpr()) : J(nullptr); if (t->getSubExpr()) o["et"] = ty(t->getSubExpr()->getType()); return fin(std::move(o)); }
    if (auto t = dyn_cast<CXXTypeidExpr>(e)) { O o = node("typeid", L); if (t->isTypeOperand()) o["of"] = ty(t->getTypeOperand(C)); else { o["e"] = expr(t->getExprOperand()); if (t->isPotentiallyEvaluated()) o["pe"] = true; } return fin(std::move(o)); }
    if (auto l = dyn_cast<LambdaExpr>(e)) {
      O o = node("lambda", L); json::Array caps; 
      auto fit = l->getLambdaClass();
      auto ii = l->capture_init_begin();
      for (auto ci = l->capture_begin(); ci != l->capture_end(); ++ci, ++ii) { O c; if (ci->capturesThis()) c["this"] = true; else if (ci->capturesVariable()) { c["id"] = id(ci->getCapturedVar()); c["n"] = ci->getCapturedVar()->getNameAsString(); c["ref"] = ci->getCaptureKind() == LCK_ByRef; c["init"] = expr(*ii); } caps.push_back(std::move(c)); }
      (void)fit; o["caps"] = std::move(caps);
      json::Array ps; for (auto p : l->getCallOperator()->parameters()) { O q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = ty(p->getType()); ps.push_back(std::move(q)); }
      o["params"] = std::move(ps); o["body"] = stmt(l->getBody()); o["ret"] = ty(l->getCallOperator()->getReturnType()); o["generic"] = l->isGenericLambda();
      return fin(std::move(o));
    }
    if (auto il = dyn_cast<InitListExpr>(e)) { O o = node("ilist", L); json::Array a; const InitListExpr *s = il->isSemanticForm() ? il : (il->getSemanticForm() ? il->getSemanticForm() : il); for (auto x : s->inits()) a.push_back(expr(x)); o["args"] = std::move(a); return fin(std::move(o)); }
    if (auto z = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)z; return fin(node("zero", L)); }
    if (isa<ImplicitValueInitExpr>(e)) return fin(node("zero", L));
    if (auto u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { Expr::EvalResult r; if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { O o = node("int", L); llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return fin(std::move(o)); } (void)u; }
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) { O o = node("int", L); llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return fin(std::move(o)); } }
    O o = node("unk", L); o["cls"] = e->getStmtClassName(); json::Array a; for (auto s : e->children()) if (auto x = dyn_cast_or_null<Expr>(s)) a.push_back(expr(x)); o["args"] = std::move(a); return fin(std::move(o));
  }
  void callee(O &o, const FunctionDecl *f) {
    note(f); o["key"] = safe(fkey(f)); o["qn"] = qn(f); o["rt"] = ty(f->getReturnType());
    if (auto m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = qn(m->getParent()); o["rk"] = safe(rkey(m->getParent())); if (m->isStatic()) o["static"] = true; if (m->isConst()) o["const"] = true; }
    o["mname"] = f->getNameAsString();
    json::Array pt; for (auto p : f->parameters()) pt.push_back(ty(p->getType())); o["pt"] = std::move(pt);
    if (f->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : f->getTemplateSpecializationArgs()->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(safe(os.str())); } o["ta"] = std::move(ta); }
    if (f->getType()->castAs<FunctionProtoType>()->isNothrow()) o["nothrow"] = true;
  }
  template <class R> void args(O &o, R r, const FunctionDecl *) { json::Array a; for (auto x : r) a.push_back(expr(x)); o["args"] = std::move(a); }
  void note(const FunctionDecl *f) { if (f) pending.push_back(f); }

  J var(const VarDecl *v) {
    O q; q["id"] = id(v); q["n"] = v->getNameAsString(); q["t"] = ty(v->getType()); q["l"] = (int64_t)line(v->getLocation());
    q["init"] = v->hasInit() ? expr(v->getInit()) : J(nullptr); if (v->isStaticLocal()) q["static"] = "static:" + v->getNameAsString() + ":" + std::to_string(line(v->getLocation()));
    if (v->getType()->isReferenceType()) q["ref"] = true;
    return q;
  }
  J stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto e = dyn_cast<Expr>(s)) { O o = node("expr", e->getExprLoc()); o["e"] = expr(e); return o; }
    SourceLocation L = s->getBeginLoc();
    if (auto c = dyn_cast<CompoundStmt>(s)) { O o = node("block", L); json::Array a; for (auto x : c->body()) a.push_back(stmt(x)); o["b"] = std::move(a); o["el"] = (int64_t)line(c->getEndLoc()); return o; }
    if (auto d = dyn_cast<DeclStmt>(s)) { O o = node("decl", L); json::Array a; for (auto x : d->decls()) if (auto v = dyn_cast<VarDecl>(x)) a.push_back(var(v)); o["v"] = std::move(a); return o; }
    if (auto i = dyn_cast<IfStmt>(s)) { O o = node("if", L); if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable()); o["c"] = expr(i->getCond()); o["th"] = stmt(i->getThen()); o["e"] = stmt(i->getElse()); return o; }
    if (auto w = dyn_cast<WhileStmt>(s)) { O o = node("while", L); if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
    if (auto w = dyn_cast<DoStmt>(s)) { O o = node("do", L); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
    if (auto f = dyn_cast<ForStmt>(s)) { O o = node("for", L); o["i"] = stmt(f->getInit()); o["c"] = expr(f->getCond()); o["s"] = expr(f->getInc()); o["b"] = stmt(f->getBody()); return o; }
    if (auto f = dyn_cast<CXXForRangeStmt>(s)) { O o = node("rfor", L); o["r"] = expr(f->getRangeInit()); o["rt"] = f->getRangeInit() ? ty(f->getRangeInit()->getType()) : "?"; o["v"] = var(f->getLoopVariable()); o["b"] = stmt(f->getBody()); return o; }
    if (auto r = dyn_cast<ReturnStmt>(s)) { O o = node("ret", L); o["e"] = expr(r->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) return node("brk", L);
    if (isa<ContinueStmt>(s)) return node("cont", L);
    if (isa<NullStmt>(s)) return node("null", L);
    if (auto w = dyn_cast<SwitchStmt>(s)) { O o = node("switch", L); if (w->getInit()) o["init"] = stmt(w->getInit()); if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); o["ct"] = ty(w->getCond()->IgnoreImpCasts()->getType()); return o; }
    if (auto c = dyn_cast<CaseStmt>(s)) { O o = node("case", L); Expr::EvalResult r; if (c->getLHS() && !c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> st; r.Val.getInt().toString(st, 10); o["v"] = st.str().str(); } if (c->getRHS()) { Expr::EvalResult r2; if (c->getRHS()->EvaluateAsInt(r2, C)) { llvm::SmallString<32> st; r2.Val.getInt().toString(st, 10); o["v2"] = st.str().str(); } } o["s"] = stmt(c->getSubStmt()); return o; }
    if (auto c = dyn_cast<DefaultStmt>(s)) { O o = node("default", L); o["s"] = stmt(c->getSubStmt()); return o; }
    if (auto t = dyn_cast<CXXTryStmt>(s)) { O o = node("try", L); o["b"] = stmt(t->getTryBlock()); json::Array a; for (unsigned i = 0; i < t->getNumHandlers(); i++) { auto h = t->getHandler(i); O q; q["t"] = h->getExceptionDecl() ? ty(h->getExceptionDecl()->getType()) : "..."; if (h->getExceptionDecl()) q["id"] = id(h->getExceptionDecl()); q["l"] = (int64_t)line(h->getBeginLoc()); q["b"] = stmt(h->getHandlerBlock()); a.push_back(std::move(q)); } o["h"] = std::move(a); return o; }
    if (auto a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
    if (auto l = dyn_cast<LabelStmt>(s)) return stmt(l->getSubStmt());
    O o = node("unk", L); o["cls"] = s->getStmtClassName(); return o;
  }

  void function(const FunctionDecl *f0) {
    const FunctionDecl *f = f0;
    const FunctionDecl *def = nullptr;
    if (f->hasBody(def)) f = def;
    if (f->isDependentContext()) return;
    if (!ours(f->getLocation()) && !ours(f0->getLocation())) return;
    if (!doneF.insert(f->getCanonicalDecl()).second) return;
    O o; o["key"] = safe(fkey(f)); o["qn"] = qn(f); o["fq"] = safe(fq(f)); o["name"] = f->getNameAsString(); o["file"] = safe(file(f->getLocation())); o["line"] = (int64_t)line(f->getLocation()); o["end"] = (int64_t)line(f->getEndLoc());
    o["ret"] = ty(f->getReturnType());
    o["internal"] = !f->isExternallyVisible(); o["inline"] = f->isInlined(); o["tmpl"] = f->isTemplateInstantiation();
    o["deflt"] = f->isDefaulted(); o["deleted"] = f->isDeleted(); o["implicit"] = f->isImplicit();
    { const FunctionDecl *q = f; if (auto p = f->getTemplateInstantiationPattern()) q = p; o["pfile"] = safe(file(q->getLocation())); o["pline"] = (int64_t)line(q->getLocation()); }
    o["vari"] = f->isVariadic();
    if (f->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : f->getTemplateSpecializationArgs()->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(safe(os.str())); } o["ta"] = std::move(ta); }
    json::Array ps; for (auto p : f->parameters()) { O q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = ty(p->getType()); if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) q["d"] = expr(p->getDefaultArg()); else if (p->hasUninstantiatedDefaultArg() && !p->getUninstantiatedDefaultArg()->isTypeDependent() && !p->getUninstantiatedDefaultArg()->isValueDependent()) q["d"] = expr(p->getUninstantiatedDefaultArg()); else if (p->hasDefaultArg()) q["d"] = nullptr; ps.push_back(std::move(q)); }
    o["params"] = std::move(ps);
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = safe(rkey(m->getParent())); o["clsqn"] = qn(m->getParent()); o["static"] = m->isStatic(); o["virt"] = m->isVirtual(); o["const"] = m->isConst(); o["access"] = acc(m->getAccess()); o["pure"] = m->isPureVirtual();
      json::Array ov; for (auto x : m->overridden_methods()) ov.push_back(safe(fkey(x))); o["over"] = std::move(ov);
    }
    if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
      o["kind"] = "ctor"; o["explicit"] = c->isExplicit();
      json::Array in; 
      if (f->doesThisDeclarationHaveABody()) for (auto i : c->inits()) { O q; if (i->isAnyMemberInitializer()) { q["f"] = i->getAnyMember()->getNameAsString(); q["ft"] = ty(i->getAnyMember()->getType()); } else if (i->isBaseInitializer()) q["base"] = ty(QualType(i->getBaseClass(), 0)); else q["deleg"] = true; q["w"] = i->isWritten(); q["init"] = expr(i->getInit()); q["l"] = (int64_t)line(i->getSourceLocation()); in.push_back(std::move(q)); }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor"; else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv"; else o["kind"] = "fn";
    o["has"] = f->doesThisDeclarationHaveABody() && f->getBody() != nullptr;
    if (f->doesThisDeclarationHaveABody()) o["body"] = stmt(f->getBody()); else o["body"] = nullptr;
    funcs.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !ours(r->getLocation())) return;
    if (!doneR.insert(r->getCanonicalDecl()).second) return;
    O o; o["key"] = safe(rkey(r)); o["qn"] = qn(r); o["file"] = safe(file(r->getLocation())); o["line"] = (int64_t)line(r->getLocation()); o["access"] = acc(r->getAccess());
    o["lambda"] = r->isLambda();
    json::Array b; for (auto &x : r->bases()) { O q; q["t"] = ty(x.getType()); q["access"] = acc(x.getAccessSpecifier()); if (auto br = x.getType()->getAsCXXRecordDecl()) q["qn"] = qn(br); 
       // all ancestors
       b.push_back(std::move(q)); } o["bases"] = std::move(b);
    std::set<std::string> anc; std::vector<const CXXRecordDecl *> w{r}; json::Array pub;
    while (!w.empty()) { auto x = w.back(); w.pop_back(); if (!x->hasDefinition()) continue; for (auto &bb : x->bases()) if (auto br = bb.getType()->getAsCXXRecordDecl()) if (bb.getAccessSpecifier() == AS_public) { anc.insert(ty(bb.getType())); if (br->getDefinition()) w.push_back(br->getDefinition()); } }
    for (auto &a : anc) pub.push_back(safe(a)); o["pubanc"] = std::move(pub);
    json::Array fs; for (auto f : r->fields()) { O q; q["n"] = f->getNameAsString(); q["t"] = ty(f->getType()); q["mut"] = f->isMutable(); q["access"] = acc(f->getAccess()); q["l"] = (int64_t)line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(q)); } o["fields"] = std::move(fs);
    json::Array ss; for (auto d : r->decls()) if (auto v = dyn_cast<VarDecl>(d)) { O q; q["n"] = v->getNameAsString(); q["t"] = ty(v->getType()); ss.push_back(std::move(q)); } o["statics"] = std::move(ss);
    if (auto d = r->getDestructor()) { o["dtor"] = safe(fkey(d)); o["vdtor"] = d->isVirtual(); o["udtor"] = d->isUserProvided(); }
    o["tmpl"] = isa<ClassTemplateSpecializationDecl>(r);
    records.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Exporter &X; V(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) { if (X.ours(f->getLocation()) && (f->isThisDeclarationADefinition() || isa<CXXMethodDecl>(f))) X.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { X.record(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { if (!X.ours(e->getLocation()) || e->isDependentContext()) return true; O o; o["qn"] = X.qn(e); json::Array a; for (auto c : e->enumerators()) { O q; q["n"] = c->getNameAsString(); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); q["v"] = s.str().str(); a.push_back(std::move(q)); } o["c"] = std::move(a); o["t"] = X.ty(X.C.getEnumType(e)); X.enums.push_back(std::move(o)); return true; }
  bool VisitVarDecl(VarDecl *v) { if (!X.ours(v->getLocation()) || v->isLocalVarDeclOrParm() || v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true; O o; o["qn"] = X.qn(v); o["t"] = X.ty(v->getType()); o["file"] = X.safe(X.file(v->getLocation())); o["line"] = (int64_t)X.line(v->getLocation()); o["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition; o["internal"] = !v->isExternallyVisible(); o["inline"] = v->isInline(); o["const"] = v->getType().isConstQualified(); if (v->hasInit() && v->getInit() && !v->getInit()->isValueDependent()) o["init"] = X.expr(v->getInit()); X.globals.push_back(std::move(o)); return true; }
};
struct Cons : ASTConsumer {
  CompilerInstance &CI; Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(c); V v(X); v.TraverseDecl(c.getTranslationUnitDecl());
    size_t i = 0; while (i < X.pending.size()) { auto f = X.pending[i++]; X.function(f); }
    O o; o["funcs"] = std::move(X.funcs); o["records"] = std::move(X.records); o["enums"] = std::move(X.enums); o["globals"] = std::move(X.globals);
    std::error_code ec; llvm::raw_fd_ostream os(out_file, ec); os << J(std::move(o));
  }
};
struct Act : PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override { return std::make_unique<Cons>(ci); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override { if (a.empty()) return false; out_file = a[0]; roots.assign(a.begin() + 1, a.end()); return true; }
};
}
static FrontendPluginRegistry::Add<Act> X("soda-export", "export the resolved program");
