// gpstk static-analysis front end: dumps the type-checked program (resolved
// callees, evaluated constants, instantiated templates) as JSON.
//   extract <repo-root> <tu.cpp>... -- <compiler flags>   (JSON lines on stdout)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace {
std::string gRoot;
std::set<std::string> gSeen;
std::map<std::string, int> gTypes;
std::vector<std::string> gTypeList;
size_t gTypesOut = 0;
llvm::raw_ostream &O = llvm::outs();

std::string esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"') r += "\\\"";
    else if (c == '\\') r += "\\\\";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
    } else r += (char)c;
  }
  return r + "\"";
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::string s;  // output buffer
  std::map<const Decl *, int> locals;
  int nextLocal = 0;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.SuppressInlineNamespace = true; PP.SuppressUnwrittenScope = true;
    PP.SuppressDefaultTemplateArgs = true; PP.AnonymousTagLocations = true;
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    std::string n = t.getCanonicalType().getAsString(PP);
    auto it = gTypes.find(n);
    if (it != gTypes.end()) return it->second;
    int k = gTypeList.size(); gTypes[n] = k; gTypeList.push_back(n); return k;
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  bool inRepo(SourceLocation l, std::string &rel) {
    if (l.isInvalid()) return false;
    std::string f = file(l);
    if (f.compare(0, gRoot.size() + 1, gRoot + "/") != 0) return false;
    rel = f.substr(gRoot.size() + 1);
    return true;
  }
  unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  std::string qname(const NamedDecl *d) {
    std::string n; llvm::raw_string_ostream os(n);
    d->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string fid(const FunctionDecl *f) {
    std::string n = qname(f) + "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) n += ",";
      n += f->getParamDecl(i)->getType().getCanonicalType().getAsString(PP);
    }
    if (f->isVariadic()) n += ",...";
    n += ")";
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) n += " const";
    if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace()) {
      std::string rel; SourceLocation l = f->getCanonicalDecl()->getLocation();
      if (inRepo(l, rel)) n += "@" + rel;
    }
    return n;
  }
  // ---- expressions
  void key(const char *k, const Stmt *e) {
    s += "{\"k\":\""; s += k; s += "\",\"l\":" + std::to_string(line(e->getBeginLoc()));
    if (auto x = dyn_cast<Expr>(e)) s += ",\"t\":" + std::to_string(type(x->getType()));
  }
  template <class R> void args(const char *n, R r) {
    s += ",\""; s += n; s += "\":["; bool first = true;
    for (auto a : r) { if (!first) s += ","; first = false; expr(a); }
    s += "]";
  }
  void declref(const ValueDecl *d, const Expr *e) {
    if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
      key("enum", e); s += ",\"q\":" + esc(qname(ec)) + ",\"v\":" + llvm::toString(ec->getInitVal(), 10) + "}"; return;
    }
    if (auto f = dyn_cast<FunctionDecl>(d)) { key("fn", e); s += ",\"f\":" + esc(fid(f)) + "}"; return; }
    if (auto v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
        key("var", e); s += ",\"n\":" + esc(v->getName()) + ",\"i\":" + std::to_string(lid(v)) + "}"; return;
      }
      key("gvar", e); s += ",\"q\":" + esc(gname(v));
      s += "}"; return;
    }
    key("other", e); s += ",\"c\":" + esc(d->getDeclKindName()) + "}";
  }
  std::string gname(const VarDecl *v) {
    std::string n = qname(v);
    if (v->isStaticLocal()) {
      if (auto f = dyn_cast<FunctionDecl>(v->getDeclContext())) n = fid(f) + "::" + v->getNameAsString();
    } else if (v->getFormalLinkage() == Linkage::Internal && !v->isStaticDataMember()) {
      std::string rel; if (inRepo(v->getLocation(), rel) && rel.size()>4 && rel.substr(rel.size()-4)==".cpp") n += "@" + rel;
    }
    return n;
  }
  int lid(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = locals.find(d);
    if (it != locals.end()) return it->second;
    return locals[d] = nextLocal++;
  }
  void constval(const APValue &v, const Expr *e) {
    if (v.isInt()) { key("int", e); s += ",\"v\":" + llvm::toString(v.getInt(), 10) + "}"; }
  }
  void expr(const Expr *e) {
    if (!e) { s += "null"; return; }
    if (auto x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto x = dyn_cast<IntegerLiteral>(e)) { key("int", e); s += ",\"v\":" + llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()) + "}"; return; }
    if (auto x = dyn_cast<CharacterLiteral>(e)) { key("chr", e); s += ",\"v\":" + std::to_string(x->getValue()) + "}"; return; }
    if (auto x = dyn_cast<FloatingLiteral>(e)) {
      key("flt", e); char b[64]; bool li;
      llvm::APFloat f = x->getValue(); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      double d = f.convertToDouble();
      if (std::isfinite(d)) { snprintf(b, sizeof b, "%.17g", d); s += ",\"v\":"; s += b; if (!strpbrk(b, ".en")) s += ".0"; }
      else s += ",\"v\":\"inf\"";
      // exact spelling, for precision-sensitive rules
      SourceLocation sl = SM.getSpellingLoc(x->getBeginLoc());
      bool inv = false; const char *p = SM.getCharacterData(sl, &inv);
      if (!inv) { std::string sp; while (*p && (isalnum(*p) || *p == '.' || ((*p == '-' || *p == '+') && sp.size() && (sp.back() == 'e' || sp.back() == 'E')))) sp += *p++; s += ",\"sp\":" + esc(sp); }
      s += "}"; return;
    }
    if (auto x = dyn_cast<StringLiteral>(e)) { key("str", e); s += ",\"v\":" + (x->getCharByteWidth() == 1 ? esc(x->getString()) : esc("")) + "}"; return; }
    if (isa<PredefinedExpr>(e)) { key("str", e); s += ",\"v\":\"\"}"; return; }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { key("bool", e); s += x->getValue() ? ",\"v\":true}" : ",\"v\":false}"; return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { key("null", e); s += "}"; return; }
    if (isa<CXXThisExpr>(e)) { key("this", e); s += "}"; return; }
    if (auto x = dyn_cast<DeclRefExpr>(e)) return declref(x->getDecl(), e);
    if (auto x = dyn_cast<MemberExpr>(e)) {
      if (auto ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) return declref(ec, e);
      if (auto vd = dyn_cast<VarDecl>(x->getMemberDecl())) return declref(vd, e);
      if (auto fd = dyn_cast<FunctionDecl>(x->getMemberDecl())) { key("mfn", e); s += ",\"f\":" + esc(fid(fd)) + ",\"o\":"; expr(x->getBase()); s += "}"; return; }
      key("mem", e); s += ",\"n\":" + esc(x->getMemberDecl()->getName()) + ",\"q\":" + esc(qname(x->getMemberDecl()));
      if (auto f = dyn_cast<FieldDecl>(x->getMemberDecl()))
        if (f->getParent()->isUnion()) s += ",\"un\":" + esc((*f->getParent()->field_begin())->getName());
      if (x->isArrow()) s += ",\"arrow\":1";
      s += ",\"o\":"; expr(x->getBase()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      key("mcall", e);
      const CXXMethodDecl *m = x->getMethodDecl();
      const Expr *ce = x->getCallee()->IgnoreParens();
      if (m) {
        s += ",\"f\":" + esc(fid(m)) + ",\"n\":" + esc(m->getNameAsString());
        bool virt = m->isVirtual();
        if (auto me = dyn_cast<MemberExpr>(ce)) { if (me->hasQualifier()) virt = false; if (me->isArrow()) s += ",\"arrow\":1"; }
        if (virt) s += ",\"virt\":1";
      } else s += ",\"f\":\"\",\"n\":\"\"";
      s += ",\"o\":"; expr(x->getImplicitObjectArgument());
      args("a", x->arguments()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      auto m = dyn_cast_or_null<CXXMethodDecl>(f);
      key(m ? "mcall" : "call", e);
      s += ",\"f\":" + esc(f ? fid(f) : "") + ",\"n\":" + esc(f ? f->getNameAsString() : "");
      s += ",\"op\":" + esc(getOperatorSpelling(x->getOperator()));
      if (m) {
        if (m->isVirtual()) s += ",\"virt\":1";
        s += ",\"o\":"; expr(x->getArg(0));
        s += ",\"a\":["; for (unsigned i = 1; i < x->getNumArgs(); ++i) { if (i > 1) s += ","; expr(x->getArg(i)); } s += "]}";
      } else { args("a", x->arguments()); s += "}"; }
      return;
    }
    if (auto x = dyn_cast<CallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      key("call", e);
      if (f) s += ",\"f\":" + esc(fid(f)) + ",\"n\":" + esc(f->getNameAsString());
      else { s += ",\"f\":\"\",\"n\":\"\",\"fe\":"; expr(x->getCallee()); }
      args("a", x->arguments()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      // elidable copies/moves of temporaries collapse to the temporary itself
      if (x->getNumArgs() == 1 && x->isElidable()) return expr(x->getArg(0));
      key("ctor", e); s += ",\"f\":" + esc(fid(x->getConstructor()));
      if (x->getConstructor()->isCopyOrMoveConstructor()) s += ",\"copy\":1";
      if (x->getConstructor()->isImplicit()) s += ",\"impl\":1";
      args("a", x->arguments()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { key("ctor", e); s += ",\"f\":" + esc(fid(x->getConstructor())) + ",\"a\":[]}"; return; }
    if (auto x = dyn_cast<CompoundAssignOperator>(e)) {
      key("asg", e); s += ",\"op\":" + esc(BinaryOperator::getOpcodeStr(x->getOpcode())) + ",\"ct\":" + std::to_string(type(x->getComputationResultType())) + ",\"a\":"; expr(x->getLHS()); s += ",\"b\":"; expr(x->getRHS()); s += "}"; return;
    }
    if (auto x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) { key("asg", e); s += ",\"op\":\"=\",\"a\":"; expr(x->getLHS()); s += ",\"b\":"; expr(x->getRHS()); s += "}"; return; }
      key("bin", e); s += ",\"op\":" + esc(x->getOpcodeStr()) + ",\"a\":"; expr(x->getLHS()); s += ",\"b\":"; expr(x->getRHS()); s += "}"; return;
    }
    if (auto x = dyn_cast<UnaryOperator>(e)) {
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "post" + op;
      key("un", e); s += ",\"op\":" + esc(op) + ",\"a\":"; expr(x->getSubExpr()); s += "}"; return;
    }
    if (auto x = dyn_cast<ConditionalOperator>(e)) { key("cond", e); s += ",\"c\":"; expr(x->getCond()); s += ",\"a\":"; expr(x->getTrueExpr()); s += ",\"b\":"; expr(x->getFalseExpr()); s += "}"; return; }
    if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { key("idx", e); s += ",\"a\":"; expr(x->getBase()); s += ",\"b\":"; expr(x->getIdx()); s += "}"; return; }
    if (auto x = dyn_cast<CXXDynamicCastExpr>(e)) { key("cast", e); s += ",\"ck\":\"Dynamic\",\"e\":"; expr(x->getSubExpr()); s += "}"; return; }
    if (auto x = dyn_cast<CXXReinterpretCastExpr>(e)) { key("cast", e); s += ",\"ck\":\"Reinterpret\",\"e\":"; expr(x->getSubExpr()); s += "}"; return; }
    if (auto x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
      case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
        return expr(x->getSubExpr());
      case CK_NullToPointer: key("null", e); s += "}"; return;
      default: break;
      }
      key("cast", e); s += ",\"ck\":" + esc(x->getCastKindName());
      if (isa<ExplicitCastExpr>(e)) s += ",\"x\":1";
      s += ",\"e\":"; expr(x->getSubExpr()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXNewExpr>(e)) {
      key("new", e); s += ",\"at\":" + std::to_string(type(x->getAllocatedType()));
      if (x->isArray()) { s += ",\"n\":"; if (auto sz = x->getArraySize()) expr(*sz); else s += "null"; }
      s += ",\"e\":"; expr(x->getInitializer()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXDeleteExpr>(e)) { key("del", e); if (x->isArrayForm()) s += ",\"arr\":1"; s += ",\"e\":"; expr(x->getArgument()); s += "}"; return; }
    if (auto x = dyn_cast<CXXThrowExpr>(e)) { key("throw", e); if (x->getSubExpr()) { s += ",\"tt\":" + std::to_string(type(x->getSubExpr()->getType())) + ",\"e\":"; expr(x->getSubExpr()); } s += "}"; return; }
    if (auto x = dyn_cast<InitListExpr>(e)) {
      if (auto f = x->getSemanticForm()) x = f;
      key("ilist", e); args("a", x->inits()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { key("zero", e); s += "}"; return; }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r; key("int", e);
      if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) s += ",\"v\":" + llvm::toString(r.Val.getInt(), 10); else s += ",\"v\":0";
      s += ",\"sizeof\":" + std::to_string(type(x->getTypeOfArgument())) + "}"; return;
    }
    if (auto x = dyn_cast<LambdaExpr>(e)) {
      key("lambda", e); s += ",\"f\":" + esc(fid(x->getCallOperator())) + ",\"params\":["; bool first = true;
      for (auto p : x->getCallOperator()->parameters()) { if (!first) s += ","; first = false; s += "{\"n\":" + esc(p->getName()) + ",\"i\":" + std::to_string(lid(p)) + ",\"t\":" + std::to_string(type(p->getType())) + "}"; }
      s += "],\"body\":"; stmt(x->getBody()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXTypeidExpr>(e)) { key("typeid", e); s += "}"; (void)x; return; }
    if (auto x = dyn_cast<CXXFunctionalCastExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
    key("other", e); s += ",\"c\":" + esc(e->getStmtClassName()); s += ",\"a\":["; bool first = true;
    for (auto c : e->children()) if (auto ce = dyn_cast_or_null<Expr>(c)) { if (!first) s += ","; first = false; expr(ce); }
    s += "]}";
  }
  // ---- statements
  void vardecl(const VarDecl *v) {
    s += "{\"n\":" + esc(v->getName()) + ",\"t\":" + std::to_string(type(v->getType())) + ",\"l\":" + std::to_string(line(v->getLocation()));
    if (v->isStaticLocal()) s += ",\"static\":" + esc(gname(v)); else s += ",\"i\":" + std::to_string(lid(v));
    if (v->getInit()) { s += ",\"e\":"; expr(v->getInit()); }
    s += "}";
  }
  void stmt(const Stmt *t) {
    if (!t) { s += "null"; return; }
    if (auto e = dyn_cast<Expr>(t)) { key("expr", t); s += ",\"e\":"; expr(e); s += "}"; return; }
    if (auto x = dyn_cast<CompoundStmt>(t)) {
      key("block", t); s += ",\"b\":["; bool first = true;
      for (auto c : x->body()) { if (!first) s += ","; first = false; stmt(c); }
      s += "]}"; return;
    }
    if (auto x = dyn_cast<DeclStmt>(t)) {
      key("decl", t); s += ",\"v\":["; bool first = true;
      for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) { if (!first) s += ","; first = false; vardecl(v); }
      s += "]}"; return;
    }
    if (auto x = dyn_cast<IfStmt>(t)) {
      key("if", t);
      if (x->getInit()) { s += ",\"init\":"; stmt(x->getInit()); }
      if (x->getConditionVariable()) { s += ",\"cv\":"; vardecl(x->getConditionVariable()); }
      s += ",\"c\":"; expr(x->getCond()); s += ",\"a\":"; stmt(x->getThen()); s += ",\"b\":"; stmt(x->getElse()); s += "}"; return;
    }
    if (auto x = dyn_cast<WhileStmt>(t)) { key("while", t); if (x->getConditionVariable()) { s += ",\"cv\":"; vardecl(x->getConditionVariable()); } s += ",\"c\":"; expr(x->getCond()); s += ",\"a\":"; stmt(x->getBody()); s += "}"; return; }
    if (auto x = dyn_cast<DoStmt>(t)) { key("do", t); s += ",\"c\":"; expr(x->getCond()); s += ",\"a\":"; stmt(x->getBody()); s += "}"; return; }
    if (auto x = dyn_cast<ForStmt>(t)) {
      key("for", t); s += ",\"init\":"; stmt(x->getInit()); s += ",\"c\":"; expr(x->getCond()); s += ",\"inc\":"; expr(x->getInc()); s += ",\"a\":"; stmt(x->getBody()); s += "}"; return;
    }
    if (auto x = dyn_cast<CXXForRangeStmt>(t)) {
      key("rangefor", t); s += ",\"v\":"; vardecl(x->getLoopVariable()); s += ",\"e\":"; expr(x->getRangeInit()); s += ",\"a\":"; stmt(x->getBody()); s += "}"; return;
    }
    if (auto x = dyn_cast<SwitchStmt>(t)) { key("switch", t); s += ",\"c\":"; expr(x->getCond()); s += ",\"a\":"; stmt(x->getBody()); s += "}"; return; }
    if (auto x = dyn_cast<CaseStmt>(t)) { key("case", t); s += ",\"c\":"; expr(x->getLHS()); if (x->getRHS()) { s += ",\"c2\":"; expr(x->getRHS()); } s += ",\"a\":"; stmt(x->getSubStmt()); s += "}"; return; }
    if (auto x = dyn_cast<DefaultStmt>(t)) { key("default", t); s += ",\"a\":"; stmt(x->getSubStmt()); s += "}"; return; }
    if (isa<BreakStmt>(t)) { key("break", t); s += "}"; return; }
    if (isa<ContinueStmt>(t)) { key("continue", t); s += "}"; return; }
    if (isa<NullStmt>(t)) { key("nop", t); s += "}"; return; }
    if (auto x = dyn_cast<ReturnStmt>(t)) { key("return", t); s += ",\"e\":"; expr(x->getRetValue()); s += "}"; return; }
    if (auto x = dyn_cast<CXXTryStmt>(t)) {
      key("try", t); s += ",\"a\":"; stmt(x->getTryBlock()); s += ",\"h\":[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto h = x->getHandler(i); if (i) s += ",";
        key("catch", h); 
        if (h->getExceptionDecl()) { s += ",\"v\":"; vardecl(h->getExceptionDecl()); s += ",\"ct\":" + std::to_string(type(h->getCaughtType().getNonReferenceType().getUnqualifiedType())); }
        s += ",\"a\":"; stmt(h->getHandlerBlock()); s += "}";
      }
      s += "]}"; return;
    }
    if (auto x = dyn_cast<LabelStmt>(t)) { key("label", t); s += ",\"n\":" + esc(x->getName()) + ",\"a\":"; stmt(x->getSubStmt()); s += "}"; return; }
    if (auto x = dyn_cast<GotoStmt>(t)) { key("goto", t); s += ",\"n\":" + esc(x->getLabel()->getName()) + "}"; return; }
    if (auto x = dyn_cast<AttributedStmt>(t)) return stmt(x->getSubStmt());
    key("otherstmt", t); s += ",\"c\":" + esc(t->getStmtClassName()) + "}";
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext &C;
  V(ASTContext &c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void emit(Dumper &d) { O << d.s << "\n"; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext()) return true;
    bool def = f->isThisDeclarationADefinition() || f->isDefaulted();
    if (f->isDefaulted() && !f->isThisDeclarationADefinition()) def = false;
    if (!def) return true;
    Dumper d(C);
    std::string rel;
    SourceLocation loc = f->getLocation();
    if (!d.inRepo(loc, rel)) return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    std::string id = d.fid(f);
    if (f->isDefaulted() || f->isDeleted()) return true;
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (!gSeen.insert("F" + id).second) return true;
    d.s += "{\"D\":\"func\",\"id\":" + esc(id) + ",\"name\":" + esc(f->getNameAsString()) + ",\"qual\":" + esc(d.qname(f)) + ",\"file\":" + esc(rel);
    d.s += ",\"line\":" + std::to_string(d.line(f->getBeginLoc())) + ",\"end\":" + std::to_string(d.line(f->getEndLoc()));
    d.s += ",\"ret\":" + std::to_string(d.type(f->getReturnType()));
    d.s += ",\"params\":["; bool first = true;
    for (auto p : f->parameters()) { if (!first) d.s += ","; first = false; d.s += "{\"n\":" + esc(p->getName()) + ",\"i\":" + std::to_string(d.lid(p)) + ",\"t\":" + std::to_string(d.type(p->getType())) + "}"; }
    d.s += "]";
    if (f->isTemplateInstantiation() || (isa<CXXMethodDecl>(f) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(f)->getParent()))) d.s += ",\"inst\":1";
    if (auto m = dyn_cast<CXXMethodDecl>(f)) methodInfo(d, m);
    if (auto fpt = f->getType()->getAs<FunctionProtoType>()) {
      auto k = fpt->getExceptionSpecType();
      if (k == EST_DynamicNone || k == EST_BasicNoexcept || k == EST_NoexceptTrue || k == EST_NoThrow) d.s += ",\"nothrow\":1";
      if (k == EST_Dynamic) { d.s += ",\"throws\":["; for (unsigned i = 0; i < fpt->getNumExceptions(); ++i) { if (i) d.s += ","; d.s += std::to_string(d.type(fpt->getExceptionType(i))); } d.s += "]"; }
    }
    if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
      d.s += ",\"ctor\":1,\"inits\":["; first = true;
      if (c->isCopyConstructor()) {}
      for (auto i : c->inits()) {
        if (!first) d.s += ","; first = false;
        d.s += "{";
        if (i->isMemberInitializer()) d.s += "\"m\":" + esc(i->getMember()->getName());
        else if (i->isBaseInitializer()) d.s += "\"base\":" + std::to_string(d.type(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) d.s += "\"deleg\":1";
        else d.s += "\"x\":1";
        if (i->isWritten()) d.s += ",\"w\":1";
        d.s += ",\"e\":"; d.expr(i->getInit()); d.s += "}";
      }
      d.s += "]";
    }
    if (isa<CXXDestructorDecl>(f)) d.s += ",\"dtor\":1";
    d.s += ",\"body\":"; d.stmt(f->getBody()); d.s += "}";
    emit(d);
    return true;
  }
  void methodInfo(Dumper &d, const CXXMethodDecl *m) {
    d.s += ",\"cls\":" + esc(d.qname(m->getParent()));
    if (m->isConst()) d.s += ",\"const\":1";
    if (m->isStatic()) d.s += ",\"static\":1";
    if (m->isVirtual()) d.s += ",\"virtual\":1";
    if (m->isPureVirtual()) d.s += ",\"pure\":1";
    if (m->size_overridden_methods()) {
      d.s += ",\"over\":["; bool first = true;
      for (auto o : m->overridden_methods()) { if (!first) d.s += ","; first = false; d.s += esc(d.fid(o)); }
      d.s += "]";
    }
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    Dumper d(C); std::string rel;
    if (!d.inRepo(r->getLocation(), rel)) return true;
    std::string q = d.qname(r);
    if (!gSeen.insert("R" + q).second) return true;
    d.s += "{\"D\":\"rec\",\"q\":" + esc(q) + ",\"file\":" + esc(rel) + ",\"line\":" + std::to_string(d.line(r->getLocation()));
    d.s += ",\"t\":" + std::to_string(d.type(C.getRecordType(r)));
    if (r->isUnion()) d.s += ",\"union\":1";
    if (r->isAbstract()) d.s += ",\"abstract\":1";
    if (r->isPolymorphic()) d.s += ",\"poly\":1";
    d.s += ",\"bases\":["; bool first = true;
    for (auto &b : r->bases()) { if (!first) d.s += ","; first = false; d.s += std::to_string(d.type(b.getType())); }
    d.s += "],\"fields\":["; first = true;
    for (auto f : r->fields()) {
      if (!first) d.s += ","; first = false;
      d.s += "{\"n\":" + esc(f->getName()) + ",\"t\":" + std::to_string(d.type(f->getType())) + ",\"l\":" + std::to_string(d.line(f->getLocation())) + ",\"acc\":" + std::to_string((int)f->getAccess());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) { d.s += ",\"e\":"; d.expr(f->getInClassInitializer()); }
      d.s += "}";
    }
    d.s += "],\"methods\":["; first = true;
    for (auto m : r->methods()) {
      if (!first) d.s += ","; first = false;
      d.s += "{\"id\":" + esc(d.fid(m)) + ",\"name\":" + esc(m->getNameAsString());
      if (m->isVirtual()) d.s += ",\"virtual\":1";
      if (m->isPureVirtual()) d.s += ",\"pure\":1";
      if (m->isImplicit()) d.s += ",\"implicit\":1";
      if (m->isDeleted()) d.s += ",\"deleted\":1";
      if (m->isDefaulted()) d.s += ",\"defaulted\":1";
      d.s += ",\"acc\":" + std::to_string((int)m->getAccess());
      if (auto c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) d.s += ",\"copyctor\":1"; else d.s += ",\"ctor\":1"; }
      if (isa<CXXDestructorDecl>(m)) d.s += ",\"dtor\":1";
      if (m->isCopyAssignmentOperator()) d.s += ",\"copyassign\":1";
      d.s += ",\"ret\":" + std::to_string(d.type(m->getReturnType()));
      if (m->size_overridden_methods()) {
        d.s += ",\"over\":["; bool f2 = true;
        for (auto o : m->overridden_methods()) { if (!f2) d.s += ","; f2 = false; d.s += esc(d.fid(o)); }
        d.s += "]";
      }
      d.s += "}";
    }
    d.s += "]}";
    emit(d);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
    Dumper d(C); std::string rel;
    if (!d.inRepo(e->getLocation(), rel)) return true;
    std::string q = d.qname(e);
    if (e->getName().empty()) q = rel + ":" + std::to_string(d.line(e->getLocation()));
    if (!gSeen.insert("E" + q).second) return true;
    d.s += "{\"D\":\"enum\",\"q\":" + esc(q) + ",\"file\":" + esc(rel) + ",\"line\":" + std::to_string(d.line(e->getLocation())) + ",\"t\":" + std::to_string(d.type(C.getEnumType(e))) + ",\"vals\":["; bool first = true;
    for (auto c : e->enumerators()) { if (!first) d.s += ","; first = false; d.s += "[" + esc(c->getName()) + "," + llvm::toString(c->getInitVal(), 10) + "," + esc(d.qname(c)) + "]"; }
    d.s += "]}"; emit(d); return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return true;
    if (!v->isThisDeclarationADefinition() && !v->hasInit()) return true;
    if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
    if (v->getInit() && v->getInit()->isValueDependent()) return true;
    Dumper d(C); std::string rel;
    if (!d.inRepo(v->getLocation(), rel)) return true;
    std::string q = d.gname(v);
    if (!gSeen.insert("V" + q + (v->hasInit() ? "i" : "")).second) return true;
    d.s += "{\"D\":\"var\",\"q\":" + esc(q) + ",\"name\":" + esc(v->getName()) + ",\"file\":" + esc(rel) + ",\"line\":" + std::to_string(d.line(v->getLocation())) + ",\"t\":" + std::to_string(d.type(v->getType()));
    if (v->getType().isConstQualified()) d.s += ",\"const\":1";
    if (v->hasInit()) { d.s += ",\"e\":"; d.expr(v->getInit()); }
    d.s += "}"; emit(d); return true;
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    bool err = C.getDiagnostics().hasErrorOccurred();
    auto fe = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID());
    O << "{\"D\":\"tu\",\"file\":" << esc(fe ? fe->getName() : "") << ",\"err\":" << (err ? 1 : 0) << "}\n";
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    for (; gTypesOut < gTypeList.size(); ++gTypesOut)
      O << "{\"D\":\"type\",\"i\":" << gTypesOut << ",\"s\":" << esc(gTypeList[gTypesOut]) << "}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
}
int main(int argc, const char **argv) {
  gRoot = argv[1];
  std::vector<std::string> tus, flags; bool f = false;
  for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (!f && a == "--") f = true; else (f ? flags : tus).push_back(a); }
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool t(db, tus);
  Fac fac;
  return t.run(&fac);
}
