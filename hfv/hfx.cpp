// hfx: mechanical extractor.  Parses a translation unit of /repo with the real
// clang front end (real headers, overloads and templates resolved) and writes the
// bodies of every function defined under the given roots as a compact JSON IR.
// Only instantiations at scalar type double (or non-templates) are written.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> roots;
static std::string outfile;

struct Emit {
  ASTContext &C; const SourceManager &SM; PrintingPolicy PP;
  J::Array funcs, records;
  std::set<const Decl*> seenF, seenR;
  std::map<const Decl*, int> ids;
  std::map<std::string,int> tyIdx; J::Array tys;
  std::vector<const FunctionDecl*> work;
  std::set<const FunctionDecl*> queued;
  Emit(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true;
  }
  int id(const Decl *d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end()) return it->second; int n=(int)ids.size()+1; ids[d]=n; return n; }
  std::string tyStr(QualType t){ return t.getCanonicalType().getAsString(PP); }
  int ty(QualType t){
    if(t.isNull()) return -1;
    std::string s=tyStr(t);
    auto it=tyIdx.find(s); if(it!=tyIdx.end()) return it->second;
    int n=(int)tys.size(); tyIdx[s]=n;
    // category
    QualType q=t.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    std::string cat="o";
    if(q->isBooleanType()) cat="b";
    else if(q->isEnumeralType()) cat="i";
    else if(q->isUnsignedIntegerType()) cat="u";
    else if(q->isIntegerType()) cat="i";
    else if(q->isRealFloatingType()) cat="r";
    else if(q->isPointerType()) cat="p";
    else if(q->isVoidType()) cat="v";
    else if(q->isArrayType()) cat="a";
    J::Object o; o["s"]=s; o["c"]=cat; o["ref"]=t->isReferenceType(); o["const"]=t.getNonReferenceType().isConstQualified();
    if(auto *rd=q->getAsCXXRecordDecl()){ o["rec"]=recName(rd); o["q"]=plainName(rd); }
    if(auto *pt=q->getAs<PointerType>()){ if(auto *rd=pt->getPointeeType()->getAsCXXRecordDecl()){ o["rec"]=recName(rd); o["q"]=plainName(rd);} }
    if(cat=="i"||cat=="u") o["w"]=(int64_t)C.getTypeSize(q);
    if(auto *at=C.getAsConstantArrayType(q)) { o["n"]=(int64_t)at->getSize().getZExtValue(); o["et"]=ty(at->getElementType()); }
    tys.push_back(std::move(o)); // note: recursion may reorder; fix index below
    // recursion above can have pushed entries before this one
    tyIdx[s]=(int)tys.size()-1;
    return (int)tys.size()-1;
  }
  std::string recName(const CXXRecordDecl *rd){ return tyStr(C.getTypeDeclType(rd)); }
  std::string plainName(const NamedDecl *d){ std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os,PP); return s; }
  std::string fnKey(const FunctionDecl *f){
    std::string s;
    if(auto *m=dyn_cast<CXXMethodDecl>(f)) s=recName(m->getParent())+"::"+f->getNameAsString();
    else s=plainName(f);
    if(auto *ta=f->getTemplateSpecializationArgs()){
      s+="<"; llvm::raw_string_ostream os(s); bool first=true;
      for(auto &a: ta->asArray()){ if(!first) os<<", "; first=false; a.print(PP,os,true);} os.flush(); s+=">";
    }
    s+="(";
    for(unsigned i=0;i<f->getNumParams();i++){ if(i) s+=", "; s+=tyStr(f->getParamDecl(i)->getType()); }
    s+=")";
    if(auto *m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+=" const";
    return s;
  }
  bool inRoot(SourceLocation l){
    if(l.isInvalid()) return false;
    l=SM.getExpansionLoc(l);
    auto fe=SM.getFilename(l); std::string fn=fe.str();
    if(fn.empty()) return false;
    llvm::SmallString<256> rp; if(llvm::sys::fs::real_path(fn,rp)) return false;
    for(auto &r: roots) if(rp.str().startswith(r)) return true;
    return false;
  }
  std::string loc(SourceLocation l){ l=SM.getExpansionLoc(l); auto fe=SM.getFilename(l).str(); return fe+":"+std::to_string(SM.getSpellingLineNumber(l)); }
  bool badScalar(const std::string &s){ return s.find("long double")!=std::string::npos || s.find("_Float128")!=std::string::npos || s.find("__float128")!=std::string::npos; }
  void queue(const FunctionDecl *f){
    const FunctionDecl *d=nullptr; if(!f->hasBody(d)||!d) return;
    if(d->isDependentContext()) return;
    if(queued.count(d)) return; queued.insert(d);
    if(!inRoot(d->getLocation())) return;
    work.push_back(d);
  }
  void recordInfo(const CXXRecordDecl *rd){
    if(!rd||!rd->hasDefinition()) return; rd=rd->getDefinition();
    if(rd->isDependentContext()||seenR.count(rd)) return;
    if(!inRoot(rd->getLocation())) return;
    seenR.insert(rd);
    if(rd->isLambda()) return;
    J::Object o; o["n"]=recName(rd); if(badScalar(recName(rd))) return; o["q"]=plainName(rd); J::Array fs;
    for(auto *f: rd->fields()){ J::Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); if(f->hasInClassInitializer()&&f->getInClassInitializer()) fo["i"]=expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["f"]=std::move(fs); J::Array bs;
    for(auto &b: rd->bases()) if(auto *br=b.getType()->getAsCXXRecordDecl()){ recordInfo(br); bs.push_back(recName(br)); }
    o["b"]=std::move(bs);
    J::Array ms; for(auto *m: rd->methods()){ if(m->isVirtual()) { J::Object mo; mo["n"]=m->getNameAsString(); mo["k"]=fnKey(m); ms.push_back(std::move(mo)); queue(m);} }
    o["v"]=std::move(ms);
    records.push_back(std::move(o));
  }
  // ---------- expressions
  J::Object node(const char *k, const Expr *e){ J::Object o; o["k"]=k; o["t"]=ty(e->getType()); return o; }
  J::Array exprs(llvm::ArrayRef<const Expr*> es){ J::Array a; for(auto *e: es) a.push_back(expr(e)); return a; }
  template<class It> J::Array args(It b, It e){ J::Array a; for(;b!=e;++b) a.push_back(expr(*b)); return a; }
  void callee(J::Object &o, const FunctionDecl *f){
    o["q"]=plainName(f); o["n"]=f->getNameAsString(); o["key"]=fnKey(f);
    if(auto *m=dyn_cast<CXXMethodDecl>(f)) { o["rec"]=recName(m->getParent()); if(m->isVirtual()) o["virt"]=true; recordInfo(m->getParent()); if(m->isStatic()) o["static"]=true; if(m->isConst()) o["cm"]=true; }
    if(f->isOverloadedOperator()) o["opn"]=getOperatorSpelling(f->getOverloadedOperator());
    J::Array pr; for(auto *p: f->parameters()){ QualType pt=p->getType(); pr.push_back(pt->isReferenceType() && !pt.getNonReferenceType().isConstQualified() && !pt->isRValueReferenceType() ? 2 : pt->isReferenceType()?1:0); }
    o["pr"]=std::move(pr);
    queue(f);
  }
  J::Value lambda(const LambdaExpr *l){
    J::Object o=node("lambda",l);
    J::Array ps; const CXXMethodDecl *m=l->getCallOperator();
    if(m->getDescribedFunctionTemplate() ){ 
      // generic lambda: take instantiations
      J::Array insts;
      for(auto *s: m->getDescribedFunctionTemplate()->specializations()) if(s->hasBody()) { J::Object io; J::Array ps2; for(auto *p: s->parameters()) ps2.push_back(var(p)); io["params"]=std::move(ps2); io["body"]=stmt(s->getBody()); J::Array pt; for(auto*p: s->parameters()) pt.push_back(ty(p->getType())); io["pt"]=std::move(pt); insts.push_back(std::move(io)); }
      o["insts"]=std::move(insts);
    } else {
      for(auto *p: m->parameters()) ps.push_back(var(p));
      o["params"]=std::move(ps); o["body"]=stmt(l->getBody());
      o["rt"]=ty(m->getReturnType());
    }
    J::Array caps; auto ci=l->capture_init_begin();
    for(auto &c: l->captures()){ J::Object co; if(c.capturesThis()) co["this"]=true; else if(c.capturesVariable()){ co["id"]=id(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["ref"]=c.getCaptureKind()==LCK_ByRef; if(l->isInitCapture(&c)) { if(auto *vd=dyn_cast<VarDecl>(c.getCapturedVar())) co["init"]=expr(vd->getInit()); } } caps.push_back(std::move(co)); ++ci; }
    o["caps"]=std::move(caps);
    return o;
  }
  J::Value expr(const Expr *e){
    if(!e) return nullptr;
    if(auto *x=dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if(auto *x=dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if(auto *x=dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if(auto *x=dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if(auto *x=dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if(auto *x=dyn_cast<IntegerLiteral>(e)){ J::Object o=node("int",e); o["v"]=llvm::toString(x->getValue(),10,x->getType()->isSignedIntegerType()); return o; }
    if(auto *x=dyn_cast<CharacterLiteral>(e)){ J::Object o=node("int",e); o["v"]=std::to_string(x->getValue()); return o; }
    if(auto *x=dyn_cast<FloatingLiteral>(e)){ J::Object o=node("flt",e);
      o["v"]=Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()),SM,C.getLangOpts()).str();
      llvm::SmallString<64> sb; x->getValue().toString(sb,40); o["d"]=sb.str().str(); return o; }
    if(auto *x=dyn_cast<CXXBoolLiteralExpr>(e)){ J::Object o=node("bool",e); o["v"]=x->getValue(); return o; }
    if(auto *x=dyn_cast<clang::StringLiteral>(e)){ J::Object o=node("str",e); o["v"]=x->isOrdinary()?llvm::json::fixUTF8(x->getString()):std::string("?"); return o; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)) return node("null",e);
    if(isa<CXXThisExpr>(e)) return node("this",e);
    if(auto *x=dyn_cast<DeclRefExpr>(e)){
      auto *d=x->getDecl();
      if(auto *ec=dyn_cast<EnumConstantDecl>(d)){ J::Object o=node("int",e); o["v"]=llvm::toString(ec->getInitVal(),10); o["n"]=plainName(ec); return o; }
      if(auto *v=dyn_cast<VarDecl>(d)){ J::Object o=node("var",e); o["id"]=id(v); o["n"]=v->getNameAsString(); 
        if(v->hasGlobalStorage()){ o["g"]=plainName(v); 
          const VarDecl *def=nullptr; const Expr *in=v->getAnyInitializer(def);
          if(in && inRoot(v->getLocation()) && v->getType().isConstQualified()) { if(!globSeen.count(v)){ globSeen.insert(v); globs.emplace(plainName(v),expr(in));} }
          Expr::EvalResult er; if(in && !in->isValueDependent() && v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified() && in->EvaluateAsInt(er,C)) o["cv"]=llvm::toString(er.Val.getInt(),10);
        }
        return o; }
      if(auto *f=dyn_cast<FunctionDecl>(d)){ J::Object o=node("fn",e); callee(o,f); return o; }
      if(auto *b=dyn_cast<BindingDecl>(d)){ J::Object o=node("var",e); o["id"]=id(b); o["n"]=b->getNameAsString(); return o; }
      J::Object o=node("unk",e); o["w"]="declref"; return o;
    }
    if(auto *x=dyn_cast<MemberExpr>(e)){
      if(auto *f=dyn_cast<FieldDecl>(x->getMemberDecl())){ J::Object o=node("mem",e); o["n"]=f->getNameAsString(); o["b"]=expr(x->getBase()); if(x->isArrow()) o["arrow"]=true; if(auto *rd=dyn_cast<CXXRecordDecl>(f->getParent())) { recordInfo(rd); o["rec"]=recName(rd);} return o; }
      if(auto *v=dyn_cast<VarDecl>(x->getMemberDecl())){ J::Object o=node("var",e); o["id"]=id(v); o["n"]=v->getNameAsString(); o["g"]=plainName(v); return o; }
      if(auto *f=dyn_cast<FunctionDecl>(x->getMemberDecl())){ J::Object o=node("fn",e); callee(o,f); o["b"]=expr(x->getBase()); if(x->isArrow()) o["arrow"]=true; return o; }
    }
    if(auto *x=dyn_cast<BinaryOperator>(e)){ // includes CompoundAssign
      J::Object o=node(x->isAssignmentOp()?"asg":"bin",e); o["op"]=x->getOpcodeStr().str(); o["l"]=expr(x->getLHS()); o["r"]=expr(x->getRHS()); 
      if(auto *ca=dyn_cast<CompoundAssignOperator>(x)) o["ct"]=ty(ca->getComputationLHSType());
      return o; }
    if(auto *x=dyn_cast<UnaryOperator>(e)){ J::Object o=node("un",e); o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if(x->isPostfix()) o["post"]=true; o["e"]=expr(x->getSubExpr()); return o; }
    if(auto *x=dyn_cast<ConditionalOperator>(e)){ J::Object o=node("cond",e); o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); return o; }
    if(auto *x=dyn_cast<CastExpr>(e)){
      switch(x->getCastKind()){
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_IntegralCast: case CK_FloatingCast: case CK_BooleanToSignedIntegral: {
          J::Object o=node("cast",e); o["ck"]=x->getCastKindName(); o["e"]=expr(x->getSubExpr()); o["ft"]=ty(x->getSubExpr()->getType()); if(isa<ExplicitCastExpr>(x)) o["ex"]=true; return o; }
        case CK_Dynamic: { J::Object o=node("dyncast",e); o["e"]=expr(x->getSubExpr()); return o; }
        case CK_ToVoid: { J::Object o=node("tovoid",e); o["e"]=expr(x->getSubExpr()); return o; }
        case CK_NullToPointer: return node("null",e);
        case CK_UserDefinedConversion: case CK_ConstructorConversion: default: { J::Value v=expr(x->getSubExpr()); return v; }
      }
    }
    if(auto *x=dyn_cast<CXXMemberCallExpr>(e)){
      J::Object o=node("mcall",e); 
      if(auto *f=x->getMethodDecl()) callee(o,f);
      const Expr *ce=x->getCallee()->IgnoreParens(); if(auto *me=dyn_cast<MemberExpr>(ce)){ if(me->hasQualifier()) o["qual"]=true; if(me->isArrow()) o["arrow"]=true; }
      o["o"]=expr(x->getImplicitObjectArgument()); o["a"]=args(x->arg_begin(),x->arg_end()); o["l"]=loc(x->getExprLoc()); return o; }
    if(auto *x=dyn_cast<CXXOperatorCallExpr>(e)){
      J::Object o=node("opcall",e); if(auto *f=x->getDirectCallee()) { callee(o,f); if(isa<CXXMethodDecl>(f)) o["meth"]=true; }
      o["op"]=getOperatorSpelling(x->getOperator()); o["a"]=args(x->arg_begin(),x->arg_end()); o["l"]=loc(x->getExprLoc()); return o; }
    if(auto *x=dyn_cast<CallExpr>(e)){
      J::Object o=node("call",e); if(auto *f=x->getDirectCallee()) callee(o,f); else o["f"]=expr(x->getCallee());
      o["a"]=args(x->arg_begin(),x->arg_end()); o["l"]=loc(x->getExprLoc()); return o; }
    if(auto *x=dyn_cast<CXXConstructExpr>(e)){
      J::Object o=node("ctor",e); auto *cd=x->getConstructor(); o["rec"]=recName(cd->getParent()); o["q"]=plainName(cd->getParent()); o["key"]=fnKey(cd);
      recordInfo(cd->getParent()); queue(cd);
      if(cd->isCopyOrMoveConstructor()) o["cm"]=true; if(cd->isDefaultConstructor()) o["def"]=true; if(x->isListInitialization()) o["list"]=true;
      o["a"]=args(x->arg_begin(),x->arg_end()); o["l"]=loc(x->getExprLoc()); return o; }
    if(auto *x=dyn_cast<CXXInheritedCtorInitExpr>(e)){ J::Object o=node("unk",e); o["w"]="inheritedctor"; return o; }
    if(auto *x=dyn_cast<LambdaExpr>(e)) return lambda(x);
    if(auto *x=dyn_cast<ArraySubscriptExpr>(e)){ J::Object o=node("sub",e); o["b"]=expr(x->getBase()); o["i"]=expr(x->getIdx()); return o; }
    if(auto *x=dyn_cast<InitListExpr>(e)){ J::Object o=node("initlist",e); J::Array a; const InitListExpr *sx=x->getSemanticForm()?x->getSemanticForm():x; for(auto *i: sx->inits()) a.push_back(expr(i)); o["a"]=std::move(a); return o; }
    if(auto *x=dyn_cast<CXXNewExpr>(e)){ J::Object o=node("new",e); o["at"]=ty(x->getAllocatedType()); o["i"]=expr(x->getInitializer()); if(x->isArray()) o["arr"]=x->getArraySize()?expr(*x->getArraySize()):J::Value(nullptr); return o; }
    if(auto *x=dyn_cast<CXXDeleteExpr>(e)){ J::Object o=node("delete",e); o["e"]=expr(x->getArgument()); return o; }
    if(auto *x=dyn_cast<CXXThrowExpr>(e)){ J::Object o=node("throw",e); o["e"]=expr(x->getSubExpr()); o["l"]=loc(x->getExprLoc()); return o; }
    if(isa<CXXScalarValueInitExpr>(e)||isa<ImplicitValueInitExpr>(e)) return node("zero",e);
    if(auto *x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Expr::EvalResult er; if(x->EvaluateAsInt(er,C)){ J::Object o=node("int",e); o["v"]=llvm::toString(er.Val.getInt(),10); return o; } }
    if(auto *x=dyn_cast<CXXNoexceptExpr>(e)){ J::Object o=node("bool",e); o["v"]=x->getValue(); return o; }
    if(auto *x=dyn_cast<TypeTraitExpr>(e)){ J::Object o=node("bool",e); o["v"]=x->getValue(); return o; }
    J::Object o=node("unk",e); o["w"]=e->getStmtClassName(); return o;
  }
  J::Object var(const VarDecl *v){
    J::Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["t"]=ty(v->getType()); if(v->getType()->isReferenceType()) o["ref"]=true;
    if(v->getType().getNonReferenceType().isConstQualified()) o["const"]=true;
    if(v->isStaticLocal()) o["static"]=true; if(v->getTLSKind()!=VarDecl::TLS_None) o["tls"]=true; return o; }
  J::Value stmt(const Stmt *s){
    if(!s) return nullptr;
    if(auto *x=dyn_cast<Expr>(s)){ J::Object o; o["k"]="expr"; o["e"]=expr(x); o["l"]=loc(x->getExprLoc()); return o; }
    J::Object o; o["l"]=loc(s->getBeginLoc());
    if(auto *x=dyn_cast<CompoundStmt>(s)){ o["k"]="block"; J::Array a; for(auto *c: x->body()) a.push_back(stmt(c)); o["s"]=std::move(a); return o; }
    if(auto *x=dyn_cast<DeclStmt>(s)){ o["k"]="decl"; J::Array a; for(auto *d: x->decls()){ if(auto *v=dyn_cast<VarDecl>(d)){ J::Object vo=var(v); if(v->getInit()) vo["i"]=expr(v->getInit()); if(auto *dd=dyn_cast<DecompositionDecl>(v)){ J::Array bs; for(auto*b: dd->bindings()){ J::Object bo; bo["id"]=id(b); bo["n"]=b->getNameAsString(); bs.push_back(std::move(bo)); } vo["bind"]=std::move(bs);} a.push_back(std::move(vo)); } } o["v"]=std::move(a); return o; }
    if(auto *x=dyn_cast<IfStmt>(s)){ o["k"]="if"; if(x->getInit()) o["init"]=stmt(x->getInit()); if(x->getConditionVariableDeclStmt()) o["cv"]=stmt(x->getConditionVariableDeclStmt()); 
      if(x->isConstexpr()){ if(auto nd=x->getNondiscardedCase(C)){ J::Object b; b["k"]="block"; b["l"]=loc(s->getBeginLoc()); J::Array a; if(*nd) a.push_back(stmt(*nd)); b["s"]=std::move(a); return b; } }
      o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); return o; }
    if(auto *x=dyn_cast<ForStmt>(s)){ o["k"]="for"; o["init"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["body"]=stmt(x->getBody()); return o; }
    if(auto *x=dyn_cast<WhileStmt>(s)){ o["k"]="while"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
    if(auto *x=dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
    if(auto *x=dyn_cast<CXXForRangeStmt>(s)){ o["k"]="rfor"; o["v"]=var(x->getLoopVariable()); o["r"]=expr(x->getRangeInit()); o["body"]=stmt(x->getBody()); 
       if(auto *dd=dyn_cast<DecompositionDecl>(x->getLoopVariable())){ J::Array bs; for(auto*b: dd->bindings()){ J::Object bo; bo["id"]=id(b); bo["n"]=b->getNameAsString(); bs.push_back(std::move(bo)); } o["bind"]=std::move(bs);} return o; }
    if(auto *x=dyn_cast<ReturnStmt>(s)){ o["k"]="ret"; o["e"]=expr(x->getRetValue()); return o; }
    if(isa<BreakStmt>(s)){ o["k"]="break"; return o; }
    if(isa<ContinueStmt>(s)){ o["k"]="cont"; return o; }
    if(isa<NullStmt>(s)){ o["k"]="block"; o["s"]=J::Array(); return o; }
    if(auto *x=dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
    if(auto *x=dyn_cast<CaseStmt>(s)){ o["k"]="case"; o["v"]=expr(x->getLHS()); o["s"]=stmt(x->getSubStmt()); return o; }
    if(auto *x=dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["s"]=stmt(x->getSubStmt()); return o; }
    if(auto *x=dyn_cast<CXXTryStmt>(s)){ o["k"]="try"; o["s"]=stmt(x->getTryBlock()); J::Array hs; for(unsigned i=0;i<x->getNumHandlers();i++){ hs.push_back(stmt(x->getHandler(i)->getHandlerBlock())); } o["h"]=std::move(hs); return o; }
    if(auto *x=dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if(auto *x=dyn_cast<LabelStmt>(s)){ o["k"]="unk"; o["w"]="label"; return o; }
    o["k"]="unk"; o["w"]=s->getStmtClassName(); return o;
  }
  std::map<std::string,std::string> enums;
  std::map<std::string,J::Value> globs; std::set<const VarDecl*> globSeen;
  void emitF(const FunctionDecl *d){
    if(seenF.count(d)) return; seenF.insert(d);
    std::string key=fnKey(d);
    if(badScalar(key)) return;
    J::Object o; o["key"]=key; o["q"]=plainName(d); o["n"]=d->getNameAsString(); o["l"]=loc(d->getLocation());
    { auto b=SM.getExpansionLoc(d->getBeginLoc()), e2=SM.getExpansionLoc(d->getEndLoc()); o["el"]=(int64_t)SM.getSpellingLineNumber(e2); }
    if(auto *m=dyn_cast<CXXMethodDecl>(d)){ o["rec"]=recName(m->getParent()); recordInfo(m->getParent()); if(m->isConst()) o["cm"]=true; if(m->isStatic()) o["static"]=true; }
    o["rt"]=ty(d->getReturnType());
    J::Array ps; for(auto *p: d->parameters()) { J::Object po=var(p); if(p->hasDefaultArg()&&!p->hasUninstantiatedDefaultArg()&&!p->hasUnparsedDefaultArg()) po["d"]=expr(p->getDefaultArg()); ps.push_back(std::move(po)); } o["params"]=std::move(ps);
    if(auto *c=dyn_cast<CXXConstructorDecl>(d)){ J::Array is; for(auto *i: c->inits()){ J::Object io; if(i->isMemberInitializer()) io["f"]=i->getMember()->getNameAsString(); else if(i->isBaseInitializer()) io["base"]=recName(i->getBaseClass()->getAsCXXRecordDecl()); else if(i->isDelegatingInitializer()) io["deleg"]=true; io["e"]=expr(i->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
    o["body"]=stmt(d->getBody());
    funcs.push_back(std::move(o));
  }
};

struct V: RecursiveASTVisitor<V> {
  Emit &E; V(Emit &E):E(E){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f){ if(f->isThisDeclarationADefinition()&&!f->isDependentContext()) { if(auto *m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true; E.queue(f);} return true; }
  bool TraverseStmt(Stmt*){ return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r){ E.recordInfo(r); return true; }
  bool VisitEnumConstantDecl(EnumConstantDecl *d){ if(!E.SM.isInSystemHeader(d->getLocation())&&!d->getDeclContext()->isDependentContext()) E.enums[d->getNameAsString()]=llvm::toString(d->getInitVal(),10); return true; }
};
struct Cons: ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if(C.getDiagnostics().hasErrorOccurred()) { llvm::errs()<<"hfx: parse errors\n"; exit(3); }
    Emit E(C); V v(E); 
    for(auto *d: C.getTranslationUnitDecl()->decls()) { 
      if(auto *ns=dyn_cast<NamespaceDecl>(d)) { auto n=ns->getName(); if(n=="std"||n=="Eigen"||n=="__gnu_cxx") continue; }
      v.TraverseDecl(d); }
    while(!E.work.empty()){ auto *f=E.work.back(); E.work.pop_back(); E.emitF(f); }
    J::Object o; o["funcs"]=std::move(E.funcs); o["records"]=std::move(E.records); o["types"]=std::move(E.tys); { J::Object en; for(auto &p: E.enums) en[p.first]=p.second; o["enums"]=std::move(en); }
    J::Object g; for(auto &p: E.globs) g[p.first]=std::move(p.second); o["globs"]=std::move(g);
    std::error_code ec; llvm::raw_fd_ostream os(outfile,ec); os<<J::Value(std::move(o)); os.flush();
  }
};
struct Act: ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc,char**argv){
  // hfx OUT ROOT[,ROOT] FILE -- flags
  if(argc<5){ llvm::errs()<<"usage\n"; return 2; }
  outfile=argv[1]; std::string r=argv[2]; size_t p=0; while(p!=std::string::npos){ size_t q=r.find(',',p); roots.push_back(r.substr(p,q==std::string::npos?q:q-p)); p=q==std::string::npos?q:q+1; }
  std::string file=argv[3]; std::vector<std::string> fl; for(int i=5;i<argc;i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",fl);
  tooling::ClangTool tool(db,{file});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
