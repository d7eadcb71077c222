// clang plugin: emits the type-resolved syntax tree of every declaration whose
// expansion location lies under a given directory prefix, as compact JSON.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;
namespace {
static std::string OutPath; static std::vector<std::string> Prefixes;
struct Emitter {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::vector<Value> Funcs, Records, Globals; std::set<const void*> Seen;
  Emitter(ASTContext &c):C(c),SM(c.getSourceManager()),PP(c.getPrintingPolicy()){PP.SuppressTagKeyword=true; PP.Bool=true; PP.SuppressUnwrittenScope=true;}
  static std::string u8(llvm::StringRef s){ return llvm::json::isUTF8(s)?s.str():llvm::json::fixUTF8(s); }
  std::string ty(QualType t){ if(t.isNull()) return ""; return u8(t.getCanonicalType().getAsString(PP)); }
  std::string id(const Decl*d){ if(!d) return "0"; d=d->getCanonicalDecl(); char b[32]; snprintf(b,32,"%llx",(unsigned long long)(uintptr_t)d); return b; }
  std::string qn(const NamedDecl*d){ std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o,PP); return u8(o.str()); }
  unsigned line(SourceLocation l){ return SM.getExpansionLineNumber(l); }
  std::string file(SourceLocation l){ l=SM.getExpansionLoc(l); auto f=SM.getFilename(l); return u8(f); }
  bool inProj(SourceLocation l){ if(l.isInvalid()) return false; l=SM.getExpansionLoc(l); auto fe=SM.getFileEntryRefForID(SM.getFileID(l)); if(!fe) return false;
    std::string p=fe->getFileEntry().tryGetRealPathName().str(); if(p.empty()) p=fe->getName().str();
    for(auto&x:Prefixes) if(p.rfind(x,0)==0) return true; return false; }
  std::string sig(const FunctionDecl*f){ std::string s=qn(f)+"("; bool first=true; for(auto*p:f->parameters()){ if(!first) s+=","; first=false; s+=ty(p->getType()); } s+=")"; if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+=" const"; return s; }
  Object mk(const char*k,const Stmt*s){ Object o; o["k"]=k; o["l"]=(int64_t)line(s->getBeginLoc()); return o; }
  Value var(const VarDecl*v){ Object o; o["name"]=v->getNameAsString(); o["id"]=id(v); o["t"]=ty(v->getType()); o["l"]=(int64_t)line(v->getLocation());
    o["ref"]=v->getType()->isReferenceType(); o["const"]=v->getType().getNonReferenceType().isConstQualified();
    if(v->isStaticLocal()) o["static"]=true; if(v->getTSCSpec()!=TSCS_unspecified) o["tls"]=true;
    if(auto*pv=dyn_cast<ParmVarDecl>(v)){ if(pv->hasDefaultArg() && !pv->hasUninstantiatedDefaultArg() && !pv->hasUnparsedDefaultArg()) o["init"]=ex(pv->getDefaultArg()); }
    else if(v->getInit()) { o["init"]=ex(v->getInit()); o["istyle"]=(int64_t)v->getInitStyle(); }
    if(auto*dd=dyn_cast<DecompositionDecl>(v)){ Array b; for(auto*x:dd->bindings()){ Object bo; bo["name"]=x->getNameAsString(); bo["id"]=id(x); if(x->getBinding()) bo["e"]=ex(x->getBinding()); b.push_back(std::move(bo)); } o["bindings"]=std::move(b);} 
    return o; }
  Value ex(const Expr*e){ if(!e) return nullptr;
    // transparent wrappers
    if(auto*x=dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<FullExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)) { Value v=ex(x->getExpr()); if(auto*o=v.getAsObject()) (*o)["defarg"]=true; return v; }
    if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
    if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)) { Object o=mk("StdInit",e); o["t"]=ty(e->getType()); o["e"]=ex(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CXXFunctionalCastExpr>(e)) { if(isa<CXXConstructExpr>(x->getSubExpr()->IgnoreImplicit())) return ex(x->getSubExpr()); }
    if(auto*x=dyn_cast<CastExpr>(e)){
      auto ck=x->getCastKind();
      switch(ck){
        case CK_LValueToRValue: case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
          return ex(x->getSubExpr());
        default: break; }
      Object o=mk("Cast",e); o["ck"]=x->getCastKindName(); o["t"]=ty(e->getType()); o["e"]=ex(x->getSubExpr()); return o; }
    Value v=ex2(e); if(auto*o=v.getAsObject()) if(!o->get("t")) (*o)["t"]=ty(e->getType()); return v; }
  Array args(llvm::ArrayRef<const Expr*> a){ Array r; for(auto*x:a) r.push_back(ex(x)); return r; }
  template<class It> Array argsr(It r0){ Array r; for(auto*x:r0) r.push_back(ex(cast<Expr>(x))); return r; }
  void callee(Object&o,const FunctionDecl*f){ if(!f) return; o["fn"]=qn(f); o["sig"]=sig(f); o["fid"]=id(f); o["name"]=f->getNameAsString(); o["proj"]=inProj(f->getLocation());
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qn(m->getParent()); o["mconst"]=m->isConst(); o["mstatic"]=m->isStatic(); }
    Array pr; for(auto*p:f->parameters()) pr.push_back(ty(p->getType())); o["pt"]=std::move(pr); }
  Value ex2(const Expr*e){
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ Object o=mk("Int",e); llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); o["v"]=s.str().str(); return o; }
    if(auto*x=dyn_cast<FloatingLiteral>(e)){ Object o=mk("Float",e); llvm::SmallString<64> s; x->getValue().toString(s,40); o["v"]=s.str().str(); return o; }
    if(auto*x=dyn_cast<StringLiteral>(e)){ Object o=mk("Str",e); o["v"]=u8(x->getBytes()); return o; }
    if(auto*x=dyn_cast<CharacterLiteral>(e)){ Object o=mk("Char",e); o["v"]=(int64_t)x->getValue(); return o; }
    if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ Object o=mk("Bool",e); o["v"]=x->getValue(); return o; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)) return mk("Null",e);
    if(isa<CXXThisExpr>(e)) return mk("This",e);
    if(auto*x=dyn_cast<DeclRefExpr>(e)){ Object o=mk("Ref",e); auto*d=x->getDecl(); o["name"]=d->getNameAsString(); o["id"]=id(d); o["qn"]=qn(d); o["dk"]=d->getDeclKindName();
      if(auto*v=dyn_cast<VarDecl>(d)){ o["glob"]=!v->isLocalVarDeclOrParm(); o["proj"]=inProj(v->getLocation()); if(inProj(v->getLocation()) && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent() && !v->isLocalVarDeclOrParm()){ if(auto*av=v->getType().isConstQualified()&&!v->getType()->isRecordType()?v->evaluateValue():nullptr){ if(av->isInt()){ llvm::SmallString<32> s; av->getInt().toString(s,10); o["cv"]=s.str().str(); } else if(av->isFloat()){ llvm::SmallString<64> s; av->getFloat().toString(s,40); o["cvf"]=s.str().str(); } } } }
      if(auto*ec=dyn_cast<EnumConstantDecl>(d)){ llvm::SmallString<32> s; ec->getInitVal().toString(s,10); o["cv"]=s.str().str(); }
      if(auto*f=dyn_cast<FunctionDecl>(d)) callee(o,f);
      return o; }
    if(auto*x=dyn_cast<MemberExpr>(e)){ Object o=mk("Member",e); auto*d=x->getMemberDecl(); o["name"]=d->getNameAsString(); o["id"]=id(d); o["qn"]=qn(d); o["dk"]=d->getDeclKindName(); o["arrow"]=x->isArrow(); o["base"]=ex(x->getBase());
      if(auto*v=dyn_cast<VarDecl>(d)) if(inProj(v->getLocation())&&v->getAnyInitializer()&&!v->getAnyInitializer()->isValueDependent()&&v->getType().isConstQualified()&&!v->getType()->isRecordType()) if(auto*av=v->evaluateValue()) if(av->isInt()){ llvm::SmallString<32> s; av->getInt().toString(s,10); o["cv"]=s.str().str(); }
      return o; }
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){ Object o=mk("OpCall",e); o["op"]=getOperatorSpelling(x->getOperator()); o["args"]=argsr(x->arguments()); callee(o,x->getDirectCallee()); if(!x->getDirectCallee()) o["ce"]=ex(x->getCallee()); return o; }
    if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){ Object o=mk("MCall",e); o["obj"]=ex(x->getImplicitObjectArgument()); o["args"]=argsr(x->arguments()); callee(o,x->getMethodDecl()); if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"]=me->isArrow(); 
      if(auto*f=x->getMethodDecl()) if(auto*ta=f->getTemplateSpecializationArgs()){ Array t; for(auto&a:ta->asArray()) if(a.getKind()==TemplateArgument::Type) t.push_back(ty(a.getAsType())); o["targs"]=std::move(t);} return o; }
    if(auto*x=dyn_cast<CallExpr>(e)){ Object o=mk("Call",e); o["args"]=argsr(x->arguments()); callee(o,x->getDirectCallee()); if(!x->getDirectCallee()) o["ce"]=ex(x->getCallee());
      if(auto*f=x->getDirectCallee()) if(auto*ta=f->getTemplateSpecializationArgs()){ Array t; for(auto&a:ta->asArray()){ if(a.getKind()==TemplateArgument::Type) t.push_back(ty(a.getAsType())); else if(a.getKind()==TemplateArgument::Integral){ llvm::SmallString<32> s; a.getAsIntegral().toString(s,10); t.push_back(s.str().str()); } } o["targs"]=std::move(t);} return o; }
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){ Object o=mk("Construct",e); auto*c=x->getConstructor(); o["cls"]=qn(c->getParent()); o["t"]=ty(e->getType()); o["args"]=argsr(x->arguments()); o["list"]=x->isListInitialization()||x->isStdInitListInitialization(); o["copy"]=c->isCopyOrMoveConstructor(); o["sig"]=sig(c); o["proj"]=inProj(c->getLocation()); Array pr; for(auto*p:c->parameters()) pr.push_back(ty(p->getType())); o["pt"]=std::move(pr); return o; }
    if(auto*x=dyn_cast<InitListExpr>(e)){ Object o=mk("InitList",e); if(x->isSemanticForm()==false && x->getSemanticForm()) x=x->getSemanticForm(); o["items"]=argsr(x->inits()); return o; }
    if(auto*x=dyn_cast<CompoundAssignOperator>(e)){ Object o=mk("CAssign",e); o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=ex(x->getLHS()); o["b"]=ex(x->getRHS()); return o; }
    if(auto*x=dyn_cast<BinaryOperator>(e)){ Object o=mk("Bin",e); o["op"]=x->getOpcodeStr().str(); o["a"]=ex(x->getLHS()); o["b"]=ex(x->getRHS()); return o; }
    if(auto*x=dyn_cast<CXXRewrittenBinaryOperator>(e)) return ex(x->getSemanticForm());
    if(auto*x=dyn_cast<UnaryOperator>(e)){ Object o=mk("Un",e); o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"]=x->isPostfix(); o["e"]=ex(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<AbstractConditionalOperator>(e)){ Object o=mk("Cond",e); o["c"]=ex(x->getCond()); o["a"]=ex(x->getTrueExpr()); o["b"]=ex(x->getFalseExpr()); return o; }
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ Object o=mk("Index",e); o["a"]=ex(x->getBase()); o["i"]=ex(x->getIdx()); return o; }
    if(auto*x=dyn_cast<LambdaExpr>(e)){ Object o=mk("Lambda",e); const CXXMethodDecl*op=x->getCallOperator(); const Stmt*body=x->getBody();
      // a generic lambda: the bodies of its instantiations, which are resolved
      if(auto*ft=x->getDependentCallOperator()){ Array alts; bool first=true; for(auto*sp:ft->specializations()){ auto*m=dyn_cast<CXXMethodDecl>(sp); if(!m||!m->hasBody()) continue; if(first){ op=m; body=m->getBody(); first=false; } Object a; Array ps; for(auto*p:m->parameters()) ps.push_back(var(p)); a["params"]=std::move(ps); a["id"]=id(m); a["body"]=st(m->getBody()); alts.push_back(std::move(a)); } if(alts.size()>1) o["alts"]=std::move(alts); }
      Array ps; for(auto*p:op->parameters()) ps.push_back(var(p)); o["params"]=std::move(ps); o["id"]=id(op); Array cs; 
      for(auto&c:x->captures()){ Object co; if(c.capturesThis()) co["this"]=true; else if(c.capturesVariable()){ co["id"]=id(c.getCapturedVar()); co["name"]=c.getCapturedVar()->getNameAsString(); if(auto*vd=dyn_cast<VarDecl>(c.getCapturedVar())) if(x->isInitCapture(&c) && vd->getInit()) co["init"]=ex(vd->getInit()); } co["ref"]=c.getCaptureKind()==LCK_ByRef; cs.push_back(std::move(co)); } o["caps"]=std::move(cs); o["body"]=st(body); return o; }
    if(auto*x=dyn_cast<CXXScalarValueInitExpr>(e)){ (void)x; return mk("ZeroInit",e); }
    if(auto*x=dyn_cast<ImplicitValueInitExpr>(e)){ (void)x; return mk("ZeroInit",e); }
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ Object o=mk("Throw",e); o["e"]=ex(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ Object o=mk("New",e); o["at"]=ty(x->getAllocatedType()); return o; }
    if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Object o=mk("SizeOf",e); Expr::EvalResult r; if(!x->isValueDependent()&&x->EvaluateAsInt(r,C)){ llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["v"]=s.str().str(); } return o; }
    if(auto*x=dyn_cast<UserDefinedLiteral>(e)){ Object o=mk("Call",e); o["args"]=argsr(x->arguments()); callee(o,x->getDirectCallee()); return o; }
    Object o=mk("Unknown",e); o["cls"]=e->getStmtClassName(); Array ch; for(auto*c:e->children()) if(c){ if(auto*ce=dyn_cast<Expr>(c)) ch.push_back(ex(ce)); } o["ch"]=std::move(ch); return o; }
  Value st(const Stmt*s){ if(!s) return nullptr;
    if(auto*e=dyn_cast<Expr>(s)){ Object o=mk("Expr",s); o["e"]=ex(e); return o; }
    if(auto*x=dyn_cast<CompoundStmt>(s)){ Object o=mk("Block",s); Array b; for(auto*c:x->body()) b.push_back(st(c)); o["b"]=std::move(b); o["el"]=(int64_t)line(x->getEndLoc()); return o; }
    if(auto*x=dyn_cast<DeclStmt>(s)){ Object o=mk("Decl",s); Array v; for(auto*d:x->decls()) if(auto*vd=dyn_cast<VarDecl>(d)) v.push_back(var(vd)); o["vars"]=std::move(v); return o; }
    if(auto*x=dyn_cast<IfStmt>(s)){ Object o=mk("If",s); if(x->getInit()) o["init"]=st(x->getInit()); if(x->getConditionVariable()) o["var"]=var(x->getConditionVariable()); o["c"]=ex(x->getCond()); o["a"]=st(x->getThen()); o["b"]=st(x->getElse()); return o; }
    if(auto*x=dyn_cast<ForStmt>(s)){ Object o=mk("For",s); o["init"]=st(x->getInit()); o["c"]=ex(x->getCond()); o["inc"]=ex(x->getInc()); o["body"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ Object o=mk("RFor",s); o["var"]=var(x->getLoopVariable()); o["range"]=ex(x->getRangeInit()); o["body"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<WhileStmt>(s)){ Object o=mk("While",s); o["c"]=ex(x->getCond()); if(x->getConditionVariable()) o["var"]=var(x->getConditionVariable()); o["body"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<DoStmt>(s)){ Object o=mk("Do",s); o["c"]=ex(x->getCond()); o["body"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<ReturnStmt>(s)){ Object o=mk("Return",s); o["e"]=ex(x->getRetValue()); return o; }
    if(isa<BreakStmt>(s)) return mk("Break",s); if(isa<ContinueStmt>(s)) return mk("Continue",s); if(isa<NullStmt>(s)) return mk("Nop",s);
    if(auto*x=dyn_cast<SwitchStmt>(s)){ Object o=mk("Switch",s); o["c"]=ex(x->getCond()); o["body"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<CaseStmt>(s)){ Object o=mk("Case",s); o["v"]=ex(x->getLHS()); o["sub"]=st(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<DefaultStmt>(s)){ Object o=mk("Default",s); o["sub"]=st(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ Object o=mk("Try",s); o["body"]=st(x->getTryBlock()); Array h; for(unsigned i=0;i<x->getNumHandlers();i++){ auto*c=x->getHandler(i); Object ho; ho["t"]=c->getExceptionDecl()?ty(c->getCaughtType()):"..."; if(c->getExceptionDecl()) ho["var"]=var(c->getExceptionDecl()); ho["l"]=(int64_t)line(c->getBeginLoc()); ho["body"]=st(c->getHandlerBlock()); h.push_back(std::move(ho)); } o["h"]=std::move(h); return o; }
    if(auto*x=dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    Object o=mk("UnknownStmt",s); o["cls"]=s->getStmtClassName(); return o; }
  void func(const FunctionDecl*f){ if(f->isImplicit()||f->isDependentContext()) return; if(!f->isThisDeclarationADefinition()||f->isDefaulted()||f->isDeleted()) { return; }
    if(!Seen.insert(f).second) return; if(!f->getBody()) return;
    Object o; o["qn"]=qn(f); o["name"]=f->getNameAsString(); o["sig"]=sig(f); o["id"]=id(f); o["file"]=file(f->getLocation()); o["l"]=(int64_t)line(f->getLocation()); o["ret"]=ty(f->getReturnType());
    Array ps; for(auto*p:f->parameters()) ps.push_back(var(p)); o["params"]=std::move(ps);
    // default args may sit on the first declaration
    { Array da; for(unsigned i=0;i<f->getNumParams();i++){ const Expr*d=nullptr; for(auto*r:f->redecls()){ auto*p=r->getParamDecl(i); if(p->hasDefaultArg()&&!p->hasUninstantiatedDefaultArg()&&!p->hasUnparsedDefaultArg()&&!p->hasInheritedDefaultArg()) d=p->getDefaultArg(); } da.push_back(d?ex(d):Value(nullptr)); } o["defs"]=std::move(da);} 
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qn(m->getParent()); o["static"]=m->isStatic(); o["const"]=m->isConst(); }
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ o["ctor"]=true; Array in; for(auto*i:c->inits()){ Object io; if(i->isMemberInitializer()){ io["m"]=i->getMember()->getNameAsString(); io["id"]=id(i->getMember()); } else io["m"]=nullptr; io["e"]=ex(i->getInit()); in.push_back(std::move(io)); } o["inits"]=std::move(in); }
    o["internal"]=!f->isExternallyVisible();
    o["body"]=st(f->getBody()); Funcs.push_back(std::move(o)); }
  void rec(const CXXRecordDecl*r){ if(!r->isThisDeclarationADefinition()||r->isDependentContext()||r->isLambda()) return; if(!Seen.insert(r).second) return;
    Object o; o["qn"]=qn(r); o["name"]=r->getNameAsString(); o["file"]=file(r->getLocation()); o["l"]=(int64_t)line(r->getLocation()); Array fs, ms, sm;
    for(auto*f:r->fields()){ Object fo; fo["name"]=f->getNameAsString(); fo["t"]=ty(f->getType()); fo["id"]=id(f); fo["const"]=f->getType().isConstQualified(); fo["mutable"]=f->isMutable(); fo["acc"]=(int64_t)f->getAccess(); fo["l"]=(int64_t)line(f->getLocation()); if(f->hasInClassInitializer()) fo["init"]=ex(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    for(auto*d:r->decls()) if(auto*v=dyn_cast<VarDecl>(d)){ Value vv=var(v); sm.push_back(std::move(vv)); }
    for(auto*m:r->methods()){ if(m->isImplicit()) continue; Object mo; mo["name"]=m->getNameAsString(); mo["sig"]=sig(m); mo["acc"]=(int64_t)m->getAccess(); mo["ret"]=ty(m->getReturnType()); mo["ctor"]=isa<CXXConstructorDecl>(m); mo["dtor"]=isa<CXXDestructorDecl>(m); mo["l"]=(int64_t)line(m->getLocation()); Array ps; for(auto*p:m->parameters()) ps.push_back(var(p)); mo["params"]=std::move(ps); mo["static"]=m->isStatic(); mo["def"]=m->isDefined(); ms.push_back(std::move(mo)); }
    o["fields"]=std::move(fs); o["methods"]=std::move(ms); o["statics"]=std::move(sm); Records.push_back(std::move(o)); decls(r); }
  void decls(const DeclContext*dc){ for(auto*d:dc->decls()) decl(d); }
  void decl(const Decl*d){
    if(auto*n=dyn_cast<NamespaceDecl>(d)){ decls(n); return; }
    if(auto*n=dyn_cast<LinkageSpecDecl>(d)){ decls(n); return; }
    if(!inProj(d->getLocation())) return;
    if(auto*t=dyn_cast<FunctionTemplateDecl>(d)){ for(auto*s:t->specializations()) func(s->getDefinition()?s->getDefinition():s); return; }
    if(auto*t=dyn_cast<ClassTemplateDecl>(d)){ for(auto*s:t->specializations()) rec(s); return; }
    if(auto*f=dyn_cast<FunctionDecl>(d)){ func(f); return; }
    if(auto*r=dyn_cast<CXXRecordDecl>(d)){ rec(r); return; }
    if(auto*v=dyn_cast<VarDecl>(d)){ Value vv=var(v); auto*o=vv.getAsObject(); (*o)["file"]=file(v->getLocation()); (*o)["qn"]=qn(v); Globals.push_back(std::move(vv)); return; }
  }
};
struct Cons : ASTConsumer { CompilerInstance&CI; Cons(CompilerInstance&c):CI(c){}
  void HandleTranslationUnit(ASTContext&C) override { Emitter E(C); for(auto*d:C.getTranslationUnitDecl()->decls()){ if(isa<NamespaceDecl>(d)||isa<LinkageSpecDecl>(d)) { if(E.inProj(d->getLocation())) E.decl(d); } else E.decl(d); }
    Object o; o["functions"]=Array(std::move(E.Funcs)); o["records"]=Array(std::move(E.Records)); o["globals"]=Array(std::move(E.Globals)); o["errors"]=(int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(OutPath,ec); os<<llvm::formatv("{0}",Value(std::move(o))); } };
struct Act : PluginASTAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,llvm::StringRef) override { return std::make_unique<Cons>(CI); }
  bool ParseArgs(const CompilerInstance&,const std::vector<std::string>&a) override { for(auto&s:a){ if(s.rfind("out=",0)==0) OutPath=s.substr(4); else if(s.rfind("pre=",0)==0) Prefixes.push_back(s.substr(4)); } return true; }
  ActionType getActionType() override { return ReplaceAction; } };
}
static FrontendPluginRegistry::Add<Act> X("projdump","dump project AST");
