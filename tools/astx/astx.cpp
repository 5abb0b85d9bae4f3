// astx: dumps the resolved, instantiated program of one translation unit as JSON.
//
// Usage: astx OUT.json FILE.cpp -- compiler-flags...
//
// For every function reachable from the functions defined in FILE.cpp (through resolved calls,
// constructors, destructors, lambdas, and virtual members of the classes used) whose definition
// lies outside the system headers, the body is dumped with callees, constructors, implicit
// conversions, overload resolution and template arguments already resolved by clang.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutPath;

class Dumper {
    ASTContext& C; SourceManager& SM;
    std::map<const Decl*,int> ids;
    std::deque<const FunctionDecl*> todo; std::set<const FunctionDecl*> seen;
    std::map<const CXXRecordDecl*,int> recs; std::deque<const CXXRecordDecl*> rtodo;
    std::set<const VarDecl*> vseen; std::deque<const VarDecl*> vtodo;
    std::map<void*,int> types; Array typetab;
    std::map<std::string,int> files; Array filetab;
    Object functions, records, vars;
public:
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()) { }

    int id(const Decl* d) { d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end()) return it->second;
        int n=(int)ids.size()+1; ids[d]=n; return n; }
    int file(StringRef f) { auto s=f.str(); auto it=files.find(s); if(it!=files.end()) return it->second;
        int n=(int)files.size(); files[s]=n; filetab.push_back(s); return n; }
    Value loc(SourceLocation l) {
        if(l.isInvalid()) return nullptr;
        PresumedLoc p=SM.getPresumedLoc(SM.getExpansionLoc(l)); if(p.isInvalid()) return nullptr;
        return Array{file(p.getFilename()),(int)p.getLine(),(int)p.getColumn()}; }
    bool sys(const Decl* d) { SourceLocation l=SM.getExpansionLoc(d->getLocation()); if(l.isInvalid()) return true; return SM.isInSystemHeader(l); }

    int type(QualType q) {
        if(q.isNull()) return -1;
        q=q.getCanonicalType();
        auto it=types.find(q.getAsOpaquePtr()); if(it!=types.end()) return it->second;
        int n=(int)typetab.size(); types[q.getAsOpaquePtr()]=n; typetab.push_back(nullptr);
        Object o; PrintingPolicy pp(C.getPrintingPolicy()); pp.SuppressTagKeyword=true; pp.Bool=true; pp.FullyQualifiedName=true;
        o["s"]=q.getAsString(pp); if(q.isConstQualified()) o["c"]=1;
        const Type* t=q.getTypePtr();
        if(auto* b=dyn_cast<BuiltinType>(t)) {
            if(b->getKind()==BuiltinType::Bool) { o["k"]="bool"; }
            else if(b->isInteger()) { o["k"]="int"; o["w"]=(int)C.getTypeSize(q); o["sg"]=b->isSignedInteger()?1:0;
                if(b->getKind()==BuiltinType::Char_S||b->getKind()==BuiltinType::Char_U) o["ch"]=1; }
            else if(b->isFloatingPoint()) { o["k"]="float"; o["w"]=(int)C.getTypeSize(q); }
            else if(b->isVoidType()) o["k"]="void";
            else if(b->isNullPtrType()) o["k"]="nullptr";
            else o["k"]="other";
        } else if(auto* p=dyn_cast<PointerType>(t)) { o["k"]=p->getPointeeType()->isFunctionType()?"fptr":"ptr"; int m=type(p->getPointeeType()); o["to"]=m; }
        else if(auto* p=dyn_cast<LValueReferenceType>(t)) { o["k"]="lref"; int m=type(p->getPointeeType()); o["to"]=m; }
        else if(auto* p=dyn_cast<RValueReferenceType>(t)) { o["k"]="rref"; int m=type(p->getPointeeType()); o["to"]=m; }
        else if(auto* r=dyn_cast<RecordType>(t)) { o["k"]="rec"; if(auto* cr=dyn_cast<CXXRecordDecl>(r->getDecl())) o["rec"]=record(cr); }
        else if(auto* e=dyn_cast<EnumType>(t)) { o["k"]="enum"; int m=type(e->getDecl()->getIntegerType()); o["to"]=m; }
        else if(auto* a=dyn_cast<ConstantArrayType>(t)) { o["k"]="array"; o["n"]=(int64_t)a->getSize().getZExtValue(); int m=type(a->getElementType()); o["to"]=m; }
        else if(isa<FunctionType>(t)) o["k"]="func";
        else o["k"]="other";
        if(!q->isIncompleteType()&&!q->isDependentType()&&!q->isPlaceholderType()&&!q->isUndeducedType()&&(q->isScalarType()||q->isRecordType()||q->isConstantArrayType()))
            o["sz"]=(int64_t)C.getTypeSizeInChars(q).getQuantity();
        typetab[n]=std::move(o); return n; }

    int record(const CXXRecordDecl* r) {
        if(r->getDefinition()) r=r->getDefinition();
        auto it=recs.find(r); if(it!=recs.end()) return it->second;
        int n=id(r); recs[r]=n; rtodo.push_back(r); return n; }

    int func(const FunctionDecl* f) {
        const FunctionDecl* def=nullptr; if(f->isDefined(def)) f=def;
        if(seen.insert(f).second) todo.push_back(f);
        return id(f); }

    int var(const VarDecl* v) { if(vseen.insert(v->getCanonicalDecl()).second) vtodo.push_back(v); return id(v); }

    std::string diag(const NamedDecl* d) { std::string s; llvm::raw_string_ostream os(s); PrintingPolicy pp(C.getPrintingPolicy());
        pp.SuppressTagKeyword=true; pp.FullyQualifiedName=true; d->getNameForDiagnostic(os,pp,true); return os.str(); }

    Array targs(const TemplateArgumentList* l) { Array a; if(!l) return a; for(auto& x : l->asArray()) targ(a,x); return a; }
    void targ(Array& a, const TemplateArgument& x) {
        switch(x.getKind()) {
            case TemplateArgument::Type: a.push_back(Object{{"t",type(x.getAsType())}}); break;
            case TemplateArgument::Integral: a.push_back(Object{{"i",x.getAsIntegral().getExtValue()}}); break;
            case TemplateArgument::Pack: { Array p; for(auto& y : x.pack_elements()) targ(p,y); a.push_back(Object{{"p",std::move(p)}}); break; }
            default: a.push_back(nullptr); } }

    Object declref(const ValueDecl* d) {
        Object o; o["id"]=id(d); o["n"]=d->getNameAsString();
        if(auto* f=dyn_cast<FunctionDecl>(d)) { o["id"]=func(f); o["dk"]="func"; }
        else if(auto* p=dyn_cast<ParmVarDecl>(d)) { (void)p; o["dk"]="param"; }
        else if(auto* v=dyn_cast<VarDecl>(d)) {
            if(v->isLocalVarDecl() && !v->isStaticLocal()) o["dk"]="local"; else { o["dk"]="static"; var(v); } }
        else if(auto* e=dyn_cast<EnumConstantDecl>(d)) { o["dk"]="enum"; o["v"]=e->getInitVal().getExtValue(); }
        else if(isa<FieldDecl>(d)) o["dk"]="field";
        else if(auto* b=dyn_cast<BindingDecl>(d)) { o["dk"]="binding"; if(b->getBinding()) o["b"]=stmt(b->getBinding());
            if(b->getHoldingVar()) { o["hv"]=id(b->getHoldingVar()); } }
        else o["dk"]="other";
        return o; }

    Value vardecl(const VarDecl* v) {
        Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["t"]=type(v->getType()); o["l"]=loc(v->getLocation());
        if(v->isStaticLocal()) { o["static"]=1; var(v); }
        else if(v->getInit()) o["init"]=stmt(v->getInit());
        if(auto* d=dyn_cast<DecompositionDecl>(v)) { Array bs; for(auto* b : d->bindings()) { Object bo; bo["id"]=id(b); bo["n"]=b->getNameAsString();
            if(b->getHoldingVar()) bo["hv"]=vardecl(b->getHoldingVar()); bs.push_back(std::move(bo)); } o["bindings"]=std::move(bs); }
        return o; }

    Value intval(const Expr* e) {
        if(!e || e->isValueDependent() || e->isTypeDependent()) return nullptr;
        if(!e->getType()->isIntegralOrEnumerationType()) return nullptr;
        Expr::EvalResult r; if(e->EvaluateAsInt(r,C,Expr::SE_NoSideEffects)) {
            auto i=r.Val.getInt(); if(i.isSigned()||i.getActiveBits()<=63) return (int64_t)i.getExtValue();
            llvm::SmallString<32> s; i.toString(s,10); return Value(std::string(s)); }
        return nullptr; }

    Value stmt(const Stmt* s) {
        if(!s) return nullptr;
        // Peel nodes without semantics
        if(auto* p=dyn_cast<ParenExpr>(s)) return stmt(p->getSubExpr());
        if(auto* p=dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(p->getReplacement());
        if(auto* p=dyn_cast<CXXRewrittenBinaryOperator>(s)) return stmt(p->getSemanticForm());
        if(auto* p=dyn_cast<CXXDefaultArgExpr>(s)) return stmt(p->getExpr());
        if(auto* p=dyn_cast<AttributedStmt>(s)) return stmt(p->getSubStmt());
        if(auto* p=dyn_cast<GenericSelectionExpr>(s)) return stmt(p->getResultExpr());
        if(auto* p=dyn_cast<ChooseExpr>(s)) return stmt(p->getChosenSubExpr());
        Object o; o["k"]=s->getStmtClassName(); o["l"]=loc(s->getBeginLoc());
        if(auto* e=dyn_cast<Expr>(s)) {
            o["t"]=type(e->getType()); o["vk"]=e->isLValue()?"l":e->isXValue()?"x":"p";
            if(isa<CallExpr>(e)) o["l"]=loc(e->getExprLoc());
        }
        Array ch; bool kids=true;
        switch(s->getStmtClass()) {
        case Stmt::IntegerLiteralClass: { auto v=cast<IntegerLiteral>(s)->getValue(); llvm::SmallString<32> b; v.toString(b,10,cast<Expr>(s)->getType()->isSignedIntegerOrEnumerationType()); o["v"]=std::string(b); break; }
        case Stmt::CharacterLiteralClass: o["v"]=(int64_t)(int)cast<CharacterLiteral>(s)->getValue(); break;
        case Stmt::CXXBoolLiteralExprClass: o["v"]=cast<CXXBoolLiteralExpr>(s)->getValue()?1:0; break;
        case Stmt::FloatingLiteralClass: { llvm::SmallString<32> b; cast<FloatingLiteral>(s)->getValue().toString(b); o["v"]=std::string(b); break; }
        case Stmt::StringLiteralClass: { auto* l=cast<StringLiteral>(s); if(l->getCharByteWidth()==1) o["v"]=llvm::json::fixUTF8(l->getString()); break; }
        case Stmt::PredefinedExprClass: { auto* l=cast<PredefinedExpr>(s); o["v"]=l->getFunctionName()?llvm::json::fixUTF8(l->getFunctionName()->getString()):std::string(); kids=false; break; }
        case Stmt::DeclRefExprClass: { auto* d=cast<DeclRefExpr>(s); o["d"]=declref(d->getDecl()); auto v=intval(d); if(v.kind()!=Value::Null && !isa<ParmVarDecl>(d->getDecl())) o["cv"]=std::move(v); break; }
        case Stmt::MemberExprClass: { auto* m=cast<MemberExpr>(s); o["d"]=declref(m->getMemberDecl()); o["arrow"]=m->isArrow()?1:0;
            if(auto* vd=dyn_cast<VarDecl>(m->getMemberDecl())) { (void)vd; auto v=intval(m); if(v.kind()!=Value::Null) o["cv"]=std::move(v); }
            if(m->hasQualifier()) o["qual"]=1; break; }
        case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
            auto* c=cast<CallExpr>(s); if(auto* f=c->getDirectCallee()) { o["f"]=func(f); if(unsigned b=f->getBuiltinID()) o["bi"]=(int64_t)b; }
            if(auto* oc=dyn_cast<CXXOperatorCallExpr>(c)) o["op"]=getOperatorSpelling(oc->getOperator());
            auto v=intval(c); if(v.kind()!=Value::Null) o["cv"]=std::move(v);
            break; }
        case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
            auto* c=cast<CXXConstructExpr>(s); o["f"]=func(c->getConstructor()); o["el"]=c->isElidable()?1:0; o["list"]=c->isListInitialization()?1:0;
            o["zi"]=c->requiresZeroInitialization()?1:0;
            record(c->getConstructor()->getParent()); break; }
        case Stmt::CXXInheritedCtorInitExprClass: o["f"]=func(cast<CXXInheritedCtorInitExpr>(s)->getConstructor()); break;
        case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
            auto* c=cast<CastExpr>(s); o["ck"]=c->getCastKindName(); Array path; for(auto* b : c->path()) { auto* r=b->getType()->getAsCXXRecordDecl(); path.push_back(r?record(r):-1); }
            if(!path.empty()) o["path"]=std::move(path);
            if(auto* cf=c->getConversionFunction()) if(auto* cfd=dyn_cast<FunctionDecl>(cf)) o["cf"]=func(cfd);
            break; }
        case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: { auto* b=cast<BinaryOperator>(s); o["op"]=b->getOpcodeStr();
            if(auto* ca=dyn_cast<CompoundAssignOperator>(s)) { o["ct"]=type(ca->getComputationLHSType()); o["crt"]=type(ca->getComputationResultType()); } break; }
        case Stmt::UnaryOperatorClass: { auto* u=cast<UnaryOperator>(s); o["op"]=UnaryOperator::getOpcodeStr(u->getOpcode()); o["post"]=u->isPostfix()?1:0; break; }
        case Stmt::UnaryExprOrTypeTraitExprClass: o["cv"]=intval(cast<Expr>(s)); kids=false; break;
        case Stmt::TypeTraitExprClass: case Stmt::ConceptSpecializationExprClass: case Stmt::RequiresExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::SizeOfPackExprClass:
            o["cv"]=intval(cast<Expr>(s)); kids=false; break;
        case Stmt::ConstantExprClass: { o["cv"]=intval(cast<Expr>(s)); break; }
        case Stmt::CXXNewExprClass: { auto* n=cast<CXXNewExpr>(s); if(n->getOperatorNew()) { o["f"]=func(n->getOperatorNew()); o["placement"]=n->getOperatorNew()->isReservedGlobalPlacementOperator()?1:0; }
            Array pl; for(unsigned i=0;i!=n->getNumPlacementArgs();++i) pl.push_back(stmt(n->getPlacementArg(i))); o["pl"]=std::move(pl);
            if(n->isArray()) { o["arr"]=1; if(auto as=n->getArraySize()) o["size"]=stmt(*as); }
            o["init"]=stmt(n->getInitializer()); o["at"]=type(n->getAllocatedType()); kids=false; break; }
        case Stmt::CXXDeleteExprClass: { auto* d=cast<CXXDeleteExpr>(s); o["arr"]=d->isArrayForm()?1:0; o["dt"]=type(d->getDestroyedType());
            if(auto* r=d->getDestroyedType()->getAsCXXRecordDecl()) if(r->hasDefinition()&&r->getDestructor()) o["df"]=func(r->getDestructor());
            if(d->getOperatorDelete()) o["f"]=func(d->getOperatorDelete()); break; }
        case Stmt::CXXPseudoDestructorExprClass: o["pd"]=1; o["arrow"]=cast<CXXPseudoDestructorExpr>(s)->isArrow()?1:0; break;
        case Stmt::LambdaExprClass: { auto* l=cast<LambdaExpr>(s); o["rec"]=record(l->getLambdaClass()); o["f"]=func(l->getCallOperator());
            if(auto* ft=l->getLambdaClass()->getDependentLambdaCallOperator()) for(auto* sp : ft->specializations()) func(sp);
            Array caps; auto fi=l->getLambdaClass()->field_begin(); auto ii=l->capture_init_begin();
            for(auto ci=l->capture_begin(); ci!=l->capture_end(); ++ci,++ii,++fi) { Object co; co["field"]=id(*fi); co["ref"]=ci->getCaptureKind()==LCK_ByRef?1:0;
                if(ci->capturesThis()) co["this"]=1; if(ci->capturesVariable()) co["var"]=id(ci->getCapturedVar()); co["init"]=stmt(*ii); caps.push_back(std::move(co)); }
            o["caps"]=std::move(caps); kids=false; break; }
        case Stmt::CXXForRangeStmtClass: { auto* f=cast<CXXForRangeStmt>(s); o["init"]=stmt(f->getInit()); o["range"]=stmt(f->getRangeStmt()); o["begin"]=stmt(f->getBeginStmt()); o["end"]=stmt(f->getEndStmt());
            o["cond"]=stmt(f->getCond()); o["inc"]=stmt(f->getInc()); o["var"]=stmt(f->getLoopVarStmt()); o["body"]=stmt(f->getBody()); kids=false; break; }
        case Stmt::ForStmtClass: { auto* f=cast<ForStmt>(s); o["init"]=stmt(f->getInit()); o["condvar"]=f->getConditionVariable()?stmt(f->getConditionVariableDeclStmt()):Value(nullptr); o["cond"]=stmt(f->getCond()); o["inc"]=stmt(f->getInc()); o["body"]=stmt(f->getBody()); kids=false; break; }
        case Stmt::WhileStmtClass: { auto* f=cast<WhileStmt>(s); o["condvar"]=f->getConditionVariable()?stmt(f->getConditionVariableDeclStmt()):Value(nullptr); o["cond"]=stmt(f->getCond()); o["body"]=stmt(f->getBody()); kids=false; break; }
        case Stmt::DoStmtClass: { auto* f=cast<DoStmt>(s); o["cond"]=stmt(f->getCond()); o["body"]=stmt(f->getBody()); kids=false; break; }
        case Stmt::IfStmtClass: { auto* f=cast<IfStmt>(s); o["init"]=stmt(f->getInit()); o["condvar"]=f->getConditionVariable()?stmt(f->getConditionVariableDeclStmt()):Value(nullptr); o["cond"]=stmt(f->getCond()); o["then"]=stmt(f->getThen()); o["else"]=stmt(f->getElse()); o["constexpr"]=f->isConstexpr()?1:0;
            if(f->isConstexpr()) { auto v=intval(f->getCond()); if(v.kind()!=Value::Null) o["cv"]=std::move(v); } kids=false; break; }
        case Stmt::SwitchStmtClass: { auto* f=cast<SwitchStmt>(s); o["init"]=stmt(f->getInit()); o["condvar"]=f->getConditionVariable()?stmt(f->getConditionVariableDeclStmt()):Value(nullptr); o["cond"]=stmt(f->getCond()); o["body"]=stmt(f->getBody()); kids=false; break; }
        case Stmt::CaseStmtClass: { auto* c=cast<CaseStmt>(s); o["lhs"]=intval(c->getLHS()); if(c->getRHS()) o["rhs"]=intval(c->getRHS()); o["sub"]=stmt(c->getSubStmt()); kids=false; break; }
        case Stmt::DefaultStmtClass: o["sub"]=stmt(cast<DefaultStmt>(s)->getSubStmt()); kids=false; break;
        case Stmt::LabelStmtClass: o["n"]=cast<LabelStmt>(s)->getName(); break;
        case Stmt::GotoStmtClass: o["n"]=cast<GotoStmt>(s)->getLabel()->getNameAsString(); break;
        case Stmt::DeclStmtClass: { Array ds; for(auto* d : cast<DeclStmt>(s)->decls()) if(auto* v=dyn_cast<VarDecl>(d)) ds.push_back(vardecl(v)); o["decls"]=std::move(ds); kids=false; break; }
        case Stmt::CXXTryStmtClass: { auto* t=cast<CXXTryStmt>(s); o["body"]=stmt(t->getTryBlock()); Array hs; for(unsigned i=0;i!=t->getNumHandlers();++i) { auto* h=t->getHandler(i); Object ho;
                if(h->getExceptionDecl()) { ho["var"]=vardecl(h->getExceptionDecl()); } ho["t"]=h->getCaughtType().isNull()?-1:type(h->getCaughtType()); ho["body"]=stmt(h->getHandlerBlock()); ho["l"]=loc(h->getBeginLoc()); hs.push_back(std::move(ho)); }
            o["handlers"]=std::move(hs); kids=false; break; }
        case Stmt::MaterializeTemporaryExprClass: { auto* m=cast<MaterializeTemporaryExpr>(s); if(m->getExtendingDecl()) o["ext"]=id(m->getExtendingDecl()); break; }
        case Stmt::CXXBindTemporaryExprClass: break;
        case Stmt::CXXDefaultInitExprClass: { ch.push_back(stmt(cast<CXXDefaultInitExpr>(s)->getExpr())); kids=false; break; }
        case Stmt::CXXTypeidExprClass: { auto* t=cast<CXXTypeidExpr>(s); if(t->isTypeOperand()) { o["tt"]=type(t->getTypeOperand(C)); kids=false; } break; }
        case Stmt::InitListExprClass: { auto* l=cast<InitListExpr>(s); auto* sem=l->isSemanticForm()?l:l->getSemanticForm(); if(!sem) sem=l; for(auto* e : sem->inits()) ch.push_back(stmt(e)); if(sem->getArrayFiller()) o["filler"]=stmt(sem->getArrayFiller()); kids=false; break; }
        case Stmt::ArrayInitLoopExprClass: { auto* a=cast<ArrayInitLoopExpr>(s); ch.push_back(stmt(a->getCommonExpr()->getSourceExpr())); ch.push_back(stmt(a->getSubExpr())); kids=false; break; }
        case Stmt::OpaqueValueExprClass: if(auto* e=cast<OpaqueValueExpr>(s)->getSourceExpr()) ch.push_back(stmt(e)); kids=false; break;
        default: break; }
        if(kids) for(auto* c : s->children()) ch.push_back(stmt(c));
        if(!ch.empty()) o["c"]=std::move(ch);
        return o; }

    void dumpFunction(const FunctionDecl* f) {
        if(f->isDependentContext()) return;
        Object o; o["id"]=id(f); o["qn"]=f->getQualifiedNameAsString(); o["dn"]=diag(f); o["l"]=loc(f->getLocation()); o["sys"]=sys(f)?1:0;
        o["n"]=f->getNameAsString(); o["ret"]=type(f->getReturnType());
        Array ps; for(auto* p : f->parameters()) { ps.push_back(Object{{"id",id(p)},{"n",p->getNameAsString()},{"t",type(p->getType())}}); } o["params"]=std::move(ps);
        if(f->isOverloadedOperator()) o["op"]=getOperatorSpelling(f->getOverloadedOperator());
        if(auto* l=f->getTemplateSpecializationArgs()) o["targs"]=targs(l);
        if(f->isVariadic()) o["variadic"]=1;
        if(f->isNoReturn()) o["noreturn"]=1;
        if(auto* fpt=f->getType()->getAs<FunctionProtoType>()) if(!isUnresolvedExceptionSpec(fpt->getExceptionSpecType())) if(fpt->canThrow()==CT_Cannot) o["noexcept"]=1;
        if(auto* m=dyn_cast<CXXMethodDecl>(f)) {
            o["rec"]=record(m->getParent()); if(m->isStatic()) o["static"]=1; if(m->isVirtual()) o["virtual"]=1; if(m->isConst()) o["const"]=1; if(m->isPureVirtual()) o["pure"]=1;
            o["kind"]=isa<CXXConstructorDecl>(m)?"ctor":isa<CXXDestructorDecl>(m)?"dtor":isa<CXXConversionDecl>(m)?"conv":"method";
            if(m->isDefaulted()) o["defaulted"]=1; if(m->isImplicit()) o["implicit"]=1; if(m->isTrivial()) o["trivial"]=1; if(m->isDeleted()) o["deleted"]=1;
            if(m->isCopyAssignmentOperator()) o["copyassign"]=1; if(m->isMoveAssignmentOperator()) o["moveassign"]=1;
            Array ov; for(auto* om : m->overridden_methods()) ov.push_back(func(om)); if(!ov.empty()) o["overrides"]=std::move(ov);
            if(auto* c=dyn_cast<CXXConstructorDecl>(m)) {
                if(c->isCopyConstructor()) o["copyctor"]=1; if(c->isMoveConstructor()) o["movector"]=1; if(c->isDefaultConstructor()) o["defctor"]=1;
                if(c->isInheritingConstructor()) { o["inh"]=1; if(auto ic=c->getInheritedConstructor()) o["inhctor"]=func(ic.getConstructor()); }
            }
        } else o["kind"]="fn";
        const FunctionDecl* def=nullptr;
        if(!sys(f) && f->hasBody(def)) {
            if(auto* c=dyn_cast<CXXConstructorDecl>(def)) {
                Array is; for(auto* i : c->inits()) { Object io; io["written"]=i->isWritten()?1:0;
                    if(i->isBaseInitializer()) { auto* r=i->getBaseClass()->getAsCXXRecordDecl(); io["base"]=r?record(r):-1; io["vbase"]=i->isBaseVirtual()?1:0; }
                    else if(i->isDelegatingInitializer()) io["deleg"]=1;
                    else if(i->getAnyMember()) { io["field"]=id(i->getAnyMember()); io["fn"]=i->getAnyMember()->getNameAsString(); }
                    io["init"]=stmt(i->getInit()); io["l"]=loc(i->getSourceLocation()); is.push_back(std::move(io)); }
                o["inits"]=std::move(is); }
            o["body"]=stmt(def->getBody());
        }
        functions[std::to_string(id(f))]=std::move(o); }

    void dumpRecord(const CXXRecordDecl* r) {
        Object o; o["id"]=id(r); o["qn"]=r->getQualifiedNameAsString(); o["dn"]=diag(r); o["l"]=loc(r->getLocation()); o["sys"]=sys(r)?1:0;
        o["n"]=r->getNameAsString(); if(r->isLambda()) o["lambda"]=1;
        if(auto* s=dyn_cast<ClassTemplateSpecializationDecl>(r)) o["targs"]=targs(&s->getTemplateArgs());
        if(r->hasDefinition()) {
            Array fs; for(auto* f : r->fields()) { Object fo; fo["id"]=id(f); fo["n"]=f->getNameAsString(); fo["t"]=type(f->getType()); if(f->isMutable()) fo["mutable"]=1; fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
            Array bs; for(auto& b : r->bases()) { auto* br=b.getType()->getAsCXXRecordDecl(); if(br) bs.push_back(Object{{"rec",record(br)},{"virtual",b.isVirtual()?1:0}}); } o["bases"]=std::move(bs);
            o["poly"]=r->isPolymorphic()?1:0; o["abstract"]=r->isAbstract()?1:0; o["tdtor"]=r->hasTrivialDestructor()?1:0; o["agg"]=r->isAggregate()?1:0; o["union"]=r->isUnion()?1:0;
            o["empty"]=r->isEmpty()?1:0;
            if(!o["sys"].getAsInteger().value_or(0)) {
                Array ms; for(auto* m : r->methods()) ms.push_back(func(m)); o["methods"]=std::move(ms);
                Array sv; for(auto* d : r->decls()) if(auto* v=dyn_cast<VarDecl>(d)) sv.push_back(var(v)); o["svars"]=std::move(sv);
            }
            if(auto* d=r->getDestructor()) { o["dtor"]=func(d); o["dtorv"]=d->isVirtual()?1:0; o["dtoru"]=d->isUserProvided()?1:0; }
        }
        records[std::to_string(id(r))]=std::move(o); }

    void dumpVar(const VarDecl* v) {
        Object o; o["id"]=id(v); o["qn"]=v->getQualifiedNameAsString(); o["n"]=v->getNameAsString(); o["t"]=type(v->getType()); o["l"]=loc(v->getLocation()); o["sys"]=sys(v)?1:0;
        o["constexpr"]=v->isConstexpr()?1:0; o["local"]=v->isStaticLocal()?1:0; o["tls"]=v->getTSCSpec()!=TSCS_unspecified?1:0; o["member"]=v->isStaticDataMember()?1:0;
        if(auto* f=dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod())) o["fn"]=id(f);
        const VarDecl* d=v->getDefinition(); if(!d) d=v;
        if(auto* i=d->getAnyInitializer()) if(!i->isValueDependent()) { if(!sys(v)) o["init"]=stmt(i); if(!sys(v) || v->isConstexpr() || v->getType().isConstQualified()) o["cv"]=intval(i); }
        vars[std::to_string(id(v))]=std::move(o); }

    struct Collect : RecursiveASTVisitor<Collect> {
        Dumper& D; Collect(Dumper& d) : D(d) { }
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool VisitFunctionDecl(FunctionDecl* f) { if(!f->isDependentContext() && !D.sys(f)) { if(f->isThisDeclarationADefinition() || D.C.getSourceManager().isInMainFile(D.C.getSourceManager().getExpansionLoc(f->getLocation()))) D.func(f); } return true; }
        bool VisitVarDecl(VarDecl* v) { if(v->hasGlobalStorage() && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType() && !D.sys(v)) D.var(v); return true; }
        bool VisitCXXRecordDecl(CXXRecordDecl* r) { if(!r->isDependentContext() && r->hasDefinition() && !D.sys(r)) D.record(r); return true; }
    };

    void run(llvm::raw_ostream& os) {
        Collect col(*this); col.TraverseDecl(C.getTranslationUnitDecl());
        while(!todo.empty()||!rtodo.empty()||!vtodo.empty()) {
            if(!todo.empty()) { auto* f=todo.front(); todo.pop_front(); dumpFunction(f); }
            else if(!rtodo.empty()) { auto* r=rtodo.front(); rtodo.pop_front(); dumpRecord(r); }
            else { auto* v=vtodo.front(); vtodo.pop_front(); dumpVar(v); } }
        os << Value(Object{{"functions",std::move(functions)},{"records",std::move(records)},{"vars",std::move(vars)},{"types",std::move(typetab)},{"files",std::move(filetab)}}); }
};

// The effect mode: every variable of static or thread storage duration that code outside the system headers declares, in templates
// as they are written too, with what makes it mutable; and, for every function definition, what it refers to outside its operands.
static bool Effects=false;
class EffectDumper {
    ASTContext& C; SourceManager& SM; Array vars, funs;
    bool sys(SourceLocation l) { l=SM.getExpansionLoc(l); return l.isInvalid() || SM.isInSystemHeader(l); }
    Value place(SourceLocation l) { PresumedLoc p=SM.getPresumedLoc(l); return p.isInvalid() ? Value(nullptr) : Value(Array{p.getFilename(),(int)p.getLine()}); }
    Array macros(SourceLocation l) { Array r; while(l.isMacroID()) { r.push_back(Lexer::getImmediateMacroName(l,SM,C.getLangOpts()).str()); l=SM.getImmediateMacroCallerLoc(l); } return r; }
    // Why an object of this type, even if constant, can carry information from one operation to another; empty if it cannot.
    std::string channel(QualType q, bool top, std::set<const Type*>& seen) {
        q=q.getCanonicalType();
        if(q->isReferenceType()) { auto p=q->getPointeeType(); if(p->isFunctionType()) return ""; return channel(p,false,seen); }
        if(q->isArrayType()) { QualType e=C.getBaseElementType(q); return channel(e,top,seen); }
        if(!q.isConstQualified() && !q->isDependentType()) return "it is not constant";
        if(!q.isConstQualified()) return "it need not be constant";
        if(q.isVolatileQualified()) return "it is volatile";
        if(q->isPointerType()) { auto p=q->getPointeeType(); if(p->isFunctionType()) return ""; if(p->isVoidType() && !p.isConstQualified()) return "it points to something mutable";
            auto s=channel(p,false,seen); return s.empty() ? s : "it points to something mutable"; }
        if(!seen.insert(q.getTypePtr()).second) return "";
        if(auto* r=q->getAsCXXRecordDecl()) {
            std::string n=r->getQualifiedNameAsString();
            if(auto* s=dyn_cast<ClassTemplateSpecializationDecl>(r)) if(n=="std::shared_ptr"||n=="std::unique_ptr"||n=="std::reference_wrapper"||n=="std::weak_ptr") {
                auto& a=s->getTemplateArgs()[0]; if(a.getKind()==TemplateArgument::Type && !channel(a.getAsType(),false,seen).empty()) return "it refers to something mutable"; return ""; }
            if(sys(r->getLocation())) return "";
            if(!r->hasDefinition()) return "";
            for(auto* f : r->fields()) { if(f->isMutable()) return "its member "+f->getNameAsString()+" is mutable";
                QualType t=f->getType(); if(!t->isReferenceType()) t=t.withConst(); auto s=channel(t,false,seen); if(!s.empty() && !t->isDependentType()) return "its member "+f->getNameAsString()+": "+s; }
            for(auto& b : r->bases()) if(!b.getType()->isDependentType()) { auto s=channel(b.getType().withConst(),false,seen); if(!s.empty()) return s; } }
        return ""; }
    struct Operands : RecursiveASTVisitor<Operands> {       // does an initialiser depend on the operands of the function it is in
        std::string found; 
        bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr*) { return true; }
        bool TraverseCXXNoexceptExpr(CXXNoexceptExpr*) { return true; }
        bool TraverseTypeLoc(TypeLoc) { return true; }
        bool TraverseLambdaExpr(LambdaExpr* l) { for(auto& c : l->captures()) if(c.capturesThis()) found="this"; else if(c.capturesVariable() && !cast<VarDecl>(c.getCapturedVar())->hasGlobalStorage()) found=c.getCapturedVar()->getNameAsString(); return true; }
        bool VisitCXXThisExpr(CXXThisExpr* e) { found="this"; return true; }
        bool VisitDeclRefExpr(DeclRefExpr* e) { if(auto* v=dyn_cast<VarDecl>(e->getDecl())) if(!v->hasGlobalStorage() && !v->isConstexpr()) found=v->getNameAsString(); return true; } };
    void var(VarDecl* v) {
        Object o; o["n"]=v->getQualifiedNameAsString(); o["at"]=place(SM.getExpansionLoc(v->getLocation())); o["spelled"]=place(SM.getSpellingLoc(v->getLocation())); o["macros"]=macros(v->getLocation());
        o["type"]=v->getType().getAsString(); o["canon"]=v->getType().getCanonicalType().getAsString(); o["local"]=v->isStaticLocal()?1:0; o["tls"]=v->getTSCSpec()!=TSCS_unspecified?1:0; o["constexpr"]=v->isConstexpr()?1:0;
        std::set<const Type*> seen; std::string why;
        if(!v->isConstexpr()) why=channel(v->getType(),true,seen);
        if(auto* r=v->getType().getCanonicalType()->getAsCXXRecordDecl()) if(!sys(r->getLocation()) && r->hasDefinition()) { Array fs; for(auto* f : r->fields()) fs.push_back(f->getType().getCanonicalType().getAsString()); o["fields"]=std::move(fs); }
        if(why.empty() && v->isStaticLocal() && !v->isConstexpr() && v->getInit()) { Operands op; op.TraverseStmt(v->getInit());
            bool constant=!v->getInit()->isValueDependent() && !v->getInit()->isTypeDependent() && !v->getType()->isReferenceType() && v->evaluateValue()!=nullptr;
            if(!op.found.empty() && !constant) why="its value is computed from "+op.found+" at the first call"; }
        o["why"]=why; 
        if(auto* f=dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod())) o["fn"]=f->getQualifiedNameAsString();
        vars.push_back(std::move(o)); }
    struct Refs : RecursiveASTVisitor<Refs> {
        EffectDumper& D; Array& out; Refs(EffectDumper& d, Array& o) : D(d), out(o) { }
        void put(const char* kind, std::string n, SourceLocation l, bool system) { out.push_back(Object{{"k",kind},{"n",n},{"at",D.place(D.SM.getExpansionLoc(l))},{"spelled",D.place(D.SM.getSpellingLoc(l))},{"macros",D.macros(l)},{"sys",system?1:0}}); }
        bool VisitDeclRefExpr(DeclRefExpr* e) {
            if(auto* v=dyn_cast<VarDecl>(e->getDecl())) { if(v->hasGlobalStorage() && !v->isConstexpr() && !(v->getType().isConstQualified() && D.sys(v->getLocation()))) put("var",v->getQualifiedNameAsString(),e->getLocation(),D.sys(v->getLocation())); }
            else if(auto* f=dyn_cast<FunctionDecl>(e->getDecl())) if(D.sys(f->getLocation())) put("fn",f->getQualifiedNameAsString(),e->getLocation(),true);
            return true; }
        bool VisitMemberExpr(MemberExpr* e) { if(auto* f=dyn_cast<CXXMethodDecl>(e->getMemberDecl())) { if(D.sys(f->getLocation())) put("fn",f->getQualifiedNameAsString(),e->getMemberLoc(),true); } 
            else if(auto* v=dyn_cast<VarDecl>(e->getMemberDecl())) if(!v->isConstexpr()) put("var",v->getQualifiedNameAsString(),e->getMemberLoc(),D.sys(v->getLocation()));
            return true; }
        bool VisitUnresolvedLookupExpr(UnresolvedLookupExpr* e) { std::set<std::string> ns; for(auto* d : e->decls()) if(D.sys(d->getLocation())) ns.insert(d->getUnderlyingDecl()->getQualifiedNameAsString()); for(auto& n : ns) put("fn",n,e->getNameLoc(),true); return true; }
        bool VisitGCCAsmStmt(GCCAsmStmt* s) { put("asm","asm",s->getAsmLoc(),false); return true; } };
    struct Visit : RecursiveASTVisitor<Visit> {
        EffectDumper& D; Visit(EffectDumper& d) : D(d) { }
        bool VisitVarDecl(VarDecl* v) { if((v->hasGlobalStorage() || v->getTSCSpec()!=TSCS_unspecified) && !isa<ParmVarDecl>(v) && !D.sys(v->getLocation())) D.var(v); return true; }
        bool VisitFunctionDecl(FunctionDecl* f) { if(f->isThisDeclarationADefinition() && f->getBody() && !D.sys(f->getLocation())) {
                Array rs; Refs r(D,rs); r.TraverseStmt(f->getBody()); if(auto* c=dyn_cast<CXXConstructorDecl>(f)) for(auto* i : c->inits()) if(i->getInit()) r.TraverseStmt(i->getInit());
                D.funs.push_back(Object{{"n",f->getQualifiedNameAsString()},{"at",D.place(D.SM.getExpansionLoc(f->getLocation()))},{"spelled",D.place(D.SM.getSpellingLoc(f->getLocation()))},{"refs",std::move(rs)}}); }
            return true; } };
public:
    EffectDumper(ASTContext& c) : C(c), SM(c.getSourceManager()) { }
    void run(llvm::raw_ostream& os) { Visit v(*this); v.TraverseDecl(C.getTranslationUnitDecl()); os << Value(Object{{"vars",std::move(vars)},{"functions",std::move(funs)}}); }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI; Consumer(CompilerInstance& ci) : CI(ci) { }
    void HandleTranslationUnit(ASTContext& c) override {
        if(CI.getDiagnostics().hasErrorOccurred()) return;
        std::error_code ec; llvm::raw_fd_ostream os(OutPath,ec); if(ec) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
        if(Effects) { EffectDumper d(c); d.run(os); return; }
        Dumper d(c); d.run(os); }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override { return std::make_unique<Consumer>(ci); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

int main(int argc, const char** argv) {
    if(argc<3) { llvm::errs() << "usage: astx OUT.json FILE.cpp -- flags\n"; return 2; }
    if(std::string(argv[1])=="--effects") { Effects=true; ++argv; --argc; }
    OutPath=argv[1]; std::string src=argv[2]; std::vector<std::string> flags;
    int i=3; if(i<argc && std::string(argv[i])=="--") ++i;
    for(;i<argc;++i) flags.push_back(argv[i]);
    flags.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
    tooling::FixedCompilationDatabase db(".",flags);
    tooling::ClangTool tool(db,{src});
    Factory f; return tool.run(&f);
}
