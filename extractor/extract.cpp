// Emits a compact JSON intermediate representation of every declaration whose source lies below one
// of the given roots.  Works on the type-checked AST; template patterns are kept as patterns.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;
static std::string outFile;

class Emitter {
public:
  ASTContext& C; const SourceManager& SM; PrintingPolicy PP;
  std::map<std::string,int> files; std::vector<std::string> fileNames;
  std::map<const Decl*,int> ids;
  json::Array functions, classes, globals, aliases;
  std::set<const Decl*> seen;
  int depth = 0;
  Emitter( ASTContext& c ) : C( c ), SM( c.getSourceManager() ), PP( c.getPrintingPolicy() ) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.TerseOutput = true;
  }
  int id( const Decl* d ) { d = d->getCanonicalDecl(); auto it = ids.find( d ); if ( it != ids.end() ) return it->second; int n = (int)ids.size() + 1; ids[d] = n; return n; }

  bool loc( SourceLocation l, std::string& f, unsigned& line ) {
    l = SM.getExpansionLoc( l ); if ( l.isInvalid() ) return false;
    PresumedLoc p = SM.getPresumedLoc( l ); if ( p.isInvalid() ) return false;
    f = p.getFilename(); line = p.getLine(); return true;
  }
  bool mine( SourceLocation l ) { std::string f; unsigned n; if ( !loc( l, f, n ) ) return false;
    for ( auto& r : roots ) if ( f.rfind( r, 0 ) == 0 ) return true; return false; }
  std::string at( SourceLocation l ) { std::string f; unsigned n; if ( !loc( l, f, n ) ) return "?";
    auto it = files.find( f ); int k; if ( it == files.end() ) { k = (int)fileNames.size(); files[f] = k; fileNames.push_back( f ); } else k = it->second;
    return std::to_string( k ) + ":" + std::to_string( n ); }

  // type classes: b, i<bits>, u<bits>, f<bits>, v(oid), D(ependent/auto), p(ointer), otherwise the printed type
  std::string ty( QualType t ) {
    if ( t.isNull() ) return "D";
    std::string pre;
    if ( t->isLValueReferenceType() ) { pre = t.getNonReferenceType().isConstQualified() ? "c&" : "&"; t = t.getNonReferenceType(); }
    else if ( t->isRValueReferenceType() ) { pre = "&&"; t = t.getNonReferenceType(); }
    if ( const AutoType* a = t->getContainedAutoType() ) { if ( !a->isDeduced() ) return pre + "D"; }
    if ( t->isDependentType() ) { 
      return pre + "D:" + t.getUnqualifiedType().getAsString( PP ); }
    QualType c = t.getCanonicalType().getUnqualifiedType();
    if ( c->isBooleanType() ) return pre + "b";
    if ( c->isEnumeralType() ) return pre + "e:" + c.getAsString( PP );
    if ( c->isIntegerType() ) return pre + ( c->isUnsignedIntegerType() ? "u" : "i" ) + std::to_string( C.getTypeSize( c ) );
    if ( c->isRealFloatingType() ) return pre + "f" + std::to_string( C.getTypeSize( c ) );
    if ( c->isVoidType() ) return pre + "v";
    if ( c->isPointerType() ) return pre + "p:" + ty( c->getPointeeType() );
    if ( auto* at = dyn_cast_or_null<ConstantArrayType>( C.getAsArrayType( c ) ) ) return pre + "a" + std::to_string( at->getSize().getZExtValue() ) + ":" + ty( at->getElementType() );
    std::string s = c.getAsString( PP );
    if ( auto* rd = c->getAsCXXRecordDecl() ) if ( rd->isLambda() ) s = "lambda";
    if ( s.size() > 1500 ) s = s.substr( 0, 1500 );
    return pre + s;
  }
  std::vector<const FunctionDecl*> pending; std::set<const Decl*> wanted; std::vector<const CXXRecordDecl*> pendingClasses;
  void wantClass( const CXXRecordDecl* r ) {
    r = r->getDefinition(); if ( !r ) return;
    auto* s = dyn_cast<ClassTemplateSpecializationDecl>( r ); bool inst = s && s->getSpecializationKind() != TSK_ExplicitSpecialization && s->getSpecializationKind() != TSK_Undeclared;
    if ( !inst && !r->getInstantiatedFromMemberClass() ) return;
    if ( !mine( r->getLocation() ) ) return;
    if ( wanted.insert( r ).second ) pendingClasses.push_back( r ); }
  // an instantiation of one of the analysed templates: emit its body, with all types resolved
  int want( const FunctionDecl* f ) {
    if ( !f->isTemplateInstantiation() && !( f->getPrimaryTemplate() && !f->isFunctionTemplateSpecialization() ) ) return 0;
    const FunctionDecl* p = f->getTemplateInstantiationPattern(); if ( !p || !mine( p->getLocation() ) ) return 0;
    const FunctionDecl* def = nullptr; if ( !f->hasBody( def ) ) { if ( !f->isDefaulted() ) return 0; def = f; }
    if ( auto* m = dyn_cast<CXXMethodDecl>( f ) ) { if ( m->getParent()->isLambda() ) return 0; wantClass( m->getParent() ); }
    if ( wanted.insert( def ).second ) pending.push_back( def );
    return id( f ); }
  std::string qname( const NamedDecl* d ) { std::string s; llvm::raw_string_ostream o( s ); d->printQualifiedName( o, PP ); return o.str(); }
  std::string str( const Stmt* s ) { std::string r; llvm::raw_string_ostream o( r ); s->printPretty( o, nullptr, PP ); return o.str(); }
  std::string targs( const TemplateArgumentListInfo& l ) { std::string s; llvm::raw_string_ostream o( s ); bool f = true; for ( auto& a : l.arguments() ) { if ( !f ) o << ", "; f = false; a.getArgument().print( PP, o, false ); } return o.str(); }
  json::Array targArray( llvm::ArrayRef<TemplateArgumentLoc> l ) { json::Array r; for ( auto& a : l ) { std::string s; llvm::raw_string_ostream o( s ); a.getArgument().print( PP, o, false ); r.push_back( o.str() ); } return r; }
  json::Array targArray( llvm::ArrayRef<TemplateArgument> l ) { json::Array r; for ( auto& a : l ) { std::string s; llvm::raw_string_ostream o( s ); a.print( PP, o, false ); r.push_back( o.str() ); } return r; }

  json::Object node( const char* k, const Stmt* s ) { json::Object o; o["k"] = k; o["l"] = at( s->getBeginLoc() ); return o; }

  json::Value E( const Expr* e ) {
    if ( !e ) return nullptr;
    if ( auto* x = dyn_cast<ParenExpr>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<ExprWithCleanups>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<MaterializeTemporaryExpr>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<CXXBindTemporaryExpr>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<ConstantExpr>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>( e ) ) return E( x->getReplacement() );
    if ( auto* x = dyn_cast<CXXStdInitializerListExpr>( e ) ) return E( x->getSubExpr() );
    if ( auto* x = dyn_cast<ImplicitCastExpr>( e ) ) {
      switch ( x->getCastKind() ) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_IntegralToBoolean:
        case CK_FloatingToBoolean: case CK_FloatingCast: case CK_PointerToBoolean: {
          auto o = node( "icast", e ); o["t"] = ty( x->getType() ); o["e"] = E( x->getSubExpr() ); return o; }
        case CK_UserDefinedConversion: case CK_ConstructorConversion: {
          auto o = node( "conv", e ); o["t"] = ty( x->getType() ); o["e"] = E( x->getSubExpr() ); return o; }
        default: return E( x->getSubExpr() );
      }
    }
    if ( auto* x = dyn_cast<ExplicitCastExpr>( e ) ) {
      auto o = node( "cast", e ); o["t"] = ty( x->getTypeAsWritten() ); o["ts"] = x->getTypeAsWritten().getAsString( PP ); o["e"] = E( x->getSubExpr() );
      if ( isa<CXXFunctionalCastExpr>( x ) ) o["fn"] = true;
      if ( isa<CXXConstCastExpr>( x ) ) o["constcast"] = true;
      if ( isa<CXXReinterpretCastExpr>( x ) ) o["reinterpret"] = true;
      return o; }
    if ( auto* x = dyn_cast<IntegerLiteral>( e ) ) { auto o = node( "int", e ); llvm::SmallString<40> s; x->getValue().toString( s, 10, x->getType()->isSignedIntegerType() ); o["v"] = s.str().str(); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<FloatingLiteral>( e ) ) { auto o = node( "flt", e );
      std::string s; SourceLocation b = x->getBeginLoc(); 
      CharSourceRange r = CharSourceRange::getTokenRange( SM.getSpellingLoc( b ), SM.getSpellingLoc( b ) );
      s = Lexer::getSourceText( r, SM, C.getLangOpts() ).str(); o["v"] = s; 
      llvm::SmallString<40> d; x->getValue().toString( d ); o["d"] = d.str().str(); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<CXXBoolLiteralExpr>( e ) ) { auto o = node( "bool", e ); o["v"] = x->getValue(); return o; }
    if ( auto* x = dyn_cast<StringLiteral>( e ) ) { auto o = node( "str", e ); o["v"] = x->isOrdinary() ? json::fixUTF8( x->getString() ) : std::string( "?" ); return o; }
    if ( auto* x = dyn_cast<CharacterLiteral>( e ) ) { auto o = node( "char", e ); o["v"] = (int64_t)x->getValue(); return o; }
    if ( isa<CXXNullPtrLiteralExpr>( e ) ) return node( "null", e );
    if ( isa<CXXThisExpr>( e ) ) return node( "this", e );
    if ( auto* x = dyn_cast<DeclRefExpr>( e ) ) {
      auto o = node( "ref", e ); const ValueDecl* d = x->getDecl(); o["n"] = d->getNameAsString(); o["id"] = id( d ); o["q"] = qname( d );
      if ( auto* v = dyn_cast<VarDecl>( d ) ) if ( v->isConstexpr() && v->isFileVarDecl() && !x->isValueDependent() && x->getType()->isIntegralOrEnumerationType() ) { Expr::EvalResult r; if ( x->EvaluateAsInt( r, C ) ) { llvm::SmallString<40> q; r.Val.getInt().toString( q, 10 ); o["cv"] = q.str().str(); } }
      if ( isa<ParmVarDecl>( d ) ) o["d"] = "param"; else if ( auto* v = dyn_cast<VarDecl>( d ) ) o["d"] = v->isLocalVarDecl() ? ( v->isStaticLocal() ? "static" : "local" ) : "global";
      else if ( isa<FunctionDecl>( d ) ) o["d"] = "fun"; else if ( auto* ec = dyn_cast<EnumConstantDecl>( d ) ) { o["d"] = "enum"; llvm::SmallString<40> s; ec->getInitVal().toString( s, 10 ); o["v"] = s.str().str(); }
      else if ( isa<NonTypeTemplateParmDecl>( d ) ) o["d"] = "tparam"; else if ( isa<BindingDecl>( d ) ) o["d"] = "binding"; else o["d"] = d->getDeclKindName();
      if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() );
      if ( auto* f = dyn_cast<FunctionDecl>( d ) ) { if ( auto* p = f->getTemplateInstantiationPattern() ) { o["pid"] = id( p ); if ( int n = want( f ) ) o["iid"] = n; }
         else o["pid"] = id( f->getDefinition() ? f->getDefinition() : f ); 
         if ( auto* a = f->getTemplateSpecializationArgs() ) o["sa"] = targArray( a->asArray() ); }
      o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<DependentScopeDeclRefExpr>( e ) ) { auto o = node( "dref", e ); o["n"] = x->getDeclName().getAsString(); std::string s; llvm::raw_string_ostream os( s ); if ( x->getQualifier() ) x->getQualifier()->print( os, PP ); o["qual"] = os.str();
      if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() ); return o; }
    if ( auto* x = dyn_cast<UnresolvedLookupExpr>( e ) ) { auto o = node( "dref", e ); o["n"] = x->getName().getAsString(); std::string s; llvm::raw_string_ostream os( s ); if ( x->getQualifier() ) x->getQualifier()->print( os, PP ); o["qual"] = os.str();
      if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() );
      json::Array c; for ( auto* d : x->decls() ) c.push_back( qname( d ) ); o["cands"] = std::move( c ); return o; }
    if ( auto* x = dyn_cast<UnresolvedMemberExpr>( e ) ) { auto o = node( "mem", e ); o["n"] = x->getMemberName().getAsString(); if ( !x->isImplicitAccess() ) o["e"] = E( x->getBase() ); else o["e"] = node( "this", e ); if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() );
      std::string s; llvm::raw_string_ostream os( s ); if ( x->getQualifier() ) x->getQualifier()->print( os, PP ); o["qual"] = os.str(); return o; }
    if ( auto* x = dyn_cast<CXXDependentScopeMemberExpr>( e ) ) { auto o = node( "mem", e ); o["n"] = x->getMember().getAsString(); if ( !x->isImplicitAccess() ) o["e"] = E( x->getBase() ); else o["e"] = node( "this", e ); o["dep"] = true; if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() );
      if ( x->isArrow() ) o["arrow"] = true;
      std::string s; llvm::raw_string_ostream os( s ); if ( x->getQualifier() ) x->getQualifier()->print( os, PP ); o["qual"] = os.str(); return o; }
    if ( auto* x = dyn_cast<MemberExpr>( e ) ) { auto o = node( "mem", e ); o["n"] = x->getMemberDecl()->getNameAsString(); o["e"] = E( x->getBase() ); o["q"] = qname( x->getMemberDecl() ); if ( x->isArrow() ) o["arrow"] = true; o["t"] = ty( x->getType() );
      if ( isa<FieldDecl>( x->getMemberDecl() ) ) o["field"] = true; o["bt"] = ty( x->getBase()->getType() );
      std::string s; llvm::raw_string_ostream os( s ); if ( x->getQualifier() ) x->getQualifier()->print( os, PP ); o["qual"] = os.str();
      if ( x->hasExplicitTemplateArgs() ) o["ta"] = targArray( x->template_arguments() );
      if ( auto* f = dyn_cast<FunctionDecl>( x->getMemberDecl() ) ) { if ( auto* p = f->getTemplateInstantiationPattern() ) { o["pid"] = id( p ); if ( int n = want( f ) ) o["iid"] = n; } else o["pid"] = id( f ); }
      return o; }
    if ( auto* x = dyn_cast<CXXOperatorCallExpr>( e ) ) { auto o = node( "opcall", e ); o["op"] = getOperatorSpelling( x->getOperator() ); json::Array a; for ( auto* y : x->arguments() ) a.push_back( E( y ) ); o["a"] = std::move( a ); o["t"] = ty( x->getType() ); 
      if ( auto* f = x->getDirectCallee() ) { o["q"] = qname( f ); o["fid"] = id( f ); if ( auto* p = f->getTemplateInstantiationPattern() ) { o["fid"] = id( p ); if ( int n = want( f ) ) o["iid"] = n; } } return o; }
    if ( auto* x = dyn_cast<CXXMemberCallExpr>( e ) ) { auto o = node( "call", e ); o["f"] = E( x->getCallee() ); json::Array a; for ( auto* y : x->arguments() ) a.push_back( E( y ) ); o["a"] = std::move( a ); o["t"] = ty( x->getType() ); 
      if ( auto* f = x->getDirectCallee() ) { o["fid"] = id( f ); if ( auto* p = f->getTemplateInstantiationPattern() ) { o["fid"] = id( p ); if ( int n = want( f ) ) o["iid"] = n; } } return o; }
    if ( auto* x = dyn_cast<CallExpr>( e ) ) { auto o = node( "call", e ); o["f"] = E( x->getCallee() ); json::Array a; for ( auto* y : x->arguments() ) a.push_back( E( y ) ); o["a"] = std::move( a ); o["t"] = ty( x->getType() );
      if ( auto* f = x->getDirectCallee() ) { o["fid"] = id( f ); if ( auto* p = f->getTemplateInstantiationPattern() ) { o["fid"] = id( p ); if ( int n = want( f ) ) o["iid"] = n; } } return o; }
    if ( auto* x = dyn_cast<UnaryOperator>( e ) ) { auto o = node( "un", e ); o["op"] = UnaryOperator::getOpcodeStr( x->getOpcode() ).str(); if ( x->isPostfix() ) o["post"] = true; o["e"] = E( x->getSubExpr() ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<CompoundAssignOperator>( e ) ) { auto o = node( "bin", e ); o["op"] = BinaryOperator::getOpcodeStr( x->getOpcode() ).str(); o["x"] = E( x->getLHS() ); o["y"] = E( x->getRHS() ); o["t"] = ty( x->getType() ); o["ct"] = ty( x->getComputationResultType() ); return o; }
    if ( auto* x = dyn_cast<BinaryOperator>( e ) ) { auto o = node( "bin", e ); o["op"] = BinaryOperator::getOpcodeStr( x->getOpcode() ).str(); o["x"] = E( x->getLHS() ); o["y"] = E( x->getRHS() ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<AbstractConditionalOperator>( e ) ) { auto o = node( "cond", e ); o["c"] = E( x->getCond() ); o["x"] = E( x->getTrueExpr() ); o["y"] = E( x->getFalseExpr() ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<OpaqueValueExpr>( e ) ) return E( x->getSourceExpr() );
    if ( auto* x = dyn_cast<ArraySubscriptExpr>( e ) ) { auto o = node( "sub", e ); o["x"] = E( x->getLHS() ); o["y"] = E( x->getRHS() ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<CXXDefaultArgExpr>( e ) ) { auto o = node( "defarg", e ); o["e"] = E( x->getExpr() ); return o; }
    if ( auto* x = dyn_cast<CXXDefaultInitExpr>( e ) ) { auto o = node( "definit", e ); o["e"] = E( x->getExpr() ); return o; }
    if ( auto* x = dyn_cast<CXXConstructExpr>( e ) ) { auto o = node( "ctor", e ); o["t"] = ty( x->getType() ); json::Array a; for ( auto* y : x->arguments() ) a.push_back( E( y ) ); o["a"] = std::move( a ); if ( x->getConstructor()->isCopyOrMoveConstructor() ) o["copy"] = true; if ( x->isListInitialization() ) o["list"] = true; if ( isa<CXXTemporaryObjectExpr>( x ) ) o["temp"] = true; if ( x->isStdInitListInitialization() ) o["il"] = true; 
      o["fid"] = id( x->getConstructor() ); o["clsid"] = id( x->getConstructor()->getParent() ); if ( auto* p = x->getConstructor()->getTemplateInstantiationPattern() ) { o["fid"] = id( p ); if ( int n = want( x->getConstructor() ) ) o["iid"] = n; } wantClass( x->getConstructor()->getParent() ); return o; }
    if ( auto* x = dyn_cast<CXXUnresolvedConstructExpr>( e ) ) { auto o = node( "uctor", e ); o["t"] = ty( x->getTypeAsWritten() ); o["ts"] = x->getTypeAsWritten().getAsString( PP ); json::Array a; for ( unsigned i = 0; i < x->getNumArgs(); ++i ) a.push_back( E( x->getArg( i ) ) ); o["a"] = std::move( a ); if ( x->isListInitialization() ) o["list"] = true; return o; }
    if ( auto* x = dyn_cast<InitListExpr>( e ) ) { if ( x->isSemanticForm() && x->getSyntacticForm() && x->getType()->isDependentType() ) x = x->getSyntacticForm(); auto o = node( "ilist", e ); json::Array a; for ( unsigned i = 0; i < x->getNumInits(); ++i ) a.push_back( E( x->getInit( i ) ) ); o["a"] = std::move( a ); o["t"] = ty( x->getType() ); if ( x->hasArrayFiller() ) o["fill"] = E( x->getArrayFiller() ); return o; }
    if ( auto* x = dyn_cast<ParenListExpr>( e ) ) { auto o = node( "plist", e ); json::Array a; for ( unsigned i = 0; i < x->getNumExprs(); ++i ) a.push_back( E( x->getExpr( i ) ) ); o["a"] = std::move( a ); return o; }
    if ( auto* x = dyn_cast<CXXScalarValueInitExpr>( e ) ) { auto o = node( "zero", e ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<ImplicitValueInitExpr>( e ) ) { auto o = node( "zero", e ); o["t"] = ty( x->getType() ); return o; }
    if ( auto* x = dyn_cast<LambdaExpr>( e ) ) return lambda( x );
    if ( auto* x = dyn_cast<CXXNewExpr>( e ) ) { auto o = node( "new", e ); o["t"] = ty( x->getAllocatedType() ); if ( x->isArray() ) { auto s = x->getArraySize(); o["n"] = s && *s ? E( *s ) : json::Value( nullptr ); o["array"] = true; } if ( x->getInitializer() ) o["init"] = E( x->getInitializer() ); json::Array a; for ( auto* y : x->placement_arguments() ) a.push_back( E( y ) ); o["place"] = std::move( a ); return o; }
    if ( auto* x = dyn_cast<CXXDeleteExpr>( e ) ) { auto o = node( "delete", e ); o["e"] = E( x->getArgument() ); if ( x->isArrayForm() ) o["array"] = true; return o; }
    if ( auto* x = dyn_cast<CXXThrowExpr>( e ) ) { auto o = node( "throw", e ); if ( x->getSubExpr() ) o["e"] = E( x->getSubExpr() ); return o; }
    if ( auto* x = dyn_cast<PackExpansionExpr>( e ) ) { auto o = node( "expand", e ); o["e"] = E( x->getPattern() ); return o; }
    if ( auto* x = dyn_cast<SizeOfPackExpr>( e ) ) { auto o = node( "sizeofpack", e ); o["n"] = x->getPack()->getNameAsString(); return o; }
    if ( auto* x = dyn_cast<CXXFoldExpr>( e ) ) { auto o = node( "fold", e ); o["op"] = BinaryOperator::getOpcodeStr( x->getOperator() ).str(); o["p"] = E( x->getPattern() ); if ( x->getInit() ) o["i"] = E( x->getInit() ); o["left"] = x->isLeftFold(); return o; }
    if ( auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>( e ) ) { auto o = node( "sizeof", e ); Expr::EvalResult r; if ( !x->isValueDependent() && x->EvaluateAsInt( r, C ) ) { llvm::SmallString<40> s; r.Val.getInt().toString( s, 10 ); o["v"] = s.str().str(); } return o; }
    if ( auto* x = dyn_cast<CXXPseudoDestructorExpr>( e ) ) { auto o = node( "mem", e ); o["n"] = "~"; o["e"] = E( x->getBase() ); return o; }
    if ( auto* x = dyn_cast<RecoveryExpr>( e ) ) { auto o = node( "recovery", e ); json::Array a; for ( auto* y : x->subExpressions() ) a.push_back( E( y ) ); o["a"] = std::move( a ); return o; }
    if ( auto* x = dyn_cast<CXXRewrittenBinaryOperator>( e ) ) return E( x->getSemanticForm() );
    auto o = node( "opaque", e ); o["c"] = e->getStmtClassName(); o["s"] = str( e );
    json::Array a; for ( auto* y : e->children() ) if ( y ) if ( auto* z = dyn_cast<Expr>( y ) ) a.push_back( E( z ) ); o["a"] = std::move( a );
    return o;
  }

  json::Value param( const ParmVarDecl* p ) { json::Object o; o["n"] = p->getNameAsString(); o["id"] = id( p ); o["t"] = ty( p->getType() ); o["ts"] = p->getType().getAsString( PP ); 
    if ( p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() ) o["def"] = E( p->getDefaultArg() ); else if ( p->hasUninstantiatedDefaultArg() ) o["def"] = E( p->getUninstantiatedDefaultArg() );
    if ( p->isParameterPack() ) o["pack"] = true; return o; }

  json::Value lambda( const LambdaExpr* x ) {
    auto o = node( "lambda", x ); json::Array ps; auto* m = x->getCallOperator();
    for ( auto* p : m->parameters() ) ps.push_back( param( p ) ); o["ps"] = std::move( ps );
    json::Array caps; auto init = x->capture_init_begin();
    for ( auto& c : x->captures() ) { json::Object co; if ( c.capturesThis() ) { co["this"] = true; co["byref"] = c.getCaptureKind() != LCK_StarThis; }
      else if ( c.capturesVariable() ) { auto* v = c.getCapturedVar(); co["n"] = v->getNameAsString(); co["id"] = id( v ); co["byref"] = c.getCaptureKind() == LCK_ByRef; if ( x->isInitCapture( &c ) ) { co["init"] = E( cast<VarDecl>( v )->getInit() ? cast<VarDecl>( v )->getInit() : *init ); } }
      caps.push_back( std::move( co ) ); ++init; }
    o["caps"] = std::move( caps ); o["default"] = x->getCaptureDefault() == LCD_ByRef ? "&" : x->getCaptureDefault() == LCD_ByCopy ? "=" : "";
    o["mutable"] = x->isMutable(); o["id"] = id( m );
    if ( x->hasExplicitResultType() ) { o["rt"] = ty( m->getReturnType() ); o["rts"] = m->getReturnType().getAsString( PP ); }
    o["b"] = S( x->getBody() ); return o; }

  json::Value var( const VarDecl* v, const Stmt* ) {
    json::Object o; o["k"] = "var"; o["l"] = at( v->getLocation() ); o["n"] = v->getNameAsString(); o["id"] = id( v ); o["t"] = ty( v->getType() ); o["ts"] = v->getType().getAsString( PP );
    if ( v->isStaticLocal() || ( v->isStaticDataMember() ) ) o["static"] = true; if ( v->getTSCSpec() != TSCS_unspecified ) o["tls"] = true;
    if ( v->getType().isConstQualified() || v->isConstexpr() ) o["const"] = true; if ( v->isConstexpr() ) o["constexpr"] = true;
    if ( v->getInit() ) { o["init"] = E( v->getInit() ); o["style"] = v->getInitStyle() == VarDecl::CInit ? "c" : v->getInitStyle() == VarDecl::CallInit ? "call" : "list"; }
    if ( v->isInvalidDecl() ) o["invalid"] = true;
    if ( auto* dd = dyn_cast<DecompositionDecl>( v ) ) { json::Array b; for ( auto* x : dd->bindings() ) { json::Object bo; bo["n"] = x->getNameAsString(); bo["id"] = id( x ); b.push_back( std::move( bo ) ); } o["bind"] = std::move( b ); }
    return o; }

  json::Value S( const Stmt* s ) {
    if ( !s ) return nullptr;
    if ( auto* e = dyn_cast<Expr>( s ) ) { auto o = node( "expr", s ); o["e"] = E( e ); return o; }
    if ( auto* x = dyn_cast<CompoundStmt>( s ) ) { auto o = node( "block", s ); json::Array a; for ( auto* y : x->body() ) a.push_back( S( y ) ); o["a"] = std::move( a ); return o; }
    if ( auto* x = dyn_cast<DeclStmt>( s ) ) { auto o = node( "decl", s ); json::Array a; for ( auto* d : x->decls() ) { if ( auto* v = dyn_cast<VarDecl>( d ) ) a.push_back( var( v, s ) ); else if ( auto* t = dyn_cast<TypedefNameDecl>( d ) ) { json::Object to; to["k"] = "using"; to["n"] = t->getNameAsString(); to["t"] = ty( t->getUnderlyingType() ); to["ts"] = t->getUnderlyingType().getAsString( PP ); a.push_back( std::move( to ) ); } else if ( auto* rd = dyn_cast<CXXRecordDecl>( d ) ) { klass( rd ); } } o["a"] = std::move( a ); return o; }
    if ( auto* x = dyn_cast<ReturnStmt>( s ) ) { auto o = node( "return", s ); if ( x->getRetValue() ) o["e"] = E( x->getRetValue() ); return o; }
    if ( auto* x = dyn_cast<IfStmt>( s ) ) { auto o = node( "if", s ); if ( x->getInit() ) o["init"] = S( x->getInit() ); if ( x->getConditionVariableDeclStmt() ) o["cv"] = S( x->getConditionVariableDeclStmt() ); o["c"] = E( x->getCond() ); o["x"] = S( x->getThen() ); if ( x->getElse() ) o["y"] = S( x->getElse() ); if ( x->isConstexpr() ) o["constexpr"] = true; return o; }
    if ( auto* x = dyn_cast<ForStmt>( s ) ) { auto o = node( "for", s ); if ( x->getInit() ) o["i"] = S( x->getInit() ); if ( x->getCond() ) o["c"] = E( x->getCond() ); if ( x->getInc() ) o["n"] = E( x->getInc() ); o["b"] = S( x->getBody() ); return o; }
    if ( auto* x = dyn_cast<WhileStmt>( s ) ) { auto o = node( "while", s ); if ( x->getConditionVariableDeclStmt() ) o["cv"] = S( x->getConditionVariableDeclStmt() ); o["c"] = E( x->getCond() ); o["b"] = S( x->getBody() ); return o; }
    if ( auto* x = dyn_cast<DoStmt>( s ) ) { auto o = node( "do", s ); o["c"] = E( x->getCond() ); o["b"] = S( x->getBody() ); return o; }
    if ( auto* x = dyn_cast<CXXForRangeStmt>( s ) ) { auto o = node( "rfor", s ); o["v"] = var( x->getLoopVariable(), s ); json::Object* vo = o["v"].getAsObject(); vo->erase( "init" ); o["r"] = E( x->getRangeInit() ); if ( x->getInit() ) o["i"] = S( x->getInit() ); o["b"] = S( x->getBody() ); return o; }
    if ( auto* x = dyn_cast<SwitchStmt>( s ) ) { auto o = node( "switch", s ); if ( x->getInit() ) o["i"] = S( x->getInit() ); if ( x->getConditionVariableDeclStmt() ) o["cv"] = S( x->getConditionVariableDeclStmt() ); o["c"] = E( x->getCond() ); o["b"] = S( x->getBody() ); return o; }
    if ( auto* x = dyn_cast<CaseStmt>( s ) ) { auto o = node( "case", s ); o["v"] = E( x->getLHS() ); if ( x->getRHS() ) o["v2"] = E( x->getRHS() ); o["s"] = S( x->getSubStmt() ); return o; }
    if ( auto* x = dyn_cast<DefaultStmt>( s ) ) { auto o = node( "default", s ); o["s"] = S( x->getSubStmt() ); return o; }
    if ( isa<BreakStmt>( s ) ) return node( "break", s );
    if ( isa<ContinueStmt>( s ) ) return node( "continue", s );
    if ( isa<NullStmt>( s ) ) return node( "nop", s );
    if ( auto* x = dyn_cast<AttributedStmt>( s ) ) { for ( auto* a : x->getAttrs() ) if ( isa<FallThroughAttr>( a ) ) { auto o = node( "nop", s ); o["ft"] = true; return o; } return S( x->getSubStmt() ); }
    if ( auto* x = dyn_cast<LabelStmt>( s ) ) { auto o = node( "label", s ); o["s"] = S( x->getSubStmt() ); return o; }
    if ( auto* x = dyn_cast<CXXTryStmt>( s ) ) { auto o = node( "try", s ); o["b"] = S( x->getTryBlock() ); json::Array h; for ( unsigned i = 0; i < x->getNumHandlers(); ++i ) { auto* c = x->getHandler( i ); auto ho = node( "catch", c ); if ( c->getExceptionDecl() ) ho["v"] = var( c->getExceptionDecl(), c ); ho["b"] = S( c->getHandlerBlock() ); h.push_back( std::move( ho ) ); } o["h"] = std::move( h ); return o; }
    auto o = node( "opaquestmt", s ); o["c"] = s->getStmtClassName(); return o;
  }

  json::Array tparams( const TemplateParameterList* l ) { json::Array a; for ( auto* p : *l ) { json::Object o; o["n"] = p->getNameAsString(); o["kind"] = isa<TemplateTypeParmDecl>( p ) ? "type" : isa<NonTypeTemplateParmDecl>( p ) ? "value" : "template"; if ( p->isParameterPack() ) o["pack"] = true; if ( auto* q = dyn_cast<TemplateTypeParmDecl>( p ) ) if ( q->hasDefaultArgument() && !q->defaultArgumentWasInherited() ) o["def"] = q->getDefaultArgument().getAsString( PP ); a.push_back( std::move( o ) ); } return a; }

  json::Object fun( const FunctionDecl* f ) {
    json::Object o; o["n"] = f->getNameAsString(); o["q"] = qname( f ); o["id"] = id( f ); o["l"] = at( f->getLocation() ); o["lb"] = at( f->getBeginLoc() ); o["le"] = at( f->getEndLoc() );
    std::string ff; unsigned ln; if ( loc( f->getEndLoc(), ff, ln ) ) o["el"] = (int64_t)ln;
    o["rt"] = ty( f->getReturnType() ); o["rts"] = f->getReturnType().getAsString( PP );
    json::Array ps; for ( auto* p : f->parameters() ) ps.push_back( param( p ) ); o["ps"] = std::move( ps );
    if ( f->isInlined() ) o["inline"] = true; if ( f->isInlineSpecified() ) o["inlinespec"] = true; if ( f->isConstexpr() ) o["constexpr"] = true; if ( f->isStatic() ) o["static"] = true;
    if ( f->isDeleted() ) o["deleted"] = true; if ( f->isDefaulted() ) o["defaulted"] = true; if ( f->isInvalidDecl() ) o["invalid"] = true; if ( f->isTemplated() ) o["templated"] = true;
    o["linkage"] = f->getFormalLinkage() == Linkage::External ? "ext" : f->getFormalLinkage() == Linkage::Internal ? "int" : "other";
    if ( auto* ft = f->getDescribedFunctionTemplate() ) o["tp"] = tparams( ft->getTemplateParameters() );
    if ( f->isFunctionTemplateSpecialization() ) { o["spec"] = targArray( f->getTemplateSpecializationArgs()->asArray() ); }
    if ( auto* m = dyn_cast<CXXMethodDecl>( f ) ) { o["cls"] = qname( m->getParent() ); o["clsid"] = id( m->getParent() ); if ( m->isConst() ) o["const"] = true; if ( m->isStatic() ) o["static"] = true; if ( m->isVirtual() ) o["virtual"] = true;
      o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"; }
    if ( auto* c = dyn_cast<CXXConstructorDecl>( f ) ) { o["ctor"] = true; json::Array is; if ( c->doesThisDeclarationHaveABody() ) for ( auto* i : c->inits() ) { json::Object io; 
          if ( i->isMemberInitializer() || i->isAnyMemberInitializer() ) io["f"] = i->getAnyMember()->getNameAsString(); else if ( i->isDelegatingInitializer() || ( i->isBaseInitializer() && QualType( i->getBaseClass(), 0 )->getAsCXXRecordDecl() && QualType( i->getBaseClass(), 0 )->getAsCXXRecordDecl()->getCanonicalDecl() == c->getParent()->getCanonicalDecl() ) ) io["deleg"] = true; else if ( i->isBaseInitializer() ) { io["base"] = ty( QualType( i->getBaseClass(), 0 ) ); if ( auto* br = QualType( i->getBaseClass(), 0 )->getAsCXXRecordDecl() ) io["bid"] = id( br ); }
          io["e"] = E( i->getInit() ); io["written"] = i->isWritten(); io["l"] = at( i->getSourceLocation() ); is.push_back( std::move( io ) ); } o["inits"] = std::move( is ); if ( c->isCopyOrMoveConstructor() ) o["copymove"] = true; }
    if ( isa<CXXDestructorDecl>( f ) ) o["dtor"] = true;
    if ( isa<CXXConversionDecl>( f ) ) o["convop"] = true;
    if ( f->doesThisDeclarationHaveABody() ) o["b"] = S( f->getBody() );
    return o;
  }
  void function( const FunctionDecl* f ) {
    if ( f->isImplicit() ) return; if ( !f->doesThisDeclarationHaveABody() && !f->isDefaulted() && !f->isDeleted() ) return;
    if ( f->isTemplateInstantiation() ) return; if ( !seen.insert( f ).second ) return;
    if ( auto* m = dyn_cast<CXXMethodDecl>( f ) ) if ( m->getParent()->isLambda() ) return;
    functions.push_back( fun( f ) );
  }
  void klass( const CXXRecordDecl* r, bool inst = false ) {
    if ( !inst ) if ( r->isImplicit() || r->isLambda() || !r->isThisDeclarationADefinition() ) return;
    if ( !inst ) if ( auto* s = dyn_cast<ClassTemplateSpecializationDecl>( r ) ) if ( s->getSpecializationKind() == TSK_ImplicitInstantiation || s->getSpecializationKind() == TSK_ExplicitInstantiationDefinition ) return;
    if ( !seen.insert( r ).second ) return;
    json::Object o; o["n"] = r->getNameAsString(); o["q"] = qname( r ); o["id"] = id( r ); o["l"] = at( r->getLocation() ); if ( inst ) o["inst"] = true;
    if ( auto* t = r->getDescribedClassTemplate() ) o["tp"] = tparams( t->getTemplateParameters() );
    if ( auto* s = dyn_cast<ClassTemplateSpecializationDecl>( r ) ) { if ( auto* ps = dyn_cast<ClassTemplatePartialSpecializationDecl>( s ) ) o["spec"] = targArray( ps->getTemplateArgsAsWritten()->arguments() ); else o["spec"] = targArray( s->getTemplateArgs().asArray() ); if ( auto* p = dyn_cast<ClassTemplatePartialSpecializationDecl>( s ) ) o["tp"] = tparams( p->getTemplateParameters() ); }
    json::Array bs; for ( auto& b : r->bases() ) { json::Object bo; bo["t"] = ty( b.getType() ); bo["ts"] = b.getType().getAsString( PP ); if ( auto* br = b.getType()->getAsCXXRecordDecl() ) { bo["id"] = id( br ); wantClass( br ); } bs.push_back( std::move( bo ) ); } o["bases"] = std::move( bs );
    json::Array fs, ms, us; 
    for ( auto* d : r->decls() ) {
      if ( auto* f = dyn_cast<FieldDecl>( d ) ) { json::Object fo; fo["n"] = f->getNameAsString(); fo["id"] = id( f ); fo["t"] = ty( f->getType() ); fo["ts"] = f->getType().getAsString( PP ); fo["l"] = at( f->getLocation() ); if ( f->isMutable() ) fo["mutable"] = true; if ( f->hasInClassInitializer() ) fo["init"] = E( f->getInClassInitializer() ); if ( f->getType().isConstQualified() ) fo["const"] = true; 
        QualType ft = f->getType(); fo["trivial"] = !ft->isDependentType() && ( ft->isScalarType() || ( ft->isArrayType() && C.getBaseElementType( ft )->isScalarType() ) || ( ft->getAsCXXRecordDecl() && ft->getAsCXXRecordDecl()->hasTrivialDefaultConstructor() ) ); fs.push_back( std::move( fo ) ); }
      else if ( auto* u = dyn_cast<UsingDecl>( d ) ) us.push_back( u->getNameAsString() );
      else if ( auto* ta = dyn_cast<TypedefNameDecl>( d ) ) { json::Object ao; ao["n"] = ta->getNameAsString(); ao["q"] = qname( ta ); ao["t"] = ty( ta->getUnderlyingType() ); ao["ts"] = ta->getUnderlyingType().getAsString( PP ); aliases.push_back( std::move( ao ) ); }
      if ( !inst ) decl( d );
      else if ( auto* v = dyn_cast<VarDecl>( d ) ) { json::Value vo = var( v, nullptr ); (*vo.getAsObject())["q"] = qname( v ); (*vo.getAsObject())["inst"] = true; globals.push_back( std::move( vo ) ); }
    }
    o["fields"] = std::move( fs ); o["usings"] = std::move( us ); classes.push_back( std::move( o ) );
  }
  void decl( const Decl* d ) {
    if ( !d ) return;
    if ( auto* n = dyn_cast<NamespaceDecl>( d ) ) { for ( auto* x : n->decls() ) decl( x ); return; }
    if ( auto* l = dyn_cast<LinkageSpecDecl>( d ) ) { for ( auto* x : l->decls() ) decl( x ); return; }
    if ( !mine( d->getLocation() ) ) return;
    if ( auto* t = dyn_cast<FunctionTemplateDecl>( d ) ) return function( t->getTemplatedDecl() );
    if ( auto* t = dyn_cast<ClassTemplateDecl>( d ) ) return klass( t->getTemplatedDecl() );
    if ( auto* r = dyn_cast<CXXRecordDecl>( d ) ) return klass( r );
    if ( auto* f = dyn_cast<FunctionDecl>( d ) ) return function( f );
    if ( auto* fr = dyn_cast<FriendDecl>( d ) ) { if ( fr->getFriendDecl() ) decl( fr->getFriendDecl() ); return; }
    if ( auto* v = dyn_cast<VarDecl>( d ) ) { json::Value o = var( v, nullptr ); (*o.getAsObject())["q"] = qname( v ); (*o.getAsObject())["inline"] = v->isInline(); (*o.getAsObject())["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition; if ( v->getDescribedVarTemplate() || isa<VarTemplateSpecializationDecl>( v ) ) (*o.getAsObject())["tmpl"] = true; (*o.getAsObject())["linkage"] = v->getFormalLinkage() == Linkage::External ? "ext" : "int"; globals.push_back( std::move( o ) ); return; }
    if ( auto* t = dyn_cast<VarTemplateDecl>( d ) ) return decl( t->getTemplatedDecl() );
    if ( auto* ta = dyn_cast<TypeAliasTemplateDecl>( d ) ) { json::Object ao; ao["n"] = ta->getNameAsString(); ao["q"] = qname( ta ); ao["tp"] = tparams( ta->getTemplateParameters() ); ao["ts"] = ta->getTemplatedDecl()->getUnderlyingType().getAsString( PP ); aliases.push_back( std::move( ao ) ); return; }
    if ( auto* ta = dyn_cast<TypedefNameDecl>( d ) ) { json::Object ao; ao["n"] = ta->getNameAsString(); ao["q"] = qname( ta ); ao["t"] = ty( ta->getUnderlyingType() ); ao["ts"] = ta->getUnderlyingType().getAsString( PP ); ao["l"] = at( ta->getLocation() ); aliases.push_back( std::move( ao ) ); return; }
  }
};

class Diags : public DiagnosticConsumer {
public:
  json::Array out;
  void HandleDiagnostic( DiagnosticsEngine::Level l, const Diagnostic& d ) override {
    DiagnosticConsumer::HandleDiagnostic( l, d );
    if ( l < DiagnosticsEngine::Warning && l != DiagnosticsEngine::Note ) return;
    if ( out.size() > 4000 ) return;
    json::Object o; o["level"] = (int64_t)l; o["flag"] = DiagnosticIDs::getWarningOptionForDiag( d.getID() ).str(); llvm::SmallString<200> s; d.FormatDiagnostic( s ); o["msg"] = json::fixUTF8( s.str() );
    if ( d.hasSourceManager() && d.getLocation().isValid() ) { PresumedLoc p = d.getSourceManager().getPresumedLoc( d.getSourceManager().getExpansionLoc( d.getLocation() ) ); if ( p.isValid() ) { o["file"] = p.getFilename(); o["line"] = (int64_t)p.getLine(); } }
    out.push_back( std::move( o ) );
  }
};
static Diags diags;

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit( ASTContext& c ) override {
    Emitter e( c );
    for ( auto* d : c.getTranslationUnitDecl()->decls() ) e.decl( d );
    size_t i = 0, j = 0;
    while ( i < e.pending.size() || j < e.pendingClasses.size() ) {
      if ( i < e.pending.size() ) { auto* f = e.pending[i++]; json::Object o = e.fun( f ); o["inst"] = true; if ( auto* p = f->getTemplateInstantiationPattern() ) o["pid"] = e.id( p ); e.functions.push_back( std::move( o ) ); continue; }
      e.klass( e.pendingClasses[j++], true );
    }
    json::Object o; o["functions"] = std::move( e.functions ); o["classes"] = std::move( e.classes ); o["globals"] = std::move( e.globals ); o["aliases"] = std::move( e.aliases );
    json::Array f; for ( auto& s : e.fileNames ) f.push_back( s ); o["files"] = std::move( f );
    o["diags"] = std::move( diags.out );
    std::error_code ec; llvm::raw_fd_ostream os( outFile, ec ); os << json::Value( std::move( o ) ) << "\n";
  }
};
class Action : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance&, llvm::StringRef ) override { return std::make_unique<Consumer>(); } };

// usage: extract OUT SOURCE ROOT[,ROOT] -- compiler args
int main( int argc, const char** argv ) {
  if ( argc < 5 ) return 2;
  outFile = argv[1]; std::string src = argv[2]; std::string r = argv[3]; size_t p;
  while ( ( p = r.find( ',' ) ) != std::string::npos ) { roots.push_back( r.substr( 0, p ) ); r = r.substr( p + 1 ); } roots.push_back( r );
  std::vector<std::string> args; for ( int i = 5; i < argc; ++i ) args.push_back( argv[i] );
  tooling::FixedCompilationDatabase db( ".", args );
  tooling::ClangTool tool( db, { src } ); tool.setDiagnosticConsumer( &diags );
  tool.run( tooling::newFrontendActionFactory<Action>().get() );
  return 0;
}
