// cppx: mechanical extraction of C++ function bodies (clang AST, fully resolved) to JSON.
//
// usage: cppx <out.json> <root-prefix>[,<root-prefix>...] <source.cpp> -- <clang args>
//
// Every function (including instantiated templates, implicit copy/move members that are *used*, lambdas'
// call operators) whose definition lies in a file below one of the root prefixes is written with its whole body.
// Nothing is rewritten: parentheses, ExprWithCleanups, MaterializeTemporaryExpr, CXXBindTemporaryExpr and
// ConstantExpr wrappers are looked through, default arguments / member initialisers are expanded in place.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/PrettyPrinter.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> roots;
static std::string outFile;

struct X
{
  ASTContext & C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::set<std::string> recordsSeen;
  std::vector<const CXXRecordDecl *> recQueue;
  std::vector<const FunctionDecl *> fnQueue;
  std::set<const FunctionDecl *> fnSeen;
  Array records, enums;
  std::set<std::string> enumsSeen;

  X(ASTContext & c) : C(c), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.UseVoidForZeroParams = false;
    PP.SuppressInlineNamespace = true;
    PP.TerseOutput = true;
  }

  int id(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if(it != ids.end())
      return it->second;
    int n = (int)ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string ty(QualType t)
  {
    if(t.isNull())
      return "?";
    t = t.getCanonicalType();
    noteType(t);
    std::string s;
    llvm::raw_string_ostream os(s);
    t.print(os, PP);
    return os.str();
  }
  void noteType(QualType t)
  {
    while(true)
    {
      if(t->isReferenceType() || t->isPointerType())
      {
        t = t->getPointeeType();
        continue;
      }
      break;
    }
    if(auto * r = t->getAsCXXRecordDecl())
      noteRecord(r);
    if(auto * e = t->getAs<EnumType>())
      noteEnum(e->getDecl());
  }
  std::string recName(const CXXRecordDecl * r)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    C.getRecordType(r).getCanonicalType().print(os, PP);
    return os.str();
  }
  bool inRoots(SourceLocation l)
  {
    auto & SM = C.getSourceManager();
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    for(auto & r : roots)
      if(f.starts_with(r))
        return true;
    return false;
  }
  void noteRecord(const CXXRecordDecl * r)
  {
    auto * d = r->getDefinition();
    if(!d || d->isDependentContext() || d->isLambda())
      return;
    auto n = recName(d);
    if(!recordsSeen.insert(n).second)
      return;
    recQueue.push_back(d);
  }
  void noteEnum(const EnumDecl * e)
  {
    auto n = e->getQualifiedNameAsString();
    if(!enumsSeen.insert(n).second)
      return;
    Array vals;
    if(auto * def = e->getDefinition())
      for(auto * c : def->enumerators())
        vals.push_back(Array{c->getNameAsString(), c->getInitVal().getSExtValue()});
    enums.push_back(Object{{"name", n}, {"values", std::move(vals)}});
  }
  void emitRecords()
  {
    for(size_t i = 0; i < recQueue.size(); ++i)
    {
      auto * d = recQueue[i];
      Array fields, bases;
      bool in = inRoots(d->getLocation());
      if(in)
        for(auto * f : d->fields())
        {
          Object o{{"name", f->getNameAsString()}, {"t", ty(f->getType())}, {"id", id(f)}};
          if(f->hasInClassInitializer() && f->getInClassInitializer())
            o["init"] = expr(f->getInClassInitializer());
          fields.push_back(std::move(o));
        }
      for(auto & b : d->bases())
        bases.push_back(ty(b.getType()));
      records.push_back(Object{{"name", recName(d)},
                               {"fields", std::move(fields)},
                               {"bases", std::move(bases)},
                               {"repo", in},
                               {"abstract", d->isAbstract()},
                               {"aggregate", d->isAggregate()}});
    }
  }

  std::string fnName(const FunctionDecl * f)
  {
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      if(m->getParent()->isLambda())
        return "(lambda@" + std::to_string(id(m->getParent())) + ")::operator()";
      return recName(m->getParent()) + "::" + f->getNameAsString();
    }
    return f->getQualifiedNameAsString();
  }
  std::string fnKey(const FunctionDecl * f)
  {
    std::string s = fnName(f);
    if(auto * ta = f->getTemplateSpecializationArgs())
    {
      s += "<";
      bool first = true;
      for(auto & a : ta->asArray())
      {
        if(!first)
          s += ", ";
        first = false;
        std::string x;
        llvm::raw_string_ostream os(x);
        a.print(PP, os, true);
        s += os.str();
      }
      s += ">";
    }
    s += "(";
    bool first = true;
    for(auto * p : f->parameters())
    {
      if(!first)
        s += ", ";
      first = false;
      s += ty(p->getType());
    }
    s += ")";
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
      if(m->isConst())
        s += " const";
    return s;
  }
  Object fnRef(const FunctionDecl * f)
  {
    noteFn(f);
    Object o{{"name", fnName(f)}, {"key", fnKey(f)}, {"id", id(f)}};
    if(auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = m->getParent()->isLambda() ? "lambda" : recName(m->getParent());
      o["static"] = m->isStatic();
      o["virtual"] = m->isVirtual();
      o["const"] = m->isConst();
    }
    o["rt"] = ty(f->getReturnType());
    Array ps;
    for(auto * p : f->parameters())
      ps.push_back(ty(p->getType()));
    o["pt"] = std::move(ps);
    return o;
  }
  void noteFn(const FunctionDecl * f)
  {
    const FunctionDecl * def = nullptr;
    if(f->isDependentContext())
      return;
    if(!f->hasBody(def))
      return;
    if(!inRoots(def->getLocation()))
      return;
    if(fnSeen.insert(def).second)
      fnQueue.push_back(def);
  }

  std::string loc(SourceLocation l)
  {
    auto & SM = C.getSourceManager();
    l = SM.getExpansionLoc(l);
    auto p = SM.getPresumedLoc(l);
    if(p.isInvalid())
      return "?";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }

  Value varDecl(const VarDecl * v)
  {
    Object o{{"k", "Var"}, {"id", id(v)}, {"name", v->getNameAsString()}, {"t", ty(v->getType())}};
    if(v->isStaticLocal())
      o["static"] = true;
    if(v->getInit())
      o["init"] = expr(v->getInit());
    if(auto * dd = dyn_cast<DecompositionDecl>(v))
    {
      Array bs;
      for(auto * b : dd->bindings())
      {
        Object bo{{"id", id(b)}, {"name", b->getNameAsString()}, {"t", ty(b->getType())}};
        if(b->getBinding())
          bo["e"] = expr(b->getBinding());
        if(auto * hv = b->getHoldingVar())
          bo["hold"] = varDecl(hv);
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  Value stmtOrNull(const Stmt * s) { return s ? stmt(s) : Value(nullptr); }

  Value stmt(const Stmt * s)
  {
    if(!s)
      return nullptr;
    if(auto * e = dyn_cast<Expr>(s))
      return Object{{"k", "Expr"}, {"e", expr(e)}, {"loc", loc(s->getBeginLoc())}};
    Object o;
    o["loc"] = loc(s->getBeginLoc());
    if(auto * c = dyn_cast<CompoundStmt>(s))
    {
      o["k"] = "Compound";
      Array b;
      for(auto * x : c->body())
        b.push_back(stmt(x));
      o["body"] = std::move(b);
      return o;
    }
    if(auto * d = dyn_cast<DeclStmt>(s))
    {
      o["k"] = "Decl";
      Array b;
      for(auto * x : d->decls())
      {
        if(auto * v = dyn_cast<VarDecl>(x))
          b.push_back(varDecl(v));
      }
      o["vars"] = std::move(b);
      return o;
    }
    if(auto * i = dyn_cast<IfStmt>(s))
    {
      if(i->isConstexpr())
      {
        if(auto nd = i->getNondiscardedCase(C))
        {
          if(*nd)
            return stmt(*nd);
          o["k"] = "Null";
          return o;
        }
      }
      o["k"] = "If";
      if(i->getInit())
        o["init"] = stmt(i->getInit());
      if(i->getConditionVariable())
        o["var"] = varDecl(i->getConditionVariable());
      o["c"] = expr(i->getCond());
      o["then"] = stmtOrNull(i->getThen());
      o["else"] = stmtOrNull(i->getElse());
      return o;
    }
    if(auto * w = dyn_cast<WhileStmt>(s))
    {
      o["k"] = "While";
      o["lid"] = loopId(s);
      o["c"] = expr(w->getCond());
      o["body"] = stmtOrNull(w->getBody());
      return o;
    }
    if(auto * w = dyn_cast<DoStmt>(s))
    {
      o["k"] = "Do";
      o["lid"] = loopId(s);
      o["c"] = expr(w->getCond());
      o["body"] = stmtOrNull(w->getBody());
      return o;
    }
    if(auto * f = dyn_cast<ForStmt>(s))
    {
      o["k"] = "For";
      o["lid"] = loopId(s);
      o["init"] = stmtOrNull(f->getInit());
      o["c"] = f->getCond() ? expr(f->getCond()) : Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : Value(nullptr);
      o["body"] = stmtOrNull(f->getBody());
      return o;
    }
    if(auto * f = dyn_cast<CXXForRangeStmt>(s))
    {
      o["k"] = "ForRange";
      o["lid"] = loopId(s);
      o["range"] = expr(f->getRangeInit());
      o["rangevar"] = stmtOrNull(f->getRangeStmt());
      o["begin"] = stmtOrNull(f->getBeginStmt());
      o["end"] = stmtOrNull(f->getEndStmt());
      o["c"] = f->getCond() ? expr(f->getCond()) : Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : Value(nullptr);
      o["var"] = varDecl(f->getLoopVariable());
      o["body"] = stmtOrNull(f->getBody());
      return o;
    }
    if(auto * r = dyn_cast<ReturnStmt>(s))
    {
      o["k"] = "Return";
      o["e"] = r->getRetValue() ? expr(r->getRetValue()) : Value(nullptr);
      return o;
    }
    if(isa<BreakStmt>(s))
    {
      o["k"] = "Break";
      return o;
    }
    if(isa<ContinueStmt>(s))
    {
      o["k"] = "Continue";
      return o;
    }
    if(isa<NullStmt>(s))
    {
      o["k"] = "Null";
      return o;
    }
    if(auto * w = dyn_cast<SwitchStmt>(s))
    {
      o["k"] = "Switch";
      if(w->getInit())
        o["init"] = stmt(w->getInit());
      o["c"] = expr(w->getCond());
      o["body"] = stmtOrNull(w->getBody());
      return o;
    }
    if(auto * c = dyn_cast<CaseStmt>(s))
    {
      o["k"] = "Case";
      o["v"] = expr(c->getLHS());
      Expr::EvalResult R;
      if(c->getLHS()->EvaluateAsInt(R, C))
        o["cv"] = R.Val.getInt().getSExtValue();
      o["sub"] = stmtOrNull(c->getSubStmt());
      return o;
    }
    if(auto * c = dyn_cast<DefaultStmt>(s))
    {
      o["k"] = "Default";
      o["sub"] = stmtOrNull(c->getSubStmt());
      return o;
    }
    if(auto * t = dyn_cast<CXXTryStmt>(s))
    {
      o["k"] = "Try";
      o["body"] = stmt(t->getTryBlock());
      Array hs;
      for(unsigned i = 0; i < t->getNumHandlers(); ++i)
      {
        auto * h = t->getHandler(i);
        Object ho{{"t", h->getExceptionDecl() ? ty(h->getCaughtType()) : std::string("...")},
                  {"body", stmt(h->getHandlerBlock())}};
        if(h->getExceptionDecl())
          ho["var"] = varDecl(h->getExceptionDecl());
        hs.push_back(std::move(ho));
      }
      o["handlers"] = std::move(hs);
      return o;
    }
    if(auto * a = dyn_cast<AttributedStmt>(s))
      return stmt(a->getSubStmt());
    o["k"] = "UnsupportedStmt";
    o["cls"] = s->getStmtClassName();
    return o;
  }
  int loopCounter = 0;
  int loopId(const Stmt *) { return loopCounter++; }

  const Expr * strip(const Expr * e)
  {
    while(true)
    {
      if(auto * p = dyn_cast<ParenExpr>(e))
        e = p->getSubExpr();
      else if(auto * p = dyn_cast<ExprWithCleanups>(e))
        e = p->getSubExpr();
      else if(auto * p = dyn_cast<CXXBindTemporaryExpr>(e))
        e = p->getSubExpr();
      else if(auto * p = dyn_cast<ConstantExpr>(e))
        e = p->getSubExpr();
      else if(auto * p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
        e = p->getReplacement();
      else if(auto * p = dyn_cast<CXXDefaultArgExpr>(e))
        e = p->getExpr();
      else if(auto * p = dyn_cast<CXXDefaultInitExpr>(e))
        e = p->getExpr();
      else if(auto * p = dyn_cast<ChooseExpr>(e))
        e = p->getChosenSubExpr();
      else
        break;
    }
    return e;
  }

  Value expr(const Expr * e0)
  {
    const Expr * e = strip(e0);
    Object o;
    o["t"] = ty(e->getType());
    o["vc"] = e->isLValue() ? "l" : (e->isXValue() ? "x" : "r");
    if(e->getBeginLoc().isValid())
      o["loc"] = loc(e->getBeginLoc());
    if(auto * x = dyn_cast<MaterializeTemporaryExpr>(e))
    {
      o["k"] = "Temp";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if(auto * x = dyn_cast<IntegerLiteral>(e))
    {
      o["k"] = "Int";
      o["v"] = (x->getValue().getBitWidth() <= 64) ? x->getValue().getSExtValue() : 0;
      return o;
    }
    if(auto * x = dyn_cast<CharacterLiteral>(e))
    {
      o["k"] = "Int";
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if(auto * x = dyn_cast<FloatingLiteral>(e))
    {
      o["k"] = "Float";
      llvm::SmallString<40> s;
      x->getValue().toString(s, 40, 0);
      o["v"] = std::string(s.str());
      return o;
    }
    if(auto * x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      o["k"] = "Bool";
      o["v"] = x->getValue();
      return o;
    }
    if(auto * x = dyn_cast<clang::StringLiteral>(e))
    {
      o["k"] = "Str";
      o["v"] = x->isOrdinary() && llvm::json::isUTF8(x->getString()) ? x->getString().str() : std::string("?");
      return o;
    }
    if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
    {
      o["k"] = "Null";
      return o;
    }
    if(isa<CXXThisExpr>(e))
    {
      o["k"] = "This";
      return o;
    }
    if(auto * x = dyn_cast<DeclRefExpr>(e))
    {
      auto * d = x->getDecl();
      o["k"] = "Ref";
      o["id"] = id(d);
      o["name"] = d->getNameAsString();
      if(auto * f = dyn_cast<FunctionDecl>(d))
      {
        o["dk"] = "fn";
        o["fn"] = fnRef(f);
      }
      else if(auto * ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["dk"] = "enum";
        o["v"] = ec->getInitVal().getSExtValue();
        o["qual"] = ec->getQualifiedNameAsString();
        noteEnum(cast<EnumDecl>(ec->getDeclContext()));
      }
      else if(auto * v = dyn_cast<VarDecl>(d))
      {
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : "var";
        o["qual"] = v->getQualifiedNameAsString();
        o["global"] = v->hasGlobalStorage();
        o["vt"] = ty(v->getType());
        if(v->hasGlobalStorage() && v->getType().isConstQualified())
        {
          Expr::EvalResult R;
          const VarDecl * dv = nullptr;
          if(auto * in = v->getAnyInitializer(dv))
          {
            if(!in->isValueDependent() && v->getType()->isIntegralOrEnumerationType() && in->EvaluateAsInt(R, C))
              o["cv"] = R.Val.getInt().getSExtValue();
            else if(inRoots(v->getLocation()))
              o["ginit"] = expr(in);
          }
        }
      }
      else if(auto * b = dyn_cast<BindingDecl>(d))
      {
        o["dk"] = "binding";
        (void)b;
      }
      else
        o["dk"] = "other";
      return o;
    }
    if(auto * x = dyn_cast<MemberExpr>(e))
    {
      auto * d = x->getMemberDecl();
      o["k"] = "Member";
      o["name"] = d->getNameAsString();
      o["arrow"] = x->isArrow();
      o["b"] = expr(x->getBase());
      if(auto * f = dyn_cast<FieldDecl>(d))
      {
        o["mk"] = "field";
        if(auto * r = dyn_cast<CXXRecordDecl>(f->getParent()))
          o["cls"] = recName(r);
        o["ft"] = ty(f->getType());
      }
      else if(auto * f = dyn_cast<CXXMethodDecl>(d))
      {
        o["mk"] = "method";
        o["fn"] = fnRef(f);
      }
      else if(auto * v = dyn_cast<VarDecl>(d))
      {
        o["mk"] = "static";
        o["qual"] = v->getQualifiedNameAsString();
        o["id"] = id(v);
        Expr::EvalResult R;
        const VarDecl * dv = nullptr;
        if(v->getType().isConstQualified())
          if(auto * in = v->getAnyInitializer(dv))
            if(v->getType()->isIntegralOrEnumerationType() && in->EvaluateAsInt(R, C))
              o["cv"] = R.Val.getInt().getSExtValue();
      }
      else if(auto * ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["mk"] = "enum";
        o["v"] = ec->getInitVal().getSExtValue();
      }
      else
        o["mk"] = "other";
      return o;
    }
    if(auto * x = dyn_cast<CXXMemberCallExpr>(e))
    {
      o["k"] = "MCall";
      auto * m = x->getMethodDecl();
      if(m)
      {
        o["fn"] = fnRef(m);
        // a qualified call (A::f()) is not dispatched virtually
        if(auto * me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
        {
          o["qualified"] = me->hasQualifier();
          o["arrow"] = me->isArrow();
        }
      }
      else
        o["calleeExpr"] = expr(x->getCallee());
      if(x->getImplicitObjectArgument())
        o["obj"] = expr(x->getImplicitObjectArgument());
      o["args"] = args(x);
      return o;
    }
    if(auto * x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if(auto * f = x->getDirectCallee())
        o["fn"] = fnRef(f);
      o["args"] = args(x);
      return o;
    }
    if(auto * x = dyn_cast<CallExpr>(e))
    {
      o["k"] = "Call";
      if(auto * f = x->getDirectCallee())
        o["fn"] = fnRef(f);
      else
        o["calleeExpr"] = expr(x->getCallee());
      o["args"] = args(x);
      return o;
    }
    if(auto * x = dyn_cast<CXXConstructExpr>(e)) // also CXXTemporaryObjectExpr
    {
      o["k"] = "Construct";
      o["fn"] = fnRef(x->getConstructor());
      o["elidable"] = x->isElidable();
      o["cls"] = recName(x->getConstructor()->getParent());
      o["copymove"] = x->getConstructor()->isCopyOrMoveConstructor();
      o["copy"] = x->getConstructor()->isCopyConstructor();
      o["defaulted"] = x->getConstructor()->isDefaulted();
      o["implicitdef"] = x->getConstructor()->isImplicit();
      o["listinit"] = x->isListInitialization();
      o["zeroinit"] = x->requiresZeroInitialization();
      Array a;
      for(unsigned i = 0; i < x->getNumArgs(); ++i)
        a.push_back(expr(x->getArg(i)));
      o["args"] = std::move(a);
      return o;
    }
    if(auto * x = dyn_cast<CXXInheritedCtorInitExpr>(e))
    {
      o["k"] = "InheritedCtor";
      o["fn"] = fnRef(x->getConstructor());
      o["cls"] = recName(x->getConstructor()->getParent());
      return o;
    }
    if(auto * x = dyn_cast<CastExpr>(e))
    {
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
      o["explicit"] = isa<ExplicitCastExpr>(x);
      return o;
    }
    if(auto * x = dyn_cast<UnaryOperator>(e))
    {
      o["k"] = "Unary";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["postfix"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if(auto * x = dyn_cast<CompoundAssignOperator>(e))
    {
      o["k"] = "CAssign";
      o["op"] = x->getOpcodeStr();
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      o["ct"] = ty(x->getComputationResultType());
      return o;
    }
    if(auto * x = dyn_cast<BinaryOperator>(e))
    {
      o["k"] = "Binary";
      o["op"] = x->getOpcodeStr();
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      return o;
    }
    if(auto * x = dyn_cast<ConditionalOperator>(e))
    {
      o["k"] = "Cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if(auto * x = dyn_cast<ArraySubscriptExpr>(e))
    {
      o["k"] = "Index";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if(auto * x = dyn_cast<InitListExpr>(e))
    {
      o["k"] = "InitList";
      Array a;
      for(unsigned i = 0; i < x->getNumInits(); ++i)
        a.push_back(expr(x->getInit(i)));
      o["inits"] = std::move(a);
      return o;
    }
    if(auto * x = dyn_cast<CXXStdInitializerListExpr>(e))
    {
      o["k"] = "StdInitList";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if(auto * x = dyn_cast<LambdaExpr>(e))
    {
      o["k"] = "Lambda";
      Array caps;
      for(auto & c : x->captures())
      {
        Object co;
        if(c.capturesThis())
          co["this"] = true;
        else if(c.capturesVariable())
        {
          co["id"] = id(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["captures"] = std::move(caps);
      auto * m = x->getCallOperator();
      if(x->isGenericLambda())
      {
        o["generic"] = true;
        Array insts;
        if(auto * t = x->getDependentCallOperator() ? x->getCallOperator()->getDescribedFunctionTemplate() : nullptr)
          for(auto * s : t->specializations())
          {
            const FunctionDecl * def = nullptr;
            if(s->hasBody(def))
              insts.push_back(fnBody(def));
          }
        o["insts"] = std::move(insts);
        o["lid"] = id(x->getLambdaClass());
      }
      else
      {
        o["fnbody"] = fnBody(m);
        o["lid"] = id(x->getLambdaClass());
      }
      return o;
    }
    if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
    {
      o["k"] = "ZeroInit";
      return o;
    }
    if(auto * x = dyn_cast<CXXThrowExpr>(e))
    {
      o["k"] = "Throw";
      o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : Value(nullptr);
      return o;
    }
    if(auto * x = dyn_cast<CXXNewExpr>(e))
    {
      o["k"] = "New";
      o["at"] = ty(x->getAllocatedType());
      if(x->getNumPlacementArgs() == 1) o["pl"] = expr(x->getPlacementArg(0));
      o["e"] = x->getInitializer() ? expr(x->getInitializer())
                                   : (x->getConstructExpr() ? expr(x->getConstructExpr()) : Value(nullptr));
      return o;
    }
    if(auto * x = dyn_cast<CXXDeleteExpr>(e))
    {
      o["k"] = "Delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    {
      Expr::EvalResult R;
      if(!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C))
      {
        o["k"] = "Int";
        o["v"] = R.Val.getInt().getSExtValue();
        if(e->getType()->isBooleanType())
        {
          o["k"] = "Bool";
          o["v"] = R.Val.getInt().getSExtValue() != 0;
        }
        return o;
      }
    }
    o["k"] = "UnsupportedExpr";
    o["cls"] = e->getStmtClassName();
    return o;
  }
  Array args(const CallExpr * x)
  {
    Array a;
    for(unsigned i = 0; i < x->getNumArgs(); ++i)
      a.push_back(expr(x->getArg(i)));
    return a;
  }

  Value fnBody(const FunctionDecl * f)
  {
    Object o = fnRef(f);
    o["loc"] = loc(f->getLocation());
    {
      auto & SM = C.getSourceManager();
      auto b = SM.getExpansionLoc(f->getBeginLoc()), en = SM.getExpansionLoc(f->getEndLoc());
      o["l0"] = (int64_t)SM.getSpellingLineNumber(b);
      o["l1"] = (int64_t)SM.getSpellingLineNumber(en);
    }
    int save = loopCounter;
    loopCounter = 0;
    Array ps;
    for(auto * p : f->parameters())
      ps.push_back(Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", ty(p->getType())}});
    o["params"] = std::move(ps);
    o["implicit"] = f->isImplicit();
    o["defaulted"] = f->isDefaulted();
    if(auto * c = dyn_cast<CXXConstructorDecl>(f))
    {
      o["ctor"] = true;
      Array is;
      for(auto * i : c->inits())
      {
        Object io;
        if(i->isBaseInitializer())
        {
          io["base"] = ty(QualType(i->getBaseClass(), 0));
        }
        else if(i->isDelegatingInitializer())
          io["delegate"] = true;
        else if(i->isAnyMemberInitializer())
        {
          io["member"] = i->getAnyMember()->getNameAsString();
          io["mt"] = ty(i->getAnyMember()->getType());
        }
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if(isa<CXXDestructorDecl>(f))
      o["dtor"] = true;
    o["body"] = stmtOrNull(f->getBody());
    loopCounter = save;
    return o;
  }
};

struct V : RecursiveASTVisitor<V>
{
  X & x;
  V(X & x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl * f)
  {
    if(f->doesThisDeclarationHaveABody() && !f->isDependentContext() && !f->isTemplated())
    {
      if(auto * m = dyn_cast<CXXMethodDecl>(f))
        if(m->getParent()->isLambda())
          return true;
      x.noteFn(f);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * r)
  {
    if(r->isThisDeclarationADefinition() && !r->isDependentContext() && x.inRoots(r->getLocation()))
      x.noteRecord(r);
    return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext & C) override
  {
    X x(C);
    V v(x);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Array fns;
    for(size_t i = 0; i < x.fnQueue.size(); ++i)
      fns.push_back(x.fnBody(x.fnQueue[i]));
    x.emitRecords();
    std::error_code ec;
    llvm::raw_fd_ostream os(outFile, ec);
    os << Value(Object{{"functions", std::move(fns)}, {"records", std::move(x.records)}, {"enums", std::move(x.enums)}});
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  { return std::make_unique<Consumer>(); }
};

int main(int argc, char ** argv)
{
  if(argc < 4)
    return 2;
  outFile = argv[1];
  {
    std::string r = argv[2], cur;
    for(char c : r + ",")
      if(c == ',')
      {
        if(!cur.empty())
          roots.push_back(cur);
        cur.clear();
      }
      else
        cur += c;
  }
  std::string src = argv[3];
  std::vector<std::string> a;
  for(int i = 5; i < argc; ++i)
    a.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", a);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
