// nsasm-export: dumps the resolved (type-checked) AST of every function that is
// defined in the analysed repository as JSON.  Only facts the compiler's front
// end computed are written: resolved callees, canonical types, implicit casts,
// template instantiations, class hierarchy and initialisers.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root;   // repo root, with trailing '/'
static std::string g_out;

namespace {

std::string Usr(const Decl *D) {
  llvm::SmallString<256> buf;
  if (index::generateUSRForDecl(D, buf)) return "?" + std::to_string((uintptr_t)D);
  return std::string(buf.str());
}

class Dumper {
 public:
  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = false;
  }

  json::Array types;
  json::Object funcs, records, enums, globals;

  void run() {
    for (auto *D : Ctx.getTranslationUnitDecl()->decls()) walkDecl(D);
    // follow the work list: functions of the repo referenced through templates
    while (!pending.empty()) {
      const FunctionDecl *F = pending.back();
      pending.pop_back();
      emitFunction(F);
    }
  }

 private:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIds;
  std::map<const Decl *, int> localIds;
  std::vector<const FunctionDecl *> pending;
  std::set<const FunctionDecl *> seen;
  std::set<std::string> seenRec, seenEnum, seenGlob;

  std::string fileOf(SourceLocation L, unsigned *line = nullptr) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    if (line) *line = P.getLine();
    std::string f = P.getFilename();
    llvm::SmallString<256> abs(f);
    llvm::sys::fs::make_absolute(abs);
    llvm::sys::path::remove_dots(abs, true);
    f = std::string(abs.str());
    if (f.rfind(g_root, 0) == 0) return f.substr(g_root.size());
    // the specification's own stand-ins
    static const std::string spec = "/props/inst.cc";
    if (f.size() > spec.size() && f.compare(f.size() - spec.size(), spec.size(), spec) == 0) return "(spec)/inst.cc";
    return "";
  }
  bool inRepo(SourceLocation L) { return !fileOf(L).empty(); }

  int lid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    int n = (int)localIds.size() + 1;
    localIds[D] = n;
    return n;
  }

  // ---- declarations ----
  void walkDecl(Decl *D) {
    if (auto *NS = dyn_cast<NamespaceDecl>(D)) {
      for (auto *S : NS->decls()) walkDecl(S);
    } else if (auto *LS = dyn_cast<LinkageSpecDecl>(D)) {
      for (auto *S : LS->decls()) walkDecl(S);
    } else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
      if (!inRepo(FT->getLocation())) return;
      for (auto *S : FT->specializations()) enqueue(S);
    } else if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
      if (!inRepo(CT->getLocation())) return;
      for (auto *S : CT->specializations()) walkRecord(S);
    } else if (auto *R = dyn_cast<CXXRecordDecl>(D)) {
      if (!inRepo(R->getLocation())) return;
      walkRecord(R);
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (inRepo(F->getLocation())) enqueue(F);
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (inRepo(V->getLocation())) emitGlobal(V);
    } else if (auto *E = dyn_cast<EnumDecl>(D)) {
      if (inRepo(E->getLocation())) emitEnum(E);
    }
  }
  void walkRecord(CXXRecordDecl *R) {
    if (R->isDependentContext()) return;
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    emitRecord(R);
    for (auto *D : R->decls()) {
      if (auto *F = dyn_cast<FunctionDecl>(D)) enqueue(F);
      else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
        for (auto *S : FT->specializations()) enqueue(S);
      } else if (auto *N = dyn_cast<CXXRecordDecl>(D)) {
        if (!N->isInjectedClassName()) walkRecord(N);
      } else if (auto *E = dyn_cast<EnumDecl>(D)) emitEnum(E);
      else if (auto *V = dyn_cast<VarDecl>(D)) emitGlobal(V);
      else if (auto *FD = dyn_cast<FriendDecl>(D)) {
        if (auto *ND = FD->getFriendDecl()) {
          if (auto *F2 = dyn_cast<FunctionDecl>(ND)) enqueue(F2);
          if (auto *FT2 = dyn_cast<FunctionTemplateDecl>(ND))
            for (auto *S : FT2->specializations()) enqueue(S);
        }
      }
    }
  }
  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def)) F = Def;
    if (!seen.insert(F).second) return;
    pending.push_back(F);
  }

  void emitEnum(const EnumDecl *E) {
    if (!E->getDefinition()) return;
    E = E->getDefinition();
    std::string u = qual(E);
    if (!seenEnum.insert(u).second) return;
    json::Array cs;
    for (auto *C : E->enumerators())
      cs.push_back(json::Array{C->getNameAsString(), (int64_t)C->getInitVal().getExtValue()});
    unsigned line = 0;
    std::string f = fileOf(E->getLocation(), &line);
    enums[u] = json::Object{{"consts", std::move(cs)}, {"u", type(E->getIntegerType())}, {"file", f}, {"line", line}};
  }

  std::string qual(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  void emitRecord(const CXXRecordDecl *R) {
    std::string u = recName(R);
    if (!seenRec.insert(u).second) return;
    json::Array fs, bs, ms;
    for (auto *F : R->fields()) {
      json::Object o{{"name", F->getNameAsString()}, {"t", type(F->getType())}};
      if (F->isBitField()) o["bits"] = (int64_t)F->getBitWidthValue(Ctx);
      if (F->getInClassInitializer()) o["init"] = expr(F->getInClassInitializer());
      if (F->isAnonymousStructOrUnion()) o["anon"] = true;
      o["mutable"] = F->isMutable();
      o["access"] = (int64_t)F->getAccess();
      fs.push_back(std::move(o));
    }
    for (auto &B : R->bases()) bs.push_back(type(B.getType()));
    for (auto *M : R->methods()) {
      json::Object o{{"usr", Usr(M)}, {"name", M->getNameAsString()}, {"virt", M->isVirtual()},
                     {"pure", M->isPureVirtual()}, {"def", M->isDefaulted()}, {"del", M->isDeleted()}};
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(Usr(O));
      if (!ov.empty()) o["over"] = std::move(ov);
      ms.push_back(std::move(o));
    }
    unsigned line = 0;
    std::string f = fileOf(R->getLocation(), &line);
    records[u] = json::Object{{"fields", std::move(fs)}, {"bases", std::move(bs)}, {"methods", std::move(ms)},
                              {"file", f}, {"line", line}, {"union", R->isUnion()}, {"lambda", R->isLambda()}};
  }

  void emitGlobal(const VarDecl *V) {
    if (V->getDeclContext()->isDependentContext()) return;
    const VarDecl *D = V->getInitializingDeclaration();
    if (!D) D = V;
    std::string u = Usr(D);
    if (!seenGlob.insert(u).second) return;
    unsigned line = 0;
    std::string f = fileOf(D->getLocation(), &line);
    json::Object o{{"name", qual(D)}, {"t", type(D->getType())}, {"file", f}, {"line", line},
                   {"const", D->getType().isConstQualified() || D->isConstexpr()}};
    if (D->hasInit()) o["init"] = expr(D->getInit());
    globals[u] = std::move(o);
  }

  std::string recName(const CXXRecordDecl *R) {
    QualType T = Ctx.getRecordType(R);
    std::string s = T.getCanonicalType().getAsString(PP);
    if (R->isLambda() || !R->getIdentifier()) s = Usr(R);
    else if (R->getParentFunctionOrMethod()) {
      // named as the qualified names of its members name it
      if (auto *D = R->getDefinition())
        for (auto *M : D->methods()) {
          std::string q = qual(M), n = M->getNameAsString();
          if (q.size() > n.size() + 2) return q.substr(0, q.size() - n.size() - 2);
        }
      s = Usr(R);
    }
    return s;
  }

  // a named record local to a function that the type mentions
  const CXXRecordDecl *localIn(QualType T) {
    for (;;) {
      if (auto *P = T->getAs<PointerType>()) T = P->getPointeeType();
      else if (auto *P2 = T->getAs<ReferenceType>()) T = P2->getPointeeType();
      else if (auto *A = T->getAsArrayTypeUnsafe()) T = A->getElementType();
      else break;
    }
    auto *RT = T->getAs<RecordType>();
    if (!RT) return nullptr;
    auto *R = dyn_cast<CXXRecordDecl>(RT->getDecl());
    if (!R || R->isLambda() || !R->getIdentifier()) return nullptr;
    if (R->getParentFunctionOrMethod()) return R;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
      for (auto &X : S->getTemplateArgs().asArray())
        if (X.getKind() == TemplateArgument::Type)
          if (auto *L = localIn(X.getAsType())) return L;
    return nullptr;
  }

  // ---- types ----
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string key = T.getAsString(PP);
    if (auto *RT = T->getAs<RecordType>())
      if (auto *R = dyn_cast<CXXRecordDecl>(RT->getDecl()))
        if (R->isLambda() || !R->getIdentifier())
          key = (T.isConstQualified() ? "const " : "") + Usr(R);
    if (auto *L = localIn(T)) {
      auto *RT = T->getAs<RecordType>();
      if (RT && RT->getDecl() == L) key = (T.isConstQualified() ? "const " : "") + recName(L);
      else key += " [" + recName(L) + "]";
    }
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = key;
    if (T.isConstQualified()) o["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (U->isVoidType()) o["k"] = "void";
    else if (U->isBooleanType()) o["k"] = "bool";
    else if (auto *ET = U->getAs<EnumType>()) {
      o["k"] = "enum";
      o["name"] = qual(ET->getDecl());
      QualType I = ET->getDecl()->getIntegerType();
      if (!I.isNull()) {
        o["w"] = (int64_t)Ctx.getIntWidth(I);
        o["sg"] = I->isSignedIntegerType();
        // without a fixed underlying type and without negative enumerators
      } else { o["w"] = 32; o["sg"] = false; }
      o["fixed"] = ET->getDecl()->isFixed();
    } else if (U->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)Ctx.getIntWidth(U);
      o["sg"] = U->isSignedIntegerType();
      if (U->isCharType()) o["char"] = true;
    } else if (U->isRealFloatingType()) o["k"] = "float";
    else if (U->isNullPtrType()) o["k"] = "nullptr";
    else if (auto *PT = U->getAs<PointerType>()) { o["k"] = "ptr"; o["to"] = type(PT->getPointeeType()); }
    else if (auto *RT = U->getAs<ReferenceType>()) {
      o["k"] = "ref"; o["to"] = type(RT->getPointeeType()); o["rv"] = U->isRValueReferenceType();
    } else if (auto *AT = Ctx.getAsConstantArrayType(U)) {
      o["k"] = "arr"; o["to"] = type(AT->getElementType()); o["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (auto *AT2 = Ctx.getAsArrayType(U)) {
      o["k"] = "arr"; o["to"] = type(AT2->getElementType()); o["n"] = -1;
    } else if (U->isFunctionType()) {
      o["k"] = "fn";
      if (auto *FPT = U->getAs<FunctionProtoType>()) o["ret"] = type(FPT->getReturnType());
    } else if (auto *RT2 = U->getAs<RecordType>()) {
      o["k"] = "rec";
      auto *R = cast<CXXRecordDecl>(RT2->getDecl());
      o["rec"] = recName(R);
      o["name"] = (R->isLambda() || !R->getIdentifier()) ? Usr(R) : qual(R);
      if (R->isLambda()) o["lambda"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array as;
        tmplArgs(S->getTemplateArgs().asArray(), as);
        o["args"] = std::move(as);
      }
      if (inRepo(R->getLocation()) && R->hasDefinition() && !R->isDependentContext()) {
        o["repo"] = true;
        types[id] = json::Value(json::Object(o));
        emitRecord(R->getDefinition());
        for (auto *M : R->getDefinition()->methods())
          if (M->hasBody()) enqueue(M);
      }
    } else { o["k"] = "other"; }
    types[id] = std::move(o);
    return id;
  }
  void tmplArgs(llvm::ArrayRef<TemplateArgument> A, json::Array &as) {
    for (auto &X : A) {
      if (X.getKind() == TemplateArgument::Type) as.push_back(type(X.getAsType()));
      else if (X.getKind() == TemplateArgument::Integral) as.push_back(json::Object{{"i", X.getAsIntegral().getExtValue()}});
      else if (X.getKind() == TemplateArgument::Pack) tmplArgs(X.pack_elements(), as);
      else as.push_back(nullptr);
    }
  }

  // ---- functions ----
  void emitFunction(const FunctionDecl *F) {
    unsigned line = 0;
    std::string file = fileOf(F->getLocation(), &line);
    if (file.empty()) {
      if (F->getTemplateInstantiationPattern()) file = fileOf(F->getTemplateInstantiationPattern()->getLocation(), &line);
    }
    json::Object o;
    o["name"] = F->getNameAsString();
    o["qual"] = qual(F);
    o["file"] = file;
    o["line"] = line;
    o["ret"] = type(F->getReturnType());
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p{{"id", lid(P)}, {"name", P->getNameAsString()}, {"t", type(P->getType())}};
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) p["def"] = expr(P->getDefaultArg());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["static"] = false;
    if (auto *A = F->getPrimaryTemplate() ? F->getTemplateSpecializationArgs() : nullptr) {
      json::Array as; tmplArgs(A->asArray(), as); o["targs"] = std::move(as);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      o["clst"] = type(Ctx.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["virt"] = M->isVirtual();
      o["constm"] = M->isConst();
      o["refq"] = (int64_t)M->getRefQualifier();
    }
    o["defaulted"] = F->isDefaulted();
    o["deleted"] = F->isDeleted();
    if (F->isNoReturn()) o["noreturn"] = true;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      o["copy"] = C->isCopyConstructor();
      o["move"] = C->isMoveConstructor();
      json::Array is;
      for (auto *I : C->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) io["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def == F && F->getBody()) o["body"] = stmt(F->getBody());
    std::string u = Usr(F);
    o["usr"] = u;
    // USRs of specialisations are unique; keep the first body we see.
    auto it = funcs.find(u);
    if (it != funcs.end()) {
      if (it->second.getAsObject()->get("body") || !o.get("body")) return;
    }
    funcs[u] = std::move(o);
  }

  json::Value fnref(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    bool repo = inRepo(F->getLocation()) ||
                (F->getTemplateInstantiationPattern() && inRepo(F->getTemplateInstantiationPattern()->getLocation()));
    if (repo) enqueue(F->hasBody(Def) ? Def : F);
    json::Object o{{"usr", Usr(F->hasBody(Def) ? Def : F)}, {"q", qual(F)}, {"n", F->getNameAsString()}};
    if (repo) o["repo"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["constm"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (M->isDefaulted()) o["defd"] = true;
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (C->isCopyConstructor()) o["copy"] = true;
      if (C->isMoveConstructor()) o["move"] = true;
      if (C->isDefaultConstructor()) o["dflt"] = true;
    }
    if (F->getOverloadedOperator() != OO_None) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *A = F->getTemplateSpecializationArgs()) {
      json::Array as; tmplArgs(A->asArray(), as); o["targs"] = std::move(as);
    }
    json::Array pt;
    for (auto *P : F->parameters()) pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = type(F->getReturnType());
    if (F->isNoReturn()) o["noreturn"] = true;
    if (F->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    return std::move(o);
  }

  json::Object mk(const char *k, const Stmt *S) {
    json::Object o{{"k", k}};
    unsigned line = 0;
    std::string f = fileOf(S->getBeginLoc(), &line);
    if (!f.empty()) o["l"] = line;
    return o;
  }

  json::Value vardecl(const VarDecl *V) {
    json::Object o{{"id", lid(V)}, {"name", V->getNameAsString()}, {"t", type(V->getType())}};
    unsigned line = 0;
    fileOf(V->getLocation(), &line);
    o["l"] = line;
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto *B : D->bindings()) {
        json::Object b{{"id", lid(B)}, {"name", B->getNameAsString()}, {"t", type(B->getType())}};
        if (B->getBinding()) b["e"] = expr(B->getBinding());
        if (B->getHoldingVar()) { b["hold"] = vardecl(B->getHoldingVar()); }
        bs.push_back(std::move(b));
      }
      o["bind"] = std::move(bs);
    }
    return std::move(o);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o = mk("expr", S);
      o["e"] = expr(E);
      return std::move(o);
    }
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        json::Object o = mk("block", S);
        json::Array a;
        for (auto *C : cast<CompoundStmt>(S)->body()) a.push_back(stmt(C));
        o["b"] = std::move(a);
        unsigned line = 0; fileOf(S->getEndLoc(), &line); o["el"] = line;
        return std::move(o);
      }
      case Stmt::DeclStmtClass: {
        json::Object o = mk("decl", S);
        json::Array a;
        for (auto *D : cast<DeclStmt>(S)->decls()) {
          if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(vardecl(V));
          else if (auto *R = dyn_cast<CXXRecordDecl>(D)) walkRecord(const_cast<CXXRecordDecl *>(R));
          else if (auto *E = dyn_cast<EnumDecl>(D)) emitEnum(E);
        }
        o["d"] = std::move(a);
        return std::move(o);
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S);
        json::Object o = mk("if", S);
        if (I->getInit()) o["init"] = stmt(I->getInit());
        if (I->getConditionVariable()) o["var"] = vardecl(I->getConditionVariable());
        if (I->isConstexpr()) o["cx"] = true;
        o["c"] = expr(I->getCond());
        o["t"] = stmt(I->getThen());
        if (I->getElse()) o["e"] = stmt(I->getElse());
        return std::move(o);
      }
      case Stmt::WhileStmtClass: {
        auto *W = cast<WhileStmt>(S);
        json::Object o = mk("while", S);
        if (W->getConditionVariable()) o["var"] = vardecl(W->getConditionVariable());
        o["c"] = expr(W->getCond());
        o["b"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::DoStmtClass: {
        auto *W = cast<DoStmt>(S);
        json::Object o = mk("do", S);
        o["c"] = expr(W->getCond());
        o["b"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S);
        json::Object o = mk("for", S);
        if (F->getInit()) o["init"] = stmt(F->getInit());
        if (F->getConditionVariable()) o["var"] = vardecl(F->getConditionVariable());
        if (F->getCond()) o["c"] = expr(F->getCond());
        if (F->getInc()) o["inc"] = expr(F->getInc());
        o["b"] = stmt(F->getBody());
        return std::move(o);
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *F = cast<CXXForRangeStmt>(S);
        json::Object o = mk("rfor", S);
        if (F->getInit()) o["init"] = stmt(F->getInit());
        o["range"] = stmt(F->getRangeStmt());
        o["begin"] = stmt(F->getBeginStmt());
        o["end"] = stmt(F->getEndStmt());
        o["c"] = expr(F->getCond());
        o["inc"] = expr(F->getInc());
        o["var"] = stmt(F->getLoopVarStmt());
        o["b"] = stmt(F->getBody());
        return std::move(o);
      }
      case Stmt::SwitchStmtClass: {
        auto *W = cast<SwitchStmt>(S);
        json::Object o = mk("switch", S);
        if (W->getInit()) o["init"] = stmt(W->getInit());
        if (W->getConditionVariable()) o["var"] = vardecl(W->getConditionVariable());
        o["c"] = expr(W->getCond());
        o["b"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::CaseStmtClass: {
        auto *C = cast<CaseStmt>(S);
        json::Object o = mk("case", S);
        Expr::EvalResult R;
        if (C->getLHS()->EvaluateAsInt(R, Ctx)) o["v"] = R.Val.getInt().getExtValue();
        if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx)) o["v2"] = R.Val.getInt().getExtValue();
        o["s"] = stmt(C->getSubStmt());
        return std::move(o);
      }
      case Stmt::DefaultStmtClass: {
        json::Object o = mk("default", S);
        o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
        return std::move(o);
      }
      case Stmt::BreakStmtClass: return mk("break", S);
      case Stmt::ContinueStmtClass: return mk("continue", S);
      case Stmt::NullStmtClass: return mk("null", S);
      case Stmt::ReturnStmtClass: {
        json::Object o = mk("return", S);
        if (auto *E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(E);
        return std::move(o);
      }
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
      case Stmt::LabelStmtClass: {
        json::Object o = mk("label", S);
        o["id"] = lid(cast<LabelStmt>(S)->getDecl());
        o["s"] = stmt(cast<LabelStmt>(S)->getSubStmt());
        return std::move(o);
      }
      case Stmt::GotoStmtClass: {
        json::Object o = mk("goto", S);
        o["id"] = lid(cast<GotoStmt>(S)->getLabel());
        return std::move(o);
      }
      case Stmt::CXXTryStmtClass: {
        auto *T = cast<CXXTryStmt>(S);
        json::Object o = mk("try", S);
        o["b"] = stmt(T->getTryBlock());
        return std::move(o);
      }
      default: {
        json::Object o = mk("other", S);
        o["cls"] = S->getStmtClassName();
        return std::move(o);
      }
    }
  }

  json::Object mke(const char *k, const Expr *E) {
    json::Object o = mk(k, E);
    o["t"] = type(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    if (E->isXValue()) o["xv"] = true;
    return o;
  }

  json::Value args(llvm::ArrayRef<const Expr *> A) {
    json::Array a;
    for (auto *E : A) a.push_back(expr(E));
    return std::move(a);
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
      // transparent wrappers
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
      case Stmt::CXXStdInitializerListExprClass: {
        json::Object o = mke("stdinit", E);
        o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
        return std::move(o);
      }
      case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
      case Stmt::MaterializeTemporaryExprClass: {
        json::Object o = mke("tmp", E);
        o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
        return std::move(o);
      }
      case Stmt::IntegerLiteralClass: {
        json::Object o = mke("int", E);
        auto V = cast<IntegerLiteral>(E)->getValue();
        o["v"] = V.getBitWidth() <= 64 ? (E->getType()->isSignedIntegerType() ? V.getSExtValue() : (int64_t)V.getZExtValue()) : 0;
        return std::move(o);
      }
      case Stmt::CharacterLiteralClass: {
        json::Object o = mke("int", E);
        o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
        return std::move(o);
      }
      case Stmt::CXXBoolLiteralExprClass: {
        json::Object o = mke("int", E);
        o["v"] = (int64_t)(cast<CXXBoolLiteralExpr>(E)->getValue() ? 1 : 0);
        return std::move(o);
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: return mke("null", E);
      case Stmt::FloatingLiteralClass: return mke("float", E);
      case Stmt::StringLiteralClass: {
        json::Object o = mke("str", E);
        auto *S = cast<StringLiteral>(E);
        if (S->getCharByteWidth() == 1) {
          std::string bytes = S->getBytes().str(), out;
          // latin-1 escape so that JSON stays valid
          for (unsigned char c : bytes) {
            if (c < 0x80) out.push_back(c);
            else { out.push_back((char)(0xc0 | (c >> 6))); out.push_back((char)(0x80 | (c & 0x3f))); }
          }
          o["v"] = out;
        }
        return std::move(o);
      }
      case Stmt::PredefinedExprClass: {
        json::Object o = mke("str", E);
        o["v"] = "__func__";
        return std::move(o);
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: {
        Expr::EvalResult R;
        json::Object o = mke("int", E);
        if (E->EvaluateAsInt(R, Ctx)) o["v"] = R.Val.getInt().getExtValue();
        return std::move(o);
      }
      case Stmt::TypeTraitExprClass: {
        json::Object o = mke("int", E);
        o["v"] = (int64_t)cast<TypeTraitExpr>(E)->getValue();
        return std::move(o);
      }
      case Stmt::DeclRefExprClass: {
        auto *D = cast<DeclRefExpr>(E)->getDecl();
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
          json::Object o = mke("int", E);
          o["v"] = (int64_t)EC->getInitVal().getExtValue();
          o["en"] = EC->getNameAsString();
          return std::move(o);
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
          json::Object o = mke("fnref", E);
          o["fn"] = fnref(F);
          return std::move(o);
        }
        json::Object o = mke("ref", E);
        o["name"] = D->getNameAsString();
        if (auto *F = dyn_cast<FieldDecl>(D)) {
          o["memf"] = F->getNameAsString();
          return std::move(o);
        }
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->isLocalVarDeclOrParm()) {
            o["id"] = lid(V);
            if (V->isStaticLocal()) o["static"] = true;
          } else {
            const VarDecl *G = V->getInitializingDeclaration();
            if (!G) G = V;
            o["g"] = Usr(G);
            if (inRepo(G->getLocation())) emitGlobal(G);
            else o["gq"] = qual(G);
          }
        } else {
          o["id"] = lid(D);  // bindings
        }
        return std::move(o);
      }
      case Stmt::CXXThisExprClass: return mke("this", E);
      case Stmt::MemberExprClass: {
        auto *M = cast<MemberExpr>(E);
        auto *D = M->getMemberDecl();
        if (auto *F = dyn_cast<FieldDecl>(D)) {
          json::Object o = mke("mem", E);
          o["b"] = expr(M->getBase());
          o["arrow"] = M->isArrow();
          o["f"] = F->getNameAsString();
          if (F->isAnonymousStructOrUnion()) o["anon"] = true;
          if (F->isBitField()) o["bits"] = (int64_t)F->getBitWidthValue(Ctx);
          return std::move(o);
        }
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object o = mke("ref", E);
          o["name"] = V->getNameAsString();
          const VarDecl *G = V->getInitializingDeclaration();
          if (!G) G = V;
          o["g"] = Usr(G);
          if (inRepo(G->getLocation())) emitGlobal(G);
          return std::move(o);
        }
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
          json::Object o = mke("int", E);
          o["v"] = (int64_t)EC->getInitVal().getExtValue();
          o["en"] = EC->getNameAsString();
          return std::move(o);
        }
        json::Object o = mke("methref", E);
        o["b"] = expr(M->getBase());
        o["arrow"] = M->isArrow();
        if (auto *F2 = dyn_cast<FunctionDecl>(D)) o["fn"] = fnref(F2);
        return std::move(o);
      }
      case Stmt::CXXMemberCallExprClass: {
        auto *C = cast<CXXMemberCallExpr>(E);
        auto *MD = C->getMethodDecl();
        json::Object o = mke("call", E);
        if (MD) o["fn"] = fnref(MD);
        const Expr *Cal = C->getCallee()->IgnoreParens();
        if (auto *M = dyn_cast<MemberExpr>(Cal)) {
          o["obj"] = expr(M->getBase());
          o["arrow"] = M->isArrow();
          if (M->hasQualifier()) o["nonvirt"] = true;
        } else {
          o.erase("fn");
          o["callee"] = expr(Cal);
        }
        json::Array a;
        for (auto *A : C->arguments()) a.push_back(expr(A));
        o["a"] = std::move(a);
        return std::move(o);
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto *C = cast<CXXOperatorCallExpr>(E);
        json::Object o = mke("call", E);
        const FunctionDecl *F = C->getDirectCallee();
        unsigned start = 0;
        if (F) {
          o["fn"] = fnref(F);
          if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic()) { o["obj"] = expr(C->getArg(0)); o["arrow"] = false; start = 1; }
        } else o["callee"] = expr(C->getCallee());
        o["opcall"] = getOperatorSpelling(C->getOperator());
        json::Array a;
        for (unsigned i = start; i < C->getNumArgs(); ++i) a.push_back(expr(C->getArg(i)));
        o["a"] = std::move(a);
        return std::move(o);
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto *C = cast<CallExpr>(E);
        json::Object o = mke("call", E);
        if (auto *F = C->getDirectCallee()) o["fn"] = fnref(F);
        else o["callee"] = expr(C->getCallee());
        json::Array a;
        for (auto *A : C->arguments()) a.push_back(expr(A));
        o["a"] = std::move(a);
        return std::move(o);
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto *C = cast<CXXConstructExpr>(E);
        json::Object o = mke("ctor", E);
        o["fn"] = fnref(C->getConstructor());
        if (C->isElidable()) o["elide"] = true;
        if (C->isListInitialization()) o["list"] = true;
        if (C->isStdInitListInitialization()) o["sil"] = true;
        if (C->requiresZeroInitialization()) o["zero"] = true;
        json::Array a;
        for (auto *A : C->arguments()) a.push_back(expr(A));
        o["a"] = std::move(a);
        return std::move(o);
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto *C = cast<CXXInheritedCtorInitExpr>(E);
        json::Object o = mke("inhctor", E);
        o["fn"] = fnref(C->getConstructor());
        return std::move(o);
      }
      case Stmt::InitListExprClass: {
        auto *I = cast<InitListExpr>(E);
        if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
        json::Object o = mke("init", E);
        json::Array a;
        for (auto *X : I->inits()) a.push_back(expr(X));
        o["a"] = std::move(a);
        if (I->hasArrayFiller()) o["fill"] = expr(I->getArrayFiller());
        if (auto *F = I->getInitializedFieldInUnion()) o["uf"] = F->getNameAsString();
        if (I->isTransparent()) o["transp"] = true;
        return std::move(o);
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass: return mke("zero", E);
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::BuiltinBitCastExprClass: {
        auto *C = cast<CastExpr>(E);
        json::Object o = mke("cast", E);
        o["ck"] = C->getCastKindName();
        o["e"] = expr(C->getSubExpr());
        if (!isa<ImplicitCastExpr>(E)) o["expl"] = true;
        if (C->getCastKind() == CK_UserDefinedConversion || C->getCastKind() == CK_ConstructorConversion) o["conv"] = true;
        return std::move(o);
      }
      case Stmt::SourceLocExprClass: {
        auto *S = cast<SourceLocExpr>(E);
        json::Object o = mke(S->isIntType() ? "int" : "str", E);
        if (S->isIntType()) o["v"] = 0;
        else o["v"] = "source";
        return std::move(o);
      }
      case Stmt::UnaryOperatorClass: {
        if (cast<UnaryOperator>(E)->getOpcode() == UO_Extension) return expr(cast<UnaryOperator>(E)->getSubExpr());
        auto *U = cast<UnaryOperator>(E);
        json::Object o = mke("un", E);
        o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
        if (U->isPostfix()) o["post"] = true;
        o["e"] = expr(U->getSubExpr());
        return std::move(o);
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto *B = cast<CompoundAssignOperator>(E);
        json::Object o = mke("cassign", E);
        o["op"] = B->getOpcodeStr().str();
        o["a"] = expr(B->getLHS());
        o["b"] = expr(B->getRHS());
        o["ct"] = type(B->getComputationLHSType());
        o["crt"] = type(B->getComputationResultType());
        return std::move(o);
      }
      case Stmt::BinaryOperatorClass: {
        auto *B = cast<BinaryOperator>(E);
        json::Object o = mke(B->getOpcode() == BO_Assign ? "assign" : "bin", E);
        o["op"] = B->getOpcodeStr().str();
        o["a"] = expr(B->getLHS());
        o["b"] = expr(B->getRHS());
        return std::move(o);
      }
      case Stmt::ConditionalOperatorClass: {
        auto *C = cast<ConditionalOperator>(E);
        json::Object o = mke("cond", E);
        o["c"] = expr(C->getCond());
        o["a"] = expr(C->getTrueExpr());
        o["b"] = expr(C->getFalseExpr());
        return std::move(o);
      }
      case Stmt::ArraySubscriptExprClass: {
        auto *A = cast<ArraySubscriptExpr>(E);
        json::Object o = mke("sub", E);
        o["a"] = expr(A->getBase());
        o["b"] = expr(A->getIdx());
        return std::move(o);
      }
      case Stmt::LambdaExprClass: {
        auto *L = cast<LambdaExpr>(E);
        json::Object o = mke("lambda", E);
        auto *CO = L->getCallOperator();
        json::Array caps;
        auto ii = L->capture_init_begin();
        for (auto &C : L->captures()) {
          json::Object c;
          if (C.capturesThis()) c["this"] = true;
          else if (C.capturesVariable()) {
            c["id"] = lid(C.getCapturedVar());
            c["name"] = C.getCapturedVar()->getNameAsString();
            c["ref"] = C.getCaptureKind() == LCK_ByRef;
            c["t"] = type(C.getCapturedVar()->getType());
          }
          if (C.getCaptureKind() == LCK_StarThis) c["starthis"] = true;
          if (*ii) c["e"] = expr(*ii);
          ++ii;
          caps.push_back(std::move(c));
        }
        o["caps"] = std::move(caps);
        json::Array ps;
        if (!L->isGenericLambda()) {
          for (auto *P : CO->parameters()) ps.push_back(json::Object{{"id", lid(P)}, {"name", P->getNameAsString()}, {"t", type(P->getType())}});
          o["ret"] = type(CO->getReturnType());
          o["body"] = stmt(L->getBody());
        } else {
          o["generic"] = true;
          json::Array insts;
          if (auto *FT = CO->getDescribedFunctionTemplate())
            for (auto *S : FT->specializations()) {
              json::Object io{{"usr", Usr(S)}};
              json::Array ps2;
              for (auto *P : S->parameters()) ps2.push_back(json::Object{{"id", lid(P)}, {"name", P->getNameAsString()}, {"t", type(P->getType())}});
              io["params"] = std::move(ps2);
              io["ret"] = type(S->getReturnType());
              if (S->getBody()) io["body"] = stmt(S->getBody());
              insts.push_back(std::move(io));
            }
          o["insts"] = std::move(insts);
        }
        o["params"] = std::move(ps);
        o["callop"] = Usr(CO);
        return std::move(o);
      }
      case Stmt::CXXNewExprClass: {
        auto *N = cast<CXXNewExpr>(E);
        json::Object o = mke("new", E);
        o["at"] = type(N->getAllocatedType());
        if (N->getInitializer()) o["init"] = expr(N->getInitializer());
        if (N->isArray()) o["array"] = true;
        if (N->getNumPlacementArgs()) o["placement"] = true;
        return std::move(o);
      }
      case Stmt::CXXDeleteExprClass: {
        json::Object o = mke("delete", E);
        o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument());
        return std::move(o);
      }
      case Stmt::CXXThrowExprClass: {
        json::Object o = mke("throw", E);
        return std::move(o);
      }
      case Stmt::OpaqueValueExprClass: {
        auto *O = cast<OpaqueValueExpr>(E);
        if (O->getSourceExpr()) return expr(O->getSourceExpr());
        return mke("opaque", E);
      }
      case Stmt::ArrayInitLoopExprClass: {
        json::Object o = mke("arrcopy", E);
        o["e"] = expr(cast<ArrayInitLoopExpr>(E)->getCommonExpr());
        return std::move(o);
      }
      case Stmt::StmtExprClass: {
        json::Object o = mke("stmtexpr", E);
        o["s"] = stmt(cast<StmtExpr>(E)->getSubStmt());
        return std::move(o);
      }
      default: {
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, Ctx)) {
          json::Object o = mke("int", E);
          o["v"] = R.Val.getInt().getExtValue();
          return std::move(o);
        }
        json::Object o = mke("other", E);
        o["cls"] = E->getStmtClassName();
        return std::move(o);
      }
    }
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.run();
    std::error_code EC;
    llvm::raw_fd_ostream os(g_out, EC);
    os << json::Value(json::Object{{"types", std::move(D.types)}, {"funcs", std::move(D.funcs)},
                                   {"records", std::move(D.records)}, {"enums", std::move(D.enums)},
                                   {"globals", std::move(D.globals)}});
  }
  CompilerInstance &CI;
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setIgnoreAllWarnings(true);
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

// usage: nsasm-export ROOT OUT FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {file});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
