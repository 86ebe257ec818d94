// Dumps the resolved (type-checked, instantiated) program of one translation unit as JSON.
// usage: extract OUT.json ROOT1:ROOT2... FILE -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::string gOut;
static std::vector<std::string> gRoots;

// Where something did not compile: the error itself and the instantiations that led to it
static std::vector<std::pair<std::string, unsigned>> gErrors; static bool gAfterError = false;
class Emitter : public RecursiveASTVisitor<Emitter> {
public:
  Emitter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), Pol(C.getPrintingPolicy()) {
    Pol.SuppressTagKeyword = true; Pol.Bool = true; Pol.SuppressUnwrittenScope = false;
    Pol.PrintCanonicalTypes = true; Pol.FullyQualifiedName = true; Pol.SuppressInlineNamespace = false;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *FD) { enqueue(FD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) { if (RD->isThisDeclarationADefinition() && inRoots(RD->getLocation())) recId(RD); return true; }
  bool VisitEnumDecl(EnumDecl *ED) { if (inRoots(ED->getLocation())) emitEnum(ED); return true; }
  bool VisitVarDecl(VarDecl *VD) {
    if (VD->hasGlobalStorage() && !VD->isStaticLocal() && inRoots(VD->getLocation()) && !VD->getDeclContext()->isDependentContext() && !VD->getType()->isDependentType())
      globals.push_back(varJson(VD));
    return true;
  }

  void enqueue(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def)) { 
      return; }
    if (Def->isDependentContext() || Def->getType()->isDependentType()) return;
    if (!inRoots(Def->getLocation())) return;
    if (!done.insert(Def->getCanonicalDecl()).second) return;
    if (Def->isInvalidDecl() || broken(Def)) return;
    queue.push_back(Def);
  }
  // a function of its own (not an instantiation) that contains something which did not compile
  bool broken(const FunctionDecl *FD) {
    if (gErrors.empty() || FD->getTemplateInstantiationPattern()) return false;
    auto B = SM.getPresumedLoc(SM.getExpansionLoc(FD->getBeginLoc())), E = SM.getPresumedLoc(SM.getExpansionLoc(FD->getEndLoc()));
    if (B.isInvalid() || E.isInvalid()) return false;
    for (auto &e : gErrors) if (e.first == B.getFilename() && e.second >= B.getLine() && e.second <= E.getLine()) return true;
    return false;
  }
  void drain() {
    while (!queue.empty()) {
      const FunctionDecl *FD = queue.front(); queue.pop_front();
      emitFunction(FD);
    }
  }
  json::Object result() {
    json::Object o;
    o["funcs"] = std::move(funcs);
    o["fdecls"] = std::move(fdecls);
    o["recs"] = std::move(recs);
    o["enums"] = std::move(enums);
    o["globals"] = std::move(globals);
    o["types"] = std::move(types);
    o["files"] = std::move(files);
    return o;
  }

private:
  ASTContext &Ctx; SourceManager &SM; PrintingPolicy Pol;
  std::unique_ptr<MangleContext> MC;
  std::set<const FunctionDecl *> done;
  std::deque<const FunctionDecl *> queue;
  json::Object funcs; json::Array fdecls, recs, enums, globals, types, files;
  std::map<const void *, int> fids, rids, eids, vids, tids;
  std::map<std::string, int> fileIds;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  int fileId(const std::string &f) {
    auto it = fileIds.find(f); if (it != fileIds.end()) return it->second;
    int i = files.size(); files.push_back(f); fileIds[f] = i; return i;
  }
  int varId(const ValueDecl *V) {
    const void *k = V->getCanonicalDecl();
    auto it = vids.find(k); if (it != vids.end()) return it->second;
    int i = vids.size(); vids[k] = i; return i;
  }
  int typeId(QualType T) {
    T = T.getCanonicalType();
    auto it = tids.find(T.getAsOpaquePtr()); if (it != tids.end()) return it->second;
    int i = types.size(); types.push_back(nullptr); tids[T.getAsOpaquePtr()] = i;
    json::Object o; o["s"] = T.getAsString(Pol);
    if (T.isConstQualified()) o["const"] = true;
    if (T->isReferenceType()) { o["k"] = T->isRValueReferenceType() ? "rref" : "ref"; o["to"] = typeId(T->getPointeeType()); }
    else if (T->isPointerType()) { o["k"] = "ptr"; o["to"] = typeId(T->getPointeeType()); }
    else if (T->isBooleanType()) o["k"] = "bool";
    else if (T->isEnumeralType()) { o["k"] = "enum"; o["en"] = T->getAs<EnumType>()->getDecl()->getQualifiedNameAsString(); }
    else if (T->isSpecificBuiltinType(BuiltinType::NullPtr)) o["k"] = "nullptr";
    else if (T->isIntegerType() && !T->isDependentType()) { o["k"] = T->isUnsignedIntegerType() ? "uint" : "int"; o["w"] = (int64_t)Ctx.getTypeSize(T); o["char"] = T->isAnyCharacterType(); }
    else if (T->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)Ctx.getTypeSize(T); }
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isRecordType()) {
      o["k"] = "rec"; const RecordDecl *RD = T->getAs<RecordType>()->getDecl();
      o["qn"] = RD->getQualifiedNameAsString();
      if (auto *CRD = dyn_cast<CXXRecordDecl>(RD)) {
        if (CRD->isLambda()) o["lambda"] = true;
        if (inRoots(CRD->getLocation()) && !CRD->isDependentContext()) o["rec"] = recId(CRD);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CRD)) {
          json::Array a;
          for (auto &ta : S->getTemplateArgs().asArray()) addTArg(a, ta);
          o["ta"] = std::move(a);
        }
      }
    }
    else if (T->isArrayType()) { o["k"] = "arr"; o["to"] = typeId(cast<ArrayType>(T.getTypePtr())->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(T.getTypePtr())) o["n"] = (int64_t)CA->getSize().getZExtValue(); }
    else if (T->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    types[i] = std::move(o);
    return i;
  }
  void addTArg(json::Array &a, const TemplateArgument &ta) {
    switch (ta.getKind()) {
      case TemplateArgument::Type: a.push_back(json::Object{{"t", typeId(ta.getAsType())}}); break;
      case TemplateArgument::Integral: a.push_back(json::Object{{"v", ta.getAsIntegral().getExtValue()}}); break;
      case TemplateArgument::Pack: for (auto &p : ta.pack_elements()) addTArg(a, p); break;
      default: a.push_back(nullptr);
    }
  }
  int recId(const CXXRecordDecl *RD) {
    RD = RD->getDefinition() ? RD->getDefinition() : RD;
    const void *k = RD->getCanonicalDecl();
    auto it = rids.find(k); if (it != rids.end()) return it->second;
    int i = recs.size(); recs.push_back(nullptr); rids[k] = i;
    if (RD->isDependentContext() || !RD->hasDefinition() || !inRoots(RD->getLocation())) { recs[i] = json::Object{{"qn", RD->getQualifiedNameAsString()}, {"dep", true}}; return i; }
    json::Object o;
    o["qn"] = RD->getQualifiedNameAsString();
    o["s"] = Ctx.getRecordType(RD).getAsString(Pol);
    o["file"] = fileId(fileOf(RD->getLocation())); o["line"] = lineOf(RD->getLocation());
    o["lambda"] = RD->isLambda(); o["union"] = RD->isUnion(); o["anon"] = RD->isAnonymousStructOrUnion();
    o["abstract"] = RD->isAbstract();
    json::Array fs;
    for (auto *F : RD->fields()) {
      json::Object f; f["n"] = F->getNameAsString(); f["t"] = typeId(F->getType()); f["id"] = varId(F);
      f["acc"] = (int)F->getAccess(); f["mutable"] = F->isMutable(); f["line"] = lineOf(F->getLocation());
      if (F->isAnonymousStructOrUnion()) { f["anon"] = true; if (auto *CR = F->getType()->getAsCXXRecordDecl()) f["rec"] = recId(CR); }
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto &B : RD->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) { json::Object b; b["t"] = typeId(B.getType()); b["qn"] = BR->getQualifiedNameAsString(); if (inRoots(BR->getLocation())) b["rec"] = recId(BR); bs.push_back(std::move(b)); }
    o["bases"] = std::move(bs);
    json::Array ms;
    for (auto *M : RD->methods()) { if (!M->isImplicit() || RD->isLambda()) { ms.push_back(fid(M)); } }
    o["methods"] = std::move(ms);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) { json::Array a; for (auto &ta : S->getTemplateArgs().asArray()) addTArg(a, ta); o["ta"] = std::move(a); }
    recs[i] = std::move(o);
    return i;
  }
  void emitEnum(const EnumDecl *ED) {
    if (eids.count(ED->getCanonicalDecl())) return;
    eids[ED->getCanonicalDecl()] = 1;
    json::Object o; o["qn"] = ED->getQualifiedNameAsString(); o["file"] = fileId(fileOf(ED->getLocation())); o["line"] = lineOf(ED->getLocation());
    json::Array a; for (auto *C : ED->enumerators()) a.push_back(json::Object{{"n", C->getNameAsString()}, {"v", C->getInitVal().getExtValue()}});
    o["c"] = std::move(a); enums.push_back(std::move(o));
  }
  std::string mangled(const FunctionDecl *FD) {
    if (FD->isDependentContext() || FD->getType()->isDependentType()) return "";
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) MC->mangleName(GlobalDecl(C, Ctor_Complete), os);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(FD)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
    else MC->mangleName(GlobalDecl(FD), os);
    return os.str();
  }
  int fid(const FunctionDecl *FD) {
    const void *k = FD->getCanonicalDecl();
    auto it = fids.find(k); if (it != fids.end()) return it->second;
    int i = fdecls.size(); fdecls.push_back(nullptr); fids[k] = i;
    json::Object o;
    o["n"] = FD->getNameAsString(); o["qn"] = FD->getQualifiedNameAsString();
    bool dep = FD->isDependentContext() || FD->getType()->isDependentType();
    if (dep) o["dep"] = true;
    bool in = inRoots(FD->getLocation());
    o["in"] = in; o["line"] = lineOf(FD->getLocation());
    if (in) o["file"] = fileId(fileOf(FD->getLocation()));
    o["rt"] = typeId(FD->getReturnType());
    json::Array ps; for (auto *P : FD->parameters()) ps.push_back(typeId(P->getType())); o["pt"] = std::move(ps);
    if (!dep) { if (in) o["m"] = mangled(FD); }
    o["linkage"] = FD->isExternallyVisible();
    o["inline"] = FD->isInlined() || FD->isTemplateInstantiation();
    { const FunctionDecl *Pat = FD->getTemplateInstantiationPattern(); if (FD->isDefined() || (Pat && Pat->isDefined())) o["def"] = true; }
    if (FD->isDeleted()) o["deleted"] = true;
    if (FD->isDefaulted()) o["defaulted"] = true;
    if (FD->isImplicit()) o["implicit"] = true;
    if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (auto *ta = FD->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) addTArg(a, x); o["ta"] = std::move(a); }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = MD->getParent()->getQualifiedNameAsString();
      if (!dep) o["ct"] = typeId(Ctx.getRecordType(MD->getParent()));
      o["static"] = MD->isStatic(); o["const"] = MD->isConst(); o["virtual"] = MD->isVirtual(); o["pure"] = MD->isPureVirtual(); o["acc"] = (int)MD->getAccess();
      json::Array ov; for (auto *B : MD->overridden_methods()) ov.push_back(fid(B)); if (!ov.empty()) o["ov"] = std::move(ov);
      if (auto *C = dyn_cast<CXXConstructorDecl>(MD)) { o["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other"; if (C->isInheritingConstructor()) o["inh"] = fid(C->getInheritedConstructor().getConstructor()); }
      if (isa<CXXDestructorDecl>(MD)) o["dtor"] = true;
      if (MD->isCopyAssignmentOperator()) o["asg"] = "copy"; else if (MD->isMoveAssignmentOperator()) o["asg"] = "move";
      if (isa<CXXConversionDecl>(MD)) o["conv"] = true;
    }
    fdecls[i] = std::move(o);
    enqueue(FD);
    return i;
  }
  json::Object varJson(const VarDecl *V) {
    json::Object o; o["id"] = varId(V); o["n"] = V->getNameAsString(); o["t"] = typeId(V->getType()); o["line"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["global"] = true; o["qn"] = V->getQualifiedNameAsString(); o["file"] = fileId(fileOf(V->getLocation())); }
    if (V->isConstexpr()) o["constexpr"] = true;
    if (auto *I = V->getAnyInitializer()) o["init"] = expr(I);
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array b; for (auto *B : D->bindings()) b.push_back(json::Object{{"id", varId(B)}, {"n", B->getNameAsString()}, {"e", B->getBinding() ? expr(B->getBinding()) : json::Value(nullptr)}});
      o["bind"] = std::move(b);
    }
    return o;
  }
  void emitFunction(const FunctionDecl *FD) {
    int i = fid(FD);
    json::Object o;
    json::Array ps;
    for (auto *P : FD->parameters()) { json::Object p; p["id"] = varId(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType()); ps.push_back(std::move(p)); }
    o["p"] = std::move(ps);
    o["file"] = fileId(fileOf(FD->getLocation())); o["line"] = lineOf(FD->getLocation());
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) {
      json::Array is;
      for (auto *I : C->inits()) {
        json::Object x; x["written"] = I->isWritten(); x["line"] = lineOf(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) { auto *F = I->getAnyMember(); x["n"] = F->getNameAsString(); x["id"] = varId(F); x["t"] = typeId(F->getType()); if (I->isIndirectMemberInitializer()) { json::Array ch; for (auto *c : I->getIndirectMember()->chain()) ch.push_back(c->getNameAsString()); x["chain"] = std::move(ch);} }
        else if (I->isBaseInitializer()) { x["base"] = typeId(QualType(I->getBaseClass(), 0)); }
        else if (I->isDelegatingInitializer()) x["deleg"] = true;
        x["e"] = expr(I->getInit());
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(FD->getBody());
    funcs[std::to_string(i)] = std::move(o);
  }

  json::Value stmtOrNull(const Stmt *S) { return S ? stmt(S) : json::Value(nullptr); }
  json::Value exprOrNull(const Expr *E) { return E ? expr(E) : json::Value(nullptr); }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return json::Object{{"k", "expr"}, {"e", expr(E)}, {"l", lineOf(S->getBeginLoc())}};
    json::Object o; o["l"] = lineOf(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; json::Array a; for (auto *x : C->body()) a.push_back(stmt(x)); o["s"] = std::move(a); }
    else if (auto *D = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; json::Array a; for (auto *x : D->decls()) if (auto *V = dyn_cast<VarDecl>(x)) a.push_back(varJson(V)); o["v"] = std::move(a); }
    else if (auto *I = dyn_cast<IfStmt>(S)) { o["k"] = "if"; if (I->getInit()) o["init"] = stmt(I->getInit()); if (I->getConditionVariable()) o["var"] = varJson(I->getConditionVariable());
      o["c"] = expr(I->getCond()); o["cx"] = I->isConstexpr(); o["a"] = stmtOrNull(I->getThen()); o["b"] = stmtOrNull(I->getElse()); }
    else if (auto *F = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["init"] = stmtOrNull(F->getInit()); o["c"] = exprOrNull(F->getCond()); if (F->getConditionVariable()) o["var"] = varJson(F->getConditionVariable()); o["inc"] = exprOrNull(F->getInc()); o["b"] = stmtOrNull(F->getBody()); }
    else if (auto *W = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (W->getConditionVariable()) o["var"] = varJson(W->getConditionVariable()); o["c"] = expr(W->getCond()); o["b"] = stmtOrNull(W->getBody()); }
    else if (auto *W = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(W->getCond()); o["b"] = stmtOrNull(W->getBody()); }
    else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "rfor"; if (R->getInit()) o["init"] = stmt(R->getInit()); o["range"] = varJson(cast<VarDecl>(R->getRangeStmt()->getSingleDecl()));
      o["begin"] = varJson(cast<VarDecl>(R->getBeginStmt()->getSingleDecl())); o["end"] = varJson(cast<VarDecl>(R->getEndStmt()->getSingleDecl())); o["c"] = expr(R->getCond()); o["inc"] = expr(R->getInc());
      o["v"] = varJson(R->getLoopVariable()); o["b"] = stmtOrNull(R->getBody()); }
    else if (auto *W = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; if (W->getInit()) o["init"] = stmt(W->getInit()); if (W->getConditionVariable()) o["var"] = varJson(W->getConditionVariable()); o["c"] = expr(W->getCond()); o["b"] = stmtOrNull(W->getBody()); }
    else if (auto *C = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["c"] = expr(C->getLHS()); o["b"] = stmtOrNull(C->getSubStmt()); }
    else if (auto *C = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = stmtOrNull(C->getSubStmt()); }
    else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (auto *R = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; o["e"] = exprOrNull(R->getRetValue()); }
    else if (auto *T = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; o["b"] = stmt(T->getTryBlock()); json::Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); json::Object h; if (H->getExceptionDecl()) { h["v"] = varJson(H->getExceptionDecl()); h["t"] = typeId(H->getCaughtType()); } h["b"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h)); } o["h"] = std::move(a); }
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    else if (auto *L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
    else { o["k"] = "unk"; o["cls"] = S->getStmtClassName(); }
    return o;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // constant folding of integral rvalues
    if (!E->isTypeDependent() && !E->isValueDependent() && E->isPRValue() && (E->getType()->isIntegralOrEnumerationType()) && !isa<LambdaExpr>(E)) {
      Expr::EvalResult R;
      if (E->isCXX11ConstantExpr(Ctx) && E->EvaluateAsRValue(R, Ctx, true) && R.Val.isInt() && !R.HasSideEffects) {
        json::Object o; o["k"] = "int"; llvm::APSInt v = R.Val.getInt();
        if (v.isUnsigned() ? v.getActiveBits() <= 63 : v.getSignificantBits() <= 64) o["v"] = v.getExtValue(); else { llvm::SmallString<40> s; v.toString(s, 10); o["v"] = std::string(s.str()); }
        o["t"] = typeId(E->getType());
        if (auto *DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) if (auto *EC = dyn_cast<EnumConstantDecl>(DR->getDecl())) o["en"] = EC->getNameAsString();
        return o;
      }
    }
    if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<FullExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return json::Object{{"k", "tmp"}, {"e", expr(x->getSubExpr())}, {"t", typeId(E->getType())}};
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { json::Object o{{"k", "dinit"}, {"e", expr(x->getExpr())}, {"t", typeId(E->getType())}}; return o; }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
    json::Object o; o["t"] = typeId(E->getType()); o["l"] = lineOf(E->getBeginLoc());
    if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["lv"] = 2;
    if (auto *x = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = x->getValue().getSExtValue(); }
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "int"; o["v"] = (int)x->getValue(); }
    else if (auto *x = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = (int)x->getValue(); }
    else if (auto *x = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; o["v"] = x->getValueAsApproximateDouble(); }
    else if (auto *x = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = x->isOrdinary() || x->isUTF8() ? json::fixUTF8(x->getString()) : std::string("?"); }
    else if (isa<CXXNullPtrLiteralExpr>(E)) o["k"] = "null";
    else if (isa<CXXThisExpr>(E)) o["k"] = "this";
    else if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "ref"; auto *D = x->getDecl(); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["f"] = fid(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; o["v"] = EC->getInitVal().getExtValue(); o["en"] = EC->getNameAsString(); }
      else if (auto *B = dyn_cast<BindingDecl>(D)) { o["dk"] = "bind"; o["id"] = varId(B); }
      else { o["dk"] = "var"; o["id"] = varId(D); if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["global"] = true; o["qn"] = V->getQualifiedNameAsString();
          if (!V->getType()->isDependentType() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) o["cv"] = R.Val.getInt().getExtValue(); } }
          else if (V->isStaticLocal()) o["static"] = true; } }
      if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
    }
    else if (auto *x = dyn_cast<MemberExpr>(E)) {
      auto *D = x->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "mfn"; o["f"] = fid(F); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow(); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["dk"] = "var"; o["id"] = varId(V); o["n"] = V->getNameAsString(); o["global"] = true; o["qn"] = V->getQualifiedNameAsString(); }
      else { o["k"] = "mem"; o["n"] = D->getNameAsString(); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
        if (auto *FD = dyn_cast<FieldDecl>(D)) { if (FD->isAnonymousStructOrUnion()) o["anon"] = true; o["own"] = FD->getParent()->getQualifiedNameAsString(); o["fi"] = (int)FD->getFieldIndex(); } }
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "ocall"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) o["f"] = fid(F); else o["fe"] = expr(x->getCallee());
      args(o, x->arguments());
    }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *F = x->getMethodDecl()) { o["f"] = fid(F); 
        auto *ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts());
        if (ME) { o["o"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); o["nonvirt"] = ME->hasQualifier(); }
      } else o["fe"] = expr(x->getCallee());
      args(o, x->arguments());
    }
    else if (auto *x = dyn_cast<UserDefinedLiteral>(E)) { o["k"] = "call"; if (auto *F = x->getDirectCallee()) o["f"] = fid(F); args(o, x->arguments()); }
    else if (auto *x = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; if (auto *F = x->getDirectCallee()) o["f"] = fid(F); else o["fe"] = expr(x->getCallee());
      args(o, x->arguments());
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["f"] = fid(x->getConstructor()); o["elide"] = x->isElidable(); o["il"] = x->isListInitialization(); o["zero"] = x->requiresZeroInitialization();
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmpobj"] = true;
      args(o, x->arguments());
    }
    else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "inhctor"; o["f"] = fid(x->getConstructor()); }
    else if (auto *x = dyn_cast<CXXNewExpr>(E)) { o["k"] = "newx"; o["at"] = typeId(x->getAllocatedType()); o["init"] = exprOrNull(x->getInitializer()); o["array"] = x->isArray(); }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delx"; o["e"] = expr(x->getArgument()); }
    else if (auto *x = dyn_cast<InitListExpr>(E)) { o["k"] = "ilist"; json::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a); if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller()); if (x->getInitializedFieldInUnion()) o["uf"] = x->getInitializedFieldInUnion()->getNameAsString(); }
    else if (auto *x = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "casg"; o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = typeId(x->getComputationResultType()); o["clt"] = typeId(x->getComputationLHSType()); }
    else if (auto *x = dyn_cast<BinaryOperator>(E)) { o["k"] = "bin"; o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); }
    else if (auto *x = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); }
    else if (auto *x = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; auto *RD = x->getLambdaClass(); o["rec"] = recId(RD);
      json::Array caps; auto ii = x->capture_init_begin();
      for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++ii) {
        json::Object c; 
        if (it->capturesThis()) { c["this"] = true; c["byref"] = it->getCaptureKind() == LCK_This; }
        else if (it->capturesVariable()) { auto *V = it->getCapturedVar(); c["n"] = V->getNameAsString(); c["id"] = varId(V); c["byref"] = it->getCaptureKind() == LCK_ByRef; c["initcap"] = isa<VarDecl>(V) && cast<VarDecl>(V)->isInitCapture(); c["t"] = typeId(V->getType()); }
        c["implicit"] = it->isImplicit();
        if (*ii) c["init"] = expr(*ii);
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["mutable"] = x->isMutable();
      json::Array ops;
      if (auto *FT = x->getDependentCallOperator()) { for (auto *S : FT->specializations()) { ops.push_back(fid(S)); } o["generic"] = true; }
      else { ops.push_back(fid(x->getCallOperator())); }
      o["ops"] = std::move(ops);
    }
    else if (auto *x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = exprOrNull(x->getSubExpr()); if (x->getSubExpr()) o["tt"] = typeId(x->getSubExpr()->getType()); }
    else if (auto *x = dyn_cast<CastExpr>(E)) {
      switch (x->getCastKind()) {
        case CK_LValueToRValue: { o["k"] = "load"; o["e"] = expr(x->getSubExpr()); break; }
        case CK_NoOp: case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_FunctionToPointerDecay: case CK_LValueBitCast: case CK_Dependent:
        { json::Value v = expr(x->getSubExpr()); if (isa<ExplicitCastExpr>(x) && x->isXValue()) { o["k"] = "xv"; o["e"] = std::move(v); break; } return v; }
        case CK_ArrayToPointerDecay: { o["k"] = "decay"; o["e"] = expr(x->getSubExpr()); break; }
        default: o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["ex"] = isa<ExplicitCastExpr>(x);
      }
    }
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) o["k"] = "zero";
    else if (auto *x = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "arrcopy"; o["e"] = expr(x->getCommonExpr()->getSourceExpr()); }
    else if (auto *x = dyn_cast<OpaqueValueExpr>(E)) { return x->getSourceExpr() ? expr(x->getSourceExpr()) : json::Value(json::Object{{"k", "unk"}, {"cls", "Opaque"}}); }
    else if (auto *x = dyn_cast<CXXNoexceptExpr>(E)) { o["k"] = "int"; o["v"] = (int)x->getValue(); }
    else { o["k"] = "unk"; o["cls"] = E->getStmtClassName(); }
    return o;
  }
  template <class R> void args(json::Object &o, R r) { json::Array a; for (auto *x : r) a.push_back(expr(x)); o["a"] = std::move(a); }
};

class Collect : public DiagnosticConsumer {
public:
  Collect(DiagnosticConsumer *N) : Next(N) {}
  void BeginSourceFile(const LangOptions &L, const Preprocessor *P) override { Next->BeginSourceFile(L, P); }
  void EndSourceFile() override { Next->EndSourceFile(); }
  void HandleDiagnostic(DiagnosticsEngine::Level Lv, const Diagnostic &D) override {
    DiagnosticConsumer::HandleDiagnostic(Lv, D);
    if (Lv >= DiagnosticsEngine::Error) gAfterError = true; else if (Lv != DiagnosticsEngine::Note) gAfterError = false;
    if (gAfterError && D.hasSourceManager() && D.getLocation().isValid()) {
      auto PL = D.getSourceManager().getPresumedLoc(D.getSourceManager().getExpansionLoc(D.getLocation()));
      if (PL.isValid()) gErrors.push_back({PL.getFilename(), PL.getLine()});
    }
    Next->HandleDiagnostic(Lv, D);
  }
  DiagnosticConsumer *Next;
};
class Consumer : public ASTConsumer {
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Emitter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    E.drain();
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(E.result());
  }
  CompilerInstance &CI;
};
class Action : public ASTFrontendAction {
public:
  bool BeginSourceFileAction(CompilerInstance &CI) override {
    CI.getDiagnostics().setClient(new Collect(CI.getDiagnostics().takeClient().release()), true);
    return true;
  }
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  gOut = argv[1];
  std::string roots = argv[2]; size_t p = 0;
  while (p <= roots.size()) { size_t q = roots.find(':', p); if (q == std::string::npos) q = roots.size(); if (q > p) gRoots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::string file = argv[3];
  std::vector<std::string> cargs;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") cargs.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", cargs);
  tooling::ClangTool Tool(DB, {file});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
