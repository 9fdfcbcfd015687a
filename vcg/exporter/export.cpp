// Dumps the clang AST of every function, record, enum and variable declared
// below a source root as compact JSON. Nothing is simplified here: the dump is
// a mechanical transcription of clang's fully resolved AST (overloads, implicit
// conversions, template instantiations), read by /verif/vcg on every run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutFile;

namespace {

class Dumper {
public:
  explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  Object Functions, Records, Enums, Globals;
  Array Types;
  std::map<const Type*, std::map<unsigned, int>> TypeIds;
  std::map<const Decl*, int> LocalIds;
  std::set<const Decl*> Done;
  std::vector<const FunctionDecl*> Pending;

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    std::string F = SM.getFilename(L).str();
    if (F.compare(0, Root.size(), Root) == 0) F = F.substr(Root.size());
    auto p = F.find_last_of('/');
    if (p != std::string::npos) F = F.substr(p + 1);
    return F + ":" + std::to_string(SM.getSpellingLineNumber(L));
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<128> S;
    if (index::generateUSRForDecl(D, S)) {
      // no USR: use the address (unique within this TU)
      return "addr:" + std::to_string(reinterpret_cast<uintptr_t>(D));
    }
    std::string R = S.str().str();
    if (auto* FD = dyn_cast<FunctionDecl>(D))
      if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
        if (MD->getParent()->isLambda())
          R = "lambda:" + loc(MD->getParent()->getLocation()) + ":" +
              std::to_string(reinterpret_cast<uintptr_t>(MD));
    return R;
  }
  // qualified name without inline namespaces and template arguments
  std::string qname(const NamedDecl* D) {
    std::string R;
    llvm::raw_string_ostream OS(R);
    std::vector<std::string> parts;
    parts.push_back(D->getDeclName().isEmpty() ? std::string("(anon)") : D->getNameAsString());
    if (auto* CD = dyn_cast<CXXConstructorDecl>(D)) parts.back() = CD->getParent()->getNameAsString();
    if (auto* CD = dyn_cast<CXXDestructorDecl>(D)) parts.back() = "~" + CD->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(D)) parts.back() = "operator_conv";
    const DeclContext* DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto* NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline()) parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      } else if (auto* RD = dyn_cast<RecordDecl>(DC)) {
        if (auto* CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->isLambda()) parts.push_back("(lambda)");
        else parts.push_back(RD->getNameAsString());
      } else if (auto* ED = dyn_cast<EnumDecl>(DC)) {
        parts.push_back(ED->getNameAsString());
      } else if (auto* FD = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(FD->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (it != parts.rbegin()) OS << "::";
      OS << *it;
    }
    return OS.str();
  }
  int localId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) return it->second;
    int id = LocalIds.size();
    LocalIds[D] = id;
    return id;
  }
  int type(QualType Q) {
    Q = Q.getCanonicalType();
    const Type* T = Q.getTypePtr();
    unsigned Qu = Q.getLocalFastQualifiers();
    auto& m = TypeIds[T];
    auto it = m.find(Qu);
    if (it != m.end()) return it->second;
    int id = Types.size();
    m[Qu] = id;
    Types.push_back(nullptr);
    Object O;
    O["s"] = Q.getAsString(PP);
    O["const"] = Q.isConstQualified();
    if (auto* B = dyn_cast<BuiltinType>(T)) {
      if (B->isFloatingPoint()) O["k"] = "float";
      else if (B->getKind() == BuiltinType::Bool) O["k"] = "bool";
      else if (B->isInteger()) {
        O["k"] = "int"; O["signed"] = B->isSignedInteger();
        O["bits"] = (int64_t)C.getTypeSize(T);
      } else if (B->isVoidType()) O["k"] = "void";
      else O["k"] = "builtin";
    } else if (auto* E = dyn_cast<EnumType>(T)) {
      O["k"] = "enum"; O["q"] = qname(E->getDecl());
      doEnum(E->getDecl());
    } else if (auto* P = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr"; O["to"] = type(P->getPointeeType());
    } else if (auto* R = dyn_cast<ReferenceType>(T)) {
      O["k"] = "ref"; O["to"] = type(R->getPointeeType());
      O["rvalue"] = isa<RValueReferenceType>(T);
    } else if (auto* R = dyn_cast<RecordType>(T)) {
      auto* RD = dyn_cast<CXXRecordDecl>(R->getDecl());
      O["k"] = "rec"; O["q"] = qname(R->getDecl());
      if (RD) {
        if (RD->isLambda()) O["lambda"] = true;
        O["usr"] = usr(RD);
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          O["targs"] = targs(S->getTemplateArgs().asArray());
        }
        if (inRoot(RD->getLocation())) doRecord(RD);
      }
    } else if (auto* A = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "arr"; O["to"] = type(A->getElementType());
      O["n"] = (int64_t)A->getSize().getLimitedValue();
    } else if (isa<FunctionProtoType>(T)) {
      O["k"] = "fn";
    } else {
      O["k"] = T->getTypeClassName();
    }
    Types[id] = std::move(O);
    return id;
  }
  Array targs(llvm::ArrayRef<TemplateArgument> As) {
    Array R;
    for (auto& A : As) {
      switch (A.getKind()) {
      case TemplateArgument::Type: R.push_back(Object{{"type", type(A.getAsType())}}); break;
      case TemplateArgument::Integral:
        R.push_back(Object{{"int", llvm::toString(A.getAsIntegral(), 10)}}); break;
      case TemplateArgument::Pack:
        for (auto& X : targs(A.pack_elements())) R.push_back(X);
        break;
      default: R.push_back(Object{{"other", true}});
      }
    }
    return R;
  }
  void doEnum(const EnumDecl* E) {
    if (!Done.insert(E->getCanonicalDecl()).second) return;
    Array A;
    for (auto* X : E->enumerators())
      A.push_back(Object{{"name", X->getNameAsString()},
                         {"value", llvm::toString(X->getInitVal(), 10)}});
    Enums[qname(E)] = std::move(A);
  }
  void doRecord(const CXXRecordDecl* RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isDependentContext()) return;
    if (!Done.insert(RD).second) return;
    Object O;
    std::string U = usr(RD);
    O["q"] = qname(RD);
    O["loc"] = loc(RD->getLocation());
    O["abstract"] = RD->isAbstract();
    O["lambda"] = RD->isLambda();
    Array Bases;
    for (auto& B : RD->bases()) Bases.push_back(type(B.getType()));
    O["bases"] = std::move(Bases);
    Array Fs;
    for (auto* F : RD->fields()) {
      Object FO{{"name", F->getNameAsString()}, {"type", type(F->getType())}};
      FO["mutable"] = F->isMutable();
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = stmt(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto* M : RD->methods()) {
      if (M->isDefaulted() || M->isImplicit() || M->isDeleted()) {
        // implicit members are handled by the engine
      }
      Ms.push_back(Object{{"usr", usr(M)}, {"name", M->getNameAsString()},
                          {"virtual", M->isVirtual()}, {"pure", M->isPureVirtual()},
                          {"implicit", M->isImplicit()}, {"defaulted", M->isDefaulted()},
                          {"access", (int)M->getAccess()}});
    }
    O["methods"] = std::move(Ms);
    Records[U] = std::move(O);
    for (auto* M : RD->methods()) doFunction(M);
    for (auto* D : RD->decls())
      if (auto* V = dyn_cast<VarDecl>(D)) doGlobal(V);
  }
  void doGlobal(const VarDecl* V) {
    if (V->getType()->isDependentType()) return;
    const VarDecl* D = V->getDefinition() ? V->getDefinition() : V;
    if (!Done.insert(V->getCanonicalDecl()).second) return;
    Object O{{"q", qname(V)}, {"type", type(V->getType())}, {"loc", loc(V->getLocation())}};
    O["constexpr"] = V->isConstexpr();
    O["const"] = V->getType().isConstQualified();
    if (D->getInit() && !D->getInit()->isValueDependent()) {
      if (const APValue* AV = D->evaluateValue()) {
        if (AV->isFloat()) {
          double d = AV->getFloat().convertToDouble();
          char b[64]; snprintf(b, sizeof b, "%a", d);
          O["fval"] = std::string(b);
        } else if (AV->isInt()) O["ival"] = llvm::toString(AV->getInt(), 10);
      }
      O["init"] = stmt(D->getInit());
    }
    Globals[usr(V)] = std::move(O);
  }
  void doFunction(const FunctionDecl* F) {
    if (F->isDependentContext()) return;
    if (F->getType()->isDependentType()) return;
    const FunctionDecl* Def = nullptr;
    F->getBody(Def);
    if (!Def) return;
    if (!Done.insert(Def->getCanonicalDecl()).second) return;
    if (Def->getType()->getContainedDeducedType() && !Def->getReturnType()->isDependentType()) {}
    Object O;
    O["q"] = qname(Def);
    O["loc"] = loc(Def->getLocation());
    O["end"] = loc(Def->getEndLoc());
    O["ret"] = type(Def->getReturnType());
    O["noexcept"] = isNoexceptExceptionSpec(Def->getExceptionSpecType()) &&
                    Def->getExceptionSpecType() != EST_NoexceptFalse;
    Array Ps;
    for (auto* P : Def->parameters()) {
      Object PO{{"id", localId(P)}, {"name", P->getNameAsString()}, {"type", type(P->getType())}};
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
        PO["default"] = stmt(P->getDefaultArg());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    O["static"] = true;
    if (auto* TA = Def->getTemplateSpecializationArgs()) O["targs"] = targs(TA->asArray());
    if (auto* M = dyn_cast<CXXMethodDecl>(Def)) {
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["virtual"] = M->isVirtual();
      O["record"] = usr(M->getParent());
      Array Ov;
      for (auto* X : M->overridden_methods()) Ov.push_back(usr(X));
      O["overrides"] = std::move(Ov);
      O["lambda"] = M->getParent()->isLambda();
      O["access"] = (int)M->getAccess();
    }
    O["implicit"] = Def->isImplicit() || Def->isDefaulted();
    if (auto* CD = dyn_cast<CXXConstructorDecl>(Def)) {
      O["ctor"] = true;
      Array Is;
      for (auto* I : CD->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) IO["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) IO["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["delegating"] = true;
        IO["written"] = I->isWritten();
        IO["init"] = stmt(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    if (isa<CXXDestructorDecl>(Def)) O["dtor"] = true;
    O["body"] = stmt(Def->getBody());
    Functions[usr(Def)] = std::move(O);
  }
  Value calleeRef(const FunctionDecl* FD) {
    Object O;
    O["usr"] = usr(FD);
    O["q"] = qname(FD);
    O["name"] = FD->getNameAsString();
    O["root"] = inRoot(FD->getLocation());
    if (auto* TA = FD->getTemplateSpecializationArgs()) O["targs"] = targs(TA->asArray());
    O["ret"] = type(FD->getReturnType());
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["virtual"] = M->isVirtual();
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["rec"] = qname(M->getParent());
      O["method"] = true;
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
        O["rectargs"] = targs(S->getTemplateArgs().asArray());
    }
    Array Ps;
    for (auto* P : FD->parameters()) Ps.push_back(type(P->getType()));
    O["params"] = std::move(Ps);
    if (inRoot(FD->getLocation())) Pending.push_back(FD);
    return O;
  }
  Value varDecl(const VarDecl* V) {
    Object O{{"id", localId(V)}, {"name", V->getNameAsString()}, {"type", type(V->getType())}};
    O["loc"] = loc(V->getLocation());
    if (V->isStaticLocal()) {
      O["static"] = true;
      O["const"] = V->getType().isConstQualified();
      if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    }
    if (V->getInit()) O["init"] = stmt(V->getInit());
    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto* X : DD->bindings()) {
        Object BO{{"id", localId(X)}, {"name", X->getNameAsString()}};
        if (X->getBinding() && !X->getHoldingVar())
          if (auto* ME = dyn_cast<MemberExpr>(X->getBinding()->IgnoreParenImpCasts()))
            BO["field"] = ME->getMemberDecl()->getNameAsString();
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    return O;
  }
  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto* E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
    if (auto* E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr());
    if (auto* E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
    if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
    if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(E->getExpr());
    if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
    if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) {
      return Object{{"k", "StdInitList"}, {"t", type(E->getType())}, {"c", Array{stmt(E->getSubExpr())}}};
    }
    Object O;
    std::string K = S->getStmtClassName();
    O["l"] = loc(S->getBeginLoc());
    if (auto* E = dyn_cast<Expr>(S)) {
      O["t"] = type(E->getType());
      if (E->isGLValue()) O["lv"] = true;
    }
    auto kids = [&](std::initializer_list<const Stmt*> L) {
      Array A;
      for (auto* X : L) A.push_back(stmt(X));
      O["c"] = std::move(A);
    };
    if (auto* E = dyn_cast<IntegerLiteral>(S)) {
      O["v"] = llvm::toString(E->getValue(), 10, E->getType()->isSignedIntegerType());
    } else if (auto* E = dyn_cast<FloatingLiteral>(S)) {
      bool li; llvm::APFloat F = E->getValue();
      F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      char b[64]; snprintf(b, sizeof b, "%a", F.convertToDouble());
      O["v"] = std::string(b);
      SmallString<32> Dec; F.toString(Dec); O["dec"] = Dec.str().str();
    } else if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["v"] = E->getValue();
    } else if (auto* E = dyn_cast<CharacterLiteral>(S)) {
      O["v"] = (int64_t)E->getValue();
    } else if (auto* E = dyn_cast<StringLiteral>(S)) {
      O["v"] = E->isOrdinary() ? Value(llvm::json::fixUTF8(E->getString())) : Value(nullptr);
    } else if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl* D = E->getDecl();
      O["name"] = D->getNameAsString();
      if (auto* FD = dyn_cast<FunctionDecl>(D)) { O["rk"] = "fn"; O["callee"] = calleeRef(FD); }
      else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        O["rk"] = "enum"; O["v"] = llvm::toString(EC->getInitVal(), 10);
        O["q"] = qname(EC);
      } else if (auto* BD = dyn_cast<BindingDecl>(D)) { O["rk"] = "local"; O["id"] = localId(BD); }
      else if (auto* VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          O["rk"] = "global"; O["q"] = qname(VD); O["usr"] = usr(VD);
          if (inRoot(VD->getLocation())) doGlobal(VD);
          else if (auto* Def = VD->getDefinition(); Def && Def->getInit() && !Def->getInit()->isValueDependent()) {
            if (const APValue* AV = Def->evaluateValue()) {
              if (AV->isInt()) O["ival"] = llvm::toString(AV->getInt(), 10);
              else if (AV->isFloat()) { char b[64]; snprintf(b, sizeof b, "%a", AV->getFloat().convertToDouble()); O["fval"] = std::string(b); }
            }
          }
        } else { O["rk"] = "local"; O["id"] = localId(VD); }
      } else O["rk"] = "other";
    } else if (auto* E = dyn_cast<MemberExpr>(S)) {
      O["name"] = E->getMemberDecl()->getNameAsString();
      O["arrow"] = E->isArrow();
      if (auto* FD = dyn_cast<FunctionDecl>(E->getMemberDecl())) O["callee"] = calleeRef(FD);
      else if (auto* VD = dyn_cast<VarDecl>(E->getMemberDecl())) {
        O["rk"] = "global"; O["q"] = qname(VD); O["usr"] = usr(VD);
        if (inRoot(VD->getLocation())) doGlobal(VD);
      } else if (auto* F = dyn_cast<FieldDecl>(E->getMemberDecl())) {
        O["frec"] = qname(F->getParent());
      }
      kids({E->getBase()});
    } else if (auto* E = dyn_cast<CastExpr>(S)) {
      K = "Cast";
      O["ck"] = E->getCastKindName();
      O["explicit"] = isa<ExplicitCastExpr>(S);
      if (isa<CXXConstCastExpr>(S)) O["constcast"] = true;
      if (auto* D = dyn_cast<CXXDynamicCastExpr>(S)) { (void)D; O["dyn"] = true; }
      kids({E->getSubExpr()});
    } else if (auto* E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      O["post"] = E->isPostfix();
      kids({E->getSubExpr()});
    } else if (auto* E = dyn_cast<BinaryOperator>(S)) {
      K = E->isCompoundAssignmentOp() ? "CompoundAssign" : "Binary";
      O["op"] = E->getOpcodeStr().str();
      if (auto* CA = dyn_cast<CompoundAssignOperator>(E)) {
        O["ct"] = type(CA->getComputationResultType());
        O["lt"] = type(CA->getComputationLHSType());
      }
      kids({E->getLHS(), E->getRHS()});
    } else if (auto* E = dyn_cast<ConditionalOperator>(S)) {
      kids({E->getCond(), E->getTrueExpr(), E->getFalseExpr()});
    } else if (auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
      K = "OpCall";
      if (auto* FD = E->getDirectCallee()) O["callee"] = calleeRef(FD);
      O["op"] = getOperatorSpelling(E->getOperator());
      Array A;
      for (auto* X : E->arguments()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    } else if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) {
      K = "MemberCall";
      if (auto* M = E->getMethodDecl()) O["callee"] = calleeRef(M);
      if (auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
        O["arrow"] = ME->isArrow();
        O["qualified"] = ME->hasQualifier();
        O["obj"] = stmt(ME->getBase());
      }
      Array A;
      for (auto* X : E->arguments()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    } else if (auto* E = dyn_cast<CallExpr>(S)) {
      K = "Call";
      if (auto* FD = E->getDirectCallee()) O["callee"] = calleeRef(FD);
      else O["fn"] = stmt(E->getCallee());
      Array A;
      for (auto* X : E->arguments()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    } else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      K = "Construct";
      O["callee"] = calleeRef(E->getConstructor());
      O["elidable"] = E->isElidable();
      O["copymove"] = E->getConstructor()->isCopyOrMoveConstructor();
      O["move"] = E->getConstructor()->isMoveConstructor();
      O["defctor"] = E->getConstructor()->isDefaultConstructor();
      O["implicit"] = E->getConstructor()->isImplicit() || E->getConstructor()->isDefaulted();
      O["list"] = E->isListInitialization();
      Array A;
      for (auto* X : E->arguments()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    } else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) {
      K = "Materialize";
      kids({E->getSubExpr()});
    } else if (auto* E = dyn_cast<InitListExpr>(S)) {
      K = "InitList";
      Array A;
      for (auto* X : E->inits()) A.push_back(stmt(X));
      O["c"] = std::move(A);
      if (E->hasArrayFiller()) O["filler"] = true;
    } else if (auto* E = dyn_cast<LambdaExpr>(S)) {
      K = "Lambda";
      Array Caps;
      auto ci = E->capture_init_begin();
      for (auto& X : E->captures()) {
        Object CO;
        if (X.capturesThis()) { CO["this"] = true; CO["byref"] = X.getCaptureKind() == LCK_This; }
        else if (X.capturesVariable()) {
          CO["id"] = localId(X.getCapturedVar());
          CO["name"] = X.getCapturedVar()->getNameAsString();
          CO["byref"] = X.getCaptureKind() == LCK_ByRef;
          if (auto* VD = dyn_cast<VarDecl>(X.getCapturedVar()); VD && VD->isInitCapture())
            CO["init"] = stmt(VD->getInit());
          (void)ci;
        }
        ++ci;
        Caps.push_back(std::move(CO));
      }
      O["captures"] = std::move(Caps);
      O["mutable"] = E->isMutable();
      Array Ops;
      auto* Op = E->getCallOperator();
      if (auto* FT = Op->getDescribedFunctionTemplate()) {
        for (auto* Sp : FT->specializations()) {
          if (!Sp->hasBody()) continue;
          doFunction(Sp);
          Ops.push_back(usr(Sp));
        }
      } else {
        doFunction(Op);
        Ops.push_back(usr(Op));
      }
      O["ops"] = std::move(Ops);
    } else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) O["v"] = llvm::toString(R.Val.getInt(), 10);
    } else if (auto* E = dyn_cast<SizeOfPackExpr>(S)) {
      if (!E->isValueDependent()) { K = "UnaryExprOrTypeTraitExpr"; O["v"] = std::to_string(E->getPackLength()); }
    } else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      O["at"] = type(E->getAllocatedType());
      kids({E->getConstructExpr()});
    } else if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
      K = "ValueInit";
    } else if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
      kids({E->getSubExpr()});
    } else if (auto* E = dyn_cast<PredefinedExpr>(S)) {
      K = "StringLiteral"; O["v"] = "";
    } else if (auto* D = dyn_cast<DeclStmt>(S)) {
      Array A;
      for (auto* X : D->decls()) {
        if (auto* V = dyn_cast<VarDecl>(X)) A.push_back(varDecl(V));
      }
      O["decls"] = std::move(A);
    } else if (auto* I = dyn_cast<IfStmt>(S)) {
      if (I->isConstexpr()) {
        O["constexpr"] = true;
        if (auto V = I->getNondiscardedCase(C)) {
          // only the kept branch
          O["kept"] = *V ? stmt(*V) : Value(nullptr);
          O["k"] = "IfConstexpr";
          if (I->getInit()) O["init"] = stmt(I->getInit());
          return O;
        }
      }
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["condvar"] = varDecl(I->getConditionVariable());
      kids({I->getCond(), I->getThen(), I->getElse()});
    } else if (auto* W = dyn_cast<WhileStmt>(S)) {
      if (W->getConditionVariable()) O["condvar"] = varDecl(W->getConditionVariable());
      kids({W->getCond(), W->getBody()});
    } else if (auto* W = dyn_cast<DoStmt>(S)) {
      kids({W->getCond(), W->getBody()});
    } else if (auto* F = dyn_cast<ForStmt>(S)) {
      kids({F->getInit(), F->getCond(), F->getInc(), F->getBody()});
      if (F->getConditionVariable()) O["condvar"] = varDecl(F->getConditionVariable());
    } else if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
      K = "ForRange";
      if (F->getInit()) O["init"] = stmt(F->getInit());
      O["range"] = stmt(F->getRangeInit());
      O["var"] = varDecl(F->getLoopVariable());
      O["body"] = stmt(F->getBody());
    } else if (auto* Sw = dyn_cast<SwitchStmt>(S)) {
      if (Sw->getInit()) O["init"] = stmt(Sw->getInit());
      if (Sw->getConditionVariable()) O["condvar"] = varDecl(Sw->getConditionVariable());
      kids({Sw->getCond(), Sw->getBody()});
    } else if (auto* Cs = dyn_cast<CaseStmt>(S)) {
      kids({Cs->getLHS(), Cs->getSubStmt()});
    } else if (auto* D = dyn_cast<DefaultStmt>(S)) {
      kids({D->getSubStmt()});
    } else if (auto* R = dyn_cast<ReturnStmt>(S)) {
      kids({R->getRetValue()});
    } else if (auto* T = dyn_cast<CXXTryStmt>(S)) {
      Array A;
      A.push_back(stmt(T->getTryBlock()));
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto* H = T->getHandler(i);
        Object HO;
        if (H->getExceptionDecl()) HO["var"] = varDecl(H->getExceptionDecl());
        HO["body"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["c"] = std::move(A);
    } else {
      // generic: children in order
      Array A;
      for (auto* X : S->children()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    }
    O["k"] = K;
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  explicit Visitor(Dumper& D) : D(D) {}
  Dumper& D;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (D.inRoot(F->getLocation()) && !F->isDependentContext() && F->doesThisDeclarationHaveABody()) {
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      D.doFunction(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (D.inRoot(R->getLocation()) && !R->isLambda()) D.doRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (D.inRoot(V->getLocation()) && V->hasGlobalStorage() && !V->isStaticLocal() &&
        !V->getDeclContext()->isDependentContext()) D.doGlobal(V);
    return true;
  }
  bool TraverseNamespaceDecl(NamespaceDecl* N) {
    if (!D.inRoot(N->getLocation())) return true;  // skip library namespaces
    return RecursiveASTVisitor::TraverseNamespaceDecl(N);
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    for (auto* X : C.getTranslationUnitDecl()->decls()) {
      if (D.inRoot(X->getLocation()) || isa<NamespaceDecl>(X)) V.TraverseDecl(X);
    }
    // out-of-line instantiations reached by calls
    while (!D.Pending.empty()) {
      auto* F = D.Pending.back(); D.Pending.pop_back();
      D.doFunction(F);
    }
    Object O;
    O["functions"] = std::move(D.Functions);
    O["records"] = std::move(D.Records);
    O["enums"] = std::move(D.Enums);
    O["globals"] = std::move(D.Globals);
    O["types"] = std::move(D.Types);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

int main(int argc, const char** argv) {
  // export ROOT OUT FILE -- flags...
  if (argc < 4) return 2;
  Root = argv[1];
  OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
