// Writes the type-resolved syntax tree of every function that is defined below a given root
// as JSON.  usage: extract ROOT OUT.json SOURCE -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root, Out;

namespace {
struct Ser {
    ASTContext& C;
    SourceManager& SM;
    std::map<const void*, int> ids;
    std::map<std::string, int> typeIds;
    json::Array types;
    json::Object funcs, records, enums, globals;
    std::set<const FunctionDecl*> pending;
    Ser(ASTContext& C) : C(C), SM(C.getSourceManager()) {}

    std::string usr(const Decl* D) {
        llvm::SmallString<256> b;
        index::generateUSRForDecl(D->getCanonicalDecl(), b);
        return std::string(b);
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto P = SM.getPresumedLoc(L, false);
        if (P.isInvalid()) return "";
        llvm::SmallString<256> real;
        std::string f = P.getFilename();
        if (!llvm::sys::fs::real_path(f, real)) f = std::string(real);
        return f;
    }
    bool inRepo(const Decl* D) {
        std::string f = fileOf(D->getLocation());
        return f.rfind(Root + "/src/", 0) == 0 || f.rfind(Root + "/generator/", 0) == 0;
    }
    int line(SourceLocation L) { return L.isValid() ? (int) SM.getExpansionLineNumber(L) : 0; }
    std::string rel(SourceLocation L) {
        std::string f = fileOf(L);
        if (f.rfind(Root + "/", 0) == 0) f = f.substr(Root.size() + 1);
        return f;
    }
    std::string varId(const ValueDecl* D) {
        if (auto* V = dyn_cast<VarDecl>(D))
            if (V->hasGlobalStorage() && !V->isStaticLocal()) return "g:" + usr(V);
        auto it = ids.emplace(D->getCanonicalDecl(), (int) ids.size() + 1);
        return "v" + std::to_string(it.first->second);
    }

    int type(QualType Q) {
        if (Q.isNull()) return -1;
        Q = Q.getCanonicalType();
        bool isRef = Q->isReferenceType(), rv = Q->isRValueReferenceType();
        bool cst = false;
        if (isRef) Q = Q->getPointeeType();
        cst = Q.isConstQualified();
        Q = Q.getUnqualifiedType();
        std::string s = Q.getAsString();
        std::string key = s + (isRef ? (rv ? "&&" : "&") : "") + (cst ? "#c" : "");
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = (int) types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        json::Object o;
        if (isRef) o["ref"] = rv ? 2 : 1;
        if (cst) o["const"] = true;
        o["s"] = s.size() > 400 ? s.substr(0, 400) : s;
        const Type* T = Q.getTypePtr();
        if (T->isBooleanType()) o["c"] = "bool";
        else if (T->isEnumeralType()) {
            o["c"] = "enum";
            auto* E = T->getAs<EnumType>()->getDecl();
            o["n"] = E->getQualifiedNameAsString();
            addEnum(E);
        } else if (T->isIntegerType()) {
            o["c"] = "int";
            o["n"] = s;
            o["w"] = (int64_t) C.getTypeSize(Q);
            o["u"] = T->isUnsignedIntegerType();
        } else if (T->isRealFloatingType()) {
            o["c"] = "float";
            o["w"] = (int64_t) C.getTypeSize(Q);
            o["n"] = s;
        } else if (T->isPointerType()) {
            o["c"] = "ptr";
            o["el"] = json::Array{type(T->getPointeeType())};
        } else if (T->isArrayType()) {
            o["c"] = "arr";
            o["el"] = json::Array{type(QualType(T->getArrayElementTypeNoTypeQual(), 0))};
            if (auto* CA = dyn_cast<ConstantArrayType>(T)) o["len"] = (int64_t) CA->getSize().getZExtValue();
        } else if (auto* R = T->getAsCXXRecordDecl()) {
            o["c"] = "rec";
            o["n"] = R->getQualifiedNameAsString();
            if (R->isLambda()) o["lambda"] = true;
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                json::Array el;
                bool eigenExpr = R->getQualifiedNameAsString().rfind("Eigen::", 0) == 0 &&
                                 R->getName() != "Matrix" && R->getName() != "Triplet" && R->getName() != "SparseMatrix";
                if (!eigenExpr)
                    for (auto& A : S->getTemplateArgs().asArray()) {
                        if (A.getKind() == TemplateArgument::Type) el.push_back(type(A.getAsType()));
                        else if (A.getKind() == TemplateArgument::Integral)
                            el.push_back(json::Object{{"int", A.getAsIntegral().getExtValue()}});
                        else el.push_back(nullptr);
                    }
                o["el"] = std::move(el);
            }
            if (R->hasDefinition() && inRepo(R)) {
                o["repo"] = true;
                addRecord(R->getDefinition());
            }
            o["usr"] = usr(R);
        } else if (T->isVoidType()) o["c"] = "void";
        else if (T->isNullPtrType()) o["c"] = "null";
        else o["c"] = "other";
        types[id] = std::move(o);
        return id;
    }

    void addEnum(const EnumDecl* E) {
        std::string n = E->getQualifiedNameAsString();
        if (enums.get(n)) return;
        json::Array a;
        for (auto* c : E->enumerators()) {
            a.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()});
            if (a.size() > 64) break;
        }
        enums[n] = json::Object{{"values", std::move(a)}, {"repo", inRepo(E)}};
    }

    void addRecord(const CXXRecordDecl* R) {
        std::string u = usr(R);
        if (records.get(u)) return;
        if (R->isDependentType()) return;
        records[u] = nullptr;
        json::Object o;
        o["n"] = R->getQualifiedNameAsString();
        o["file"] = rel(R->getLocation());
        o["line"] = line(R->getLocation());
        json::Array bases;
        for (auto& B : R->bases())
            if (auto* BR = B.getType()->getAsCXXRecordDecl()) {
                bases.push_back(json::Object{{"usr", usr(BR)}, {"n", BR->getQualifiedNameAsString()}});
                if (BR->hasDefinition() && inRepo(BR)) addRecord(BR->getDefinition());
            }
        o["bases"] = std::move(bases);
        json::Array fs;
        for (auto* F : R->fields()) {
            json::Object fo;
            fo["n"] = F->getNameAsString();
            fo["t"] = type(F->getType());
            fo["acc"] = F->getAccess() == AS_public ? "public" : "private";
            if (F->isMutable()) fo["mutable"] = true;
            fo["line"] = line(F->getLocation());
            if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* M : R->methods()) {
            json::Object mo{{"usr", usr(M)}, {"n", M->getNameAsString()}};
            if (M->isVirtual()) mo["virt"] = true;
            if (M->isPureVirtual()) mo["pure"] = true;
            json::Array ov;
            for (auto* O : M->overridden_methods()) ov.push_back(usr(O));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
                mo["ctor"] = true;
                if (K->isDefaultConstructor()) mo["dflt"] = true;
                if (K->isDeleted()) mo["deleted"] = true;
            }
            if (M->isUserProvided()) mo["user"] = true;
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records[u] = std::move(o);
    }

    json::Object fnRef(const FunctionDecl* F) {
        json::Object o;
        o["q"] = F->getQualifiedNameAsString();
        o["usr"] = usr(F);
        o["ret"] = type(F->getReturnType());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            o["rec"] = M->getParent()->getQualifiedNameAsString();
            if (M->getParent()->isLambda()) o["lambdaop"] = true;
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            if (K->isCopyConstructor()) o["cc"] = "copy";
            else if (K->isMoveConstructor()) o["cc"] = "move";
            else if (K->isDefaultConstructor()) o["cc"] = "default";
            if (K->isUserProvided()) o["user"] = true;
        } else if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isCopyAssignmentOperator()) o["as"] = "copy";
            if (M->isMoveAssignmentOperator()) o["as"] = "move";
            if (M->isUserProvided()) o["user"] = true;
        }
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        json::Array ps;
        for (auto* P : F->parameters()) ps.push_back(type(P->getType()));
        o["ps"] = std::move(ps);
        if (F->isNoReturn()) o["noreturn"] = true;
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& A : TA->asArray())
                if (A.getKind() == TemplateArgument::Type) ta.push_back(type(A.getAsType()));
            json::Array ti;
            for (auto& A : TA->asArray())
                if (A.getKind() == TemplateArgument::Integral) ti.push_back(A.getAsIntegral().getExtValue());
            if (!ti.empty()) o["ti"] = std::move(ti);
            o["ta"] = std::move(ta);
        }
        const FunctionDecl* D = nullptr;
        if (inRepo(F)) {
            o["repo"] = true;
            if (F->hasBody(D) && D) {
                pending.insert(D);
            }
        }
        return o;
    }

    json::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        json::Array a;
        for (auto* e : r) a.push_back(expr(e));
        return a;
    }

    json::Value lambda(const LambdaExpr* L) {
        json::Object o{{"k", "lambda"}, {"l", line(L->getBeginLoc())}};
        json::Array caps;
        auto it = L->capture_init_begin();
        for (auto& c : L->captures()) {
            json::Object co;
            if (c.capturesThis()) co["this"] = true;
            else if (c.capturesVariable()) {
                co["var"] = varId(c.getCapturedVar());
                co["name"] = c.getCapturedVar()->getNameAsString();
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (auto* VD = dyn_cast<VarDecl>(c.getCapturedVar()))
                    if (VD->isInitCapture() && VD->getInit()) co["init"] = expr(VD->getInit());
            }
            ++it;
            caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        const CXXMethodDecl* M = L->getCallOperator();
        if (L->isGenericLambda()) {
            o["generic"] = true;
            json::Array insts;
            if (auto* FT = M->getDescribedFunctionTemplate())
                for (auto* S : FT->specializations())
                    if (S->getBody()) {
                        insts.push_back(json::Object{{"usr", usr(S)}, {"params", params(S)}, {"body", stmt(S->getBody())}});
                    }
            o["insts"] = std::move(insts);
        } else {
            o["params"] = params(M);
            o["body"] = stmt(L->getBody());
            o["usr"] = usr(M);
        }
        return o;
    }
    json::Value params(const FunctionDecl* F) {
        json::Array ps;
        for (auto* P : F->parameters())
            ps.push_back(json::Object{{"id", varId(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
        return ps;
    }

    json::Value expr(const Expr* E) {
        if (!E) return nullptr;
        // transparent wrappers
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            auto v = expr(X->getSubExpr());
            if (auto* o = v.getAsObject()) (*o)["std_il"] = true;
            return v;
        }
        if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        int t = type(E->getType());
        int l = line(E->getExprLoc());
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<32> s;
            X->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
            return json::Object{{"k", "int"}, {"v", std::string(s)}, {"t", t}};
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            llvm::SmallString<32> s;
            X->getValue().toString(s);
            return json::Object{{"k", "float"}, {"v", std::string(s)}, {"d", X->getValueAsApproximateDouble()}, {"t", t}};
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) return json::Object{{"k", "bool"}, {"v", X->getValue()}};
        if (auto* X = dyn_cast<StringLiteral>(E)) {
            std::string s = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("<wide>");
            return json::Object{{"k", "str"}, {"v", json::fixUTF8(s)}, {"t", t}};
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) return json::Object{{"k", "char"}, {"v", (int64_t) X->getValue()}, {"t", t}};
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return json::Object{{"k", "null"}};
        if (isa<CXXThisExpr>(E)) return json::Object{{"k", "this"}, {"t", t}};
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                if (auto* ED = dyn_cast<EnumDecl>(EC->getDeclContext())) addEnum(ED);
                return json::Object{{"k", "enumc"}, {"n", EC->getQualifiedNameAsString()},
                                    {"v", EC->getInitVal().getExtValue()}, {"t", t}};
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) return json::Object{{"k", "fn"}, {"fn", fnRef(F)}, {"t", t}};
            if (auto* BD = dyn_cast<BindingDecl>(D)) return json::Object{{"k", "var"}, {"id", varId(BD)}, {"n", BD->getNameAsString()}, {"t", t}};
            json::Object o{{"k", "var"}, {"id", varId(D)}, {"n", D->getNameAsString()}, {"t", t}, {"l", l}};
            if (auto* V = dyn_cast<VarDecl>(D))
                if (V->hasGlobalStorage()) {
                    o["global"] = true;
                    o["q"] = V->getQualifiedNameAsString();
                    if (inRepo(V)) addGlobal(V);
                    else if (auto* init = V->getAnyInitializer()) {
                        // constants of libraries (e.g. std::numbers::pi, string::npos)
                        Expr::EvalResult R;
                        if (V->getType().isConstQualified() && !init->isValueDependent() && init->EvaluateAsRValue(R, C)) {
                            if (R.Val.isInt()) o["cv"] = llvm::toString(R.Val.getInt(), 10);
                            else if (R.Val.isFloat()) o["cvd"] = R.Val.getFloat().convertToDouble();
                        }
                    }
                }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            auto* D = X->getMemberDecl();
            if (auto* V = dyn_cast<VarDecl>(D)) {
                json::Object o{{"k", "var"}, {"id", varId(V)}, {"n", V->getNameAsString()}, {"t", t}, {"global", true}, {"q", V->getQualifiedNameAsString()}};
                if (inRepo(V)) addGlobal(V);
                return o;
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D))
                return json::Object{{"k", "enumc"}, {"n", EC->getQualifiedNameAsString()}, {"v", EC->getInitVal().getExtValue()}, {"t", t}};
            json::Object o{{"k", "mem"}, {"b", expr(X->getBase())}, {"f", D->getNameAsString()}, {"t", t}, {"l", l}};
            if (X->isArrow()) o["arrow"] = true;
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                if (auto* R = dyn_cast<CXXRecordDecl>(F->getParent())) o["rec"] = R->getQualifiedNameAsString();
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) o["fn"] = fnRef(F);
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            json::Object o{{"k", "call"}, {"l", l}, {"t", t}, {"op", getOperatorSpelling(X->getOperator())}};
            if (auto* F = X->getDirectCallee()) {
                o["fn"] = fnRef(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
                    o["obj"] = expr(X->getArg(0));
                    json::Array a;
                    for (unsigned i = 1; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
                    o["args"] = std::move(a);
                    return o;
                }
            }
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            json::Object o{{"k", "call"}, {"l", l}, {"t", t}};
            if (auto* M = X->getMethodDecl()) {
                o["fn"] = fnRef(M);
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
                    if (ME->isArrow()) o["arrow"] = true;
                    if (ME->hasQualifier()) o["nonvirt"] = true;
                }
            }
            if (X->getImplicitObjectArgument()) o["obj"] = expr(X->getImplicitObjectArgument());
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            json::Object o{{"k", "call"}, {"l", l}, {"t", t}};
            if (auto* F = X->getDirectCallee()) o["fn"] = fnRef(F);
            else o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            // elidable copies/moves are transparent
            auto* K = X->getConstructor();
            if (X->isElidable() && X->getNumArgs() >= 1 && K->isCopyOrMoveConstructor()) return expr(X->getArg(0));
            json::Object o{{"k", "ctor"}, {"l", l}, {"t", t}, {"fn", fnRef(K)}};
            json::Array a;
            for (auto* e : X->arguments()) a.push_back(expr(e));
            o["args"] = std::move(a);
            if (X->isListInitialization()) o["list"] = true;
            if (X->requiresZeroInitialization()) o["zero"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return json::Object{{"k", "unk"}, {"n", "inheritedctor"}};
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            return json::Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(X->getOpcode()).str()},
                                {"post", X->isPostfix()}, {"e", expr(X->getSubExpr())}, {"t", t}, {"l", l}};
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
            std::string op = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
            return json::Object{{"k", "casg"}, {"op", op.substr(0, op.size() - 1)}, {"a", expr(X->getLHS())}, {"b", expr(X->getRHS())},
                                {"ct", type(X->getComputationLHSType())}, {"t", t}, {"l", l}};
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            if (X->getOpcode() == BO_Assign)
                return json::Object{{"k", "asg"}, {"a", expr(X->getLHS())}, {"b", expr(X->getRHS())}, {"t", t}, {"l", l}};
            return json::Object{{"k", "bin"}, {"op", X->getOpcodeStr().str()}, {"a", expr(X->getLHS())}, {"b", expr(X->getRHS())}, {"t", t}, {"l", l}};
        }
        if (auto* X = dyn_cast<ConditionalOperator>(E))
            return json::Object{{"k", "cond"}, {"c", expr(X->getCond())}, {"a", expr(X->getTrueExpr())}, {"b", expr(X->getFalseExpr())}, {"t", t}};
        if (auto* X = dyn_cast<BinaryConditionalOperator>(E))
            return json::Object{{"k", "cond"}, {"c", expr(X->getCond())}, {"a", expr(X->getTrueExpr())}, {"b", expr(X->getFalseExpr())}, {"t", t}};
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
            return json::Object{{"k", "sub"}, {"a", expr(X->getBase())}, {"i", expr(X->getIdx())}, {"t", t}};
        if (auto* X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_NoOp: case CK_LValueToRValue: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
            case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ConstructorConversion:
            case CK_BuiltinFnToFnPtr: case CK_NullToPointer: case CK_LValueBitCast:
                if (auto* CE = dyn_cast<ExplicitCastExpr>(E); CE && X->getCastKind() == CK_LValueBitCast)
                    return json::Object{{"k", "cast"}, {"ck", "LValueBitCast"}, {"e", expr(X->getSubExpr())}, {"t", t}};
                return expr(X->getSubExpr());
            case CK_UserDefinedConversion:
                return expr(X->getSubExpr());
            default: break;
            }
            return json::Object{{"k", "cast"}, {"ck", X->getCastKindName()}, {"e", expr(X->getSubExpr())}, {"t", t},
                                {"from", type(X->getSubExpr()->getType())}, {"l", l}};
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) return lambda(X);
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            json::Array a;
            for (auto* e : X->inits()) a.push_back(expr(e));
            return json::Object{{"k", "initlist"}, {"args", std::move(a)}, {"t", t}};
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return json::Object{{"k", "zero"}, {"t", t}};
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            json::Object o{{"k", "new"}, {"t", t}, {"l", l}, {"at", type(X->getAllocatedType())}};
            if (X->isArray()) o["array"] = true;
            if (X->getInitializer()) o["init"] = expr(X->getInitializer());
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) return json::Object{{"k", "delete"}, {"e", expr(X->getArgument())}};
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            return json::Object{{"k", "throw"}, {"e", X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr)}, {"l", l}};
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (X->EvaluateAsInt(R, C)) return json::Object{{"k", "int"}, {"v", llvm::toString(R.Val.getInt(), 10)}, {"t", t}};
        }
        if (auto* X = dyn_cast<CXXTypeidExpr>(E)) return json::Object{{"k", "unk"}, {"n", "typeid"}};
        if (auto* X = dyn_cast<StmtExpr>(E)) return json::Object{{"k", "unk"}, {"n", "StmtExpr"}};
        if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) return expr(X->getCommonExpr());
        json::Array ch;
        for (auto* s : E->children())
            if (auto* e = dyn_cast_or_null<Expr>(s)) ch.push_back(expr(e));
        return json::Object{{"k", "unk"}, {"n", E->getStmtClassName()}, {"ch", std::move(ch)}, {"t", t}, {"l", l}};
    }

    void addGlobal(const VarDecl* V) {
        std::string u = "g:" + usr(V);
        if (globals.get(u)) return;
        globals[u] = nullptr;
        json::Object o{{"n", V->getQualifiedNameAsString()}, {"t", type(V->getType())}, {"const", V->getType().isConstQualified()}};
        if (auto* I = V->getAnyInitializer()) o["init"] = expr(I);
        globals[u] = std::move(o);
    }

    json::Value vardecl(const VarDecl* V) {
        json::Object o{{"id", varId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", line(V->getLocation())}};
        if (V->getInit()) o["init"] = expr(V->getInit());
        if (V->isStaticLocal()) o["static"] = true;
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto* B : D->bindings()) {
                json::Object bo{{"id", varId(B)}, {"n", B->getNameAsString()}, {"t", type(B->getType())}};
                if (auto* h = B->getHoldingVar()) {
                    bo["hold"] = varId(h);
                    if (h->getInit()) bo["init"] = expr(h->getInit());
                } else if (B->getBinding()) bo["e"] = expr(B->getBinding());
                bs.push_back(std::move(bo));
            }
            o["binds"] = std::move(bs);
        }
        return o;
    }

    json::Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        int l = line(S->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(S)) return json::Object{{"k", "expr"}, {"e", expr(E)}, {"l", l}};
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            json::Array a;
            for (auto* s : X->body()) a.push_back(stmt(s));
            return json::Object{{"k", "block"}, {"s", std::move(a)}, {"l", l}};
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            json::Array a;
            for (auto* d : X->decls())
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
            return json::Object{{"k", "decl"}, {"d", std::move(a)}, {"l", l}};
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            json::Object o{{"k", "if"}, {"l", l}, {"then", stmt(X->getThen())}};
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getElse()) o["else"] = stmt(X->getElse());
            if (X->isConstexpr()) {
                o["constexpr"] = true;
                Expr::EvalResult R;
                if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R, C))
                    o["cval"] = R.Val.getInt().getBoolValue();
            }
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            json::Object o{{"k", "for"}, {"l", l}, {"body", stmt(X->getBody())}};
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            json::Object o{{"k", "rfor"}, {"l", l}, {"range", expr(X->getRangeInit())}, {"var", vardecl(X->getLoopVariable())}, {"body", stmt(X->getBody())}};
            if (X->getInit()) o["init"] = stmt(X->getInit());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            json::Object o{{"k", "while"}, {"l", l}, {"c", expr(X->getCond())}, {"body", stmt(X->getBody())}};
            if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) return json::Object{{"k", "do"}, {"l", l}, {"c", expr(X->getCond())}, {"body", stmt(X->getBody())}};
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            json::Object o{{"k", "return"}, {"l", l}};
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S)) return json::Object{{"k", "break"}, {"l", l}};
        if (isa<ContinueStmt>(S)) return json::Object{{"k", "continue"}, {"l", l}};
        if (isa<NullStmt>(S)) return json::Object{{"k", "null"}};
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            json::Object o{{"k", "switch"}, {"l", l}, {"c", expr(X->getCond())}, {"body", stmt(X->getBody())}};
            if (X->getInit()) o["init"] = stmt(X->getInit());
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            json::Object o{{"k", "case"}, {"l", l}, {"sub", stmt(X->getSubStmt())}};
            Expr::EvalResult R;
            if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10);
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) return json::Object{{"k", "default"}, {"l", l}, {"sub", stmt(X->getSubStmt())}};
        if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
        if (auto* X = dyn_cast<OMPCanonicalLoop>(S)) return stmt(X->getLoopStmt());
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            json::Array hs;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto* H = X->getHandler(i);
                json::Object ho{{"body", stmt(H->getHandlerBlock())}};
                if (H->getExceptionDecl()) ho["var"] = vardecl(H->getExceptionDecl());
                hs.push_back(std::move(ho));
            }
            return json::Object{{"k", "try"}, {"l", l}, {"body", stmt(X->getTryBlock())}, {"handlers", std::move(hs)}};
        }
        if (auto* X = dyn_cast<OMPExecutableDirective>(S)) {
            json::Array cls;
            for (auto* c : X->clauses()) {
                if (!c || c->isImplicit()) continue;
                json::Object co{{"n", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
                json::Array vs;
                if (auto* R = dyn_cast<OMPReductionClause>(c)) {
                    co["op"] = R->getNameInfo().getAsString();
                    for (auto* e : R->varlists()) vs.push_back(expr(e));
                } else if (auto* R = dyn_cast<OMPPrivateClause>(c)) {
                    for (auto* e : R->varlists()) vs.push_back(expr(e));
                } else if (auto* R = dyn_cast<OMPFirstprivateClause>(c)) {
                    for (auto* e : R->varlists()) vs.push_back(expr(e));
                } else if (auto* R = dyn_cast<OMPLastprivateClause>(c)) {
                    for (auto* e : R->varlists()) vs.push_back(expr(e));
                }
                co["vars"] = std::move(vs);
                cls.push_back(std::move(co));
            }
            json::Object o{{"k", "omp"}, {"l", l}, {"n", llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str()}, {"clauses", std::move(cls)}};
            if (X->hasAssociatedStmt()) o["s"] = stmt(X->getRawStmt());
            return o;
        }
        if (isa<LabelStmt>(S) || isa<GotoStmt>(S)) return json::Object{{"k", "unk"}, {"n", S->getStmtClassName()}, {"l", l}};
        return json::Object{{"k", "unk"}, {"n", S->getStmtClassName()}, {"l", l}};
    }

    void addFunction(const FunctionDecl* F) {
        if (F->isDependentContext() || F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D) || !D || !D->doesThisDeclarationHaveABody()) return;
        if (auto* M = dyn_cast<CXXMethodDecl>(D))
            if (M->getParent()->isLambda()) return;
        if (!inRepo(D)) return;
        std::string u = usr(D);
        if (funcs.get(u)) return;
        if (D->isDefaulted() && !D->isUserProvided()) return;
        funcs[u] = nullptr;
        json::Object o;
        o["q"] = D->getQualifiedNameAsString();
        o["n"] = D->getNameAsString();
        o["file"] = rel(D->getLocation());
        o["line"] = line(D->getLocation());
        o["end"] = line(D->getEndLoc());
        o["ret"] = type(D->getReturnType());
        o["params"] = params(D);
        if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
            o["rec"] = M->getParent()->getQualifiedNameAsString();
            o["recusr"] = usr(M->getParent());
            addRecord(M->getParent());
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(D)) {
            o["kind"] = "ctor";
            json::Array is;
            for (auto* I : K->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) io["f"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer()) {
                    if (auto* BR = I->getBaseClass()->getAsCXXRecordDecl()) io["base"] = usr(BR);
                } else if (I->isDelegatingInitializer()) io["deleg"] = true;
                io["written"] = I->isWritten();
                if (I->getInit()) io["e"] = expr(I->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        } else if (isa<CXXDestructorDecl>(D)) o["kind"] = "dtor";
        else o["kind"] = "fn";
        o["body"] = stmt(D->getBody());
        funcs[u] = std::move(o);
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Ser& S;
    V(Ser& S) : S(S) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (S.inRepo(F)) S.addFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (R->isThisDeclarationADefinition() && !R->isLambda() && S.inRepo(R) && !R->isDependentType()) S.addRecord(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* D) {
        if (D->hasGlobalStorage() && !D->isStaticLocal() && S.inRepo(D) && !D->getType()->isDependentType()) S.addGlobal(D);
        return true;
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance& CI;
public:
    Consumer(CompilerInstance& CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
        Ser S(C);
        V v(S);
        // only visit top-level declarations of the repository (and namespaces they reopen)
        for (auto* D : C.getTranslationUnitDecl()->decls()) {
            if (S.inRepo(D)) v.TraverseDecl(D);
        }
        for (int guard = 0; guard < 50 && !S.pending.empty(); guard++) {
            auto p = S.pending;
            S.pending.clear();
            for (auto* F : p) S.addFunction(F);
        }
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        json::Object o{{"types", std::move(S.types)}, {"funcs", std::move(S.funcs)}, {"records", std::move(S.records)},
                       {"enums", std::move(S.enums)}, {"globals", std::move(S.globals)}};
        os << json::Value(std::move(o));
    }
    bool shouldSkipFunctionBody(Decl* D) override {
        auto& SM = CI.getSourceManager();
        auto L = SM.getExpansionLoc(D->getLocation());
        if (!SM.isInSystemHeader(L) && SM.getFilename(L).find("/usr/") == llvm::StringRef::npos) return false;
        auto* F = dyn_cast<FunctionDecl>(D);
        if (!F) if (auto* T = dyn_cast<FunctionTemplateDecl>(D)) F = T->getTemplatedDecl();
        // constexpr and deduced-return functions are needed for type checking
        if (F && (F->isConstexpr() || F->getReturnType()->getContainedAutoType() || F->getReturnType()->isUndeducedType())) return false;
        return true;
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(CI);
    }
};
} // namespace

int main(int argc, const char** argv) {
    if (argc < 5) return 64;
    Root = argv[1];
    Out = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db("/", flags);
    tooling::ClangTool tool(db, {src});
    struct F : tooling::FrontendActionFactory {
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
    } f;
    return tool.run(&f);
}
