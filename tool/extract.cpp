// AST extractor: dumps the *resolved* program (after preprocessing, overload
// resolution and template instantiation) of every function whose body lies
// under a given root as JSON.  Nothing is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;

static std::string Root;
static std::string OutFile;

static std::string esc(llvm::StringRef s) {
    std::string o; o.reserve(s.size() + 2); o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    o += '"'; return o;
}

struct Dumper {
    ASTContext &C; SourceManager &SM; PrintingPolicy P;
    std::map<const Decl *, int> ids;
    std::map<std::string, int> files; std::vector<std::string> fileNames;
    std::set<const FunctionDecl *> wanted; // callees met
    std::map<const CXXRecordDecl *, bool> recs;
    std::vector<const CXXRecordDecl *> recOrder;
    std::map<const EnumDecl *, bool> enums;
    std::vector<const EnumDecl *> enumOrder;

    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), P(c.getPrintingPolicy()) {
        P.SuppressTagKeyword = true; P.Bool = true; P.SuppressUnwrittenScope = true; P.FullyQualifiedName = true;
        P.PrintCanonicalTypes = true; P.AnonymousTagLocations = true;
    }
    int id(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1; ids[d] = n; return n;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "\"?\"";
        noteType(t);
        return esc(t.getCanonicalType().getAsString(P));
    }
    void noteType(QualType t) {
        t = t.getNonReferenceType();
        while (!t->getPointeeType().isNull()) t = t->getPointeeType();
        if (auto *r = t->getAsCXXRecordDecl()) noteRec(r);
        if (auto *e = t->getAs<EnumType>()) noteEnum(e->getDecl());
    }
    void noteRec(const CXXRecordDecl *r) {
        r = r->getDefinition(); if (!r) return;
        if (r->isDependentType()) return;
        if (recs.count(r)) return; recs[r] = true; recOrder.push_back(r);
    }
    void noteEnum(const EnumDecl *e) {
        e = e->getDefinition(); if (!e) return;
        if (enums.count(e)) return; enums[e] = true; enumOrder.push_back(e);
    }
    std::string recName(const CXXRecordDecl *r) {
        return C.getTypeDeclType(r).getCanonicalType().getAsString(P);
    }
    std::string fname(const FunctionDecl *f) { // readable qualified name
        std::string s; llvm::raw_string_ostream os(s);
        f->getNameForDiagnostic(os, P, true); os.flush();
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            // canonical class spelling
            std::string cls = m->getParent()->isLambda() ? ("lambda" + std::to_string(id(m->getParent()))) : recName(m->getParent());
            std::string nm; llvm::raw_string_ostream o2(nm);
            f->getNameForDiagnostic(o2, P, false); o2.flush();
            return cls + "::" + nm;
        }
        return s;
    }
    std::string fkey(const FunctionDecl *f) {
        std::string s = fname(f) + "(";
        bool first = true;
        for (auto *p : f->parameters()) { if (!first) s += ","; first = false; s += p->getType().getCanonicalType().getUnqualifiedType().getAsString(P); }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
        return s;
    }
    std::string qname(const FunctionDecl *f) { return f->getQualifiedNameAsString(); }

    std::string loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return std::to_string(SM.getExpansionLineNumber(l));
    }
    std::string file(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        return f.str();
    }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = file(l);
        return f.compare(0, Root.size(), Root) == 0 ;
    }

    // ---------------- expressions -----------------
    std::string args(llvm::ArrayRef<const Expr *> as) {
        std::string o = "["; bool first = true;
        for (auto *a : as) { if (!first) o += ","; first = false; o += expr(a); }
        return o + "]";
    }
    template <class It> std::string argsIt(It b, It e) {
        std::string o = "["; bool first = true;
        for (; b != e; ++b) { if (!first) o += ","; first = false; o += expr(*b); }
        return o + "]";
    }
    std::string callee(const FunctionDecl *f) {
        wanted.insert(f);
        std::string o = "\"fn\":" + esc(fkey(f)) + ",\"q\":" + esc(qname(f)) + ",\"name\":" + esc(f->getNameAsString());
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            noteRec(m->getParent());
            o += ",\"cls\":" + esc(recName(m->getParent()));
            if (m->isVirtual()) o += ",\"virt\":1";
            if (m->isStatic()) o += ",\"static\":1";
        }
        return o;
    }
    std::string expr(const Expr *e) {
        if (!e) return "null";
        e = strip(e);
        std::string r = expr1(e);
        return r;
    }
    const Expr *strip(const Expr *e) {
        for (;;) {
            if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) return e; e = x->getSourceExpr(); }
            else if (auto *x = dyn_cast<CastExpr>(e)) {
                switch (x->getCastKind()) {
                case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
                case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_Dynamic: case CK_BaseToDerived:
                case CK_FloatingCast:
                    return e;
                default:
                    e = x->getSubExpr();
                }
            } else return e;
        }
    }
    std::string expr1(const Expr *e) {
        std::string L = ",\"l\":" + loc(e->getBeginLoc());
        std::string T = ",\"t\":" + ty(e->getType());
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            return "{\"k\":\"int\",\"v\":" + std::string(s.str()) + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return std::string("{\"k\":\"bool\",\"v\":") + (x->getValue() ? "true" : "false") + L + "}";
        if (auto *x = dyn_cast<CharacterLiteral>(e)) return "{\"k\":\"int\",\"char\":1,\"v\":" + std::to_string(x->getValue()) + T + L + "}";
        if (auto *x = dyn_cast<FloatingLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s); return "{\"k\":\"float\",\"v\":" + esc(s) + L + "}"; }
        if (auto *x = dyn_cast<StringLiteral>(e)) return "{\"k\":\"str\",\"v\":" + (x->getCharByteWidth() == 1 ? esc(x->getString()) : std::string("\"\"")) + L + "}";
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return "{\"k\":\"null\"" + L + "}";
        if (isa<CXXThisExpr>(e)) return "{\"k\":\"this\"" + T + L + "}";
        if (auto *x = dyn_cast<DeclRefExpr>(e)) return declref(x->getDecl(), e);
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            auto *d = x->getMemberDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) return declref(ec, e);
            if (auto *vd = dyn_cast<VarDecl>(d)) return declref(vd, e);
            if (auto *fd = dyn_cast<FunctionDecl>(d)) return "{\"k\":\"memfn\"," + callee(fd) + ",\"b\":" + expr(x->getBase()) + L + "}";
            std::string own;
            if (auto *fld = dyn_cast<FieldDecl>(d)) if (auto *pr = dyn_cast<CXXRecordDecl>(fld->getParent())) { noteRec(pr); own = ",\"cls\":" + esc(recName(pr)); }
            return "{\"k\":\"mem\",\"f\":" + esc(d->getNameAsString()) + ",\"b\":" + expr(x->getBase()) + (x->isArrow() ? ",\"arrow\":1" : "") + own + T + L + "}";
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) return "{\"k\":\"idx\",\"b\":" + expr(x->getBase()) + ",\"i\":" + expr(x->getIdx()) + T + L + "}";
        if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
            std::string op = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); op.pop_back();
            return "{\"k\":\"asg\",\"op\":" + esc(op) + ",\"lhs\":" + expr(x->getLHS()) + ",\"rhs\":" + expr(x->getRHS()) + T + L + "}";
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign)
                return "{\"k\":\"asg\",\"op\":\"=\",\"lhs\":" + expr(x->getLHS()) + ",\"rhs\":" + expr(x->getRHS()) + T + L + "}";
            return "{\"k\":\"bin\",\"op\":" + esc(x->getOpcodeStr()) + ",\"lhs\":" + expr(x->getLHS()) + ",\"rhs\":" + expr(x->getRHS()) + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            return "{\"k\":\"un\",\"op\":" + esc(UnaryOperator::getOpcodeStr(x->getOpcode())) + (x->isPostfix() ? ",\"post\":1" : "") + ",\"e\":" + expr(x->getSubExpr()) + T + L + "}";
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) return "{\"k\":\"cond\",\"c\":" + expr(x->getCond()) + ",\"a\":" + expr(x->getTrueExpr()) + ",\"b\":" + expr(x->getFalseExpr()) + T + L + "}";
        if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) return "{\"k\":\"cond\",\"c\":" + expr(x->getCommon()) + ",\"a\":" + expr(x->getCommon()) + ",\"b\":" + expr(x->getFalseExpr()) + T + L + "}";
        if (auto *x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            if (auto *f = x->getDirectCallee()) {
                std::string op = getOperatorSpelling(x->getOperator());
                bool mem = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                std::string o = "{\"k\":\"call\",\"opr\":" + esc(op) + "," + callee(f);
                if (mem) o += ",\"obj\":" + expr(x->getArg(0)) + ",\"args\":" + argsIt(x->arg_begin() + 1, x->arg_end());
                else o += ",\"args\":" + argsIt(x->arg_begin(), x->arg_end());
                return o + T + L + "}";
            }
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto *f = x->getMethodDecl();
            if (f) {
                auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts());
                std::string o = "{\"k\":\"call\"," + callee(f) + ",\"obj\":" + expr(x->getImplicitObjectArgument()) + ",\"args\":" + argsIt(x->arg_begin(), x->arg_end());
                if (me && me->isArrow()) o += ",\"arrow\":1";
                if (me && me->hasQualifier()) o += ",\"nonvirt\":1";
                return o + T + L + "}";
            }
            return "{\"k\":\"icall\",\"f\":" + expr(x->getCallee()) + ",\"args\":" + argsIt(x->arg_begin(), x->arg_end()) + T + L + "}";
        }
        if (auto *x = dyn_cast<CallExpr>(e)) {
            if (auto *f = x->getDirectCallee())
                return "{\"k\":\"call\"," + callee(f) + ",\"args\":" + argsIt(x->arg_begin(), x->arg_end()) + T + L + "}";
            return "{\"k\":\"icall\",\"f\":" + expr(x->getCallee()) + ",\"args\":" + argsIt(x->arg_begin(), x->arg_end()) + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            auto *c = x->getConstructor();
            std::string extra;
            if (c->isCopyConstructor()) extra += ",\"copy\":1";
            if (c->isMoveConstructor()) extra += ",\"move\":1";
            if (x->isListInitialization()) extra += ",\"list\":1";
            return "{\"k\":\"ctor\"," + callee(c) + extra + ",\"args\":" + argsIt(x->arg_begin(), x->arg_end()) + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return "{\"k\":\"ctor\"," + callee(x->getConstructor()) + ",\"inherited\":1,\"args\":[]" + T + L + "}";
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            std::string o = "{\"k\":\"new\",\"of\":" + ty(x->getAllocatedType());
            if (x->isArray()) { auto s = x->getArraySize(); o += ",\"n\":" + (s && *s ? expr(*s) : std::string("null")); }
            if (x->getInitializer()) o += ",\"init\":" + expr(x->getInitializer());
            return o + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) return "{\"k\":\"delete\",\"e\":" + expr(x->getArgument()) + L + "}";
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) return "{\"k\":\"throw\",\"e\":" + expr(x->getSubExpr()) + L + "}";
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            return "{\"k\":\"ilist\",\"args\":" + argsIt(s->inits().begin(), s->inits().end()) + T + L + "}";
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return "{\"k\":\"zero\"" + T + L + "}";
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) return "{\"k\":\"int\",\"sizeof\":1,\"v\":" + std::to_string(r.Val.getInt().getExtValue()) + T + L + "}";
            return "{\"k\":\"unk\",\"c\":\"sizeof\"" + T + L + "}";
        }
        if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
            if (x->isTypeOperand()) return "{\"k\":\"typeid\",\"of\":" + ty(x->getTypeOperand(C)) + L + "}";
            return "{\"k\":\"typeid\",\"e\":" + expr(x->getExprOperand()) + L + "}";
        }
        if (auto *x = dyn_cast<CastExpr>(e)) {
            return "{\"k\":\"cast\",\"ck\":" + esc(x->getCastKindName()) + ",\"e\":" + expr(x->getSubExpr()) + (isa<ImplicitCastExpr>(x) ? ",\"imp\":1" : "") + T + L + "}";
        }
        if (auto *x = dyn_cast<PredefinedExpr>(e)) return "{\"k\":\"str\",\"v\":\"__func__\"" + L + "}";
        if (auto *x = dyn_cast<StmtExpr>(e)) return "{\"k\":\"unk\",\"c\":\"stmtexpr\"" + T + L + "}";
        if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) return std::string("{\"k\":\"bool\",\"v\":") + (x->getValue() ? "true" : "false") + L + "}";
        if (auto *x = dyn_cast<TypeTraitExpr>(e)) { if (!x->isValueDependent()) return std::string("{\"k\":\"bool\",\"v\":") + (x->getValue() ? "true" : "false") + L + "}"; }
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return expr(x->getCommonExpr()->getSourceExpr());
        if (auto *x = dyn_cast<RecoveryExpr>(e)) return "{\"k\":\"unk\",\"c\":\"recovery\"" + T + L + "}";
        return std::string("{\"k\":\"unk\",\"c\":") + esc(e->getStmtClassName()) + T + L + "}";
    }
    std::string declref(const ValueDecl *d, const Expr *e) {
        std::string L = ",\"l\":" + loc(e->getBeginLoc());
        std::string T = ",\"t\":" + ty(e->getType());
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
            auto *ed = cast<EnumDecl>(ec->getDeclContext()); noteEnum(ed);
            llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
            return "{\"k\":\"enum\",\"n\":" + esc(ec->getNameAsString()) + ",\"of\":" + esc(ed->getQualifiedNameAsString()) + ",\"v\":" + std::string(s.str()) + L + "}";
        }
        if (auto *f = dyn_cast<FunctionDecl>(d)) return "{\"k\":\"fnref\"," + callee(f) + T + L + "}";
        if (auto *b = dyn_cast<BindingDecl>(d)) {
            if (auto *hv = b->getHoldingVar()) return "{\"k\":\"ref\",\"id\":" + std::to_string(id(hv)) + ",\"n\":" + esc(b->getNameAsString()) + T + L + "}";
            if (b->getBinding()) return expr(b->getBinding());
        }
        std::string o = "{\"k\":\"ref\",\"id\":" + std::to_string(id(d)) + ",\"n\":" + esc(d->getNameAsString());
        if (auto *v = dyn_cast<VarDecl>(d)) {
            if (!v->isLocalVarDeclOrParm()) {
                o += ",\"g\":" + esc(v->getQualifiedNameAsString());
                if (!v->getType()->isDependentType() && (v->getType().isConstQualified() || v->isConstexpr()) && v->getType()->isIntegralOrEnumerationType()) {
                    const VarDecl *dv = nullptr; const Expr *in = v->getAnyInitializer(dv);
                    Expr::EvalResult r;
                    if (in && !in->isValueDependent() && in->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o += ",\"cv\":" + std::string(s.str()); }
                }
            }
            else if (v->isStaticLocal()) o += ",\"sl\":1";
        }
        return o + T + L + "}";
    }
    std::string var(const VarDecl *v) {
        std::string o = "{\"id\":" + std::to_string(id(v)) + ",\"n\":" + esc(v->getNameAsString()) + ",\"t\":" + ty(v->getType()) + ",\"l\":" + loc(v->getLocation());
        if (v->isStaticLocal()) o += ",\"static\":1";
        if (v->getInit()) o += ",\"init\":" + expr(v->getInit());
        return o + "}";
    }
    std::string lambda(const LambdaExpr *x) {
        std::string L = ",\"l\":" + loc(x->getBeginLoc());
        auto *op = x->getCallOperator();
        std::string o = "{\"k\":\"lambda\",\"id\":" + std::to_string(id(x->getLambdaClass())) + ",\"caps\":[";
        bool first = true;
        auto init = x->capture_init_begin();
        for (auto &c : x->captures()) {
            if (!first) o += ","; first = false;
            if (c.capturesThis()) o += "{\"this\":1}";
            else if (c.capturesVariable()) {
                o += "{\"id\":" + std::to_string(id(c.getCapturedVar())) + ",\"n\":" + esc(c.getCapturedVar()->getNameAsString()) + ",\"ref\":" + (c.getCaptureKind() == LCK_ByRef ? "1" : "0");
                if (x->isInitCapture(&c) && isa<VarDecl>(c.getCapturedVar())) if (auto *in = cast<VarDecl>(c.getCapturedVar())->getInit()) o += ",\"init\":" + expr(in);
                o += "}";
            }
            else o += "{}";
            ++init;
        }
        o += "]";
        // generic lambda: dump instantiated bodies by key
        if (auto *tmpl = op->getDescribedFunctionTemplate()) {
            o += ",\"generic\":[";
            first = true;
            for (auto *sp : tmpl->specializations()) {
                if (!sp->getBody()) continue;
                if (!first) o += ","; first = false;
                o += "{\"fn\":" + esc(fkey(sp)) + ",\"params\":" + params(sp) + ",\"body\":" + stmt(sp->getBody()) + "}";
            }
            o += "]";
        } else {
            o += ",\"fn\":" + esc(fkey(op)) + ",\"params\":" + params(op) + ",\"body\":" + stmt(op->getBody());
        }
        return o + L + "}";
    }
    std::string params(const FunctionDecl *f) {
        std::string o = "["; bool first = true;
        for (auto *p : f->parameters()) {
            if (!first) o += ","; first = false;
            o += "{\"id\":" + std::to_string(id(p)) + ",\"n\":" + esc(p->getNameAsString()) + ",\"t\":" + ty(p->getType());
            if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o += ",\"def\":" + expr(p->getDefaultArg());
            o += "}";
        }
        return o + "]";
    }
    // ---------------- statements -----------------
    std::string stmt(const Stmt *s) {
        if (!s) return "null";
        std::string L = ",\"l\":" + loc(s->getBeginLoc());
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            std::string o = "{\"k\":\"block\",\"s\":["; bool first = true;
            for (auto *c : x->body()) { if (!first) o += ","; first = false; o += stmt(c); }
            return o + "]" + L + "}";
        }
        if (auto *x = dyn_cast<DeclStmt>(s)) {
            std::string o = "{\"k\":\"decl\",\"v\":["; bool first = true;
            for (auto *d : x->decls()) {
                if (auto *dd = dyn_cast<DecompositionDecl>(d)) {
                    if (!first) o += ","; first = false; o += var(dd);
                    for (auto *b : dd->bindings()) if (auto *hv = b->getHoldingVar()) { o += "," + var(hv); }
                } else if (auto *v = dyn_cast<VarDecl>(d)) { if (!first) o += ","; first = false; o += var(v); }
            }
            return o + "]" + L + "}";
        }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                auto nd = x->getNondiscardedCase(C);
                if (nd) return *nd ? stmt(*nd) : "{\"k\":\"block\",\"s\":[]" + L + "}";
            }
            std::string o = "{\"k\":\"if\"";
            if (x->getInit()) o += ",\"init\":" + stmt(x->getInit());
            if (x->getConditionVariable()) o += ",\"var\":" + var(x->getConditionVariable());
            o += ",\"c\":" + expr(x->getCond()) + ",\"a\":" + stmt(x->getThen());
            if (x->getElse()) o += ",\"b\":" + stmt(x->getElse());
            return o + L + "}";
        }
        if (auto *x = dyn_cast<ForStmt>(s)) return "{\"k\":\"for\",\"init\":" + stmt(x->getInit()) + ",\"c\":" + expr(x->getCond()) + ",\"inc\":" + expr(x->getInc()) + ",\"b\":" + stmt(x->getBody()) + L + "}";
        if (auto *x = dyn_cast<WhileStmt>(s)) {
            std::string o = "{\"k\":\"while\"";
            if (x->getConditionVariable()) o += ",\"var\":" + var(x->getConditionVariable());
            return o + ",\"c\":" + expr(x->getCond()) + ",\"b\":" + stmt(x->getBody()) + L + "}";
        }
        if (auto *x = dyn_cast<DoStmt>(s)) return "{\"k\":\"do\",\"c\":" + expr(x->getCond()) + ",\"b\":" + stmt(x->getBody()) + L + "}";
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            std::string o = "{\"k\":\"rfor\",\"range\":" + expr(x->getRangeInit());
            auto *lv = x->getLoopVariable();
            std::string extra;
            if (auto *dd = dyn_cast<DecompositionDecl>(lv)) { for (auto *b : dd->bindings()) if (auto *hv = b->getHoldingVar()) extra += (extra.empty() ? "" : ",") + var(hv); }
            o += ",\"var\":{\"id\":" + std::to_string(id(lv)) + ",\"n\":" + esc(lv->getNameAsString()) + ",\"t\":" + ty(lv->getType()) + "}";
            if (!extra.empty()) o += ",\"binds\":[" + extra + "]";
            return o + ",\"b\":" + stmt(x->getBody()) + L + "}";
        }
        if (auto *x = dyn_cast<SwitchStmt>(s)) {
            std::string o = "{\"k\":\"switch\"";
            if (x->getInit()) o += ",\"init\":" + stmt(x->getInit());
            if (x->getConditionVariable()) o += ",\"var\":" + var(x->getConditionVariable());
            return o + ",\"c\":" + expr(x->getCond()) + ",\"b\":" + stmt(x->getBody()) + L + "}";
        }
        if (auto *x = dyn_cast<CaseStmt>(s)) {
            std::string o = "{\"k\":\"case\",\"v\":" + expr(x->getLHS());
            Expr::EvalResult r;
            if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o += ",\"iv\":" + std::string(t.str()); }
            if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o += ",\"hi\":" + std::string(t.str()); }
            return o + ",\"s\":" + stmt(x->getSubStmt()) + L + "}";
        }
        if (auto *x = dyn_cast<DefaultStmt>(s)) return "{\"k\":\"default\",\"s\":" + stmt(x->getSubStmt()) + L + "}";
        if (isa<BreakStmt>(s)) return "{\"k\":\"break\"" + L + "}";
        if (isa<ContinueStmt>(s)) return "{\"k\":\"continue\"" + L + "}";
        if (auto *x = dyn_cast<ReturnStmt>(s)) return "{\"k\":\"return\",\"e\":" + (x->getRetValue() ? expr(x->getRetValue()) : "null") + L + "}";
        if (isa<NullStmt>(s)) return "{\"k\":\"block\",\"s\":[]" + L + "}";
        if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto *x = dyn_cast<LabelStmt>(s)) return "{\"k\":\"label\",\"n\":" + esc(x->getName()) + ",\"s\":" + stmt(x->getSubStmt()) + L + "}";
        if (auto *x = dyn_cast<GotoStmt>(s)) return "{\"k\":\"goto\",\"n\":" + esc(x->getLabel()->getName()) + L + "}";
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            std::string o = "{\"k\":\"try\",\"b\":" + stmt(x->getTryBlock()) + ",\"h\":[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) o += ","; o += stmt(x->getHandler(i)->getHandlerBlock()); }
            return o + "]" + L + "}";
        }
        if (auto *x = dyn_cast<Expr>(s)) return "{\"k\":\"expr\",\"e\":" + expr(x) + L + "}";
        return std::string("{\"k\":\"unks\",\"c\":") + esc(s->getStmtClassName()) + L + "}";
    }
    std::string function(const FunctionDecl *f) {
        std::string o = "{\"key\":" + esc(fkey(f)) + ",\"q\":" + esc(qname(f)) + ",\"name\":" + esc(f->getNameAsString()) +
            ",\"file\":" + esc(file(f->getLocation())) + ",\"line\":" + loc(f->getLocation()) +
            ",\"end\":" + loc(f->getEndLoc()) +
            ",\"ret\":" + ty(f->getReturnType()) + ",\"params\":" + params(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            noteRec(m->getParent());
            o += ",\"cls\":" + esc(recName(m->getParent()));
            if (m->isStatic()) o += ",\"static\":1";
            if (m->isVirtual()) o += ",\"virt\":1";
            if (m->isConst()) o += ",\"const\":1";
        }
        if (f->getTemplateInstantiationPattern()) o += ",\"inst\":1";
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            o += ",\"ctor\":1,\"inits\":["; bool first = true;
            for (auto *i : c->inits()) {
                if (!first) o += ","; first = false;
                if (i->isMemberInitializer()) o += "{\"f\":" + esc(i->getMember()->getNameAsString()) + ",\"e\":" + expr(i->getInit()) + "}";
                else if (i->isBaseInitializer()) o += "{\"base\":" + ty(QualType(i->getBaseClass(), 0)) + ",\"e\":" + expr(i->getInit()) + "}";
                else if (i->isDelegatingInitializer()) o += "{\"deleg\":1,\"e\":" + expr(i->getInit()) + "}";
                else o += "{}";
            }
            o += "]";
        }
        o += ",\"body\":" + stmt(f->getBody()) + "}";
        return o;
    }
    std::string record(const CXXRecordDecl *r) {
        std::string o = "{\"name\":" + esc(recName(r)) + ",\"file\":" + esc(file(r->getLocation())) + ",\"line\":" + loc(r->getLocation()) + ",\"bases\":[";
        bool first = true;
        for (auto &b : r->bases()) { if (!first) o += ","; first = false; o += ty(b.getType()); }
        o += "],\"fields\":["; first = true;
        for (auto *f : r->fields()) {
            if (!first) o += ","; first = false;
            o += "{\"n\":" + esc(f->getNameAsString()) + ",\"t\":" + ty(f->getType());
            if (f->isBitField() && !f->getBitWidth()->isValueDependent()) o += ",\"bits\":" + std::to_string(f->getBitWidthValue(C));
            if (f->hasInClassInitializer() && f->getInClassInitializer()) o += ",\"init\":" + expr(f->getInClassInitializer());
            o += "}";
        }
        o += "],\"methods\":["; first = true;
        for (auto *m : r->methods()) {
            if (m->isImplicit() && !m->isUserProvided()) continue;
            if (!first) o += ","; first = false;
            o += "{\"key\":" + esc(fkey(m)) + ",\"name\":" + esc(m->getNameAsString()) + (m->isVirtual() ? ",\"virt\":1" : "") + (m->isPureVirtual() ? ",\"pure\":1" : "");
            if (m->size_overridden_methods()) { o += ",\"over\":["; bool f2 = true; for (auto *b : m->overridden_methods()) { if (!f2) o += ","; f2 = false; o += esc(fkey(b)); } o += "]"; }
            o += "}";
        }
        o += "]}";
        return o;
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D; std::set<const FunctionDecl *> seen; std::vector<const FunctionDecl *> fs; std::vector<const VarDecl *> globals;
    explicit Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody()) return true;
        if (f->isDependentContext()) return true;
        if (!D.inRoot(f->getLocation())) return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (!f->getBody()) return true;
        if (seen.insert(f->getCanonicalDecl()).second) fs.push_back(f);
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (v->isLocalVarDeclOrParm() || isa<ParmVarDecl>(v)) return true;
        if (!v->hasInit() || !D.inRoot(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
        globals.push_back(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (r->isThisDeclarationADefinition() && !r->isDependentType() && !r->isLambda() && D.inRoot(r->getLocation())) D.noteRec(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) {
        if (e->isThisDeclarationADefinition() && D.inRoot(e->getLocation()) && !e->isDependentType()) D.noteEnum(e);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    explicit Consumer(CompilerInstance &ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C); Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::ofstream out(OutFile);
        unsigned errs = CI.getDiagnostics().getClient()->getNumErrors();
        out << "{\"errors\":" << errs << ",\n\"functions\":[\n";
        bool first = true;
        for (auto *f : V.fs) { if (!first) out << ",\n"; first = false; out << D.function(f); }
        out << "],\n\"globals\":[\n"; first = true;
        std::set<const VarDecl *> gs;
        for (auto *v : V.globals) { if (!gs.insert(v->getCanonicalDecl()).second) continue; if (!first) out << ",\n"; first = false; out << "{\"g\":" << esc(v->getQualifiedNameAsString()) << ",\"d\":" << D.var(v) << "}"; }
        out << "],\n\"records\":[\n"; first = true;
        for (size_t i = 0; i < D.recOrder.size(); ++i) {
            auto *r = D.recOrder[i];
            if (r->isLambda()) continue;
            bool mine = D.inRoot(r->getLocation());
            if (!mine) continue;
            if (!first) out << ",\n"; first = false; out << D.record(r);
        }
        out << "],\n\"enums\":{\n"; first = true;
        for (size_t i = 0; i < D.enumOrder.size(); ++i) {
            auto *e = D.enumOrder[i];
            if (!D.inRoot(e->getLocation())) continue;
            if (!first) out << ",\n"; first = false;
            out << esc(e->getQualifiedNameAsString()) << ":{"; bool f2 = true;
            for (auto *c : e->enumerators()) { if (!f2) out << ","; f2 = false; llvm::SmallString<32> s; c->getInitVal().toString(s, 10); out << esc(c->getNameAsString()) << ":" << s.str().str(); }
            out << "}";
        }
        out << "}}\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

int main(int argc, char **argv) {
    // extract ROOT OUT SRC -- flags...
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SRC -- flags\n"; return 2; }
    Root = argv[1]; OutFile = argv[2]; std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {src});
    Tool.clearArgumentsAdjusters();
    Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    Tool.appendArgumentsAdjuster(tooling::getClangStripDependencyFileAdjuster());
    Factory F;
    return Tool.run(&F);
}
