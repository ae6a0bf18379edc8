// wfexport: parses one translation unit with clang and writes the type-checked program (the functions whose
// definitions lie under the given source prefixes, with every template instantiation the unit makes) as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> prefixes;
static std::string outPath;
static bool hadErrors = false;

struct Exporter {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    json::Array types, recs, vars, enums;
    std::map<const void*, int> typeIds;
    std::map<const CXXRecordDecl*, int> recIds;
    std::map<const VarDecl*, int> varIds;
    std::map<const EnumDecl*, int> enumIds;
    std::map<const FunctionDecl*, int> funcIds;
    std::vector<const FunctionDecl*> funcList;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::vector<json::Value> pendingVars;

    Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressUnwrittenScope = false; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = false;
    }
    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        return f.str();
    }
    bool inRepo(SourceLocation l) {
        auto f = fileOf(l);
        for (auto& p : prefixes) if (f.rfind(p, 0) == 0) return true;
        return false;
    }
    json::Value loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return json::Array{-1, 0};
        auto f = fileOf(l);
        auto it = fileIds.find(f);
        if (it == fileIds.end()) { it = fileIds.emplace(f, (int)files.size()).first; files.push_back(f); }
        return json::Array{it->second, (int64_t)SM.getExpansionLineNumber(l), (int64_t)SM.getExpansionColumnNumber(l)};
    }
    std::string qualName(const NamedDecl* d) {
        // qualified name without template arguments and inline namespaces
        std::vector<std::string> parts;
        auto nameOf = [&](const NamedDecl* n) -> std::string {
            if (auto* r = dyn_cast<CXXRecordDecl>(n)) {
                if (r->isLambda()) return "(lambda)";
                if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) return s->getSpecializedTemplate()->getNameAsString();
            }
            if (auto* ctor = dyn_cast<CXXConstructorDecl>(n)) { (void)ctor; return "(ctor)"; }
            if (isa<CXXDestructorDecl>(n)) return "(dtor)";
            if (isa<CXXConversionDecl>(n)) return "(conv)";
            auto s = n->getNameAsString();
            return s.empty() ? "(anon)" : s;
        };
        parts.push_back(nameOf(d));
        const DeclContext* dc = d->getDeclContext();
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString()); }
            else if (auto* n = dyn_cast<NamedDecl>(dc)) parts.push_back(nameOf(n));
            dc = dc->getParent();
        }
        std::string r;
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
        return r;
    }
    json::Value targ(const TemplateArgument& a) {
        switch (a.getKind()) {
        case TemplateArgument::Type: return json::Object{{"t", type(a.getAsType())}};
        case TemplateArgument::Integral: { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); return json::Object{{"i", s.str().str()}}; }
        case TemplateArgument::Pack: { json::Array r; for (auto& p : a.pack_elements()) r.push_back(targ(p)); return json::Object{{"p", std::move(r)}}; }
        default: return json::Object{{"o", 1}};
        }
    }
    int type(QualType qt) {
        qt = qt.getCanonicalType();
        auto it = typeIds.find(qt.getAsOpaquePtr());
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[qt.getAsOpaquePtr()] = id;
        types.push_back(nullptr);
        json::Object o;
        o["n"] = qt.getAsString(PP);
        if (qt.isConstQualified()) o["c"] = 1;
        const Type* t = qt.getTypePtr();
        if (auto* r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = type(r->getPointeeType()); o["rv"] = isa<RValueReferenceType>(r) ? 1 : 0; }
        else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); }
        else if (t->isNullPtrType()) o["k"] = "nullptr";
        else if (t->isVoidType()) o["k"] = "void";
        else if (t->isBooleanType()) { o["k"] = "bool"; }
        else if (auto* e = dyn_cast<EnumType>(t)) {
            o["k"] = "enum"; o["e"] = enumId(e->getDecl());
            auto u = e->getDecl()->getIntegerType();
            if (!u.isNull()) { o["w"] = (int64_t)C.getIntWidth(u); o["s"] = u->isSignedIntegerType() ? 1 : 0; }
            o["name"] = qualName(e->getDecl());
        }
        else if (t->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getIntWidth(qt); o["s"] = t->isSignedIntegerType() ? 1 : 0; if (t->isAnyCharacterType()) o["ch"] = 1; }
        else if (t->isFloatingType()) { o["k"] = "flt"; o["w"] = (int64_t)C.getTypeSize(qt); }
        else if (auto* r = t->getAsCXXRecordDecl()) { o["k"] = "rec"; o["r"] = rec(r); o["name"] = qualName(r); }
        else if (auto* a = C.getAsArrayType(qt)) {
            o["k"] = "arr"; o["of"] = type(a->getElementType());
            if (auto* ca = dyn_cast<ConstantArrayType>(a)) o["len"] = (int64_t)ca->getSize().getZExtValue();
        }
        else if (t->isFunctionType()) o["k"] = "fn";
        else o["k"] = "other";
        if (!t->isIncompleteType() && !t->isDependentType() && !t->isFunctionType() && !t->isReferenceType() && !t->isVoidType() && !t->isUndeducedType())
            o["size"] = (int64_t)C.getTypeSizeInChars(qt).getQuantity();
        types[id] = std::move(o);
        return id;
    }
    int enumId(const EnumDecl* d) {
        d = d->getDefinition() ? d->getDefinition() : d;
        auto it = enumIds.find(d);
        if (it != enumIds.end()) return it->second;
        int id = enums.size();
        enumIds[d] = id;
        json::Object vals;
        for (auto* c : d->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); vals[c->getNameAsString()] = s.str().str(); }
        enums.push_back(json::Object{{"name", qualName(d)}, {"v", std::move(vals)}, {"scoped", d->isScoped()}, {"l", loc(d->getLocation())}});
        return id;
    }
    int rec(const CXXRecordDecl* d) {
        if (d->getDefinition()) d = d->getDefinition();
        d = cast<CXXRecordDecl>(d->getCanonicalDecl()->getDefinition() ? d->getCanonicalDecl()->getDefinition() : d);
        auto it = recIds.find(d);
        if (it != recIds.end()) return it->second;
        int id = recs.size();
        recIds[d] = id;
        recs.push_back(nullptr);
        json::Object o;
        o["name"] = qualName(d);
        o["full"] = C.getTypeDeclType(d).getAsString(PP);
        o["repo"] = inRepo(d->getLocation()) ? 1 : 0;
        o["l"] = loc(d->getLocation());
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
            json::Array ta;
            for (auto& a : s->getTemplateArgs().asArray()) ta.push_back(targ(a));
            o["ta"] = std::move(ta);
        }
        if (d->isUnion()) o["union"] = 1;
        if (d->isLambda()) {
            o["lambda"] = 1;
            json::Array ops;
            if (auto* ft = d->getDependentLambdaCallOperator()) {
                o["generic"] = 1;
                for (auto* sp : ft->specializations()) if (sp->hasBody() || sp->getTemplateInstantiationPattern()) ops.push_back(func(sp));
            }
            else if (auto* op = d->getLambdaCallOperator()) ops.push_back(func(op));
            o["ops"] = std::move(ops);
        }
        if (d->hasDefinition() && !d->isDependentContext() && (inRepo(d->getLocation()))) {
            json::Array fs, bs;
            const ASTRecordLayout* lay = nullptr;
            if (!d->isInvalidDecl()) lay = &C.getASTRecordLayout(d);
            for (auto* f : d->fields()) {
                json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"off", lay ? (int64_t)lay->getFieldOffset(f->getFieldIndex()) / 8 : -1}, {"l", loc(f->getLocation())}};
                if (f->isMutable()) fo["mut"] = 1;
                fo["acc"] = (int)f->getAccess();
                if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                fs.push_back(std::move(fo));
            }
            for (auto& b : d->bases()) {
                auto* br = b.getType()->getAsCXXRecordDecl();
                if (!br) continue;
                bs.push_back(json::Object{{"r", rec(br)}, {"off", lay && !b.isVirtual() ? (int64_t)lay->getBaseClassOffset(br).getQuantity() : -1}, {"t", type(b.getType())}});
            }
            o["f"] = std::move(fs);
            o["b"] = std::move(bs);
            if (lay) o["size"] = (int64_t)lay->getSize().getQuantity();
            if (auto* dt = d->getDestructor()) { if (dt->isUserProvided()) o["dtor"] = func(dt); }
            json::Array ms;
            for (auto* m : d->methods()) if (!m->isImplicit()) ms.push_back(json::Object{{"n", m->getNameAsString()}, {"del", m->isDeleted() ? 1 : 0}, {"def", m->isDefaulted() ? 1 : 0}, {"f", m->isDependentContext() ? -1 : func(m)}, {"acc", (int)m->getAccess()}});
            o["m"] = std::move(ms);
        }
        recs[id] = std::move(o);
        return id;
    }
    int func(const FunctionDecl* f) {
        const FunctionDecl* def = nullptr;
        if (f->hasBody(def) && def) f = def;
        else f = f->getCanonicalDecl();
        auto it = funcIds.find(f);
        if (it != funcIds.end()) return it->second;
        int id = funcList.size();
        funcIds[f] = id;
        funcList.push_back(f);
        return id;
    }
    json::Value apvalue(const APValue& v, QualType t) {
        if (v.isInt()) { llvm::SmallString<32> s; v.getInt().toString(s, 10); return json::Value(s.str().str()); }
        if (v.isFloat()) return json::Object{{"flt", v.getFloat().convertToDouble()}};
        if (v.isStruct()) {
            json::Array a;
            for (unsigned i = 0; i < v.getStructNumBases(); ++i) a.push_back(apvalue(v.getStructBase(i), {}));
            json::Array fs;
            for (unsigned i = 0; i < v.getStructNumFields(); ++i) fs.push_back(apvalue(v.getStructField(i), {}));
            return json::Object{{"b", std::move(a)}, {"s", std::move(fs)}};
        }
        if (v.isArray()) {
            unsigned n = v.getArraySize(), k = v.getArrayInitializedElts();
            bool ints = true;
            for (unsigned i = 0; i < k && ints; ++i) ints = v.getArrayInitializedElt(i).isInt();
            if (ints && n > 64) {
                std::string hex;
                unsigned w = k ? v.getArrayInitializedElt(0).getInt().getBitWidth() : 64;
                for (unsigned i = 0; i < k; ++i) {
                    uint64_t x = v.getArrayInitializedElt(i).getInt().getZExtValue();
                    char b[20]; snprintf(b, sizeof b, "%0*llx", (int)w / 4, (unsigned long long)x); hex += b;
                }
                return json::Object{{"n", (int64_t)n}, {"w", (int64_t)w}, {"hex", hex}};
            }
            json::Array a;
            for (unsigned i = 0; i < n; ++i) a.push_back(i < k ? apvalue(v.getArrayInitializedElt(i), {}) : v.hasArrayFiller() ? apvalue(v.getArrayFiller(), {}) : json::Value(nullptr));
            return json::Object{{"n", (int64_t)n}, {"a", std::move(a)}};
        }
        if (v.isLValue() && !v.isNullPointer()) {
            auto base = v.getLValueBase();
            if (auto* e = base.dyn_cast<const Expr*>())
                if (auto* s = dyn_cast<StringLiteral>(e)) return json::Object{{"str", toHex(s)}, {"off", (int64_t)v.getLValueOffset().getQuantity()}};
            if (auto* d = base.dyn_cast<const ValueDecl*>())
                if (auto* vd = dyn_cast<VarDecl>(d)) return json::Object{{"var", var(vd)}};
        }
        return nullptr;
    }
    std::string toHex(const StringLiteral* s) {
        std::string h;
        for (unsigned char c : s->getBytes()) { char b[3]; snprintf(b, 3, "%02x", c); h += b; }
        return h;
    }
    int var(const VarDecl* v) {
        if (auto* d = v->getDefinition()) v = d;
        auto it = varIds.find(v);
        if (it != varIds.end()) return it->second;
        int id = vars.size();
        varIds[v] = id;
        vars.push_back(nullptr);
        json::Object o;
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        o["l"] = loc(v->getLocation());
        o["q"] = qualName(v);
        const char* st = "local";
        if (isa<ParmVarDecl>(v)) st = "param";
        else if (v->isStaticLocal()) st = "slocal";
        else if (v->isStaticDataMember()) st = "smember";
        else if (v->hasGlobalStorage()) st = "global";
        o["st"] = st;
        if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = 1;
        if (v->isConstexpr()) o["cx"] = 1;
        o["repo"] = inRepo(v->getLocation()) ? 1 : 0;
        const VarDecl* defv = v;
        bool global = v->hasGlobalStorage();
        if (v->isStaticDataMember() && !v->getAnyInitializer(defv)) {
            if (auto* pat = v->getTemplateInstantiationPattern()) (void)pat;
        }
        if (const Expr* in = v->getAnyInitializer(defv)) {
            bool dep = in->isValueDependent() || in->isTypeDependent() || v->getType()->isDependentType();
            if (!dep && (v->isConstexpr() || (global && inRepo(v->getLocation())))) {
                if (auto* apv = defv->evaluateValue()) o["apv"] = apvalue(*apv, v->getType());
            }
            if (!dep && global && inRepo(v->getLocation()) && !(v->isConstexpr() && bigArray(v->getType()))) o["init"] = expr(in);
        }
        vars[id] = std::move(o);
        return id;
    }
    bool bigArray(QualType t) { return !t->isIncompleteType() && !t->isDependentType() && C.getTypeSizeInChars(t).getQuantity() > 512; }

    json::Value callee(const FunctionDecl* f) {
        json::Object o;
        o["n"] = qualName(f);
        if (f->isTemplateInstantiation() || f->isFunctionTemplateSpecialization())
            if (auto* a = f->getTemplateSpecializationArgs()) {
                json::Array ta;
                for (auto& x : a->asArray()) ta.push_back(targ(x));
                o["ta"] = std::move(ta);
            }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["r"] = rec(m->getParent());
            if (m->isStatic()) o["st"] = 1;
            if (m->isVirtual()) o["v"] = 1;
            if (m->isConst()) o["c"] = 1;
        }
        const FunctionDecl* def = nullptr;
        if (inRepo(f->getLocation()) || (f->getTemplateInstantiationPattern() && inRepo(f->getTemplateInstantiationPattern()->getLocation()))) o["f"] = func(f);
        else if (auto* m = dyn_cast<CXXMethodDecl>(f)) { if (m->getParent()->isLambda() && inRepo(m->getParent()->getLocation())) o["f"] = func(f); }
        (void)def;
        json::Array ps;
        for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
        o["ps"] = std::move(ps);
        o["rt"] = type(f->getReturnType());
        if (auto* fp = f->getType()->getAs<FunctionProtoType>()) { if (!fp->isDependentType() && fp->getExceptionSpecType() != EST_Unevaluated && fp->getExceptionSpecType() != EST_Uninstantiated && fp->getExceptionSpecType() != EST_Unparsed && fp->isNothrow()) o["ne"] = 1; }
        return o;
    }
    json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { json::Array a; for (auto* e : r) a.push_back(expr(e)); return a; }

    json::Value expr(const Expr* e) {
        if (!e) return nullptr;
        // transparent wrappers
        while (true) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* s = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = s->getReplacement();
            else if (auto* b = dyn_cast<CXXBindTemporaryExpr>(e)) e = b->getSubExpr();
            else if (auto* b = dyn_cast<ChooseExpr>(e)) e = b->getChosenSubExpr();
            else if (auto* b = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = b->getSemanticForm();
            else break;
        }
        json::Object o;
        auto qt = e->getType();
        o["t"] = type(qt);
        if (e->isGLValue()) o["lv"] = 1;
        o["l"] = loc(e->getExprLoc());
        bool dep = e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent();
        if (!dep && e->isPRValue() && qt->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e)) {
            Expr::EvalResult r;
            if (e->EvaluateAsRValue(r, C, true) && !r.HasSideEffects && r.Val.isInt()) {
                llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str();
            }
        }
        auto K = [&](const char* k) { o["k"] = k; };
        if (dep) { K("dep"); return o; }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { K("int"); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = s.str().str(); }
        else if (auto* x = dyn_cast<CharacterLiteral>(e)) { K("int"); int64_t v = x->getValue(); if (x->getKind() == CharacterLiteralKind::Ascii) v = (int8_t)v; o["v"] = std::to_string(v); o["ch"] = 1; }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("int"); o["v"] = x->getValue() ? "1" : "0"; }
        else if (auto* x = dyn_cast<FloatingLiteral>(e)) { K("flt"); o["v"] = x->getValueAsApproximateDouble(); }
        else if (auto* x = dyn_cast<StringLiteral>(e)) { K("str"); o["hex"] = toHex(x); }
        else if (auto* x = dyn_cast<PredefinedExpr>(e)) { K("str"); o["hex"] = x->getFunctionName() ? toHex(x->getFunctionName()) : ""; o["pre"] = 1; }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) K("null");
        else if (isa<CXXThisExpr>(e)) K("this");
        else if (auto* x = dyn_cast<ConstantExpr>(e)) {
            auto v = expr(x->getSubExpr());
            if (auto* vo = v.getAsObject()) if (o.get("cv")) (*vo)["cv"] = *o.get("cv");
            return v;
        }
        else if (auto* x = dyn_cast<ExprWithCleanups>(e)) { K("full"); o["e"] = expr(x->getSubExpr()); }
        else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { K("mat"); o["e"] = expr(x->getSubExpr()); if (x->getExtendingDecl()) o["ext"] = 1; }
        else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) { K("ref"); o["d"] = var(v); }
            else if (auto* c = dyn_cast<EnumConstantDecl>(d)) { K("int"); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["en"] = c->getNameAsString(); }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) { K("fref"); o["f"] = callee(f); }
            else if (auto* b = dyn_cast<BindingDecl>(d)) {
                K("bind");
                auto* dd = cast<DecompositionDecl>(b->getDecomposedDecl());
                o["d"] = var(dd);
                int i = 0, idx = -1;
                for (auto* bb : dd->bindings()) { if (bb == b) idx = i; ++i; }
                o["i"] = idx; o["n"] = b->getNameAsString();
                if (b->getBinding() && !b->getHoldingVar()) if (auto* me = dyn_cast<MemberExpr>(b->getBinding()->IgnoreParenImpCasts())) o["f"] = me->getMemberDecl()->getNameAsString();
            }
            else K("other");
        }
        else if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) { K("ref"); o["d"] = var(v); }
            else if (auto* f = dyn_cast<FieldDecl>(d)) { K("mem"); o["f"] = f->getNameAsString(); o["r"] = rec(cast<CXXRecordDecl>(f->getParent())); o["o"] = expr(x->getBase()); if (x->isArrow()) o["ar"] = 1; }
            else if (auto* c = dyn_cast<EnumConstantDecl>(d)) { K("int"); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["en"] = c->getNameAsString(); }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) { K("fref"); o["f"] = callee(f); o["o"] = expr(x->getBase()); }
            else K("other");
        }
        else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            K("call");
            auto* f = x->getDirectCallee();
            if (f) {
                o["f"] = callee(f);
                auto* m = dyn_cast<CXXMethodDecl>(f);
                json::Array a;
                unsigned i = 0;
                if (m && m->isInstance()) { o["o"] = expr(x->getArg(0)); i = 1; }
                else if (m && m->isStatic() && m->getParent()->isLambda()) i = 1;
                for (; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
                o["a"] = std::move(a);
                o["op"] = getOperatorSpelling(x->getOperator());
            }
            else { o["fn"] = expr(x->getCallee()); o["a"] = args(x->arguments()); }
        }
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            K("call");
            if (auto* f = x->getMethodDecl()) {
                o["f"] = callee(f);
                o["o"] = expr(x->getImplicitObjectArgument());
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->isArrow()) o["ar"] = 1; if (me->hasQualifier()) o["qual"] = 1; }
            }
            else o["fn"] = expr(x->getCallee());
            o["a"] = args(x->arguments());
        }
        else if (auto* x = dyn_cast<CallExpr>(e)) {
            K("call");
            if (auto* f = x->getDirectCallee()) o["f"] = callee(f);
            else o["fn"] = expr(x->getCallee());
            o["a"] = args(x->arguments());
        }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            K("ctor");
            o["f"] = callee(x->getConstructor());
            json::Array a;
            for (auto* ar : x->arguments()) a.push_back(expr(ar));
            o["a"] = std::move(a);
            auto* cd = x->getConstructor();
            if (cd->isCopyConstructor()) o["cm"] = "copy";
            else if (cd->isMoveConstructor()) o["cm"] = "move";
            else if (cd->isDefaultConstructor()) o["cm"] = "def";
            if (cd->isDefaulted() || cd->isImplicit()) o["dflt"] = 1;
            if (x->requiresZeroInitialization()) o["zi"] = 1;
            if (x->isListInitialization()) o["li"] = 1;
            if (x->isStdInitListInitialization()) o["il"] = 1;
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { K("ctor"); o["f"] = callee(x->getConstructor()); o["a"] = json::Array{}; o["inh"] = 1; }
        else if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            K("init");
            json::Array a;
            if (x->getNumInits() > 300) o["big"] = (int64_t)x->getNumInits();
            else for (auto* i : x->inits()) a.push_back(expr(i));
            o["a"] = std::move(a);
            if (x->getArrayFiller()) o["fill"] = expr(x->getArrayFiller());
            if (x->getInitializedFieldInUnion()) o["uf"] = x->getInitializedFieldInUnion()->getNameAsString();
        }
        else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { K("ilist"); o["e"] = expr(x->getSubExpr()); }
        else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { K("arrcopy"); o["e"] = expr(x->getCommonExpr()->getSourceExpr()); }
        else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { return expr(x->getSourceExpr()); }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) K("zero");
        else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = expr(x->getExpr()); if (auto* vo = v.getAsObject()) (*vo)["dfa"] = 1; return v; }
        else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        else if (auto* x = dyn_cast<CastExpr>(e)) {
            K("cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
            if (auto* ec = dyn_cast<ExplicitCastExpr>(e)) { o["ex"] = 1; if (isa<CXXReinterpretCastExpr>(e)) o["re"] = 1; if (isa<CXXConstCastExpr>(e)) o["cc"] = 1; (void)ec; }
        }
        else if (auto* x = dyn_cast<UnaryOperator>(e)) { K("un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = 1; o["e"] = expr(x->getSubExpr()); }
        else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->isAssignmentOp()) { K("asg"); if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) { o["ct"] = type(ca->getComputationLHSType()); } }
            else K("bin");
            o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) { K("cond"); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { K("sub"); o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { K("int"); if (auto* cv = o.getString("cv") ? o.get("cv") : nullptr) o["v"] = *cv; else K("other"); (void)x; }
        else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            K("lambda");
            o["r"] = rec(x->getLambdaClass());
            json::Array caps;
            auto ii = x->capture_init_begin();
            for (auto& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) { co["this"] = 1; if (c.getCaptureKind() == LCK_StarThis) co["star"] = 1; }
                else if (c.capturesVariable()) { if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) { co["d"] = var(vd); co["n"] = vd->getNameAsString(); if (vd->isInitCapture()) co["ic"] = 1; } }
                co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                if (c.isImplicit()) co["imp"] = 1;
                if (ii != x->capture_init_end() && *ii) co["e"] = expr(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (x->isMutable()) o["mut"] = 1;
        }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { K("throw"); if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); }
        else if (auto* x = dyn_cast<CXXNewExpr>(e)) { K("new"); o["nt"] = type(x->getAllocatedType()); if (x->getInitializer()) o["e"] = expr(x->getInitializer()); if (x->isArray()) o["arr"] = 1; }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { K("delete"); o["e"] = expr(x->getArgument()); }
        else if (isa<SourceLocExpr>(e)) K("srcloc");
        else if (o.get("cv")) { K("int"); o["v"] = *o.get("cv"); }
        else { K("other"); o["cls"] = e->getStmtClassName(); }
        return o;
    }
    json::Value decl(const VarDecl* v) {
        json::Object d;
        d["d"] = var(v);
        if (v->hasInit() && v->getInit()) {
            d["init"] = expr(v->getInit());
        }
        if (v->isStaticLocal()) d["static"] = 1;
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array b;
            for (auto* x : dd->bindings()) b.push_back(x->getNameAsString());
            d["bind"] = std::move(b);
        }
        return d;
    }
    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", loc(e->getExprLoc())}};
        json::Object o;
        o["l"] = loc(s->getBeginLoc());
        auto K = [&](const char* k) { o["k"] = k; };
        if (auto* x = dyn_cast<CompoundStmt>(s)) { K("block"); json::Array b; for (auto* c : x->body()) b.push_back(stmt(c)); o["b"] = std::move(b); o["el"] = loc(x->getEndLoc()); }
        else if (auto* x = dyn_cast<DeclStmt>(s)) { K("decl"); json::Array b; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(decl(v)); o["d"] = std::move(b); }
        else if (auto* x = dyn_cast<IfStmt>(s)) {
            K("if"); if (x->isConstexpr()) o["cx"] = 1;
            if (x->getInit()) o["i"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["v"] = decl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse());
        }
        else if (auto* x = dyn_cast<WhileStmt>(s)) { K("while"); if (x->getConditionVariable()) o["v"] = decl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
        else if (auto* x = dyn_cast<DoStmt>(s)) { K("do"); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
        else if (auto* x = dyn_cast<ForStmt>(s)) {
            K("for"); o["i"] = stmt(x->getInit()); if (x->getConditionVariable()) o["v"] = decl(x->getConditionVariable());
            if (x->getCond()) o["c"] = expr(x->getCond()); if (x->getInc()) o["n"] = expr(x->getInc()); o["b"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            K("rfor"); if (x->getInit()) o["i"] = stmt(x->getInit());
            o["r"] = expr(x->getRangeInit()); o["v"] = decl(x->getLoopVariable()); o["b"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            K("switch"); if (x->getInit()) o["i"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["v"] = decl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CaseStmt>(s)) {
            K("case"); Expr::EvalResult r;
            if (x->getLHS()->EvaluateAsRValue(r, C) && r.Val.isInt()) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o["v"] = t.str().str(); }
            if (x->getRHS()) { Expr::EvalResult r2; if (x->getRHS()->EvaluateAsRValue(r2, C) && r2.Val.isInt()) { llvm::SmallString<32> t; r2.Val.getInt().toString(t, 10); o["v2"] = t.str().str(); } }
            o["b"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<DefaultStmt>(s)) { K("default"); o["b"] = stmt(x->getSubStmt()); }
        else if (isa<BreakStmt>(s)) K("break");
        else if (isa<ContinueStmt>(s)) K("continue");
        else if (auto* x = dyn_cast<ReturnStmt>(s)) { K("return"); if (x->getRetValue()) o["e"] = expr(x->getRetValue()); }
        else if (isa<NullStmt>(s)) K("null");
        else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            K("try"); o["b"] = stmt(x->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* c = x->getHandler(i);
                json::Object ho;
                if (c->getExceptionDecl()) { ho["d"] = var(c->getExceptionDecl()); ho["t"] = type(c->getCaughtType()); }
                ho["b"] = stmt(c->getHandlerBlock());
                ho["l"] = loc(c->getBeginLoc());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
        }
        else if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        else if (auto* x = dyn_cast<LabelStmt>(s)) { K("label"); o["b"] = stmt(x->getSubStmt()); }
        else { K("other"); o["cls"] = s->getStmtClassName(); }
        return o;
    }
    json::Value function(const FunctionDecl* f) {
        json::Object o;
        o["n"] = f->getNameAsString();
        o["q"] = qualName(f);
        o["l"] = loc(f->getLocation());
        o["repo"] = inRepo(f->getLocation()) ? 1 : 0;
        if (f->isDeleted()) o["del"] = 1;
        if (f->isDefaulted()) o["def"] = 1;
        if (f->isImplicit()) o["imp"] = 1;
        if (f->isStatic()) o["static"] = 1;
        o["rt"] = type(f->getReturnType());
        if (auto* fp = f->getType()->getAs<FunctionProtoType>()) {
            auto es = fp->getExceptionSpecType();
            if (es != EST_Unevaluated && es != EST_Uninstantiated && es != EST_Unparsed && !fp->isDependentType() && fp->isNothrow()) o["ne"] = 1;
        }
        if (f->isTemplateInstantiation() || f->isFunctionTemplateSpecialization())
            if (auto* a = f->getTemplateSpecializationArgs()) { json::Array ta; for (auto& x : a->asArray()) ta.push_back(targ(x)); o["ta"] = std::move(ta); }
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object po{{"d", var(p)}, {"t", type(p->getType())}};
            ps.push_back(std::move(po));
        }
        o["p"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["r"] = rec(m->getParent());
            o["acc"] = (int)m->getAccess();
            if (m->isConst()) o["const"] = 1;
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isStatic()) o["static"] = 1;
            if (m->getParent()->isLambda()) o["lambda"] = 1;
        }
        const Stmt* body = f->getBody();
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["kind"] = "ctor";
            if (c->isCopyConstructor()) o["cm"] = "copy";
            if (c->isMoveConstructor()) o["cm"] = "move";
            if (c->isDefaultConstructor()) o["cm"] = "def";
            json::Array in;
            if (body || c->isImplicit() || c->isDefaulted())
            for (auto* i : c->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) { io["m"] = i->getAnyMember()->getNameAsString(); }
                else if (i->isDelegatingInitializer()) io["d"] = 1;
                else if (i->isBaseInitializer()) io["b"] = type(QualType(i->getBaseClass(), 0));
                io["e"] = expr(i->getInit());
                if (i->isWritten()) io["w"] = 1;
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
        if (body && !f->isDependentContext() && (inRepo(f->getLocation()))) o["body"] = stmt(body);
        return o;
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Exporter& X;
    Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isDependentContext() && f->isThisDeclarationADefinition() && X.inRepo(f->getLocation())) X.func(f);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->getDeclContext()->isDependentContext() && v->hasGlobalStorage() && X.inRepo(v->getLocation()) && !v->getType()->isDependentType() && !isa<VarTemplatePartialSpecializationDecl>(v)
            && !v->isTemplated()) X.var(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isDependentContext() && r->isThisDeclarationADefinition() && X.inRepo(r->getLocation())) X.rec(r);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { hadErrors = true; }
        Exporter X(C);
        Visitor(X).TraverseDecl(C.getTranslationUnitDecl());
        json::Array fs;
        for (size_t i = 0; i < X.funcList.size(); ++i) fs.push_back(X.function(X.funcList[i]));
        json::Array fl;
        for (auto& f : X.files) fl.push_back(f);
        std::error_code ec;
        llvm::raw_fd_ostream os(outPath, ec);
        json::Object root{{"files", std::move(fl)}, {"types", std::move(X.types)}, {"recs", std::move(X.recs)}, {"vars", std::move(X.vars)}, {"enums", std::move(X.enums)}, {"funcs", std::move(fs)}};
        os << json::Value(std::move(root));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv) {
    // wfexport OUT SOURCE --prefix P ... -- clang args
    outPath = argv[1];
    std::string src = argv[2];
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
        if (std::string(argv[i]) == "--prefix") prefixes.push_back(argv[++i]);
    std::vector<std::string> a;
    for (++i; i < argc; ++i) a.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", a);
    tooling::ClangTool tool(db, {src});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc || hadErrors ? 3 : 0;
}
