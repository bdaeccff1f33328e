// wbsa: dumps the resolved program (types, callees, overrides, statements) of one translation unit as JSON.
// Only functions, records, enums and variables whose definition lies under the given source root are dumped in full.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;   // repository source root, e.g. /repo/src
static std::string OutPath;

// integers of any signedness, up to 64 bits
static json::Value ival(const llvm::APInt &v)
{
    uint64_t u = v.getRawData()[0];
    if (v.getActiveBits() <= 64)
        return u > (uint64_t)INT64_MAX ? json::Value(u) : json::Value((int64_t)u);
    return json::Value((int64_t)u);
}
static json::Value ival(const llvm::APSInt &v)
{
    if (v.isSigned())
        return json::Value((int64_t)(v.getBitWidth() <= 64 ? v.getSExtValue() : (int64_t)v.getRawData()[0]));
    return ival(static_cast<const llvm::APInt &>(v));
}

namespace
{
    std::string ReplaceAll(std::string s, const std::string& a, const std::string& b)
    {
        size_t p = 0;
        while ((p = s.find(a, p)) != std::string::npos) {
            s.replace(p, a.size(), b);
            p += b.size();
        }
        return s;
    }

    class TDumper: public RecursiveASTVisitor<TDumper>
    {
        ASTContext& Ctx;
        SourceManager& SM;
        PrintingPolicy PP;
        std::map<const void*, int> TypeIds;
        json::Array Types;
        std::map<const Decl*, int> FnIds;
        json::Array Fns;
        std::map<const Decl*, int> VarIds;
        json::Array Vars;
        json::Array Functions;
        json::Array Globals;
        json::Object Records;
        json::Array Enums;
        std::set<const Decl*> DoneFns, DoneRecs, DoneEnums, DoneGlobals;
        std::set<const Decl*> LambdaOps;

    public:
        std::set<std::string> Files;
        int Errors = 0;

        TDumper(ASTContext& ctx): Ctx(ctx), SM(ctx.getSourceManager()), PP(ctx.getLangOpts())
        {
            PP.SuppressTagKeyword = true;
            PP.Bool = true;
            PP.AnonymousTagLocations = false;
        }

        bool shouldVisitTemplateInstantiations() const
        {
            return true;
        }
        bool shouldVisitImplicitCode() const
        {
            return false;
        }

        std::string FileOf(SourceLocation l)
        {
            l = SM.getExpansionLoc(l);
            auto f = SM.getFilename(l).str();
            // normalise "a/../b"
            llvm::SmallString<256> p(f);
            SM.getFileManager().makeAbsolutePath(p);
            llvm::sys::path::remove_dots(p, true);
            return std::string(p.str());
        }
        bool InRepo(SourceLocation l)
        {
            auto f = FileOf(l);
            return f.compare(0, Root.size() + 1, Root + "/") == 0;
        }
        std::string RelFile(SourceLocation l)
        {
            auto f = FileOf(l);
            auto slash = Root.rfind('/');
            auto base = Root.substr(0, slash + 1);
            if (f.compare(0, base.size(), base) == 0)
                return f.substr(base.size());
            return f;
        }
        int LineOf(SourceLocation l)
        {
            return (int)SM.getExpansionLineNumber(l);
        }
        std::string Usr(const Decl* d)
        {
            llvm::SmallString<128> buf;
            if (index::generateUSRForDecl(d, buf))
                return "?" + std::to_string((uintptr_t)d);
            return std::string(buf.str());
        }
        std::string QName(const NamedDecl* d)
        {
            std::string s;
            llvm::raw_string_ostream os(s);
            PrintingPolicy p(PP);
            d->printQualifiedName(os, p);
            os.flush();
            s = ReplaceAll(s, "(anonymous namespace)::", "");
            s = ReplaceAll(s, "std::__cxx11::", "std::");
            s = ReplaceAll(s, "std::__1::", "std::");
            s = ReplaceAll(s, "std::chrono::_V2::", "std::chrono::");
            return s;
        }

        int Type(QualType q)
        {
            if (q.isNull())
                return -1;
            q = q.getCanonicalType();
            auto key = q.getAsOpaquePtr();
            auto it = TypeIds.find(key);
            if (it != TypeIds.end())
                return it->second;
            int id = Types.size();
            TypeIds[key] = id;
            Types.push_back(nullptr);
            json::Object o;
            std::string s = q.getAsString(PP);
            s = ReplaceAll(s, "(anonymous namespace)::", "");
            s = ReplaceAll(s, "std::__cxx11::", "std::");
            o["s"] = s;
            if (q.isConstQualified())
                o["c"] = 1;
            const clang::Type* t = q.getTypePtr();
            if (t->isDependentType()) {
                o["k"] = "dep";
            } else if (t->isBooleanType()) {
                o["k"] = "bool";
                o["w"] = 1;
                o["u"] = 1;
            } else if (t->isEnumeralType()) {
                o["k"] = "enum";
                auto ed = t->castAs<EnumType>()->getDecl();
                o["r"] = QName(ed);
                if (!ed->isDependentType() && ed->isComplete()) {
                    auto it = ed->getIntegerType();
                    if (!it.isNull()) {
                        o["w"] = (int64_t)Ctx.getIntWidth(it);
                        o["u"] = it->isUnsignedIntegerType() ? 1 : 0;
                    }
                    AddEnum(ed);
                }
            } else if (t->isIntegerType()) {
                o["k"] = "int";
                o["w"] = (int64_t)Ctx.getIntWidth(q);
                o["u"] = t->isUnsignedIntegerType() ? 1 : 0;
            } else if (t->isRealFloatingType()) {
                o["k"] = "float";
                o["w"] = (int64_t)Ctx.getTypeSize(q);
            } else if (t->isPointerType()) {
                o["k"] = "ptr";
                o["p"] = Type(t->getPointeeType());
            } else if (t->isReferenceType()) {
                o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
                o["p"] = Type(t->getPointeeType());
            } else if (auto at = Ctx.getAsConstantArrayType(q)) {
                o["k"] = "arr";
                o["p"] = Type(at->getElementType());
                o["n"] = (int64_t)at->getSize().getZExtValue();
            } else if (t->isVoidType()) {
                o["k"] = "void";
            } else if (t->isRecordType()) {
                o["k"] = "rec";
                auto rd = t->getAsCXXRecordDecl();
                if (rd) {
                    o["r"] = QName(rd);
                    if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                        json::Array ta;
                        for (auto& a: sp->getTemplateArgs().asArray())
                            AddTArg(ta, a);
                        o["ta"] = std::move(ta);
                    }
                    if (rd->hasDefinition()) {
                        if (rd->isLambda())
                            o["lam"] = LambdaId(rd);
                        o["ru"] = Usr(rd);
                    }
                }
            } else if (t->isNullPtrType()) {
                o["k"] = "nullptr";
            } else if (t->isFunctionProtoType()) {
                o["k"] = "fn";
            } else if (t->isMemberPointerType()) {
                o["k"] = "mptr";
            } else {
                o["k"] = "other";
            }
            Types[id] = std::move(o);
            if (t->isRecordType() && !t->isDependentType()) {
                auto rd = t->getAsCXXRecordDecl();
                if (rd)
                    AddRecord(rd);
            }
            return id;
        }
        void AddTArg(json::Array& ta, const TemplateArgument& a)
        {
            switch (a.getKind()) {
                case TemplateArgument::Type:
                    ta.push_back(Type(a.getAsType()));
                    break;
                case TemplateArgument::Integral:
                    ta.push_back(json::Object{{"i", ival(a.getAsIntegral())}});
                    break;
                case TemplateArgument::Pack:
                    for (auto& b: a.pack_elements())
                        AddTArg(ta, b);
                    break;
                default:
                    ta.push_back(nullptr);
            }
        }
        std::string LambdaId(const CXXRecordDecl* rd)
        {
            auto l = rd->getBeginLoc();
            return RelFile(l) + ":" + std::to_string(LineOf(l)) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(l));
        }
        void AddEnum(const EnumDecl* ed)
        {
            ed = ed->getDefinition() ? ed->getDefinition() : ed;
            if (!DoneEnums.insert(ed).second)
                return;
            if (!InRepo(ed->getLocation()))
                return;
            json::Array c;
            for (auto e: ed->enumerators())
                c.push_back(json::Array{e->getNameAsString(), ival(e->getInitVal())});
            Enums.push_back(json::Object{{"n", QName(ed)},
                                         {"file", RelFile(ed->getLocation())},
                                         {"line", LineOf(ed->getLocation())},
                                         {"c", std::move(c)}});
        }
        void AddRecord(const CXXRecordDecl* rd)
        {
            rd = rd->getDefinition();
            if (!rd || rd->isDependentType())
                return;
            if (!DoneRecs.insert(rd).second)
                return;
            bool inRepo = InRepo(rd->getLocation());
            json::Object o;
            o["n"] = QName(rd);
            json::Array bases;
            for (auto& b: rd->bases()) {
                auto brd = b.getType()->getAsCXXRecordDecl();
                if (brd) {
                    bases.push_back(json::Object{{"n", QName(brd)}, {"u", Usr(brd)}, {"t", Type(b.getType())}});
                    AddRecord(brd);
                }
            }
            o["b"] = std::move(bases);
            if (inRepo) {
                o["file"] = RelFile(rd->getLocation());
                o["line"] = LineOf(rd->getLocation());
                if (rd->isLambda())
                    o["lam"] = LambdaId(rd);
                json::Array fields;
                for (auto f: rd->fields()) {
                    json::Object fo{{"n", f->getNameAsString()}, {"t", Type(f->getType())}};
                    fo["acc"] = (int)f->getAccess();
                    if (f->isMutable())
                        fo["mut"] = 1;
                    if (!rd->isLambda() && f->hasInClassInitializer() && f->getInClassInitializer())
                        fo["i"] = E(f->getInClassInitializer());
                    fields.push_back(std::move(fo));
                }
                o["f"] = std::move(fields);
                json::Array methods;
                for (auto m: rd->methods()) {
                    if (m->isImplicit() && !m->isVirtual())
                        continue;
                    methods.push_back(Fn(m));
                }
                o["m"] = std::move(methods);
                if (rd->hasUserDeclaredDestructor() && rd->getDestructor())
                    o["dtor"] = Fn(rd->getDestructor());
            }
            Records[Usr(rd)] = std::move(o);
        }

        int Fn(const FunctionDecl* fd)
        {
            auto canon = fd->getCanonicalDecl();
            auto it = FnIds.find(canon);
            if (it != FnIds.end())
                return it->second;
            int id = Fns.size();
            FnIds[canon] = id;
            Fns.push_back(nullptr);
            json::Object o;
            o["n"] = QName(fd);
            o["u"] = Usr(fd);
            o["r"] = Type(fd->getReturnType());
            json::Array ps;
            for (auto p: fd->parameters())
                ps.push_back(Type(p->getType()));
            o["p"] = std::move(ps);
            if (fd->isVariadic())
                o["va"] = 1;
            if (InRepo(fd->getLocation()))
                o["repo"] = 1;
            if (auto proto = fd->getType()->getAs<FunctionProtoType>()) {
                auto est = proto->getExceptionSpecType();
                if (isUnresolvedExceptionSpec(est)) {
                    // implicit: resolved lazily; destructors are noexcept unless stated otherwise
                    if (isa<CXXDestructorDecl>(fd))
                        o["ne"] = 1;
                } else if (proto->isNothrow())
                    o["ne"] = 1;
            }
            if (auto ta = fd->getTemplateSpecializationArgs()) {
                json::Array tas;
                for (auto& a: ta->asArray())
                    AddTArg(tas, a);
                o["ta"] = std::move(tas);
            }
            if (fd->hasAttr<NoReturnAttr>() || fd->isNoReturn())
                o["nr"] = 1;
            if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
                o["cls"] = QName(md->getParent());
                o["clsu"] = Usr(md->getParent());
                if (md->isStatic())
                    o["st"] = 1;
                if (md->isConst())
                    o["cst"] = 1;
                if (md->isVirtual()) {
                    o["v"] = 1;
                    if (md->isPureVirtual())
                        o["pv"] = 1;
                    json::Array ov;
                    for (auto b: md->overridden_methods())
                        ov.push_back(Usr(b));
                    o["ov"] = std::move(ov);
                }
                if (isa<CXXConstructorDecl>(md)) {
                    o["ctor"] = 1;
                    auto c = cast<CXXConstructorDecl>(md);
                    if (c->isCopyConstructor())
                        o["copy"] = 1;
                    if (c->isMoveConstructor())
                        o["move"] = 1;
                    if (c->isDefaultConstructor())
                        o["def"] = 1;
                }
                if (isa<CXXDestructorDecl>(md))
                    o["dtor"] = 1;
                if (md->getParent()->isLambda())
                    o["lam"] = LambdaId(md->getParent());
                o["acc"] = (int)md->getAccess();
            }
            if (fd->isOverloadedOperator())
                o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
            Fns[id] = std::move(o);
            return id;
        }

        int Var(const ValueDecl* vd)
        {
            const Decl* canon = vd->getCanonicalDecl();
            auto it = VarIds.find(canon);
            if (it != VarIds.end())
                return it->second;
            int id = Vars.size();
            VarIds[canon] = id;
            Vars.push_back(nullptr);
            json::Object o;
            o["n"] = vd->getNameAsString();
            o["t"] = Type(vd->getType());
            if (auto v = dyn_cast<VarDecl>(vd)) {
                if (isa<ParmVarDecl>(v))
                    o["k"] = "param";
                else if (v->isStaticLocal())
                    o["k"] = "slocal";
                else if (v->isLocalVarDecl())
                    o["k"] = "local";
                else {
                    o["k"] = "global";
                    o["q"] = QName(v);
                    o["u"] = Usr(v);
                }
                if (v->isInitCapture())
                    o["ic"] = 1;
            } else if (isa<BindingDecl>(vd)) {
                o["k"] = "binding";
            } else {
                o["k"] = "other";
                o["q"] = QName(vd);
            }
            Vars[id] = std::move(o);
            return id;
        }

        static const Expr* Skip(const Expr* e)
        {
            while (e) {
                if (auto p = dyn_cast<ParenExpr>(e))
                    e = p->getSubExpr();
                else if (auto x = dyn_cast<ExprWithCleanups>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<MaterializeTemporaryExpr>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<CXXBindTemporaryExpr>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<ConstantExpr>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<FullExpr>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                    e = x->getReplacement();
                else if (auto x = dyn_cast<CXXDefaultArgExpr>(e))
                    e = x->getExpr();
                else if (auto x = dyn_cast<CXXDefaultInitExpr>(e))
                    e = x->getExpr();
                else if (auto x = dyn_cast<CXXStdInitializerListExpr>(e))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e))
                    e = x->getSemanticForm();
                else if (auto x = dyn_cast<OpaqueValueExpr>(e)) {
                    if (!x->getSourceExpr())
                        return e;
                    e = x->getSourceExpr();
                } else if (auto x = dyn_cast<ChooseExpr>(e))
                    e = x->getChosenSubExpr();
                else if (auto x = dyn_cast<CXXFunctionalCastExpr>(e);
                         x && (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp ||
                               x->getCastKind() == CK_UserDefinedConversion))
                    e = x->getSubExpr();
                else if (auto x = dyn_cast<CastExpr>(e)) {
                    switch (x->getCastKind()) {
                        case CK_LValueToRValue:
                        case CK_NoOp:
                        case CK_ArrayToPointerDecay:
                        case CK_FunctionToPointerDecay:
                        case CK_DerivedToBase:
                        case CK_UncheckedDerivedToBase:
                        case CK_ConstructorConversion:
                        case CK_UserDefinedConversion:
                        case CK_BuiltinFnToFnPtr:
                            e = x->getSubExpr();
                            continue;
                        default:
                            return e;
                    }
                } else
                    return e;
            }
            return e;
        }

        json::Array Args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
        {
            json::Array a;
            for (auto x: r)
                a.push_back(E(x));
            return a;
        }

        json::Value E(const Expr* e)
        {
            e = Skip(e);
            if (!e)
                return nullptr;
            json::Object o;
            o["l"] = LineOf(e->getExprLoc());
            o["t"] = Type(e->getType());
            if (!e->isValueDependent() && !e->isTypeDependent() && !isa<IntegerLiteral>(e) &&
                (e->getType()->isIntegralOrEnumerationType()) && !e->containsErrors() && e->isPRValue() &&
                !isa<CallExpr>(e))
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, Ctx, Expr::SE_NoSideEffects, false))
                    o["cv"] = ival(r.Val.getInt());
            }
            switch (e->getStmtClass()) {
                case Stmt::IntegerLiteralClass: {
                    o["k"] = "int";
                    auto v = cast<IntegerLiteral>(e)->getValue();
                    o["v"] = ival(v);
                    break;
                }
                case Stmt::CharacterLiteralClass:
                    o["k"] = "int";
                    o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue();
                    break;
                case Stmt::CXXBoolLiteralExprClass:
                    o["k"] = "int";
                    o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? 1 : 0;
                    break;
                case Stmt::FloatingLiteralClass:
                    o["k"] = "float";
                    o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble();
                    break;
                case Stmt::StringLiteralClass: {
                    o["k"] = "str";
                    std::string b;
                    auto sl = cast<StringLiteral>(e);
                    if (sl->getCharByteWidth() == 1)
                        b = sl->getBytes().str();
                    std::string u;
                    for (unsigned char c: b) {
                        if (c < 0x80)
                            u += (char)c;
                        else {
                            u += (char)(0xC0 | (c >> 6));
                            u += (char)(0x80 | (c & 0x3F));
                        }
                    }
                    o["v"] = u; // latin-1 view of the bytes
                    break;
                }
                case Stmt::CXXNullPtrLiteralExprClass:
                case Stmt::GNUNullExprClass:
                    o["k"] = "null";
                    break;
                case Stmt::CXXThisExprClass:
                    o["k"] = "this";
                    break;
                case Stmt::DeclRefExprClass: {
                    auto d = cast<DeclRefExpr>(e)->getDecl();
                    if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
                        o["k"] = "enumc";
                        o["q"] = QName(ec);
                        o["v"] = ival(ec->getInitVal());
                        Type(e->getType());
                    } else if (auto f = dyn_cast<FunctionDecl>(d)) {
                        o["k"] = "fnref";
                        o["f"] = Fn(f);
                    } else if (auto b = dyn_cast<BindingDecl>(d)) {
                        o["k"] = "ref";
                        o["v"] = Var(b);
                    } else {
                        o["k"] = "ref";
                        o["v"] = Var(d);
                        if (auto v = dyn_cast<VarDecl>(d))
                            MaybeGlobal(v);
                    }
                    break;
                }
                case Stmt::MemberExprClass: {
                    auto m = cast<MemberExpr>(e);
                    auto d = m->getMemberDecl();
                    if (auto f = dyn_cast<FieldDecl>(d)) {
                        o["k"] = "mem";
                        o["n"] = f->getNameAsString();
                        o["cls"] = QName(f->getParent());
                        o["b"] = E(m->getBase());
                        if (m->isArrow())
                            o["ar"] = 1;
                    } else if (auto v = dyn_cast<VarDecl>(d)) {
                        o["k"] = "ref";
                        o["v"] = Var(v);
                        MaybeGlobal(v);
                    } else if (auto f = dyn_cast<FunctionDecl>(d)) {
                        o["k"] = "fnref";
                        o["f"] = Fn(f);
                        o["b"] = E(m->getBase());
                    } else if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
                        o["k"] = "enumc";
                        o["q"] = QName(ec);
                        o["v"] = ival(ec->getInitVal());
                    } else
                        o["k"] = "unk";
                    break;
                }
                case Stmt::CXXMemberCallExprClass: {
                    auto c = cast<CXXMemberCallExpr>(e);
                    o["k"] = "call";
                    if (auto f = c->getMethodDecl()) {
                        o["f"] = Fn(f);
                        o["o"] = E(c->getImplicitObjectArgument());
                        auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
                        if (me && me->hasQualifier())
                            o["nv"] = 1; // Base::Method(): no virtual dispatch
                        if (me && me->isArrow())
                            o["ar"] = 1;
                    } else {
                        o["ce"] = E(c->getCallee());
                    }
                    o["a"] = Args(c->arguments());
                    break;
                }
                case Stmt::CXXOperatorCallExprClass:
                case Stmt::UserDefinedLiteralClass:
                case Stmt::CallExprClass: {
                    auto c = cast<CallExpr>(e);
                    o["k"] = "call";
                    if (auto f = c->getDirectCallee()) {
                        o["f"] = Fn(f);
                        auto md = dyn_cast<CXXMethodDecl>(f);
                        if (isa<CXXOperatorCallExpr>(c) && md && !md->isStatic()) {
                            o["o"] = E(c->getArg(0));
                            json::Array a;
                            for (unsigned i = 1; i < c->getNumArgs(); ++i)
                                a.push_back(E(c->getArg(i)));
                            o["a"] = std::move(a);
                        } else
                            o["a"] = Args(c->arguments());
                        if (isa<CXXOperatorCallExpr>(c))
                            o["oc"] = 1;
                    } else {
                        o["ce"] = E(c->getCallee());
                        o["a"] = Args(c->arguments());
                    }
                    break;
                }
                case Stmt::CXXConstructExprClass:
                case Stmt::CXXTemporaryObjectExprClass: {
                    auto c = cast<CXXConstructExpr>(e);
                    // elidable copies carry no meaning of their own
                    if (c->isElidable() && c->getNumArgs() >= 1)
                        return E(c->getArg(0));
                    o["k"] = "ctor";
                    o["f"] = Fn(c->getConstructor());
                    json::Array a;
                    for (auto x: c->arguments())
                        a.push_back(E(x));
                    o["a"] = std::move(a);
                    if (c->isListInitialization())
                        o["li"] = 1;
                    break;
                }
                case Stmt::CXXInheritedCtorInitExprClass:
                    o["k"] = "ctor";
                    o["f"] = Fn(cast<CXXInheritedCtorInitExpr>(e)->getConstructor());
                    o["a"] = json::Array();
                    break;
                case Stmt::CXXNewExprClass: {
                    auto n = cast<CXXNewExpr>(e);
                    o["k"] = "new";
                    if (n->getConstructExpr())
                        o["e"] = E(n->getConstructExpr());
                    break;
                }
                case Stmt::CXXDeleteExprClass:
                    o["k"] = "delete";
                    o["e"] = E(cast<CXXDeleteExpr>(e)->getArgument());
                    break;
                case Stmt::CXXThrowExprClass: {
                    auto t = cast<CXXThrowExpr>(e);
                    o["k"] = "throw";
                    if (t->getSubExpr()) {
                        o["e"] = E(t->getSubExpr());
                        auto ty = t->getSubExpr()->getType();
                        o["tt"] = Type(ty);
                    }
                    break;
                }
                case Stmt::LambdaExprClass:
                    DumpLambda(cast<LambdaExpr>(e), o);
                    break;
                case Stmt::BinaryOperatorClass: {
                    auto b = cast<BinaryOperator>(e);
                    o["k"] = "bin";
                    o["op"] = b->getOpcodeStr().str();
                    o["a"] = E(b->getLHS());
                    o["b"] = E(b->getRHS());
                    break;
                }
                case Stmt::CompoundAssignOperatorClass: {
                    auto b = cast<CompoundAssignOperator>(e);
                    o["k"] = "cas";
                    o["op"] = b->getOpcodeStr().str();
                    o["a"] = E(b->getLHS());
                    o["b"] = E(b->getRHS());
                    o["ct"] = Type(b->getComputationResultType());
                    break;
                }
                case Stmt::UnaryOperatorClass: {
                    auto u = cast<UnaryOperator>(e);
                    o["k"] = "un";
                    o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                    if (u->isPostfix())
                        o["post"] = 1;
                    o["e"] = E(u->getSubExpr());
                    break;
                }
                case Stmt::ConditionalOperatorClass: {
                    auto c = cast<ConditionalOperator>(e);
                    o["k"] = "cond";
                    o["c"] = E(c->getCond());
                    o["a"] = E(c->getTrueExpr());
                    o["b"] = E(c->getFalseExpr());
                    break;
                }
                case Stmt::BinaryConditionalOperatorClass: {
                    auto c = cast<BinaryConditionalOperator>(e);
                    o["k"] = "cond";
                    o["c"] = E(c->getCommon());
                    o["a"] = E(c->getCommon());
                    o["b"] = E(c->getFalseExpr());
                    break;
                }
                case Stmt::ArraySubscriptExprClass: {
                    auto a = cast<ArraySubscriptExpr>(e);
                    o["k"] = "sub";
                    o["a"] = E(a->getBase());
                    o["b"] = E(a->getIdx());
                    // array objects keep their size
                    auto bt = a->getBase()->IgnoreParenImpCasts()->getType();
                    o["bt"] = Type(bt);
                    break;
                }
                case Stmt::InitListExprClass: {
                    auto i = cast<InitListExpr>(e);
                    if (i->getSemanticForm())
                        i = i->getSemanticForm();
                    o["k"] = "il";
                    json::Array a;
                    for (auto x: i->inits())
                        a.push_back(E(x));
                    o["a"] = std::move(a);
                    if (i->hasArrayFiller())
                        o["fill"] = 1;
                    if (auto rd = i->getType()->getAsCXXRecordDecl(); rd && rd->hasDefinition()) {
                        json::Array fs;
                        for (auto& b: rd->bases()) {
                            (void)b;
                            fs.push_back(nullptr);
                        }
                        for (auto f: rd->fields())
                            if (!f->isUnnamedBitfield())
                                fs.push_back(f->getNameAsString());
                        o["fs"] = std::move(fs);
                    }
                    break;
                }
                case Stmt::ParenListExprClass: {
                    o["k"] = "il";
                    json::Array a;
                    auto p = cast<ParenListExpr>(e);
                    for (unsigned i = 0; i < p->getNumExprs(); ++i)
                        a.push_back(E(p->getExpr(i)));
                    o["a"] = std::move(a);
                    break;
                }
                case Stmt::CXXParenListInitExprClass: {
                    o["k"] = "il";
                    json::Array a;
                    for (auto x: cast<CXXParenListInitExpr>(e)->getInitExprs())
                        a.push_back(E(x));
                    o["a"] = std::move(a);
                    break;
                }
                case Stmt::ImplicitValueInitExprClass:
                case Stmt::CXXScalarValueInitExprClass:
                    o["k"] = "zero";
                    break;
                case Stmt::UnaryExprOrTypeTraitExprClass:
                    o["k"] = "sizeof";
                    break;
                case Stmt::CXXTypeidExprClass:
                    o["k"] = "typeid";
                    break;
                case Stmt::ImplicitCastExprClass:
                case Stmt::CStyleCastExprClass:
                case Stmt::CXXStaticCastExprClass:
                case Stmt::CXXReinterpretCastExprClass:
                case Stmt::CXXConstCastExprClass:
                case Stmt::CXXFunctionalCastExprClass:
                case Stmt::CXXDynamicCastExprClass: {
                    auto c = cast<CastExpr>(e);
                    o["k"] = "cast";
                    o["ck"] = c->getCastKindName();
                    if (isa<CXXDynamicCastExpr>(e))
                        o["dyn"] = 1;
                    if (!isa<ImplicitCastExpr>(e))
                        o["ex"] = 1;
                    o["e"] = E(c->getSubExpr());
                    break;
                }
                case Stmt::CXXUnresolvedConstructExprClass:
                case Stmt::UnresolvedLookupExprClass:
                case Stmt::UnresolvedMemberExprClass:
                case Stmt::CXXDependentScopeMemberExprClass:
                case Stmt::DependentScopeDeclRefExprClass:
                case Stmt::RecoveryExprClass: {
                    o["k"] = "unk";
                    o["sc"] = e->getStmtClassName();
                    json::Array a;
                    for (auto c: e->children())
                        if (auto x = dyn_cast_or_null<Expr>(c))
                            a.push_back(E(x));
                    o["a"] = std::move(a);
                    break;
                }
                default: {
                    o["k"] = "unk";
                    o["sc"] = e->getStmtClassName();
                    json::Array a;
                    for (auto c: e->children())
                        if (auto x = dyn_cast_or_null<Expr>(c))
                            a.push_back(E(x));
                    o["a"] = std::move(a);
                }
            }
            return json::Value(std::move(o));
        }

        void DumpLambda(const LambdaExpr* le, json::Object& o)
        {
            o["k"] = "lambda";
            auto rd = le->getLambdaClass();
            o["id"] = LambdaId(rd);
            json::Array caps;
            auto initIt = le->capture_init_begin();
            for (auto& c: le->captures()) {
                json::Object co;
                if (c.capturesThis()) {
                    co["this"] = 1;
                    if (c.getCaptureKind() == LCK_StarThis)
                        co["copy"] = 1;
                } else if (c.capturesVariable()) {
                    auto v = c.getCapturedVar();
                    co["v"] = Var(v);
                    co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                    if (auto vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture())
                        co["i"] = E(vd->getInit());
                }
                caps.push_back(std::move(co));
                ++initIt;
            }
            o["cap"] = std::move(caps);
            json::Array bodies;
            auto op = le->getCallOperator();
            if (le->isGenericLambda()) {
                auto ft = op->getDescribedFunctionTemplate();
                if (ft) {
                    for (auto sp: ft->specializations())
                        if (sp->hasBody()) {
                            bodies.push_back(FnBody(sp));
                            LambdaOps.insert(sp);
                        }
                }
                if (bodies.empty())
                    bodies.push_back(FnBody(op));
                o["gen"] = 1;
            } else
                bodies.push_back(FnBody(op));
            LambdaOps.insert(op);
            o["fn"] = std::move(bodies);
        }

        json::Value DeclV(const VarDecl* v)
        {
            json::Object d{{"v", Var(v)}, {"l", LineOf(v->getLocation())}};
            if (v->isStaticLocal())
                d["st"] = 1;
            if (v->getInit())
                d["i"] = E(v->getInit());
            if (auto dd = dyn_cast<DecompositionDecl>(v)) {
                json::Array b;
                for (auto x: dd->bindings())
                    b.push_back(Var(x));
                d["bind"] = std::move(b);
            }
            return json::Value(std::move(d));
        }

        json::Value S(const Stmt* s)
        {
            if (!s)
                return nullptr;
            json::Object o;
            o["l"] = LineOf(s->getBeginLoc());
            if (auto e = dyn_cast<Expr>(s)) {
                o["k"] = "expr";
                o["e"] = E(e);
                return json::Value(std::move(o));
            }
            switch (s->getStmtClass()) {
                case Stmt::CompoundStmtClass: {
                    o["k"] = "blk";
                    json::Array a;
                    for (auto c: cast<CompoundStmt>(s)->body())
                        a.push_back(S(c));
                    o["s"] = std::move(a);
                    o["el"] = LineOf(s->getEndLoc());
                    break;
                }
                case Stmt::DeclStmtClass: {
                    o["k"] = "decl";
                    json::Array a;
                    for (auto d: cast<DeclStmt>(s)->decls())
                        if (auto v = dyn_cast<VarDecl>(d))
                            a.push_back(DeclV(v));
                    o["d"] = std::move(a);
                    break;
                }
                case Stmt::IfStmtClass: {
                    auto i = cast<IfStmt>(s);
                    o["k"] = "if";
                    if (i->getInit())
                        o["i"] = S(i->getInit());
                    if (i->getConditionVariable())
                        o["cv"] = DeclV(i->getConditionVariable());
                    if (i->isConstexpr())
                        o["ce"] = 1;
                    o["c"] = E(i->getCond());
                    o["a"] = S(i->getThen());
                    o["b"] = S(i->getElse());
                    break;
                }
                case Stmt::WhileStmtClass: {
                    auto w = cast<WhileStmt>(s);
                    o["k"] = "while";
                    if (w->getConditionVariable())
                        o["cv"] = DeclV(w->getConditionVariable());
                    o["c"] = E(w->getCond());
                    o["s"] = S(w->getBody());
                    break;
                }
                case Stmt::DoStmtClass: {
                    auto w = cast<DoStmt>(s);
                    o["k"] = "do";
                    o["c"] = E(w->getCond());
                    o["s"] = S(w->getBody());
                    break;
                }
                case Stmt::ForStmtClass: {
                    auto f = cast<ForStmt>(s);
                    o["k"] = "for";
                    o["i"] = S(f->getInit());
                    if (f->getConditionVariable())
                        o["cv"] = DeclV(f->getConditionVariable());
                    o["c"] = E(f->getCond());
                    o["n"] = E(f->getInc());
                    o["s"] = S(f->getBody());
                    break;
                }
                case Stmt::CXXForRangeStmtClass: {
                    auto f = cast<CXXForRangeStmt>(s);
                    o["k"] = "rfor";
                    if (f->getInit())
                        o["i"] = S(f->getInit());
                    o["d"] = DeclV(f->getLoopVariable());
                    o["r"] = E(f->getRangeInit());
                    o["s"] = S(f->getBody());
                    break;
                }
                case Stmt::SwitchStmtClass: {
                    auto w = cast<SwitchStmt>(s);
                    o["k"] = "switch";
                    if (w->getInit())
                        o["i"] = S(w->getInit());
                    if (w->getConditionVariable())
                        o["cv"] = DeclV(w->getConditionVariable());
                    o["c"] = E(w->getCond());
                    o["s"] = S(w->getBody());
                    break;
                }
                case Stmt::CaseStmtClass: {
                    auto c = cast<CaseStmt>(s);
                    o["k"] = "case";
                    Expr::EvalResult r;
                    if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, Ctx))
                        o["v"] = ival(r.Val.getInt());
                    o["e"] = E(c->getLHS());
                    if (c->getRHS()) {
                        Expr::EvalResult r2;
                        if (c->getRHS()->EvaluateAsInt(r2, Ctx))
                            o["v2"] = ival(r2.Val.getInt());
                    }
                    o["s"] = S(c->getSubStmt());
                    break;
                }
                case Stmt::DefaultStmtClass:
                    o["k"] = "default";
                    o["s"] = S(cast<DefaultStmt>(s)->getSubStmt());
                    break;
                case Stmt::ReturnStmtClass:
                    o["k"] = "ret";
                    o["e"] = E(cast<ReturnStmt>(s)->getRetValue());
                    break;
                case Stmt::BreakStmtClass:
                    o["k"] = "break";
                    break;
                case Stmt::ContinueStmtClass:
                    o["k"] = "cont";
                    break;
                case Stmt::NullStmtClass:
                    o["k"] = "nop";
                    break;
                case Stmt::LabelStmtClass:
                    o["k"] = "label";
                    o["n"] = cast<LabelStmt>(s)->getName();
                    o["s"] = S(cast<LabelStmt>(s)->getSubStmt());
                    break;
                case Stmt::GotoStmtClass:
                    o["k"] = "goto";
                    o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
                    break;
                case Stmt::AttributedStmtClass:
                    return S(cast<AttributedStmt>(s)->getSubStmt());
                case Stmt::CXXTryStmtClass: {
                    auto t = cast<CXXTryStmt>(s);
                    o["k"] = "try";
                    o["s"] = S(t->getTryBlock());
                    json::Array hs;
                    for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                        auto h = t->getHandler(i);
                        json::Object ho{{"l", LineOf(h->getBeginLoc())}};
                        if (h->getExceptionDecl()) {
                            auto ty = h->getCaughtType().getNonReferenceType().getUnqualifiedType();
                            ho["t"] = Type(ty);
                            ho["v"] = Var(h->getExceptionDecl());
                        }
                        ho["s"] = S(h->getHandlerBlock());
                        hs.push_back(std::move(ho));
                    }
                    o["h"] = std::move(hs);
                    break;
                }
                default: {
                    o["k"] = "unkS";
                    o["sc"] = s->getStmtClassName();
                    json::Array a;
                    for (auto c: s->children())
                        a.push_back(S(c));
                    o["s"] = std::move(a);
                }
            }
            return json::Value(std::move(o));
        }

        json::Object FnBody(const FunctionDecl* fd)
        {
            json::Object o;
            o["f"] = Fn(fd);
            o["file"] = RelFile(fd->getLocation());
            o["line"] = LineOf(fd->getLocation());
            o["end"] = LineOf(fd->getEndLoc());
            if (fd->isDependentContext() || fd->getDescribedFunctionTemplate())
                o["dep"] = 1;
            json::Array ps;
            for (auto p: fd->parameters())
                ps.push_back(Var(p));
            o["ps"] = std::move(ps);
            if (auto c = dyn_cast<CXXConstructorDecl>(fd)) {
                json::Array inits;
                for (auto i: c->inits()) {
                    json::Object io;
                    io["l"] = LineOf(i->getSourceLocation());
                    if (i->isAnyMemberInitializer())
                        io["m"] = i->getAnyMember()->getNameAsString();
                    else if (i->isDelegatingInitializer())
                        io["d"] = 1;
                    else if (i->isBaseInitializer())
                        io["b"] = Type(QualType(i->getBaseClass(), 0));
                    if (i->getInit())
                        io["e"] = E(i->getInit());
                    if (i->isWritten())
                        io["w"] = 1;
                    inits.push_back(std::move(io));
                }
                o["inits"] = std::move(inits);
            }
            o["s"] = S(fd->getBody());
            return o;
        }

        void MaybeGlobal(const VarDecl* v)
        {
            if (v->isLocalVarDecl() || isa<ParmVarDecl>(v) || !v->hasGlobalStorage())
                return;
            auto def = v->getDefinition();
            if (!def)
                def = v->getInitializingDeclaration() ? const_cast<VarDecl*>(v->getInitializingDeclaration()) : nullptr;
            if (!def || !def->getInit() || def->getInit()->isValueDependent())
                return;
            if (!InRepo(def->getLocation()))
                return;
            if (!DoneGlobals.insert(def->getCanonicalDecl()).second)
                return;
            json::Object o;
            o["v"] = Var(v);
            o["file"] = RelFile(def->getLocation());
            o["line"] = LineOf(def->getLocation());
            o["i"] = E(def->getInit());
            if (def->getType().isConstQualified() || def->isConstexpr())
                o["const"] = 1;
            Globals.push_back(std::move(o));
        }

        bool VisitFunctionDecl(FunctionDecl* fd)
        {
            if (!fd->isThisDeclarationADefinition() || !fd->hasBody())
                return true;
            if (!InRepo(fd->getLocation()))
                return true;
            if (fd->isDependentContext() || fd->getDescribedFunctionTemplate())
                return true;
            if (auto md = dyn_cast<CXXMethodDecl>(fd); md && md->getParent()->isLambda())
                return true; // dumped in place
            if (fd->isImplicit() || fd->isDefaulted())
                return true;
            if (!DoneFns.insert(fd->getCanonicalDecl()).second)
                return true;
            Functions.push_back(FnBody(fd));
            return true;
        }
        bool VisitCXXRecordDecl(CXXRecordDecl* rd)
        {
            if (rd->isThisDeclarationADefinition() && InRepo(rd->getLocation()) && !rd->isDependentType())
                AddRecord(rd);
            return true;
        }
        bool VisitEnumDecl(EnumDecl* ed)
        {
            if (ed->isThisDeclarationADefinition() && InRepo(ed->getLocation()) && !ed->isDependentType())
                AddEnum(ed);
            return true;
        }
        bool VisitVarDecl(VarDecl* v)
        {
            if (InRepo(v->getLocation()) && v->hasGlobalStorage() && !v->isStaticLocal() && !v->isLocalVarDecl() &&
                !v->getType()->isDependentType())
                MaybeGlobal(v);
            return true;
        }

        void Finish()
        {
            json::Object o;
            o["types"] = std::move(Types);
            o["fns"] = std::move(Fns);
            o["vars"] = std::move(Vars);
            o["functions"] = std::move(Functions);
            o["globals"] = std::move(Globals);
            o["records"] = std::move(Records);
            o["enums"] = std::move(Enums);
            json::Array fs;
            for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
                llvm::SmallString<256> p(it->first.getName());
                SM.getFileManager().makeAbsolutePath(p);
                llvm::sys::path::remove_dots(p, true);
                fs.push_back(std::string(p.str()));
            }
            o["files"] = std::move(fs);
            o["errors"] = Errors;
            std::error_code ec;
            llvm::raw_fd_ostream os(OutPath, ec);
            os << json::Value(std::move(o));
        }
    };

    class TConsumer: public ASTConsumer
    {
        CompilerInstance& CI;

    public:
        TConsumer(CompilerInstance& ci): CI(ci)
        {}
        void HandleTranslationUnit(ASTContext& ctx) override
        {
            TDumper d(ctx);
            d.TraverseDecl(ctx.getTranslationUnitDecl());
            d.Errors = CI.getDiagnostics().getClient()->getNumErrors();
            d.Finish();
        }
    };
    class TAction: public ASTFrontendAction
    {
    public:
        std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
        {
            return std::make_unique<TConsumer>(ci);
        }
    };
}

int main(int argc, char** argv)
{
    // wbsa ROOT OUT FILE -- compiler args
    if (argc < 5) {
        std::cerr << "usage: wbsa ROOT OUT FILE -- args\n";
        return 2;
    }
    Root = argv[1];
    OutPath = argv[2];
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    auto factory = tooling::newFrontendActionFactory<TAction>();
    int rc = tool.run(factory.get());
    std::ifstream chk(OutPath);
    if (!chk)
        return rc ? rc : 1;
    return 0;
}
