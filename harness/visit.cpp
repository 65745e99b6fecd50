// Which code the checks get to see: every declaration and statement outside system headers, once, in
// traversal order; the options that restrict it; and the state kept for the checks while visiting.
//   family 0: files and options   1: -only-qt   2: warnings that are errors
#include "h.h"
#include "clang/AST/ParentMap.h"
#include "clang/ASTMatchers/ASTMatchFinder.h"
using namespace h;

namespace
{
struct Seen {
    const void *node;
    const char *kind;
};
struct Probe : CheckBase, ast_matchers::MatchFinder::MatchCallback {
    std::vector<const Stmt *> stmts;
    std::vector<const Decl *> decls;
    std::vector<const FunctionDecl *> function; // what the context named while stmts[i] was visited
    std::vector<bool> parents;
    unsigned matches = 0;
    Probe(const std::string &n, int options)
        : CheckBase(n, options)
    {
    }
    void VisitStmt(Stmt *s) override
    {
        stmts.push_back(s);
        function.push_back(m_context->lastFunctionDecl);
        bool ok = m_context->parentMap != nullptr;
        for (const Stmt *c : s->children())
            if (ok && c)
                ok = m_context->parentMap->getParent(c) == s;
        parents.push_back(ok);
    }
    void VisitDecl(Decl *d) override
    {
        decls.push_back(d);
    }
    void registerASTMatchers(ast_matchers::MatchFinder &f) override
    {
        f.addMatcher(ast_matchers::functionDecl().bind("f"), this);
    }
    void run(const ast_matchers::MatchFinder::MatchResult &) override
    {
        ++matches;
    }
};

const char *USER = R"(typedef int UserTypedef;
#define USER_MACRO(x) do { int inUserMacro = x; (void)inUserMacro; } while (0)
#define USER_DECL(name) int name();
class User { public: int user(int a) { if (a) return a + 1; return 0; } int b; };
inline int userFunction() { UserTypedef t = 3; for (int i = 0; i < 3; ++i) t += i; return t; }
)";
const char *SYS = R"(typedef int SysTypedef;
using SysAlias = long;
#define SYS_MACRO(x) do { int inSysMacro = x; (void)inSysMacro; } while (0)
#define SYS_DECL(name) struct name { int m; };
class Sys { public: int sys(int a) { typedef short Inner; Inner i = a; return i; } SysTypedef b; };
inline int sysFunction() { User u; USER_MACRO(4); return u.user(3) + sizeof(Sys); }
USER_DECL(fromUserMacro)
)";
const char *MAIN = R"(#include "user.h"
#include "sys.h"
typedef SysTypedef MainTypedef;
class Main : public User { public: int main(int a) { SYS_MACRO(a); while (a) { --a; if (a == 2) continue; } return a; }
  struct Nested { void deep() { USER_MACRO(1); } }; };
template <typename T> struct Tmpl { T t; T get() { return t + 1; } };
SYS_DECL(FromSysMacro)
USER_DECL(fromUser)
int f(int x) { Main m; FromSysMacro s; s.m = x; switch (x) { case 1: x = 2; break; default: x = m.main(x); } Tmpl<int> t; return t.get() + s.m; }
namespace n { enum E { A, B }; int g(E e) { return e == A ? f(1) : userFunction(); } }
)";

// the kind of each of the three files, as the compiler reports it
uint8_t *kinds; // [main, user, sys]
std::vector<FileID> fids;
bool system(uint8_t k)
{
    return k != SrcMgr::C_User & k != SrcMgr::C_User_ModuleMap;
}
int fileOf(SourceManager &sm, SourceLocation l)
{
    FileID f = sm.getDecomposedExpansionLoc(l).first;
    for (size_t i = 0; i < fids.size(); ++i)
        if (fids[i] == f)
            return (int)i;
    return -1;
}
}
namespace clang
{
SrcMgr::CharacteristicKind SourceManager::getFileCharacteristic(SourceLocation l) const
{
    if (!kinds)
        return SrcMgr::C_User;
    int f = fileOf(const_cast<SourceManager &>(*this), l);
    return f < 0 ? SrcMgr::C_User : (SrcMgr::CharacteristicKind)kinds[f];
}
}

namespace
{
struct Oracle : RecursiveASTVisitor<Oracle> {
    bool implicit = false;
    std::vector<Stmt *> s;
    std::vector<Decl *> d;
    bool shouldVisitImplicitCode() const
    {
        return implicit;
    }
    bool VisitStmt(Stmt *x)
    {
        s.push_back(x);
        return true;
    }
    bool VisitDecl(Decl *x)
    {
        d.push_back(x);
        return true;
    }
};
const FunctionDecl *enclosing(ASTContext &c, const Stmt *s)
{
    DynTypedNode n = DynTypedNode::create(*s);
    for (;;) {
        auto p = c.getParents(n);
        if (p.empty())
            return nullptr;
        n = p[0];
        if (auto *f = n.get<FunctionDecl>())
            return f;
    }
}

std::vector<std::string> defines; // -D arguments put in the context, bytes symbolic
void visit(bool onlyQtFamily, std::vector<unsigned> defineLengths)
{
    int checkOptions = symInt<int>("check-options", 0);
    // (a check hooked to the preprocessor is none of this)
    SYM_ASSUME((checkOptions & RegisteredCheck::Option_PreprocessorCallbacks) == 0);
    uint8_t canIgnore = symBool("can-ignore-includes");
    int options = symInt<int>("options", 0);
    if (onlyQtFamily) { // everything but -only-qt is family 0
        SYM_ASSUME(checkOptions == (RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls));
        SYM_ASSUME(canIgnore == 0);
        SYM_ASSUME((options & ~ClazyContext::ClazyOption_OnlyQt) == 0);
    } else
        SYM_ASSUME((options & (ClazyContext::ClazyOption_OnlyQt | ClazyContext::ClazyOption_ExportFixes)) == 0);
    TU tu;
    tu.code = MAIN;
    tu.files = {{"user.h", USER}, {"sys.h", SYS}};
    tu.checks = {{"aa", [=] { return new Probe("aa", canIgnore ? CheckBase::Option_CanIgnoreIncludes : 0); }, checkOptions},
                 {"bb", [] { return new Probe("bb", 0); }, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls | RegisteredCheck::Option_VisitAllTypeDefs}};
    std::vector<uint8_t> undef;
    for (size_t i = 0; i < defineLengths.size(); ++i) {
        // (the last letter tells them apart, so that the compiler keeps them in order)
        tu.args.push_back("-D" + std::string(defineLengths[i] - 1, 'A') + (char)('a' + i));
    }
    withTU(tu, [&](Env &env) {
        SourceManager &sm = env.sm();
        fids = {sm.getMainFileID()};
        for (auto *d : env.decls<CXXRecordDecl>())
            if ((d->getName() == "User" || d->getName() == "Sys") && !d->isImplicit())
                fids.push_back(sm.getFileID(d->getBeginLoc()));
        if (fids.size() != 3) {
            fprintf(stderr, "harness: %zu files\n", fids.size());
            exit(4);
        }
        // the expectation needs the tree only
        Oracle all[2];
        for (int i = 0; i < 2; ++i) {
            all[i].implicit = i;
            all[i].TraverseDecl(env.ast->getTranslationUnitDecl());
        }
        static uint8_t k[3] = {SrcMgr::C_User, SrcMgr::C_User, SrcMgr::C_System};
        if (!onlyQtFamily) {
            rt_make_symbolic(k, 3, "kind");
            for (uint8_t x : k)
                SYM_ASSUME(x <= SrcMgr::C_System_ModuleMap);
        }
        kinds = k;
        const_cast<int &>(env.ctx->options) = options;
        bool qt = false;
        auto &macros = const_cast<PreprocessorOptions &>(env.ctx->m_pp).Macros;
        unsigned found = 0;
        for (auto &m : macros) {
            if (m.first.size() < 2 || m.first.compare(0, 2, "AA") != 0)
                continue;
            ++found;
            rt_make_symbolic(m.first.data(), m.first.size(), "define");
            for (unsigned char c : m.first)
                SYM_ASSUME((c != 0) & (c != '('));
            uint8_t u = symBool("undef");
            m.second = u;
            bool isIt = eqAt(m.first, 0, "QT_CORE_LIB") & (m.first.size() == 11 || (m.first.size() > 11 && m.first[11] == '='));
            qt = (qt & !isIt) | (isIt & (u == 0));
        }
        if (found != defineLengths.size()) {
            fprintf(stderr, "harness: %u defines\n", found);
            exit(4);
        }
        env.run();
        bool onlyQt = options & ClazyContext::ClazyOption_OnlyQt, visitImplicit = options & ClazyContext::ClazyOption_VisitImplicitCode;
        auto *aa = static_cast<Probe *>(env.checks[0]), *bb = static_cast<Probe *>(env.checks[1]);
        bool skip = onlyQt & !qt;
        SYM_ASSERT((bb->matches == 0) == skip, "matchers run unless -only-qt meets a file without QT_CORE_LIB");
        SYM_ASSERT(bb->stmts.empty() == (skip | (system(k[0]) & system(k[1]) & system(k[2]))), "checks run unless -only-qt meets a file without QT_CORE_LIB");
        if (bb->matches == 0)
            rt_reach("skipped");
        if (onlyQtFamily) {
            if (bb->matches)
                rt_reach("ran");
            return;
        }
        Oracle &o = all[visitImplicit];
        for (int c = 0; c < 2; ++c) {
            Probe *p = c ? bb : aa;
            bool vs = c || (checkOptions & RegisteredCheck::Option_VisitsStmts), vd = c || (checkOptions & RegisteredCheck::Option_VisitsDecls);
            bool vt = c || (checkOptions & RegisteredCheck::Option_VisitAllTypeDefs);
            bool ignore = !c && canIgnore && (options & ClazyContext::ClazyOption_IgnoreIncludedFiles);
            std::vector<const Stmt *> ws;
            std::vector<const Decl *> wd;
            for (Stmt *s : o.s) {
                if (!vs || s->getBeginLoc().isInvalid())
                    continue;
                int f = fileOf(sm, s->getBeginLoc());
                if (f < 0 || system(k[f]))
                    continue;
                if (ignore && f != 0)
                    continue;
                ws.push_back(s);
            }
            for (Decl *d : o.d) {
                bool all = vd, valid = d->getBeginLoc().isValid();
                int f = valid ? fileOf(sm, d->getBeginLoc()) : -1;
                if (!valid || (f >= 0 && system(k[f])))
                    all = vt && isa<TypedefNameDecl>(d);
                else if (ignore && f != 0)
                    all = false;
                if (all)
                    wd.push_back(d);
            }
            SYM_ASSERT(p->stmts == ws, "a check hooked to statements sees every statement outside system headers (of the main file only, where it can and is told to), once, in order");
            SYM_ASSERT(p->decls == wd, "a check hooked to declarations sees every declaration outside system headers (of the main file only, where it can and is told to), once, in order; typedefs everywhere if hooked to them");
            for (size_t i = 0; i < p->stmts.size(); ++i) {
                SYM_ASSERT(p->parents[i], "the parents of the visited code are known");
                const FunctionDecl *f = enclosing(*env.ast, p->stmts[i]);
                SYM_ASSERT(!f || f == p->function[i] || f->isDefaulted() || f->isTemplateInstantiation(), "the context names the function being visited");
            }
            if (!ws.empty() && ws.size() < o.s.size())
                rt_reach("some");
        }
    });
}

// one warning, from the preprocessor, the n-th declaration or the n-th statement
struct Warner : CheckBase {
    unsigned when, countdown;
    Warner(const std::string &n, unsigned w, unsigned c)
        : CheckBase(n, 0)
        , when(w)
        , countdown(c)
    {
    }
    void at(unsigned w, SourceLocation l)
    {
        if (w == when && countdown-- == 0)
            emitWarning(l, "text");
    }
    void VisitStmt(Stmt *s) override
    {
        at(2, s->getBeginLoc());
    }
    void VisitDecl(Decl *d) override
    {
        at(1, d->getBeginLoc());
    }
    void VisitMacroExpands(const Token &t, const SourceRange &, const MacroInfo *) override
    {
        at(0, t.getLocation());
    }
};
void promoted()
{
    unsigned when = pick("when", 3), countdown = pick("countdown", when == 0 ? 2 : 12), as = pick("as-errors", 4);
    const char *const VALUES[] = {nullptr, "qenums", "static-pmf,qenums", "static-pmf"};
    EnvVar e1("CLAZY_CHECKS_AS_ERRORS", VALUES[as]);
    kinds = nullptr;
    TU tu;
    tu.code = std::string("#define ONE int one();\n#define TWO int two();\nONE TWO\n") + MAIN;
    tu.files = {{"user.h", USER}, {"sys.h", SYS}};
    tu.defaultReporter = tu.allowErrors = true;
    if (symBool("werror"))
        tu.args.push_back("-Werror");
    tu.checks = {{"qenums", [=] { return new Warner("qenums", when, countdown); }, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls | RegisteredCheck::Option_PreprocessorCallbacks},
                 {"bb", [] { return new Probe("bb", 0); }, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls}};
    static struct Client : DiagnosticConsumer {
        void HandleDiagnostic(DiagnosticsEngine::Level l, const clang::Diagnostic &d) override
        {
            DiagnosticConsumer::HandleDiagnostic(l, d);
        }
    } client;
    tu.begin = [](CompilerInstance &ci) {
        ci.getDiagnostics().setClient(&client, false);
    };
    withTU(tu, [&](Env &env) {
        Oracle o;
        o.TraverseDecl(env.ast->getTranslationUnitDecl());
        env.run();
        std::vector<const Stmt *> ws;
        std::vector<const Decl *> wd;
        for (Stmt *s : o.s)
            if (s->getBeginLoc().isValid())
                ws.push_back(s);
        for (Decl *d : o.d)
            if (d->getBeginLoc().isValid())
                wd.push_back(d);
        auto *bb = static_cast<Probe *>(env.checks[1]);
        SYM_ASSERT(client.getNumErrors() + client.getNumWarnings() == 1, "the warning is shown");
        SYM_ASSERT(bb->stmts == ws && bb->decls == wd && bb->matches, "warnings that are errors do not keep anything from the checks");
        if (client.getNumErrors())
            rt_reach("error");
        else
            rt_reach("warning");
    });
}
}

int main()
{
    allow("15RecursiveASTVi", "walks the tree, which is concrete");
    if (rt_param("family", 0) == 0) {
        explore("files", [] {
            visit(false, {});
        });
        rt_expect_reach("some");
    }
    allow("17DiagnosticsEngine14EmitDiag", "hands the diagnostic to the harness");
    allow("17DiagnosticsEngine4Emit", "hands the diagnostic to the harness");
    allow("17DiagnosticBuilderC", "remembers the engine and the place");
    if (rt_param("family", 0) != 1) {
        explore("promoted", promoted);
        rt_expect_reach("error");
        rt_expect_reach("warning");
    }
    explore("no-define", [] {
        visit(true, {});
    });
    for (unsigned a = 10; a <= 14; ++a)
        explore(("define-" + std::to_string(a)).c_str(), [=] {
            visit(true, {a});
        });
    for (unsigned a : {11u, 13u})
        for (unsigned b : {11u, 13u})
            explore(("define-" + std::to_string(a) + "-" + std::to_string(b)).c_str(), [=] {
                visit(true, {a, b});
            });
    rt_expect_reach("skipped");
    rt_expect_reach("ran");
    rt_finish();
}
