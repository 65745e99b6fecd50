// What the plugin's arguments, clazy-standalone's options and the environment turn on.
#include "h.h"
#include "PreProcessorVisitor.h"
#define main clazy_standalone_main
#include "ClazyStandaloneMain.cpp"
#undef main
#include <fcntl.h>
#include <unistd.h>

namespace
{
struct Plugin : ClazyASTAction {
    using ClazyASTAction::CreateASTConsumer;
    using ClazyASTAction::ParseArgs;
};
struct Count : DiagnosticConsumer {
    unsigned n = 0;
    void HandleDiagnostic(DiagnosticsEngine::Level, const clang::Diagnostic &) override
    {
        ++n;
    }
};
void quiet()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
}
struct Keyword {
    const char *name;
    int bit;
};
const Keyword KEYWORDS[] = {
    {"only-qt", ClazyContext::ClazyOption_OnlyQt},
    {"qt-developer", ClazyContext::ClazyOption_QtDeveloper},
    {"visit-implicit-code", ClazyContext::ClazyOption_VisitImplicitCode},
    {"ignore-included-files", ClazyContext::ClazyOption_IgnoreIncludedFiles},
    {"export-fixes", ClazyContext::ClazyOption_ExportFixes},
    {"print-requested-checks", 0},
};
const char *CODE = R"(class QString { public: QString(const char *); };
class QColor { public: QColor(const char *); };
void f() { QColor c("#fff"); }
)";
std::string symToken(const char *name, unsigned n)
{
    return h::symString(name, n, 'z', [](unsigned char c) {
        return (c != 0) & (c != ','); // (a list is a check list)
    });
}
// pattern: what stands in each argument (0 and up: that keyword; -1: the check list; -2: the symbolic token)
void plugin(std::vector<int> pattern, unsigned tokLen, bool exportEnv, unsigned fileLen)
{
    quiet();
    setenv("CLAZY_CHECKS", "", 1);
    if (exportEnv)
        setenv("CLAZY_EXPORT_FIXES", "1", 1);
    h::TU tu;
    tu.code = CODE;
    tu.file = "/nonexistent-dir/main.cpp";
    tu.args.push_back("-DQT_CORE_LIB");
    tu.makeContext = false;
    h::withTU(tu, [&](h::Env &env) {
        auto *count = new Count;
        env.ast->getDiagnostics().setClient(count, false);
        std::vector<std::string> args;
        int options = exportEnv ? (int)ClazyContext::ClazyOption_ExportFixes : 0;
        unsigned rest = 0;
        bool list = false, tokenIsOption = false, hasToken = false, help = false;
        for (int p : pattern) {
            if (p >= 0) {
                args.push_back(KEYWORDS[p].name);
                options |= KEYWORDS[p].bit;
            } else if (p == -1) {
                args.push_back("qcolor-from-literal");
                list = true;
            } else {
                args.push_back(symToken("argument", tokLen));
                const std::string &t = args.back();
                hasToken = true;
                for (auto &k : KEYWORDS) {
                    bool is = h::eq(t, k.name);
                    options |= is * k.bit;
                    tokenIsOption |= is;
                }
                for (int q : pattern) // (an option given twice is nothing the documentation defines)
                    if (q >= 0)
                        SYM_ASSUME(!h::eq(t, KEYWORDS[q].name));
                help = h::eq(t, "help");
                // levelN is selection's business
                SYM_ASSUME(!h::eqAt(t, 0, "level"));
            }
        }
        (void)rest;
        auto *a = new Plugin;
        bool ok = a->ParseArgs(*env.ci, args);
        std::string file = fileLen ? h::symString("file", fileLen, 'f', [](unsigned char c) { return c != 0; }) : "main.cpp";
        auto *c = static_cast<ClazyASTConsumer *>(a->CreateASTConsumer(*env.ci, file).release());
        ClazyContext *ctx = c->context();
        if (help) {
            SYM_ASSERT(ok, "help is not an error");
            rt_reach("help");
            return;
        }
        SYM_ASSERT(ctx->options == options, "an option is in force exactly if it is given (export-fixes also through CLAZY_EXPORT_FIXES)");
        SYM_ASSERT((ctx->exporter != nullptr) == ((options & ClazyContext::ClazyOption_ExportFixes) != 0), "fixes are exported exactly if asked for");
        SYM_ASSERT(ctx->isQtDeveloper() == ((options & ClazyContext::ClazyOption_QtDeveloper) != 0) && ctx->ignoresIncludedFiles() == ((options & ClazyContext::ClazyOption_IgnoreIncludedFiles) != 0)
                       && ctx->isVisitImplicitCode() == ((options & ClazyContext::ClazyOption_VisitImplicitCode) != 0),
                   "checks are told the options in force");
        SYM_ASSERT(ctx->accessSpecifierManager && ctx->preprocessorVisitor, "the preprocessor is observed");
        if (hasToken && !tokenIsOption) {
            if (list)
                SYM_ASSERT(!ok, "a second check list is refused");
            return;
        }
        if (tokenIsOption)
            rt_reach("option");
        SYM_ASSERT(ok, "a known check list and options in any order are accepted");
        if (list) {
            c->HandleTranslationUnit(*env.ast);
            SYM_ASSERT((count->n == 1) == !h::containsLit(file, ".rcc/qmlcache"), "the listed check runs, except on qmlcache's generated files");
            rt_reach(count->n ? "ran" : "qmlcache");
        }
    });
}

// CLAZY_EXTRA_OPTIONS
void extra(unsigned len, const char *before, const char *after)
{
    std::string v = std::string(before) + std::string(len, 'o') + after;
    setenv("CLAZY_EXTRA_OPTIONS", v.c_str(), 1);
    char *p = getenv("CLAZY_EXTRA_OPTIONS") + strlen(before);
    rt_make_symbolic(p, len, "extra");
    std::string in(getenv("CLAZY_EXTRA_OPTIONS"), v.size());
    for (unsigned char c : in)
        SYM_ASSUME(c != 0);
    struct Probe : CheckBase {
        Probe()
            : CheckBase("ab")
        {
        }
        using CheckBase::isOptionSet;
    };
    h::TU tu;
    tu.code = "int a;\n";
    tu.checks = {{"ab", [] { return new Probe; }, 0}};
    h::withTU(tu, [&](h::Env &env) {
        bool got = static_cast<Probe *>(env.checks[0])->isOptionSet("c");
        bool want = false; // one of the comma separated words is ab-c
        for (size_t i = 0; i + 4 <= in.size(); ++i) {
            bool start = i == 0, end = i + 4 == in.size();
            if (!start)
                start = in[i - 1] == ',';
            if (!end)
                end = in[i + 4] == ',';
            want |= start & end & h::eqAt(in, i, "ab-c");
        }
        SYM_ASSERT(got == want, "a check's option is set exactly if CLAZY_EXTRA_OPTIONS lists <check>-<option>");
        SYM_ASSERT(env.ctx->isOptionSet("ab-c") == want, "an option is set exactly if CLAZY_EXTRA_OPTIONS lists it");
        rt_reach(got ? "set" : "unset");
    });
}

bool passes(const std::unique_ptr<llvm::Regex> &r, const std::string &s)
{
    return !r || r->match(s);
}
// header filter and ignored directories: the argument (standalone) or else the environment
void filters(bool standalone, unsigned which)
{
    quiet();
    const char *hfArg = which % 2 ? "a" : "", *idArg = which / 2 % 2 ? "b" : "";
    static const char *const envs[] = {nullptr, "", "c", "d"};
    const char *hfEnv = envs[which / 4 % 3], *idEnv = envs[which / 12 % 3];
    if (idEnv && *idEnv)
        idEnv = "d";
    h::EnvVar e1("CLAZY_HEADER_FILTER", hfEnv), e2("CLAZY_IGNORE_DIRS", idEnv);
    if (!standalone)
        hfArg = idArg = "";
    h::TU tu;
    tu.code = CODE;
    tu.makeContext = false;
    h::withTU(tu, [&](h::Env &env) {
        ClazyContext *ctx;
        if (standalone) {
            struct A : ClazyStandaloneASTAction {
                using ClazyStandaloneASTAction::ClazyStandaloneASTAction;
                using ClazyStandaloneASTAction::CreateASTConsumer;
            };
            auto *a = new A("qcolor-from-literal", hfArg, idArg, "", "", {"main.cpp"}, 0);
            ctx = static_cast<ClazyASTConsumer *>(a->CreateASTConsumer(*env.ci, "main.cpp").release())->context();
        } else {
            auto *a = new Plugin;
            a->ParseArgs(*env.ci, {"qcolor-from-literal"});
            ctx = static_cast<ClazyASTConsumer *>(a->CreateASTConsumer(*env.ci, "main.cpp").release())->context();
        }
        std::string name = h::symString("name", 2, 'x', [](unsigned char c) { return c != 0; });
        std::string hf = *hfArg ? hfArg : hfEnv ? hfEnv : "", id = *idArg ? idArg : idEnv ? idEnv : "";
        SYM_ASSERT((ctx->headerFilterRegex != nullptr) == !hf.empty() && (ctx->ignoreDirsRegex != nullptr) == !id.empty(), "filters are in force exactly if given, as an argument or in the environment");
        SYM_ASSERT(passes(ctx->headerFilterRegex, name) == h::containsLit(name, hf.c_str()), "the header filter is the argument, else CLAZY_HEADER_FILTER");
        SYM_ASSERT(passes(ctx->ignoreDirsRegex, name) == h::containsLit(name, id.c_str()), "the ignored directories are the argument, else CLAZY_IGNORE_DIRS");
    });
}

template<typename T>
T &option(const char *name)
{
    auto &m = llvm::cl::getRegisteredOptions();
    auto it = m.find(name);
    if (it == m.end()) {
        fprintf(stderr, "harness: clazy-standalone has no option %s\n", name);
        exit(4);
    }
    return *static_cast<T *>(it->second);
}
// clazy-standalone's own options reach the checks
void standaloneOptions()
{
    quiet();
    setenv("CLAZY_CHECKS", "", 1);
    static const Keyword flags[] = {{"only-qt", ClazyContext::ClazyOption_OnlyQt},
                                    {"qt-developer", ClazyContext::ClazyOption_QtDeveloper},
                                    {"visit-implicit-code", ClazyContext::ClazyOption_VisitImplicitCode},
                                    {"ignore-included-files", ClazyContext::ClazyOption_IgnoreIncludedFiles}};
    int want = 0;
    for (auto &f : flags) {
        uint8_t v = h::symBool(f.name);
        option<llvm::cl::opt<bool>>(f.name).getValue() = v;
        want |= v * f.bit;
    }
    auto str = [](const char *name) -> std::string & {
        return option<llvm::cl::opt<std::string>>(name).getValue();
    };
    unsigned ex = h::pick("export", 2), lf = h::pick("line-filter", 2), list = h::pick("list", 4);
    str("export-fixes") = ex ? "/nonexistent-dir/x.yaml" : "";
    str("line-filter") = lf ? "[{\"name\":\"main.cpp\",\"lines\":[[3,4]]}]" : "";
    str("header-filter") = "hh";
    str("ignore-dirs") = "ii";
    static const char *const lists[] = {"", "qcolor-from-literal", "level2", "no-such-check"};
    str("checks") = lists[list];
    want |= ex * ClazyContext::ClazyOption_ExportFixes;
    h::TU tu;
    tu.code = CODE;
    tu.args.push_back("-DQT_CORE_LIB");
    tu.makeContext = false;
    h::withTU(tu, [&](h::Env &env) {
        auto *count = new Count;
        env.ast->getDiagnostics().setClient(count, false);
        auto *f = new ClazyToolActionFactory({"main.cpp", "other.cpp"});
        struct Open : ClazyStandaloneASTAction {
            using ClazyStandaloneASTAction::CreateASTConsumer;
        };
        auto *a = f->create().release();
        auto p = &Open::CreateASTConsumer;
        auto c0 = (static_cast<ClazyStandaloneASTAction *>(a)->*p)(*env.ci, "main.cpp");
        SYM_ASSERT((c0 == nullptr) == (list == 3), "naming nothing known is refused");
        if (!c0)
            return;
        auto *c = static_cast<ClazyASTConsumer *>(c0.release());
        ClazyContext *ctx = c->context();
        SYM_ASSERT(ctx->options == want, "clazy-standalone's switches are in force exactly if given");
        SYM_ASSERT((ctx->exporter != nullptr) == (ex == 1), "fixes are exported exactly if a file is named");
        SYM_ASSERT(ctx->m_lineFilter.size() == lf, "the line filter is in force exactly if given");
        SYM_ASSERT(ctx->m_translationUnitPaths.size() == 2, "all translation units are known");
        SYM_ASSERT(ctx->headerFilterRegex && ctx->headerFilterRegex->match("ahh") && !ctx->headerFilterRegex->match("aii"), "-header-filter is the header filter");
        SYM_ASSERT(ctx->ignoreDirsRegex && ctx->ignoreDirsRegex->match("aii") && !ctx->ignoreDirsRegex->match("ahh"), "-ignore-dirs is the ignored directories");
        c->HandleTranslationUnit(*env.ast);
        SYM_ASSERT(list == 1 ? count->n == 1 : count->n >= 1, "the requested checks run (level1 if none are named)");
        rt_reach("standalone");
    });
}
}

int main()
{
    h::allow("raw_ostream", "diagnostics on stderr");
    h::allow("17DiagnosticBuilderC", "remembers the engine and the place");
    h::allow("17DiagnosticsEngine4Emit", "hands the diagnostic to the harness");
    h::allow("getQualifiedNameAsString", "names of the template are concrete");
    h::allow("5LexerC", "the template's text is concrete");
    h::allow("5Lexer3Lex", "the template's text is concrete");
    h::allow("11PPCallbacks", "the template's text is concrete");
    h::allow("N4llvm4json5Value7destroyEv", "frees the value");
    h::allow("NK4llvm4json6Object", "looks keys up, which are concrete");
    h::allow("N4llvm4json6Object", "looks keys up, which are concrete");
    unsigned deep = rt_param("deep", 0);
    const unsigned lens[] = {1, 4, 7, 11, 12, 13, 19, 21, 22};
    std::vector<std::vector<int>> patterns = {{-1}, {-2}, {-2, -1}, {-1, -2}};
    for (int k = 0; k < 6; ++k) {
        patterns.push_back({k, -2, -1});
        if (deep || k % 2)
            patterns.push_back({-1, -2, k});
        if (deep || !(k % 2))
            patterns.push_back({-2, k});
    }
    patterns.push_back({0, 1, 2, 3, 4, 5, -1});
    patterns.push_back({-1, 5, 4, 3, 2, 1, 0});
    patterns.push_back({3, 1, -1, 4, 0, 2, -2});
    unsigned n = 0;
    for (auto &p : patterns) {
        bool token = std::find(p.begin(), p.end(), -2) != p.end();
        for (unsigned l : lens) {
            ++n;
            if (deep || token || l == 1)
                h::explore(("plugin-" + std::to_string(n)).c_str(), [=] {
                    plugin(p, l, n % 3 == 0, token ? 0 : 15);
                });
        }
    }
    rt_expect_reach("help");
    rt_expect_reach("option");
    rt_expect_reach("ran");
    rt_expect_reach("qmlcache");
    for (unsigned l = 1; l <= (deep ? 10 : 7); ++l)
        for (int k = 0; k < 4; ++k)
            h::explore(("extra-" + std::to_string(l) + "-" + std::to_string(k)).c_str(), [=] {
                extra(l, k & 1 ? "x," : "", k & 2 ? "-c" : "");
            });
    h::explore("extra-empty", [] {
        extra(0, "", "");
    });
    rt_expect_reach("set");
    rt_expect_reach("unset");
    for (int s = 0; s < 2; ++s)
        for (unsigned w = 0; w < 36; w += s ? 1 : 4)
            h::explore(((s ? "standalone-filters-" : "plugin-filters-") + std::to_string(w)).c_str(), [=] {
                filters(s, w);
            });
    h::explore("standalone-options", standaloneOptions);
    rt_expect_reach("standalone");
    rt_finish();
}
