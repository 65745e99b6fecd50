// clazy's checks under clang-tidy: which run, on which translation unit, and what they say.
#include "h.h"
#include "PreProcessorVisitor.h"
#include "ClazyClangTidyModule.cpp"
#include "clang-tidy/ClangTidyDiagnosticConsumer.h"
#include "clang-tidy/ClangTidyOptions.h"
#include <dlfcn.h>
using namespace h;

namespace
{
const char *CODE = R"CODE(#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 5
#define QT_VERSION_PATCH 3
enum { version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH };
#define Q_ENUMS(x)
struct QObject { static bool connect(QObject *, const char *, QObject *, const char *); int name(); };
const char *qFlagLocation(const char *);
struct QColor { QColor(const char *); };
void colors() { QColor c("#cafe77"); }
struct Mine : QObject { Q_ENUMS(E) enum E { A }; };
void pmf() { static auto p = &Mine::name; }
void conn(QObject *a, QObject *b) { QObject::connect(a, "2sig(const xy)", b, "1z()"); }
)CODE";
const char *const CHECKS[] = {"qcolor-from-literal", "connect-not-normalized", "qenums", "static-pmf"};
const char *const LITERALS[] = {"#cafe77", "2sig(const xy)"};

struct Got {
    std::string check, text;
    DiagnosticsEngine::Level level;
    SourceLocation loc;
    std::vector<FixItHint> fixits;
    bool ok;
};
struct Capture : DiagnosticConsumer {
    ClangTidyContext *context = nullptr;
    std::vector<Got> got;
    void HandleDiagnostic(DiagnosticsEngine::Level level, const clang::Diagnostic &info) override
    {
        Got g = {context->getCheckName(info.getID()), "", level, info.getLocation(), {}, false};
        // clang-tidy's engine is given the text with the check's name behind it
        std::string format = info.getDiags()->getDiagnosticIDs()->getDescription(info.getID()).str();
        if (format == "%0 [" + g.check + "]" && info.getNumArgs() >= 1 && info.getArgKind(0) == DiagnosticsEngine::ak_std_string) {
            g.text = info.getArgStdStr(0);
            g.ok = true;
        }
        for (unsigned i = 0; i < info.getNumFixItHints(); ++i)
            g.fixits.push_back(info.getFixItHint(i));
        got.push_back(g);
    }
};
// literals keep their bytes from one parse to the next
std::string bytes[8][2];
void literals(Env &env, unsigned unit, bool symbolic)
{
    for (int i = 0; i < 2; ++i) {
        char *p = const_cast<char *>(env.stringLiteral(LITERALS[i])->getBytes().data());
        size_t n = strlen(LITERALS[i]);
        if (bytes[unit][i].empty()) {
            if (symbolic && i == 0) {
                rt_make_symbolic(p + 1, 2, "literal");
                SYM_ASSUME((p[1] != 0) & (p[2] != 0));
            } else if (symbolic) { // (punctuation is the signature check's business)
                rt_make_symbolic(p + 2, 2, "signature");
                for (int k = 2; k < 4; ++k)
                    SYM_ASSUME(ccIdent(p[k]) | (p[k] == '%') | (p[k] == '$'));
            }
            bytes[unit][i].assign(p, n);
        } else
            memcpy(p, bytes[unit][i].data(), n);
    }
}
std::vector<Reported> expected[8];
// what the plugin reports
void reference(unsigned unit, bool symbolic)
{
    TU tu;
    tu.code = CODE;
    for (const char *c : CHECKS)
        tu.checks.push_back(byName(c));
    tu.last = false;
    withTU(tu, [&](Env &env) {
        literals(env, unit, symbolic);
        env.run();
        expected[unit] = env.reported;
    });
}
void tidyUnit(unsigned unit, unsigned enabled, bool promote, unsigned nameLen)
{
    static ClangTidyCheckFactories *factories;
    if (!factories) {
        factories = new ClangTidyCheckFactories;
        (new ClazyModule)->addCheckFactories(*factories);
    }
    std::string globs = "-*";
    for (int i = 0; i < 4; ++i)
        if (enabled >> i & 1)
            globs += std::string(",clazy-") + CHECKS[i];
    EnvVar e1("CLAZY_CHECKS_AS_ERRORS", promote ? "qcolor-from-literal,qenums" : nullptr);
    ClangTidyOptions options;
    options.Checks = globs;
    auto &tidy = *new ClangTidyContext(std::make_unique<DefaultOptionsProvider>(ClangTidyGlobalOptions(), options));
    auto &capture = *new Capture;
    capture.context = &tidy;
    using Checks = std::vector<std::unique_ptr<ClangTidyCheck>>;
    Checks *checks = nullptr;
    auto &finder = *new MatchFinder;
    bool skip = false;
    TU tu;
    tu.code = CODE;
    tu.makeContext = false;
    tu.allowErrors = true; // what is promoted while the file is read
    tu.last = false;
    tu.begin = [&](CompilerInstance &ci) {
        ci.getDiagnostics().setClient(&capture, false);
        tidy.setDiagnosticsEngine(&ci.getDiagnostics());
        tidy.setSourceManager(&ci.getSourceManager());
        tidy.setCurrentFile(std::string(nameLen, 'n'));
        tidy.setASTContext(&ci.getASTContext());
        if (nameLen) {
            char *p = const_cast<char *>(tidy.getCurrentFile().data());
            rt_make_symbolic(p, nameLen, "file");
            std::string f(p, nameLen);
            for (unsigned char c : f)
                SYM_ASSUME(c != 0);
            skip = containsLit(f, ".rcc/qmlcache");
        }
        checks = new Checks(factories->createChecksForLanguage(&tidy));
        for (auto &c : *checks) { // what clang-tidy does with each
            c->registerMatchers(&finder);
            c->registerPPCallbacks(ci.getSourceManager(), &ci.getPreprocessor(), &ci.getPreprocessor());
        }
    };
    withTU(tu, [&](Env &env) {
        literals(env, unit, false);
        finder.matchAST(*env.ast);
        std::vector<Reported> want;
        for (auto &r : expected[unit])
            for (int i = 0; i < 4; ++i)
                if ((enabled >> i & 1) && r.check == CHECKS[i] && !skip)
                    want.push_back(r);
        if (want.size() != capture.got.size())
            rt_describe((globs + ": " + std::to_string(capture.got.size()) + " instead of " + std::to_string(want.size()) + " warnings in translation unit " + std::to_string(unit)).c_str());
        SYM_ASSERT(want.size() == capture.got.size(), "clang-tidy shows the warnings of the enabled checks, each once, in every translation unit");
        bool text = true, level = true, fixes = true, place = true;
        for (auto &g : capture.got) {
            Reported *r = nullptr; // (each check has one warning here)
            for (auto &w : want)
                if (g.check == "clazy-" + w.check)
                    r = &w;
            SYM_ASSERT(r, "a warning goes by its own check's name");
            std::string tag = " [-Wclazy-" + r->check + "]";
            SYM_ASSERT(r->message.size() > tag.size(), "the plugin tags its warnings");
            text &= g.ok & eq(g.text, r->message.substr(0, r->message.size() - tag.size()));
            bool err = promote && (r->check == "qcolor-from-literal" || r->check == "qenums");
            level &= g.level == (err ? DiagnosticsEngine::Error : DiagnosticsEngine::Warning);
            place &= g.loc == r->loc;
            fixes &= g.fixits.size() == r->fixits.size();
            for (size_t k = 0; fixes && k < g.fixits.size(); ++k)
                fixes &= eq(g.fixits[k].CodeToInsert, r->fixits[k].CodeToInsert) & (g.fixits[k].RemoveRange.getAsRange() == r->fixits[k].RemoveRange.getAsRange());
        }
        SYM_ASSERT(text, "the text is the plugin's without its tag, whatever characters it holds");
        SYM_ASSERT(level, "a warning is an error under clang-tidy exactly if the environment asks for it");
        SYM_ASSERT(place, "the place is the plugin's");
        SYM_ASSERT(fixes, "the fix-its are the plugin's");
        rt_reach(skip ? "skipped" : want.empty() ? "silent" : "shown");
        delete checks;
        env.ci->getDiagnostics().setClient(new IgnoringDiagConsumer, true);
    });
}
void session(unsigned units, bool symbolicFirst, unsigned nameLen)
{
    for (unsigned u = 0; u < units; ++u) {
        unsigned enabled = units > 1 && u == 0 ? 5 * pick("enabled", 4) : pick("enabled", 16);
        bool promote = units == 1 ? symBool("promote") : false;
        rt_pick(&promote, 1);
        reference(u, u == 0 ? symbolicFirst : !symbolicFirst);
        tidyUnit(u, enabled, promote, u == 0 ? nameLen : 0);
    }
    if (units > 1)
        rt_reach("several");
    rt_path_end();
}
}

int main()
{
    allow("17DiagnosticsEngine14EmitDiag", "hands the diagnostic to the harness");
    allow("17DiagnosticsEngine4Emit", "hands the diagnostic to the harness");
    allow("17DiagnosticBuilderC", "remembers the engine and the place");
    allow("5LexerC", "the template's text is concrete");
    allow("5Lexer3Lex", "the template's text is concrete");
    allow("ClangTidy", "clang-tidy's bookkeeping: names are concrete");
    allow("5RegexC", "names of checks are concrete");
    allow("5Regex5match", "names of checks are concrete");
    allow("getSpellingLineNumber", "line table: looks for newlines only");
    allow("libclang-cpp", "destructors and traversal, which do not look at literals");
    allow("11MatchFinder", "walks the tree, which is concrete");
    explore("one", [] {
        session(1, true, 0);
    });
    for (unsigned n : {13u, 15u})
        explore(("file-" + std::to_string(n)).c_str(), [=] {
            session(1, false, n);
        });
    explore("two", [] {
        session(2, false, 0);
    });
    explore("two-after-skipped", [] {
        session(2, false, 13);
    });
    rt_expect_reach("shown");
    rt_expect_reach("silent");
    rt_expect_reach("skipped");
    rt_expect_reach("several");
    rt_finish();
}
