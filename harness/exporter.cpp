// The fix-its file (-export-fixes, CLAZY_EXPORT_FIXES): what is written, and when.
//   family 0: one translation unit   1: several
#include "h.h"
#include "clang/Basic/DiagnosticLex.h"
#include "llvm/Support/YAMLTraits.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
using namespace h;

// ---------------------------------------------------------------- what ends up in the file
namespace
{
struct Yaml {
    std::string scalar;
    std::vector<std::pair<std::string, Yaml *>> map;
    std::vector<Yaml *> seq;
    Yaml *get(const char *k)
    {
        for (auto &x : map)
            if (x.first == k)
                return x.second;
        return nullptr;
    }
};
std::map<std::string, Yaml *> files; // the last document written to each file
std::vector<Yaml *> stack;
std::string opened;
}
namespace llvm
{
static int nowhere()
{
    return ::open("/dev/null", O_WRONLY | O_CLOEXEC);
}
#define OPEN(...)                                                                                                                                              \
    raw_fd_ostream::raw_fd_ostream(StringRef f, std::error_code &ec __VA_OPT__(, ) __VA_ARGS__)                                                                \
        : raw_fd_ostream(nowhere(), true)                                                                                                                      \
    {                                                                                                                                                          \
        ec = std::error_code();                                                                                                                                \
        opened = f.str();                                                                                                                                      \
        files[opened] = nullptr; /* truncated */                                                                                                              \
    }
OPEN()
OPEN(sys::fs::CreationDisposition)
OPEN(sys::fs::FileAccess)
OPEN(sys::fs::OpenFlags)
OPEN(sys::fs::CreationDisposition, sys::fs::FileAccess, sys::fs::OpenFlags)
namespace yaml
{
Output::Output(raw_ostream &o, void *c, int w)
    : IO(c)
    , Out(o)
    , WrapColumn(w)
{
}
Output::~Output() = default;
bool Output::outputting() const { return true; }
bool Output::mapTag(StringRef, bool use) { return use; }
void Output::beginMapping() {}
void Output::endMapping() {}
bool Output::preflightKey(const char *key, bool required, bool same, bool &useDefault, void *&)
{
    useDefault = false;
    if (!required && same)
        return false;
    Yaml *n = new Yaml;
    stack.back()->map.push_back({key, n});
    stack.push_back(n);
    return true;
}
void Output::postflightKey(void *) { stack.pop_back(); }
std::vector<StringRef> Output::keys() { return {}; }
void Output::beginFlowMapping() {}
void Output::endFlowMapping() {}
unsigned Output::beginSequence() { return 0; }
void Output::endSequence() {}
bool Output::preflightElement(unsigned, void *&)
{
    Yaml *n = new Yaml;
    stack.back()->seq.push_back(n);
    stack.push_back(n);
    return true;
}
void Output::postflightElement(void *) { stack.pop_back(); }
unsigned Output::beginFlowSequence() { return 0; }
bool Output::preflightFlowElement(unsigned i, void *&p) { return preflightElement(i, p); }
void Output::postflightFlowElement(void *p) { postflightElement(p); }
void Output::endFlowSequence() {}
void Output::beginEnumScalar() { EnumerationMatchFound = false; }
bool Output::matchEnumScalar(const char *s, bool m)
{
    if (m && !EnumerationMatchFound) {
        stack.back()->scalar = s;
        EnumerationMatchFound = true;
    }
    return false;
}
bool Output::matchEnumFallback() { return false; }
void Output::endEnumScalar() {}
bool Output::beginBitSetScalar(bool &c)
{
    c = false;
    return true;
}
bool Output::bitSetMatch(const char *, bool) { return false; }
void Output::endBitSetScalar() {}
void Output::scalarString(StringRef &s, QuotingType) { stack.back()->scalar.assign(s.data(), s.size()); }
void Output::blockScalarString(StringRef &s) { stack.back()->scalar.assign(s.data(), s.size()); }
void Output::scalarTag(std::string &) {}
NodeKind Output::getNodeKind() { abort(); }
void Output::setError(const Twine &) {}
std::error_code Output::error() { return {}; }
bool Output::canElideEmptySequence() { return true; }
void Output::beginDocuments() {}
bool Output::preflightDocument(unsigned i)
{
    if (i == 0) {
        stack = {new Yaml};
        files[opened] = stack[0];
    }
    return true;
}
void Output::postflightDocument() {}
void Output::endDocuments() {}
}
}

// what the compiler shows for a custom diagnostic: %N stands for an argument, %% for a percent sign
namespace clang
{
void Diagnostic::FormatDiagnostic(SmallVectorImpl<char> &out) const
{
    for (auto &d : h::seam::customDiags)
        if (d.first == getID()) {
            const std::string &text = d.second;
            for (size_t i = 0; i < text.size(); ++i) {
                if (text[i] != '%' || i + 1 == text.size()) {
                    out.push_back(text[i]);
                    continue;
                }
                char c = text[++i];
                if (c >= '0' && c <= '9' && unsigned(c - '0') < getNumArgs() && getArgKind(c - '0') == DiagnosticsEngine::ak_std_string) {
                    for (char x : getArgStdStr(c - '0'))
                        out.push_back(x);
                } else
                    out.push_back(c);
            }
            return;
        }
    using F = void (*)(const Diagnostic *, SmallVectorImpl<char> *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZNK5clang10Diagnostic16FormatDiagnosticERN4llvm15SmallVectorImplIcEE");
    f(this, &out);
}
}

namespace
{
struct Probe : CheckBase {
    Probe(const std::string &n)
        : CheckBase(n)
    {
    }
};
CheckSpec probe(const char *name)
{
    return {name, [name] { return new Probe(name); }};
}
bool ccText(unsigned char c)
{
    return (c >= 32) & (c != 127) & (c < 128);
}
struct Client : DiagnosticConsumer {
    std::vector<std::pair<DiagnosticsEngine::Level, std::string>> got;
    void HandleDiagnostic(DiagnosticsEngine::Level l, const clang::Diagnostic &info) override
    {
        DiagnosticConsumer::HandleDiagnostic(l, info);
        SmallString<64> t;
        info.FormatDiagnostic(t);
        got.push_back({l, std::string(t.data(), t.size())});
    }
};
struct WantFix {
    std::string file;
    unsigned offset, length;
    std::string text;
};
struct Want {
    std::string name, message, file;
    unsigned offset;
    std::string level = "Warning";
    std::vector<WantFix> fixes;
    std::vector<std::string> notes;
};
std::string scalar(Yaml *n, const char *k)
{
    Yaml *x = n ? n->get(k) : nullptr;
    return x ? x->scalar : "";
}
void compareFile(const std::string &file, const std::string &mainFile, const std::vector<Want> &want)
{
    auto it = files.find(file);
    if (want.empty()) {
        SYM_ASSERT(it == files.end() || !it->second || !it->second->get("Diagnostics") || it->second->get("Diagnostics")->seq.empty(), "nothing is exported if nothing was shown");
        return;
    }
    SYM_ASSERT(it != files.end() && it->second, "the fix-its file is written");
    Yaml *d = it->second->get("Diagnostics");
    SYM_ASSERT(scalar(it->second, "MainSourceFile") == mainFile, "the file names the main source file");
    if (d && d->seq.size() != want.size())
        rt_describe((std::to_string(d->seq.size()) + " instead of " + std::to_string(want.size()) + " entries").c_str());
    SYM_ASSERT(d && d->seq.size() == want.size(), "every warning shown is exported, once");
    bool name = true, message = true, place = true, level = true, fixes = true, fixText = true, notes = true;
    for (size_t i = 0; i < want.size(); ++i) {
        Yaml *x = d->seq[i], *m = x->get("DiagnosticMessage");
        const Want &w = want[i];
        name &= eq(scalar(x, "DiagnosticName"), w.name);
        message &= eq(scalar(m, "Message"), w.message);
        place &= scalar(m, "FilePath") == w.file && scalar(m, "FileOffset") == std::to_string(w.offset);
        level &= scalar(x, "Level") == w.level;
        Yaml *r = m ? m->get("Replacements") : nullptr;
        fixes &= (r ? r->seq.size() : 0) == w.fixes.size();
        for (size_t k = 0; fixes && k < w.fixes.size(); ++k) {
            Yaml *f = nullptr;
            for (Yaml *y : r->seq)
                if (scalar(y, "FilePath") == w.fixes[k].file && scalar(y, "Offset") == std::to_string(w.fixes[k].offset) && scalar(y, "Length") == std::to_string(w.fixes[k].length))
                    f = y;
            fixes &= f != nullptr;
            fixText &= f && eq(scalar(f, "ReplacementText"), w.fixes[k].text);
        }
        Yaml *n = x->get("Notes");
        notes &= (n ? n->seq.size() : 0) == w.notes.size();
        for (size_t k = 0; notes && k < w.notes.size(); ++k)
            notes &= scalar(n->seq[k], "Message") == w.notes[k];
    }
    SYM_ASSERT(name, "the entry is named after the check (or compiler flag)");
    SYM_ASSERT(message, "the entry's message is the warning's, without the tag");
    SYM_ASSERT(place, "the entry names the warning's file and offset");
    SYM_ASSERT(level, "the entry's level is the warning's");
    SYM_ASSERT(fixes, "the entry has the warning's fix-its, at their place");
    SYM_ASSERT(fixText, "the fix-its insert what the warning's fix-its insert");
    SYM_ASSERT(notes, "the entry has the warning's notes");
}

const char *HEADER = "int headerVariable = 1;\n#define MACRO int macroVariable = 2;\n";
const char *MAIN = R"(#include "h.h"
int first = 10;
int second = 20;
MACRO
int shadow(int first) { return first; }
int last = 30;
)";
// the warnings of one translation unit
struct Shape {
    unsigned emissions = 1, text = 2, fixits = 0, code = 1;
    bool promote = false; // CLAZY_CHECKS_AS_ERRORS names the first check
    bool tagged = true;
    bool plugin = true;
    bool shadow = false; // the compiler has something to say, too
};
void emissions(Env &env, const Shape &s, unsigned index, std::vector<Want> &want)
{
    SourceManager &sm = env.sm();
    std::vector<VarDecl *> vars;
    for (auto *v : env.decls<VarDecl>())
        if (!isa<ParmVarDecl>(v))
            vars.push_back(v);
    if (vars.size() != 5) {
        fprintf(stderr, "harness: %zu variables\n", vars.size());
        exit(4);
    }
    const char *names[] = {"foreach", "bb-c"};
    auto offset = [&](SourceLocation l) {
        return sm.getFileOffset(sm.getFileLoc(l));
    };
    auto file = [&](SourceLocation l) {
        return sm.getFileEntryRefForID(sm.getFileID(sm.getFileLoc(l)))->getName().str();
    };
    for (unsigned i = 0; i < s.emissions; ++i) {
        unsigned c = s.emissions > 1 || index ? pick("check", 2) : 0, v = pick("where", s.emissions > 1 ? 3 : 5);
        // each at its own place: repetitions in macros are another property's business
        v = s.emissions > 1 ? (v + i * 2) % 5 : v;
        VarDecl *var = vars[v];
        Want w;
        std::string msg = symString("message", s.text, 'm', ccText);
        w.name = s.tagged ? std::string("clazy-") + names[c] : "";
        w.message = msg;
        w.file = file(var->getLocation());
        w.offset = offset(var->getLocation());
        w.level = s.promote && c == 0 ? "Error" : "Warning";
        std::vector<FixItHint> f;
        for (unsigned k = 0; k < s.fixits; ++k) {
            VarDecl *t = vars[std::vector<unsigned>{0, 1, 2, 4}[(v + k) % 4]];
            SourceLocation l = t->getLocation(), init = t->getInit()->getBeginLoc();
            unsigned kind = k ? (v + k) % 4 : pick("fixit", 4), len = t->getName().size();
            std::string code = symString("code", s.code, 'c', ccText);
            switch (kind) {
            case 0:
                f.push_back(FixItHint::CreateInsertion(l, code));
                w.fixes.push_back({file(l), offset(l), 0, code});
                break;
            case 1:
                f.push_back(FixItHint::CreateReplacement(l, code));
                w.fixes.push_back({file(l), offset(l), len, code});
                break;
            case 2:
                f.push_back(FixItHint::CreateRemoval(l));
                w.fixes.push_back({file(l), offset(l), len, ""});
                break;
            case 3:
                f.push_back(FixItHint::CreateInsertionFromRange(l, CharSourceRange::getTokenRange(t->getBeginLoc(), init)));
                w.fixes.push_back({file(l), offset(l), 0, std::string(sm.getCharacterData(t->getBeginLoc()), offset(init) - offset(t->getBeginLoc())) + (v == 9 ? "" : std::string(sm.getCharacterData(init), t == vars[0] ? 1 : 2))});
                break;
            }
        }
        if (!s.tagged) { // (a text that itself ends like a tag would be taken for one)
            bool lookalike = false;
            for (size_t p = 0; p + 4 < msg.size(); ++p)
                lookalike |= eqAt(msg, p, " [-W");
            SYM_ASSUME(!(lookalike & (msg.back() == ']')));
        }
        static_cast<Probe *>(env.checks[c])->emitWarning(var->getLocation(), msg, f, s.tagged);
        want.push_back(w);
        rt_reach("emitted");
    }
}
void oneUnit(const Shape &s)
{
    EnvVar e1("CLAZY_CHECKS_AS_ERRORS", s.promote ? "foreach" : nullptr);
    TU tu;
    tu.code = MAIN;
    tu.files = {{"h.h", HEADER}};
    tu.checks = {probe("foreach"), probe("bb-c")};
    tu.options = ClazyContext::ClazyOption_ExportFixes;
    tu.defaultReporter = true;
    if (s.shadow)
        tu.args.push_back("-Wshadow");
    if (!s.plugin) {
        tu.exportFixes = "all.yaml";
        tu.translationUnits = {"main.cpp"};
    }
    auto *client = new Client;
    tu.begin = [&](CompilerInstance &ci) {
        ci.getDiagnostics().setClient(client, false);
    };
    withTU(tu, [&](Env &env) {
        seam::recordCustomDiags = !rt_is_native();
        std::vector<Want> want;
        if (s.shadow)
            want.push_back({"shadow", "declaration shadows a variable in the global namespace", "main.cpp", (unsigned)(strstr(MAIN, "shadow(int first") + 11 - MAIN), "Warning", {}, {"previous declaration is here"}});
        emissions(env, s, 0, want);
        std::string main = env.sm().getFileEntryRefForID(env.sm().getMainFileID())->getName().str();
        for (auto &w : want)
            if (w.file == "main.cpp")
                w.file = main;
        env.run();
        delete env.consumer;
        bool shown = client->got.size() == want.size() + s.shadow;
        for (size_t i = 0; shown && i < want.size(); ++i) {
            auto &g = client->got[i + (s.shadow && i)];
            bool clazy = i >= s.shadow;
            shown &= g.first == (want[i].level == "Error" ? DiagnosticsEngine::Error : DiagnosticsEngine::Warning);
            shown &= eq(g.second, want[i].message + (clazy && s.tagged ? " [-W" + want[i].name + "]" : ""));
        }
        SYM_ASSERT(shown, "exporting takes nothing away from what the compiler shows");
        compareFile(s.plugin ? main + ".clazy.yaml" : "all.yaml", main, want);
        SYM_ASSERT(files.size() <= 1, "no other file is written");
    });
}
}


namespace
{
// several translation units, some of which cannot be processed
void units(unsigned n, bool plugin)
{
    std::string name;
    static std::vector<std::pair<std::string, std::vector<Want>>> done;
    std::vector<std::string> paths;
    for (unsigned i = 0; i < n; ++i)
        paths.push_back("unit" + std::to_string(i) + ".cpp");
    std::vector<Want> all;
    std::string lastMain;
    seam::recordCustomDiags = !rt_is_native();
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = pick("warnings", 0, 3); // 3: this one cannot be processed
        if (k == 3) {
            rt_reach("missing");
            continue;
        }
        TU tu;
        tu.code = MAIN;
        tu.file = paths[i];
        tu.files = {{"h.h", HEADER}};
        tu.checks = {probe("foreach"), probe("bb-c")};
        tu.options = ClazyContext::ClazyOption_ExportFixes;
        tu.defaultReporter = true;
        tu.last = false;
        if (!plugin) {
            tu.exportFixes = "all.yaml";
            tu.translationUnits = paths;
        }
        auto *client = new Client;
        tu.begin = [&](CompilerInstance &ci) {
            ci.getDiagnostics().setClient(client, false);
        };
        withTU(tu, [&](Env &env) {
            seam::customDiags.clear();
            SourceManager &sm = env.sm();
            std::vector<Want> want;
            std::string main = sm.getFileEntryRefForID(sm.getMainFileID())->getName().str();
            auto vars = env.decls<VarDecl>();
            for (unsigned w = 0; w < k; ++w) {
                VarDecl *var = vars[w ? 2 : 0];
                std::string msg = symString("message", 2, 'm', ccText), code = symString("code", 1, 'c', ccText);
                SourceLocation l = var->getLocation();
                std::string file = sm.getFileEntryRefForID(sm.getFileID(l))->getName().str();
                unsigned o = sm.getFileOffset(l);
                static_cast<Probe *>(env.checks[w])->emitWarning(l, msg, {FixItHint::CreateInsertion(l, code)});
                want.push_back({w ? "clazy-bb-c" : "clazy-foreach", msg, file, o, "Warning", {{file, o, 0, code}}, {}});
            }
            env.run();
            delete env.consumer;
            if (plugin)
                compareFile(main + ".clazy.yaml", main, want);
            for (auto &w : want)
                all.push_back(w);
            lastMain = main;
            // the harness' compiler outlives its client
            env.ci->getDiagnostics().setClient(new IgnoringDiagConsumer, true);
        });
    }
    if (!plugin && !lastMain.empty())
        compareFile("all.yaml", lastMain, all);
    if (all.size() > 1)
        rt_reach("several");
    for (auto &f : files)
        SYM_ASSERT(plugin || f.first == "all.yaml", "clazy-standalone writes one file");
    rt_path_end();
}
}

int main()
{
    allow("17DiagnosticsEngine14EmitDiag", "hands the diagnostic to the exporter");
    allow("17DiagnosticsEngine4Emit", "hands the diagnostic to the exporter");
    allow("17DiagnosticBuilderC", "remembers the engine and the place");
    allow("5LexerC", "the template's text is concrete");
    allow("5Lexer3Lex", "the template's text is concrete");
    allow("13StringMapImpl", "keys are concrete");
    allow("raw_ostream", "concrete, or modelled");
    unsigned deep = rt_param("deep", 0);
    for (bool plugin : {true, false}) {
        std::string p = plugin ? "plugin-" : "standalone-";
        auto ex = [&](std::string name, Shape s) {
            s.plugin = plugin;
            explore((p + name).c_str(), [=] {
                oneUnit(s);
            });
        };
        for (unsigned text = 0; text <= (deep ? 8 : 4); ++text)
            ex("text-" + std::to_string(text), {.text = text});
        ex("untagged", {.text = 9, .tagged = false});
        ex("promoted", {.fixits = 1, .promote = true});
        for (unsigned f = 1; f <= (deep ? 3 : 2); ++f)
            for (unsigned c = 1; c <= 3; ++c)
                ex("fixits-" + std::to_string(f) + "-" + std::to_string(c), {.fixits = f, .code = c});
        ex("two", {.emissions = 2, .fixits = 1});
        ex("two-promoted", {.emissions = 2, .fixits = 1, .promote = true});
        ex("compiler", {.emissions = 1, .fixits = 1, .shadow = true});
        if (deep)
            ex("three", {.emissions = 3, .fixits = 1});
        explore((p + "units-2").c_str(), [=] {
            units(2, plugin);
        });
        explore((p + "units-3").c_str(), [=] {
            units(3, plugin);
        });
    }
    rt_expect_reach("emitted");
    rt_expect_reach("missing");
    rt_expect_reach("several");
    rt_finish();
}
