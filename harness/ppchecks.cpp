// Checks driven by the preprocessor: Qt keywords, Q_OS_ macros and the Qt version, module-wide includes, Q_ENUMS.
#include "h.h"
#include "llvm/Support/MemoryBuffer.h"
using namespace h;

namespace
{
bool isAny(const std::string &s, const std::vector<const char *> &names)
{
    bool r = false;
    for (const char *n : names)
        r |= eq(s, n);
    return r;
}
bool endsAny(const std::string &s, const std::vector<const char *> &names)
{
    bool r = false;
    for (const char *n : names)
        if (s.size() >= strlen(n))
            r |= eqAt(s, s.size() - strlen(n), n);
    return r;
}
// the bytes of the name of the file a location is in become inputs
std::string symFileName(Env &env, SourceLocation l, const char *name, unsigned from = 0)
{
    llvm::StringRef f = env.sm().getFilename(env.sm().getSpellingLoc(l));
    rt_make_symbolic(const_cast<char *>(f.data()) + from, f.size() - from, name);
    return f.str();
}
SourceLocation at(Env &env, FileID f, llvm::StringRef needle)
{
    size_t p = env.sm().getBufferData(f).find(needle);
    if (p == llvm::StringRef::npos) {
        fprintf(stderr, "harness: no '%s'\n", needle.str().c_str());
        exit(4);
    }
    return env.sm().getLocForStartOfFile(f).getLocWithOffset(p);
}
SourceLocation at(Env &env, llvm::StringRef needle)
{
    return at(env, env.sm().getMainFileID(), needle);
}
char *bytes(Env &env, SourceLocation l)
{
    return const_cast<char *>(env.sm().getCharacterData(l));
}
std::string filler(unsigned n, char c)
{
    return std::string(n, c);
}

const std::vector<const char *> KEYWORDS = {"foreach", "signals", "slots", "emit"};
const std::vector<const char *> QTHEADERS = {"qglobal.h", "qobjectdefs.h", "qtmetamacros.h", "qforeach.h"};

// how QT_NO_KEYWORDS gets there: 0 not at all; 1, 2: an argument; 3: a macro that is expanded
void keyword(unsigned n, unsigned headerLen, unsigned noKeywords)
{
    std::string header = filler(headerLen - 2, 'h') + ".h", name = filler(n, 'k'), other = filler(14, 'n');
    TU tu;
    tu.replay = true;
    tu.files = {{header, "#define " + name + " int\n#define " + other + "\n"}};
    tu.code = "#include \"" + header + "\"\n" + (noKeywords == 3 ? other + "\n" : "") + "  " + name + " x;\n";
    tu.checks = {byName("qt-keywords"), byName("qt-keyword-emit")};
    bool off = false;
    tu.prepare = [&](CompilerInstance &ci) {
        if (noKeywords != 1 && noKeywords != 2)
            return;
        std::string def = symString("define", noKeywords == 1 ? 14 : 16, 'd', [](unsigned char c) {
            return c != 0;
        });
        uint8_t undef = symBool("undef");
        ci.getPreprocessorOpts().Macros.push_back({def, undef});
        off = undef == 0 & eqAt(def, 0, "QT_NO_KEYWORDS") & (def.size() == 14 || def[14] == '=');
    };
    withTU(tu, [&](Env &env) {
        SourceLocation use = at(env, "  " + name).getLocWithOffset(2);
        FileID hf = env.sm().translateFile(*env.ci->getFileManager().getOptionalFileRef(header));
        std::string file = symFileName(env, at(env, hf, "#define"), "header");
        std::string nm(env.identifier(name, "name"), n);
        if (noKeywords == 3) {
            // (the two are not the same macro)
            std::string o(env.identifier(other, "other"), 14);
            off = eq(o, "QT_NO_KEYWORDS");
        }
        env.replay();
        bool qt = !off & isAny(nm, KEYWORDS) & endsAny(file, QTHEADERS);
        bool emit = !off & eq(nm, "emit") & endsAny(file, {"qobjectdefs.h", "qtmetamacros.h"});
        unsigned k = 0, e = 0;
        bool right = true;
        for (auto &r : env.reported) {
            bool isK = r.check == "qt-keywords";
            (isK ? k : e)++;
            std::string want = "Q_";
            for (char c : nm)
                want += (char)(c - 32);
            right &= r.loc == use & r.fixits.size() == 1;
            if (r.fixits.size() == 1) {
                auto &f = r.fixits[0];
                right &= f.RemoveRange.getBegin() == use & f.RemoveRange.getEnd() == use & f.RemoveRange.isTokenRange() & f.InsertFromRange.isInvalid() & eq(f.CodeToInsert, want);
            }
            right &= containsLit(r.message, "keyword") & r.message.find(nm) != std::string::npos;
        }
        rt_describe(("reported " + std::to_string(k) + " " + std::to_string(e) + " " + std::to_string(env.reported.size())).c_str());
        SYM_ASSERT(k == qt, "qt-keywords warns about exactly the Qt keywords defined by Qt, unless QT_NO_KEYWORDS");
        SYM_ASSERT(e == emit, "qt-keyword-emit warns about exactly Qt's emit, unless QT_NO_KEYWORDS");
        SYM_ASSERT(right, "the keyword is what is reported and what is replaced, with its Q_ spelling");
        if (k)
            rt_reach("keyword");
        if (e)
            rt_reach("emit");
        if (off & isAny(nm, KEYWORDS) & endsAny(file, QTHEADERS))
            rt_reach("off");
    });
}

// What the checks take for the Qt version: the first value of each of the three macros' expansions, once all are there
struct Version {
    int part[3] = {-1, -1, -1};
    int value = -1;
    void expand(unsigned which, int v)
    {
        if (value != -1)
            return;
        part[which] = v;
        if ((part[0] != -1) & (part[1] != -1) & (part[2] != -1))
            value = part[2] + part[1] * 100 + part[0] * 10000;
    }
};
const char *const VERSION[3] = {"QT_VERSION_MAJOR", "QT_VERSION_MINOR", "QT_VERSION_PATCH"};
struct VersionMacros {
    unsigned shape;
    std::string code;
    std::vector<std::pair<unsigned, unsigned>> order; // which macro, how many digits
    explicit VersionMacros(unsigned s)
        : shape(s)
    {
        static const std::vector<std::vector<std::pair<unsigned, unsigned>>> SHAPES = {
            {}, {{0, 1}, {1, 1}, {2, 1}}, {{0, 1}, {1, 2}, {2, 1}}, {{2, 2}, {0, 1}, {1, 2}}, {{1, 1}, {2, 1}}, {{0, 1}, {2, 1}}, {{0, 1}, {1, 2}},
            {{0, 1}, {1, 1}, {1, 2}, {2, 1}}, {{0, 1}, {1, 2}, {2, 1}, {0, 1}, {1, 1}}, {{0, 2}, {1, 1}, {2, 2}},
        };
        order = SHAPES[s];
        unsigned n = 0;
        for (auto [w, d] : order) {
            std::string m = VERSION[w];
            code += "#undef " + m + "\n#define " + m + " " + std::string(d, (char)('1' + n++)) + " \n" + "int " + "v" + std::to_string(n) + " = " + m + ";\n";
        }
    }
    static constexpr unsigned COUNT = 10;
    Version apply(Env &env)
    {
        Version v;
        llvm::StringRef text = env.sm().getBufferData(env.sm().getMainFileID());
        size_t pos = 0;
        for (auto [w, d] : order) {
            pos = text.find(std::string("#define ") + VERSION[w], pos) + 9 + strlen(VERSION[w]);
            char *b = const_cast<char *>(text.data()) + pos;
            rt_make_symbolic(b, d, VERSION[w]);
            int val = 0;
            for (unsigned i = 0; i < d; ++i) {
                SYM_ASSUME(ccDigit(b[i]));
                val = val * 10 + (b[i] - '0');
            }
            v.expand(w, val);
        }
        return v;
    }
};

void osMacro(unsigned n, unsigned shape, unsigned form, unsigned before)
{
    VersionMacros vm(shape);
    std::string name = filler(n, 'q'), def = filler(before ? before : 7, 'd');
    TU tu;
    tu.replay = true;
    const char *const FORMS[] = {"#ifdef ", "#if defined(", "#if 1 && !defined "};
    tu.code = vm.code + (before ? "#define " + def + "\n" : "") + FORMS[form] + name + (form == 1 ? ")" : "") + "\n#endif\n#define " + (before ? "unused" : def) + "\n";
    tu.checks = {byName("qt-macros")};
    withTU(tu, [&](Env &env) {
        SourceLocation test = at(env, FORMS[form] + name);
        test = test.getLocWithOffset(form == 0 ? 1 : strstr(FORMS[form], "defined") - FORMS[form]);
        Version v = vm.apply(env);
        std::string nm(env.identifier(name, "tested"), n), d(env.identifier(def, "defined"), def.size());
        bool pch = symBool("pch");
        if (pch)
            const_cast<PreprocessorOptions &>(env.ctx->m_pp).ImplicitPCHInclude = "x";
        env.replay();
        bool windows = !pch & eq(nm, "Q_OS_WINDOWS") & (v.value < 51204);
        bool early = !pch & !windows & eqAt(nm, 0, "Q_OS_") & !(before && eqAt(d, 0, "Q_OS_"));
        unsigned w = 0, e = 0, other = 0;
        bool where = true;
        for (auto &r : env.reported) {
            if (r.message.find("5.12.4") != std::string::npos && r.message.find("Q_OS_WIN ") != std::string::npos)
                ++w;
            else if (r.message.find("qglobal.h") != std::string::npos)
                ++e;
            else
                ++other;
            where &= r.loc == (form == 0 ? r.loc : test);
            where &= env.line(r.loc) == env.line(test);
        }
        SYM_ASSERT((w == windows) & (e == early) & (other == 0), "Q_OS_WINDOWS needs Qt 5.12.4 and Q_OS_ macros need qglobal.h first");
        SYM_ASSERT(where, "qt-macros points at the test");
        if (w)
            rt_reach("windows");
        if (e)
            rt_reach("early");
        if (!w & !e & eqAt(nm, 0, "Q_OS_"))
            rt_reach("fine");
    });
}

const std::vector<const char *> MODULES = {"Core", "Gui", "Qml", "QmlModels", "Test", "Network", "DBus", "Quick", "Svg", "Widgets", "Xml", "Concurrent", "Multimedia", "Sql", "PrintSupport",
                                           "NetworkAuth", "QmlBuiltins", "QmlIntegration", "QuickTest"};
bool isModule(const std::string &n, bool dbus)
{
    bool r = false;
    for (std::string m : MODULES)
        if (m != "DBus" || !dbus)
            r |= eq(n, "Qt" + m) | eq(n, "Qt" + m + "/Qt" + m);
    return r;
}
std::string *generated; // what is in the file doing the including, if it can be read
}
namespace llvm
{
ErrorOr<std::unique_ptr<MemoryBuffer>> MemoryBuffer::getFile(const Twine &, bool, bool, bool, std::optional<Align>)
{
    if (!generated)
        return std::make_error_code(std::errc::no_such_file_or_directory);
    return MemoryBuffer::getMemBuffer(StringRef(*generated), "", false);
}
}
namespace
{
void include(unsigned n, bool angled, unsigned fileLen)
{
    std::string name = filler(n, 'i');
    TU tu;
    tu.replay = true;
    tu.files = {{name, ""}};
    if (fileLen)
        tu.file = filler(fileLen - 4, 'f') + ".cpp";
    tu.args.push_back("-I.");
    tu.code = std::string("#include ") + (angled ? "<" : "\"") + name + (angled ? ">" : "\"") + "\n";
    tu.checks = {byName("no-module-include")};
    withTU(tu, [&](Env &env) {
        SourceLocation where = env.sm().getLocForStartOfFile(env.sm().getMainFileID()).getLocWithOffset(9);
        std::string &inc = *env.included.at(0);
        rt_make_symbolic(inc.data(), inc.size(), "included");
        std::string wanted = inc;
        bool ignored = false;
        if (fileLen) {
            SYM_ASSUME(isModule(inc, false));
            std::string file = symFileName(env, where, "file");
            for (std::string m : MODULES)
                ignored |= containsLit(file, ("Qt" + m + "Depends").c_str());
        }
        generated = nullptr;
        env.replay();
        bool warned = env.reported.size() == 1;
        SYM_ASSERT(env.reported.size() <= 1 && warned == (isModule(wanted, false) & !ignored), "no-module-include warns about exactly the module-wide includes, once");
        SYM_ASSERT(!warned || (env.reported[0].loc == where), "no-module-include points at the name");
        if (warned)
            rt_reach("module");
        if (ignored)
            rt_reach("depends");
    });
}
// a file qdbusxml2cpp wrote may include QtDBus; len bytes from `from` on are inputs
void dbus(bool crlf, unsigned from, unsigned len, unsigned module, unsigned keep)
{
    const char *const HEADS[] = {"/*\n * This file was generated by qdbusxml2cpp version 0.8\n", "/*\r\n * This file was generated by qdbusxml2cpp version 0.8\r\n"};
    const std::string start = crlf ? "/*\r\n * This file was generated by qdbusxml2cpp" : "/*\n * This file was generated by qdbusxml2cpp";
    std::string name = module ? "QtDBus/QtDBus" : "QtDBus";
    TU tu;
    tu.replay = true;
    tu.files = {{"QtDBus/QtDBus", ""}, {"QtDBus_", ""}, {"QtGui", ""}};
    tu.args.push_back("-I.");
    tu.code = module == 0 ? "#include <QtDBus_>\n" : module == 1 ? "#include <QtDBus/QtDBus>\n" : "#include <QtGui>\n";
    tu.checks = {byName("no-module-include")};
    withTU(tu, [&](Env &env) {
        if (module == 0)
            env.included[0]->resize(6);
        std::string content = std::string(HEADS[crlf]).substr(0, keep);
        if (from < content.size())
            rt_make_symbolic(content.data() + from, std::min<size_t>(len, content.size() - from), "content");
        generated = &content;
        env.replay();
        bool dbusFile = eqAt(content, 0, "/*\n * This file was generated by qdbusxml2cpp") | eqAt(content, 0, "/*\r\n * This file was generated by qdbusxml2cpp");
        SYM_ASSERT((env.reported.size() == 0) == (module < 2 & dbusFile), "only files generated by qdbusxml2cpp may include QtDBus");
        if (env.reported.empty())
            rt_reach("generated");
        else
            rt_reach("not generated");
    });
}

// context: 0 plain, 1 inside another macro, 2 in a system header
void qenums(unsigned n, unsigned text, unsigned shape, unsigned context)
{
    VersionMacros vm(shape);
    std::string name = filler(n, 'e'), args = filler(text, 'a');
    TU tu;
    tu.replay = true;
    std::string def = "#define " + name + "(...)\n", use = "  " + name + "(" + args + ")\n";
    tu.code = vm.code + def + (context == 1 ? "#define outer " + name + "(A)\n outer\n" : context == 2 ? "#include <s.h>\n" : use);
    tu.files = {{"/sys/s.h", use}};
    tu.args.push_back("-isystem/sys");
    tu.checks = {byName("qenums")};
    withTU(tu, [&](Env &env) {
        Version v = vm.apply(env);
        SourceLocation l;
        bool scoped = false;
        if (context == 0) {
            l = at(env, "  " + name + "(").getLocWithOffset(2);
            char *b = bytes(env, l) + n + 1;
            rt_make_symbolic(b, text, "text");
            // (the template's tokens stay what they are)
            scoped = containsLit(std::string(b, text), "::");
        }
        std::string nm(env.identifier(name, "macro"), n);
        env.replay();
        bool warn = (context == 0) & (v.value >= 50500) & eq(nm, "Q_ENUMS") & !scoped;
        SYM_ASSERT(env.reported.size() == warn, "qenums warns about Q_ENUMS of the class's own enums, from Qt 5.5 on, in the user's code");
        SYM_ASSERT(env.reported.empty() || env.reported[0].loc == l, "qenums points at the macro");
        if (warn)
            rt_reach("qenums");
        if (eq(nm, "Q_ENUMS") & scoped)
            rt_reach("scoped");
    });
}
}

int main()
{
    allow("libclang-cpp.so", "hands events on");
    allow("PPCallbacks", "hands events on");
    allow("5Lexer13getSourceText", "slices the buffer");
    allow("5Lexer17makeFileCharRange", "the last token is concrete");
    allow("5Lexer14getAsCharRange", "the last token is concrete");
    allow("5LexerC", "reads the file for comments: it has none, and names and digits stay such");
    allow("5Lexer3Lex", "as above");
    allow("12MemoryBuffer12getMemBuffer", "points at the text");
    allow("libLLVM.so", "the buffer's destructor");
    const bool deep = rt_param("deep", 0);
    const unsigned family = rt_param("family", 9);
    if (family == 9 || family == 0) {
        unsigned i = 0;
        for (unsigned n : {4u, 5u, 6u, 7u, 8u})
            for (unsigned hl = 9; hl <= (deep ? 20u : 15u); ++hl)
                for (unsigned k = 0; k < 4; ++k, ++i)
                    if (deep || ((n == 6 ? hl == 13 : hl == 9 || hl == 10 || hl == 13 || hl == 15) && (k == i / 4 % 4 || (k == 0 && hl > 12))))
                        explore(("keyword-" + std::to_string(n) + "-" + std::to_string(hl) + "-" + std::to_string(k)).c_str(), [=] {
                            keyword(n, hl, k);
                        });
        rt_expect_reach("keyword");
        rt_expect_reach("emit");
        rt_expect_reach("off");
    }
    if (family == 9 || family == 1) {
        unsigned i = 0;
        for (unsigned n : {5u, 6u, 11u, 12u, 13u})
            for (unsigned shape = 0; shape < VersionMacros::COUNT; ++shape)
                for (unsigned before : {0u, 4u, 5u, 9u}) {
                    ++i;
                    if (!deep && n != 12 && shape != i % VersionMacros::COUNT)
                        continue;
                    for (unsigned form = 0; form < 3; ++form)
                        if (deep || form == (shape + before + n) % 3)
                            explore(("os-" + std::to_string(n) + "-" + std::to_string(shape) + "-" + std::to_string(before) + "-" + std::to_string(form)).c_str(), [=] {
                                osMacro(n, shape, form, before);
                            });
                }
        rt_expect_reach("windows");
        rt_expect_reach("early");
        rt_expect_reach("fine");
    }
    if (family == 9 || family == 2) {
        for (unsigned n = 4; n <= 34; ++n)
            for (unsigned a = 0; a < 2; ++a)
                if (deep || a == n % 2)
                    explore(("include-" + std::to_string(n) + "-" + std::to_string(a)).c_str(), [=] {
                        include(n, a, 0);
                    });
        for (unsigned f : {11u, 12u, 13u, 16u, 20u})
            if (deep || f < 20)
                explore(("in-file-" + std::to_string(f)).c_str(), [=] {
                    include(f == 13 ? 13 : 6, false, f);
                });
        rt_expect_reach("module");
        rt_expect_reach("depends");
        for (unsigned crlf = 0; crlf < 2; ++crlf)
            for (unsigned from = 0; from < 50; from += 6)
                for (unsigned module = 0; module < (deep ? 3 : 1 + (from % 4 == 0)); ++module)
                    for (unsigned keep : {58u, 45u + crlf})
                        explore(("generated-" + std::to_string(crlf) + "-" + std::to_string(from) + "-" + std::to_string(module) + "-" + std::to_string(keep)).c_str(), [=] {
                            dbus(crlf, from, 6, deep ? module : module ? 2 - from % 8 / 4 : 0, keep);
                        });
        rt_expect_reach("generated");
        rt_expect_reach("not generated");
    }
    if (family == 9 || family == 3) {
        for (unsigned n : {6u, 7u, 8u})
            for (unsigned shape = 0; shape < VersionMacros::COUNT; ++shape)
                for (unsigned text : {1u, 2u, 5u})
                    for (unsigned context = 0; context < 3; ++context)
                        if (deep || (n == 7 && (text == 5 || shape == 2) && (context == 0 || shape == 2)) || (shape == 2 && text == 2 && context == 0))
                            explore(("qenums-" + std::to_string(n) + "-" + std::to_string(shape) + "-" + std::to_string(text) + "-" + std::to_string(context)).c_str(), [=] {
                                qenums(n, text, shape, context);
                            });
        rt_expect_reach("qenums");
        rt_expect_reach("scoped");
    }
    rt_finish();
}
