// From emitWarning to the reported diagnostic: what is shown, how often, how severe, with which text.
//   family 0: line filter   1: header filter / ignored directories   2: duplicates, tags, severity,
//   queued manual fix-its, text and fix-its handed to the compiler
#include "h.h"
using namespace h;

namespace
{
struct Probe : CheckBase {
    explicit Probe(const std::string &n)
        : CheckBase(n)
    {
    }
    using CheckBase::emitWarning;
    using CheckBase::queueManualFixitWarning;
};
CheckSpec probe(const std::string &name = "aa")
{
    return {name, [name] { return new Probe(name); }, 0};
}
bool ccText(unsigned char c)
{
    return c != 0;
}
bool endsWith(const std::string &s, const std::string &suffix)
{
    if (suffix.size() > s.size())
        return false;
    return eqAt(s, s.size() - suffix.size(), "") & eq(s.substr(s.size() - suffix.size()), suffix);
}
SourceLocation atLine(Env &env, FileID f, unsigned line)
{
    return env.sm().translateLineCol(f, line, 1);
}

// ---------------------------------------------------------------- line filter
struct FilterEntry {
    std::string name;
    bool lines;
    std::vector<std::pair<int64_t, int64_t>> ranges;
};
// the number inside a JSON value becomes symbolic
int64_t symNumber(llvm::json::Value &v, const char *what)
{
    const int64_t old = *v.getAsInteger();
    for (size_t i = 0; i + 8 <= sizeof v; i += 4) {
        char *p = reinterpret_cast<char *>(&v) + i;
        if (memcmp(p, &old, 8) == 0) {
            rt_make_symbolic_int(p, 8, what);
            return *v.getAsInteger();
        }
    }
    abort();
}
// shape: per entry, length of the name and number of ranges (-1: no "lines")
void lineFilter(std::vector<std::pair<unsigned, int>> shape, unsigned nameLen, bool invalidLoc)
{
    TU tu;
    tu.code = "int a;\n";
    std::string json = "[";
    for (auto &[len, ranges] : shape) {
        json += (json.size() > 1 ? ",{\"name\":\"" : "{\"name\":\"") + std::string(len, 'n') + "\"";
        if (ranges >= 0) {
            json += ",\"lines\":[";
            for (int i = 0; i < ranges; ++i)
                json += i ? ",[1234567891234,1234567891234]" : "[1234567891234,1234567891234]";
            json += "]";
        }
        json += "}";
    }
    tu.lineFilter = json + "]";
    tu.checks = {probe()};
    std::vector<FilterEntry> want;
    seam::json = [&](llvm::json::Value &v) {
        for (auto &f : *v.getAsArray()) {
            auto *o = f.getAsObject();
            FilterEntry e;
            auto name = *o->getString("name");
            rt_make_symbolic(const_cast<char *>(name.data()), name.size(), "name");
            e.name = name.str();
            for (unsigned char c : e.name)
                SYM_ASSUME(c != 0);
            e.lines = false;
            if (auto *l = o->getArray("lines")) {
                e.lines = true;
                for (auto &r : *l) {
                    auto &a = *r.getAsArray();
                    e.ranges.push_back({symNumber(a[0], "start"), symNumber(a[1], "end")});
                }
            }
            want.push_back(e);
        }
    };
    withTU(tu, [&](Env &env) {
        static char file[32];
        memset(file, 0, sizeof file);
        memset(file, 'n', nameLen);
        rt_make_symbolic(file, nameLen, "file");
        std::string fname(file, nameLen);
        for (unsigned char c : fname)
            SYM_ASSUME(c != 0);
        unsigned line = symInt<unsigned>("line", 1);
        SYM_ASSUME(line >= 1 & line <= 0x7fffffff);
        SourceLocation loc = atLine(env, env.sm().getMainFileID(), 1);
        seam::presumedLoc = [&](SourceLocation, PresumedLoc &p) {
            if (!invalidLoc)
                p = PresumedLoc(file, env.sm().getMainFileID(), line, 1, SourceLocation());
            return true;
        };
        static_cast<Probe *>(env.checks[0])->emitWarning(loc, "text");
        bool shown = false;
        for (auto &e : want) {
            bool covered = !e.lines | e.ranges.empty();
            for (auto &r : e.ranges)
                covered |= (r.first <= (int64_t)line) & ((int64_t)line <= r.second);
            shown |= endsWith(fname, e.name) & covered;
        }
        shown |= invalidLoc;
        SYM_ASSERT((env.reported.size() == 1) == shown, "a warning passes the line filter exactly if an entry's name ends its file name and covers its line");
        if (env.reported.size() == 1)
            rt_reach("passes");
        else
            rt_reach("filtered");
    });
}

// ---------------------------------------------------------------- header filter, ignored directories
// what a pattern means, decided independently of any regular expression engine
struct Pattern {
    const char *re;
    bool (*matches)(const std::string &);
};
bool alnum(unsigned char c)
{
    return ccLower(c) | ccDigit(c);
}
const Pattern PATTERNS[] = {
    {"ab", [](const std::string &s) { return containsLit(s, "ab"); }},
    {"^a", [](const std::string &s) { return s[0] == 'a'; }},
    {"b\\.h$", [](const std::string &s) { return eqAt(s, s.size() - 3, "b.h"); }},
    {"a/.*c", [](const std::string &s) {
         bool r = false;
         for (size_t i = 0; i + 1 < s.size(); ++i)
             for (size_t j = i + 2; j < s.size(); ++j)
                 r |= eqAt(s, i, "a/") & (s[j] == 'c');
         return r;
     }},
    {"^(a|bc)/", [](const std::string &s) -> bool { return eqAt(s, 0, "a/") | eqAt(s, 0, "bc/"); }},
    {"[0-9]+x", [](const std::string &s) {
         bool r = false;
         for (size_t i = 0; i + 1 < s.size(); ++i)
             r |= ccDigit(s[i]) & (s[i + 1] == 'x');
         return r;
     }},
    {".*", [](const std::string &) { return true; }},
};
// the bytes under which the file manager knows a file
std::string symFileName(Env &env, FileID f, const char *what)
{
    auto name = env.sm().getFileEntryRefForID(f)->getName();
    rt_make_symbolic(const_cast<char *>(name.data()), name.size(), what);
    std::string s = name.str();
    for (unsigned char c : s)
        SYM_ASSUME((c != 0) & (c != '\n'));
    return s;
}
void headerFilter(int hf, int id, bool inHeader, bool viaMacro, bool fromEnv)
{
    TU tu;
    std::string hname = "ab1x.h", mname = "ab1x.c";
    tu.file = mname;
    tu.args = {"-std=c++17", "-xc++"};
    tu.files = {{hname, "int h1;\n#define INT int h2;\n"}};
    tu.code = "#include \"" + hname + "\"\nint m;\nINT\n";
    if (hf >= 0)
        tu.headerFilter = PATTERNS[hf].re;
    if (id >= 0)
        tu.ignoreDirs = PATTERNS[id].re;
    tu.checks = {probe()};
    withTU(tu, [&](Env &env) {
        SourceLocation loc;
        FileID hdr, main = env.sm().getMainFileID();
        for (auto *v : env.decls<VarDecl>()) {
            if (v->getName() == "h1")
                hdr = env.sm().getFileID(v->getBeginLoc());
            if (v->getName() == (inHeader ? "h1" : viaMacro ? "h2" : "m"))
                loc = v->getBeginLoc();
        }
        std::string h = symFileName(env, hdr, "header"), m = symFileName(env, main, "main");
        const std::string &name = inHeader ? h : m; // where the code was written (expanded, for macros)
        bool shown = true;
        if (hf >= 0 && inHeader)
            shown &= PATTERNS[hf].matches(name);
        if (id >= 0)
            shown &= !PATTERNS[id].matches(name);
        static_cast<Probe *>(env.checks[0])->emitWarning(loc, "text");
        SYM_ASSERT((env.reported.size() == 1) == shown, "a warning is shown exactly if its file passes the header filter (headers only) and is not ignored");
        rt_reach(env.reported.empty() ? "hidden" : "shown");
    });
}

// ---------------------------------------------------------------- sequences of warnings
struct Slot {
    bool macro;
    unsigned line, col;
    SourceLocation loc;
    std::string file = "main.cpp";
};
void sequence(unsigned n, bool tidy, bool severity, unsigned checks, bool files = false)
{
    // a check name list for CLAZY_CHECKS_AS_ERRORS is C01's business; here it is either set or not
    static bool promoted, noWerror, werror;
    promoted = noWerror = werror = false;
    if (severity) {
        promoted = symBool("promoted");
        noWerror = symBool("no-werror");
    }
    bool p = promoted, nw = noWerror;
    rt_pick(&p, 1);
    rt_pick(&nw, 1);
    EnvVar e1("CLAZY_CHECKS_AS_ERRORS", p ? "qstring-arg,foreach" : "qgetenv");
    EnvVar e2("CLAZY_NO_WERROR", nw ? "1" : nullptr);
    TU tu;
    tu.tidy = tidy;
    tu.code = "#define M(x) x\nint a;\nM(int b;)\nM(int c;)\n";
    tu.checks = {probe("foreach"), probe("bb")};
    withTU(tu, [&](Env &env) {
        if (severity)
            werror = symBool("werror");
        bool we = werror;
        rt_pick(&we, 1);
        env.ast->getDiagnostics().setWarningsAsErrors(we);
        std::vector<Slot> slots;
        for (auto *v : env.decls<VarDecl>())
            slots.push_back({v->getBeginLoc().isMacroID(), 0, 0, v->getBeginLoc()});
        for (auto &s : slots) {
            s.line = symRange<unsigned>("line", 1, 3);
            s.col = symRange<unsigned>("col", 1, 2);
            if (files && s.macro)
                s.file = symString("file", 6, 'f', [](unsigned char c) {
                    return c != 0;
                });
        }
        seam::presumedLoc = [&](SourceLocation l, PresumedLoc &p) {
            for (auto &s : slots)
                if (s.loc == l) {
                    p = PresumedLoc(s.file.c_str(), env.sm().getMainFileID(), s.line, s.col, SourceLocation());
                    return true;
                }
            return false;
        };
        struct Shown {
            unsigned check, slot;
            std::string text;
        };
        std::vector<Shown> want;
        std::vector<unsigned> seenMacro[2], seenManual[2];
        std::vector<Shown> queue[2];
        auto seen = [&](std::vector<unsigned> &v, Slot &s) {
            bool r = false;
            for (auto x : v)
                r |= (slots[x].line == s.line) & (slots[x].col == s.col) & eq(slots[x].file, s.file);
            return r;
        };
        const char *names[2] = {"foreach", "bb"};
        for (unsigned i = 0; i < n; ++i) {
            unsigned c = checks > 1 ? pick("check", checks) : 0, k = pick("where", slots.size()), act = pick("action", 3);
            auto *check = static_cast<Probe *>(env.checks[c]);
            Slot &s = slots[k];
            std::string msg = symString("message", 2, 'm', ccText), tag = tidy ? "" : std::string(" [-Wclazy-") + names[c] + "]";
            if (act == 2) { // a fix that could not be made
                check->queueManualFixitWarning(s.loc, msg);
                bool dup = seen(seenManual[c], s);
                rt_pick(&dup, 1);
                if (!dup) {
                    seenManual[c].push_back(k);
                    queue[c].push_back({c, k, "FixIt failed, requires manual intervention:  " + msg + tag});
                }
                continue;
            }
            check->emitWarning(s.loc, msg, {}, act == 0);
            if (s.macro) {
                bool dup = seen(seenMacro[c], s);
                rt_pick(&dup, 1);
                if (dup) {
                    rt_reach("duplicate");
                    continue;
                }
                seenMacro[c].push_back(k);
            }
            want.push_back({c, k, msg + (act == 0 ? tag : "")});
            for (auto &q : queue[c])
                want.push_back(q);
            if (!queue[c].empty())
                rt_reach("manual");
            queue[c].clear();
        }
        SYM_ASSERT(env.reported.size() == want.size(), "each warning is shown once: repetitions at one presumed place of a macro are dropped, nothing else is");
        bool text = true, where = true, level = true, who = true;
        for (size_t i = 0; i < want.size(); ++i) {
            auto &r = env.reported[i];
            text &= eq(r.message, want[i].text);
            where &= r.loc == slots[want[i].slot].loc;
            who &= r.check == names[want[i].check];
            bool err = (we && !nw) || (p && want[i].check == 0);
            level &= r.level == (err ? DiagnosticIDs::Error : DiagnosticIDs::Warning);
        }
        SYM_ASSERT(text, "the text is the check's message followed by [-Wclazy-<name>], except under clang-tidy or without tag");
        SYM_ASSERT(where & who, "warnings are reported in order, at their place, under their check's name");
        SYM_ASSERT(level, "a warning is an error exactly if its check is promoted or warnings are errors and CLAZY_NO_WERROR is not set");
        if (!want.empty())
            rt_reach("shown");
    });
}

// ---------------------------------------------------------------- what the compiler is told
struct Capture : DiagnosticConsumer {
    struct Got {
        DiagnosticsEngine::Level level;
        SourceLocation loc;
        std::string text;
        bool ok;
        std::vector<FixItHint> fixits;
    };
    std::vector<Got> got;
    void HandleDiagnostic(DiagnosticsEngine::Level level, const Diagnostic &info) override
    {
        Got g = {level, info.getLocation(), {}, true, {}};
        std::string text;
        for (auto &d : seam::customDiags)
            if (d.first == info.getID())
                text = d.second;
        // the meaning of a diagnostic's text: %N stands for an argument, %% for a percent sign
        for (size_t i = 0; i < text.size(); ++i) {
            if (text[i] != '%') {
                g.text += text[i];
                continue;
            }
            if (++i == text.size()) {
                g.ok = false;
            } else if (text[i] == '%') {
                g.text += '%';
            } else if (text[i] >= '0' && text[i] <= '9' && unsigned(text[i] - '0') < info.getNumArgs()) {
                unsigned a = text[i] - '0';
                if (info.getArgKind(a) == DiagnosticsEngine::ak_std_string)
                    g.text += info.getArgStdStr(a);
                else if (info.getArgKind(a) == DiagnosticsEngine::ak_c_string)
                    g.text += info.getArgCStr(a);
                else
                    g.ok = false;
            } else {
                g.ok = false;
            }
        }
        for (unsigned i = 0; i < info.getNumFixItHints(); ++i)
            g.fixits.push_back(info.getFixItHint(i));
        got.push_back(g);
    }
};
void compilerText(unsigned len, unsigned fixits, unsigned codeLen, bool error)
{
    EnvVar e1("CLAZY_CHECKS_AS_ERRORS", error ? "foreach" : nullptr);
    TU tu;
    tu.code = "int a;\n";
    tu.checks = {probe("foreach")};
    tu.defaultReporter = true;
    withTU(tu, [&](Env &env) {
        seam::recordCustomDiags = true;
        auto *cap = new Capture;
        env.ast->getDiagnostics().setClient(cap, false);
        SourceLocation loc = atLine(env, env.sm().getMainFileID(), 1);
        std::string msg = symString("message", len, 'm', ccText), want = msg + " [-Wclazy-foreach]";
        std::vector<FixItHint> f;
        std::vector<std::string> code;
        for (unsigned i = 0; i < fixits; ++i) {
            code.push_back(symString("code", codeLen, 'c', ccText));
            f.push_back(FixItHint::CreateReplacement(SourceRange(loc, loc), code[i]));
        }
        static_cast<Probe *>(env.checks[0])->emitWarning(loc, msg, f);
        SYM_ASSERT(cap->got.size() == 1, "one diagnostic per warning");
        auto &g = cap->got[0];
        SYM_ASSERT(g.level == (error ? DiagnosticsEngine::Error : DiagnosticsEngine::Warning) && g.loc == loc, "the diagnostic has the warning's level and place");
        SYM_ASSERT(g.ok && eq(g.text, want), "the diagnostic's text is the warning's text, whatever characters it holds");
        SYM_ASSERT(g.fixits.size() == fixits, "every fix-it is attached");
        bool same = true;
        for (unsigned i = 0; i < fixits; ++i)
            same &= eq(g.fixits[i].CodeToInsert, code[i]);
        SYM_ASSERT(same, "fix-its are passed on unchanged");
        rt_reach("told");
    });
}
}

int main()
{
    allow("17DiagnosticsEngine14EmitDiag", "hands the diagnostic to the harness");
    allow("17DiagnosticsEngine4Emit", "hands the diagnostic to the harness");
    allow("17DiagnosticBuilderC", "remembers the engine and the place");
    allow("5LexerC", "the template's text is concrete");
    allow("5Lexer3Lex", "the template's text is concrete");
    allow("N4llvm4json5Value7destroyEv", "frees the value");
    allow("NK4llvm4json6Object", "looks keys up, which are concrete");
    allow("N4llvm4json6Object", "looks keys up, which are concrete");
    unsigned family = rt_param("family", 0), deep = rt_param("deep", 0);
    switch (family) {
    case 0: {
        unsigned fl = rt_param("file", 4);
        std::vector<std::vector<std::pair<unsigned, int>>> shapes;
        for (unsigned l = 0; l <= fl + 1; ++l)
            for (int r : {-1, 1, 2})
                shapes.push_back({{l, r}});
        for (int r0 : {-1, 0, 1, 2})
            for (int r1 : {-1, 1, deep ? 3 : 1})
                shapes.push_back({{1, r0}, {2, r1}}), shapes.push_back({{2, r0}, {0, r1}});
        shapes.push_back({{1, 1}, {1, 1}, {3, 2}});
        shapes.push_back({{2, 3}, {1, 3}});
        unsigned i = 0;
        for (auto &s : shapes)
            explore(("filter-" + std::to_string(i++)).c_str(), [=] {
                lineFilter(s, fl, false);
            });
        explore("no-filter", [=] {
            lineFilter({}, fl, true);
        });
        explore("no-place", [=] {
            lineFilter({{2, 1}}, fl, true);
        });
        rt_expect_reach("passes");
        rt_expect_reach("filtered");
        break;
    }
    case 1: {
        int n = sizeof PATTERNS / sizeof *PATTERNS;
        for (int hf = -1; hf < n; ++hf)
            for (int id = -1; id < n; ++id)
                for (int where = 0; where < 3; ++where)
                    if (deep || hf == -1 || id == -1 || (hf + id + where) % 3 == 0)
                        explore(("hf" + std::to_string(hf) + "-id" + std::to_string(id) + "-" + std::to_string(where)).c_str(), [=] {
                            headerFilter(hf, id, where == 1, where == 2, false);
                        });
        rt_expect_reach("shown");
        rt_expect_reach("hidden");
        break;
    }
    case 2:
        for (int tidy = 0; tidy < 2; ++tidy) {
            std::string t = tidy ? "-tidy" : "";
            explore(("severity" + t).c_str(), [=] {
                sequence(1, tidy, true, 2);
            });
            explore(("sequence-2" + t).c_str(), [=] {
                sequence(2, tidy, false, 2);
            });
            if (deep || !tidy)
                explore(("sequence-3" + t).c_str(), [=] {
                    sequence(3, tidy, false, 1 + deep);
                });
        }
        explore("files", [=] {
            sequence(2, false, false, 1, true);
        });
        if (deep)
            explore("files-3", [=] {
                sequence(3, false, false, 1, true);
            });
        if (deep)
            explore("sequence-4", [=] {
                sequence(4, false, false, 1);
            });
        rt_expect_reach("duplicate");
        rt_expect_reach("manual");
        rt_expect_reach("shown");
        break;
    }
    if (family == 2) {
        for (unsigned len = 0; len <= (deep ? 6 : 3); ++len)
            for (unsigned f = 0; f <= 2; ++f)
                explore(("text-" + std::to_string(len) + "-" + std::to_string(f)).c_str(), [=] {
                    compilerText(len, f, 2 + f, len & 1);
                });
        rt_expect_reach("told");
    }
    rt_finish();
}
