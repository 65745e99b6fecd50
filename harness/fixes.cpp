// Fix-its that depend on what the file includes: use-chrono-in-qtimer and missing-qobject-macro.
#include "h.h"
#include "llvm/Support/raw_ostream.h"
using namespace h;

namespace
{
SourceLocation at(Env &env, llvm::StringRef needle, int offset = 0)
{
    FileID f = env.sm().getMainFileID();
    size_t p = env.sm().getBufferData(f).find(needle);
    if (p == llvm::StringRef::npos) {
        fprintf(stderr, "harness: no '%s'\n", needle.str().c_str());
        exit(4);
    }
    return env.sm().getLocForStartOfFile(f).getLocWithOffset(p + offset);
}
// does the main file's n-th include name it this way?
struct Includes {
    std::string code;
    std::vector<std::pair<std::string, std::string>> files;
    std::vector<bool> angled, inMain;
    // words: a main-file <include>, q main-file "include", h an include made by a header
    Includes(const std::string &shape, const std::vector<unsigned> &lens)
    {
        for (unsigned i = 0; i < shape.size(); ++i) {
            std::string n(lens[i], (char)('p' + i));
            files.push_back({n, ""});
            if (shape[i] == 'h') {
                files.push_back({"outer" + std::to_string(i) + ".h", "#include <" + n + ">\n"});
                code += "#include \"outer" + std::to_string(i) + ".h\"\n";
                angled.push_back(false);
                inMain.push_back(true);
            } else
                code += "#include " + (shape[i] == 'a' ? "<" + n + ">" : "\"" + n + "\"") + "\n";
            angled.push_back(shape[i] != 'q');
            inMain.push_back(shape[i] != 'h');
        }
    }
    std::vector<std::string> apply(Env &env)
    {
        std::vector<std::string> r;
        for (auto *s : env.included) {
            if (llvm::StringRef(*s).starts_with("outer")) {
                r.push_back(*s);
                continue;
            }
            rt_make_symbolic(s->data(), s->size(), "include");
            for (char c : *s)
                SYM_ASSUME((c != 0) & (c != '>') & (c != '"') & (c != '\n'));
            r.push_back(*s);
        }
        return r;
    }
    bool has(const std::vector<std::string> &names, const char *name, bool ang)
    {
        bool r = false;
        for (unsigned i = 0; i < names.size(); ++i)
            if (inMain[i] && angled[i] == ang)
                r |= eq(names[i], name);
        return r;
    }
};

// Arguments; the numbers are inputs
struct Arg {
    const char *text;
    int64_t (*value)(const int64_t *); // -1: not a constant the check understands
    unsigned bits; // of the numbers
    unsigned base; // smallest number
};
const Arg ARGS[] = {
    {"1111", [](const int64_t *v) { return v[0]; }, 8, 0},
    {"1111", [](const int64_t *v) { return v[0]; }, 16, 0},
    {"1111", [](const int64_t *v) { return v[0]; }, 8, 3599900},
    {"1111", [](const int64_t *v) { return v[0]; }, 8, 2147483392},
    {"1111", [](const int64_t *v) { return v[0]; }, 8, 359999900},
    {"1111 * 1000", [](const int64_t *v) { return v[0] * 1000; }, 8, 0},
    {"1111 * 1000", [](const int64_t *v) { return v[0] * 1000; }, 8, 3500},
    {"60000 * 1111", [](const int64_t *v) { return v[0] * 60000; }, 8, 0},
    {"1111 / 7", [](const int64_t *v) { return v[0] / 7; }, 16, 0},
    {"86400000 / 1111", [](const int64_t *v) { return v[0] ? 86400000 / v[0] : -1; }, 8, 0},
    {"1111 * 2222", [](const int64_t *v) { return v[0] * v[1]; }, 8, 0},
    {"1111 / 2222", [](const int64_t *v) { return v[1] ? v[0] / v[1] : -1; }, 8, 0},
    {"1111 + 60", [](const int64_t *) { return int64_t(-1); }, 16, 0},
    {"1111 - 60", [](const int64_t *) { return int64_t(-1); }, 16, 0},
    {"1111 % 60", [](const int64_t *) { return int64_t(-1); }, 16, 0},
    {"variable * 1111", [](const int64_t *) { return int64_t(-1); }, 16, 0},
    {"1000 * (1111 + 1)", [](const int64_t *) { return int64_t(-1); }, 16, 0},
};
constexpr unsigned NARGS = sizeof ARGS / sizeof *ARGS;

[[clang::optnone]] std::string digits(int64_t v) // (the same terms std::to_string makes)
{
    uint32_t u = (uint32_t)v;
    char b[12];
    int i = 12;
    do {
        b[--i] = '0' + (char)(u % 10);
        u /= 10;
    } while (u);
    return std::string(b + i, 12 - i);
}

void timer(unsigned arg, unsigned call, const std::string &shape, const std::vector<unsigned> &lens, bool names, bool second)
{
    Includes inc(shape, lens);
    TU tu;
    tu.replay = true;
    tu.code = inc.code;
    tu.files = inc.files;
    tu.args.push_back("-I.");
    static const char *const CALLS[] = {"t.sssss(@)", "t.setInterval(@)", "QTimer::singleShot(@, 5)", "p->sssss(@)", "o.start(@)", "start(@)", "t.setSingleShot(@)"};
    std::string text = CALLS[call];
    text.replace(text.find('@'), 1, ARGS[arg].text);
    tu.code += "struct tttttt { void sssss(int); void sssss(); void setInterval(int); void setSingleShot(int); static void singleShot(int, int); };\n"
               "struct Other { void start(int); };\nvoid start(int);\nusing QTimer = tttttt;\n"
               "void f(QTimer t, QTimer *p, Other o, int variable) {\n t.sssss(); " + text + ";\n"
        + (second ? " t.sssss(1500);\n" : "") + "}\n";
    tu.checks = {byName("use-chrono-in-qtimer")};
    tu.args.push_back("-w");
    withTU(tu, [&](Env &env) {
        SourceLocation where = at(env, text, std::string(CALLS[call]).find('@'));
        SourceLocation where2 = second ? at(env, "t.sssss(1500)", 8) : SourceLocation();
        SourceLocation afterIncludes;
        unsigned lastInclude = 0;
        for (unsigned i = 0; i < inc.angled.size(); ++i)
            if (inc.inMain[i])
                lastInclude = i;
        {
            llvm::StringRef t = env.sm().getBufferData(env.sm().getMainFileID());
            size_t p = t.rfind("#include ");
            if (p != llvm::StringRef::npos)
                afterIncludes = env.sm().getLocForStartOfFile(env.sm().getMainFileID()).getLocWithOffset(t.find('\n', p));
        }
        auto inames = inc.apply(env);
        bool have = inc.has(inames, "chrono", true);
        if (!inames.empty()) // (moc files come last)
            SYM_ASSUME(inames[lastInclude].size() < 4 || !eqAt(inames[lastInclude], inames[lastInclude].size() - 4, ".moc"));
        std::string cls = "QTimer", fn = "start";
        if (names) {
            cls = std::string(env.identifier("tttttt", "class"), 6);
            fn = std::string(env.identifier("sssss", "function"), 5);
        } else {
            memcpy(const_cast<char *>(env.ci->getPreprocessor().getIdentifierInfo("tttttt")->getNameStart()), "QTimer", 6);
            memcpy(const_cast<char *>(env.ci->getPreprocessor().getIdentifierInfo("sssss")->getNameStart()), "start", 5);
        }
        int64_t v[2] = {0, 0};
        for (unsigned k = 0; k < 2; ++k)
            if (strstr(ARGS[arg].text, k ? "2222" : "1111")) {
                IntegerLiteral *l = env.intLiteral(k ? 2222 : 1111);
                uint32_t x = 0;
                for (unsigned b = 0; b < ARGS[arg].bits; b += 8) {
                    uint8_t byte = 0;
                    rt_make_symbolic_int(&byte, 1, "number");
                    x |= (uint32_t)byte << b;
                }
                x += ARGS[arg].base;
                *intStorage(l) = x;
                v[k] = x;
            }
        env.replay();
        env.run();
        const int64_t value = ARGS[arg].value(v);
        bool isTimer = eq(cls, "QTimer") & (call == 0 || call == 3 ? eq(fn, "start") : call < 3);
        bool warn = isTimer & (value > 0);
        bool warn2 = second & eq(cls, "QTimer") & eq(fn, "start");
        SYM_ASSERT(env.reported.size() == (unsigned)warn + warn2, "use-chrono-in-qtimer reports exactly the timers started with a number");
        bool includeWanted = !have & afterIncludes.isValid();
        for (unsigned i = 0; i < env.reported.size(); ++i) {
            auto &r = env.reported[i];
            const bool isFirst = r.loc == where;
            SYM_ASSERT(isFirst || r.loc == where2, "use-chrono-in-qtimer points at the number");
            const int64_t x = isFirst ? value : 1500;
            std::string want = x % 3600000 == 0 ? digits(x / 3600000) + "h" : x % 60000 == 0 ? digits(x / 60000) + "min" : x % 1000 == 0 ? digits(x / 1000) + "s" : digits(x) + "ms";
            SYM_ASSERT(eqAt(r.message, 27, (want + " instead.").c_str()), "the suggestion is the same time");
            unsigned n = 0, ins = 0;
            bool right = true;
            for (auto &f : r.fixits) {
                if (f.isNull())
                    continue;
                if (f.RemoveRange.getBegin() == r.loc) {
                    ++n;
                    right &= eq(f.CodeToInsert, want) & f.RemoveRange.isTokenRange() & f.InsertFromRange.isInvalid();
                    std::string last = ARGS[arg].text;
                    right &= f.RemoveRange.getEnd() == (isFirst ? where.getLocWithOffset(last.rfind(' ') == std::string::npos ? 0 : last.rfind(' ') + 1) : where2);
                } else {
                    ++ins;
                    right &= f.RemoveRange.getBegin() == afterIncludes & f.RemoveRange.getEnd() == afterIncludes & !f.RemoveRange.isTokenRange() & containsLit(f.CodeToInsert, "#include <chrono>") & containsLit(f.CodeToInsert, "using namespace std::chrono_literals;");
                }
            }
            SYM_ASSERT((n == 1) & right & (ins == (includeWanted & (i == 0))), "the number is replaced, and <chrono> is included once, unless it is already");
        }
        if (warn)
            rt_reach("timer");
        if (have & warn)
            rt_reach("chrono is there");
        if (isTimer & value == 0)
            rt_reach("zero");
    });
}

// Classes without Q_OBJECT. Places a macro may be: 0 before, 1 in the first class, 2 in the nested class, 3 in the second class, 4 after,
// 5 in a header, 6 nowhere
void qobject(unsigned place, unsigned kind, const std::string &shape, const std::vector<unsigned> &lens, const char *file, unsigned subject)
{
    static const char *const BASES[] = {": bbbbbbb", ": Middle", ": Plain", "", ": Plain, bbbbbbb", ": virtual private bbbbbbb"};
    const unsigned NB = 6;
    Includes inc(shape, lens);
    TU tu;
    tu.replay = true;
    tu.file = file;
    tu.files = inc.files;
    const bool tmpl = kind >= NB;
    const std::string bases = BASES[kind % NB];
    tu.files.push_back({"h.h", "struct InHeader " + bases + " {\n" + (place == 5 ? "mmmmmmmm\n" : "") + "};\n"});
    tu.args.push_back("-I.");
    auto m = [&](unsigned p) {
        return std::string(place == p ? " mmmmmmmm\n" : "");
    };
    tu.code = "#define mmmmmmmm\n#define qqqqqqqq\nstruct bbbbbbb {\n qqqqqqqq };\nstruct Middle : bbbbbbb {\n qqqqqqqq };\nstruct Plain {};\n" + m(0) + (tmpl ? "template<typename T> " : "") + "struct A " + bases + " {\n" + m(1)
        + "};\nstruct Holder {\n  struct Nested : bbbbbbb {\n" + m(2) + "  };\n};\nstruct B : bbbbbbb {\n" + m(3) + "};\n" + m(4) + "struct Forward;\n#include \"h.h\"\n" + inc.code;
    tu.checks = {byName("missing-qobject-macro")};
    bool pch = false;
    tu.prepare = [&](CompilerInstance &ci) {
        pch = subject == 3 && symBool("pch");
        if (pch)
            ci.getPreprocessorOpts().ImplicitPCHInclude = "x";
    };
    withTU(tu, [&](Env &env) {
        SourceLocation posA = at(env, "struct A"), braceA = at(env, "struct A " + bases + " {", 9 + bases.size() + 2);
        SourceLocation posB = at(env, "struct B :"), braceB = at(env, "struct B : bbbbbbb {", 20);
        SourceLocation eof = env.sm().getLocForEndOfFile(env.sm().getMainFileID());
        inc.inMain.insert(inc.inMain.begin(), false); // h.h
        inc.angled.insert(inc.angled.begin(), false);
        std::vector<std::string> inames;
        for (auto *s : env.included) {
            if (*s != "h.h" && !llvm::StringRef(*s).starts_with("outer")) {
                rt_make_symbolic(s->data(), s->size(), "include");
                for (char c : *s)
                    SYM_ASSUME((c != 0) & (c != '>') & (c != '"') & (c != '\n'));
            }
            inames.push_back(*s);
        }
        auto spelled = [&](const char *placeholder, const char *dflt, bool symbolic) {
            char *p = const_cast<char *>(env.ci->getPreprocessor().getIdentifierInfo(placeholder)->getNameStart());
            if (symbolic)
                return std::string(env.identifier(placeholder, "name"), strlen(dflt));
            memcpy(p, dflt, strlen(dflt));
            return std::string(dflt);
        };
        spelled("qqqqqqqq", "Q_OBJECT", false);
        bool qobj = true, isMacro = false;
        if (place < 6)
            isMacro = eq(spelled("mmmmmmmm", "Q_OBJECT", subject == 1), "Q_OBJECT");
        qobj = eq(spelled("bbbbbbb", "QObject", subject == 2), "QObject");
        env.replay();
        env.run();
        const unsigned bk = kind % NB;
        const bool derived = bk == 0 || bk == 1 || bk == 4 || bk == 5;
        bool base = qobj & !pch;
        bool a = base & (derived & !tmpl) & !((place == 1) & isMacro);
        bool b = base & !((place == 3) & isMacro);
        bool hdr = base & derived & !((place == 5) & isMacro);
        unsigned na = 0, nb = 0, nh = 0, other = 0;
        std::string f = file, stem = f.substr(0, f.rfind('.'));
        bool cpp = f.substr(f.rfind('.')) == ".cpp";
        bool haveMoc = inc.has(inames, (stem + ".moc").c_str(), false);
        unsigned mocs = 0;
        bool right = true;
        for (auto &r : env.reported) {
            bool isA = r.loc == posA, isB = r.loc == posB, isH = !env.sm().isInMainFile(r.loc);
            isA ? ++na : isB ? ++nb : isH ? ++nh : ++other;
            unsigned ins = 0;
            for (auto &x : r.fixits) {
                SourceLocation l = x.RemoveRange.getBegin();
                right &= (x.RemoveRange.getEnd() == l) & !x.RemoveRange.isTokenRange();
                if (l == eof) {
                    ++mocs;
                    right &= containsLit(x.CodeToInsert, ("#include \"" + stem + ".moc\"").c_str());
                    continue;
                }
                ++ins;
                right &= containsLit(x.CodeToInsert, "Q_OBJECT") & (isH || l == (isA ? braceA : braceB));
            }
            right &= ins == 1;
        }
        SYM_ASSERT((na == a) & (nb == b) & (nh == hdr) & (other == 0), "missing-qobject-macro reports exactly the QObjects without Q_OBJECT that moc accepts");
        SYM_ASSERT(right & (mocs == (cpp & !haveMoc & (a | b))), "Q_OBJECT goes into the class, and the moc file is included once, unless it is already");
        if (a & b)
            rt_reach("two classes");
        if (!a & b)
            rt_reach("one class");
        if (haveMoc & b)
            rt_reach("moc is there");
        if (hdr)
            rt_reach("in a header");
    });
}
}

int main()
{
    allow("getAsString", "modelled: symbolic names are put back into what it returns");
    allow("getQualifiedNameAsString", "as above");
    allow("libclang-cpp.so", "hands events on");
    allow("PPCallbacks", "hands events on");
    allow("5LexerC", "reads the file for comments");
    allow("5Lexer3Lex", "as above");
    const bool deep = rt_param("deep", 0);
    const unsigned family = rt_param("family", 9);
    if (family == 9 || family == 0) {
        for (unsigned a = 0; a < NARGS; ++a)
            for (unsigned call = 0; call < 7; ++call)
                if (deep || call == a % 4 || (a < 2 && call > 2))
                    explore(("number-" + std::to_string(a) + "-" + std::to_string(call)).c_str(), [=] {
                        timer(a, call, "a", {6}, false, a % 3 == 0);
                    });
        for (auto &[shape, lens] : std::vector<std::pair<std::string, std::vector<unsigned>>>{{"a", {6}}, {"q", {6}}, {"h", {6}}, {"", {}}, {"aq", {6, 6}}, {"qa", {7, 6}}, {"ha", {6, 6}}, {"aa", {6, 5}}})
            for (bool second : {false, true})
                explore(("includes-" + shape + "-" + std::to_string(second)).c_str(), [=, shape = shape, lens = lens] {
                    timer(1, 0, shape, lens, false, second);
                });
        for (unsigned call = 0; call < 7; ++call)
            explore(("names-" + std::to_string(call)).c_str(), [=] {
                timer(0, call, "", {}, true, call % 2);
            });
        rt_expect_reach("timer");
        rt_expect_reach("chrono is there");
        rt_expect_reach("zero");
    }
    if (family == 9 || family == 1) {
        for (unsigned place = 0; place <= 6; ++place)
            for (unsigned kind = 0; kind < 7; ++kind)
                if (deep || kind == place % 6 || kind == 0 || (place == 1 && kind == 6))
                    explore(("macro-" + std::to_string(place) + "-" + std::to_string(kind)).c_str(), [=] {
                        qobject(place, kind, "", {}, "main.cpp", place == 6 ? 2 : 1);
                    });
        static const char *const FILES[] = {"main.cpp", "main.cc", "a.b.cpp", "main.cpp.h"};
        unsigned n = 0;
        for (auto &[shape, lens] : std::vector<std::pair<std::string, std::vector<unsigned>>>{{"q", {8}}, {"a", {8}}, {"h", {8}}, {"q", {7}}, {"qq", {8, 5}}, {"aq", {8, 8}}, {"", {}}})
            for (auto *f : FILES)
                if (deep || n++ % 2 == 0 || f == FILES[0])
                    explore(("moc-" + shape + "-" + f).c_str(), [=, shape = shape, lens = lens] {
                        qobject(3 + 3 * (n % 2), n % 6, shape, lens, f, lens.empty() ? 3 : 0);
                    });
        rt_expect_reach("two classes");
        rt_expect_reach("one class");
        rt_expect_reach("moc is there");
        rt_expect_reach("in a header");
    }
    rt_finish();
}
