// What the checks read in Q_PROPERTY: qproperty-without-notify and qproperty-type-mismatch.
#include "h.h"
using namespace h;

namespace
{
bool blank(char c)
{
    return (c == ' ') | ((c >= '\t') & (c <= '\r'));
}
bool wordByte(unsigned char c)
{
    return (c > ' ') & (c < 127) & (c != '(') & (c != ')') & (c != '"') & (c != '\'') & (c != '/') & (c != ',') & (c != '\\') & (c != '#');
}
SourceLocation at(Env &env, llvm::StringRef needle, FileID f)
{
    size_t p = env.sm().getBufferData(f).find(needle);
    if (p == llvm::StringRef::npos) {
        fprintf(stderr, "harness: no '%s'\n", needle.str().c_str());
        exit(4);
    }
    return env.sm().getLocForStartOfFile(f).getLocWithOffset(p);
}
// makes the words and blanks of a Q_PROPERTY's text inputs
std::vector<std::string> words(char *text, const std::vector<unsigned> &lens, unsigned gap, bool lead, bool trail, unsigned concreteWords)
{
    std::vector<std::string> r;
    char *p = text;
    auto blanks = [&](unsigned n) {
        if (!n)
            return;
        rt_make_symbolic(p, n, "blank");
        for (unsigned i = 0; i < n; ++i)
            SYM_ASSUME(blank(p[i]));
        p += n;
    };
    blanks(lead);
    for (unsigned i = 0; i < lens.size(); ++i) {
        if (i)
            blanks(gap);
        if (i >= concreteWords) {
            rt_make_symbolic(p, lens[i], "word");
            for (unsigned k = 0; k < lens[i]; ++k)
                SYM_ASSUME(wordByte(p[k]));
        }
        r.push_back(std::string(p, lens[i]));
        p += lens[i];
    }
    blanks(trail);
    return r;
}
std::string textOf(const std::vector<unsigned> &lens, unsigned gap, bool lead, bool trail)
{
    std::string t(lead, ' ');
    for (unsigned i = 0; i < lens.size(); ++i)
        t += (i ? std::string(gap, ' ') : "") + std::string(lens[i], (char)('a' + i));
    return t + std::string(trail, ' ');
}

// kinds: 0 user code, 1 system header
void notify(const std::vector<unsigned> &lens, unsigned gap, bool lead, bool trail, unsigned first, unsigned second, bool system)
{
    const std::string m1(first, 'M'), m2(second, 'N'), prop(10, 'P'), text = textOf(lens, gap, lead, trail);
    std::string code = "class A {\n";
    if (first)
        code += "  " + m1 + "\n";
    if (second)
        code += "  " + m2 + "\n";
    code += "  " + prop + "(" + text + ")\n};\n";
    TU tu;
    tu.replay = true;
    tu.code = "#define " + prop + "(...)\n" + (first ? "#define " + m1 + "\n" : "") + (second ? "#define " + m2 + "\n" : "");
    tu.files = {{"/sys/s.h", code}};
    tu.args.push_back("-isystem/sys");
    tu.code += system ? "#include <s.h>\n" : code;
    tu.checks = {byName("qproperty-without-notify")};
    withTU(tu, [&](Env &env) {
        FileID f = env.sm().getMainFileID();
        if (system)
            f = env.sm().translateFile(*env.ci->getFileManager().getOptionalFileRef("/sys/s.h"));
        SourceLocation l = at(env, "  " + prop + "(", f).getLocWithOffset(2);
        auto w = words(const_cast<char *>(env.sm().getCharacterData(l)) + prop.size() + 1, lens, gap, lead, trail, 1);
        std::string p(env.identifier(prop, "property"), 10);
        bool gadget = false;
        if (first) {
            std::string m(env.identifier(m1, "first"), first);
            gadget = eq(m, "Q_GADGET");
        }
        if (second) {
            std::string m(env.identifier(m2, "second"), second);
            gadget = eq(m, "Q_GADGET") | (gadget & !eq(m, "Q_OBJECT"));
        }
        env.replay();
        bool read = false, quiet = false;
        for (unsigned i = 1; i < w.size(); ++i) {
            read |= eq(w[i], "READ");
            quiet |= eq(w[i], "NOTIFY") | eq(w[i], "CONSTANT");
        }
        bool warn = !system & eq(p, "Q_PROPERTY") & !gadget & read & !quiet;
        SYM_ASSERT(env.reported.size() == warn, "qproperty-without-notify reports properties with READ and neither NOTIFY nor CONSTANT, but not those of gadgets");
        SYM_ASSERT(env.reported.empty() || env.reported[0].loc == l, "qproperty-without-notify points at the property");
        if (warn)
            rt_reach("warned");
        if (eq(p, "Q_PROPERTY") & read & quiet)
            rt_reach("notifies");
        if (eq(p, "Q_PROPERTY") & gadget)
            rt_reach("gadget");
    });
}

// The property's type is written as name plus mods, the functions' types are those of the two classes and the typedef.
struct Written {
    const char *text; // T: the type's name; n: the property's name
    const char *mods;
};
const Written WRITTEN[] = {{"T n", ""}, {"T* n", "*"}, {"T *n", "*"}, {"T * n", "*"}, {"T & n", "&"}, {"T **n", "**"}, {"T * * n", "**"}, {" T n ", ""}};
const char *const USED[] = {"T", "const T&", "T*", "T&", "const T", "T**", "const T*", "U"};
const char *const USEDMODS[] = {"", "", "*", "", "", "**", "?", ""};

void mismatch(unsigned written, unsigned read, unsigned write, unsigned notify, unsigned params, unsigned form, unsigned subject)
{
    TU tu;
    tu.replay = true;
    auto type = [](unsigned k) {
        std::string r = USED[k];
        size_t p = r.find_first_of("TU");
        return r.replace(p, 1, r[p] == 'T' ? "tttt" : "uuuu");
    };
    std::string text = WRITTEN[written].text;
    text.replace(text.find('T'), 1, "wwww");
    text.replace(text.find('n', text.find("wwww") + 4), 1, "nnnn");
    text += text.back() == ' ' ? "" : " ";
    text += form == 0 ? "READ rrrr WRITE eeee NOTIFY oooo" : form == 1 ? "READ rrrr\n NOTIFY\toooo\n WRITE  eeee CONSTANT" : form == 2 ? "MEMBER  mmmm RESET READ rrrr " : "READ rrrr MEMBER ";
    auto params_ = [&](unsigned n, unsigned t) {
        return n == 0 ? std::string() : n == 1 ? type(t) : n == 2 ? type(t) + ", int" : type(t) + ", int, int";
    };
    tu.code = "#define Q_PROPERTY(...)\nstruct tttt {};\nstruct uuuu {};\ntypedef tttt vvvv;\nstruct C {\n  Q_PROPERTY(" + text + ")\n  " + type(read) + " aaaa();\n  void bbbb(" + params_(params % 4, write) + ");\n  void cccc("
        + params_(params / 4, notify) + ");\n  " + type(read) + " dddd;\n  C();\n};\nstruct D {\n  uuuu *aaaa();\n  void bbbb(uuuu *);\n  void cccc(uuuu*);\n  uuuu *dddd;\n};\n";
    tu.checks = {byName("qproperty-type-mismatch")};
    withTU(tu, [&](Env &env) {
        char *b = const_cast<char *>(env.sm().getCharacterData(at(env, "Q_PROPERTY(" + text, env.sm().getMainFileID())));
        auto word = [&](const char *what, const char *name) {
            char *p = b + ("Q_PROPERTY(" + text).find(what);
            rt_make_symbolic(p, 4, name);
            for (unsigned i = 0; i < 4; ++i)
                SYM_ASSUME(ccIdent(p[i]));
            return std::string(p, 4);
        };
        const bool hasWN = form < 2;
        std::string m = form == 2 ? word("mmmm", "MEMBER") : "";
        std::string r = word("rrrr", "READ"), e = hasWN ? word("eeee", "WRITE") : "", o = hasWN ? word("oooo", "NOTIFY") : "", n = word("nnnn", "name"), t = word("wwww", "type");
        const std::string T = "tttt", U = "uuuu", V = "vvvv";
        SYM_ASSUME(!eq(t, "void")); // (which the setter returns)
        // (the other members are not the property's)
        auto member = [&](unsigned k, const char *what) {
            if (k == subject)
                return std::string(env.identifier(what, "member"), 4);
            SYM_ASSUME(!eq(r, what) & !eq(n, what) & (hasWN ? !eq(e, what) & !eq(o, what) : true) & !eq(m, what));
            return std::string(what);
        };
        std::string a = member(0, "aaaa"), bb = member(1, "bbbb"), c = member(2, "cccc"), d = member(3, "dddd");
        SYM_ASSUME(!eq(r, e) & !eq(r, o) & (hasWN ? !eq(e, o) : true));
        SYM_ASSUME(!eq(r, "READ") & !eq(n, "READ") & !eq(t, "READ"));
        env.replay();
        env.run();
        auto differs = [&](unsigned k) {
            const std::string &A = USED[k][0] == 'U' ? U : T;
            bool same = (eq(t, A) | (USED[k][0] == 'U' ? false : eq(t, V) & (strlen(USEDMODS[k]) == 0))) & (std::string(USEDMODS[k]) == WRITTEN[written].mods);
            return !same;
        };
        auto expected = [&](const std::string &name, bool ret, unsigned retType, unsigned n, unsigned parm) {
            bool isRead = eq(name, r), isWrite = hasWN && eq(name, e), isNotify = hasWN && eq(name, o);
            bool retBad = ret ? differs(retType) : true; // (void)
            bool parmBad = n && differs(parm);
            return (isRead & retBad) | (!isRead & isWrite & (n == 0 ? true : n == 1 ? parmBad : false)) | (!isRead & !isWrite & isNotify & (n == 1 || n == 2 ? parmBad : false));
        };
        bool wa = expected(a, true, read, 0, 0), wb = expected(bb, false, 0, params % 4, write), wc = expected(c, false, 0, params / 4, notify);
        bool wd = form >= 2 && (eq(d, form == 2 ? m : n) & differs(read)); // (a MEMBER without a name means the property's)
        unsigned na = 0, nb = 0, nc = 0, nd = 0, other = 0;
        for (auto &x : env.reported) {
            unsigned line = env.line(x.loc) - (form == 1 ? 2 : 0);
            line == 7 ? ++na : line == 8 ? ++nb : line == 9 ? ++nc : line == 10 ? ++nd : ++other;
        }
        SYM_ASSERT((na == wa) & (nb == wb) & (nc == wc) & (nd == wd) & (other == 0), "qproperty-type-mismatch reports exactly the members named by the property whose type is another one");
        if (na)
            rt_reach("read");
        if (nb)
            rt_reach("write");
        if (nc)
            rt_reach("notify");
        if (nd)
            rt_reach("member");
        if (eq(a, r) & !wa)
            rt_reach("match");
    });
}

// any text at all is read without reading past it
void anyText(unsigned before, unsigned n, bool spaces)
{
    TU tu;
    tu.replay = true;
    tu.code = "#define Q_PROPERTY(...)\nstruct C {\n  Q_PROPERTY" + std::string(before, ' ') + "(" + std::string(n, 'a') + ")\n int aaaa();\n};\n";
    tu.checks = {byName("qproperty-type-mismatch"), byName("qproperty-without-notify")};
    withTU(tu, [&](Env &env) {
        char *b = const_cast<char *>(env.sm().getCharacterData(at(env, "  Q_PROPERTY", env.sm().getMainFileID()))) + 2 + 10 + before + 1;
        rt_make_symbolic(b, n, "text");
        for (unsigned i = 0; i < n; ++i)
            SYM_ASSUME((b[i] != '"') & (b[i] != '\'') & (b[i] != '/') & (b[i] != '\\') & (b[i] != 0));
        if (spaces)
            for (unsigned i = 0; i < n; ++i)
                SYM_ASSUME(blank(b[i]) | (b[i] == '*') | (b[i] == '&') | (b[i] == 'x'));
        env.replay();
        env.run();
        SYM_ASSERT(env.reported.empty(), "a Q_PROPERTY that names nothing is not reported");
        rt_reach("read to the end");
    });
}
}

int main()
{
    allow("5Lexer13getSourceText", "slices the buffer");
    allow("5Lexer14getAsCharRange", "the last token is concrete");
    allow("getAsString", "modelled: symbolic names are put back into what it returns");
    allow("getQualifiedNameAsString", "as above");
    allow("libclang-cpp.so", "hands events on");
    allow("PPCallbacks", "hands events on");
    allow("5LexerC", "reads the file for comments");
    allow("5Lexer3Lex", "as above");
    const bool deep = rt_param("deep", 0);
    const unsigned family = rt_param("family", 9);
    if (family == 9 || family == 0) {
        const std::vector<std::vector<unsigned>> LENS = {{3, 1, 4, 4}, {3, 1, 4, 1, 8}, {3, 1, 4, 1, 6, 1}, {3, 1, 4, 1, 5, 6, 6}, {3, 4}, {3}, {3, 1, 8, 4, 4}, {3, 1, 6, 6, 4, 4, 8}};
        unsigned i = 0;
        for (auto &l : LENS)
            for (unsigned gap = 1; gap <= 2; ++gap)
                for (unsigned first : {0u, 8u})
                    for (unsigned second : {0u, 8u}) {
                        ++i;
                        if (!deep && i % 3)
                            continue;
                        for (unsigned lt = 0; lt < 4; ++lt)
                            if (deep || lt == i % 4)
                                explore(("notify-" + std::to_string(&l - LENS.data()) + "-" + std::to_string(gap) + "-" + std::to_string(first) + "-" + std::to_string(second) + "-" + std::to_string(lt)).c_str(), [=] {
                                    notify(l, gap, lt & 1, lt & 2, first, second, i % 7 == 0);
                                });
                    }
        rt_expect_reach("warned");
        rt_expect_reach("notifies");
        rt_expect_reach("gadget");
    }
    if (family == 9 || family == 1) {
        unsigned i = 0;
        for (unsigned w = 0; w < 8; ++w)
            for (unsigned u = 0; u < 8; ++u)
                for (unsigned subject = 0; subject < 4; ++subject)
                    for (unsigned form = 0; form < 4; ++form, ++i)
                        if (deep || ((subject == 3 ? 2 + (w + u / 2) % 2 : (w + u / 2 + subject) % 2) == form && (w + u) % 2 == 0))
                            explore(("mismatch-" + std::to_string(w) + "-" + std::to_string(u) + "-" + std::to_string(subject) + "-" + std::to_string(form)).c_str(), [=] {
                                mismatch(w, u, u, u, (i * 7 + 5) % 16, form, subject);
                            });
        rt_expect_reach("read");
        rt_expect_reach("write");
        rt_expect_reach("notify");
        rt_expect_reach("member");
        rt_expect_reach("match");
    }
    if (family == 9 || family == 2) {
        for (unsigned n = 0; n <= (deep ? 6 : 4); ++n)
            for (unsigned before = 0; before < 2; ++before)
                explore(("text-" + std::to_string(n) + "-" + std::to_string(before)).c_str(), [=] {
                    anyText(before, n, n > 2);
                });
        rt_expect_reach("read to the end");
    }
    rt_finish();
}
