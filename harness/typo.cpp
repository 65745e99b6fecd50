// ifndef-define-typo: which definitions after an #ifndef look like typos.
#include "h.h"
#include <map>
using namespace h;

namespace
{
// the directives; a..c: names
const char *TEMPLATES[] = {
    "#ifndef a\n#define b\n#endif\n",
    "#ifndef a\n#define b\n#define c\n#endif\n#define b2\n",
    "#ifndef a\n#else\n#endif\n#define b\n",
    "#ifndef a\n#if defined(b)\n#endif\n#define c\n#endif\n",
    "#ifndef a\n#ifndef c\n#define b\n#endif\n#define c\n#endif\n",
    "#ifndef c\n#endif\n#ifndef a\n\n#define b(x) x\n#endif\n#define c\n",
    "#ifndef a\n#ifdef c\n#endif\n#define b\n#endif\n",
    "#define b\n#ifndef a\n#endif\n",
    "#if !defined(a)\n#define b\n#endif\n",
    "#ifndef a\n#undef c\n#define b\n#if 0\n#elif 1\n#define c\n#endif\n#endif\n",
};
struct Event {
    char kind; // 'n' ifndef, 'd' define, 'c' everything that ends what an ifndef began
    char name;
    size_t at;
};

uint8_t least(uint8_t a, uint8_t b)
{
    return b ^ ((a ^ b) & (uint8_t) - (uint8_t)(a < b));
}
uint8_t distance(const std::string &a, const std::string &b)
{
    std::vector<uint8_t> row(b.size() + 1);
    for (size_t j = 0; j <= b.size(); ++j)
        row[j] = j;
    for (size_t i = 1; i <= a.size(); ++i) {
        uint8_t diagonal = row[0];
        row[0] = i;
        for (size_t j = 1; j <= b.size(); ++j) {
            uint8_t old = row[j], d = (uint8_t)(a[i - 1] ^ b[j - 1]);
            uint8_t differ = (uint8_t)(d != 0);
            row[j] = least(least(row[j] + 1, row[j - 1] + 1), diagonal + differ);
            diagonal = old;
        }
    }
    return row[b.size()];
}

// symA, symB: how many bytes at the end of the names are inputs
void check(const char *tmpl, std::string a, unsigned symA, std::string b, unsigned symB)
{
    std::map<char, std::string> names = {{'a', "Za" + std::string(a.size() - 2, 'a')}, {'b', "Zb" + std::string(b.size() - 2, 'b')}, {'c', "OtherThing"}};
    std::string code;
    std::vector<Event> events;
    for (const char *line = tmpl; *line;) {
        std::string l(line, strchr(line, '\n') - line);
        line += l.size() + 1;
        auto starts = [&](const char *w) {
            return l.rfind(w, 0) == 0;
        };
        char kind = starts("#ifndef") ? 'n' : starts("#define") ? 'd' : starts("#undef") || l.empty() ? 0 : 'c', name = 0;
        size_t at = 0;
        size_t p = l.find("defined(");
        if (p != std::string::npos)
            p += 8;
        else if (starts("#ifndef ") || starts("#define "))
            p = 8;
        else if (starts("#ifdef ") || starts("#undef "))
            p = 7;
        if (p != std::string::npos) {
            name = l[p];
            at = code.size() + p;
            std::string n = names[name];
            if (l[p + 1] == '2')
                l.erase(p + 1, 1);
            l = l.substr(0, p) + n + l.substr(p + 1);
        }
        if (l.find("defined(") != std::string::npos)
            events.push_back({'d', name, at});
        if (kind)
            events.push_back({kind, name, at});
        code += l + "\n";
    }
    TU tu;
    tu.file = "code.cpp";
    tu.args = {"-w"};
    tu.replay = true;
    tu.code = code;
    tu.checks = {byName("ifndef-define-typo")};
    withTU(tu, [&](Env &env) {
        auto name = [&](char which, const std::string &text, unsigned sym) {
            std::string ph = names[which];
            char *p = const_cast<char *>(env.ci->getPreprocessor().getIdentifierInfo(ph)->getNameStart());
            memcpy(p, text.data(), text.size());
            if (sym)
                rt_make_symbolic(p + text.size() - sym, sym, which == 'a' ? "tested" : "defined");
            for (unsigned i = text.size() - sym; i < text.size(); ++i)
                SYM_ASSUME(ccIdent(p[i]));
            names[which] = std::string(p, text.size());
        };
        name('a', a, symA);
        name('b', b, symB);
        env.replay();

        int last = 0;
        bool active = false, right = true;
        unsigned expected = 0;
        for (auto &e : events)
            if (e.kind == 'n')
                last = e.name, active = true;
            else if (e.kind == 'c')
                active = false;
            else {
                std::string n = names[e.name], l = last ? names[last] : "";
                bool same = eq(n, l), typo = active & !same & !eq(l, "Q_CONSTRUCTOR_FUNCTION") & (n.size() >= 4);
                if (last)
                    typo &= distance(n, l) < 3;
                active &= !same;
                bool seen = false;
                for (auto &r : env.reported)
                    if (env.sm().getFileOffset(r.loc) == e.at) {
                        seen = true;
                        std::string want = "Possible typo in define. " + l + " vs " + n;
                        right &= r.message.size() >= want.size() && eq(r.message.substr(0, want.size()), want);
                    }
                right &= seen == typo;
                expected += typo;
            }
        SYM_ASSERT(right, "a similar, but different name defined after #ifndef is reported, with both names");
        SYM_ASSERT(expected == env.reported.size(), "nothing else is");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    allow("__cxa_atexit", "registers a destructor");
    allow("5Lexer3Lex", "the names' length is fixed");
    allow("5LexerC", "as above");
    allow("libclang-cpp.so", "the chain of preprocessor callbacks passes events on");
    allow("PPCallbacks", "as above");
    auto run = [&](unsigned t, const std::string &a, unsigned sa, const std::string &b, unsigned sb) {
        explore((std::to_string(t) + "-" + a + "-" + std::to_string(sa) + "-" + b + "-" + std::to_string(sb)).c_str(), [=] {
            check(TEMPLATES[t], a, sa, b, sb);
        });
    };
    const unsigned T = sizeof TEMPLATES / sizeof *TEMPLATES;
    for (unsigned t = 0; t < T; ++t) {
        run(t, "ABCDEF", 0, "ABCDEF", t ? 2 : 3);
        run(t, "ABCDE", 2, "ABCDEF", 1);
        run(t, "BUFFER_ARB", 1, "BUFFERARB", 2);
        run(t, "BCD", 0, "BCDE", t == 0 || deep ? 4 : 2);
        run(t, "BCDE", 2, "BCD", 1);
        run(t, "Q_CONSTRUCTOR_FUNCTION", 1, "Q_CONSTRUCTOR_FUNCTIOM", 1);
        if (!deep && t)
            continue;
        run(t, "ABCD", 0, "WXYZ", 4);
        run(t, "ABCDEFG", 0, "ABCD", 3);
        run(t, "ABCD", 0, "BCDEF", deep ? 5 : 4);
        run(t, "AABAA", 0, "BABAB", deep ? 5 : 4);
        run(t, "GL_FRAMEBUFFER_SRG", 3, "GL_FRAMEBUFFER_SRGB", 2);
    }
    rt_expect_reach("silent");
    rt_expect_reach("reported");
    rt_finish();
}
