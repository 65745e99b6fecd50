// incorrect-emit: which calls are emissions, whatever stands between the keyword and the call, and which of them are reported.
#include "h.h"
#include <map>
using namespace h;

namespace
{
// E: the keyword (a macro); ^: a gap; !: where the call begins; S: a signal, T: a slot, P: neither
struct Call {
    const char *code;
    bool signal, keyword, own; // own: through this, without an expression
};
const Call CALLS[] = {
    {"E^!S();", true, true, true},
    {"E^!this->S();", true, true, true},
    {"E^(!S());", true, true, true},
    {"E(^!a->S());", true, true, false},
    {"E^!(a)->S();", true, true, false},
    {"E ^!(*a).S();", true, true, false},
    {"E^((!(a)->S()));", true, true, false},
    {"E^!((^a))->S();", true, true, false},
    {"E^!a->self()->S();", true, true, false},
    {"E^!((a)->self())->S();", true, true, false},
    {"E^!Cls::S();", true, true, true},
    {"E^!(a ? a : this)->S();", true, true, false},
    {"if (a) E^!S(); else E^!a->S();", true, true, true},
    {"E^!a->T();", false, true, false},
    {"E^!P();", false, true, false},
    {"E^(!(a)->P());", false, true, false},
    {"!S();", true, false, true},
    {"!a->S();", true, false, false},
    {"!(a)->S();", true, false, false},
    {"(E^!S()), !S();", true, true, true},
    {"!T();", false, false, false},
    {"E; !(a)->P();", false, false, false},
    {"a->take(E); !S();", true, false, true},
    {"auto l = [this, a] { E^!S(); }; l();", true, true, false},
    {"fire ^!S();", true, true, true},
};
enum Where { Function, Constructor, Destructor, Outside, OtherClass, Wheres };

bool blank(unsigned char c)
{
    return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\v');
}

void check(const std::vector<unsigned> &which, Where where, unsigned len, unsigned layout)
{
    const char *GAP[] = {" ", "   ", "/*cc*/\n ", "\n  //cc\n  ", ""};
    std::string macro = "Zq" + std::string(len - 2, 'k');
    std::string pre = "#define " + macro + "\n#define fire " + macro + "\n";
    pre += "#define signals public\n#define slots\nstruct QObject { virtual ~QObject(); };\n";
    std::string cls = "class Cls : public QObject {\nsignals:\n void sig();\npublic slots:\n void slot();\npublic:\n void take();\n Cls *self();\n void plain();\n Cls(Cls *);\n ~Cls();\n void func(Cls *);\n";
    std::string open = where == Function ? " void other(Cls *a) {\n" : where == Constructor ? " Cls(Cls *a, int) {\n" : where == Destructor ? " void destroy(Cls *a) {\n" : "", body;
    std::string begin = where == Outside ? "};\nvoid Cls::func(Cls *a) {\n" : where == OtherClass ? "};\nCls::Cls(Cls *a) {\n" : open;
    struct Seen {
        size_t at;
        const Call *call;
        bool second;
    };
    std::vector<Seen> seen;
    std::vector<size_t> gaps, uses;
    std::vector<bool> bare;
    for (unsigned w : which) {
        unsigned n = 0;
        for (const char *p = CALLS[w].code; *p; ++p)
            switch (*p) {
            case 'E':
                uses.push_back(body.size());
                body += macro;
                if (p[1] == ';' || p[1] == ')')
                    break;
                if (p[1] == '^' && layout == 4 && p[2] != '(' && !(p[2] == '!' && p[3] == '('))
                    body += " ";
                break;
            case '^':
                gaps.push_back(body.size());
                body += GAP[layout];
                break;
            case '!':
                seen.push_back({body.size(), &CALLS[w], n++ > 0});
                break;
            case 'S':
                body += "sig";
                break;
            case 'T':
                body += "slot";
                break;
            case 'P':
                body += "plain";
                break;
            default:
                body += *p;
            }
        body += "\n";
    }
    TU tu;
    tu.replay = true;
    tu.file = "code.cpp";
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName("incorrect-emit")};
    size_t base = pre.size() + cls.size() + begin.size();
    tu.code = pre + cls + begin + body + "}\n" + (where == Outside || where == OtherClass ? "" : "};\n");
    withTU(tu, [&](Env &env) {
        auto &sm = env.sm();
        char *buf = const_cast<char *>(sm.getBufferData(sm.getMainFileID()).data());
        char *p = env.identifier(macro, "macro");
        for (unsigned k = 0; k < len; ++k)
            SYM_ASSUME(ccIdent(p[k]));
        std::string now(p, len);
        SYM_ASSUME(!ccDigit(now[0]) & !eq(now, "signals") & !eq(now, "slots") & !eq(now, "Q_SLOTS") & !eq(now, "Q_SIGNALS") & !eq(now, "Q_SIGNAL") & !eq(now, "Q_SLOT") & !eq(now, "Q_INVOKABLE") & !eq(now, "Q_SCRIPTABLE") & !eq(now, "QT_NAMESPACE") & !eq(now, "fire"));
        for (size_t u : uses)
            memcpy(buf + base + u, now.data(), len);
        for (size_t g : gaps)
            if (layout == 1) {
                rt_make_symbolic(buf + base + g, 3, "blanks");
                for (unsigned k = 0; k < 3; ++k)
                    SYM_ASSUME(blank(buf[base + g + k]));
            } else if (layout == 2 || layout == 3) {
                char *c = strstr(buf + base + g, "cc");
                rt_make_symbolic(c, 2, "comment");
                SYM_ASSUME(ccPrint(c[0]) & ccPrint(c[1]) & (c[0] != '\\') & (c[1] != '\\') & (c[0] != '*') & (c[0] != '/') & (c[0] != '?') & (c[1] != '*') & (c[1] != '?') & (c[1] != '/'));
            }
        env.replay();
        env.run();
        const bool emit = eq(now, "emit") | eq(now, "Q_EMIT");
        bool right = true;
        unsigned expected = 0;
        for (auto &s : seen) {
            bool keyword = emit & s.call->keyword;
            if (!strncmp(s.call->code, "(E", 2) && s.second)
                keyword = false;
            bool inConstructor = (where == Constructor || where == OtherClass) && s.call->signal && s.call->own;
            if (s.second && !strncmp(s.call->code, "if", 2))
                inConstructor = false;
            bool missing = false, wrong = false, useless = false;
            for (auto &r : env.reported)
                if (sm.getFileOffset(sm.getFileLoc(r.loc)) == base + s.at) {
                    missing |= r.message.rfind("Missing emit keyword on signal call Cls::sig", 0) == 0;
                    wrong |= r.message.rfind(std::string("Emit keyword being used with non-signal Cls::") + (strchr(s.call->code, 'T') ? "slot" : "plain"), 0) == 0;
                    useless |= r.message.rfind("Emitting inside constructor", 0) == 0;
                }
            right &= missing == (s.call->signal & !keyword);
            right &= wrong == (!s.call->signal & keyword);
            right &= useless == inConstructor;
            expected += (s.call->signal & !keyword) + (!s.call->signal & keyword) + inConstructor;
        }
        SYM_ASSERT(right, "emissions are signals called with the keyword right before the call");
        SYM_ASSERT(expected == env.reported.size(), "nothing else is reported");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    for (const char *s : {"5Lexer3Lex", "5LexerC", "5Lexer11getRawToken", "5Lexer13findNextToken", "5Lexer"})
        allow(s, "does not depend on the symbolic bytes: they stay inside identifiers, comments and blanks");
    allow("libclang-cpp.so", "the chain of preprocessor callbacks passes events on");
    allow("PPCallbacks", "as above");
    allow("getQualifiedNameAsString", "modelled: symbolic names are put back into what it returns");
    allow("getAsString", "as above");
    allow("__cxa_atexit", "registers a destructor");
    const unsigned N = sizeof CALLS / sizeof *CALLS;
    for (unsigned c = 0; c < N; ++c)
        for (unsigned w = 0; w < Wheres; ++w)
            for (unsigned l = 0; l < 5; ++l)
                for (unsigned len = 4; len <= 6; ++len) {
                    if (!deep && (len == 5 ? c || l : len == 6 ? (c + l) % 5 || w != c % Wheres : w != (c + l) % Wheres))
                        continue;
                    if (!strchr(CALLS[c].code, '^') && l)
                        continue;
                    explore((std::to_string(c) + "-" + std::to_string(w) + "-" + std::to_string(l) + "-" + std::to_string(len)).c_str(), [=] {
                        check({c, (c + 7) % (unsigned)(sizeof CALLS / sizeof *CALLS)}, (Where)w, len, l);
                    });
                }
    rt_expect_reach("silent");
    rt_expect_reach("reported");
    rt_finish();
}
