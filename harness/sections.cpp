// Which methods are signals, slots and invokables: sections and annotations of a QObject, as const-signal-or-slot and
// fully-qualified-moc-types see them.
#include "h.h"
using namespace h;

namespace
{
// one character per part of a class:
//   m: a method; x: a method whose definition follows the class; P: "public:"; V: "private:"
//   s: a macro that expands to "public" and ':'; t: "public", a macro and ':'; p: "private", a macro and ':'
//   a: an annotated method; v: an annotated method that is virtual
struct Shape {
    const char *parts;
    const char *names[4]; // the macros, in order
    unsigned symbolic; // which of them is an input
};
const Shape SHAPES[] = {
    {"msmPmtmVm", {"Q_SIGNALS", "Q_SLOTS"}, 0},
    {"msmPmtmVm", {"Q_SIGNALS", "Q_SLOTS"}, 1},
    {"mtmsmpmPm", {"slots", "signals", "Q_SLOTS"}, 0},
    {"mtmsmpmPm", {"slots", "signals", "Q_SLOTS"}, 1},
    {"mtmsmpmPm", {"slots", "signals", "Q_SLOTS"}, 2},
    {"ammsamPam", {"Q_SLOT", "signals", "Q_INVOKABLE", "Q_SIGNAL"}, 0},
    {"ammsamPam", {"Q_SLOT", "signals", "Q_INVOKABLE", "Q_SIGNAL"}, 1},
    {"ammsamPam", {"Q_SLOT", "signals", "Q_INVOKABLE", "Q_SIGNAL"}, 2},
    {"ammsamPam", {"Q_SLOT", "signals", "Q_INVOKABLE", "Q_SIGNAL"}, 3},
    {"tmamxVvm", {"Q_SLOTS", "Q_SCRIPTABLE", "Q_SIGNAL"}, 1},
    {"tmamxVvm", {"Q_SLOTS", "Q_SCRIPTABLE", "Q_SIGNAL"}, 2},
    {"smaxtamPx", {"signals", "Q_SCRIPTABLE", "slots", "Q_INVOKABLE"}, 1},
    {"smaxtamPx", {"signals", "Q_SCRIPTABLE", "slots", "Q_INVOKABLE"}, 3},
};
// how the class comes to be one (or not one) with signals and slots
enum Around { Plain, Derived, NotQObject, Namespaced, Declared, Two, Local, OddNamespace, Gadget, Follow, Arounds };

struct Kind {
    bool signal = false, slot = false;
};
bool blank(unsigned char c)
{
    return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\v');
}

// layout of annotations: 0 " ", 1 three symbolic blanks, 2 comment and newline, 3 newline and line comment
void check(const Shape &shape, unsigned len, Around around, unsigned layout)
{
    const char *GAP[] = {" ", "   ", "/*cc*/\n ", "\n  //cc\n  "};
    std::vector<std::string> names;
    std::string defs, cls, after;
    struct Method {
        size_t at; // in cls
        size_t argument;
        int annotation; // which macro
    };
    std::vector<Method> methods;
    std::vector<size_t> gaps, uses;
    unsigned macro = 0;
    auto next = [&](bool expandsToPublic) {
        std::string n = macro == shape.symbolic ? "Zq" + std::string(len - 2, 'k') : "Zq" + std::string(1, (char)('a' + macro)) + std::string(strlen(shape.names[macro]) - 3, 'q');
        names.push_back(n);
        ++macro;
        defs += "#define " + n + (expandsToPublic ? " public\n" : "\n");
        return n;
    };
    for (const char *p = shape.parts; *p; ++p) {
        int annotation = -1;
        switch (*p) {
        case 'P':
            cls += "public:\n";
            continue;
        case 'V':
            cls += "private:\n";
            continue;
        case 's':
        case 't':
        case 'p': {
            std::string n = next(*p == 's');
            cls += *p == 't' ? "public " : *p == 'p' ? "private " : "";
            uses.push_back(cls.size());
            cls += n + ":\n";
            continue;
        }
        case 'a':
        case 'v':
            annotation = macro;
            uses.push_back(cls.size());
            cls += "  " + next(false);
            uses.back() += 2;
            gaps.push_back(cls.size());
            cls += GAP[layout];
        }
        std::string name = "me" + std::to_string(methods.size());
        Method m;
        m.annotation = annotation;
        m.at = cls.size();
        cls += *p == 'v' ? "virtual int " : "int ";
        cls += name + "(";
        m.argument = cls.size();
        cls += "My) const;\n";
        if (*p == 'x')
            after += "int Cls::" + name + "(My) const { return 1; }\n";
        methods.push_back(m);
    }
    std::string pre = "namespace n { struct My {};\n";
    std::string root = around == NotQObject ? "QObjec" : "QObject", ns(12, 'N');
    if (around == Namespaced)
        pre = "#define " + ns + " qtns\nnamespace qtns { struct QObject { virtual ~QObject(); }; }\nusing namespace qtns;\n" + pre;
    else
        pre = "struct " + root + " { virtual ~" + root + "(); };\n" + pre;
    if (around == OddNamespace)
        pre = "#define " + ns + (layout == 0 ? " 123\n" : layout == 1 ? "\n" : layout == 2 ? " qtns qtns\n" : " \"qtns\"\n") + pre;
    pre += defs;
    if (around == Derived)
        pre += "struct Base : " + root + " {};\n";
    if (around == Declared)
        pre += "class Cls;\nvoid use(Cls *);\n";
    if (around == Two)
        pre += std::string("struct Other : QObject {\n") + (shape.parts[1] == 's' ? "" : "public ") + names[0] + ":\n int other(My) const;\n};\n";
    if (around == Gadget)
        pre += std::string("struct Other {\n") + (shape.parts[1] == 's' ? "" : "public ") + names[0] + ":\n int other(My) const;\n};\n";
    if (around == Follow)
        after += std::string("struct Other : QObject {\n") + (shape.parts[1] == 's' ? "" : "public ") + names[0] + ":\n int other(My) const;\n};\n";
    std::string head = std::string("class Cls : public ") + (around == Derived ? "Base" : root) + " {\n";
    if (around == Local)
        pre += "void f() {\n", after = "}\n";
    TU tu;
    tu.replay = true;
    tu.file = "code.cpp";
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName("const-signal-or-slot"), byName("fully-qualified-moc-types")};
    tu.code = pre + head + cls + "};\n" + after + "}\n";
    size_t base = pre.size() + head.size(), other = tu.code.find(" int other(");
    withTU(tu, [&](Env &env) {
        auto &sm = env.sm();
        char *buf = const_cast<char *>(sm.getBufferData(sm.getMainFileID()).data());
        std::vector<std::string> now;
        for (unsigned i = 0; i < macro; ++i) {
            std::string now1 = shape.names[i];
            if (i == shape.symbolic) {
                char *p = env.identifier(names[i], "macro");
                for (unsigned k = 0; k < len; ++k)
                    SYM_ASSUME(ccIdent(p[k]));
                now1 = std::string(p, len);
                SYM_ASSUME(!eq(now1, "QT_NAMESPACE"));
                // in the preprocessor there is one macro of a name
                for (unsigned k = 0; k < macro; ++k)
                    SYM_ASSUME((k == i) | !eq(now1, shape.names[k]));
            } else
                memcpy(const_cast<char *>(env.ci->getPreprocessor().getIdentifierInfo(names[i])->getNameStart()), now1.data(), now1.size());
            memcpy(buf + base + uses[i], now1.data(), now1.size());
            now.push_back(now1);
        }
        for (size_t g : gaps)
            if (layout == 1) {
                rt_make_symbolic(buf + base + g, 3, "blanks");
                for (unsigned k = 0; k < 3; ++k)
                    SYM_ASSUME(blank(buf[base + g + k]));
            } else if (layout) {
                char *p = strstr(buf + base + g, "cc");
                rt_make_symbolic(p, 2, "comment");
                SYM_ASSUME(ccPrint(p[0]) & ccPrint(p[1]) & (p[0] != '\\') & (p[1] != '\\') & (p[0] != '*') & (p[0] != '/') & (p[0] != '?') & (p[1] != '*') & (p[1] != '?') & (p[1] != '/'));
            }
        bool qobject = around != NotQObject;
        if (around == Namespaced || around == OddNamespace) {
            char *p = env.identifier(ns, "namespace macro");
            for (unsigned k = 0; k < 12; ++k)
                SYM_ASSUME(ccIdent(p[k]));
            qobject = around == OddNamespace || eq(std::string(p, 12), "QT_NAMESPACE");
        }
        env.replay();
        env.run();

        bool right = true;
        unsigned expected = 0, signalsSeen = 0, slotsSeen = 0, invokablesSeen = 0, quiet = 0;
        auto method = [&](size_t at, size_t argument, bool signal, bool slot, bool invokable, bool scriptable) {
            bool badSignal = false, badSlot = false, argSignal = false, argSlot = false, argInvokable = false;
            for (auto &r : env.reported) {
                size_t o = sm.getFileOffset(r.loc);
                if (o == at) {
                    badSignal |= r.message.rfind("signal ", 0) == 0;
                    badSlot |= r.message.rfind("getter ", 0) == 0;
                } else if (o == argument) {
                    argSignal |= r.message.rfind("signal arguments", 0) == 0;
                    argSlot |= r.message.rfind("slot arguments", 0) == 0;
                    argInvokable |= r.message.rfind("invokable arguments", 0) == 0;
                }
            }
            right &= badSignal == (signal & !scriptable);
            right &= badSlot == (slot & !scriptable);
            right &= argSignal == signal;
            right &= argSlot == slot;
            right &= argInvokable == invokable;
            expected += (signal | slot) & !scriptable;
            expected += signal | slot | invokable;
            signalsSeen |= argSignal, slotsSeen |= argSlot, invokablesSeen |= argInvokable, quiet |= !argSignal & !argSlot & !argInvokable;
        };
        auto is = [&](unsigned m, const char *a, const char *b = nullptr) -> bool {
            return eq(now[m], a) | (b && eq(now[m], b));
        };
        Kind kind;
        unsigned mac = 0, i = 0;
        for (const char *p = shape.parts; *p; ++p)
            switch (*p) {
            case 'P':
            case 'V':
                kind = {};
                break;
            case 's':
            case 't':
            case 'p':
                kind = {is(mac, "signals", "Q_SIGNALS"), is(mac, "slots", "Q_SLOTS")};
                ++mac;
                break;
            default: {
                auto &m = methods[i++];
                bool signal = kind.signal, slot = kind.slot, invokable = false, scriptable = false;
                if (m.annotation >= 0) {
                    unsigned a = mac++;
                    SYM_ASSUME(!is(a, "signals", "Q_SIGNALS") & !is(a, "slots", "Q_SLOTS"));
                    bool s = is(a, "Q_SIGNAL"), t = is(a, "Q_SLOT");
                    invokable = is(a, "Q_INVOKABLE");
                    scriptable = is(a, "Q_SCRIPTABLE");
                    signal = s | (signal & !t & !invokable);
                    slot = t | (slot & !s & !invokable);
                    // (sections are part of a class with signals and slots; Q_SIGNAL and the like always mean the same)
                    signal &= qobject | s;
                    slot &= qobject | t;
                } else
                    signal &= qobject, slot &= qobject;
                method(base + m.at, base + m.argument, signal, slot, invokable, scriptable);
            }
            }
        if (around == Two || around == Gadget || around == Follow) {
            bool signal = is(0, "signals", "Q_SIGNALS") && around != Gadget, slot = is(0, "slots", "Q_SLOTS") && around != Gadget;
            method(other + 1, other + strlen(" int other("), signal, slot, false, false);
        }
        SYM_ASSERT(right, "signals, slots and invokables are the methods in such a section or with such an annotation");
        SYM_ASSERT(expected == env.reported.size(), "nothing else is reported");
        if (signalsSeen)
            rt_reach("signal");
        if (slotsSeen)
            rt_reach("slot");
        if (invokablesSeen)
            rt_reach("invokable");
        if (quiet)
            rt_reach("none of them");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    allow("5Lexer3Lex", "as below");
    allow("5LexerC", "as below");
    allow("5Lexer11getRawToken", "as below");
    allow("5Lexer13findNextToken", "as below");
    allow("libclang-cpp.so", "the chain of preprocessor callbacks passes events on");
    allow("PPCallbacks", "as above");
    allow("5Lexer", "does not depend on the symbolic bytes: they stay inside identifiers, comments and blanks");
    allow("getQualifiedNameAsString", "modelled: symbolic names are put back into what it returns");
    allow("getAsString", "as above");
    allow("__cxa_atexit", "registers a destructor");
    unsigned n = 0;
    for (unsigned s = 0; s < sizeof SHAPES / sizeof *SHAPES; ++s)
        for (unsigned len = 5; len <= 12; ++len)
            for (unsigned a = 0; a < Arounds; ++a)
                for (unsigned l = 0; l < 4; ++l) {
                    const Shape &shape = SHAPES[s];
                    bool annotations = strpbrk(shape.parts, "av"), section = false;
                    unsigned m = 0;
                    for (const char *p = shape.parts; *p; ++p)
                        if (strchr("stpav", *p) && m++ == shape.symbolic)
                            section = strchr("stp", *p);
                    if (l && !annotations)
                        continue;
                    if (a == Local && strchr(shape.parts, 'x'))
                        continue;
                    if ((a == Two || a == Gadget || a == Follow) && !strchr("stp", shape.parts[1]))
                        continue;
                    bool usual = len == strlen(shape.names[shape.symbolic]);
                    if (section ? len != 5 && len != 7 && len != 9 && !deep : len != 6 && len != 8 && len != 11 && len != 12 && !deep)
                        continue;
                    if (!deep && !(usual && a == (s + l) % Arounds) && !(usual && !l && (a == Two || a >= Gadget)) && !(l == n % 4 && !a) && !(usual && l == 1 && !a))
                        continue;
                    ++n;
                    explore((std::string(shape.parts) + "-" + std::to_string(shape.symbolic) + "-" + std::to_string(len) + "-" + std::to_string(a) + "-" + std::to_string(l)).c_str(), [=, &shape] {
                        check(shape, len, (Around)a, l);
                    });
                }
    rt_expect_reach("signal");
    rt_expect_reach("slot");
    rt_expect_reach("invokable");
    rt_expect_reach("none of them");
    rt_finish();
}
