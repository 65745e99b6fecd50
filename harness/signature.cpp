// connect-not-normalized: signatures assembled from the grammar of C++ types, with arbitrary names and
// blanks; the normal form is known from the way they were assembled.
#include "h.h"
using namespace h;

namespace
{
struct Sig {
    std::string text, normal; // normal: of what was written so far
    std::vector<std::pair<size_t, unsigned>> blanks; // where blanks stand
    unsigned names = 0, gap = 0, nameLen = 2;
    bool symBlanks = true, symNames = true;
    // optional blank (how many, rotates), needed: at least one
    void blank(bool needed = false)
    {
        static const unsigned counts[] = {0, 1, 0, 2, 1};
        unsigned n = counts[gap++ % 5];
        if (needed && !n)
            n = 1;
        for (unsigned i = 0; i < n; ++i) {
            blanks.push_back({text.size(), 1});
            text += ' ';
        }
    }
    std::vector<std::pair<size_t, size_t>> nameAt; // in text, in normal
};
// a name; its letters become arbitrary
void name(Sig &s, std::string &out, size_t base)
{
    std::string n(s.nameLen, 'x');
    s.nameAt.push_back({s.text.size(), base + out.size()});
    s.text += n;
    out += n;
    ++s.names;
}
enum SigDecl { Value, Ref, Ptr, PtrPtr, PtrConst, RRef, Array, Func };
enum Const { No, Front, Back };
struct SigType {
    int base; // index into BASES
    Const c = No;
    SigDecl d = Value;
    std::vector<SigType> args;
};
enum { Ident, Scoped, Template, ScopedTemplate, Struct, Class, Enum, FirstBuiltin };
struct Builtin {
    std::vector<const char *> words;
    const char *normal;
};
const Builtin BUILTINS[] = {{{"unsigned", "int"}, "uint"},
                            {{"unsigned"}, "uint"},
                            {{"unsigned", "long"}, "ulong"},
                            {{"unsigned", "long", "long"}, "unsigned long long"},
                            {{"unsigned", "char"}, "unsigned char"},
                            {{"unsigned", "short"}, "unsigned short"},
                            {{"long", "long"}, "long long"},
                            {{"int"}, "int"}};
const int NBASES = FirstBuiltin + sizeof BUILTINS / sizeof *BUILTINS;

// appends the type to the text; returns its normal form (which will stand at base in the normal text)
std::string type(Sig &s, const SigType &t, bool top, size_t base)
{
    // "const" survives in front of a pointee or inside a template argument list
    bool keepConst = t.c != No && (!top || t.d == Ptr || t.d == PtrPtr || t.d == PtrConst || t.d == Array || t.d == Func);
    std::string out = keepConst ? "const " : "";
    s.blank();
    if (t.c == Front) {
        s.text += "const";
        s.blank(true);
    }
    switch (t.base) {
    case Struct:
    case Class:
    case Enum:
        s.text += t.base == Struct ? "struct" : t.base == Class ? "class" : "enum";
        s.blank(true);
        name(s, out, base);
        break;
    case Ident:
        name(s, out, base);
        break;
    case Scoped:
    case ScopedTemplate:
        name(s, out, base);
        s.blank();
        s.text += "::";
        out += "::";
        s.blank();
        name(s, out, base);
        break;
    case Template:
        name(s, out, base);
        break;
    default: {
        auto &b = BUILTINS[t.base - FirstBuiltin];
        for (size_t i = 0; i < b.words.size(); ++i) {
            if (i)
                s.blank(true);
            s.text += b.words[i];
        }
        out += b.normal;
    }
    }
    if (t.base == Template || t.base == ScopedTemplate) {
        s.blank();
        s.text += "<";
        out += "<";
        for (size_t i = 0; i < t.args.size(); ++i) {
            if (i) {
                s.text += ",";
                out += ",";
            }
            out += type(s, t.args[i], false, base + out.size());
        }
        if (out.back() == '>')
            out += ' ';
        s.text += ">";
        out += ">";
    }
    if (t.c == Back) {
        s.blank(t.base != Template && t.base != ScopedTemplate);
        s.text += "const";
    }
    s.blank();
    switch (t.d) {
    case Value:
        break;
    case Ref:
        s.text += "&";
        if (t.c == No || !top)
            out += "&";
        break;
    case RRef:
        s.text += "&&";
        out += "&&";
        break;
    case Ptr:
        s.text += "*";
        out += "*";
        break;
    case PtrPtr:
        s.text += "*";
        s.blank();
        s.text += "*";
        out += "**";
        break;
    case PtrConst:
        s.text += "*";
        s.blank();
        s.text += "const";
        out += "*const";
        break;
    case Array:
        s.text += "[3]";
        out += "[3]";
        break;
    case Func: { // as in std::function<int(xx)>
        s.text += "(";
        out += "(";
        s.blank();
        name(s, out, base);
        s.blank();
        s.text += ")";
        out += ")";
    }
    }
    s.blank();
    return out;
}
// what the grammar leaves open (see properties): const behind a template argument list in front of a pointer, references to pointers, const &&, const T *const
bool defined(const SigType &t)
{
    if (t.c != No && (t.d == RRef || t.d == PtrConst))
        return false;
    if (t.c == Back && (t.base == Template || t.base == ScopedTemplate) && t.d != Value && t.d != Ref)
        return false;
    if (t.c == Back && (t.base >= Struct)) // "struct S const", "unsigned const"
        return false;
    if (t.c == Front && t.base >= Struct && t.base < FirstBuiltin)
        return false;
    for (auto &a : t.args)
        if (!defined(a))
            return false;
    return true;
}

const char *HEAD = R"(
struct QObject { static bool connect(QObject *, const char *, QObject *, const char *); static bool disconnect(QObject *, const char *, QObject *, const char *); };
const char *qFlagLocation(const char *);
template <typename T> struct QArgument { QArgument(const char *, const T &); };
template <typename T> struct QReturnArgument { QReturnArgument(const char *, T &); };
struct QMetaMethodArgument {}; struct QMetaMethodReturnArgument {};
template <typename T> QMetaMethodArgument qArg(const char *, const T &);
template <typename T> QMetaMethodReturnArgument qRetArg(const char *, T &);
template <typename T> void invoke(T &&);
)";
enum Form { Signal, Slot, Argument, ReturnArgument, MetaArgument, MetaReturn, Disconnect, NForms };

// pick selects which name and which blanks are arbitrary (all: every one)
void check(Form form, std::vector<SigType> args, bool isVoid, unsigned gap, unsigned nameLen, unsigned pick, bool all)
{
    Sig s;
    s.gap = gap;
    s.nameLen = nameLen;
    bool method = form == Signal || form == Slot || form == Disconnect;
    if (method) {
        s.text = s.normal = form == Slot ? "1" : "2";
        std::string n;
        name(s, n, 1);
        s.normal += n + "(";
        s.blank();
        s.text += "(";
        if (isVoid) {
            s.blank();
            s.text += "void";
            s.blank();
        }
        for (size_t i = 0; i < args.size(); ++i) {
            if (i) {
                s.text += ",";
                s.normal += ",";
            }
            s.normal += type(s, args[i], true, s.normal.size());
        }
        if (args.empty() && !isVoid)
            s.blank();
        s.text += ")";
        s.normal += ")";
        s.blank();
    } else
        s.normal = type(s, args[0], true, 0);
    std::string tail = method ? "\\0" "main.cpp:12" : "";
    TU tu;
    std::string lit = "\"" + s.text + tail + "\"";
    switch (form) {
    case Signal:
        tu.code = "qFlagLocation(" + lit + "), b, \"1z()\");";
        tu.code = "QObject::connect(a, " + tu.code;
        break;
    case Slot:
        tu.code = "QObject::connect(a, \"2z()\", b, qFlagLocation(" + lit + "));";
        break;
    case Disconnect:
        tu.code = "QObject::disconnect(a, \"2z()\", b, qFlagLocation(" + lit + "));";
        break;
    case Argument:
        tu.code = "invoke(QArgument<int>(" + lit + ", i));";
        break;
    case ReturnArgument:
        tu.code = "invoke(QReturnArgument<int>(" + lit + ", i));";
        break;
    case MetaArgument:
        tu.code = "invoke(qArg<int>(" + lit + ", i));";
        break;
    default:
        tu.code = "invoke(qRetArg<int>(" + lit + ", i));";
    }
    tu.code = std::string(HEAD) + "void f(QObject *a, QObject *b, int i) { " + tu.code + " }\n";
    tu.checks = {byName("connect-not-normalized")};
    withTU(tu, [&](Env &env) {
        rt_describe((s.text + " -> " + s.normal).c_str());
        StringLiteral *l = nullptr;
        for (auto *x : env.stmts<StringLiteral>())
            if (x->getBytes().starts_with(s.text))
                l = x;
        if (!l) {
            fprintf(stderr, "harness: no literal %s\n", s.text.c_str());
            exit(4);
        }
        char *p = const_cast<char *>(l->getBytes().data());
        std::string normal = s.normal;
        unsigned k = 0;
        for (auto &[at, inNormal] : s.nameAt) {
            if (!all && k++ != pick % s.nameAt.size())
                continue;
            if (all || nameLen > 2)
                rt_make_symbolic(p + at, nameLen, "name");
            else
                rt_make_symbolic(p + at + pick % nameLen, 1, "name");
            std::string n(p + at, nameLen);
            for (unsigned i = 0; i < nameLen; ++i) {
                SYM_ASSUME(ccIdent(n[i]));
                if (!all && nameLen > 2) // near misses of a keyword
                    SYM_ASSUME((n[i] == (nameLen == 5 ? "const" : nameLen == 6 ? "struct" : "unsigned")[i]) | (n[i] == 'x') | (i == 0 && n[i] == '_'));
                normal[inNormal + i] = n[i];
            }
            SYM_ASSUME(!ccDigit(n[0]));
            for (const char *kw : {"const", "void", "int", "long", "enum", "char", "class", "short", "struct", "unsigned"})
                SYM_ASSUME(!eq(n, kw));
        }
        k = 0;
        for (auto &b : s.blanks) {
            bool sym = all || k == pick % s.blanks.size() || k == (pick * 7 + 3) % s.blanks.size();
            if (!sym && k % 2)
                p[b.first] = '\t';
            ++k;
            if (!sym)
                continue;
            rt_make_symbolic(p + b.first, 1, "blank");
            SYM_ASSUME((p[b.first] == ' ') | (p[b.first] == '\t'));
        }
        std::string text(p, s.text.size());
        env.run();
        bool differs = !eq(text, normal) && form != Disconnect;
        SYM_ASSERT((env.reported.size() == 1) == differs, "a signature is reported exactly if it is not in normal form");
        SYM_ASSERT(env.reported.size() <= 1, "a signature is reported once");
        if (env.reported.size() != 1)
            return rt_reach("normal");
        rt_reach("reported");
        if (method)
            normal.erase(0, 1), text.erase(0, 1);
        std::string want = "Signature is not normalized. Use " + normal + " instead of " + text;
        const std::string &m = env.reported[0].message;
        SYM_ASSERT(m.size() >= want.size() && eq(m.substr(0, want.size()), want), "the suggestion is the normal form");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0), n = 0;
    unsigned nameLen = 2;
    allow("5Lexer3Lex", "the file text is concrete");
    auto go = [&](Form f, std::vector<SigType> args, bool isVoid = false, unsigned len = 0) {
        for (auto &a : args)
            if (!defined(a))
                return;
        for (unsigned gap = 0; gap < 5; ++gap)
            if (deep || gap == n % 5 || gap == (n / 3 + 2) % 5)
                explore((std::to_string(n) + "-" + std::to_string(gap)).c_str(), [=, pick = n + gap, l = len ? len : nameLen] {
                    check(f, args, isVoid, gap, l, pick, deep);
                });
        ++n;
    };
    const SigType inner[] = {{Ident}, {Ident, Front, Ref}, {Ident, Back, Ref}, {FirstBuiltin}, {Struct}, {Ident, Back, Ptr}, {Template, No, Value, {{Ident, Back}}}, {FirstBuiltin + 2}};
    for (int f = 0; f < NForms; ++f) {
        go((Form)f, {{Ident, Front, Ref}});
        go((Form)f, {{Ident}});
        if (f == Signal || f == Slot)
            go((Form)f, {}), go((Form)f, {}, true);
    }
    for (int b = 0; b < NBASES; ++b)
        for (Const c : {No, Front, Back})
            for (SigDecl d : {Value, Ref, Ptr, PtrPtr, PtrConst, RRef, Array}) {
                if (!deep && d >= PtrPtr && (b + c) % 3)
                    continue;
                SigType t{b, c, d};
                if (b == Template || b == ScopedTemplate)
                    t.args = {inner[(c * 6 + d + b) % 8]};
                go(d % 2 ? Slot : Signal, {t});
            }
    for (auto &i : inner)
        for (auto &j : inner)
            if (deep || (&i - inner + (&j - inner) * 3) % 4 == 0)
                go(Signal, {{Template, No, Value, {i, j}}});
    for (Const c : {No, Front, Back})
        for (SigDecl d : {Array, Func})
            for (int b : {(int)Ident, (int)Scoped, FirstBuiltin + 7})
                go(d == Func ? Slot : Signal, {{b % 2 ? Template : ScopedTemplate, No, Value, {{b, c, d}}}});
    go(Signal, {{Ident, Front, Ref}, {FirstBuiltin}, {Ident, Back, Ptr}});
    go(Slot, {{Template, Front, Ref, {{Ident}}}, {FirstBuiltin + 1, Front}});
    go(Signal, {{Ident}}, false, 5); // (names long enough to be mistaken for const)
    go(Signal, {{Ident, Back, Ptr}}, false, 5);
    go(Argument, {{Ident, Back, Ptr}}, false, 8);
    go(Argument, {{Ident, Front, Ref}}, false, 6);
    rt_expect_reach("reported");
    rt_expect_reach("normal");
    rt_finish();
}
