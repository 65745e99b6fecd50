// Checks that look at what a literal says: each judges exactly the values it documents.
#include "h.h"
using namespace h;

namespace
{
using Value = uint64_t;
struct Int {
    const char *check, *code; // with the number 7777, which becomes any number of its type
    // 0: not reported, k: the k-th message
    unsigned (*want)(Value);
    const char *messages[2];
    const char *fix; // what the fix-it of the first message puts there
};
unsigned never(Value)
{
    return 0;
}
unsigned always(Value)
{
    return 1;
}
unsigned zero(Value v)
{
    return v == 0;
}
unsigned one(Value v)
{
    return v == 1;
}
unsigned zeroOne(Value v)
{
    return (v == 0) + 2 * (v == 1);
}
#define LEFT "struct QString { QString left(int) const; QString mid(int) const; QString &operator[](int); }; struct Mine { QString left(int) const; };\n"
const char *const EMPTY[] = {"QString::left(0) returns an empty string", "Use QString::at(0) instead of QString::left(1) to avoid temporary allocations"};
#define SIZES(T) "typedef " #T " T; struct QList { ~QList(); T size() const; T count() const; T count(int) const; T length() const; }; struct Mine { ~Mine(); T size() const; }; QList get(); Mine mine();\n"
#define ENV "struct QByteArray { ~QByteArray(); int toInt(bool *ok = nullptr, int base = 10) const; }; QByteArray qgetenv(const char *);\n"
#define CHARS "struct QChar { QChar(int); QChar(char); }; struct QString { }; bool operator==(const QString &, QChar); bool operator!=(const QString &, QChar);\n"
const Int INTS[] = {
    {"qstring-left", LEFT "void test(QString s) { s.left(7777); }\n", zeroOne, {EMPTY[0], EMPTY[1]}, nullptr},
    {"qstring-left", LEFT "QString test(QString *s, int n) { if (n) return s->left((2)).left(7777); return s->mid(1); }\n", zeroOne, {EMPTY[0], EMPTY[1]}, nullptr},
    {"qstring-left", LEFT "struct S { QString a, b = a.left(7777); };\n", zeroOne, {EMPTY[0], EMPTY[1]}, nullptr},
    {"qstring-left", LEFT "auto l = [](QString s) { for (;;) s.left(7777); };\n", zeroOne, {EMPTY[0], EMPTY[1]}, nullptr},
    {"qstring-left", LEFT "void test(QString s) { s.left(-7777); s.mid(1); }\n", never, {}, nullptr},
    {"qstring-left", LEFT "void test(QString s, Mine m) { s.mid(7777); m.left(0); }\n", never, {}, nullptr},
    {"qstring-left", LEFT "void test(Mine s) { s.left(7777); }\n", never, {}, nullptr},
    {"qstring-left", LEFT "void test(QString s) { s.left(7777 + 0); s[0]; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().size() == 7777; }\n", zero, {"use isEmpty() instead"}, "get().isEmpty()"},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().count() < 7777; }\n", one, {"use isEmpty() instead"}, "get().isEmpty()"},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().length() > 7777; }\n", zero, {"use isEmpty() instead"}, "!get().isEmpty()"},
    {"isempty-vs-count", SIZES(long) "bool test() { return get().size() == 7777; }\n", zero, {"use isEmpty() instead"}, "get().isEmpty()"},
    {"isempty-vs-count", SIZES(long) "bool test() { return get().size() > 7777L; }\n", zero, {"use isEmpty() instead"}, "!get().isEmpty()"},
    {"isempty-vs-count", SIZES(long) "bool test() { return get().size() < 7777; }\n", one, {"use isEmpty() instead"}, "get().isEmpty()"},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().size() >= 7777; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().size() <= 7777; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().size() + 7777; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().count(1) == 7777; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return mine().size() == 7777; }\n", never, {}, nullptr},
    {"isempty-vs-count", SIZES(int) "bool test() { return get().size() == -7777; }\n", never, {}, nullptr},
    {"qgetenv", ENV "int test() { return qgetenv(\"V\").toInt(nullptr, 7777); }\n", zero, {"qgetenv().toInt() is slow."}, "qEnvironmentVariableIntValue(\"V\")"},
    {"qgetenv", ENV "int v = qgetenv(\"V\").toInt(nullptr, 7777);\n", zero, {"qgetenv().toInt() is slow."}, "qEnvironmentVariableIntValue(\"V\")"},
    {"qgetenv", ENV "int test() { return qgetenv(\"V\").toInt(nullptr, 7777 + 1); }\n", never, {}, nullptr},
    {"qstring-comparison-to-implicit-char", CHARS "bool test(const QString &s) { return s == 7777; }\n", always, {"QString being compared to implicit QChar"}, nullptr},
    {"qstring-comparison-to-implicit-char", CHARS "bool test(const QString &s) { return s != 7777; }\n", never, {}, nullptr},
};

void integer(const Int &row)
{
    TU tu;
    tu.file = "code.cpp";
    tu.code = row.code;
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName(row.check)};
    withTU(tu, [&](Env &env) {
        IntegerLiteral *l = env.intLiteral(7777);
        unsigned bits = l->getValue().getBitWidth();
        auto *raw = new uint64_t(0); // (not on the stack, which the check uses again)
        rt_make_symbolic_int(raw, bits / 8, "number");
        const uint64_t v = *raw;
        SYM_ASSUME(v >> (bits - 1) == 0); // (a literal has no sign)
        *intStorage(l) = v;
        env.run();
        unsigned want = row.want(v);
        SYM_ASSERT(env.reported.size() == (want != 0), "reported exactly if the number is one the check is about");
        if (env.reported.empty())
            return rt_reach("silent");
        rt_reach("reported");
        auto &r = env.reported[0];
        bool text = false;
        for (unsigned k = 0; k < 2; ++k)
            if (row.messages[k])
                text |= (want == k + 1) & (r.message.compare(0, strlen(row.messages[k]), row.messages[k]) == 0);
        SYM_ASSERT(text, "the warning is the one for this number");
        SYM_ASSERT(row.fix ? r.fixits.size() == 1 && r.fixits[0].CodeToInsert == row.fix : r.fixits.empty(), "the fix-it is the documented one");
    });
}

struct Text {
    const char *check, *before, *after; // the literal stands in between
    bool (*want)(const std::string &);
    const char *message;
    const char *prefix = "";
};
bool notUpper(const std::string &s)
{
    return s.empty() ? true : (s[0] < 'A') | (s[0] > 'Z');
}
bool nonAscii(const std::string &s)
{
    bool r = false;
    for (char c : s)
        r |= (uint8_t)c > 127;
    return r;
}
bool no(const std::string &)
{
    return false;
}
bool empty(const std::string &s)
{
    return s.empty();
}
#define QML "template <typename T> int qmlRegisterType(const char *, int, int, const char *); template <typename T> int qmlRegisterType(const char *, int, int); template <typename T> int qmlRegisterUncreatableType(const char *, int, int, const char *, const char *); int qmlOther(const char *, int, int, const char *); struct T;\n"
#define LATIN "struct QLatin1String { explicit QLatin1String(const char *); }; struct Mine { Mine(const char *); }; void use(QLatin1String);\n"
#define SIX "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\nnamespace QtPrivate { template <typename T> int qMakeStringPrivate(const T &); int other(const char *); }\n"
#define FIVE "struct D { int n; const char s[9]; };\n#define QStringLiteral(str) ([]() { static const D qstring_literal = {0, str}; return qstring_literal.n; }())\n"
const char UPPER[] = "QML types must begin with uppercase", LATIN_MSG[] = "QLatin1String with non-ascii literal", EMPTY_MSG[] = "Use QLatin1String(\"\") or QString() instead of an empty QStringLiteral";
const Text TEXTS[] = {
    {"lowercase-qml-type-name", QML "void test() { qmlRegisterType<T>(\"Module\", 1, 0, ", "); }\n", notUpper, UPPER},
    {"lowercase-qml-type-name", QML "int n = qmlRegisterUncreatableType<T>(\"module\", 1, 0, ", ", \"reason\");\n", notUpper, UPPER},
    {"lowercase-qml-type-name", QML "void test() { qmlRegisterType<T>(", ", 1, 0, \"Name\"); }\n", no, nullptr},
    {"lowercase-qml-type-name", QML "void test() { qmlRegisterUncreatableType<T>(\"M\", 1, 0, \"Name\", ", "); qmlRegisterType<T>(\"m\", 1, 0); }\n", no, nullptr},
    {"lowercase-qml-type-name", QML "void test() { qmlOther(\"M\", 1, 0, ", "); }\n", no, nullptr},
    {"qlatin1string-non-ascii", LATIN "void test() { use(QLatin1String(", ")); }\n", nonAscii, LATIN_MSG},
    {"qlatin1string-non-ascii", LATIN "QLatin1String global(", ");\n", nonAscii, LATIN_MSG},
    {"qlatin1string-non-ascii", LATIN "struct S { QLatin1String m{", "}; };\n", nonAscii, LATIN_MSG},
    {"qlatin1string-non-ascii", LATIN "Mine global(", ");\n", no, nullptr},
    {"qlatin1string-non-ascii", LATIN "void test(const char *p) { QLatin1String a(p); const char *q = ", "; }\n", no, nullptr},
    {"empty-qstringliteral", SIX "#define QStringLiteral(x) QtPrivate::qMakeStringPrivate(x)\nint s = QStringLiteral(", ");\n", empty, EMPTY_MSG},
    {"empty-qstringliteral", SIX "#define QStringLiteral(x) QtPrivate::other(x)\nint s = QStringLiteral(", ");\n", no, nullptr},
    {"empty-qstringliteral", FIVE "void test() { QStringLiteral(", "); }\n", empty, EMPTY_MSG},
};
void text(const Text &row, unsigned len)
{
    std::string lit = std::string("Zq_lit7w").substr(0, len);
    TU tu;
    tu.file = "code.cpp";
    tu.code = std::string(row.before) + "\"" + lit + "\"" + row.after;
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName(row.check)};
    withTU(tu, [&](Env &env) {
        std::string s;
        if (len) {
            StringLiteral *l = nullptr;
            for (auto *x : env.stmts<StringLiteral>())
                if (x->getBytes().substr(0, len) == lit)
                    l = x;
            char *p = const_cast<char *>(l->getBytes().data());
            rt_make_symbolic(p, len, "text");
            s.assign(p, len);
            for (char c : s)
                SYM_ASSUME(c != 0);
        }
        env.run();
        SYM_ASSERT(env.reported.size() == row.want(s), "reported exactly if the text is one the check is about");
        SYM_ASSERT(env.reported.empty() || (row.message && env.reported[0].message.compare(0, strlen(row.message), row.message) == 0), "the warning is the documented one");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    allow("__cxa_atexit", "registers a destructor");
    allow("5Lexer", "the file text is concrete");
    allow("SmallVectorBaseIjE8grow_pod", "moves pointers to nodes, which are concrete; the number lies further up on the stack");
    unsigned k = 0;
    for (auto &row : INTS)
        explore((std::string(row.check) + "-" + std::to_string(k++)).c_str(), [&row] {
            integer(row);
        });
    for (auto &row : TEXTS) {
        for (unsigned len = 0; len <= 3 + 5 * deep; ++len)
            explore((std::string(row.check) + "-text-" + std::to_string(k) + "-" + std::to_string(len)).c_str(), [&row, len] {
                text(row, len);
            });
        ++k;
    }
    rt_expect_reach("reported");
    rt_expect_reach("silent");
    rt_finish();
}
