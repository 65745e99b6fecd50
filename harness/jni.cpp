// jni-signatures: which method signatures, class names and method names are reported as invalid.
#include "h.h"
using namespace h;

namespace
{
// a letter, '_' or '$' (Java also takes letters beyond ASCII)
bool start(unsigned char c)
{
    return ((c | 32) >= 'a' & (c | 32) <= 'z') | (c == '_') | (c == '$');
}
bool part(unsigned char c)
{
    return start(c) | ccDigit(c);
}
// deterministic automata over the text, branch free; state 0: failed
bool methodName(const std::string &s)
{
    if (s.empty())
        return false;
    bool ok = start(s[0]);
    for (size_t i = 1; i < s.size(); ++i)
        ok &= part(s[i]);
    return ok;
}
bool className(const std::string &s)
{
    bool ok = true, begin = true;
    for (unsigned char c : s) {
        bool slash = c == '/';
        ok &= begin ? start(c) : part(c) | slash;
        ok &= !begin | start(c);
        begin = false;
        // (a slash starts the next name)
        begin = slash;
    }
    return ok & !begin;
}
bool signature(const std::string &s)
{
    // one flag for each state
    bool zero = true, args = false, array = false, name = false, nameStart = false, ret = false, retArray = false, retName = false, retNameStart = false, end = false;
    for (unsigned char c : s) {
        bool prim = (c == 'Z') | (c == 'B') | (c == 'C') | (c == 'S') | (c == 'I') | (c == 'J') | (c == 'F') | (c == 'D'), L = c == 'L', br = c == '[', semi = c == ';', slash = c == '/';
        bool nzero = false;
        bool nargs = (zero & (c == '(')) | ((args | array) & prim) | (name & semi);
        bool narray = (args | array) & br;
        bool nnameStart = ((args | array) & L) | (name & slash);
        bool nname = (nameStart & start(c)) | (name & part(c));
        bool nret = args & (c == ')');
        bool nretArray = (ret | retArray) & br;
        bool nretNameStart = ((ret | retArray) & L) | (retName & slash);
        bool nretName = (retNameStart & start(c)) | (retName & part(c));
        bool nend = ((ret | retArray) & prim) | (ret & (c == 'V')) | (retName & semi);
        zero = nzero, args = nargs, array = narray, nameStart = nnameStart, name = nname, ret = nret, retArray = nretArray, retNameStart = nretNameStart, retName = nretName, end = nend;
    }
    return end;
}

const char *CLS = "struct QAndroidJniObject { QAndroidJniObject(const char *); QAndroidJniObject(const char *, const char *, ...);\n"
                  " QAndroidJniObject callObjectMethod(const char *, const char *, ...); template <typename T> T callMethod(const char *, const char *, ...);\n"
                  " static QAndroidJniObject callStaticObjectMethod(const char *, const char *, const char *, ...); template <typename T> static T callStaticMethod(const char *, const char *, const char *, ...); };\n";
struct Call {
    const char *code; // 'C' a class name, 'M' a method name, 'S' a signature; all but one are fixed
    const char *report;
};
const Call CALLS[] = {
    {"void test() { QAndroidJniObject o(C); }", "Invalid class name: '"},
    {"void test() { QAndroidJniObject o(\"java/lang/String\", S); }", "Invalid constructor signature: '"},
    {"void test(QAndroidJniObject o) { o.callObjectMethod(\"abc\", S); }", "Invalid method signature: '"},
    {"void test(QAndroidJniObject o) { o.callObjectMethod(M, \"()V\"); }", "Invalid method name: '"},
    {"void test(QAndroidJniObject o) { o.callMethod<int>(\"abc\", S, 3); }", "Invalid method signature: '"},
    {"void test(QAndroidJniObject o) { o.callMethod<int>(M, \"()V\"); }", "Invalid method name: '"},
    {"void test() { QAndroidJniObject::callStaticObjectMethod(C, \"abc\", \"()V\"); }", "Invalid class name: '"},
    {"void test() { QAndroidJniObject::callStaticObjectMethod(\"a/B\", M, \"()V\"); }", "Invalid method name: '"},
    {"void test() { QAndroidJniObject::callStaticMethod<int>(\"a/B\", \"abc\", S); }", "Invalid method signature: '"},
    {"void test() { QAndroidJniObject::callStaticMethod<int>(C, \"abc\", \"()I\"); }", "Invalid class name: '"},
};

void check(const Call &call, const std::string &text, unsigned from, unsigned width)
{
    const char *p = strpbrk(strstr(call.code, "test"), "(");
    std::string code = CLS;
    char kind = 0;
    for (const char *q = call.code; *q; ++q)
        if (strchr("CMS", *q) && (q[-1] == '(' || q[-1] == ' ') && (q[1] == ')' || q[1] == ',')) {
            kind = *q;
            code += "\"" + text + "\"";
        } else
            code += *q;
    (void)p;
    TU tu;
    tu.file = "code.cpp";
    tu.code = code + "\n";
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName("jni-signatures")};
    withTU(tu, [&](Env &env) {
        char *bytes = const_cast<char *>(env.stringLiteral(text)->getBytes().data());
        rt_make_symbolic(bytes + from, width, "text");
        for (unsigned i = 0; i < width; ++i)
            SYM_ASSUME(((unsigned char)bytes[from + i] < 128) & (bytes[from + i] != 0));
        std::string s(bytes, text.size());
        env.run();
        bool valid = kind == 'C' ? className(s) : kind == 'M' ? methodName(s) : signature(s);
        SYM_ASSERT((env.reported.size() == 1) == !valid && env.reported.size() <= 1, "exactly the invalid ones are reported");
        rt_reach(env.reported.empty() ? "silent" : "reported");
        if (env.reported.size() == 1) {
            std::string want = call.report + s + "'";
            SYM_ASSERT(env.reported[0].message.size() >= want.size() && eq(env.reported[0].message.substr(0, want.size()), want), "the warning says what is invalid");
        }
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    allow("__cxa_atexit", "registers a destructor");
    allow("5Lexer3Lex", "the file text is concrete");
    allow("5LexerC", "the file text is concrete");
    allow("getQualifiedNameAsString", "concrete");
    const std::vector<std::string> SIG = {"(ILa/Bc;[J)[La/b;", "()V", "([[ILB;)D", "(Ljava/lang/String;)Ljava/lang/String;"}, CLASS = {"java/lang/String", "ab/C$d", "X"}, METHOD = {"get_x1", "a"};
    unsigned k = 0;
    for (auto &call : CALLS) {
        char kind = strstr(call.report, "signature") ? 'S' : strstr(call.report, "class") ? 'C' : 'M';
        for (auto &text : kind == 'S' ? SIG : kind == 'C' ? CLASS : METHOD) {
            unsigned width = deep ? 3 : 2;
            for (unsigned from = 0; from < text.size(); from += deep ? 1 : width, ++k) {
                if (text.size() > 20 && from % 9)
                    continue;
                unsigned w = std::min<unsigned>(width, text.size() - from);
                explore((std::to_string(&call - CALLS) + "-" + text + "-" + std::to_string(from)).c_str(), [=, &call] {
                    check(call, text, from, w);
                });
            }
        }
    }
    rt_expect_reach("silent");
    rt_expect_reach("reported");
    rt_finish();
}
