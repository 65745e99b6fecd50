// Checks that look for particular Qt classes and functions: each recognises exactly the names it is
// documented to look for, whatever else a class or function may be called, wherever the code stands.
#include "h.h"
using namespace h;

namespace
{
struct Name {
    std::string name, fix;
};
struct Row {
    const char *check;
    const char *decls; // '@': the symbolic name (in decls or expr)
    const char *expr; // the place where the warning is given; put into different contexts (nullptr: decls is all)
    const char *names; // "name" or "name=replacement", blank separated; trailing '*': any name beginning so; trailing '~': not reported either;
                       // leading '!': every other name is reported; leading '?': the same, and with the listed names it is not looked at; '%': any text without '_' (at least one character); '*' elsewhere: any text;
                       // leading '^': an exception to the others
                       // '$' in the code: here a warning stands, and nowhere else
    const char *message = nullptr; // beginning of the warning; '@' as above
    const char *removed = nullptr; // what the fix-its replace or remove, ';' separated ('@' as above)
    const char *var = nullptr, *value = nullptr; // environment
    const char *std = "-std=c++17";
    unsigned reports = 1; // how often
};
const char *CONTEXT[] = {
    "void test() { (void)(E); }\n",
    "struct Holder { int mm = ((void)(E), 0); Holder(int) {} };\n",
    "bool global = ((void)(E), true);\n",
    "auto lambda = [] { (void)(E); return 0; };\n",
};
std::vector<Name> split(const std::string &s)
{
    std::vector<Name> r;
    for (size_t i = 0; i < s.size();) {
        size_t e = s.find(' ', i);
        if (e == std::string::npos)
            e = s.size();
        std::string n = s.substr(i, e - i);
        i = e + 1;
        if (n.empty())
            continue;
        size_t q = n.find('=');
        r.push_back({n.substr(0, q), q == std::string::npos ? "" : n.substr(q + 1)});
    }
    return r;
}
std::string subst(const char *text, char c, const std::string &by)
{
    std::string r;
    for (; *text; ++text)
        if (*text == c)
            r += by;
        else
            r += *text;
    return r;
}

// '%' stands for one or more characters that are no '_', '*' for any
bool like(const std::string &n, const std::string &pattern)
{
    std::vector<uint8_t> at(n.size() + 1, 0); // pattern matched up to there
    at[0] = 1;
    for (char c : pattern) {
        std::vector<uint8_t> to(n.size() + 1, 0);
        to[0] = c == '*' ? at[0] : 0;
        for (size_t i = 0; i < n.size(); ++i)
            to[i + 1] = c == '*' ? (uint8_t)(at[i + 1] | to[i]) : c == '%' ? (uint8_t)((at[i] | to[i]) & (uint8_t)(n[i] != '_')) : (uint8_t)(at[i] & (uint8_t)(n[i] == c));
        at = to;
    }
    return at[n.size()];
}
bool matches(const std::string &n, const std::string &pattern)
{
    if (pattern.back() == '~')
        return false;
    if (pattern.find('%') != std::string::npos || pattern.find('*') < pattern.size() - 1)
        return like(n, pattern);
    return pattern.back() == '*' ? eqAt(n, 0, pattern.substr(0, pattern.size() - 1).c_str()) : eq(n, pattern);
}
// without the marks
std::string example(const std::string &pattern)
{
    std::string r;
    for (char c : pattern)
        if (c == '%')
            r += 'x';
        else if (c != '*' && c != '~' && c != '^')
            r += c;
    return r;
}
// the code of a row with one of the names it is about, analysed before
void before(const Row &row)
{
    bool inverse = *row.names == '!' || *row.names == '?';
    auto names = split(row.names + inverse);
    std::string n = inverse ? "Zq_wkv7Yxp" : example(names[0].name);
    EnvVar e(row.var ? row.var : "CLAZY_NAMES_UNUSED", row.value);
    TU tu;
    tu.args = {row.std, "-w"};
    tu.code = subst(row.decls, '@', n);
    if (row.expr)
        tu.code += subst(CONTEXT[0], 'E', subst(row.expr, '@', n));
    tu.code.erase(std::remove(tu.code.begin(), tu.code.end(), '$'), tu.code.end());
    tu.file = "code.cpp";
    tu.checks = {byName(row.check)};
    tu.last = false;
    tu.allowErrors = true;
    withTU(tu, [](Env &env) {
        env.run();
        if (!env.reported.empty())
            rt_reach("reported before");
    });
    if (row.var)
        unsetenv(row.var);
}
void check(const Row &row, const std::vector<Name> &names, bool inverse, unsigned len, unsigned context, const Row *other)
{
    if (other)
        before(*other), before(row);
    std::string ph = std::string("Zq_wkv7Yxp_Zr_tbn4Uo_Mf_qa5").substr(0, len);
    std::string code = subst(row.decls, '@', ph);
    if (row.expr)
        code += subst(CONTEXT[context], 'E', subst(row.expr, '@', ph));
    std::vector<size_t> marks;
    for (size_t m; (m = code.find('$')) != std::string::npos; code.erase(m, 1))
        marks.push_back(m);
    const unsigned reports = marks.empty() ? row.reports : marks.size();
    EnvVar e(row.var ? row.var : "CLAZY_NAMES_UNUSED", row.value);
    TU tu;
    tu.args = {row.std, "-Wno-non-pod-varargs", "-Wno-call-to-pure-virtual-from-ctor-dtor"};
    if (row.value && !strcmp(row.value, "qt-developer"))
        tu.options = ClazyContext::ClazyOption_QtDeveloper;
    tu.code = code;
    tu.file = "code.cpp";
    tu.checks = {byName(row.check)};
    withTU(tu, [&](Env &env) {
        char *p = env.identifier(ph, "name");
        std::string n(p, len);
        bool in = false;
        for (unsigned i = 0; i < len; ++i)
            SYM_ASSUME(ccIdent(n[i]));
        SYM_ASSUME(!ccDigit(n[0]));
        if (strchr(row.names, '%')) { // parts between '_' are not empty
            for (unsigned i = 0; i < len; ++i)
                SYM_ASSUME((n[i] != '_') | (i + 1 < len ? n[i + 1] != '_' : false));
        }
        bool except = false;
        for (auto &x : names)
            if (x.name[0] == '^')
                except |= matches(n, x.name.substr(1));
            else
                in |= matches(n, x.name);
        in &= !except;
        in ^= inverse;
        if (*row.names == '?') // with these, it is another program
            SYM_ASSUME(in);
        env.run();
        if (rt_param("trace", 0) && !env.reported.empty()) {
            std::string got = "TRACE " + std::string(row.check) + (marks.size() ? "" : " (no marks)");
            auto left = marks;
            for (auto &r : env.reported) {
                size_t off = env.ast->getSourceManager().getFileOffset(env.ast->getSourceManager().getExpansionLoc(r.loc));
                auto it = std::find(left.begin(), left.end(), off);
                it == left.end() ? (void)(got += "\n   EXTRA " + code.substr(off, 40)) : (void)left.erase(it);
            }
            for (auto m : left)
                got += "\n   MISSING " + code.substr(m, 40);
            fprintf(stderr, "%s\n", got.c_str());
        }
        SYM_ASSERT((env.reported.size() == reports) == in, "reported exactly if the name is one the check looks for");
        SYM_ASSERT(env.reported.empty() || env.reported.size() == reports, "reported once");
        if (env.reported.empty())
            return rt_reach("silent");
        rt_reach("reported");
        if (!marks.empty()) {
            bool placed = true;
            std::vector<uint8_t> hit(marks.size(), 0);
            auto &sm = env.ast->getSourceManager();
            for (auto &r : env.reported) {
                size_t k = std::find(marks.begin(), marks.end(), sm.getFileOffset(sm.getExpansionLoc(r.loc))) - marks.begin();
                if (k < marks.size() && !hit[k])
                    hit[k] = 1;
                else
                    placed = false;
            }
            SYM_ASSERT(placed, "each warning stands where the code concerned begins");
        }
        auto &r = env.reported[0];
        if (row.message) {
            std::string want = subst(row.message, '@', n);
            SYM_ASSERT(r.message.size() >= want.size() && eq(r.message.substr(0, want.size()), want), "the warning names what it is about");
        }
        bool fixed = true, fixes = false;
        for (auto &x : names)
            if (!x.fix.empty()) {
                fixes = true;
                bool same = r.fixits.size() == 1 && (x.fix == "-" ? false : eq(r.fixits[0].CodeToInsert, x.fix));
                fixed &= !eq(n, x.name) | (x.fix == "-" ? r.fixits.empty() : same);
            }
        if (row.removed && !r.fixits.empty()) {
            std::string had;
            for (auto &f : r.fixits) {
                auto &sm = env.ast->getSourceManager();
                auto b = sm.getFileOffset(f.RemoveRange.getBegin()), e = sm.getFileOffset(f.RemoveRange.getEnd());
                if (f.RemoveRange.isTokenRange())
                    e += Lexer::MeasureTokenLength(f.RemoveRange.getEnd(), sm, env.ast->getLangOpts());
                had += (had.empty() ? "" : ";") + (e >= b && e <= code.size() ? code.substr(b, e - b) : "?");
            }
            SYM_ASSERT(had == subst(row.removed, '@', ph), "the fix-it replaces exactly what it stands for");
        }
        if (fixes)
            SYM_ASSERT(fixed, "the replacement is the documented counterpart");
    });
}

#include "names_rows.h"

// used-qunused-variable: which parameter (or local variable) each expression names is symbolic
void parameters(const char *text, unsigned params)
{
    // '?': an operand of a cast to void, '!': another use
    std::string code = "#define Q_UNUSED(x) (void)x;\n#define MINE(x) (void)(x)\nvoid use(int); struct T { void m(int); };\nvoid test(", body;
    for (unsigned i = 0; i < params; ++i)
        code += (i ? ", int p" : "int p") + std::to_string(i);
    code += ") { int p" + std::to_string(params) + " = 0; ";
    std::vector<uint8_t> cast;
    for (const char *c = text; *c; ++c)
        if (*c == '?' || *c == '!') {
            code += "p" + std::to_string(cast.size() % (params + 1));
            cast.push_back(*c == '?');
        } else
            code += *c;
    code += " }\n";
    TU tu;
    tu.args = {"-std=c++17", "-w"};
    tu.code = code;
    tu.file = "code.cpp";
    tu.checks = {byName("used-qunused-variable")};
    withTU(tu, [&](Env &env) {
        std::vector<VarDecl *> vars;
        for (auto *v : env.decls<VarDecl>())
            if (v->getName().size() == 2 && v->getName()[0] == 'p') {
                vars.push_back(v);
                v->setIsUsed();
            }
        std::vector<DeclRefExpr *> refs;
        for (auto *d : env.stmts<DeclRefExpr>())
            if (isa<VarDecl>(d->getDecl()) && d->getDecl()->getName()[0] == 'p')
                refs.push_back(d);
        std::vector<uint8_t> casts(params + 1, 0), uses(params + 1, 0);
        for (unsigned i = 0; i < cast.size(); ++i) {
            uint8_t which = 0;
            rt_make_symbolic_int(&which, 1, "parameter");
            SYM_ASSUME(which <= params);
            for (unsigned j = 0; j <= params; ++j) {
                bool here = which == j;
                if (cast[i]) { // one for each parameter
                    SYM_ASSUME(!here | !casts[j]);
                    casts[j] |= here;
                } else
                    uses[j] |= here;
                if (here)
                    refs.at(i)->setDecl(vars.at(j));
            }
        }
        unsigned want = 0;
        for (unsigned j = 0; j < params; ++j)
            want += casts[j] & uses[j];
        env.run();
        SYM_ASSERT(env.reported.size() == want, "reported exactly the parameters that are used besides the cast to void");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
const char *const USES[] = {
    "(void)?; use(!);",
    "use(!); (void)?;",
    "Q_UNUSED(?) int x = ! + 1; { Q_UNUSED(?) }",
    "{ { (void)?; } } if (!) { use(!); }",
    "for (int i = !; i; --i) { static_cast<void>(?); }",
    "auto l = [](int a) { use(a); }; (void)?; l(!);",
    "MINE(1 + !); Q_UNUSED(?)",
    "(float)!; (void)?; return use(!);",
    "switch (!) { default: break; } (void)?;",
    "do { (void)?; } while (!); Q_UNUSED(?) T().m(!);",
};

// compare-member-check: the operator compares `terms` of the class's members, which ones is symbolic
void members(unsigned fields, unsigned terms, unsigned layout, bool object, const char *op)
{
    std::string code = "struct V { bool operator==(const V &) const; bool operator<(const V &) const; };\nnamespace std { template <typename... T> struct tuple { }; template <typename... T> tuple<T &...> tie(T &...); template <typename A> bool operator" + std::string(op) + "(const A &, const A &); }\nstruct C { ", body, rhs;
    for (unsigned i = 0; i < fields; ++i)
        code += std::string(object ? "V" : "int") + " f" + std::to_string(i) + "; ";
    for (unsigned i = 0; i < terms; ++i) {
        std::string f = "f" + std::to_string(i % fields), t = (layout == 3 ? "this->" : "") + f + (i % 2 && layout == 2 ? " < " : " == ") + "o." + f;
        const char *join = layout == 2 && i % 2 ? " || " : " && ";
        body += (i ? join : "") + (layout == 1 ? "(" + t + ")" : layout == 2 && i + 1 < terms ? "(" + t : t);
    }
    for (unsigned i = 0; i + 1 < terms && layout == 2; ++i)
        body += ")";
    const bool tie = layout == 4;
    if (tie) {
        body = rhs = "";
        for (unsigned i = 0; i < terms; ++i) {
            body += (i ? ", f" : "f") + std::to_string(i % fields);
            rhs += (i ? ", o.f" : "o.f") + std::to_string(i % fields);
        }
        body = "std::tie(" + body + ") " + op + " std::tie(" + rhs + ")";
    }
    code += std::string("bool operator") + op + "(const C &o) const { return " + body + "; } int operator+(int i) const { return 1 + i; } int operator[](int i) const { return n() + i; } int n() const; };\n";
    code += std::string("bool test(C &x, C &y) { x + 1; x[2]; return x ") + op + " y; }\n";
    TU tu;
    tu.args = {"-std=c++17", "-w"};
    tu.code = code;
    tu.file = "code.cpp";
    tu.checks = {byName("compare-member-check")};
    withTU(tu, [&](Env &env) {
        std::vector<FieldDecl *> fs = env.decls<FieldDecl>();
        std::vector<MemberExpr *> compared;
        for (auto *m : env.stmts<MemberExpr>())
            if (isa<FieldDecl>(m->getMemberDecl()))
                compared.push_back(m);
        std::vector<uint8_t> used(fields, 0);
        for (unsigned i = 0; i < terms; ++i) {
            uint8_t which = 0;
            rt_make_symbolic_int(&which, 1, "member");
            SYM_ASSUME(which < fields);
            for (unsigned j = 0; j < fields; ++j) {
                if (tie) // lists each once
                    SYM_ASSUME((which != j) | !used[j]);
                used[j] |= which == j;
                if (which == j) {
                    compared.at(tie ? i : 2 * i)->setMemberDecl(fs.at(j));
                    compared.at(tie ? terms + i : 2 * i + 1)->setMemberDecl(fs.at(j));
                }
            }
        }
        bool all = true;
        for (auto u : used)
            all &= u != 0;
        env.run();
        SYM_ASSERT((env.reported.size() == 1) == !all, "reported exactly if a member is left out");
        SYM_ASSERT(env.reported.size() <= 1, "reported once");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
}

// 1: containers and iterators, 3: signals, slots and connections, 4: classes and expressions, 5: checks that use AST matchers, 2: the others
unsigned familyOf(const char *check)
{
    for (const char *p : {"overloaded-signal", "connect-by-name", "connect-non-signal", "lambda-unique-connection", "virtual-signal", "overridden-signal", "skipped-base-method", "thread-with-slots", "signal-with-return-value"})
        if (!strcmp(check, p))
            return 3;
    for (const char *p : {"heap-allocated-small-trivial-type", "qrequiredresult-candidates", "qstring-comparison-to-implicit-char", "empty-qstringliteral", "rule-of-two-soft", "rule-of-three", "unneeded-cast", "ctor-missing-parent-argument", "global-const-char-pointer", "implicit-casts", "missing-typeinfo", "returning-void-expression", "virtual-call-ctor", "assert-with-side-effects", "use-static-qregularexpression", "foreach", "function-args-by-ref", "function-args-by-value", "copyable-polymorphic", "static-pmf", "qstring-ref"})
        if (!strcmp(check, p))
            return 4;
    for (const char *p : {"readlock-detaching", "unused-result-check"})
        if (!strcmp(check, p))
            return 5;
    for (const char *p : {"container", "detaching", "isempty", "mutable", "qdeleteall", "qhash", "qmap", "range-loop", "reserve", "strict", "temporary"})
        if (!strncmp(check, p, strlen(p)))
            return 1;
    return 2;
}

int main()
{
    unsigned deep = rt_param("deep", 0), only = rt_param("row", ~0u), from = rt_param("from", 0), family = rt_param("family", 0), again = rt_param("again", 0);
    allow("5LexerC", "the file text is concrete");
    allow("5Lexer3Lex", "the file text is concrete");
    allow("5Lexer13getSourceText", "the file text is concrete");
    allow("5Lexer14getAsCharRange", "the file text is concrete");
    allow("getQualifiedNameAsString", "modelled: symbolic names are put back into what it returns");
    allow("getAsString", "as above");
    allow("getSpellingLineNumber", "the file text is concrete");
    allow("__cxa_atexit", "registers a destructor");
    allow("libclang-cpp.so", "matchers are registered for family 5 only, and compare the symbolic name with names of other lengths");
    for (unsigned i = 0; i < sizeof ROWS / sizeof *ROWS; ++i) {
        if ((only != ~0u && only != i) || i < from)
            continue;
        const Row &row = ROWS[i];
        if (family && family != familyOf(row.check))
            continue;
        bool inverse = *row.names == '!' || *row.names == '?';
        auto names = split(row.names + inverse);
        std::vector<unsigned> lens;
        for (auto &x : names) {
            lens.push_back(example(x.name).size());
            if (x.name.find('*') != std::string::npos)
                lens.push_back(lens.back() + 2);
        }
        std::sort(lens.begin(), lens.end());
        lens.erase(std::unique(lens.begin(), lens.end()), lens.end());
        // one length no name has
        for (unsigned l = lens.back(); l > 1; --l)
            if (!std::binary_search(lens.begin(), lens.end(), l) || l == lens.back() + 1) {
                lens.push_back(l);
                break;
            }
        if (deep)
            lens.push_back(*std::max_element(lens.begin(), lens.end()) + 1);
        unsigned k = 0;
        const Row *other = nullptr;
        if (again) { // another one about the same check, or about any
            const unsigned n = sizeof ROWS / sizeof *ROWS;
            other = &ROWS[(i + 1) % n];
            for (unsigned j = 1; j < n; ++j)
                if (!strcmp(ROWS[(i + j) % n].check, row.check)) {
                    other = &ROWS[(i + j) % n];
                    break;
                }
        }
        if (again && !deep) // the first name and one that is none
            lens = {(unsigned)(inverse ? lens[0] : example(names[0].name).size())};
        for (unsigned len : lens) {
            unsigned nctx = row.expr ? 4 : 1;
            for (unsigned c = 0; c < nctx; ++c) {
                // each length in one context, in turn
                if (!deep && nctx > 1 && (i + k) % nctx != c)
                    continue;
                explore((std::string(row.check) + "-" + std::to_string(i) + "-" + std::to_string(len) + "-" + std::to_string(c)).c_str(),
                        [=, &row] {
                            check(row, names, inverse, len, c, other);
                        });
            }
            ++k;
        }
    }
    if (family == 4 && !again && only == ~0u)
        for (unsigned i = 0; i < sizeof USES / sizeof *USES; ++i)
            for (unsigned params = 1; params <= 2 + deep; ++params)
                explore(("used-qunused-" + std::to_string(i) + "-" + std::to_string(params)).c_str(), [=] {
                    parameters(USES[i], params);
                });
    if (family == 5 && !again && only == ~0u)
        for (unsigned fields = 1; fields <= 3; ++fields)
            for (unsigned terms = 1; terms <= fields + (deep && fields > 1); ++terms)
                for (unsigned layout = 0; layout < 5; ++layout)
                    for (bool object : {false, true})
                        for (const char *op : {"==", "!=", "<", ">", "<=", ">="})
                            if ((terms > 1 || !object || layout == 4) && (layout != 4 || terms <= fields) && (deep || *op == "=!<>"[(fields + terms + layout) % 4]))
                                explore(("compare-member-" + std::to_string(fields) + std::to_string(terms) + std::to_string(layout) + (object ? "v" : "i") + op).c_str(),
                                        [=] {
                                            members(fields, terms, layout, object, op);
                                        });
    rt_expect_reach("reported");
    rt_expect_reach("silent");
    if (again)
        rt_expect_reach("reported before");
    rt_finish();
}
