// Shared harness code: parse a template translation unit natively, build a real
// ClazyContext + checks + ClazyASTConsumer on it, let the solver vary the symbolic holes.
#pragma once
#include "symapi.h"

#include "AccessSpecifierManager.h"
#include "Clazy.h"
#include "ClazyContext.h"
#include "checkbase.h"
#include "checkmanager.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#define SYM_ASSERT(cond, what)                                                                                                                                 \
    do {                                                                                                                                                       \
        uint8_t sym_c_ = (cond) ? 1 : 0;                                                                                                                       \
        rt_assert(&sym_c_, what);                                                                                                                              \
    } while (0)
#define SYM_ASSUME(cond)                                                                                                                                       \
    do {                                                                                                                                                       \
        uint8_t sym_c_ = (cond) ? 1 : 0;                                                                                                                       \
        rt_assume(&sym_c_);                                                                                                                                    \
    } while (0)

namespace h
{
using namespace clang;

template<typename T>
inline T symInt(const char *name, T dflt = 0)
{
    T v = dflt;
    rt_make_symbolic_int(&v, sizeof(T), name);
    return v;
}
// an input in [lo, hi]
template<typename T>
inline T symRange(const char *name, T lo, T hi)
{
    T v = lo;
    rt_make_symbolic_int(&v, sizeof(T), name);
    SYM_ASSUME((v >= lo) & (v <= hi));
    return v;
}
inline bool symBool(const char *name)
{
    uint8_t v = 0;
    rt_make_symbolic_int(&v, 1, name);
    SYM_ASSUME(v <= 1);
    return v;
}
// one path per value
inline unsigned pick(const char *name, unsigned n)
{
    uint8_t v = 0;
    rt_make_symbolic_int(&v, 1, name);
    SYM_ASSUME(v < n);
    return (unsigned)rt_pick(&v, 1);
}
inline unsigned pick(const char *name, unsigned lo, unsigned hi)
{
    return lo + pick(name, hi - lo + 1);
}
// n symbolic bytes; class decides which byte values are allowed (branch free)
template<typename F>
inline std::string symString(const char *name, unsigned n, char dflt, F allowed)
{
    std::string s(n, dflt);
    if (n)
        rt_make_symbolic(s.data(), n, name);
    for (unsigned i = 0; i < n; ++i) {
        unsigned char c = s[i];
        uint8_t ok = allowed(c) ? 1 : 0;
        rt_assume(&ok);
    }
    return s;
}
inline bool ccPrint(unsigned char c)
{
    return (c >= 32) & (c < 127);
}
inline bool ccIdent(unsigned char c)
{
    return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_');
}
inline bool ccLower(unsigned char c)
{
    return (c >= 'a') & (c <= 'z');
}
inline bool ccUpper(unsigned char c)
{
    return (c >= 'A') & (c <= 'Z');
}
inline bool ccDigit(unsigned char c)
{
    return (c >= '0') & (c <= '9');
}
// branch-free string comparison (one solver term instead of one path per position)
inline bool eq(const std::string &a, const std::string &b)
{
    if (a.size() != b.size())
        return false;
    uint8_t d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d |= (uint8_t)(a[i] ^ b[i]);
    return d == 0;
}
inline bool eqAt(const std::string &a, size_t pos, const char *lit)
{
    size_t n = strlen(lit);
    if (pos + n > a.size())
        return false;
    uint8_t d = 0;
    for (size_t i = 0; i < n; ++i)
        d |= (uint8_t)(a[pos + i] ^ lit[i]);
    return d == 0;
}
inline bool containsLit(const std::string &a, const char *lit)
{
    bool r = false;
    for (size_t i = 0; i + strlen(lit) <= a.size(); ++i)
        r |= eqAt(a, i, lit);
    return r;
}

struct Reported {
    std::string check;
    SourceLocation loc;
    DiagnosticIDs::Level level;
    std::string message;
    std::vector<FixItHint> fixits;
};

struct Env {
    CompilerInstance *ci = nullptr;
    ASTContext *ast = nullptr;
    ClazyContext *ctx = nullptr;
    ClazyASTConsumer *consumer = nullptr;
    std::vector<CheckBase *> checks;
    std::vector<Reported> reported;
    std::vector<std::function<void(PPCallbacks &)>> events; // with TU::replay: what the preprocessor reported
    std::vector<std::string *> included; // the names of included files, in order
    void replay(); // report it to clazy, now

    SourceManager &sm()
    {
        return ci->getSourceManager();
    }
    void run()
    {
        consumer->HandleTranslationUnit(*ast);
    }
    unsigned line(SourceLocation l)
    {
        return sm().getSpellingLineNumber(sm().getExpansionLoc(l));
    }
    // all nodes of a kind, in source order
    template<typename T>
    std::vector<T *> stmts();
    template<typename T>
    std::vector<T *> decls();
    // the bytes of an identifier of the template; they become inputs
    char *identifier(llvm::StringRef placeholder, const char *name);
    StringLiteral *stringLiteral(llvm::StringRef content);
    IntegerLiteral *intLiteral(uint64_t value);
};

struct AllNodes : RecursiveASTVisitor<AllNodes> {
    std::vector<Stmt *> s;
    std::vector<Decl *> d;
    bool shouldVisitImplicitCode() const
    {
        return true;
    }
    bool VisitStmt(Stmt *x)
    {
        s.push_back(x);
        return true;
    }
    bool VisitDecl(Decl *x)
    {
        d.push_back(x);
        return true;
    }
};
void collect(ASTContext &, std::vector<Stmt *> &, std::vector<Decl *> &);
template<typename T>
std::vector<T *> Env::stmts()
{
    std::vector<Stmt *> s;
    std::vector<Decl *> d;
    collect(*ast, s, d);
    std::vector<T *> r;
    for (auto *x : s)
        if (auto *t = dyn_cast<T>(x))
            r.push_back(t);
    return r;
}
template<typename T>
std::vector<T *> Env::decls()
{
    std::vector<Stmt *> s;
    std::vector<Decl *> d;
    collect(*ast, s, d);
    std::vector<T *> r;
    for (auto *x : d)
        if (auto *t = dyn_cast<T>(x))
            r.push_back(t);
    return r;
}

struct CheckSpec {
    std::string name;
    std::function<CheckBase *()> make;
    int options = RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls;
};
template<typename T>
CheckSpec spec(const char *name, int options = RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls)
{
    return {name, [name] { return new T(name); }, options};
}

struct TU {
    std::string code;
    std::string file = "main.cpp";
    std::vector<std::string> args = {"-std=c++17"};
    std::vector<std::pair<std::string, std::string>> files; // virtual headers
    std::vector<CheckSpec> checks;
    int options = ClazyContext::ClazyOption_None;
    std::string headerFilter, ignoreDirs, lineFilter, exportFixes;
    std::vector<std::string> translationUnits; // what clazy-standalone was asked to process
    bool makeContext = true;
    bool tidy = false;
    bool allowErrors = false;
    bool defaultReporter = false; // warnings go to the compiler's diagnostics engine
    std::function<void(CompilerInstance &)> begin; // before clazy is set up and the file is read
    std::function<void(CompilerInstance &)> prepare; // with replay: after parsing, before clazy is set up
    bool last = true; // the path ends with this translation unit
    bool replay = false; // clazy is set up after parsing and gets the preprocessor's events from Env::replay
};
// parse the TU natively and call body(env) with everything set up
void withTU(const TU &tu, const std::function<void(Env &)> &body);

// Seams: library calls whose result a harness may replace (they do what they always do otherwise).
namespace seam
{
extern std::function<bool(SourceLocation, PresumedLoc &)> presumedLoc; // SourceManager::getPresumedLoc
extern std::function<void(llvm::json::Value &)> json; // edits what llvm::json::parse returned
extern std::vector<std::pair<unsigned, std::string>> customDiags; // id and text of every custom diagnostic (may be symbolic)
extern bool recordCustomDiags;
extern int primaryFile; // Preprocessor::isInPrimaryFile, if not negative
}
// a check the way the registry offers it
CheckSpec byName(const std::string &name);
struct EnvVar { // set (or unset) for as long as the path lasts
    EnvVar(const char *name, const char *value)
    {
        if (value)
            setenv(name, value, 1);
        else
            unsetenv(name);
    }
};

// rt_explore on a closure
void allow(const char *substr, const char *why); // rt_allow_native, taking precedence over the shared list
void explore(const char *name, const std::function<void()> &path);

void symLiteral(StringLiteral *l, const char *name); // all bytes
uint64_t *intStorage(IntegerLiteral *l);
void symIntLiteral(IntegerLiteral *l, const char *name); // full 64-bit storage, masked to the type's width
// bytes of an identifier's spelling
char *identBytes(const NamedDecl *d);
// identifiers that hold symbolic bytes, and what they were in the template
struct Placeholder {
    char *bytes;
    std::string text;
};
extern std::vector<Placeholder> placeholders;
}
