#include "h.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "llvm/Support/VirtualFileSystem.h"

#include <dlfcn.h>

namespace h
{
namespace seam
{
std::function<bool(SourceLocation, PresumedLoc &)> presumedLoc;
std::function<void(llvm::json::Value &)> json;
std::vector<std::pair<unsigned, std::string>> customDiags;
bool recordCustomDiags = false;
int primaryFile = -1;
}
}
namespace clang
{
PresumedLoc SourceManager::getPresumedLoc(SourceLocation l, bool useLineDirectives) const
{
    PresumedLoc r;
    if (h::seam::presumedLoc && h::seam::presumedLoc(l, r))
        return r;
    using F = PresumedLoc (*)(const SourceManager *, SourceLocation, bool);
    static F f = (F)dlsym(RTLD_NEXT, "_ZNK5clang13SourceManager14getPresumedLocENS_14SourceLocationEb");
    return f(this, l, useLineDirectives);
}
}
namespace clang
{
unsigned DiagnosticIDs::getCustomDiagID(CustomDiagDesc desc)
{
    using F = unsigned (*)(DiagnosticIDs *, CustomDiagDesc *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN5clang13DiagnosticIDs15getCustomDiagIDENS0_14CustomDiagDescE");
    if (!h::seam::recordCustomDiags)
        return f(this, &desc);
    // the engine gets a placeholder of its own for each text
    CustomDiagDesc copy(desc.GetDefaultSeverity(), "text " + std::to_string(h::seam::customDiags.size()), desc.GetClass(), desc.ShouldShowInSystemHeader());
    unsigned id = f(this, &copy);
    h::seam::customDiags.push_back({id, std::string(desc.GetDescription())});
    return id;
}
}
namespace llvm::json
{
Expected<Value> parse(StringRef text)
{
    using F = Expected<Value> (*)(StringRef);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN4llvm4json5parseENS_9StringRefE");
    Expected<Value> v = f(text);
    if (v && h::seam::json)
        h::seam::json(*v);
    return v;
}
}

namespace clang
{
bool Preprocessor::isInPrimaryFile() const
{
    if (h::seam::primaryFile >= 0)
        return h::seam::primaryFile;
    using F = bool (*)(const Preprocessor *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZNK5clang12Preprocessor15isInPrimaryFileEv");
    return f(this);
}
}

namespace h
{
std::vector<Placeholder> placeholders;
CheckSpec byName(const std::string &name)
{
    for (const RegisteredCheck &c : CheckManager::instance()->availableChecks(ManualCheckLevel))
        if (c.name == name) {
            auto f = c.factory;
            return {name, [f] { return f(); }, (int)c.options};
        }
    fprintf(stderr, "harness: no check is registered as '%s'\n", name.c_str());
    exit(4);
}
void collect(ASTContext &c, std::vector<Stmt *> &s, std::vector<Decl *> &d)
{
    AllNodes v;
    v.TraverseDecl(c.getTranslationUnitDecl());
    s = std::move(v.s);
    d = std::move(v.d);
}
char *Env::identifier(llvm::StringRef placeholder, const char *name)
{
    char *p = const_cast<char *>(ci->getPreprocessor().getIdentifierInfo(placeholder)->getNameStart());
    placeholders.push_back({p, placeholder.str()});
    rt_make_symbolic(p, placeholder.size(), name);
    return p;
}
void Env::replay()
{
    PPCallbacks *c = ci->getPreprocessor().getPPCallbacks();
    auto all = std::move(events); // (the chain ends at the recorder)
    for (auto &e : all)
        e(*c);
    seam::primaryFile = -1;
}
StringLiteral *Env::stringLiteral(llvm::StringRef content)
{
    for (auto *l : stmts<StringLiteral>())
        if (l->getBytes() == content)
            return l;
    fprintf(stderr, "harness: no string literal '%s'\n", content.str().c_str());
    exit(4);
}
IntegerLiteral *Env::intLiteral(uint64_t v)
{
    for (auto *l : stmts<IntegerLiteral>())
        if (l->getValue().getBitWidth() <= 64 && l->getValue().getZExtValue() == v)
            return l;
    fprintf(stderr, "harness: no integer literal %llu\n", (unsigned long long)v);
    exit(4);
}
void symLiteral(StringLiteral *l, const char *name)
{
    auto b = l->getBytes();
    rt_make_symbolic(const_cast<char *>(b.data()), b.size(), name);
}
uint64_t *intStorage(IntegerLiteral *l)
{
    return reinterpret_cast<uint64_t *>(static_cast<APIntStorage *>(l));
}
void symIntLiteral(IntegerLiteral *l, const char *name)
{
    unsigned w = l->getValue().getBitWidth();
    uint64_t *p = intStorage(l);
    rt_make_symbolic_int(p, w / 8, name);
}
char *identBytes(const NamedDecl *d)
{
    return const_cast<char *>(d->getIdentifier()->getNameStart());
}

namespace
{
// the preprocessor's events, kept for later
struct Recorder : PPCallbacks {
    Env &env;
    SourceManager &sm;
    explicit Recorder(Env &e)
        : env(e)
        , sm(e.ci->getSourceManager())
    {
    }
    template<typename F>
    void keep(F f)
    {
        env.events.push_back(f);
    }
    void MacroExpands(const Token &t, const MacroDefinition &d, SourceRange r, const MacroArgs *) override
    {
        auto &def = *new auto(d);
        keep([=, &def](PPCallbacks &c) { c.MacroExpands(t, def, r, nullptr); });
    }
    void MacroDefined(const Token &t, const MacroDirective *d) override
    {
        keep([=](PPCallbacks &c) { c.MacroDefined(t, d); });
    }
    void MacroUndefined(const Token &t, const MacroDefinition &d, const MacroDirective *u) override
    {
        auto &def = *new auto(d);
        keep([=, &def](PPCallbacks &c) { c.MacroUndefined(t, def, u); });
    }
    void Defined(const Token &t, const MacroDefinition &d, SourceRange r) override
    {
        auto &def = *new auto(d);
        keep([=, &def](PPCallbacks &c) { c.Defined(t, def, r); });
    }
    void If(SourceLocation l, SourceRange r, ConditionValueKind k) override
    {
        keep([=](PPCallbacks &c) { c.If(l, r, k); });
    }
    void Elif(SourceLocation l, SourceRange r, ConditionValueKind k, SourceLocation i) override
    {
        keep([=](PPCallbacks &c) { c.Elif(l, r, k, i); });
    }
    void Ifdef(SourceLocation l, const Token &t, const MacroDefinition &d) override
    {
        auto &def = *new auto(d);
        keep([=, &def](PPCallbacks &c) { c.Ifdef(l, t, def); });
    }
    void Ifndef(SourceLocation l, const Token &t, const MacroDefinition &d) override
    {
        auto &def = *new auto(d);
        keep([=, &def](PPCallbacks &c) { c.Ifndef(l, t, def); });
    }
    void Else(SourceLocation l, SourceLocation i) override
    {
        keep([=](PPCallbacks &c) { c.Else(l, i); });
    }
    void Endif(SourceLocation l, SourceLocation i) override
    {
        keep([=](PPCallbacks &c) { c.Endif(l, i); });
    }
    void InclusionDirective(SourceLocation hash, const Token &t, StringRef name, bool angled, CharSourceRange r, OptionalFileEntryRef f, StringRef search, StringRef relative,
                            const clang::Module *m, bool imported, SrcMgr::CharacteristicKind k) override
    {
        auto &n = *new std::string(name), &s = *new std::string(search), &rel = *new std::string(relative);
        env.included.push_back(&n);
        keep([=, this, &n, &s, &rel](PPCallbacks &c) {
            seam::primaryFile = sm.isInMainFile(hash);
            c.InclusionDirective(hash, t, n, angled, r, f, s, rel, m, imported, k);
        });
    }
};
void setUp(const TU &tu, Env &env)
{
    CompilerInstance &ci = *env.ci;
    Env *e = &env;
    std::optional<ClazyContext::WarningReporter> reporter;
    if (!tu.defaultReporter)
        reporter = [e](std::string check, const SourceLocation &loc, DiagnosticIDs::Level level, std::string error, const std::vector<FixItHint> &fixits) {
            e->reported.push_back({check, loc, level, error, fixits});
        };
    env.ctx = new ClazyContext(
        &ci.getASTContext(), ci.getSourceManager(), ci.getASTContext().getLangOpts(), ci.getPreprocessor().getPreprocessorOpts(), tu.headerFilter, tu.ignoreDirs, tu.lineFilter,
        tu.exportFixes, tu.translationUnits, tu.options, reporter, tu.tidy);
    env.ctx->registerPreprocessorCallbacks(ci.getPreprocessor());
    env.consumer = new ClazyASTConsumer(env.ctx);
    for (auto &s : tu.checks) {
        CheckBase *c = s.make();
        c->m_context = env.ctx;
        if (s.options & RegisteredCheck::Option_PreprocessorCallbacks)
            c->enablePreProcessorCallbacks(ci.getPreprocessor());
        RegisteredCheck rc = {s.name, CheckLevel0, nullptr, s.options};
        env.consumer->addCheck({c, rc});
        env.checks.push_back(c);
    }
}
struct Consumer : ASTConsumer {
    const TU &tu;
    Env &env;
    const std::function<void(Env &)> &body;
    Consumer(const TU &t, Env &e, const std::function<void(Env &)> &b)
        : tu(t)
        , env(e)
        , body(b)
    {
    }
    void HandleTranslationUnit(ASTContext &c) override
    {
        env.ast = &c;
        if (tu.replay && tu.prepare)
            tu.prepare(*env.ci);
        if (tu.makeContext && tu.replay)
            setUp(tu, env);
        if (env.ctx)
            env.ctx->astContext = &c;
        body(env);
    }
};
struct Action : ASTFrontendAction {
    const TU &tu;
    const std::function<void(Env &)> &body;
    Env &env;
    Action(const TU &t, const std::function<void(Env &)> &b, Env &e)
        : tu(t)
        , body(b)
        , env(e)
    {
    }
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override
    {
        env.ci = &ci;
        if (tu.begin)
            tu.begin(ci);
        if (tu.replay)
            ci.getPreprocessor().addPPCallbacks(std::make_unique<Recorder>(env));
        else if (tu.makeContext)
            setUp(tu, env);
        return std::make_unique<Consumer>(tu, env, body);
    }
};
}

void withTU(const TU &tu, const std::function<void(Env &)> &body)
{
    static Env *keep; // path processes never unwind
    Env *env = new Env;
    keep = env;
    tooling::FileContentMappings maps(tu.files.begin(), tu.files.end());
    bool ran = false;
    std::function<void(Env &)> b = [&](Env &e) {
        ran = true;
        if (!tu.allowErrors && e.ci->getDiagnostics().hasErrorOccurred()) {
            fprintf(stderr, "harness: the template translation unit does not compile\n");
            exit(4);
        }
        body(e);
        if (tu.last)
            rt_path_end(); // tearing the compiler down is not part of it
    };
    auto &pch = *new auto(std::make_shared<PCHContainerOperations>()); // never torn down
    tooling::runToolOnCodeWithArgs(std::make_unique<Action>(tu, b, *env), tu.code, tu.args, tu.file, "clazy-sym", pch, maps);
    if (!ran) {
        fprintf(stderr, "harness: the template translation unit was not parsed\n");
        exit(4);
    }
}

// What uninstrumented code may be handed although symbolic memory is reachable from an argument:
// it does not look at the contents of literals. (A later entry overrides an earlier one; "!" = no.)
void allowNative()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    rt_allow_native("_ZdlPv", "operator delete");
    rt_allow_native("_ZdaPv", "operator delete[]");
    rt_allow_native("=free", "frees");
    rt_allow_native("basic_ios", "stream state");
    rt_allow_native("ios_base", "stream state");
    rt_allow_native("6locale", "stream state");
    rt_allow_native("putenv", "stores the pointer");
    rt_allow_native("_Rb_tree", "red-black tree rebalancing: links only");
    rt_allow_native("_ZN5clang", "AST/source navigation: does not read literal contents");
    rt_allow_native("_ZNK5clang", "AST/source navigation: does not read literal contents");
    for (const char *no : {"Evaluate", "5Lexer", "8Rewriter", "AsString", "5print", "4dump", "NullPointerConstant", "ConstantExpr", "Preprocessor", "outputString", "13StringLiteral",
                           "Token", "getSpelling", "FixItHint", "17DiagnosticBuilder", "APValue", "14IntegerLiteral", "16CharacterLiteral"})
        rt_allow_native(no, "!");
}

void allow(const char *substr, const char *why)
{
    allowNative();
    rt_allow_native(substr, why);
}
void explore(const char *name, const std::function<void()> &path)
{
    allowNative();
    rt_explore(
        name,
        [](void *p) {
            (*static_cast<const std::function<void()> *>(p))();
        },
        const_cast<void *>(static_cast<const void *>(&path)));
}
}
