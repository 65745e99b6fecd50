// Which checks run, as a function of the plugin arguments / --checks and CLAZY_CHECKS, against
// a reference evaluated over the documented tables in checks.json.
#include "checkmanager.h"
#include "h.h"
#include "checks.json.h"
#include "llvm/Support/JSON.h"
#include <fcntl.h>
#include <set>
#include <unistd.h>
using namespace h;

struct Ref {
    std::string name;
    int level; // 0..2, 3 manual
    std::vector<std::string> fixits;
    int options = 0;
    bool canIgnore = false;
};
static std::vector<Ref> refs;

static void loadRefs()
{
    auto v = llvm::json::parse(SUPPORTED_CHECKS_JSON_STR);
    if (!v) {
        fprintf(stderr, "checks.json does not parse\n");
        exit(4);
    }
    for (auto &c : *v->getAsObject()->getArray("checks")) {
        auto *o = c.getAsObject();
        Ref r;
        r.name = o->getString("name")->str();
        int64_t l = *o->getInteger("level");
        r.level = l < 0 ? 3 : (int)l;
        if (auto *f = o->getArray("fixits"))
            for (auto &x : *f)
                r.fixits.push_back("fix-" + x.getAsObject()->getString("name")->str());
        auto flag = [&](const char *n) {
            return o->getBoolean(n).value_or(false);
        };
        r.options = (flag("visits_stmts") ? RegisteredCheck::Option_VisitsStmts : 0) | (flag("visits_decls") ? RegisteredCheck::Option_VisitsDecls : 0)
            | (flag("preprocessor_callbacks") ? RegisteredCheck::Option_PreprocessorCallbacks : 0)
            | (flag("visit_all_typedefs") ? RegisteredCheck::Option_VisitAllTypeDefs : 0);
        r.canIgnore = flag("can_ignore_includes");
        refs.push_back(r);
    }
    std::sort(refs.begin(), refs.end(), [](auto &a, auto &b) {
        return a.name < b.name;
    });
}

using Tokens = std::vector<std::string>;
struct Sel {
    std::vector<uint8_t> on, off;
    uint8_t known = 0; // some token selects or deselects an existing check
    Sel()
        : on(refs.size())
        , off(refs.size())
    {
    }
};
static void levelOn(std::vector<uint8_t> &on, int level, uint8_t cond)
{
    for (size_t i = 0; i < refs.size(); ++i)
        if (refs[i].level <= level)
            on[i] |= cond;
}
// meaning of one comma separated list
static Sel meaning(const Tokens &t)
{
    Sel s;
    for (auto &tok : t) {
        for (size_t i = 0; i < refs.size(); ++i) {
            s.on[i] |= (uint8_t)eq(tok, refs[i].name);
            for (auto &f : refs[i].fixits)
                s.on[i] |= (uint8_t)eq(tok, f);
            s.off[i] |= (uint8_t)eq(tok, "no-" + refs[i].name);
        }
        for (int l = 0; l <= 2; ++l)
            levelOn(s.on, l, eq(tok, "level" + std::to_string(l)));
    }
    for (size_t i = 0; i < refs.size(); ++i)
        s.on[i] &= (uint8_t)(s.off[i] ^ 1);
    return s;
}
static uint8_t any(const std::vector<uint8_t> &v)
{
    uint8_t r = 0;
    for (auto x : v)
        r |= x;
    return r;
}
static std::string join(const Tokens &t)
{
    std::string r;
    for (size_t i = 0; i < t.size(); ++i) {
        if (i)
            r += ',';
        r += t[i];
    }
    return r;
}

static void check(const Tokens *arg, const Tokens *envToks, int levelArg, bool quoted = false, bool allChecks = false)
{
    std::vector<std::string> args;
    if (levelArg >= 0)
        args.push_back("level" + std::to_string(levelArg));
    if (arg)
        args.insert(args.begin(), join(*arg));
    if (envToks || allChecks) {
        // getenv returns a pointer into this buffer
        std::string v = allChecks ? "all_checks" : join(*envToks);
        if (quoted)
            v = "\"" + v + "\"";
        char *buf = (char *)malloc(v.size() + 14);
        memcpy(buf, "CLAZY_CHECKS=", 13);
        for (size_t i = 0; i < v.size(); ++i)
            buf[13 + i] = v[i];
        buf[13 + v.size()] = 0;
        putenv(buf);
    } else
        unsetenv("CLAZY_CHECKS");

    // reference
    Sel a = arg ? meaning(*arg) : Sel(), e = envToks ? meaning(*envToks) : Sel();
    if (allChecks)
        levelOn(e.on, 2, 1);
    std::vector<uint8_t> want(refs.size());
    for (size_t i = 0; i < refs.size(); ++i)
        want[i] = a.on[i] | e.on[i];
    if (levelArg >= 0)
        levelOn(want, levelArg, 1);
    else
        levelOn(want, 1, any(want) ^ 1);
    for (size_t i = 0; i < refs.size(); ++i)
        want[i] &= (uint8_t)((a.off[i] | e.off[i]) ^ 1);
    // an argument naming nothing that exists selects nothing at all
    uint8_t argBad = arg ? (uint8_t)((any(a.on) | any(a.off)) ^ 1) : 0;
    for (size_t i = 0; i < refs.size(); ++i)
        want[i] &= (uint8_t)(argBad ^ 1);

    for (int round = 0; round < 2; ++round) { // asking again gives the same answer
        auto copy = args;
        auto got = CheckManager::instance()->requestedChecks(copy);
        std::vector<uint8_t> have(refs.size());
        bool sorted = true;
        for (size_t i = 0; i < got.size(); ++i) {
            size_t k = 0;
            while (k < refs.size() && !(refs[k].name == got[i].name))
                ++k;
            SYM_ASSERT(k < refs.size(), "only documented checks can be selected");
            SYM_ASSERT(!have[k], "a check is selected once");
            have[k] = 1;
            if (i)
                sorted &= got[i - 1].name < got[i].name;
        }
        SYM_ASSERT(sorted, "the selection is in name order");
        uint8_t diff = 0;
        for (size_t i = 0; i < refs.size(); ++i)
            diff |= want[i] ^ have[i];
        SYM_ASSERT(!diff, "the selected checks are what the arguments and CLAZY_CHECKS ask for");
        if (got.empty())
            rt_reach("empty");
        else if (got.size() == 1)
            rt_reach("single");
        else
            rt_reach("many");
    }
}
static std::string symTok(const char *name, unsigned n)
{
    return symString(name, n, 'z', [](unsigned char c) {
        return (c != 0) & (c != ',');
    });
}
static void quiet()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
}

int main()
{
    loadRefs();
    allow("raw_ostream", "diagnostics on stderr");
    unsigned combo = rt_param("combo", 1);
    unsigned maxLen = rt_param("maxtok", 48);
    // the registered checks are the documented ones, with the documented levels and hooks
    explore("registry", [] {
        auto l = symRange<uint8_t>("level", 0, 3);
        rt_pick(&l, 1);
        auto list = CheckManager::instance()->availableChecks((CheckLevel)l);
        std::set<std::string> have;
        for (auto &c : list) {
            SYM_ASSERT(have.insert(c.name).second, "a check is registered once");
            const Ref *r = nullptr;
            for (auto &x : refs)
                if (x.name == c.name)
                    r = &x;
            SYM_ASSERT(r != nullptr, "a registered check is documented");
            SYM_ASSERT(r->level == (int)c.level, "a check is registered at its documented level");
            SYM_ASSERT(r->options == c.options, "a check is hooked to the documented kinds of code");
            CheckBase *b = c.factory();
            SYM_ASSERT(b && b->name() == c.name, "the check created reports under its own name");
            SYM_ASSERT(b->canIgnoreIncludes() == r->canIgnore, "a check can ignore includes exactly as documented");
        }
        for (auto &x : refs)
            SYM_ASSERT((have.count(x.name) == 1) == (x.level <= (int)l), "a level offers exactly the documented checks");
        uint8_t probe = l;
        SYM_ASSERT(probe <= 3, "level");
    });
    std::set<size_t> lens;
    for (unsigned n = 1; n <= maxLen; ++n)
        lens.insert(n);
    const Tokens firsts = {"level0", "level2", "qcolor-from-literal", "no-qcolor-from-literal", "fix-qt-keywords", "bogus", ""};
    std::vector<std::string> known;
    // only lengths at which some token means something, plus short ones
    std::set<size_t> meaningful;
    for (auto &r : refs) {
        meaningful.insert(r.name.size());
        meaningful.insert(r.name.size() + 3);
        for (auto &f : r.fixits)
            meaningful.insert(f.size());
    }
    for (size_t n : lens) {
        std::string sn = std::to_string(n);
        if (combo < 2 && !meaningful.count(n) && n > 8 && n % 5)
            continue;
        explore(("arg-" + sn).c_str(), [=] {
            quiet();
            Tokens t = {symTok("token", n)};
            check(&t, nullptr, -1);
        });
        if (combo < 2 && n % 3 && n != 7 && n != 10)
            continue;
        explore(("env-" + sn).c_str(), [=] {
            quiet();
            Tokens t = {symTok("token", n)};
            // (a value quoted by the user is another exploration; the word all_checks too)
            if (n >= 3)
                SYM_ASSUME(!((t[0][0] == '"') & (t[0][n - 1] == '"')));
            SYM_ASSUME(!eq(t[0], "all_checks"));
            check(nullptr, &t, -1);
        });
    }
    // combinations: concrete neighbours on either side of the token, from either source
    for (size_t n : lens) {
        if (!meaningful.count(n) && n > 7)
            continue;
        if (!combo && n > 12)
            continue;
        std::string sn = std::to_string(n);
        for (size_t f = 0; f < firsts.size(); ++f) {
            if (combo < 2 && (n + f) % 7) // (every pair of length and neighbour only in the thorough run)
                continue;
            int variant = 0;
            auto skip = [&] {
                return combo < 2 && (n / 7 + f + variant++) % 3;
            };
            if (!skip())
            explore(("list-" + sn + "-" + std::to_string(f)).c_str(), [=] {
                quiet();
                Tokens t = {firsts[f], symTok("token", n)};
                check(&t, nullptr, -1);
            });
            if (!skip())
            explore(("list-rev-" + sn + "-" + std::to_string(f)).c_str(), [=] {
                quiet();
                Tokens t = {symTok("token", n), firsts[f], "qenums"};
                Tokens e = {"qstring-arg", "no-qenums"};
                check(&t, &e, -1);
            });
            if (!skip())
            explore(("env-list-" + sn + "-" + std::to_string(f)).c_str(), [=] {
                quiet();
                Tokens t = {firsts[f], symTok("token", n)};
                if (n + firsts[f].size() >= 3)
                    SYM_ASSUME(t[0].empty() || t[0][0] != '"');
                check(nullptr, &t, -1, f & 1);
            });
            if (!skip())
            explore(("arg-and-env-" + sn + "-" + std::to_string(f)).c_str(), [=] {
                quiet();
                Tokens t = {symTok("token", n)};
                Tokens e = {firsts[f]};
                check(&t, &e, (int)(n % 4) - 1);
            });
            if (!skip())
            explore(("level-and-env-" + sn + "-" + std::to_string(f)).c_str(), [=] {
                quiet();
                Tokens a = {firsts[f]};
                Tokens e = {symTok("token", n)};
                SYM_ASSUME(!eq(e[0], "all_checks"));
                if (n >= 3)
                    SYM_ASSUME(!((e[0][0] == '"') & (e[0][n - 1] == '"')));
                if (firsts[f].compare(0, 5, "level") == 0)
                    check(nullptr, &e, firsts[f][5] - '0');
                else
                    check(&a, &e, (int)(n % 4) - 1);
            });
        }
    }
    explore("all-checks", [] {
        quiet();
        Tokens t = {symTok("token", 9)};
        check(&t, nullptr, -1, false, true);
    });
    for (size_t n : meaningful) {
        std::string sn = std::to_string(n);
        explore(("as-errors-" + sn).c_str(), [=] {
            quiet();
            std::string t = symTok("token", n);
            std::string v = "qenums,bogus," + t + ",qstring-arg";
            char *buf = (char *)malloc(v.size() + 24);
            memcpy(buf, "CLAZY_CHECKS_AS_ERRORS=", 23);
            for (size_t i = 0; i <= v.size(); ++i)
                buf[23 + i] = v.c_str()[i];
            putenv(buf);
            auto r = CheckManager::instance()->checksAsErrors();
            uint8_t isCheck = 0;
            for (auto &x : refs)
                isCheck |= (uint8_t)eq(t, x.name);
            SYM_ASSERT(r.size() == 2u + isCheck, "CLAZY_CHECKS_AS_ERRORS keeps exactly the names of existing checks");
            SYM_ASSERT(eq(r.front(), "qenums") & eq(r.back(), "qstring-arg"), "CLAZY_CHECKS_AS_ERRORS keeps the listed checks");
            if (r.size() == 3) {
                SYM_ASSERT(eq(r[1], t), "CLAZY_CHECKS_AS_ERRORS keeps the listed checks");
                rt_reach("as-error");
            }
        });
    }
    rt_expect_reach("as-error");
    rt_expect_reach("empty");
    rt_expect_reach("single");
    rt_expect_reach("many");
    rt_finish();
}
