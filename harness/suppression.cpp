// Comments that silence warnings: clazy:skip / excludeall / exclude / exclude-next-line (SYM_family=0)
// and NOLINT / NOLINTNEXTLINE / NOLINTBEGIN / NOLINTEND (SYM_family=1).
#include "h.h"
using namespace h;

struct Probe : CheckBase {
    using CheckBase::CheckBase;
    void emit(SourceLocation l)
    {
        emitWarning(l, "probe");
    }
};
static const std::vector<std::string> NAMES = {"aa", "aa-b", "b"};

// ---- what the comments mean, branch free over the comment's bytes
static bool space(unsigned char c)
{
    return (c == ' ') | ((c >= 9) & (c <= 13));
}
// the comma separated list starting at `from` and ending at the first white space names `check`
static bool listed(const std::string &s, size_t from, const std::string &check)
{
    bool in = true, r = false;
    for (size_t k = from; k + check.size() <= s.size(); ++k) {
        if (k > from)
            in &= !space(s[k - 1]);
        bool start = k == from ? true : s[k - 1] == ',';
        size_t e = k + check.size();
        bool end = e == s.size() ? true : (s[e] == ',') | space(s[e]);
        r |= in & start & end & eqAt(s, k, check.c_str());
    }
    return r;
}
// (anchored behind the first "clazy:")
static bool directive(const std::string &s, const char *word, const std::string &check)
{
    bool r = false;
    size_t n = strlen(word);
    for (size_t i = 0; i + n < s.size(); ++i)
        r |= eqAt(s, i, word) & listed(s, i + n, check);
    return r;
}
// text between parentheses: entries separated by commas, blanks around an entry do not matter
static bool globAt(const std::string &s, size_t from, size_t to, const std::string &name)
{
    // NFA over name: st[k] = the first k characters of name are matched
    std::vector<uint8_t> st(name.size() + 1);
    st[0] = 1;
    for (size_t i = from; i < to; ++i) {
        bool star = s[i] == '*';
        std::vector<uint8_t> nx(name.size() + 1);
        for (size_t k = 0; k <= name.size(); ++k) {
            uint8_t any = 0;
            for (size_t j = 0; j <= k; ++j)
                any |= st[j];
            nx[k] = star & any;
            if (k)
                nx[k] |= (!star) & st[k - 1] & (name[k - 1] == s[i]);
        }
        st = nx;
    }
    return st[name.size()];
}
// does [from,to) contain an entry clazy-<glob> that matches name?
static bool globListed(const std::string &s, size_t from, size_t to, const std::string &name)
{
    bool r = false;
    for (size_t a = from; a < to; ++a) {
        // entry starts at a: after '(' or ',' and blanks
        bool start = a == from, blanks = true;
        for (size_t b = a; b > from; --b) {
            start |= blanks & (s[b - 1] == ',');
            blanks &= s[b - 1] == ' ';
        }
        start |= blanks;
        for (size_t e = a + 6; e <= to; ++e) {
            bool end = e == to, bl = true;
            for (size_t x = e; x < to; ++x) {
                end |= bl & (s[x] == ',');
                bl &= s[x] == ' ';
            }
            end |= bl;
            bool noComma = true;
            for (size_t x = a; x < e; ++x)
                noComma &= s[x] != ',';
            if (e > a + 6 || !name.empty())
                r |= start & end & noComma & eqAt(s, a, "clazy-") & (s[e - 1] != ' ') & globAt(s, a + 6, e, name);
        }
    }
    return r;
}

struct Slot { // one comment of the template
    unsigned file; // 0 main, 1 header
    unsigned line;
    size_t offset;
    std::string text; // without the leading "//"
};
struct Doc {
    std::vector<std::string> files; // 0 main, 1 header
    std::vector<Slot> slots;
};
// lines of a file; a trailing "@" marks a comment slot
static std::string layout(Doc &d, unsigned file, const std::vector<std::string> &lines, const std::vector<std::string> &texts, size_t &ti, bool finalNewline)
{
    std::string out;
    for (size_t i = 0; i < lines.size(); ++i) {
        std::string l = lines[i];
        if (!l.empty() && l.back() == '@') {
            l.pop_back();
            l += "//";
            d.slots.push_back({file, (unsigned)i + 1, out.size() + l.size(), texts[ti]});
            l += texts[ti++];
        }
        out += l;
        if (i + 1 < lines.size() || finalNewline)
            out += '\n';
    }
    return out;
}

struct Case {
    const char *name;
    std::vector<std::string> header, main, texts;
    unsigned symSlot; // index into texts
    bool finalNewline = true;
};
static bool bare(const std::string &s, const char *word) // word not followed by a list
{
    size_t n = strlen(word);
    bool r = false;
    for (size_t i = 0; i + n <= s.size(); ++i) {
        bool next = i + n == s.size() ? true : !ccIdent(s[i + n]) & (s[i + n] != '(');
        r |= eqAt(s, i, word) & next;
    }
    return r;
}
// word(list) with the list naming `check`
static bool withList(const std::string &s, const char *word, const std::string &check)
{
    size_t n = strlen(word);
    bool r = false;
    for (size_t i = 0; i + n + 2 <= s.size(); ++i) {
        if (!rt_is_symbolic(&s[i], 1) && !rt_is_symbolic(&s[i + 1], 1) && s[i] != word[0])
            continue;
        bool open = eqAt(s, i, word) & (s[i + n] == '(');
        bool before = true;
        for (size_t e = i + n + 1; e < s.size(); ++e) {
            bool close = before & (s[e] == ')');
            if (rt_is_symbolic(&s[e], 1) || s[e] == ')')
                r |= open & close & globListed(s, i + n + 1, e, check);
            before &= s[e] != ')';
        }
    }
    return r;
}
static bool silences(const std::string &s, const char *word, const std::string &check)
{
    return bare(s, word) | withList(s, word, check);
}

// the list behind word in a concrete comment: "" or "(...)"
static std::string listOf(const std::string &s, const char *word)
{
    size_t p = s.find(word);
    if (p == std::string::npos)
        return "";
    p += strlen(word);
    if (p >= s.size() || s[p] != '(')
        return "";
    return s.substr(p, s.find(')', p) - p + 1);
}
// s contains word followed by exactly this list
static bool hasList(const std::string &s, const char *word, const std::string &list)
{
    if (list.empty())
        return bare(s, word);
    return containsLit(s, (word + list).c_str());
}

static void run(const Case &c, size_t from, unsigned width, bool nolint)
{
    Doc d;
    d.files.resize(2);
    size_t ti = 0;
    std::vector<std::string> mainLines = c.main;
    d.files[0] = layout(d, 0, mainLines, c.texts, ti, c.finalNewline);
    d.files[1] = layout(d, 1, c.header, c.texts, ti, true);
    TU tu;
    tu.code = d.files[0];
    tu.files = {{"inc.h", d.files[1]}};
    tu.args = {"-std=c++17", "-I."};
    for (auto &n : NAMES)
        tu.checks.push_back({n, [n] { return new Probe(n); }, 0});
    withTU(tu, [&](Env &env) {
        SourceManager &sm = env.sm();
        FileID ids[2] = {sm.getMainFileID(), FileID()};
        for (auto &fe : env.decls<VarDecl>()) {
            FileID f = sm.getFileID(fe->getLocation());
            if (f != ids[0])
                ids[1] = f;
        }
        std::vector<std::string> text(d.slots.size());
        for (size_t i = 0; i < d.slots.size(); ++i) {
            Slot &s = d.slots[i];
            char *p = const_cast<char *>(sm.getBufferData(ids[s.file]).data()) + s.offset;
            if (i == c.symSlot) {
                size_t w = std::min<size_t>(width, s.text.size() - from);
                rt_make_symbolic(p + from, w, "comment");
                for (size_t k = 0; k < w; ++k) {
                    unsigned char ch = p[from + k];
                    uint8_t ok = (ch != '\n') & (ch != '\r') & (ch != 0) & (ch != '\\') & (ch != '?');
                    rt_assume(&ok);
                }
            }
            text[i] = std::string(p, s.text.size());
        }
        const std::string &t = text[c.symSlot];
        if (nolint) {
            // spellings whose meaning the documentation leaves open
            bool odd = containsLit(t, "NOLINT(*") | containsLit(t, "NOLINT()");
            for (size_t i = 0; i + 6 <= t.size(); ++i) {
                bool here = eqAt(t, i, "NOLINT");
                for (const char *w : {"", "NEXTLINE", "BEGIN", "END"}) {
                    size_t e = i + 6 + strlen(w);
                    if (e < t.size() && (!*w || eqAt(t, i + 6, w) || true)) {
                        bool isW = here & eqAt(t, i + 6, w);
                        bool longer = false;
                        if (!*w)
                            longer = eqAt(t, e, "NEXTLINE") | eqAt(t, e, "BEGIN") | eqAt(t, e, "END");
                        odd |= isW & !longer & ccIdent(t[e]); // NOLINTfoo
                        bool closed = false, empty = e + 1 < t.size() ? t[e + 1] == ')' : true;
                        for (size_t k = e + 1; k < t.size(); ++k)
                            closed |= t[k] == ')';
                        odd |= isW & (t[e] == '(') & (!closed | empty);
                    }
                }
            }
            // tabs inside a list; a second NOLINT behind the first
            for (size_t i = 0; i < t.size(); ++i)
                if (rt_is_symbolic(&t[i], 1))
                    odd |= ((t[i] >= 9) & (t[i] <= 13));
            SYM_ASSUME(!odd);
        }
        uint8_t wrong = 0, lost = 0, any = 0, some = 0;
        for (unsigned f = 0; f < 2; ++f) {
            if (ids[f].isInvalid())
                continue;
            unsigned nLines = 1;
            for (char ch : d.files[f])
                nLines += ch == '\n';
            if (c.finalNewline || f)
                --nLines;
            for (unsigned line = 1; line <= nLines; ++line)
                for (size_t n = 0; n < NAMES.size(); ++n) {
                    uint8_t want = 0;
                    for (size_t i = 0; i < text.size(); ++i) {
                        Slot &s = d.slots[i];
                        if (s.file != f)
                            continue;
                        const std::string &x = text[i];
                        if (!nolint) {
                            want |= (uint8_t)containsLit(x, "clazy:skip");
                            want |= (uint8_t)directive(x, "clazy:excludeall=", NAMES[n]);
                            want |= (uint8_t)((s.line == line) & directive(x, "clazy:exclude=", NAMES[n]));
                            want |= (uint8_t)((s.line + 1 == line) & directive(x, "clazy:exclude-next-line=", NAMES[n]));
                        } else {
                            if (s.line == line)
                                want |= (uint8_t)silences(x, "NOLINT", NAMES[n]);
                            if (s.line + 1 == line)
                                want |= (uint8_t)silences(x, "NOLINTNEXTLINE", NAMES[n]);
                            // blocks: from the begin to the end that closes it, with the same list
                            if (s.line <= line)
                                for (size_t j = i + 1; j < text.size(); ++j) {
                                    Slot &e = d.slots[j];
                                    if (e.file != f || e.line < line)
                                        continue;
                                    // (one of the two is concrete; the templates nest properly)
                                    int depth = 0;
                                    bool pair = true;
                                    for (size_t k = i; k <= j; ++k) {
                                        const std::string &o = c.texts[k];
                                        if (o.find("NOLINTBEGIN") != std::string::npos)
                                            ++depth;
                                        if (o.find("NOLINTEND") != std::string::npos)
                                            --depth;
                                        if (depth == 0 && k < j)
                                            pair = false;
                                    }
                                    if (!pair || depth != 0 || c.texts[i].find("NOLINTBEGIN") == std::string::npos)
                                        continue;
                                    uint8_t block = i == c.symSlot ? hasList(x, "NOLINTBEGIN", listOf(c.texts[j], "NOLINTEND"))
                                                                   : hasList(text[j], "NOLINTEND", listOf(c.texts[i], "NOLINTBEGIN"));
                                    want |= (uint8_t)silences(x, "NOLINTBEGIN", NAMES[n]) & block;
                                }
                        }
                    }
                    SourceLocation loc = sm.translateLineCol(ids[f], line, 1);
                    for (int again = 0; again < 2; ++again) { // several warnings on a line
                        size_t before = env.reported.size();
                        static_cast<Probe *>(env.checks[n])->emit(loc.getLocWithOffset(again ? 2 : 0));
                        uint8_t got = env.reported.size() == before;
                        wrong |= got & (want ^ 1);
                        lost |= (got ^ 1) & want;
                        any |= got;
                        some |= got ^ 1;
                    }
                }
        }
        SYM_ASSERT(!wrong, "a warning is silenced only where a comment says so");
        SYM_ASSERT(!lost, "every warning a comment covers is silenced");
        if (any)
            rt_reach("silenced");
        if (some)
            rt_reach("reported");
    });
}

int main()
{
    bool nolint = rt_param("family", 0);
    unsigned width = rt_param("width", 4), step = rt_param("step", 4);
    allow("5Lexer3LexERNS_5Token", "splits the file into tokens; sees only whether a comment byte ends the comment");
    allow("5LexerC", "lexer set-up");
    allow("setCommentRetentionState", "lexer set-up");
    allow("getSpellingLineNumber", "line table: looks for newlines only");
    const std::vector<std::string> H = {"int h1;", "int h2;"};
    std::vector<Case> cases;
    const std::vector<std::string> M = {"#include \"inc.h\"", "int a1; @", "int a2;", "int a3;"};
    const std::vector<std::string> HC = {"int h1;", "int h2; @", "int h3;"};
    if (!nolint) {
        cases = {
            {"skip", H, M, {" x clazy:skip y"}, 0},
            {"skip-in-header", HC, M, {" none", "clazy:skip"}, 1},
            {"excludeall", H, M, {" clazy:excludeall=aa-b,aa  "}, 0},
            {"excludeall-in-header", HC, M, {" clazy:exclude=b", " clazy:excludeall=b,c"}, 1},
            {"exclude", H, M, {" clazy:exclude=aa,aa-b z "}, 0},
            {"exclude-list", H, M, {"clazy:exclude=a,b,bb,aa"}, 0},
            {"exclude-next-line", H, M, {" clazy:exclude-next-line=aa,b"}, 0},
            {"own-line", H, {"#include \"inc.h\"", "@", "int a1;", "@", "int a2;"}, {" clazy:exclude-next-line=aa", " clazy:exclude=b "}, 0},
            {"two", H, {"#include \"inc.h\"", "int a1; @", "int a2; @", "int a3;"}, {" clazy:exclude-next-line=aa-b", " clazy:exclude=aa"}, 1},
            {"at-end-of-file", H, {"#include \"inc.h\"", "int a1;", "int a2; @"}, {" clazy:exclude=aa"}, 0, false},
            {"skip-at-end-of-file", H, {"#include \"inc.h\"", "int a1;", "@"}, {"clazy:skip"}, 0, false},
            {"first-line", H, {"@", "#include \"inc.h\"", "int a1;"}, {" clazy:excludeall=b"}, 0},
        };
    } else {
        cases = {
            {"nolint", H, M, {" NOLINT  "}, 0},
            {"nolint-text", H, M, {"x NOLINT: y"}, 0},
            {"nolint-list", H, M, {" NOLINT(clazy-aa,clazy-b) "}, 0},
            {"nolint-list-spaces", H, M, {" NOLINT(clazy-aa-b , x, clazy-b)"}, 0},
            {"nolint-glob", H, M, {"NOLINT(clazy-a*) x"}, 0},
            {"nextline", H, M, {" NOLINTNEXTLINE  "}, 0},
            {"nextline-list", H, M, {" NOLINTNEXTLINE(clazy-aa, clazy-*b)"}, 0},
            {"header", HC, M, {" NOLINT(clazy-aa)", " NOLINTNEXTLINE(foo,clazy-b)"}, 1},
            {"both", H, {"#include \"inc.h\"", "int a1; @", "int a2; @", "int a3;"}, {" NOLINTNEXTLINE(clazy-aa)", " NOLINT(clazy-b)"}, 1},
            {"begin-end", H, {"#include \"inc.h\"", "int a1; @", "int a2;", "@", "int a3;"}, {" NOLINTBEGIN", " NOLINTEND"}, 0},
            {"begin-list-end", H, {"#include \"inc.h\"", "int a1; @", "int a2;", "@", "int a3;"}, {" NOLINTBEGIN(clazy-aa)", " NOLINTEND(clazy-aa)"}, 0},
            {"begin-other-end", H, {"#include \"inc.h\"", "@", "int a2;", "@", "int a3;"}, {" NOLINTBEGIN(foo,clazy-*b)", " NOLINTEND(foo,clazy-*b)"}, 1},
            {"nested", H, {"@", "int a1;", "@", "int a2;", "@", "int a3;", "@", "int a4;"}, {"NOLINTBEGIN(clazy-b)", "NOLINTBEGIN(clazy-aa)", "NOLINTEND(clazy-aa)", "NOLINTEND(clazy-b)"}, 0},
            {"nested-inner", H, {"@", "int a1;", "@", "int a2; @", "@", "int a3;", "@", "int a4;"}, {"NOLINTBEGIN", "NOLINTBEGIN(foo)", " NOLINT(clazy-b)", "NOLINTEND(foo)", "NOLINTEND"}, 2},
            {"begin-in-header", {"@", "int h1;", "@", "int h2;"}, M, {" NOLINTNEXTLINE(clazy-b)", " NOLINTBEGIN", " NOLINTEND"}, 0},
            {"blocks-and-lines", H, {"@", "int a1;", "@", "int a2; @", "int a3;"}, {"NOLINTBEGIN(clazy-aa)", "NOLINTEND(clazy-aa)", "NOLINT(clazy-b)"}, 2},
            {"at-end-of-file", H, {"#include \"inc.h\"", "int a1;", "int a2; @"}, {" NOLINT(clazy-aa)"}, 0, false},
        };
    }
    for (auto &c : cases) {
        size_t n = c.texts[c.symSlot].size();
        for (size_t from = 0;; from += step) {
            if (from + width > n)
                from = n > width ? n - width : 0;
            explore((std::string(c.name) + "-" + std::to_string(from)).c_str(), [&] {
                run(c, from, width, nolint);
            });
            if (from + width >= n)
                break;
        }
    }
    rt_expect_reach("silenced");
    rt_expect_reach("reported");
    rt_finish();
}
