// Fix-its replace exactly the code in question: the fix-its of each check, applied to the code, give
// the stated code, whatever the names, the literals and the comments in it, however it is laid out.
#include "h.h"
#include <map>
using namespace h;

namespace
{
struct Row {
    const char *check;
    const char *decls; // not changed
    // @a..@z: a name; $: the content of a string literal; ^1..^Z: a place where blanks or a comment may stand; `1..`Z: the same,
    // but there is at least a blank
    const char *code;
    const char *after; // with all fix-its applied; nullptr: nothing changes
    const char *std = "-std=c++17";
};
#include "rewrite_rows.h"

enum Kind { None, Blank, Blanks, NewLine, Inline, ToLineEnd, Kinds };

struct Piece {
    char kind; // 0: text, '@': name, '$': literal, '^': layout
    char which;
    std::string text; // in the template
};
struct Template {
    std::vector<Piece> pieces;
    std::string text;
};
const unsigned NAME = 7, LITERAL = 3, COMMENT = 2;
std::string placeholder(char c)
{
    return std::string("Zq") + c + "_k" + c + "x";
}
const char *LITERALTEXT = "LiT";

// layout: what stands at place 'only' (0: at all of them)
Template parse(const char *t, Kind layout, char only)
{
    Template r;
    auto add = [&](char kind, char which, const std::string &s) {
        r.pieces.push_back({kind, which, s});
        r.text += s;
    };
    for (; *t; ++t) {
        if (*t == '@')
            ++t, add('@', *t, placeholder(*t));
        else if (*t == '$')
            add('$', 0, LITERALTEXT);
        else if (*t == '^' || *t == '`') {
            bool must = *t++ == '`';
            static const char *TEXT[] = {"", " ", "  ", " \n ", "/*Cm*/", "//Cm\n"};
            const char *s = !only || only == *t ? TEXT[layout] : "";
            if (must && !*s)
                add(0, 0, " ");
            else
                add('^', *t, s);
        } else
            add(0, 0, std::string(1, *t));
    }
    return r;
}
bool blank(unsigned char c)
{
    return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\v');
}

// analysed before
void before(const Row &row)
{
    TU tu;
    tu.args = {row.std, "-w"};
    tu.code = parse(row.decls, None, 0).text + parse(row.code, None, 0).text + "\n";
    tu.file = "before.cpp";
    tu.checks = {byName(row.check)};
    tu.last = false;
    withTU(tu, [](Env &env) {
        env.run();
        if (!env.reported.empty())
            rt_reach("reported before");
    });
}

void check(const Row &row, Kind layout, char only, const Row *other)
{
    if (other)
        before(*other), before(row);
    Template decls = parse(row.decls, None, 0), code = parse(row.code, layout, only), after = parse(row.after ? row.after : row.code, layout, only);
    TU tu;
    tu.args = {row.std, "-w"};
    tu.code = decls.text + code.text + "\n";
    tu.file = "code.cpp";
    tu.checks = {byName(row.check)};
    withTU(tu, [&](Env &env) {
        auto &sm = env.sm();
        char *buf = const_cast<char *>(sm.getBufferData(sm.getMainFileID()).data());
        // places first, while everything is concrete
        struct Put {
            size_t at;
            char kind, which;
        };
        std::vector<Put> puts;
        size_t at = 0;
        std::map<char, char *> names;
        for (auto *t : {&decls, &code})
            for (auto &p : t->pieces) {
                if (p.kind)
                    puts.push_back({at, p.kind, p.which});
                if (p.kind == '@')
                    names[p.which] = nullptr;
                at += p.text.size();
            }
        std::vector<StringLiteral *> literals;
        for (auto *l : env.stmts<StringLiteral>())
            if (l->isOrdinary() && l->getBytes() == LITERALTEXT)
                literals.push_back(l);
        // names
        for (auto &[c, bytes] : names) {
            bytes = env.identifier(placeholder(c), (std::string("name ") + c).c_str());
            for (unsigned i = 0; i < NAME; ++i)
                SYM_ASSUME(ccIdent(bytes[i]));
            SYM_ASSUME((bytes[0] >= 'P') & (bytes[0] <= 'Z') & (bytes[1] == 'q') & (bytes[2] == c)); // not a keyword, not each other's
        }
        // the literal
        std::string lit(LITERALTEXT);
        rt_make_symbolic(lit.data(), LITERAL, "literal");
        for (unsigned i = 0; i < LITERAL; ++i)
            SYM_ASSUME(ccPrint(lit[i]) & (lit[i] != '"') & (lit[i] != '\\') & (lit[i] != '#') & (lit[i] != '%'));
        for (auto *l : literals)
            memcpy(const_cast<char *>(l->getBytes().data()), lit.data(), LITERAL);
        // blanks and comments
        std::string gap = layout == None ? "" : parse("^1", layout, 0).text;
        if (layout == Blanks) {
            rt_make_symbolic(gap.data(), 2, "blanks");
            SYM_ASSUME(blank(gap[0]) & blank(gap[1]));
        } else if (layout == Inline || layout == ToLineEnd) {
            rt_make_symbolic(gap.data() + 2, COMMENT, "comment");
            for (unsigned i = 0; i < COMMENT; ++i)
                SYM_ASSUME(ccPrint(gap[2 + i]) & (gap[2 + i] != '*') & (gap[2 + i] != '/') & (gap[2 + i] != '\\') & (gap[2 + i] != '?'));
        }
        auto content = [&](const Piece &p) -> std::string {
            switch (p.kind) {
            case '@':
                return std::string(names[p.which], NAME);
            case '$':
                return lit;
            case '^':
                return p.text.empty() ? "" : gap;
            }
            return p.text;
        };
        at = 0;
        for (auto *t : {&decls, &code})
            for (auto &p : t->pieces) {
                if (p.kind) {
                    std::string s = content(p);
                    memcpy(buf + at, s.data(), s.size());
                }
                at += p.text.size();
            }
        std::string before(buf, at), want, declText(buf, decls.text.size());
        for (auto &p : after.pieces)
            want += content(p);
        want = declText + want;

        env.run();

        // apply
        struct Edit {
            size_t from, to;
            const std::string *text;
        };
        std::vector<Edit> edits;
        bool inFile = true, ordered = true;
        for (auto &r : env.reported)
            for (auto &f : r.fixits) {
                if (f.isNull())
                    continue;
                auto b = f.RemoveRange.getBegin(), e = f.RemoveRange.getEnd();
                if (b.isMacroID() || e.isMacroID()) {
                    auto range = Lexer::makeFileCharRange(f.RemoveRange, sm, env.ast->getLangOpts());
                    if (range.isInvalid()) {
                        inFile = false;
                        continue;
                    }
                    b = range.getBegin(), e = range.getEnd();
                    edits.push_back({sm.getFileOffset(b), sm.getFileOffset(e), &f.CodeToInsert});
                    continue;
                }
                size_t from = sm.getFileOffset(b), to = sm.getFileOffset(e);
                if (f.RemoveRange.isTokenRange())
                    to += Lexer::MeasureTokenLength(e, sm, env.ast->getLangOpts());
                edits.push_back({from, to, &f.CodeToInsert});
            }
        std::stable_sort(edits.begin(), edits.end(), [](const Edit &a, const Edit &b) {
            return a.from < b.from;
        });
        std::string got;
        size_t done = 0;
        for (size_t i = 0; i < edits.size(); ++i) {
            auto &e = edits[i];
            if (i && e.from == edits[i - 1].from && e.to == edits[i - 1].to && e.to != e.from && eq(*e.text, *edits[i - 1].text))
                continue; // the same fix-it twice
            if (e.from < done || e.to < e.from || e.to > before.size()) {
                ordered = false;
                continue;
            }
            got += before.substr(done, e.from - done) + *e.text;
            done = e.to;
        }
        got += before.substr(done);
        if (getenv("REWRITE_SHOW"))
            fprintf(stderr, "%s\n%s\n", std::string(got.size() > decls.text.size() ? got.substr(decls.text.size()) : got).c_str(), want.substr(decls.text.size()).c_str());
        SYM_ASSERT(inFile, "fix-its change code, not the inside of macros");
        SYM_ASSERT(ordered, "fix-its do not overlap");
        SYM_ASSERT(eq(got, want), "the code with the fix-its applied is the equivalent code");
        rt_reach(edits.empty() ? "no fix-it" : "fixed");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0), only = rt_param("row", ~0u), part = rt_param("part", ~0u), parts = rt_param("parts", 1), again = rt_param("again", 0);
    allow("5LexerC", "does not depend on the symbolic bytes: they stay inside identifiers, literals, comments and blanks");
    allow("5Lexer3Lex", "as above");
    allow("5Lexer11getRawToken", "as above");
    allow("5Lexer13findNextToken", "as above");
    allow("5Lexer", "as above");
    allow("getQualifiedNameAsString", "modelled: symbolic names are put back into what it returns");
    allow("getAsString", "as above");
    allow("__cxa_atexit", "registers a destructor");
    allow("libclang-cpp.so", "matchers do not look at the symbolic bytes");
    const unsigned N = sizeof ROWS / sizeof *ROWS;
    for (unsigned i = 0; i < N; ++i) {
        if ((only != ~0u && only != i) || (part != ~0u && i % parts != part))
            continue;
        const Row &row = ROWS[i];
        std::string slots;
        for (const char *p = row.code; *p; ++p)
            if (*p == '^' || *p == '`')
                slots += p[1];
        const Row *other = nullptr;
        if (again)
            for (unsigned j = 1; j <= N; ++j)
                if (!strcmp(ROWS[(i + j) % N].check, row.check)) {
                    other = &ROWS[(i + j) % N];
                    break;
                }
        auto run = [&](Kind k, char o) {
            static const char *N[] = {"none", "blank", "blanks", "newline", "comment", "linecomment"};
            explore((std::string(row.check) + "-" + std::to_string(i) + "-" + N[k] + (o ? std::string("-") + o : "")).c_str(), [=, &row] {
                check(row, k, o, other);
            });
        };
        if (slots.empty() || again) {
            run(None, 0);
            continue;
        }
        for (Kind k : {None, Blanks, NewLine, Inline, ToLineEnd}) {
            if (!deep && k == NewLine)
                continue;
            run(k, 0);
        }
        if (deep)
            for (char s : slots)
                run(Inline, s), run(Blanks, s);
    }
    rt_expect_reach("fixed");
    rt_expect_reach("no fix-it");
    if (again)
        rt_expect_reach("reported before");
    rt_finish();
}
