// Models for the symbolic run of what libclang does with exported texts (replays use the originals).
#include "symapi.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Core/Diagnostic.h"
#include "clang/Tooling/Core/Replacement.h"
#include "llvm/Support/YAMLTraits.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
using namespace clang;
namespace clang::tooling
{
Replacement::Replacement() {}
Replacement::Replacement(StringRef f, unsigned o, unsigned l, StringRef t)
    : FilePath(f.data(), f.size())
    , ReplacementRange(o, l)
    , ReplacementText(t.data(), t.size())
{
}
void Replacement::setFromSourceLocation(const SourceManager &sm, SourceLocation start, unsigned length, StringRef text)
{
    auto d = sm.getDecomposedLoc(start);
    auto e = sm.getFileEntryRefForID(d.first);
    FilePath = e ? e->getName().str() : "invalid-location";
    ReplacementRange = Range(d.second, length);
    ReplacementText.assign(text.data(), text.size());
}
void Replacement::setFromSourceRange(const SourceManager &sm, const CharSourceRange &r, StringRef text, const LangOptions &lo)
{
    SourceLocation b = sm.getSpellingLoc(r.getBegin()), e = sm.getSpellingLoc(r.getEnd());
    auto x = sm.getDecomposedLoc(b), y = sm.getDecomposedLoc(e);
    unsigned len = y.second - x.second;
    if (x.first != y.first)
        len = -1u;
    else if (r.isTokenRange())
        len += Lexer::MeasureTokenLength(e, sm, lo);
    setFromSourceLocation(sm, b, len, text);
}
Replacement::Replacement(const SourceManager &sm, SourceLocation start, unsigned length, StringRef text)
{
    setFromSourceLocation(sm, start, length, text);
}
Replacement::Replacement(const SourceManager &sm, const CharSourceRange &r, StringRef text, const LangOptions &lo)
{
    setFromSourceRange(sm, r, text, lo);
}
bool operator<(const Replacement &l, const Replacement &r)
{
    if (l.getOffset() != r.getOffset())
        return l.getOffset() < r.getOffset();
    if (l.getLength() != r.getLength())
        return l.getLength() < r.getLength();
    if (l.getFilePath() != r.getFilePath())
        return l.getFilePath() < r.getFilePath();
    return l.getReplacementText() < r.getReplacementText();
}
llvm::Error Replacements::add(const Replacement &r)
{
    // (the harness keeps to ranges that neither overlap nor touch)
    // (writing a diagnostic adds its own replacements once more, to a copy that is not used any further)
    for (auto &x : Replaces)
        if (x.getOffset() == r.getOffset() && x.getLength() == r.getLength())
            return llvm::Error::success();
        else if (x.getOffset() <= r.getOffset() + r.getLength() && r.getOffset() <= x.getOffset() + x.getLength()) {
            fprintf(stderr, "model: overlapping replacements at %u\n", r.getOffset());
            abort();
        }
    Replaces.insert(r);
    return llvm::Error::success();
}
DiagnosticMessage::DiagnosticMessage(llvm::StringRef m)
    : Message(m.data(), m.size())
    , FileOffset(0)
{
}
DiagnosticMessage::DiagnosticMessage(llvm::StringRef m, const SourceManager &sm, SourceLocation loc)
    : Message(m.data(), m.size())
    , FileOffset(0)
{
    if (!loc.isFileID()) {
        if (loc.isMacroID())
            abort(); // "Loc should be a file location"
    }
    auto e = sm.getFileEntryRefForID(sm.getFileID(loc));
    FilePath = e ? e->getName().str() : "";
    if (!FilePath.empty())
        FileOffset = sm.getFileOffset(loc);
}
Diagnostic::Diagnostic(llvm::StringRef n, Level l, StringRef d)
    : DiagnosticName(n.data(), n.size())
    , DiagLevel(l)
    , BuildDirectory(d.data(), d.size())
{
}
Diagnostic::Diagnostic(llvm::StringRef n, const DiagnosticMessage &m, const SmallVector<DiagnosticMessage, 1> &notes, Level l, llvm::StringRef d)
    : DiagnosticName(n.data(), n.size())
    , Message(m)
    , Notes(notes)
    , DiagLevel(l)
    , BuildDirectory(d.data(), d.size())
{
}
}
namespace llvm::yaml
{
// the stream is the string the value is rendered to
void ScalarTraits<std::string>::output(const std::string &v, void *, raw_ostream &o)
{
    static_cast<raw_string_ostream &>(o).str().append(v);
}
void ScalarTraits<StringRef>::output(const StringRef &v, void *, raw_ostream &o)
{
    static_cast<raw_string_ostream &>(o).str().append(v.data(), v.size());
}
}
// how the value is quoted is the YAML writer's business
extern "C" int modelNeedsQuotes(const char *, size_t, bool)
{
    return 1;
}
asm(".globl _ZN4llvm4yaml11needsQuotesENS_9StringRefEb\n.set _ZN4llvm4yaml11needsQuotesENS_9StringRefEb, modelNeedsQuotes\n");
