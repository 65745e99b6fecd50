#include <dlfcn.h>
// Library functions that live in shared objects (libLLVM, libstdc++) without being instrumented,
// re-implemented to their documented behaviour so that the symbolic run sees through them. Linked
// into the "sym" executables only: replays run the original library code.
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/edit_distance.h"
#include "llvm/Support/Path.h"
#include <istream>
#include <string>
using namespace llvm;

static inline unsigned char lc(unsigned char c)
{
    return c + (((c >= 'A') & (c <= 'Z')) << 5);
}
static inline bool in(char c, StringRef set)
{
    bool r = false;
    for (size_t i = 0; i < set.size(); ++i)
        r |= set.data()[i] == c;
    return r;
}
size_t StringRef::find(StringRef s, size_t from) const
{
    if (from > size())
        return npos;
    for (size_t i = from; i + s.size() <= size(); ++i) {
        uint8_t d = 0;
        for (size_t k = 0; k < s.size(); ++k)
            d |= (uint8_t)(data()[i + k] ^ s.data()[k]);
        if (!d)
            return i;
    }
    return npos;
}
size_t StringRef::find_insensitive(char c, size_t from) const
{
    for (size_t i = from; i < size(); ++i)
        if (lc(data()[i]) == lc(c))
            return i;
    return npos;
}
size_t StringRef::find_insensitive(StringRef s, size_t from) const
{
    for (size_t i = from; i + s.size() <= size(); ++i) {
        uint8_t d = 0;
        for (size_t k = 0; k < s.size(); ++k)
            d |= (uint8_t)(lc(data()[i + k]) ^ lc(s.data()[k]));
        if (!d)
            return i;
    }
    return npos;
}
size_t StringRef::rfind_insensitive(char c, size_t from) const
{
    size_t i = from < size() ? from : size();
    while (i) {
        --i;
        if (lc(data()[i]) == lc(c))
            return i;
    }
    return npos;
}
size_t StringRef::rfind(StringRef s) const
{
    if (s.size() > size())
        return npos;
    for (size_t i = size() - s.size() + 1; i != 0;) {
        --i;
        uint8_t d = 0;
        for (size_t k = 0; k < s.size(); ++k)
            d |= (uint8_t)(data()[i + k] ^ s.data()[k]);
        if (!d)
            return i;
    }
    return npos;
}
size_t StringRef::find_first_of(StringRef cs, size_t from) const
{
    for (size_t i = from; i < size(); ++i)
        if (in(data()[i], cs))
            return i;
    return npos;
}
size_t StringRef::find_first_not_of(char c, size_t from) const
{
    for (size_t i = from; i < size(); ++i)
        if (data()[i] != c)
            return i;
    return npos;
}
size_t StringRef::find_first_not_of(StringRef cs, size_t from) const
{
    for (size_t i = from; i < size(); ++i)
        if (!in(data()[i], cs))
            return i;
    return npos;
}
size_t StringRef::find_last_of(StringRef cs, size_t from) const
{
    for (size_t i = (from < size() ? from : size()); i != 0; --i)
        if (in(data()[i - 1], cs))
            return i - 1;
    return npos;
}
size_t StringRef::find_last_not_of(char c, size_t from) const
{
    for (size_t i = (from < size() ? from : size()); i != 0; --i)
        if (data()[i - 1] != c)
            return i - 1;
    return npos;
}
size_t StringRef::find_last_not_of(StringRef cs, size_t from) const
{
    for (size_t i = (from < size() ? from : size()); i != 0; --i)
        if (!in(data()[i - 1], cs))
            return i - 1;
    return npos;
}
size_t StringRef::count(StringRef s) const
{
    size_t n = 0, p = 0;
    if (s.empty())
        return 0;
    while ((p = find(s, p)) != npos) {
        ++n;
        p += s.size();
    }
    return n;
}
int StringRef::compare_insensitive(StringRef r) const
{
    for (size_t i = 0, e = size() < r.size() ? size() : r.size(); i < e; ++i) {
        unsigned char a = lc(data()[i]), b = lc(r.data()[i]);
        if (a != b)
            return a < b ? -1 : 1;
    }
    return size() == r.size() ? 0 : size() < r.size() ? -1 : 1;
}
bool StringRef::starts_with_insensitive(StringRef p) const
{
    return size() >= p.size() && substr(0, p.size()).compare_insensitive(p) == 0;
}
bool StringRef::ends_with_insensitive(StringRef p) const
{
    return size() >= p.size() && substr(size() - p.size()).compare_insensitive(p) == 0;
}
std::string StringRef::lower() const
{
    std::string r(size(), ' ');
    for (size_t i = 0; i < size(); ++i)
        r[i] = lc(data()[i]);
    return r;
}
std::string StringRef::upper() const
{
    std::string r(size(), ' ');
    for (size_t i = 0; i < size(); ++i) {
        unsigned char c = data()[i];
        r[i] = c - (((c >= 'a') & (c <= 'z')) << 5);
    }
    return r;
}
void StringRef::split(SmallVectorImpl<StringRef> &A, StringRef sep, int maxSplit, bool keepEmpty) const
{
    StringRef S = *this;
    while (maxSplit-- != 0) {
        size_t idx = S.find(sep);
        if (idx == npos)
            break;
        if (keepEmpty || idx > 0)
            A.push_back(S.slice(0, idx));
        S = S.slice(idx + sep.size(), npos);
    }
    if (keepEmpty || !S.empty())
        A.push_back(S);
}
void StringRef::split(SmallVectorImpl<StringRef> &A, char sep, int maxSplit, bool keepEmpty) const
{
    split(A, StringRef(&sep, 1), maxSplit, keepEmpty);
}

namespace llvm
{
unsigned StringRef::edit_distance(StringRef other, bool replacements, unsigned max) const
{
    return ComputeEditDistance(ArrayRef<char>(data(), size()), ArrayRef<char>(other.data(), other.size()), replacements, max);
}
unsigned StringRef::edit_distance_insensitive(StringRef other, bool replacements, unsigned max) const
{
    std::string a = lower(), b = other.lower();
    return ComputeEditDistance(ArrayRef<char>(a.data(), a.size()), ArrayRef<char>(b.data(), b.size()), replacements, max);
}
namespace sys::path // POSIX names without "//host" roots
{
StringRef filename(StringRef p, Style)
{
    size_t n = p.size();
    if (n > 1 && p.data()[n - 1] == '/') { // "a/" ends in "."; "//" and "/" in "/"
        for (size_t i = 0; i < n; ++i)
            if (p.data()[i] != '/')
                return ".";
        return "/";
    }
    while (n && p.data()[n - 1] != '/')
        --n;
    return n == 1 && p.size() == 1 ? p : p.substr(n);
}
StringRef parent_path(StringRef p, Style)
{
    size_t n = p.size();
    while (n && p.data()[n - 1] != '/')
        --n;
    size_t end = n;
    while (end && p.data()[end - 1] == '/')
        --end;
    return end ? p.substr(0, end) : n && p.size() > n ? p.substr(0, 1) : StringRef();
}
StringRef extension(StringRef p, Style st)
{
    StringRef f = filename(p, st);
    size_t n = f.size();
    while (n && f.data()[n - 1] != '.')
        --n;
    return !n || f == "." || f == ".." ? StringRef() : f.substr(n - 1);
}
StringRef stem(StringRef p, Style st)
{
    StringRef f = filename(p, st);
    size_t n = f.size();
    while (n && f.data()[n - 1] != '.')
        --n;
    return !n || f == "." || f == ".." ? f : f.substr(0, n - 1);
}
bool is_absolute(const Twine &t, Style)
{
    SmallString<64> buffer;
    StringRef p = t.isSingleStringRef() ? t.getSingleStringRef() : t.toStringRef(buffer);
    return !p.empty() && p.data()[0] == '/';
}
bool is_relative(const Twine &t, Style s)
{
    return !is_absolute(t, s);
}
bool has_extension(const Twine &t, Style s)
{
    SmallString<64> buffer;
    return !extension(t.isSingleStringRef() ? t.getSingleStringRef() : t.toStringRef(buffer), s).empty();
}
bool has_filename(const Twine &t, Style s)
{
    SmallString<64> buffer;
    return !filename(t.isSingleStringRef() ? t.getSingleStringRef() : t.toStringRef(buffer), s).empty();
}
}

static unsigned autoRadix(StringRef &s)
{
    if (s.size() >= 2 && s.data()[0] == '0') {
        unsigned char c = lc(s.data()[1]);
        if (c == 'x')
            return s = s.substr(2), 16;
        if (c == 'b')
            return s = s.substr(2), 2;
        if (c == 'o')
            return s = s.substr(2), 8;
        if (c >= '0' && c <= '9')
            return s = s.substr(1), 8;
    }
    return 10;
}
bool consumeUnsignedInteger(StringRef &str, unsigned radix, unsigned long long &result)
{
    StringRef s = str;
    if (radix == 0)
        radix = autoRadix(s);
    if (s.empty())
        return true;
    size_t i = 0;
    result = 0;
    while (i < s.size()) {
        unsigned char c = s.data()[i];
        bool d = (c >= '0') & (c <= '9'), l = (c >= 'a') & (c <= 'z'), u = (c >= 'A') & (c <= 'Z');
        unsigned v = d * (c - '0') + l * (c - 'a' + 10u) + u * (c - 'A' + 10u);
        if (!(d | l | u) | (v >= radix))
            break;
        unsigned long long prev = result;
        result = result * radix + v;
        if (i >= 12 && result / radix < prev) // (cannot overflow before the 13th digit, radix <= 36)
            return true;
        ++i;
    }
    if (i == 0)
        return true;
    str = s.substr(i);
    return false;
}
bool consumeSignedInteger(StringRef &str, unsigned radix, long long &result)
{
    unsigned long long u;
    if (str.empty() || str.data()[0] != '-') {
        if (consumeUnsignedInteger(str, radix, u) || (long long)u < 0)
            return true;
        result = u;
        return false;
    }
    StringRef s = str.drop_front(1);
    if (consumeUnsignedInteger(s, radix, u) || (long long)-u > 0)
        return true;
    str = s;
    result = -u;
    return false;
}
bool getAsUnsignedInteger(StringRef s, unsigned radix, unsigned long long &r)
{
    return consumeUnsignedInteger(s, radix, r) || !s.empty();
}
bool getAsSignedInteger(StringRef s, unsigned radix, long long &r)
{
    return consumeSignedInteger(s, radix, r) || !s.empty();
}
}

// (every use of it is a conversion of a few decimal digits)
extern "C" long __isoc23_strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while ((*p == ' ') | ((*p >= 9) & (*p <= 13)))
        ++p;
    bool neg = *p == '-';
    if ((*p == '-') | (*p == '+'))
        ++p;
    if (base != 10) {
        using F = long (*)(const char *, char **, int);
        static F f = (F)dlsym(RTLD_NEXT, "__isoc23_strtol");
        return f(s, end, base);
    }
    const char *start = p;
    unsigned long v = 0;
    for (; (*p >= '0') & (*p <= '9'); ++p) {
        if (v > 922337203685477579ul) { // (saturation is left to the original)
            using F = long (*)(const char *, char **, int);
            static F f = (F)dlsym(RTLD_NEXT, "__isoc23_strtol");
            return f(s, end, base);
        }
        v = v * 10 + (unsigned long)(*p - '0');
    }
    if (end)
        *end = const_cast<char *>(p == start ? s : p);
    return neg ? -(long)v : (long)v;
}
namespace std
{
// any hash is a correct hash; a constant one turns look-ups into comparisons of the keys
size_t _Hash_bytes(const void *, size_t n, size_t)
{
    return n;
}
template<>
basic_istream<char> &getline(basic_istream<char> &is, basic_string<char> &out, char delim)
{
    // fields of a string stream: no sentry side effects besides the state bits
    if (!is.good()) {
        is.setstate(ios_base::failbit);
        return is;
    }
    out.clear();
    auto *sb = is.rdbuf();
    ios_base::iostate st = ios_base::goodbit;
    size_t n = 0;
    while (true) {
        int c = sb->sgetc();
        if (c == -1) {
            st |= ios_base::eofbit;
            break;
        }
        ++n;
        sb->sbumpc();
        if ((char)c == delim)
            break;
        out.push_back((char)c);
    }
    if (!n)
        st |= ios_base::failbit;
    if (st)
        is.setstate(st);
    return is;
}
}
#include <sstream>
template class std::basic_stringbuf<char>;
template class std::basic_istringstream<char>;

// ---- clang::Lexer::getSpelling: the bytes of a token (no trigraphs or spliced lines in the templates)
#include "clang/Basic/SourceManager.h"
#include "clang/Lex/Lexer.h"
#include <dlfcn.h>
#include "symapi.h"
namespace clang
{
std::string Lexer::getSpelling(const Token &tok, const SourceManager &sm, const LangOptions &lo, bool *invalid)
{
    const char *p = sm.getCharacterData(tok.getLocation(), invalid);
    if (tok.needsCleaning()) {
        using F = std::string (*)(const Token &, const SourceManager &, const LangOptions &, bool *);
        auto f = (F)dlsym(RTLD_NEXT, "_ZN5clang5Lexer11getSpellingB5cxx11ERKNS_5TokenERKNS_13SourceManagerERKNS_11LangOptionsEPb");
        return f(tok, sm, lo, invalid);
    }
    std::string s(tok.getLength(), ' ');
    for (unsigned i = 0; i < tok.getLength(); ++i)
        s[i] = p[i];
    return s;
}
}

// ---- names and types as text: the original is asked about the template's identifiers, whose (symbolic)
// bytes then take their places in the answer
#include "clang/AST/Decl.h"
#include "clang/AST/DeclarationName.h"
#include "clang/AST/Type.h"
#include <cstring>
namespace h
{
struct Placeholder {
    char *bytes;
    std::string text;
};
extern std::vector<Placeholder> placeholders;
}
namespace
{
template<typename F>
std::string asInTemplate(F original)
{
    if (h::placeholders.empty())
        return original();
    std::vector<std::string> now;
    for (auto &p : h::placeholders) {
        now.push_back(std::string(p.bytes, p.text.size()));
        memcpy(p.bytes, p.text.data(), p.text.size());
    }
    std::string r = original();
    for (size_t k = 0; k < h::placeholders.size(); ++k)
        memcpy(h::placeholders[k].bytes, now[k].data(), now[k].size());
    std::string out = r;
    for (size_t k = 0; k < h::placeholders.size(); ++k) {
        const std::string &t = h::placeholders[k].text;
        for (size_t at = 0; at + t.size() <= r.size(); ++at)
            if (memcmp(r.data() + at, t.data(), t.size()) == 0)
                memcpy(&out[at], now[k].data(), t.size());
    }
    return out;
}
}
namespace clang
{
#define ORIGINAL(type, symbol) static auto f = (type)dlsym(RTLD_NEXT, symbol)
std::string DeclarationName::getAsString() const
{
    using F = std::string (*)(const DeclarationName *);
    ORIGINAL(F, "_ZNK5clang15DeclarationName11getAsStringB5cxx11Ev");
    return asInTemplate([this] { return f(this); });
}
std::string NamedDecl::getQualifiedNameAsString() const
{
    using F = std::string (*)(const NamedDecl *);
    ORIGINAL(F, "_ZNK5clang9NamedDecl24getQualifiedNameAsStringB5cxx11Ev");
    return asInTemplate([this] { return f(this); });
}
std::string QualType::getAsString(const Type *t, Qualifiers q, const PrintingPolicy &p)
{
    using F = std::string (*)(const Type *, Qualifiers, const PrintingPolicy &);
    ORIGINAL(F, "_ZN5clang8QualType11getAsStringB5cxx11EPKNS_4TypeENS_10QualifiersERKNS_14PrintingPolicyE");
    return asInTemplate([&] { return f(t, q, p); });
}
std::string QualType::getAsString() const
{
    using F = std::string (*)(const QualType *);
    ORIGINAL(F, "_ZNK5clang8QualType11getAsStringB5cxx11Ev");
    return asInTemplate([this] { return f(this); });
}
std::string QualType::getAsString(const PrintingPolicy &p) const
{
    using F = std::string (*)(const QualType *, const PrintingPolicy &);
    ORIGINAL(F, "_ZNK5clang8QualType11getAsStringB5cxx11ERKNS_14PrintingPolicyE");
    return asInTemplate([&] { return f(this, p); });
}
}

// ---- llvm::Regex (extended syntax without back references and counted repetition): an automaton
// whose state bits may be symbolic; the expression itself is compiled as it is read
#include "llvm/Support/Regex.h"
struct llvm_regex {
    struct Set {
        bool neg = false;
        std::vector<std::pair<unsigned char, unsigned char>> r;
        uint8_t has(unsigned char c) const
        {
            uint8_t h = 0;
            for (auto &x : r)
                h |= (uint8_t)((c >= x.first) & (c <= x.second));
            return h ^ (uint8_t)neg;
        }
    };
    struct Edge {
        int from, to, kind; // 0 empty, 1 characters, 2 '^', 3 '$'
        Set set;
    };
    std::string p;
    size_t i = 0;
    int n = 0;
    std::vector<Edge> e;
    int start, fin;
    std::vector<std::vector<char>> reach[2][2];
    void *original = nullptr; // LLVM's own object, made when nothing symbolic is involved

    void eps(int a, int b, int kind = 0)
    {
        e.push_back({a, b, kind, {}});
    }
    void alt(int a, int b)
    {
        seq(a, b);
        while (i < p.size() && p[i] == '|') {
            ++i;
            seq(a, b);
        }
    }
    void seq(int a, int b)
    {
        int cur = a;
        while (i < p.size() && p[i] != '|' && p[i] != ')') {
            int s = n++, t = n++;
            eps(cur, s);
            char c = p[i];
            if (c == '(') {
                ++i;
                alt(s, t);
                ++i;
            } else if (c == '^') {
                ++i;
                eps(s, t, 2);
            } else if (c == '$') {
                ++i;
                eps(s, t, 3);
            } else {
                Edge x = {s, t, 1, {}};
                ++i;
                if (c == '.')
                    x.set.r.push_back({0, 255});
                else if (c == '[') {
                    if (i < p.size() && p[i] == '^')
                        x.set.neg = true, ++i;
                    bool first = true;
                    while (i < p.size() && (first || p[i] != ']')) {
                        unsigned char lo = p[i++], hi = lo;
                        if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']')
                            hi = p[i + 1], i += 2;
                        x.set.r.push_back({lo, hi});
                        first = false;
                    }
                    ++i;
                } else {
                    if (c == '\\' && i < p.size())
                        c = p[i++];
                    else if (c == '{') {
                        fprintf(stderr, "sup.cpp: regular expression '%s' is outside the modelled subset\n", p.c_str());
                        abort();
                    }
                    x.set.r.push_back({(unsigned char)c, (unsigned char)c});
                }
                e.push_back(x);
            }
            while (i < p.size() && (p[i] == '*' || p[i] == '+' || p[i] == '?')) {
                if (p[i] != '?')
                    eps(t, s);
                if (p[i] != '+')
                    eps(s, t);
                ++i;
            }
            cur = t;
        }
        eps(cur, b);
    }
    explicit llvm_regex(std::string text)
        : p(std::move(text))
    {
    }
    void compile()
    {
        start = n++;
        fin = n++;
        alt(start, fin);
        for (int b = 0; b < 2; ++b)
            for (int z = 0; z < 2; ++z) {
                auto &r = reach[b][z];
                r.assign(n, std::vector<char>(n, 0));
                for (int k = 0; k < n; ++k) {
                    std::vector<int> todo{k};
                    r[k][k] = 1;
                    while (!todo.empty()) {
                        int s = todo.back();
                        todo.pop_back();
                        for (auto &x : e)
                            if (x.from == s && x.kind != 1 && (x.kind != 2 || b) && (x.kind != 3 || z) && !r[k][x.to])
                                r[k][x.to] = 1, todo.push_back(x.to);
                    }
                }
            }
    }
    uint8_t match(StringRef s) const
    {
        std::vector<uint8_t> st(n, 0);
        uint8_t hit = 0;
        for (size_t j = 0;; ++j) {
            auto &r = reach[j == 0][j == s.size()];
            std::vector<uint8_t> cl(n, 0);
            st[start] = 1;
            for (int k = 0; k < n; ++k)
                for (int t = 0; t < n; ++t)
                    if (r[k][t])
                        cl[t] |= st[k];
            hit |= cl[fin];
            if (j == s.size())
                break;
            std::vector<uint8_t> nx(n, 0);
            for (auto &x : e)
                if (x.kind == 1)
                    nx[x.to] |= cl[x.from] & x.set.has(s.data()[j]);
            st = nx;
        }
        return hit & 1;
    }
};
namespace llvm
{
Regex::Regex()
    : preg(nullptr)
    , error(6)
{
}
Regex::Regex(StringRef r, RegexFlags)
    : preg(new llvm_regex(r.str()))
    , error(0)
{
}
Regex::Regex(StringRef r, unsigned)
    : preg(new llvm_regex(r.str()))
    , error(0)
{
}
Regex::Regex(Regex &&o)
    : preg(o.preg)
    , error(o.error)
{
    o.preg = nullptr;
    o.error = 6;
}
Regex::~Regex()
{
    delete preg;
}
bool Regex::isValid(std::string &e) const
{
    if (error)
        e = "invalid";
    return !error;
}
bool Regex::match(StringRef s, SmallVectorImpl<StringRef> *m, std::string *) const
{
    if (!preg || error)
        return false;
    if (m)
        m->clear();
    if (!m && !rt_is_symbolic(preg->p.data(), preg->p.size()) && !rt_is_symbolic(s.data(), s.size())) {
        static auto make = (void (*)(void *, StringRef, unsigned))dlsym(RTLD_NEXT, "_ZN4llvm5RegexC1ENS_9StringRefENS0_10RegexFlagsE");
        static auto ask = (bool (*)(const void *, StringRef, SmallVectorImpl<StringRef> *, std::string *))dlsym(RTLD_NEXT, "_ZNK4llvm5Regex5matchENS_9StringRefEPNS_15SmallVectorImplIS1_EEPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
        if (make && ask) {
            if (!preg->original) {
                preg->original = calloc(1, sizeof(Regex));
                make(preg->original, StringRef(preg->p), 0);
            }
            return ask(preg->original, s, nullptr, nullptr);
        }
    }
    if (!preg->n)
        preg->compile();
    return preg->match(s);
}
}
