// qcolor-from-literal: a literal handed to a QColor is classified by its length and digits, and
// the offered rewrite denotes the same colour.
#include "checks/level0/qcolor-from-literal.h"
#include "h.h"
using namespace h;

static const char *HEAD = R"(
class QString { public: QString(const char *); };
class QLatin1String { public: QLatin1String(const char *); };
class QColor { public:
  QColor(); QColor(const char *); QColor(const QString &); QColor(unsigned rgb); QColor(int, int, int, int = 255);
  static QColor fromString(const QString &); void setNamedColor(const QString &); };
)";

static uint32_t hexDigit(unsigned char c, bool &ok)
{
    bool d = ccDigit(c), l = (c >= 'a') & (c <= 'f'), u = (c >= 'A') & (c <= 'F');
    ok &= d | l | u;
    return d * (uint32_t)(c - '0') + l * (uint32_t)(c - 'a' + 10) + u * (uint32_t)(c - 'A' + 10);
}
// value of a (0x-prefixed) integer constant, branch free after the prefix
static uint32_t intConst(const std::string &s, size_t from, size_t to, bool &ok)
{
    uint32_t v = 0;
    if (to > from + 2 && s[from] == '0' && s[from + 1] == 'x') {
        for (size_t i = from + 2; i < to; ++i)
            v = v * 16 + hexDigit(s[i], ok);
        ok &= to - from - 2 <= 8;
    } else {
        ok &= to > from;
        for (size_t i = from; i < to; ++i) {
            v = v * 10 + (uint32_t)(s[i] - '0');
            ok &= ccDigit(s[i]);
        }
        ok &= !((to - from > 1) && s[from] == '0'); // octal
    }
    return v;
}

enum Form { Ctor, FromString, SetNamed };

static void colour(Form form, unsigned len)
{
    std::string lit(len, 'a');
    lit[0] = '#';
    TU tu;
    const char *pre = form == Ctor ? "QColor c(\"" : form == FromString ? "QColor c = QColor::fromString(\"" : "c.setNamedColor(\"";
    tu.code = std::string(HEAD) + "void f(QColor c0) {" + (form == SetNamed ? "QColor c; " : "") + pre + lit + "\"); }\n";
    tu.checks = {spec<QColorFromLiteral>("qcolor-from-literal")};
    withTU(tu, [&](Env &env) {
        StringLiteral *l = env.stringLiteral(lit);
        symLiteral(l, "literal");
        std::string in = l->getBytes().str();
        env.run();

        bool allHex = true;
        uint32_t dig[16] = {0};
        for (unsigned i = 1; i < len; ++i)
            dig[i - 1] = hexDigit(in[i], allHex);
        bool hash = in[0] == '#';
        bool validLen = len == 4 || len == 7 || len == 9 || len == 10 || len == 13;
        bool smallLen = len == 4 || len == 7 || len == 9;
        size_t n = env.reported.size();
        if (form == SetNamed) {
            SYM_ASSERT((n == 1) == (hash & validLen), "setNamedColor is reported exactly for '#' literals of a supported length");
            SYM_ASSERT(n <= 1, "at most one warning per literal");
            if (n)
                rt_reach("setnamed-warns");
            return;
        }
        SYM_ASSERT(n <= 1, "at most one warning per literal");
        SYM_ASSERT((n == 1) == hash, "a colour literal is reported exactly if it starts with '#'");
        if (n != 1)
            return;
        const Reported &r = env.reported[0];
        bool lengthMsg = containsLit(r.message, "length does not match");
        bool digitMsg = containsLit(r.message, "may only contain hexadecimal digits");
        SYM_ASSERT(lengthMsg == !validLen, "length complaint exactly for unsupported lengths");
        SYM_ASSERT(digitMsg == (validLen & !allHex), "digit complaint exactly when a non-hexadecimal digit is present");
        SYM_ASSERT((r.fixits.size() == 1) == (smallLen & allHex), "a rewrite is offered exactly for #RGB, #RRGGBB and #AARRGGBB with hexadecimal digits");
        if (validLen)
            rt_reach("valid-length");
        if (r.fixits.size() != 1)
            return;
        std::string code = r.fixits[0].CodeToInsert;
        if (form == FromString) {
            SYM_ASSERT(code.size() > 8 && eqAt(code, 0, "QColor(") && code.back() == ')', "QColor::fromString is replaced by a QColor construction");
            code = code.substr(7, code.size() - 8);
        }
        uint32_t A, R, G, B;
        if (len == 4)
            A = 255, R = dig[0] * 17, G = dig[1] * 17, B = dig[2] * 17;
        else if (len == 7)
            A = 255, R = dig[0] * 16 + dig[1], G = dig[2] * 16 + dig[3], B = dig[4] * 16 + dig[5];
        else
            A = dig[0] * 16 + dig[1], R = dig[2] * 16 + dig[3], G = dig[4] * 16 + dig[5], B = dig[6] * 16 + dig[7];
        bool ok = true;
        std::vector<uint32_t> v;
        size_t from = 0;
        for (size_t i = 0; i <= code.size(); ++i)
            if (i == code.size() || code[i] == ',') {
                v.push_back(intConst(code, from, i, ok));
                from = i + 1;
                while (from < code.size() && code[from] == ' ')
                    ++from;
                i = from - 1 > i ? from - 1 : i;
            }
        SYM_ASSERT(ok, "the rewrite is a list of integer constants");
        if (len == 9) {
            SYM_ASSERT(v.size() == 4, "#AARRGGBB becomes the four-component constructor");
            SYM_ASSERT((v[0] == R) & (v[1] == G) & (v[2] == B) & (v[3] == A), "the rewrite denotes the literal's colour (r, g, b, a)");
        } else {
            SYM_ASSERT(v.size() == 1, "#RGB and #RRGGBB become one RGB value");
            SYM_ASSERT(v[0] == ((R << 16) | (G << 8) | B), "the rewrite denotes the literal's colour (0xRRGGBB)");
        }
        rt_reach("fixit");
    });
}

int main(int argc, char **argv)
{
    unsigned maxLen = rt_param("maxlen", 13);
    for (int f = Ctor; f <= SetNamed; ++f)
        for (unsigned len = 1; len <= maxLen + 1; ++len) {
            static const char *names[] = {"ctor", "fromString", "setNamedColor"};
            std::string n = std::string(names[f]) + "-" + std::to_string(len);
            explore(n.c_str(), [=] {
                colour((Form)f, len);
            });
        }
    rt_expect_reach("fixit");
    rt_expect_reach("valid-length");
    rt_expect_reach("setnamed-warns");
    rt_finish();
}
