// unexpected-flag-enumerator-value: which enumerators of which enums are odd ones out.
#include "h.h"
using namespace h;

namespace
{
// 'v' a value; 'o' "A | B"; 'r' a reference to the first; 'n' none written
struct Shape {
    const char *kinds;
    uint64_t values[7];
    unsigned symbolic; // bits: which are inputs
};
const Shape SHAPES[] = {
    {"vvvv", {1, 2, 4, 9}, 8},
    {"vvvv", {0, 1, 2, 4}, 12},
    {"vvvv", {5, 6, 7, 8}, 3},
    {"vvvv", {5, 6, 7, 9}, 12},
    {"vvv", {1, 2, 5}, 4},
    {"vvvvv", {1, 2, 3, 4, 5}, 24},
    {"vvvvv", {1, 2, 4, 7, 21}, 17},
    {"vvvvvv", {1, 2, 4, 9, 10, 11}, 40},
    {"vvovr", {1, 2, 3, 4, 1}, 8},
    {"vvovr", {1, 2, 3, 21, 1}, 2},
    {"vvvnv", {1, 2, 8, 9, 21}, 16},
    {"nvvvv", {0, 2, 8, 9, 21}, 16},
    {"vvvvvvv", {1, 2, 4, 8, 16, 32, 65}, 65},
};
struct Type {
    const char *text;
    unsigned bits;
    bool isSigned;
};
const Type TYPES[] = {{"", 32, false}, {" : unsigned char", 8, false}, {" : int", 32, true}, {" : signed char", 8, true}, {" : long long", 64, true}, {" : unsigned long long", 64, false}};
enum Name { Plain, Scoped, Typedef, Anonymous, Names };

bool pow2(uint64_t v)
{
    return (v != 0) & ((v & (v - 1)) == 0);
}
// consecutive ones, three at least
bool mask(uint64_t v)
{
    uint64_t low = v & (~v + 1), top = v + low; // (wraps to 0 when the ones reach the top)
    return (v != 0) & ((top & v) == 0) & (((v >> 1) & (v >> 2) & v) != 0);
}

void check(const Shape &shape, const Type &type, Name name, unsigned high, unsigned nameLen, bool anyName, bool low)
{
    const unsigned n = strlen(shape.kinds);
    std::string last = "Zq" + std::string(nameLen - 2, 'z');
    std::string code = name == Plain ? std::string("enum E") : name == Scoped ? "enum class E" : name == Typedef ? "typedef enum" : "enum";
    code += std::string(type.text) + " {";
    std::vector<size_t> at;
    for (unsigned i = 0; i < n; ++i) {
        code += i + 1 == n ? last : std::string(1, 'A' + i);
        uint64_t v = shape.values[i];
        if (shape.kinds[i] != 'n')
            code += " = ";
        at.push_back(code.size());
        code += shape.kinds[i] == 'v' ? std::to_string(v) : shape.kinds[i] == 'o' ? "A | B" : shape.kinds[i] == 'r' ? "A" : "";
        code += ", ";
    }
    code += name == Typedef ? "} T;\n" : name == Anonymous ? "} variable;\n" : "};\n";
    TU tu;
    tu.file = "code.cpp";
    tu.code = code;
    tu.args = {"-std=c++17", "-w"};
    tu.checks = {byName("unexpected-flag-enumerator-value")};
    withTU(tu, [&](Env &env) {
        auto &sm = env.sm();
        auto all = env.decls<EnumConstantDecl>();
        std::vector<uint64_t> values;
        const uint64_t limit = type.bits == 64 ? ~0ull : (1ull << type.bits) - 1;
        for (unsigned i = 0; i < n; ++i) {
            auto *raw = reinterpret_cast<uint64_t *>(static_cast<APIntStorage *>(all[i]));
            if (shape.symbolic >> i & 1) {
                // a byte of the value, the lower ones all zero or all one, or 1
                uint8_t b = 0;
                rt_make_symbolic_int(&b, 1, "value");
                unsigned shift = high * 8;
                *raw = (((uint64_t)b << shift) | (low ? shift != 0 : i + 1 == n ? 0 : (1ull << shift) - 1)) & limit;
            }
            values.push_back(*raw);
        }
        std::string nm = last;
        if (anyName) {
            nm = std::string(env.identifier(last, "name"), nameLen);
            for (unsigned i = 0; i < nameLen; ++i)
                SYM_ASSUME(ccIdent(nm[i]));
        }

        env.run();

        unsigned notPow = 0;
        for (uint64_t v : values)
            notPow += !pow2(v);
        const bool anyUnwritten = strchr(shape.kinds, 'n');
        bool flags = notPow <= n / 2;
        if (n >= 4)
            flags &= !((values[1] == values[0] + 1) & (values[2] == values[0] + 2) & (values[3] == values[0] + 3));
        bool named = false;
        for (unsigned i = 0; i + 4 <= nameLen; ++i) {
            bool m = true;
            for (unsigned k = 0; k < 4; ++k)
                m &= (nm[i + k] | 32) == "mask"[k];
            named |= m;
        }
        bool right = true, texts = true;
        for (unsigned i = 0; i < n; ++i) {
            uint64_t v = values[i];
            bool negative = type.isSigned & (v >> (type.bits - 1) & 1);
            bool odd = flags & !pow2(v) & (v != 0) & !negative & !mask(v) & !(i + 1 == n && named);
            odd &= n >= 4 && !anyUnwritten && shape.kinds[i] == 'v' && name != Anonymous;
            bool seen = false;
            for (auto &r : env.reported)
                if (sm.getFileOffset(r.loc) == at[i]) {
                    seen = true;
                    texts &= eq(r.message, "Unexpected non power-of-2 enumerator value: " + std::to_string(v) + " [-Wclazy-unexpected-flag-enumerator-value]");
                }
            right &= seen == odd;
        }
        SYM_ASSERT(right, "reported are exactly the enumerators that break a series of flags");
        SYM_ASSERT(texts, "the warning says the value");
        rt_reach(env.reported.empty() ? "silent" : "reported");
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0), k = 0;
    allow("__cxa_atexit", "registers a destructor");
    allow("5Lexer3Lex", "the file text is concrete");
    allow("5LexerC", "the file text is concrete");
    for (auto &shape : SHAPES)
        for (auto &type : TYPES)
            for (unsigned high = 0; high < type.bits / 8; ++high)
                for (unsigned name = 0; name < Names; ++name, ++k) {
                    if (!deep && (high == 0 ? name != k / 4 % 3 : high + 1 == type.bits / 8 ? name != Plain || (&shape - SHAPES + (&type - TYPES)) % 3 : true) && !(name == Anonymous && type.bits == 32 && high == 0 && &shape == SHAPES))
                        continue;
                    bool fits = true;
                    for (unsigned i = 0; i < strlen(shape.kinds); ++i)
                        fits &= shape.values[i] < 128;
                    if (!fits)
                        continue;
                    unsigned len = high == 0 && type.bits == 32 ? 5 : 4;
                    for (unsigned low = 0; low < 2; ++low) {
                        if (low && (!high || name || (!deep && type.bits == 32 && &shape - SHAPES > 3)))
                            continue;
                        explore((std::string(shape.kinds) + "-" + std::to_string(&shape - SHAPES) + "-" + std::to_string(&type - TYPES) + "-" + std::to_string(high) + "-" + std::to_string(name) + "-" + std::to_string(low)).c_str(),
                                [=, &shape, &type] {
                                    check(shape, type, (Name)name, high, len, deep || (high == 0 && (&shape - SHAPES + (&type - TYPES)) % 4 == 0), low);
                                });
                    }
                }
    rt_expect_reach("silent");
    rt_expect_reach("reported");
    rt_finish();
}
