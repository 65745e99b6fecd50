// Runtime of the symbolic execution: expression DAG, byte-granular shadow memory,
// path recorder, and the exploration loop that lets Z3 decide every branch flip and
// every assertion. One process per path (fork), so that the native libraries keep
// their state; the parent owns the work list.
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

#define API extern "C" __attribute__((visibility("default")))

enum Op : uint8_t { // must match SymPass.cpp
    OpNone, OpAdd = 1, OpSub, OpMul, OpUDiv, OpSDiv, OpURem, OpSRem, OpShl, OpLShr, OpAShr, OpAnd, OpOr, OpXor,
    OpEq, OpNe, OpUgt, OpUge, OpUlt, OpUle, OpSgt, OpSge, OpSlt, OpSle,
    OpTrunc, OpZExt, OpSExt,
    OpUMax, OpUMin, OpSMax, OpSMin, OpUAddSat, OpUSubSat, OpSAddSat, OpSSubSat,
    OpUAddOv, OpUSubOv, OpSAddOv, OpSSubOv, OpUMulOv, OpSMulOv,
    OpAbs, OpCtpop, OpCtlz, OpCttz, OpBswap, OpUCmp, OpSCmp,
    OpConst, OpVar, OpIte, OpConcat, OpExtract // Extract: c = low bit
};

API uint32_t rt_args[64];
API uint64_t rt_argv[64];
API void *rt_arg_tag;
API uint32_t rt_ret[64];
API void *rt_ret_tag;
API volatile int rt_live;
volatile int rt_live = 0; // a symbolic path is running in this process

typedef uint32_t Id;
struct Node {
    uint8_t op, w;
    Id a, b, c;
    uint64_t cval; // constants / var index
    uint64_t val; // value under the current input
    int32_t dep; // -1: several inputs, -2: none, otherwise the only input
};
static std::vector<Node> N(1);
struct Key {
    uint64_t x, y, z;
    bool operator==(const Key &o) const { return x == o.x && y == o.y && z == o.z; }
};
struct KeyHash {
    size_t operator()(const Key &k) const
    {
        uint64_t h = k.x * 0x9E3779B97F4A7C15ull;
        h ^= (h >> 29) + k.y * 0xBF58476D1CE4E5B9ull;
        h ^= (h >> 31) + k.z * 0x94D049BB133111EBull;
        return h ^ (h >> 32);
    }
};
static std::unordered_map<Key, Id, KeyHash> Cons;

struct Var {
    std::string name;
    uint8_t w;
    uint64_t val;
    Id node;
    bool dom[256]; // feasible values if w == 8
};
static std::vector<Var> Vars;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64)
        return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= mask(w);
    return (int64_t)((v ^ m) - m);
}

[[noreturn]] static void inconclusive(const char *fmt, ...);

static uint64_t evalOp(uint8_t op, unsigned w, uint64_t a, uint64_t b, uint64_t c, unsigned wa, uint32_t low)
{
    uint64_t m = mask(w);
    switch (op) {
    case OpAdd: return (a + b) & m;
    case OpSub: return (a - b) & m;
    case OpMul: return (a * b) & m;
    case OpUDiv: return b ? (a / b) & m : m;
    case OpURem: return b ? (a % b) & m : a;
    case OpSDiv: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case OpSRem: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case OpShl: return b >= w ? 0 : (a << b) & m;
    case OpLShr: return b >= w ? 0 : (a & m) >> b;
    case OpAShr: return (uint64_t)(sx(a, w) >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & m;
    case OpAnd: return a & b;
    case OpOr: return a | b;
    case OpXor: return (a ^ b) & m;
    case OpEq: return a == b;
    case OpNe: return a != b;
    case OpUgt: return a > b;
    case OpUge: return a >= b;
    case OpUlt: return a < b;
    case OpUle: return a <= b;
    case OpSgt: return sx(a, wa) > sx(b, wa);
    case OpSge: return sx(a, wa) >= sx(b, wa);
    case OpSlt: return sx(a, wa) < sx(b, wa);
    case OpSle: return sx(a, wa) <= sx(b, wa);
    case OpTrunc: return a & m;
    case OpZExt: return a;
    case OpSExt: return (uint64_t)sx(a, wa) & m;
    case OpIte: return a ? b : c;
    case OpConcat: return 0; // handled by caller (needs wb)
    case OpExtract: return (a >> low) & m;
    }
    return 0;
}

static Id mkConst(unsigned w, uint64_t v)
{
    v &= mask(w);
    Key k{((uint64_t)OpConst << 8) | w, v, 0};
    auto it = Cons.find(k);
    if (it != Cons.end())
        return it->second;
    N.push_back({OpConst, (uint8_t)w, 0, 0, 0, v, v, -2});
    return Cons[k] = N.size() - 1;
}
static inline bool isC(Id i) { return N[i].op == OpConst; }
static int32_t depJoin(int32_t a, int32_t b)
{
    if (a == -2) return b;
    if (b == -2) return a;
    if (a == b) return a;
    return -1;
}
static Id mkRaw(uint8_t op, unsigned w, Id a, Id b, Id c, uint32_t low = 0)
{
    Key k{((uint64_t)op << 8) | w | ((uint64_t)low << 32), ((uint64_t)a << 32) | b, c};
    auto it = Cons.find(k);
    if (it != Cons.end())
        return it->second;
    uint64_t v;
    if (op == OpConcat)
        v = (N[a].val << N[b].w) | N[b].val;
    else
        v = evalOp(op, w, N[a].val, b ? N[b].val : 0, c && op == OpIte ? N[c].val : 0, N[a].w, low);
    int32_t d = N[a].dep;
    if (b) d = depJoin(d, N[b].dep);
    if (op == OpIte) d = depJoin(d, N[c].dep);
    N.push_back({op, (uint8_t)w, a, b, op == OpIte ? c : low, 0, v & mask(w), d});
    return Cons[k] = N.size() - 1;
}
static Id mkNot(Id a);
static Id mkIte(Id c, Id a, Id b);
static Id mkExtract(Id a, unsigned low, unsigned w)
{
    if (w == N[a].w) return a;
    if (isC(a)) return mkConst(w, N[a].cval >> low);
    if (N[a].op == OpConcat) {
        unsigned wb = N[N[a].b].w;
        if (low + w <= wb) return mkExtract(N[a].b, low, w);
        if (low >= wb) return mkExtract(N[a].a, low - wb, w);
    }
    if (N[a].op == OpExtract) return mkExtract(N[a].a, low + N[a].c, w);
    if (N[a].op == OpZExt) {
        unsigned wi = N[N[a].a].w;
        if (low >= wi) return mkConst(w, 0);
        if (low + w <= wi) return mkExtract(N[a].a, low, w);
        if (low == 0) return mkRaw(OpZExt, w, N[a].a, 0, 0);
    }
    if (N[a].op == OpSExt && low == 0) {
        unsigned wi = N[N[a].a].w;
        if (w <= wi) return mkExtract(N[a].a, 0, w);
        return mkRaw(OpSExt, w, N[a].a, 0, 0);
    }
    return mkRaw(OpExtract, w, a, 0, 0, low);
}
static Id mkConcat(Id hi, Id lo)
{
    unsigned w = N[hi].w + N[lo].w;
    if (isC(hi) && isC(lo)) return mkConst(w, (N[hi].cval << N[lo].w) | N[lo].cval);
    if (N[hi].op == OpExtract && N[lo].op == OpExtract && N[hi].a == N[lo].a && N[hi].c == N[lo].c + N[lo].w)
        return mkExtract(N[hi].a, N[lo].c, w);
    if (isC(hi) && N[hi].cval == 0) {
        if (N[lo].op == OpZExt) return mkRaw(OpZExt, w, N[lo].a, 0, 0);
        return mkRaw(OpZExt, w, lo, 0, 0);
    }
    return mkRaw(OpConcat, w, hi, lo, 0);
}
static Id mkCast(uint8_t op, unsigned w, Id a)
{
    if (w == N[a].w) return a;
    if (op == OpTrunc) return mkExtract(a, 0, w);
    if (isC(a)) return mkConst(w, op == OpZExt ? N[a].cval : (uint64_t)sx(N[a].cval, N[a].w));
    if (op == OpZExt && N[a].op == OpZExt) return mkRaw(OpZExt, w, N[a].a, 0, 0);
    if (op == OpSExt && (N[a].op == OpZExt || N[a].op == OpSExt)) return mkRaw(N[a].op, w, N[a].a, 0, 0);
    return mkRaw(op, w, a, 0, 0);
}
static Id mkBin(uint8_t op, unsigned w, Id a, Id b) // w: operand width
{
    bool cmp = op >= OpEq && op <= OpSle;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b))
        return mkConst(rw, evalOp(op, rw == 1 && cmp ? 1 : w, N[a].cval, N[b].cval, 0, w, 0));
    if (cmp) {
        if (a == b)
            return mkConst(1, op == OpEq || op == OpUge || op == OpUle || op == OpSge || op == OpSle);
        if (op == OpNe) return mkNot(mkBin(OpEq, w, a, b));
        if (op == OpUgt) return mkBin(OpUlt, w, b, a);
        if (op == OpUge) return mkNot(mkBin(OpUlt, w, a, b));
        if (op == OpUle) return mkNot(mkBin(OpUlt, w, b, a));
        if (op == OpSgt) return mkBin(OpSlt, w, b, a);
        if (op == OpSge) return mkNot(mkBin(OpSlt, w, a, b));
        if (op == OpSle) return mkNot(mkBin(OpSlt, w, b, a));
        if (op == OpEq) {
            if (isC(a)) std::swap(a, b);
            if (isC(b)) {
                uint64_t k = N[b].cval;
                if (w == 1) return k ? a : mkNot(a);
                const Node x = N[a];
                if (x.op == OpZExt) {
                    unsigned wi = N[x.a].w;
                    if (k > mask(wi)) return mkConst(1, 0);
                    return mkBin(OpEq, wi, x.a, mkConst(wi, k));
                }
                if (x.op == OpSExt) {
                    unsigned wi = N[x.a].w;
                    if (((uint64_t)sx(k, wi) & mask(w)) != k) return mkConst(1, 0);
                    return mkBin(OpEq, wi, x.a, mkConst(wi, k));
                }
                if (x.op == OpIte) {
                    if (isC(x.b) && isC(x.c)) {
                        bool tb = N[x.b].cval == k, tc = N[x.c].cval == k;
                        if (tb && tc) return mkConst(1, 1);
                        if (tb) return x.a;
                        if (tc) return mkNot(x.a);
                        return mkConst(1, 0);
                    }
                    if (isC(x.b) || isC(x.c))
                        return mkIte(x.a, mkBin(OpEq, w, x.b, b), mkBin(OpEq, w, x.c, b));
                }
                if (x.op == OpAdd && isC(x.b)) return mkBin(OpEq, w, x.a, mkConst(w, k - N[x.b].cval));
            } else if (a > b)
                std::swap(a, b);
        }
        return mkRaw(op, 1, a, b, 0);
    }
    switch (op) {
    case OpAdd:
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (!N[b].cval) return a;
            if (N[a].op == OpAdd && isC(N[a].b)) return mkBin(OpAdd, w, N[a].a, mkConst(w, N[b].cval + N[N[a].b].cval));
        }
        break;
    case OpSub:
        if (a == b) return mkConst(w, 0);
        if (isC(b)) return mkBin(OpAdd, w, a, mkConst(w, 0 - N[b].cval));
        if (N[a].op == OpAdd && isC(N[a].b) && N[a].a == b) return N[a].b;
        break;
    case OpMul:
        if (isC(a)) std::swap(a, b);
        if (isC(b) && N[b].cval == 1) return a;
        if (isC(b) && N[b].cval == 0) return b;
        break;
    case OpAnd:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b)) {
            uint64_t k = N[b].cval;
            if (!k) return b;
            if (k == mask(w)) return a;
            if ((k & (k + 1)) == 0) { // low mask
                unsigned n = 0;
                while (k >> n) ++n;
                return mkCast(OpZExt, w, mkExtract(a, 0, n));
            }
        }
        break;
    case OpOr:
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b) && !N[b].cval) return a;
        if (isC(b) && N[b].cval == mask(w)) return b;
        break;
    case OpXor:
        if (isC(a)) std::swap(a, b);
        if (a == b) return mkConst(w, 0);
        if (isC(b) && !N[b].cval) return a;
        if (w == 1 && isC(b)) return mkNot(a);
        break;
    case OpShl:
        if (isC(b)) {
            uint64_t k = N[b].cval;
            if (!k) return a;
            if (k >= w) return mkConst(w, 0);
            return mkConcat(mkExtract(a, 0, w - k), mkConst(k, 0));
        }
        break;
    case OpLShr:
        if (isC(b)) {
            uint64_t k = N[b].cval;
            if (!k) return a;
            if (k >= w) return mkConst(w, 0);
            return mkCast(OpZExt, w, mkExtract(a, k, w - k));
        }
        break;
    default:
        break;
    }
    return mkRaw(op, w, a, b, 0);
}
static Id mkNot(Id a)
{
    if (isC(a)) return mkConst(1, !N[a].cval);
    if (N[a].op == OpXor && N[a].w == 1 && isC(N[a].b) && N[N[a].b].cval == 1) return N[a].a;
    return mkRaw(OpXor, 1, a, mkConst(1, 1), 0);
}
static Id mkIte(Id c, Id a, Id b)
{
    if (isC(c)) return N[c].cval ? a : b;
    if (a == b) return a;
    if (N[a].w == 1) {
        if (isC(a) && isC(b)) return N[a].cval ? c : mkNot(c);
        if (isC(a)) return N[a].cval ? mkBin(OpOr, 1, c, b) : mkBin(OpAnd, 1, mkNot(c), b);
        if (isC(b)) return N[b].cval ? mkBin(OpOr, 1, mkNot(c), a) : mkBin(OpAnd, 1, c, a);
    }
    return mkRaw(OpIte, N[a].w, c, a, b);
}
static Id operand(unsigned w, uint64_t v, Id s) { return s ? s : mkConst(w, v); }

static uint64_t evalWith(Id id, int var, uint64_t v, std::unordered_map<Id, uint64_t> &memo)
{
    const Node n = N[id];
    if (n.op == OpConst) return n.cval;
    if (n.op == OpVar) return (int)n.cval == var ? v : n.val;
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    uint64_t a = evalWith(n.a, var, v, memo);
    uint64_t r;
    if (n.op == OpIte)
        r = evalWith(a ? n.b : n.c, var, v, memo);
    else {
        uint64_t b = n.b ? evalWith(n.b, var, v, memo) : 0;
        if (n.op == OpConcat)
            r = (a << N[n.b].w) | b;
        else
            r = evalOp(n.op, n.w, a, b, 0, N[n.a].w, n.c);
    }
    r &= mask(n.w);
    memo[id] = r;
    return r;
}

// ---------------------------------------------------------------- shadow memory
struct Page {
    Id id[4096];
    uint8_t cv[4096];
    uint32_t count;
};
static std::unordered_map<uint64_t, Page *> Pages;
static bool inPages = false;
static uint64_t lastPn = ~0ull;
static Page *lastPg = nullptr;
static inline Page *pageOf(uint64_t a)
{
    uint64_t pn = a >> 12;
    if (pn == lastPn) return lastPg;
    auto it = Pages.find(pn);
    Page *p = it == Pages.end() ? nullptr : it->second;
    lastPn = pn;
    lastPg = p;
    return p;
}
static inline Id byteShadow(uint64_t a)
{
    Page *p = pageOf(a);
    if (!p || !p->count) return 0;
    Id i = p->id[a & 4095];
    if (!i) return 0;
    if (p->cv[a & 4095] != *(uint8_t *)a) { // overwritten behind our back
        p->id[a & 4095] = 0;
        p->count--;
        return 0;
    }
    return i;
}
static void setByte(uint64_t a, Id i, uint8_t cv)
{
    if (i && isC(i)) i = 0;
    Page *p = pageOf(a);
    if (!p) {
        if (!i) return;
        p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        inPages = true; // the hooked free() may be called by the rehash
        Pages[a >> 12] = p;
        inPages = false;
        lastPn = a >> 12;
        lastPg = p;
    }
    Id &s = p->id[a & 4095];
    if (s && !i) p->count--;
    if (!s && i) p->count++;
    s = i;
    p->cv[a & 4095] = cv;
}
static void clearRange(uint64_t a, uint64_t n)
{
    if (Pages.empty()) return;
    while (n) {
        uint64_t chunk = std::min<uint64_t>(n, 4096 - (a & 4095));
        Page *p = pageOf(a);
        if (p && p->count)
            for (uint64_t i = 0; i < chunk; ++i) {
                Id &s = p->id[(a & 4095) + i];
                if (s) {
                    s = 0;
                    p->count--;
                }
            }
        a += chunk;
        n -= chunk;
    }
}
static bool anyShadow(uint64_t a, uint64_t n)
{
    if (Pages.empty()) return false;
    for (uint64_t i = 0; i < n; ++i) {
        Page *p = pageOf(a + i);
        if (!p || !p->count) {
            i |= 4095 - ((a + i) & 4095) ? 0 : 0;
            uint64_t skip = 4095 - ((a + i) & 4095);
            i += skip;
            continue;
        }
        if (p->id[(a + i) & 4095] && byteShadow(a + i)) return true;
    }
    return false;
}
static int probeFd[2] = {-1, -1};
static bool readable(uint64_t a, uint64_t n)
{
    if (probeFd[0] < 0 && pipe(probeFd)) return false;
    if (write(probeFd[1], (void *)a, n) != (ssize_t)n) return false;
    char buf[64];
    while (n) {
        ssize_t r = read(probeFd[0], buf, std::min<uint64_t>(n, 64));
        if (r <= 0) return false;
        n -= r;
    }
    return true;
}
static Id loadExpr(uint64_t a, unsigned bytes) // always an expression
{
    Id r = 0;
    for (unsigned i = 0; i < bytes; ++i) {
        Id b = byteShadow(a + i);
        if (!b) b = mkConst(8, *(uint8_t *)(a + i));
        r = i ? mkConcat(b, r) : b;
    }
    return r;
}

// ---------------------------------------------------------------- path recording
struct BranchRec {
    Id cond; // the condition as recorded
    bool taken;
    const char *fn;
    uint32_t line;
    bool flippable;
};
struct AssertRec {
    Id cond;
    uint32_t at; // number of branches before it
    std::string what;
    std::string known;
};
static std::vector<BranchRec> Path;
static std::vector<AssertRec> Asserts;
static std::unordered_map<Id, bool> Known;
static std::set<const char *> SymFns;
static std::set<std::string> Leaks;
static std::set<std::string> Reached;
static std::string Describe;
static std::string KnownTag;
static uint32_t Bound = 0;
static uint64_t PrefixHash = 0, ExpectHash = 0;
static uint64_t SymOps = 0;
static uint32_t MaxBranches = 20000;
static std::vector<uint64_t> InputVals;
static int OutFd = -1;
static bool Finished = false;

static uint64_t hashStep(uint64_t h, const char *fn, uint32_t line, bool taken)
{
    h ^= (uint64_t)(uintptr_t)fn * 0x9E3779B97F4A7C15ull + line * 2654435761u + taken;
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 29);
}

static void condDomain(Id c, int var, bool out[256])
{
    for (int v = 0; v < 256; ++v) {
        if (!Vars[var].dom[v]) {
            out[v] = false;
            continue;
        }
        std::unordered_map<Id, uint64_t> memo;
        out[v] = evalWith(c, var, v, memo) & 1;
    }
}

static FILE *Trace = nullptr; // SYM_TRACE=dir: one file per path (debugging)
static void dumpExpr(FILE *f, Id i, int depth)
{
    auto &n = N[i];
    if (n.op == OpConst) fprintf(f, "%lu:%u", n.cval, n.w);
    else if (n.op == OpVar) fprintf(f, "v%lu", n.cval);
    else if (!depth) fprintf(f, "#%u", i);
    else {
        fprintf(f, "(op%d:%u", n.op, n.w);
        for (Id x : {n.a, n.b, n.c}) if (x) { fputc(' ', f); dumpExpr(f, x, depth - 1); }
        fputc(')', f);
    }
}
static void record(Id c, bool taken, const char *fn, uint32_t line, bool flippable = true)
{
    if (isC(c)) return;
    if (N[c].op == OpXor && N[c].w == 1 && isC(N[c].b)) { // not(x)
        c = N[c].a;
        taken = !taken;
    }
    auto it = Known.find(c);
    if (it != Known.end()) {
        if (it->second != taken) inconclusive("contradictory path condition at %s:%u", fn, line);
        return;
    }
    int d = N[c].dep;
    if (d >= 0 && Vars[d].w == 8) {
        bool dom[256];
        condDomain(c, d, dom);
        bool anyOther = false;
        for (int v = 0; v < 256; ++v)
            if (Vars[d].dom[v] && dom[v] != taken) anyOther = true;
        if (!anyOther) { // implied by the earlier constraints on this one byte
            Known[c] = taken;
            return;
        }
        for (int v = 0; v < 256; ++v)
            Vars[d].dom[v] = Vars[d].dom[v] && dom[v] == taken;
    }
    Known[c] = taken;
    if (fn) SymFns.insert(fn);
    if (Path.size() + 1 == Bound) {
        uint64_t h = hashStep(PrefixHash, fn, line, taken);
        if (h != ExpectHash && Trace) { fprintf(Trace, "DIVERGED wanted %016lx got %016lx %s:%u %d ", ExpectHash, h, fn, line, taken); dumpExpr(Trace, c, 6); fputc('\n', Trace); fflush(Trace); }
        if (h != ExpectHash) inconclusive("path diverged from its prediction at branch %zu (%s:%u)", Path.size(), fn, line);
    }
    PrefixHash = hashStep(PrefixHash, fn, line, taken);
    if (Trace) {
        fprintf(Trace, "%zu %016lx %s:%u %d ", Path.size(), PrefixHash, fn ? fn : "?", line, taken);
        dumpExpr(Trace, c, 6);
        fputc('\n', Trace);
        fflush(Trace);
    }
    Path.push_back({c, taken, fn, line, flippable});
    if (Path.size() > MaxBranches) inconclusive("more than %u branches on one path (%s:%u)", MaxBranches, fn, line);
}

API void rt_branch(uint32_t c, uint32_t id, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (!id) return;
    if ((N[id].val & 1) != (c & 1)) inconclusive("encoding disagrees with execution at %s:%u", fn, line);
    record(id, c & 1, fn, line);
}
// decide the conditions of the if-then-elses an address is made of (its bits depend on where the heap is)
static Id resolveIte(Id i, const char *fn, uint32_t line)
{
    if (isC(i)) return i;
    Node n = N[i];
    if (n.w == 1) {
        record(i, n.val & 1, fn, line);
        return mkConst(1, n.val & 1);
    }
    switch (n.op) {
    case OpIte: {
        bool t = N[n.a].val & 1;
        record(n.a, t, fn, line);
        return resolveIte(t ? n.b : n.c, fn, line);
    }
    case OpAdd: case OpSub: case OpMul: case OpAnd: case OpOr: case OpXor: case OpShl:
    case OpLShr: case OpUDiv: case OpURem: {
        Id a = resolveIte(n.a, fn, line), b = resolveIte(n.b, fn, line);
        return mkBin(n.op, n.w, a, b);
    }
    case OpZExt: case OpSExt: case OpTrunc:
        return mkCast(n.op, n.w, resolveIte(n.a, fn, line));
    default:
        return i;
    }
}
// made of constants and a few conditions only?
static bool decisions(Id i, int &left)
{
    if (isC(i)) return true;
    if (--left < 0) return false;
    const Node &n = N[i];
    if (n.w == 1) return true;
    switch (n.op) {
    case OpIte: return decisions(n.b, left) && decisions(n.c, left);
    case OpAdd: case OpSub: case OpMul: case OpAnd: case OpOr: case OpXor: case OpShl: return decisions(n.a, left) && decisions(n.b, left);
    case OpZExt: case OpSExt: case OpTrunc: return decisions(n.a, left);
    default: return false;
    }
}
static void concretize(uint64_t v, Id id, const char *fn, uint32_t line)
{
    if (!id || isC(id)) return;
    v &= mask(N[id].w);
    if (N[id].val != v) inconclusive("encoding disagrees with execution (value) at %s:%u", fn, line);
    int left = 12;
    if ((N[id].w == 64 && v >> 32) || (N[id].w > 1 && decisions(id, left))) id = resolveIte(id, fn, line);
    if (isC(id)) return;
    // the variable part alone decides: what is added to it may be an address, which differs from run to run
    for (;;) {
        const Node &n = N[id];
        bool ca = n.a && isC(n.a), cb = n.b && isC(n.b);
        Id next = 0;
        switch (n.op) {
        case OpAdd: case OpMul: case OpConcat: next = ca ? n.b : cb ? n.a : 0; break;
        case OpSub: next = ca ? n.b : cb ? n.a : 0; break;
        case OpShl: next = cb ? n.a : 0; break;
        case OpZExt: case OpSExt: next = n.a; break;
        default: break;
        }
        if (!next) break;
        id = next;
    }
    v = N[id].val;
    // bit by bit (a trie over the feasible values), so that the other side of each decision is a prefix
    // of exactly the remaining values; then the equality itself is implied
    unsigned w = N[id].w;
    for (int i = (int)w - 1; i >= 0; --i) {
        Id b = mkExtract(id, i, 1);
        if (isC(b)) continue;
        record(b, (v >> i) & 1, fn, line);
    }
}
API void rt_concretize(uint64_t v, uint32_t id, uint32_t w, const char *fn, uint32_t line) { if (rt_live) concretize(v & mask(w), id, fn, line); }
API void rt_switch(uint64_t v, uint32_t id, uint32_t w, uint32_t n, const uint64_t *cases, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (!id) return;
    if (N[id].val != (v & mask(w))) inconclusive("encoding disagrees with execution (switch) at %s:%u", fn, line);
    for (uint32_t i = 0; i < n; ++i) {
        bool t = cases[i] == (v & mask(w));
        record(mkBin(OpEq, w, id, mkConst(w, cases[i])), t, fn, line);
        if (t) return;
    }
}

// tabulate f over the only 8-bit input of expression a: builds ITE over value classes
template<typename F>
static Id tabulate(Id a, F content /* uint64 value-of-a -> Id */)
{
    int d = N[a].dep;
    std::map<Id, std::vector<int>> cls;
    std::unordered_map<uint64_t, Id> cache;
    for (int v = 0; v < 256; ++v) {
        if (!Vars[d].dom[v]) continue;
        std::unordered_map<Id, uint64_t> memo;
        uint64_t x = evalWith(a, d, v, memo);
        auto it = cache.find(x);
        Id r;
        if (it == cache.end()) {
            r = content(x);
            if (!r) return 0;
            cache[x] = r;
        } else
            r = it->second;
        cls[r].push_back(v);
    }
    Id best = 0;
    size_t bestRuns = 0;
    auto runs = [](const std::vector<int> &v) {
        size_t n = 0;
        for (size_t i = 0; i < v.size(); ++i)
            if (!i || v[i] != v[i - 1] + 1) ++n;
        return n;
    };
    for (auto &p : cls)
        if (!best || runs(p.second) > bestRuns) {
            best = p.first;
            bestRuns = runs(p.second);
        }
    Id r = best;
    Id x = Vars[d].node;
    for (auto &p : cls) {
        if (p.first == best) continue;
        Id c = mkConst(1, 0);
        auto &vs = p.second;
        for (size_t i = 0; i < vs.size();) {
            size_t j = i;
            while (j + 1 < vs.size() && vs[j + 1] == vs[j] + 1) ++j;
            Id t;
            if (i == j)
                t = mkBin(OpEq, 8, x, mkConst(8, vs[i]));
            else
                t = mkBin(OpAnd, 1, vs[i] == 0 ? mkConst(1, 1) : mkBin(OpUge, 8, x, mkConst(8, vs[i])),
                          vs[j] == 255 ? mkConst(1, 1) : mkBin(OpUle, 8, x, mkConst(8, vs[j])));
            c = mkBin(OpOr, 1, c, t);
            i = j + 1;
        }
        r = mkIte(c, p.first, r);
    }
    return r;
}
static bool tabulable(Id a) { return N[a].dep >= 0 && Vars[N[a].dep].w == 8; }

API uint32_t rt_bin(uint32_t op, uint32_t w, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    if (!(sa | sb)) return 0;
    ++SymOps;
    Id x = operand(w, a, sa), y = operand(w, b, sb);
    if (N[x].w != w || N[y].w != w || N[x].val != (a & mask(w)) || N[y].val != (b & mask(w)))
        inconclusive("operand shadow disagrees with execution: op %u w %u: %u/%llx vs %llx, %u/%llx vs %llx", op, w, N[x].w, (unsigned long long)N[x].val, (unsigned long long)a, N[y].w, (unsigned long long)N[y].val, (unsigned long long)b);
    Id r = 0;
    auto K = [&](uint64_t v) { return mkConst(w, v); };
    auto wide = [&](uint8_t o, bool sg) { // overflow by double-width arithmetic
        if (w > 32) {
            return (Id)0;
        }
        unsigned W = 2 * w;
        uint8_t ext = sg ? OpSExt : OpZExt;
        Id full = mkBin(o, W, mkCast(ext, W, x), mkCast(ext, W, y));
        return mkBin(OpNe, W, full, mkCast(ext, W, mkExtract(full, 0, w)));
    };
    switch (op) {
    case OpUDiv: case OpSDiv: case OpURem: case OpSRem:
        if (!isC(y)) record(mkBin(OpEq, w, y, K(0)), (N[y].val == 0), "division", 0);
        if (op == OpSDiv || op == OpSRem) {
            Id ov = mkBin(OpAnd, 1, mkBin(OpEq, w, y, K(mask(w))), mkBin(OpEq, w, x, K(1ull << (w - 1))));
            if (!isC(ov)) record(ov, N[ov].val, "division overflow", 0);
        }
        r = mkBin(op, w, x, y);
        break;
    case OpUMax: r = mkIte(mkBin(OpUgt, w, x, y), x, y); break;
    case OpUMin: r = mkIte(mkBin(OpUlt, w, x, y), x, y); break;
    case OpSMax: r = mkIte(mkBin(OpSgt, w, x, y), x, y); break;
    case OpSMin: r = mkIte(mkBin(OpSlt, w, x, y), x, y); break;
    case OpUAddSat: r = mkIte(mkBin(OpUlt, w, mkBin(OpAdd, w, x, y), x), K(mask(w)), mkBin(OpAdd, w, x, y)); break;
    case OpUSubSat: r = mkIte(mkBin(OpUlt, w, x, y), K(0), mkBin(OpSub, w, x, y)); break;
    case OpUAddOv: r = mkBin(OpUlt, w, mkBin(OpAdd, w, x, y), x); break;
    case OpUSubOv: r = mkBin(OpUlt, w, x, y); break;
    case OpSAddOv: {
        Id s = mkBin(OpAdd, w, x, y);
        r = mkBin(OpSlt, w, mkBin(OpAnd, w, mkBin(OpXor, w, x, s), mkBin(OpXor, w, y, s)), K(0));
        break;
    }
    case OpSSubOv: {
        Id s = mkBin(OpSub, w, x, y);
        r = mkBin(OpSlt, w, mkBin(OpAnd, w, mkBin(OpXor, w, x, y), mkBin(OpXor, w, x, s)), K(0));
        break;
    }
    case OpUMulOv:
        r = wide(OpMul, false);
        if (!r) { // 64 bit: y != 0 && (x*y)/y != x
            Id p = mkBin(OpMul, w, x, y);
            r = mkBin(OpAnd, 1, mkBin(OpNe, w, y, K(0)), mkBin(OpNe, w, mkRaw(OpUDiv, w, p, y, 0), x));
        }
        break;
    case OpSMulOv:
        r = wide(OpMul, true);
        if (!r) {
            Id p = mkBin(OpMul, w, x, y);
            Id bad = mkBin(OpAnd, 1, mkBin(OpEq, w, x, K(1ull << 63)), mkBin(OpEq, w, y, K(mask(w))));
            r = mkBin(OpAnd, 1, mkBin(OpNe, w, y, K(0)), mkBin(OpOr, 1, bad, mkBin(OpNe, w, mkRaw(OpSDiv, w, p, y, 0), x)));
        }
        break;
    case OpAbs: r = mkIte(mkBin(OpSlt, w, x, K(0)), mkBin(OpSub, w, K(0), x), x); break;
    case OpUCmp: r = mkIte(mkBin(OpUlt, w, x, y), mkConst(8, 0xff), mkCast(OpZExt, 8, mkBin(OpUgt, w, x, y))); break;
    case OpSCmp: r = mkIte(mkBin(OpSlt, w, x, y), mkConst(8, 0xff), mkCast(OpZExt, 8, mkBin(OpSgt, w, x, y))); break;
    case OpBswap:
        r = mkExtract(x, 0, 8);
        for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
        break;
    case OpCtpop:
        r = K(0);
        for (unsigned i = 0; i < w; ++i) r = mkBin(OpAdd, w, r, mkCast(OpZExt, w, mkExtract(x, i, 1)));
        break;
    case OpCtlz:
        r = K(w);
        for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), K(w - 1 - i), r);
        break;
    case OpCttz:
        r = K(w);
        for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(x, i, 1), K(i), r);
        break;
    case OpSAddSat:
    case OpSSubSat: {
        Id s = mkBin(op == OpSAddSat ? OpAdd : OpSub, w, x, y);
        Id ov = rt_bin(op == OpSAddSat ? OpSAddOv : OpSSubOv, w, a, sa, b, sb);
        Id lim = mkIte(mkBin(OpSlt, w, x, K(0)), K(1ull << (w - 1)), K(mask(w) >> 1));
        r = mkIte(ov ? ov : mkConst(1, 0), lim, s);
        break;
    }
    default:
        r = mkBin(op, w, x, y);
    }
    return isC(r) ? 0 : r;
}
API uint32_t rt_cast(uint32_t op, uint32_t wi, uint32_t wo, uint64_t v, uint32_t s)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    if (!s) return 0;
    if (N[s].w != wi) inconclusive("cast width %u vs %u", N[s].w, wi);
    Id r = mkCast(op, wo, s);
    return isC(r) ? 0 : r;
}
API uint32_t rt_select(uint32_t w, uint32_t c, uint32_t sc, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    if (!(sc | sa | sb)) return 0;
    if (!sc) return c ? sa : sb;
    if ((N[sc].val & 1) != (c & 1)) inconclusive("select condition disagrees");
    Id r = mkIte(sc, operand(w, a, sa), operand(w, b, sb));
    return isC(r) ? 0 : r;
}
API uint32_t rt_selptr(uint32_t c, uint32_t sc, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb, const char *fn)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    if (sc && (a != b || sa != sb)) rt_branch(c, sc, fn, 0);
    return c ? sa : sb;
}
API uint32_t rt_fsh(uint32_t wx, uint32_t, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb, uint64_t c, uint32_t sc)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    bool right = wx & 256;
    unsigned w = wx & 255;
    if (!(sa | sb | sc)) return 0;
    if (sc) concretize(c & mask(w), sc, "fsh", 0);
    unsigned k = c % w;
    Id x = operand(w, a, sa), y = operand(w, b, sb);
    Id r;
    if (!k)
        r = right ? y : x;
    else if (right)
        r = mkConcat(mkExtract(x, 0, k), mkExtract(y, k, w - k));
    else
        r = mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k));
    return isC(r) ? 0 : r;
}
API uint32_t rt_load(void *p, uint32_t sp, uint32_t bytes, const char *fn, uint32_t line)
{
    if (!rt_live) return 0; // the path is over: this is the solver running
    uint64_t a = (uint64_t)p;
    if (sp) {
        if (N[sp].val != a) inconclusive("address shadow disagrees at %s:%u", fn, line);
        if (tabulable(sp)) {
            SymFns.insert(fn);
            Id r = tabulate(sp, [&](uint64_t x) -> Id { return readable(x, bytes) ? loadExpr(x, bytes) : 0; });
            if (r) return isC(r) ? 0 : r;
        }
        concretize(a, sp, fn, line);
    }
    if (Pages.empty()) return 0;
    bool any = false;
    for (unsigned i = 0; i < bytes && !any; ++i) any = byteShadow(a + i);
    if (!any) return 0;
    if (fn) SymFns.insert(fn);
    Id r = loadExpr(a, bytes);
    return isC(r) ? 0 : r;
}
static void concretizeMem(uint64_t a, uint64_t n, const char *fn, uint32_t line)
{
    for (uint64_t i = 0; i < n; ++i)
        if (Id b = byteShadow(a + i)) concretize(*(uint8_t *)(a + i), b, fn, line);
}
API void rt_load_check(void *p, uint32_t sp, uint64_t n, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (sp) concretize((uint64_t)p, sp, fn, line);
    if (!Pages.empty() && anyShadow((uint64_t)p, n)) concretizeMem((uint64_t)p, n, fn, line);
}
API void rt_store(void *p, uint32_t sp, uint64_t v, uint32_t sv, uint32_t bytes, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (sp) concretize((uint64_t)p, sp, fn, line);
    uint64_t a = (uint64_t)p;
    if (!sv) {
        if (!Pages.empty()) clearRange(a, bytes);
        return;
    }
    if (N[sv].w != bytes * 8) inconclusive("store width %u vs %u at %s:%u", N[sv].w, bytes * 8, fn, line);
    if (N[sv].val != (v & mask(bytes * 8))) inconclusive("stored value disagrees at %s:%u", fn, line);
    for (unsigned i = 0; i < bytes; ++i) setByte(a + i, mkExtract(sv, i * 8, 8), (v >> (8 * i)) & 0xff);
}
API void rt_clear(void *p, uint64_t n)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (!Pages.empty() && !inPages) clearRange((uint64_t)p, n);
}
API void rt_memcpy(void *d, uint32_t sd, void *s, uint32_t ss, uint64_t n, uint32_t sn, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (sd) concretize((uint64_t)d, sd, fn, line);
    if (ss) concretize((uint64_t)s, ss, fn, line);
    if (sn) concretize(n, sn, fn, line);
    if (Pages.empty() || !n) return;
    uint64_t D = (uint64_t)d, Sx = (uint64_t)s;
    if (!anyShadow(Sx, n)) {
        clearRange(D, n);
        return;
    }
    std::vector<Id> t(n);
    for (uint64_t i = 0; i < n; ++i) t[i] = byteShadow(Sx + i);
    std::vector<uint8_t> c((uint8_t *)s, (uint8_t *)s + n);
    for (uint64_t i = 0; i < n; ++i) setByte(D + i, t[i], c[i]);
}
API void rt_memset(void *d, uint32_t sd, uint64_t v, uint32_t sv, uint64_t n, uint32_t sn, const char *fn, uint32_t line)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (sd) concretize((uint64_t)d, sd, fn, line);
    if (sn) concretize(n, sn, fn, line);
    if (sv) {
        Id b = mkExtract(sv, 0, 8);
        for (uint64_t i = 0; i < n; ++i) setByte((uint64_t)d + i, b, v & 0xff);
    } else if (!Pages.empty())
        clearRange((uint64_t)d, n);
}
API void rt_byval(void *d, void *s, uint64_t n)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (Pages.empty()) return;
    if (s)
        rt_memcpy(d, 0, s, 0, n, 0, nullptr, 0);
    else
        clearRange((uint64_t)d, n);
}
API void rt_on_free(void *p, size_t n)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (!Pages.empty() && !inPages) clearRange((uint64_t)p, n);
}
API void rt_on_move(void *d, void *s, size_t n)
{
    if (!rt_live) return; // the path is over: this is the solver running
    if (!Pages.empty()) rt_memcpy(d, 0, s, 0, n, 0, nullptr, 0);
}

// ---------------------------------------------------------------- native calls
static std::unordered_set<void *> Instrumented;
static std::unordered_map<void *, int> NativeOk; // 1 allowed, 0 not
static std::vector<std::pair<std::string, std::string>> Allowed;
API void rt_register(void **tab, uint32_t n)
{
    for (uint32_t i = 0; i < n; ++i) Instrumented.insert(tab[i]);
}
static std::string symName(void *f)
{
    Dl_info di;
    bool known = dladdr(f, &di);
    if (known && di.dli_sname) return di.dli_sname;
    char b[64];
    if (known && di.dli_fname) { // a local function of a library
        const char *base = strrchr(di.dli_fname, '/');
        snprintf(b, sizeof b, "+0x%llx", (unsigned long long)((char *)f - (char *)di.dli_fbase));
        return std::string(base ? base + 1 : di.dli_fname) + b;
    }
    snprintf(b, sizeof b, "%p", f);
    return b;
}
API void rt_precall(void *callee, uint32_t n, const char *kinds, const char *fn, uint32_t line)
{
    if (!rt_live || Vars.empty()) return;
    if (Instrumented.count(callee)) return;
    bool need = false;
    for (uint32_t i = 0; i < n; ++i)
        if (rt_args[i] || kinds[i] == 'p' || kinds[i] == 'b') need = true;
    if (!need) return;
    for (uint32_t i = 0; i < n; ++i)
        if (rt_args[i]) {
            if (kinds[i] == 'x') inconclusive("symbolic aggregate passed to native code at %s:%u", fn, line);
            concretize(rt_argv[i] & mask(N[rt_args[i]].w), rt_args[i], fn, line);
        }
    auto it = NativeOk.find(callee);
    if (it == NativeOk.end()) {
        std::string s = symName(callee);
        int ok = 0;
        for (auto &a : Allowed)
            if (a.first[0] == '=' ? s == a.first.substr(1) : s.find(a.first) != std::string::npos) ok = a.second != "!";
        it = NativeOk.emplace(callee, ok).first;
    }
    if (it->second) return;
    for (uint32_t i = 0; i < n; ++i) {
        if (kinds[i] != 'p' && kinds[i] != 'b') continue;
        uint64_t a = rt_argv[i];
        if (a < 4096) continue;
        uint64_t len = 64;
        // {pointer, 64-bit length} pairs (StringRef) are examined exactly
        bool exact = kinds[i] == 'p' && i + 1 < n && kinds[i + 1] == 'L' && rt_argv[i + 1] <= (1 << 20);
        if (exact) len = rt_argv[i + 1];
        bool leak = anyShadow(a, len);
        if (!leak && !exact) {
            for (int k = 0; k < 8 && !leak; ++k) {
                uint64_t q = a + 8 * k;
                if ((q >> 12) != (a >> 12) && !readable(q, 8)) break;
                if (k == 0 && !readable(q, 8)) break;
                uint64_t v = *(uint64_t *)q;
                if (v < 4096 || v > 0x7fffffffffffull) continue;
                leak = anyShadow(v, 64);
            }
        }
        if (leak) Leaks.insert(symName(callee) + " called from " + (fn ? fn : "?") + ":" + std::to_string(line));
    }
}
static void pcSym(int i, const char *fn, uint32_t line)
{
    if (rt_args[i]) concretize(rt_argv[i] & mask(N[rt_args[i]].w), rt_args[i], fn, line);
}
static bool byteEq(uint64_t a, uint64_t b, const char *fn, uint32_t line)
{
    Id x = byteShadow(a), y = byteShadow(b);
    bool t = *(uint8_t *)a == *(uint8_t *)b;
    if (x || y) record(mkBin(OpEq, 8, operand(8, *(uint8_t *)a, x), operand(8, *(uint8_t *)b, y)), t, fn, line);
    return t;
}
static bool byteIs(uint64_t a, uint8_t c, const char *fn, uint32_t line)
{
    Id x = byteShadow(a);
    bool t = *(uint8_t *)a == c;
    if (x) record(mkBin(OpEq, 8, x, mkConst(8, c)), t, fn, line);
    return t;
}
#include <ctype.h>
#include <strings.h>
API int rt_memcmp(const uint8_t *a, const uint8_t *b, uint64_t n)
{
    for (uint64_t i = 0; i < n; ++i)
        if (a[i] != b[i]) return (int)a[i] - (int)b[i];
    return 0;
}
API uint32_t rt_model(uint32_t id, uint32_t w, uint64_t ret, const char *fn, uint32_t line)
{
    if (!rt_live || Vars.empty()) return 0;
    // rt_args/rt_argv still hold the arguments: the callee was native libc code
    uint64_t a = rt_argv[0], b = rt_argv[1], n = rt_argv[2];
    switch (id) {
    case 1: { // memcmp
        pcSym(0, fn, line); pcSym(1, fn, line); pcSym(2, fn, line);
        if (!anyShadow(a, n) && !anyShadow(b, n)) return 0;
        Id r = mkConst(32, 0);
        for (int64_t i = n - 1; i >= 0; --i) {
            Id x = operand(8, *(uint8_t *)(a + i), byteShadow(a + i)), y = operand(8, *(uint8_t *)(b + i), byteShadow(b + i));
            r = mkIte(mkBin(OpEq, 8, x, y), r, mkBin(OpSub, 32, mkCast(OpZExt, 32, x), mkCast(OpZExt, 32, y)));
        }
        if (isC(r)) return 0;
        SymFns.insert(fn);
        if (N[r].val != (ret & mask(32))) {
            // other return magnitude: fix the sign on this path instead
            record(mkBin(OpEq, 32, r, mkConst(32, 0)), N[r].val == 0, fn, line);
            record(mkBin(OpSlt, 32, r, mkConst(32, 0)), sx(N[r].val, 32) < 0, fn, line);
            return 0;
        }
        return r;
    }
    case 2: // strlen
        pcSym(0, fn, line);
        for (uint64_t i = 0;; ++i)
            if (byteIs(a + i, 0, fn, line)) return 0;
    case 3: // memchr
        pcSym(0, fn, line); pcSym(2, fn, line);
        if (rt_args[1] && !isC(rt_args[1]) && n <= 256 && !anyShadow(a, n)) { // an unknown character in a known string
            SymFns.insert(fn);
            Id c = mkExtract(rt_args[1], 0, 8), r = mkConst(64, 0);
            for (int64_t i = (int64_t)n - 1; i >= 0; --i) r = mkIte(mkBin(OpEq, 8, c, mkConst(8, *(uint8_t *)(a + i))), mkConst(64, a + i), r);
            if (isC(r)) return 0;
            if (N[r].val != ret) inconclusive("memchr model disagrees at %s:%u", fn, line);
            return r;
        }
        pcSym(1, fn, line);
        for (uint64_t i = 0; i < n; ++i)
            if (byteIs(a + i, b, fn, line)) return 0;
        return 0;
    case 6: // strchr
        pcSym(0, fn, line); pcSym(1, fn, line);
        for (uint64_t i = 0;; ++i) {
            if (byteIs(a + i, b, fn, line)) return 0;
            if (byteIs(a + i, 0, fn, line)) return 0;
        }
    case 4: // strcmp
        n = ~0ull;
        [[fallthrough]];
    case 5: // strncmp
        pcSym(0, fn, line); pcSym(1, fn, line);
        if (id == 5) pcSym(2, fn, line);
        for (uint64_t i = 0; i < n; ++i) {
            if (!byteEq(a + i, b + i, fn, line)) {
                Id x = byteShadow(a + i), y = byteShadow(b + i);
                if (x || y) {
                    Id lt = mkBin(OpUlt, 8, operand(8, *(uint8_t *)(a + i), x), operand(8, *(uint8_t *)(b + i), y));
                    record(lt, N[lt].val, fn, line);
                }
                return 0;
            }
            if (byteIs(a + i, 0, fn, line)) return 0;
        }
        return 0;
    case 7: { // strstr
        pcSym(0, fn, line); pcSym(1, fn, line);
        for (uint64_t i = 0;; ++i) {
            uint64_t k = 0;
            bool m = true;
            while (!byteIs(b + k, 0, fn, line)) {
                if (!byteEq(a + i + k, b + k, fn, line)) { m = false; break; }
                if (*(char *)(a + i + k) == 0) { m = false; break; }
                ++k;
            }
            if (m) return 0;
            if (byteIs(a + i, 0, fn, line)) return 0;
        }
    }
    case 8:
    case 9:
        pcSym(0, fn, line); pcSym(1, fn, line);
        if (id == 8) n = ~0ull;
        for (uint64_t i = 0; i < n; ++i) {
            if (byteShadow(a + i)) concretizeMem(a + i, 1, fn, line);
            if (byteShadow(b + i)) concretizeMem(b + i, 1, fn, line);
            if (!*(char *)(a + i) || !*(char *)(b + i)) return 0;
            if (tolower(*(uint8_t *)(a + i)) != tolower(*(uint8_t *)(b + i))) return 0;
        }
        return 0;
    default: {
        if (!rt_args[0]) return 0;
        int (*f)(int) = nullptr;
        switch (id) {
        case 10: f = isspace; break;
        case 11: f = isdigit; break;
        case 12: f = isxdigit; break;
        case 13: f = isalpha; break;
        case 14: f = isalnum; break;
        case 15: f = isupper; break;
        case 16: f = islower; break;
        case 17: f = toupper; break;
        case 18: f = tolower; break;
        case 19: f = ispunct; break;
        case 20: f = isprint; break;
        }
        if (!f) inconclusive("no model %u", id);
        Id x = rt_args[0];
        if (!tabulable(x)) {
            concretize(a & mask(32), x, fn, line);
            return 0;
        }
        SymFns.insert(fn);
        Id r = tabulate(x, [&](uint64_t v) -> Id {
            int k = (int)sx(v, 32);
            if (k < -128 || k > 255) return 0;
            return mkConst(32, (uint64_t)(int64_t)f(k));
        });
        if (!r) {
            concretize(a & mask(32), x, fn, line);
            return 0;
        }
        if (isC(r)) return 0;
        if (N[r].val != (ret & mask(32))) inconclusive("ctype model disagrees");
        return r;
    }
    }
}

// ---------------------------------------------------------------- Z3
static Z3_context Z = nullptr;
static std::unordered_map<Id, Z3_ast> ZMemo;
static Z3_ast zbv(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(Z, v & mask(w), Z3_mk_bv_sort(Z, w)); }
static Z3_ast zex(Id id);
static Z3_ast zAsBV(Id id)
{
    Z3_ast x = zex(id);
    return N[id].w == 1 ? Z3_mk_ite(Z, x, zbv(1, 1), zbv(1, 0)) : x;
}
// an upper bound of the unsigned value, from the shape of the expression
static std::unordered_map<Id, uint64_t> UMemo;
static uint64_t umax(Id id)
{
    const Node n = N[id];
    if (n.op == OpConst) return n.cval;
    if (n.w > 64) return ~0ull;
    const uint64_t mask = n.w == 64 ? ~0ull : (1ull << n.w) - 1;
    auto it = UMemo.find(id);
    if (it != UMemo.end()) return it->second;
    uint64_t r = mask;
    auto bits = [](uint64_t v) { return v ? ~0ull >> __builtin_clzll(v) : 0; };
    switch (n.op) {
    case OpZExt: r = umax(n.a); break;
    case OpIte: r = std::max(umax(n.b), umax(n.c)); break;
    case OpExtract:
        if (N[n.a].w <= 64) r = umax(n.a) >> n.c;
        break;
    case OpConcat:
        r = (umax(n.a) << N[n.b].w) | bits(umax(n.b));
        break;
    case OpAdd: {
        uint64_t a = umax(n.a), b = umax(n.b), x;
        if (!__builtin_add_overflow(a, b, &x)) r = x;
        else r = ~0ull;
        if (r > mask) r = mask;
        break;
    }
    case OpMul: {
        uint64_t a = umax(n.a), b = umax(n.b), x;
        if (__builtin_mul_overflow(a, b, &x) || x > mask) x = mask;
        r = x;
        break;
    }
    case OpAnd: r = std::min(umax(n.a), umax(n.b)); break;
    case OpOr:
    case OpXor: r = bits(umax(n.a) | umax(n.b)); break;
    case OpUDiv:
        if (isC(n.b) && N[n.b].cval) r = umax(n.a) / N[n.b].cval;
        break;
    case OpURem:
        if (isC(n.b) && N[n.b].cval) r = std::min(umax(n.a), N[n.b].cval - 1);
        break;
    case OpSDiv:
        if (isC(n.b) && N[n.b].cval && N[n.b].cval <= mask / 2 && umax(n.a) <= mask / 2) r = umax(n.a) / N[n.b].cval;
        break;
    case OpSRem:
        if (isC(n.b) && N[n.b].cval && N[n.b].cval <= mask / 2 && umax(n.a) <= mask / 2) r = std::min(umax(n.a), N[n.b].cval - 1);
        break;
    case OpLShr:
        if (isC(n.b) && N[n.b].cval < n.w) r = umax(n.a) >> N[n.b].cval;
        break;
    default: break;
    }
    r = std::min(r, mask);
    return UMemo[id] = r;
}
static Z3_ast zex1(Id id)
{
    const Node n = N[id];
    if (n.op == OpConst) return n.w == 1 ? (n.cval ? Z3_mk_true(Z) : Z3_mk_false(Z)) : zbv(n.w, n.cval);
    if (n.op == OpVar) {
        std::string nm = "v" + std::to_string(n.cval);
        return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), Z3_mk_bv_sort(Z, n.w));
    }
    if (n.op == OpIte) return Z3_mk_ite(Z, zex(n.a), zex(n.b), zex(n.c));
    if (n.w == 1 && (n.op == OpAnd || n.op == OpOr || n.op == OpXor || n.op == OpAdd || n.op == OpSub)) {
        Z3_ast ar[2] = {zex(n.a), zex(n.b)};
        if (n.op == OpAnd) return Z3_mk_and(Z, 2, ar);
        if (n.op == OpOr) return Z3_mk_or(Z, 2, ar);
        if (n.op == OpXor && isC(n.b)) return N[n.b].cval ? Z3_mk_not(Z, ar[0]) : ar[0];
        return Z3_mk_xor(Z, ar[0], ar[1]);
    }
    if (n.op >= OpEq && n.op <= OpSle) {
        Z3_ast x = zex(n.a), y = zex(n.b);
        if (N[n.a].w == 1 && n.op != OpEq) {
            x = zAsBV(n.a);
            y = zAsBV(n.b);
        }
        switch (n.op) {
        case OpEq: return Z3_mk_eq(Z, x, y);
        case OpNe: return Z3_mk_not(Z, Z3_mk_eq(Z, x, y));
        case OpUgt: return Z3_mk_bvugt(Z, x, y);
        case OpUge: return Z3_mk_bvuge(Z, x, y);
        case OpUlt: return Z3_mk_bvult(Z, x, y);
        case OpUle: return Z3_mk_bvule(Z, x, y);
        case OpSgt: return Z3_mk_bvsgt(Z, x, y);
        case OpSge: return Z3_mk_bvsge(Z, x, y);
        case OpSlt: return Z3_mk_bvslt(Z, x, y);
        case OpSle: return Z3_mk_bvsle(Z, x, y);
        }
    }
    Z3_ast r;
    switch (n.op) {
    case OpZExt:
        if (N[n.a].w == 1) return Z3_mk_ite(Z, zex(n.a), zbv(n.w, 1), zbv(n.w, 0));
        return Z3_mk_zero_ext(Z, n.w - N[n.a].w, zex(n.a));
    case OpSExt:
        if (N[n.a].w == 1) return Z3_mk_ite(Z, zex(n.a), zbv(n.w, ~0ull), zbv(n.w, 0));
        return Z3_mk_sign_ext(Z, n.w - N[n.a].w, zex(n.a));
    case OpExtract:
        r = Z3_mk_extract(Z, n.c + n.w - 1, n.c, zex(n.a));
        return n.w == 1 ? Z3_mk_eq(Z, r, zbv(1, 1)) : r;
    case OpConcat: return Z3_mk_concat(Z, zAsBV(n.a), zAsBV(n.b));
    default: break;
    }
    if (n.w > 1 && n.w <= 64 && n.op >= OpUDiv && n.op <= OpSRem && isC(n.b) && N[n.b].cval) { // division by a constant, no wider than needed
        const uint64_t d = N[n.b].cval, m = umax(n.a), half = (n.w == 64 ? ~0ull : (1ull << n.w) - 1) / 2;
        const bool rem = n.op == OpURem || n.op == OpSRem;
        if (n.op == OpUDiv || n.op == OpURem || (d <= half && m <= half)) {
            if (m < d) return rem ? zex(n.a) : zbv(n.w, 0);
            const unsigned k = 64 - __builtin_clzll(m);
            Z3_ast x = zAsBV(n.a), y = zbv(k, d);
            if (k < n.w) x = Z3_mk_extract(Z, k - 1, 0, x);
            r = rem ? Z3_mk_bvurem(Z, x, y) : Z3_mk_bvudiv(Z, x, y);
            return k < n.w ? Z3_mk_zero_ext(Z, n.w - k, r) : r;
        }
    }
    Z3_ast x = zAsBV(n.a), y = zAsBV(n.b);
    switch (n.op) {
    case OpAdd: r = Z3_mk_bvadd(Z, x, y); break;
    case OpSub: r = Z3_mk_bvsub(Z, x, y); break;
    case OpMul: r = Z3_mk_bvmul(Z, x, y); break;
    case OpUDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case OpSDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case OpURem: r = Z3_mk_bvurem(Z, x, y); break;
    case OpSRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case OpShl: r = Z3_mk_bvshl(Z, x, y); break;
    case OpLShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case OpAShr: r = Z3_mk_bvashr(Z, x, y); break;
    case OpAnd: r = Z3_mk_bvand(Z, x, y); break;
    case OpOr: r = Z3_mk_bvor(Z, x, y); break;
    case OpXor: r = Z3_mk_bvxor(Z, x, y); break;
    default: inconclusive("no solver encoding for op %u", n.op);
    }
    return n.w == 1 ? Z3_mk_eq(Z, r, zbv(1, 1)) : r;
}
static Z3_ast zex(Id id)
{
    auto it = ZMemo.find(id);
    if (it != ZMemo.end()) return it->second;
    Z3_ast r = zex1(id);
    Z3_inc_ref(Z, r);
    ZMemo[id] = r;
    return r;
}
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void zerr(Z3_context c, Z3_error_code e)
{
    inconclusive("z3 error: %s", Z3_get_error_msg(c, e));
}

// ---------------------------------------------------------------- child -> parent
static std::string Out;
static void put8(uint8_t v) { Out.push_back((char)v); }
static void put32(uint32_t v) { Out.append((char *)&v, 4); }
static void put64(uint64_t v) { Out.append((char *)&v, 8); }
static void putS(const std::string &s)
{
    put32(s.size());
    Out += s;
}
static void flushOut()
{
    size_t o = 0;
    while (o < Out.size()) {
        ssize_t r = write(OutFd, Out.data() + o, Out.size() - o);
        if (r < 0) {
            if (errno == EINTR) continue;
            break;
        }
        o += r;
    }
    Out.clear();
}
static uint32_t Queries = 0, QSat = 0, QUnsat = 0, QUnknown = 0, AssertQ = 0, AssertUnsat = 0;
static double SolverS = 0;
static unsigned SolverTimeoutMs = 30000;

static void emitVars(uint8_t tag, const std::string &what, const std::vector<uint64_t> &vals)
{
    put8(tag);
    putS(what);
    putS(Describe);
    putS(KnownTag);
    put32(Vars.size());
    for (size_t i = 0; i < Vars.size(); ++i) {
        putS(Vars[i].name);
        put8(Vars[i].w);
        put64(vals[i]);
    }
}
static void emitStats()
{
    put8('S');
    put32(Queries); put32(QSat); put32(QUnsat); put32(QUnknown); put32(AssertQ); put32(AssertUnsat);
    put64((uint64_t)(SolverS * 1e6));
    put64(SymOps);
    put32(Path.size());
    put32(Asserts.size());
    put32(Vars.size());
    put32(SymFns.size());
    for (auto f : SymFns) put64((uint64_t)f);
    put32(Leaks.size());
    for (auto &l : Leaks) putS(l);
    put32(Reached.size());
    for (auto &l : Reached) putS(l);
    std::string smp;
    for (size_t i = 0; i < Vars.size() && smp.size() < 400; ++i) {
        auto &v = Vars[i];
        size_t b = v.name.rfind('[');
        std::string base = v.name.substr(0, b);
        bool same = i && b != std::string::npos && Vars[i - 1].name.substr(0, Vars[i - 1].name.rfind('[')) == base && Vars[i - 1].name.back() == ']';
        if (!same) smp += (i ? " " : "") + base + "=";
        if (v.w == 8 && b != std::string::npos) {
            char t[8];
            if (v.val >= 32 && v.val < 127) snprintf(t, 8, "%c", (int)v.val);
            else snprintf(t, 8, "\\x%02x", (int)v.val);
            smp += t;
        } else smp += std::to_string(v.val);
    }
    putS(smp);
}
[[noreturn]] static void inconclusive(const char *fmt, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rt_live = 0;
    if (OutFd < 0) {
        fprintf(stderr, "symrt: %s\n", b);
        _exit(4);
    }
    Out.clear();
    emitVars('I', b, [] { std::vector<uint64_t> v; for (auto &x : Vars) v.push_back(x.val); return v; }());
    emitStats();
    flushOut();
    _exit(0);
}

static std::vector<uint64_t> modelVals(Z3_solver s)
{
    Z3_model m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m);
    std::vector<uint64_t> v;
    for (size_t i = 0; i < Vars.size(); ++i) {
        uint64_t x = Vars[i].val;
        Z3_ast r = nullptr;
        Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, zex(Vars[i].node)));
        if (Z3_ast i2 = Z3_model_get_const_interp(Z, m, d)) {
            uint64_t t;
            if (Z3_get_numeral_uint64(Z, i2, &t)) x = t;
        }
        (void)r;
        v.push_back(x);
    }
    Z3_model_dec_ref(Z, m);
    return v;
}

static Z3_solver ZS = nullptr;
static void initSolver() // in the parent, so that the path processes share the pages
{
    if (Z) return;
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, zerr);
    ZS = getenv("SYM_SIMPLE") ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, ZS);
    Z3_params ps = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, ps);
    Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "rlimit"), 4000000);
    Z3_solver_set_params(Z, ZS, ps);
    Z3_solver_push(Z, ZS);
    Z3_ast w = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warmup"), Z3_mk_bv_sort(Z, 8));
    Z3_solver_assert(Z, ZS, Z3_mk_bvult(Z, w, zbv(8, 7)));
    Z3_solver_check(Z, ZS);
    Z3_solver_pop(Z, ZS, 1);
}

static void solveAll()
{
    rt_live = 0;
    Z3_solver s = ZS, model = s, hard = nullptr;
    auto query = [&](Z3_ast extra) {
        Z3_solver_push(Z, s);
        Z3_solver_assert(Z, s, extra);
        double t = now();
        Z3_lbool r = Z3_solver_check(Z, s);
        model = s;
        if (r == Z3_L_UNDEF) { // the incremental core got stuck: bit-blast the whole query from scratch
            if (hard) Z3_solver_dec_ref(Z, hard);
            const char *names[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"};
            Z3_tactic tac = nullptr;
            for (int i = 5; i >= 0; --i) {
                Z3_tactic x = Z3_mk_tactic(Z, names[i]);
                Z3_tactic_inc_ref(Z, x);
                tac = tac ? Z3_tactic_and_then(Z, x, tac) : x;
                Z3_tactic_inc_ref(Z, tac);
            }
            hard = Z3_mk_solver_from_tactic(Z, tac);
            Z3_solver_inc_ref(Z, hard);
            Z3_params ps = Z3_mk_params(Z);
            Z3_params_inc_ref(Z, ps);
            Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), SolverTimeoutMs);
            Z3_solver_set_params(Z, hard, ps);
            Z3_ast_vector as = Z3_solver_get_assertions(Z, s);
            Z3_ast_vector_inc_ref(Z, as);
            for (unsigned i = 0; i < Z3_ast_vector_size(Z, as); ++i) Z3_solver_assert(Z, hard, Z3_ast_vector_get(Z, as, i));
            Z3_ast_vector_dec_ref(Z, as);
            r = Z3_solver_check(Z, hard);
            model = hard;
        }
        SolverS += now() - t;
        ++Queries;
        if (r == Z3_L_TRUE) ++QSat;
        else if (r == Z3_L_FALSE) ++QUnsat;
        else ++QUnknown;
        return r;
    };
    size_t ai = 0;
    uint64_t h = 0;
    std::string unknowns;
    for (size_t i = 0; i <= Path.size(); ++i) {
        while (ai < Asserts.size() && Asserts[ai].at == i) {
            auto &A = Asserts[ai++];
            if (isC(A.cond) || i < Bound) { // before the flipped branch: decided on the parent path
                if (!isC(A.cond)) Z3_solver_assert(Z, s, zex(A.cond));
                continue;
            }
            Z3_lbool r = query(Z3_mk_not(Z, zex(A.cond)));
            ++AssertQ;
            if (r == Z3_L_TRUE) {
                auto v = modelVals(model);
                std::string kt = KnownTag;
                KnownTag = A.known;
                emitVars('V', A.what, v);
                KnownTag = kt;
            } else if (r == Z3_L_FALSE)
                ++AssertUnsat;
            else
                unknowns = "solver gave no answer for assertion " + A.what;
            Z3_solver_pop(Z, s, 1);
            Z3_solver_assert(Z, s, zex(A.cond));
        }
        if (i == Path.size()) break;
        auto &b = Path[i];
        if (i >= Bound && b.flippable) {
            Z3_ast c = zex(b.cond);
            Z3_lbool r = query(b.taken ? Z3_mk_not(Z, c) : c);
            if (r == Z3_L_TRUE) {
                auto v = modelVals(model);
                put8('N');
                put32(i + 1);
                put64(hashStep(h, b.fn, b.line, !b.taken));
                put32(v.size());
                for (auto x : v) put64(x);
            } else if (r != Z3_L_FALSE)
                unknowns = std::string("solver gave no answer for a branch in ") + (b.fn ? b.fn : "?") + ":" + std::to_string(b.line);
            Z3_solver_pop(Z, s, 1);
        }
        Z3_ast c = zex(b.cond);
        Z3_solver_assert(Z, s, b.taken ? c : Z3_mk_not(Z, c));
        h = hashStep(h, b.fn, b.line, b.taken);
    }
    if (!unknowns.empty()) emitVars('I', unknowns, [] { std::vector<uint64_t> v; for (auto &x : Vars) v.push_back(x.val); return v; }());
}

static std::vector<uint64_t> curVals()
{
    std::vector<uint64_t> v;
    for (auto &x : Vars) v.push_back(x.val);
    return v;
}
[[noreturn]] static void endPath()
{
    rt_live = 0;
    Finished = true;
    if (Path.size() < Bound) {
        Bound = 0xffffffff;
        inconclusive("path ended before the predicted branch (%zu branches)", Path.size());
    }
    solveAll();
    emitStats();
    flushOut();
    _exit(0);
}
static void onCrash(int sig)
{
    if (Finished || !rt_live) {
        signal(sig, SIG_DFL);
        raise(sig);
        _exit(7);
    }
    rt_live = 0;
    Finished = true;
    if (getenv("SYM_CRASHBT")) {
        void *bt[60];
        int n = backtrace(bt, 60);
        int fd = open("/dev/tty", O_WRONLY);
        if (fd < 0) fd = open("/tmp/crashbt.txt", O_WRONLY | O_CREAT | O_APPEND, 0644);
        backtrace_symbols_fd(bt, n, fd);
        if (write(fd, "\n", 1)) {}
    }
    char b[128];
    snprintf(b, sizeof b, "crash: %s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT (assertion or uncaught exception)" : sig == SIGILL || sig == SIGTRAP ? "undefined behaviour trap" : sig == SIGXCPU ? "no termination within the time bound" : "signal");
    emitVars('V', b, curVals());
    if (Path.size() >= Bound) solveAll();
    emitStats();
    flushOut();
    _exit(0);
}

// ---------------------------------------------------------------- harness API
static int newVar(const std::string &name, unsigned w, uint64_t cur)
{
    Var v;
    v.name = name;
    v.w = w;
    size_t i = Vars.size();
    v.val = i < InputVals.size() ? InputVals[i] : cur;
    v.val &= mask(w);
    for (int k = 0; k < 256; ++k) v.dom[k] = true;
    N.push_back({OpVar, (uint8_t)w, 0, 0, 0, i, v.val, (int32_t)i});
    v.node = N.size() - 1;
    Vars.push_back(v);
    return i;
}
static std::string curHarness;
API void rt_make_symbolic(void *p, uint64_t n, const char *name)
{
    if (!rt_live) return;
    for (uint64_t k = 0; k < n; ++k) {
        uint8_t *q = (uint8_t *)p + k;
        int i = newVar(std::string(name) + "[" + std::to_string(k) + "]", 8, *q);
        *q = Vars[i].val;
        setByte((uint64_t)q, Vars[i].node, *q);
    }
}
API void rt_make_symbolic_int(void *p, uint32_t bytes, const char *name)
{
    if (!rt_live) return;
    uint64_t cur = 0;
    memcpy(&cur, p, bytes);
    int i = newVar(name, bytes * 8, cur);
    uint64_t v = Vars[i].val;
    memcpy(p, &v, bytes);
    for (unsigned k = 0; k < bytes; ++k) setByte((uint64_t)p + k, mkExtract(Vars[i].node, 8 * k, 8), (v >> (8 * k)) & 0xff);
}
static Id boolOf(const uint8_t *c)
{
    Id b = byteShadow((uint64_t)c);
    if (!b) return 0;
    return mkBin(OpNe, 8, b, mkConst(8, 0));
}
API void rt_assume(const uint8_t *c)
{
    if (!rt_live) return;
    Id b = boolOf(c);
    bool ok = *c;
    if (b) record(b, ok, "assume", 0);
    if (!ok) {
        rt_live = 0;
        // abandoned: assertions recorded so far still count
        endPath();
    }
}
API void rt_path_end(void)
{
    if (rt_live) endPath();
}
API void rt_assert(const uint8_t *c, const char *what)
{
    if (!rt_live) return;
    Id b = boolOf(c);
    if (!*c) {
        // the current input violates the property
        emitVars('V', what, curVals());
        if (b && !isC(b)) {
            record(b, false, "assert", 0);
        }
        endPath();
    }
    if (b) Asserts.push_back({b, (uint32_t)Path.size(), what, KnownTag});
    else Asserts.push_back({mkConst(1, 1), (uint32_t)Path.size(), what, KnownTag});
}
API uint64_t rt_pick(const void *p, uint32_t bytes)
{
    uint64_t v = 0;
    memcpy(&v, p, bytes);
    if (!rt_live) return v;
    Id e = 0;
    bool any = false;
    for (unsigned i = 0; i < bytes; ++i) any |= byteShadow((uint64_t)p + i) != 0;
    if (!any) return v;
    e = loadExpr((uint64_t)p, bytes);
    concretize(v, e, "rt_pick", 0);
    clearRange((uint64_t)p, bytes);
    return v;
}
API void rt_reach(const char *what)
{
    if (rt_live) Reached.insert(what);
}
API void rt_describe(const char *t)
{
    Describe = t;
}
API void rt_known(const char *id)
{
    KnownTag = id;
}
API int rt_is_native(void) { return 0; }
API int rt_is_symbolic(const void *p, uint32_t n) { return anyShadow((uint64_t)p, n); }
API void rt_allow_native(const char *s, const char *why)
{
    for (auto &a : Allowed)
        if (a.first == s) return;
    Allowed.push_back({s, why});
}

// ---------------------------------------------------------------- parent
struct Item {
    uint32_t bound;
    uint64_t hash;
    std::vector<uint64_t> vals;
};
struct Cex {
    std::string harness, what, describe, known;
    std::vector<std::string> names;
    std::vector<int> widths;
    std::vector<uint64_t> vals;
};
struct Result {
    std::string harness;
    uint64_t paths = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, assertQ = 0, assertUnsat = 0, symops = 0, branches = 0, asserts = 0, maxvars = 0, maxbr = 0;
    double solver = 0, wall = 0;
    bool complete = true;
    std::vector<std::string> inconcl;
    std::set<std::string> leaks;
    std::map<std::string, uint64_t> reached;
    std::vector<std::string> missing;
    std::vector<std::string> samples;
};
static std::vector<Result> Results;
static std::vector<Cex> Cexs;
static std::set<uint64_t> AllFns;
static std::map<std::string, uint64_t> AllReached;

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static const char *env(const char *n, const char *d)
{
    const char *v = getenv(n);
    return v && *v ? v : d;
}
API uint64_t rt_param(const char *name, uint64_t dflt)
{
    std::string n = std::string("SYM_") + name;
    const char *v = getenv(n.c_str());
    return v && *v ? strtoull(v, nullptr, 0) : dflt;
}
struct Reader {
    const std::string &s;
    size_t o = 0;
    bool ok = true;
    template<typename T> T get()
    {
        T v{};
        if (o + sizeof(T) > s.size()) { ok = false; return v; }
        memcpy(&v, s.data() + o, sizeof(T));
        o += sizeof(T);
        return v;
    }
    std::string str()
    {
        uint32_t n = get<uint32_t>();
        if (!ok || o + n > s.size()) { ok = false; return {}; }
        std::string r = s.substr(o, n);
        o += n;
        return r;
    }
};
static double T0 = 0;
static int Tokens[2] = {-1, -1}; // how many more path processes may run
static void exploreHere(const char *name, void (*fn)(void *), void *arg)
{
    curHarness = name;
    Result R;
    R.harness = name;
    double t0 = now();
    double budget = atof(env("SYM_BUDGET_S", "600"));
    int jobs = atoi(env("SYM_JOBS", "8"));
    uint64_t maxPaths = strtoull(env("SYM_MAX_PATHS", "2000000"), nullptr, 0);
    int maxCex = atoi(env("SYM_MAX_CEX", "3"));
    int verbose = atoi(env("SYM_VERBOSE", "0"));
    MaxBranches = atoi(env("SYM_MAX_BRANCHES", "20000"));
    SolverTimeoutMs = atoi(env("SYM_SOLVER_MS", "60000"));
    int pathTimeout = atoi(env("SYM_PATH_S", "60"));
    std::deque<Item> work;
    work.push_back({0, 0, {}});
    struct Child {
        pid_t pid;
        int fd;
        std::string buf;
        Item item;
        bool token;
    };
    std::vector<Child> ch;
    bool stop = false;
    fflush(stdout);
    fflush(stderr);
    size_t cexHere = 0;
    std::set<std::string> cexSeen;
    while (!ch.empty() || (!work.empty() && !stop)) {
        while (!stop && !work.empty() && (int)ch.size() < jobs) {
            if (R.paths + ch.size() >= maxPaths || now() - T0 > budget) {
                R.complete = false;
                R.inconcl.push_back(R.paths + ch.size() >= maxPaths ? "path budget exhausted" : "time budget exhausted");
                stop = true;
                break;
            }
            char tk = 0;
            if (!ch.empty() && Tokens[0] >= 0 && read(Tokens[0], &tk, 1) != 1) break;
            Item it = std::move(work.front());
            work.pop_front();
            int p[2];
            if (pipe(p)) abort();
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); _exit(4); }
            if (!pid) {
                close(p[0]);
                for (auto &c : ch) close(c.fd);
                OutFd = p[1];
                Bound = it.bound;
                if (const char *td = getenv("SYM_TRACE")) {
                    Trace = fopen((std::string(td) + "/" + std::to_string(getpid())).c_str(), "w");
                    fprintf(Trace, "bound %u vals", it.bound);
                    for (auto v : it.vals) fprintf(Trace, " %lu", v);
                    fputc('\n', Trace);
                }
                ExpectHash = it.hash;
                InputVals = it.vals;
                struct rlimit rl = {(rlim_t)pathTimeout, (rlim_t)pathTimeout + 5};
                setrlimit(RLIMIT_CPU, &rl);
                rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                rl = {(rlim_t)8 << 30, (rlim_t)8 << 30};
                setrlimit(RLIMIT_AS, &rl);
                size_t as = 64 << 20;
                stack_t ss;
                memset(&ss, 0, sizeof ss);
                ss.ss_sp = mmap(nullptr, as, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                ss.ss_size = as;
                sigaltstack(&ss, nullptr);
                struct sigaction sa;
                memset(&sa, 0, sizeof sa);
                sa.sa_handler = onCrash;
                sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGTRAP, SIGXCPU}) sigaction(sg, &sa, nullptr);
                rt_live = 1;
                rt_arg_tag = nullptr;
                rt_ret_tag = nullptr;
                fn(arg);
                endPath();
            }
            close(p[1]);
            ch.push_back({pid, p[0], {}, std::move(it), tk != 0});
        }
        if (ch.empty()) break;
        std::vector<pollfd> pf;
        for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), work.empty() || (int)ch.size() >= jobs ? 1000 : 20);
        for (size_t i = 0; i < ch.size();) {
            auto &c = ch[i];
            bool done = false;
            if (i < pf.size() && pf[i].fd == c.fd && pf[i].revents) {
                char b[65536];
                ssize_t r = read(c.fd, b, sizeof b);
                if (r > 0) c.buf.append(b, r);
                else if (r == 0) done = true;
            }
            if (!done) {
                ++i;
                continue;
            }
            int st;
            waitpid(c.pid, &st, 0);
            close(c.fd);
            if (c.token && write(Tokens[1], "t", 1) != 1) abort();
            ++R.paths;
            Reader rd{c.buf};
            bool sawStats = false;
            while (rd.o < c.buf.size() && rd.ok) {
                uint8_t tag = rd.get<uint8_t>();
                if (tag == 'N') {
                    Item it;
                    it.bound = rd.get<uint32_t>();
                    it.hash = rd.get<uint64_t>();
                    uint32_t n = rd.get<uint32_t>();
                    for (uint32_t k = 0; k < n; ++k) it.vals.push_back(rd.get<uint64_t>());
                    if (rd.ok) work.push_back(std::move(it));
                } else if (tag == 'V' || tag == 'I') {
                    Cex x;
                    x.harness = name;
                    x.what = rd.str();
                    x.describe = rd.str();
                    x.known = rd.str();
                    uint32_t n = rd.get<uint32_t>();
                    for (uint32_t k = 0; k < n && rd.ok; ++k) {
                        x.names.push_back(rd.str());
                        x.widths.push_back(rd.get<uint8_t>());
                        x.vals.push_back(rd.get<uint64_t>());
                    }
                    if (tag == 'V') {
                        if (x.known.empty()) {
                            ++cexHere;
                            if (cexSeen.size() < 20) Cexs.push_back(x);
                            cexSeen.insert(x.what);
                            if ((int)cexHere >= maxCex) stop = true;
                        } else if (cexSeen.insert(x.what + x.known).second)
                            Cexs.push_back(x);
                    } else {
                        R.complete = false;
                        if (R.inconcl.size() < 10) {
                            std::string s = x.what + " [input:";
                            for (size_t k = 0; k < x.vals.size() && k < 40; ++k) s += " " + std::to_string(x.vals[k]);
                            R.inconcl.push_back(s + "]");
                        }
                    }
                } else if (tag == 'S') {
                    sawStats = true;
                    R.queries += rd.get<uint32_t>(); R.sat += rd.get<uint32_t>(); R.unsat += rd.get<uint32_t>(); R.unknown += rd.get<uint32_t>();
                    R.assertQ += rd.get<uint32_t>(); R.assertUnsat += rd.get<uint32_t>();
                    R.solver += rd.get<uint64_t>() * 1e-6;
                    R.symops += rd.get<uint64_t>();
                    uint32_t br = rd.get<uint32_t>();
                    R.branches += br;
                    R.maxbr = std::max<uint64_t>(R.maxbr, br);
                    R.asserts += rd.get<uint32_t>();
                    R.maxvars = std::max<uint64_t>(R.maxvars, rd.get<uint32_t>());
                    uint32_t n = rd.get<uint32_t>();
                    for (uint32_t k = 0; k < n; ++k) AllFns.insert(rd.get<uint64_t>());
                    n = rd.get<uint32_t>();
                    for (uint32_t k = 0; k < n; ++k) R.leaks.insert(rd.str());
                    n = rd.get<uint32_t>();
                    for (uint32_t k = 0; k < n; ++k) { std::string s = rd.str(); R.reached[s]++; AllReached[s]++; }
                    std::string smp = rd.str();
                    if (R.samples.size() < 2 && !smp.empty()) R.samples.push_back(smp);
                } else
                    rd.ok = false;
            }
            if (!rd.ok || !sawStats) {
                R.complete = false;
                if (R.inconcl.size() < 10) {
                    std::string s = "a path process ended abnormally (status " + std::to_string(st) + ") [input:";
                    for (auto v : c.item.vals) s += " " + std::to_string(v);
                    R.inconcl.push_back(s + "]");
                }
            }
            if (verbose && R.paths % 500 == 0)
                fprintf(stderr, "  %s: %llu paths, %zu queued, %.1fs\n", name, (unsigned long long)R.paths, work.size(), now() - t0);
            ch.erase(ch.begin() + i);
            pf.clear();
            break;
        }
        if (stop && work.size()) R.complete = false;
    }
    R.wall = now() - t0;
    Results.push_back(R);
}
static void report(const Result &R)
{
    const char *name = R.harness.c_str();
    const int verbose = atoi(env("SYM_VERBOSE", "0"));
    if (verbose || !R.complete || !R.leaks.empty()) {
        fprintf(stderr, "%s: paths=%llu queries=%llu (sat %llu unsat %llu unknown %llu) asserts=%llu assertq=%llu maxbr=%llu vars=%llu solver=%.1fs wall=%.1fs %s\n", name, (unsigned long long)R.paths,
                (unsigned long long)R.queries, (unsigned long long)R.sat, (unsigned long long)R.unsat, (unsigned long long)R.unknown, (unsigned long long)R.asserts, (unsigned long long)R.assertQ,
                (unsigned long long)R.maxbr, (unsigned long long)R.maxvars, R.solver, R.wall, R.complete ? "complete" : "INCOMPLETE");
        for (auto &s : R.inconcl) fprintf(stderr, "  inconclusive: %s\n", s.c_str());
        for (auto &s : R.leaks) fprintf(stderr, "  native call with symbolic memory: %s\n", s.c_str());
        for (auto &s : R.reached) fprintf(stderr, "  reached %s: %llu\n", s.first.c_str(), (unsigned long long)s.second);
    }
}

// One process per exploration, several at a time.
struct Manager {
    pid_t pid;
    int fd;
    size_t index;
    std::string buf;
};
static std::vector<Manager> Managers;
static void serialize(const Result &R)
{
    auto strs = [](const auto &c) {
        put32(c.size());
        for (auto &x : c) putS(x);
    };
    for (uint64_t v : {R.paths, R.queries, R.sat, R.unsat, R.unknown, R.assertQ, R.assertUnsat, R.symops, R.branches, R.asserts, R.maxvars, R.maxbr, (uint64_t)(R.solver * 1e6), (uint64_t)(R.wall * 1e6)}) put64(v);
    put8(R.complete);
    strs(R.inconcl);
    strs(R.leaks);
    strs(R.samples);
    put32(R.reached.size());
    for (auto &p : R.reached) { putS(p.first); put64(p.second); }
    put32(AllFns.size());
    for (auto f : AllFns) put64(f);
    put32(Cexs.size());
    for (auto &x : Cexs) {
        putS(x.harness); putS(x.what); putS(x.describe); putS(x.known);
        strs(x.names);
        for (size_t i = 0; i < x.vals.size(); ++i) { put8(x.widths[i]); put64(x.vals[i]); }
    }
}
static bool deserialize(Reader rd, Result &R)
{
    auto strs = [&](auto add) {
        uint32_t n = rd.get<uint32_t>();
        for (uint32_t k = 0; k < n && rd.ok; ++k) add(rd.str());
    };
    for (uint64_t *v : {&R.paths, &R.queries, &R.sat, &R.unsat, &R.unknown, &R.assertQ, &R.assertUnsat, &R.symops, &R.branches, &R.asserts, &R.maxvars, &R.maxbr}) *v = rd.get<uint64_t>();
    R.solver = rd.get<uint64_t>() * 1e-6;
    R.wall = rd.get<uint64_t>() * 1e-6;
    R.complete = rd.get<uint8_t>();
    strs([&](std::string s) { R.inconcl.push_back(s); });
    strs([&](std::string s) { R.leaks.insert(s); });
    strs([&](std::string s) { R.samples.push_back(s); });
    uint32_t n = rd.get<uint32_t>();
    for (uint32_t k = 0; k < n && rd.ok; ++k) {
        std::string s = rd.str();
        uint64_t c = rd.get<uint64_t>();
        R.reached[s] += c;
        AllReached[s] += c;
    }
    n = rd.get<uint32_t>();
    for (uint32_t k = 0; k < n && rd.ok; ++k) AllFns.insert(rd.get<uint64_t>());
    n = rd.get<uint32_t>();
    for (uint32_t k = 0; k < n && rd.ok; ++k) {
        Cex x;
        x.harness = rd.str(); x.what = rd.str(); x.describe = rd.str(); x.known = rd.str();
        strs([&](std::string s) { x.names.push_back(s); });
        for (size_t i = 0; i < x.names.size(); ++i) {
            x.widths.push_back(rd.get<uint8_t>());
            x.vals.push_back(rd.get<uint64_t>());
        }
        if (rd.ok) Cexs.push_back(x);
    }
    return rd.ok && rd.o == rd.s.size();
}
static void reap(size_t atMost)
{
    while (Managers.size() > atMost) {
        std::vector<pollfd> pf;
        for (auto &m : Managers) pf.push_back({m.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (size_t i = 0; i < Managers.size(); ++i) {
            if (!pf[i].revents) continue;
            auto &m = Managers[i];
            char b[65536];
            ssize_t r = read(m.fd, b, sizeof b);
            if (r > 0) {
                m.buf.append(b, r);
                continue;
            }
            int st;
            waitpid(m.pid, &st, 0);
            close(m.fd);
            Result &R = Results[m.index];
            std::string name = R.harness;
            if (!deserialize(Reader{m.buf}, R)) {
                R = Result();
                R.harness = name;
                R.complete = false;
                R.inconcl.push_back("the exploration ended abnormally (status " + std::to_string(st) + ")");
            }
            report(R);
            Managers.erase(Managers.begin() + i);
            break;
        }
    }
}
API void rt_explore(const char *name, void (*fn)(void *), void *arg)
{
    if (const char *only = getenv("SYM_ONLY"); only && *only && strncmp(only, name, strlen(only))) return;
    if (!T0) {
        T0 = now();
        mallopt(M_TOP_PAD, 16 << 20);
        mallopt(M_MMAP_THRESHOLD, 256 << 20);
        initSolver();
        int jobs = atoi(env("SYM_JOBS", "8"));
        if (pipe(Tokens)) abort();
        fcntl(Tokens[0], F_SETFL, O_NONBLOCK);
        for (int i = 0; i < jobs - 3; ++i)
            if (write(Tokens[1], "t", 1) != 1) abort();
    }
    reap(atoi(env("SYM_EXPLORATIONS", "4")) - 1);
    int p[2];
    if (pipe(p)) abort();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(4); }
    if (!pid) {
        close(p[0]);
        for (auto &m : Managers) close(m.fd);
        Managers.clear();
        Results.clear();
        Cexs.clear();
        AllFns.clear();
        exploreHere(name, fn, arg);
        Out.clear();
        serialize(Results.back());
        OutFd = p[1];
        flushOut();
        _exit(0);
    }
    close(p[1]);
    Results.emplace_back();
    Results.back().harness = name;
    Managers.push_back({pid, p[0], Results.size() - 1, {}});
}
API void rt_expect_reach(const char *what)
{
    if (const char *only = getenv("SYM_ONLY"); only && *only) return;
    reap(0);
    if (!AllReached.count(what) && !Results.empty()) Results.back().missing.push_back(what);
}
API void rt_finish(void)
{
    reap(0);
    const char *out = getenv("SYM_OUT");
    FILE *f = out ? fopen(out, "w") : stdout;
    if (!f) { perror("SYM_OUT"); _exit(4); }
    fprintf(f, "{\"harnesses\":[");
    bool first = true;
    for (auto &R : Results) {
        fprintf(f, "%s{\"name\":%s,\"paths\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"assertions\":%llu,\"assertion_queries\":%llu,\"assertion_unsat\":%llu,\"symbolic_ops\":%llu,\"branches\":%llu,\"max_branches\":%llu,\"max_vars\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"complete\":%s",
                first ? "" : ",\n", jstr(R.harness).c_str(), (unsigned long long)R.paths, (unsigned long long)R.queries, (unsigned long long)R.sat, (unsigned long long)R.unsat, (unsigned long long)R.unknown,
                (unsigned long long)R.asserts, (unsigned long long)R.assertQ, (unsigned long long)R.assertUnsat, (unsigned long long)R.symops, (unsigned long long)R.branches, (unsigned long long)R.maxbr, (unsigned long long)R.maxvars, R.solver, R.wall, R.complete ? "true" : "false");
        first = false;
        auto list = [&](const char *k, auto &c) {
            fprintf(f, ",\"%s\":[", k);
            bool f2 = true;
            for (auto &s : c) { fprintf(f, "%s%s", f2 ? "" : ",", jstr(s).c_str()); f2 = false; }
            fprintf(f, "]");
        };
        list("inconclusive", R.inconcl);
        list("leaks", R.leaks);
        list("unreached", R.missing);
        list("samples", R.samples);
        fprintf(f, ",\"reached\":{");
        bool f3 = true;
        for (auto &p : R.reached) { fprintf(f, "%s%s:%llu", f3 ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); f3 = false; }
        fprintf(f, "}}");
    }
    fprintf(f, "],\n\"functions\":[");
    std::set<std::string> names;
    for (auto p : AllFns) names.insert((const char *)p);
    first = true;
    for (auto &s : names) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(f, "],\n\"allowed_native\":[");
    first = true;
    for (auto &a : Allowed) { fprintf(f, "%s[%s,%s]", first ? "" : ",", jstr(a.first).c_str(), jstr(a.second).c_str()); first = false; }
    fprintf(f, "],\n\"counterexamples\":[");
    first = true;
    for (auto &x : Cexs) {
        fprintf(f, "%s{\"harness\":%s,\"what\":%s,\"describe\":%s,\"known\":%s,\"inputs\":[", first ? "" : ",\n", jstr(x.harness).c_str(), jstr(x.what).c_str(), jstr(x.describe).c_str(), jstr(x.known).c_str());
        first = false;
        for (size_t i = 0; i < x.vals.size(); ++i)
            fprintf(f, "%s[%s,%d,%llu]", i ? "," : "", jstr(x.names[i]).c_str(), x.widths[i], (unsigned long long)x.vals[i]);
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    else fflush(f);
}
