// Replay of one recorded input on uninstrumented code.
// SYM_REPLAY: text file, first line the harness name, then one decimal value per line.
#include "symapi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<uint64_t> vals;
static std::string harness, known;
static size_t pos = 0;
static bool running = false, loaded = false, ran = false;
static void load()
{
    if (loaded)
        return;
    loaded = true;
    FILE *f = fopen(getenv("SYM_REPLAY") ? getenv("SYM_REPLAY") : "", "r");
    if (!f) {
        fprintf(stderr, "SYM_REPLAY not set or unreadable\n");
        exit(4);
    }
    char b[4096];
    if (fgets(b, sizeof b, f))
        harness = b;
    while (!harness.empty() && (harness.back() == '\n' || harness.back() == '\r'))
        harness.pop_back();
    while (fgets(b, sizeof b, f))
        vals.push_back(strtoull(b, nullptr, 0));
    fclose(f);
}
extern "C" {
void rt_make_symbolic(void *p, uint64_t n, const char *)
{
    if (!running)
        return;
    for (uint64_t i = 0; i < n; ++i) {
        if (pos < vals.size())
            ((uint8_t *)p)[i] = (uint8_t)vals[pos];
        ++pos;
    }
}
void rt_make_symbolic_int(void *p, uint32_t bytes, const char *)
{
    if (!running)
        return;
    if (pos < vals.size())
        memcpy(p, &vals[pos], bytes);
    ++pos;
}
void rt_assume(const uint8_t *c)
{
    if (running && !*c) {
        printf("REPLAY assumption-false\n");
        fflush(stdout);
        _Exit(0);
    }
}
void rt_assert(const uint8_t *c, const char *what)
{
    if (running && !*c) {
        printf("REPLAY violated: %s\n", what);
        fflush(stdout);
        _Exit(1);
    }
}
uint64_t rt_pick(const void *p, uint32_t bytes)
{
    uint64_t v = 0;
    memcpy(&v, p, bytes);
    return v;
}
void rt_reach(const char *)
{
}
void rt_explore(const char *name, void (*fn)(void *), void *arg)
{
    load();
    if (harness != name || ran)
        return;
    ran = true;
    running = true;
    printf("REPLAY start %s\n", name);
    fflush(stdout);
    fn(arg);
    printf("REPLAY held\n");
    fflush(stdout);
    _Exit(0);
}
void rt_path_end(void)
{
    if (running) {
        printf("REPLAY held\n");
        fflush(stdout);
        _Exit(0);
    }
}
void rt_expect_reach(const char *)
{
}
void rt_allow_native(const char *, const char *)
{
}
void rt_describe(const char *t)
{
    if (running)
        printf("REPLAY case: %s\n", t);
}
int rt_is_native(void)
{
    return 1;
}
void rt_known(const char *)
{
}
int rt_is_symbolic(const void *, uint32_t)
{
    return 0;
}
uint64_t rt_param(const char *name, uint64_t dflt)
{
    std::string n = std::string("SYM_") + name;
    const char *v = getenv(n.c_str());
    return v && *v ? strtoull(v, nullptr, 0) : dflt;
}
void rt_finish(void)
{
    printf("REPLAY no such harness: %s\n", harness.c_str());
    _Exit(4);
}
}
