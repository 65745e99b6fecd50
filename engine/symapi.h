// Harness-side interface, implemented twice: by symrt.cpp (symbolic run of the
// instrumented code) and by rtnative.cpp (replay of one input on plain code).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// every byte of [p, p+n) becomes an independent 8-bit input
void rt_make_symbolic(void *p, uint64_t n, const char *name);
// one input of 8*bytes bits
void rt_make_symbolic_int(void *p, uint32_t bytes, const char *name);
// *c (0/1) must hold; the path is abandoned otherwise
void rt_assume(const uint8_t *c);
// the property: solver-checked against the path condition
void rt_assert(const uint8_t *c, const char *what);
// make *p concrete by branching over all its feasible values
uint64_t rt_pick(const void *p, uint32_t bytes);
// reachability witness
void rt_reach(const char *what);
// explore all paths of fn(arg); may be called several times
void rt_explore(const char *name, void (*fn)(void *), void *arg);
// the path is complete here (nothing after it matters)
void rt_path_end(void);
// name must be reached by some path of the last exploration
void rt_expect_reach(const char *what);
// calls to this uninstrumented function (substring of its mangled name) may see symbolic memory
void rt_allow_native(const char *substr, const char *why);
// describe the current path (shown with a counterexample)
void rt_describe(const char *text);
int rt_is_native(void);
// a known finding: assertion failures after this call on this path are attributed to it
void rt_known(const char *id);
// is the byte/int at p dependent on an input?
int rt_is_symbolic(const void *p, uint32_t bytes);
void rt_finish(void);
// stop recording/propagating in an oracle that only needs concrete values
uint64_t rt_param(const char *name, uint64_t dflt);
}
