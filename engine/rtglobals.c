/* Linked into every instrumented harness: the shadow-passing globals and the
   allocator hooks that drop the shadow of freed memory. */
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
unsigned rt_args[64];
uint64_t rt_argv[64];
void *rt_arg_tag;
unsigned rt_ret[64];
void *rt_ret_tag;

extern volatile int rt_live;
void rt_on_free(void *p, size_t n);
void rt_on_move(void *dst, void *src, size_t n);
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
void free(void *p)
{
    if (p && rt_live)
        rt_on_free(p, malloc_usable_size(p));
    __libc_free(p);
}
void *realloc(void *p, size_t n)
{
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (rt_live && p && q && q != p) {
        rt_on_move(q, p, old < n ? old : n);
        rt_on_free(p, old);
    }
    return q;
}
