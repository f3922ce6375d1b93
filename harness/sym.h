/*
 * Interface between the harnesses and the symbolic executor.
 *
 * The same harness source is used in two ways:
 *  - compiled to bitcode and executed by symex, where sym_bytes() introduces
 *    symbolic data,
 *  - compiled natively (native.c provides these functions), where sym_bytes()
 *    reads the concrete values which the solver produced.
 */
#pragma once
#include <stddef.h>
#include <stdint.h>

/* fill [p, p+n) with unconstrained symbolic bytes */
void sym_bytes(void *p, size_t n);
/* restrict the exploration to inputs for which cond holds */
void sym_assume(int cond);
void sym_check_(int cond, const char *msg);
void sym_fail_(const char *msg) __attribute__((noreturn));
/* a value compared between the symbolic execution and the native replay */
void sym_observe(uint64_t v);
/* vacuity guard: sym_expect(l) demands that some path calls sym_reach(l) */
void sym_reach(const char *label);
void sym_expect(const char *label);
/* the i-th parameter of this run, or dflt */
uint64_t sym_param(unsigned i, uint64_t dflt);
/* fork over all feasible values of v */
uint64_t sym_concretize(uint64_t v);
void sym_end(void) __attribute__((noreturn));
/* allocations larger than n bytes fail (default 256 MB) */
void sym_max_alloc(uint64_t n);
/* copies of at most n bytes do not enumerate symbolic addresses (default 0) */
void sym_block_mux(uint64_t n);

/* raw allocator, used by rt.c only */
void *sym_malloc(size_t n);
void *sym_calloc(size_t a, size_t b);
void *sym_realloc(void *p, size_t n);
void sym_free(void *p);

/* coroutines */
int sym_thread_create(void (*fn)(void *), void *arg);
void sym_thread_switch(int tid);
int sym_thread_self(void);

#define sym_check(c, msg) sym_check_((c) != 0, msg)

/* like sym_bytes, with one variable for each byte */
static inline void
sym_code(uint8_t *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        sym_bytes(p + i, 1);
}
static inline uint8_t
sym_u8(void)
{
    uint8_t v;
    sym_bytes(&v, 1);
    return v;
}
static inline uint16_t
sym_u16(void)
{
    uint16_t v;
    sym_bytes(&v, 2);
    return v;
}
static inline uint32_t
sym_u32(void)
{
    uint32_t v;
    sym_bytes(&v, 4);
    return v;
}
static inline uint64_t
sym_u64(void)
{
    uint64_t v;
    sym_bytes(&v, 8);
    return v;
}
/* a value in [0, n), enumerated by forking */
static inline unsigned
sym_choice(unsigned n)
{
    uint8_t v;
    if (n <= 1)
        return 0;
    sym_bytes(&v, 1);
    sym_assume(v < n);
    return (unsigned)sym_concretize(v);
}
static inline int
sym_bool(void)
{
    uint8_t v;
    sym_bytes(&v, 1);
    sym_assume(v < 2);
    return v != 0;
}

/* rt.c */
extern int rt_fail_mode;       /* 1: allocations may fail */
/* if not zero, larger allocations succeed but have only this size */
extern size_t rt_huge;
extern int rt_fail_budget;     /* how many failures are injected at most */
extern int rt_fail_taken;      /* number of injected failures so far */
extern long rt_live;           /* live allocations */
extern uint64_t rt_allocs;     /* number of allocations so far */
