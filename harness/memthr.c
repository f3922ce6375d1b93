/*
 * C19: the heap limit while threads allocate and free.
 *
 * params: 0 preemptions, 1 the second thread's context is another one,
 *         2 number of operations of each thread
 */
#include <stdlib.h>

#include "mem.h"
#include "rt_thr.h"
#include "sym.h"

static struct mem_context root, kid;
static uint64_t lim;
static unsigned nops;

static int
watcher(const void *vp)
{
    const char *p = vp;
    return (p >= (const char *)&root && p < (const char *)(&root + 1)) ||
           (p >= (const char *)&kid && p < (const char *)(&kid + 1));
}
static uint64_t seen;
static void
access(const void *p, int size, int write, int atomic)
{
    uint64_t a = root.allocated;
    sym_check(a <= lim, "the heap limit is exceeded");
    if (a > seen)
        seen = a;
}
static struct thr {
    struct mem_context *c;
    uint8_t *p[4];
    uint32_t n[4];
    unsigned k;
    int failed;
} th[2];

static void
run(void *vp)
{
    static const uint32_t szs[] = {8, 40, 3};
    struct thr *t = vp;
    for (unsigned i = 0; i < nops; i++) {
        unsigned op = (unsigned)sym_choice(3);
        if (op == 2) {
            if (t->k) {
                t->k--;
                mem_free(t->c, t->p[t->k], t->n[t->k]);
            }
        } else if (op == 1 && t->k) {
            uint8_t *p = mem_extend(t->c, t->p[t->k - 1], t->n[t->k - 1],
                                    t->n[t->k - 1] + 5);
            if (p) {
                t->p[t->k - 1] = p;
                t->n[t->k - 1] += 5;
            } else {
                t->failed++;
            }
        } else {
            uint32_t n = szs[i];
            t->p[t->k] = mem_alloc(t->c, n);
            if (t->p[t->k])
                t->n[t->k++] = n;
            else
                t->failed++;
        }
    }
}
void
harness_main(void)
{
    rt_preempt = (int)sym_param(0, 2);
    nops = (unsigned)sym_param(2, 2);
    mem_context_init(&root);
    mem_context_init(&kid);
    kid.parent = &root;
    lim = sym_u32();
    if (mem_context_setlimit(&root, lim))
        sym_fail_("harness: limit");
    th[0].c = &kid;
    th[1].c = sym_param(1, 0) ? &root : &kid;
    rt_access = access;
    rt_watch = watcher;
    int id[2];
    for (unsigned i = 0; i < 2; i++)
        id[i] = rt_thr_spawn(run, &th[i]);
    for (unsigned i = 0; i < 2; i++)
        rt_thr_join(id[i]);
    rt_access = NULL;
    rt_watch = NULL;
    uint64_t sum = 0, k = 0;
    for (unsigned i = 0; i < 2; i++)
        for (unsigned j = 0; j < th[i].k; j++) {
            sum += th[i].n[j];
            if (th[i].c == &kid)
                k += th[i].n[j];
        }
    sym_check(root.allocated == sum && kid.allocated == k, "accounting");
    sym_check(sum <= lim, "the heap limit is exceeded");
    sym_check(!(th[0].failed | th[1].failed) || lim < 120,
              "an allocation far below the limit fails");
    for (unsigned i = 0; i < 2; i++)
        while (th[i].k) {
            th[i].k--;
            mem_free(th[i].c, th[i].p[th[i].k], th[i].n[th[i].k]);
        }
    mem_context_clear(&kid);
    mem_context_clear(&root);
    sym_check(rt_live == 0, "memory leak");
    sym_reach(th[0].failed | th[1].failed ? "the limit" : "end");
}
