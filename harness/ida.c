/*
 * C26: the allocator of thread ids.
 *
 * params: 0 number of operations, 1 size of the range, 2 allocation failures
 */
#include <errno.h>

#include "idalloc.h"
#include "mem.h"
#include "sym.h"

void
harness_main(void)
{
    unsigned nops = (unsigned)sym_param(0, 5), sz = (unsigned)sym_param(1, 3);
    struct mem_context mctx;
    struct idalloc ida;
    mem_context_init(&mctx);
    uint32_t base = sym_u32();
    sym_assume(base <= UINT32_MAX - sz);
    idalloc_init(&ida, base, base + sz - 1);
    uint32_t used[8], user[8];
    unsigned n = 0;
    rt_fail_budget = (int)sym_param(2, 0);
    for (unsigned i = 0; i < nops; i++) {
        unsigned op = (unsigned)sym_choice(n + 1);
        if (op == n) {
            uint32_t id;
            rt_fail_mode = rt_fail_budget > 0;
            int taken = rt_fail_taken;
            int ret = idalloc_alloc(&ida, &id, &mctx);
            rt_fail_mode = 0;
            if (ret == 0) {
                sym_check(id >= base && id - base < sz, "range");
                for (unsigned j = 0; j < n; j++)
                    sym_check(used[j] != id, "unique");
                sym_check(idalloc_get_user(&ida, id) == NULL, "no data yet");
                user[n] = i + 1;
                idalloc_set_user(&ida, id, &user[n]);
                idalloc_set_user(&ida, id, (void *)(uintptr_t)(100 + i));
                user[n] = 100 + i;
                used[n++] = id;
                sym_reach("allocated");
            } else {
                sym_check(n == sz || (ret == ENOMEM && rt_fail_taken > taken),
                          "allocation fails only if there is no id");
                sym_check(ret != ENOMEM || rt_fail_taken > taken, "error");
                sym_reach("exhausted");
            }
        } else {
            idalloc_free(&ida, used[op], &mctx);
            sym_check(!idalloc_test(&ida, used[op]), "free");
            used[op] = used[n - 1];
            user[op] = user[n - 1];
            n--;
        }
        for (unsigned j = 0; j < n; j++)
            sym_check(idalloc_test(&ida, used[j]) &&
                          idalloc_get_user(&ida, used[j]) ==
                              (void *)(uintptr_t)user[j],
                      "the others keep their data");
    }
    uint32_t x = sym_u32();
    int in = 0;
    for (unsigned j = 0; j < n; j++)
        in |= used[j] == x;
    sym_check(idalloc_test(&ida, x) == in, "test of any id");
    idalloc_destroy(&ida, &mctx);
    mem_context_clear(&mctx);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_expect("allocated");
    sym_expect("exhausted");
}
