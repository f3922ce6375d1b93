/* several threads, each with an instance of one module */
#pragma once
#include "cluster.h"
#include "rt_thr.h"
#include "wk.h"

static struct wm tm; /* the module; memory imports are shared memories */
static struct wk tk0;
static struct import_object *timo;
static struct meminst *tmem[2];
static struct wk tk[4];
static unsigned ntk;
static const void *twatch[4];
static uint32_t twatchn[4];

static int
twatcher(const void *vp)
{
    const char *p = vp;
    for (unsigned i = 0; i < 4; i++)
        if (twatch[i] && p >= (const char *)twatch[i] &&
            p < (const char *)twatch[i] + twatchn[i])
            return 1;
    for (unsigned i = 0; i < 2; i++)
        if (tmem[i] && p >= (const char *)tmem[i]->data &&
            p < (const char *)tmem[i]->data + tmem[i]->allocated)
            return 1;
    return 0;
}

/* load, provide the memories, create n instances */
static void
tinit(unsigned n)
{
    struct wb w;
    wm_emit(&tm, &w);
    wk_init(&tk0);
    sym_check(wk_load(&tk0, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    if (create_satisfying_shared_memories(&tk0.mctx, &tk0.mctx, tk0.m, &timo))
        sym_fail_("harness: shared memory");
    for (unsigned i = 0; i < timo->nentries && i < 2; i++)
        tmem[i] = timo->entries[i].u.mem;
    sym_check(wk_inst(&tk0, timo) == 0, "instantiation succeeds");
    ntk = n;
    for (unsigned i = 0; i < n; i++) {
        tk[i] = tk0;
        report_init(&tk[i].rep);
        if (instance_create(&tk0.mctx, tk0.m, &tk[i].inst, timo, &tk[i].rep))
            sym_fail_("harness: instance");
        report_clear(&tk[i].rep);
    }
    rt_watch = twatcher;
}

static void
tfini(void)
{
    rt_watch = NULL;
    for (unsigned i = 0; i < ntk; i++)
        instance_destroy(tk[i].inst);
    instance_destroy(tk0.inst);
    tk0.inst = NULL;
    wk_imports_destroy(&tk0, timo);
    wk_fini(&tk0);
    wm_fini(&tm);
    sym_check(rt_live == 0, "nothing remains allocated");
}
