/*
 * C26: thread-spawn, exits and traps of the threads.
 *
 * params: 0 what main does after the spawns, 1 and 2 what the threads do
 *         (0: no such thread), 3 which thread-spawn, 4 preemptions,
 *         5 thread creation failures, 6 allocation failures, 7 instantiation
 *         in a thread traps
 * actions: 1 return, 2 unreachable, 3 proc_exit, 4 thread_exit, 5 loop,
 *          6 access out of bounds, 7 spawn a thread which returns, 8 wait
 */
#include <errno.h>

#include "rt_thr.h"
#include "wasi.h"
#include "wasi_threads.h"
#include "wk.h"
#include "cluster.h"

static struct wk k;
static struct wm m;
static struct wasi_instance *wasi;
static struct wasi_threads_instance *wt;
static struct import_object *imo;
static struct meminst *mem;
static struct cluster *cl;

static int
watcher(const void *vp)
{
    const char *p = vp;
    if (cl && p >= (const char *)cl && p < (const char *)(cl + 1))
        return 1;
    return p >= (const char *)mem->data &&
           p < (const char *)mem->data + mem->allocated;
}
static void
link_imports(struct import_object *o)
{
    o->next = imo;
    imo = o;
}
/* what a process of threads with these actions may report */
static struct {
    int act;
    uint32_t arg;
    int spawned, started;
    uint32_t tid, ended;
} th[3];
static uint32_t
w32(unsigned o)
{
    uint32_t v;
    memcpy(&v, mem->data + o, 4);
    return v;
}
void
harness_main(void)
{
    int abi = (int)sym_param(3, 0), starttrap = (int)sym_param(7, 0);
    unsigned n = 1;
    for (unsigned i = 0; i < 3; i++) {
        th[i].act = (int)sym_param(i, i < 2);
        th[i].arg = (sym_u32() & 0xffffff00) | (uint32_t)th[i].act | i << 4;
        if (i && th[i].act)
            n++;
    }
    wm_init(&m);
    wm_import(&m, "env", "memory", 2);
    WB(&m.imp, 0x0b, 64, 64, 0);
    unsigned spawn = wm_import_fn(&m, "wasi",
                                  abi == 1 ? "thread_spawn" : "thread-spawn",
                                  abi == 2 ? "ii" : "i", abi == 2 ? "" : "i");
    unsigned texit = wm_import_fn(&m, "wasi", "thread_exit", "", "");
    unsigned pexit = wm_import_fn(&m, "wasi_snapshot_preview1", "proc_exit",
                                  "i", "");
    if (spawn != 0 || texit != 1 || pexit != 2)
        sym_fail_("harness: imports");
    /* 3: spawn */
    if (abi == 2)
        WMF(&m, "i", "i", NULL, 0x20, 0, 0x41, 56, 0x10, 0, 0x41, 56, 0x2d, 0,
            0, 0x04, 0x7f, 0x41, 0x7f, 0x05, 0x41, 60, 0x28, 2, 0, 0x0b);
    else
        WMF(&m, "i", "i", NULL, 0x20, 0, 0x10, 0);
    /* 4: act */
    WMF(&m, "i", "", "i", 0x20, 0, 0x41, 15, 0x71, 0x21, 1,
        0x20, 1, 0x41, 5, 0x46, 0x04, 0x40, 0x03, 0x40, 0x0c, 0, 0x0b, 0x0b,
        0x20, 1, 0x41, 8, 0x46, 0x04, 0x40, 0x41, 0, 0x41, 99, 0x42, 0x7f,
        0xfe, 1, 2, 0, 0x1a, 0x0b,
        0x41, 4, 0x41, 1, 0xfe, 0x1e, 2, 0, 0x1a, /* ended */
        0x20, 1, 0x41, 2, 0x46, 0x04, 0x40, 0x00, 0x0b,
        0x20, 1, 0x41, 3, 0x46, 0x04, 0x40, 0x20, 0, 0x41, 0xff, 1, 0x71,
        0x10, 2, 0x0b,
        0x20, 1, 0x41, 4, 0x46, 0x04, 0x40, 0x10, 1, 0x0b,
        0x20, 1, 0x41, 6, 0x46, 0x04, 0x40, 0x41, 0x7f, 0x28, 2, 0, 0x1a,
        0x0b,
        0x20, 1, 0x41, 7, 0x46, 0x04, 0x40, 0x41, 52, 0x41, 0x21, 0x10, 3,
        0x36, 2, 0, 0x0b);
    /* 5: thread */
    unsigned start = WMF(
        &m, "ii", "", "i", 0x41, 0, 0x41, 1, 0xfe, 0x1e, 2, 0, 0x41, 12, 0x6c,
        0x21, 2, 0x20, 2, 0x20, 0, 0x36, 2, 8, 0x20, 2, 0x20, 1, 0x36, 2, 12,
        0x20, 2, 0x41, 4, 0x28, 2, 0, 0x36, 2, 16, 0x20, 1, 0x10, 4);
    /* 6: main */
    unsigned f = WMF(&m, "iiii", "", NULL, 0x41, 48, 0x20, 1, 0x10, 3, 0x36,
                     2, 0, 0x20, 3, 0x41, 2, 0x4a, 0x04, 0x40, 0x41, 52, 0x20,
                     2, 0x10, 3, 0x36, 2, 0, 0x0b, 0x20, 0, 0x10, 4);
    /* 7: start: fails in each instance but the first */
    if (starttrap)
        m.start = (int)WMF(&m, "", "", NULL, 0x41, 40, 0x41, 1, 0xfe, 0x1e, 2,
                           0, 0x04, 0x40, 0x00, 0x0b);
    wm_export(&m, "wasi_thread_start", 0, start);
    wm_export(&m, "memory", 2, 0);
    struct wb w;
    wm_emit(&m, &w);
    wk_init(&k);
    if (wk_load(&k, w.b, w.n))
        sym_fail_("harness: module rejected");
    wb_fini(&w);
    struct import_object *o;
    if (wasi_instance_create(&k.mctx, &wasi) ||
        wasi_threads_instance_create(&k.mctx, &wt))
        sym_fail_("harness: wasi");
    if (create_satisfying_shared_memories(&k.mctx, &k.mctx, k.m, &o))
        sym_fail_("harness: shared memory");
    mem = o->entries[0].u.mem;
    link_imports(o);
    if (import_object_create_for_wasi(&k.mctx, wasi, &o))
        sym_fail_("harness: wasi");
    link_imports(o);
    if (import_object_create_for_wasi_threads(&k.mctx, wt, &o))
        sym_fail_("harness: wasi-threads");
    link_imports(o);
    wasi_instance_set_memory(wasi, mem);
    wasi_threads_instance_set_memory(wt, mem);
    sym_check(wk_inst(&k, imo) == 0, "instantiation");
    sym_check(wasi_threads_instance_set_thread_spawn_args(wt, k.m, imo) == 0,
              "spawn arguments");

    struct exec_context *ctx = &k.ec;
    const struct functype *ft = module_functype(k.m, f);
    struct val a[4];
    memset(a, 0, sizeof(a));
    for (unsigned i = 0; i < 3; i++)
        a[i].u.i32 = th[i].arg;
    a[3].u.i32 = n;
    exec_context_init(ctx, k.inst, &k.mctx);
    wasi_threads_setup_exec_context(wt, ctx);
    cl = ctx->cluster;
    sym_check(exec_push_vals(ctx, &ft->parameter, a) == 0, "arguments");
    rt_watch = watcher;
    rt_preempt = (int)sym_param(4, 1);
    rt_create_fail = (int)sym_param(5, 0);
    rt_fail_budget = (int)sym_param(6, 0);
    rt_fail_mode = rt_fail_budget > 0;
    rt_tick = 1000000000; /* the checks become frequent */
    rt_quantum = 12;
    int failures = rt_create_fail || rt_fail_mode || starttrap;
    int threads0 = rt_threads;
    int ret = instance_execute_func(ctx, f, &ft->parameter, &ft->result);
    ret = instance_execute_handle_restart(ctx, ret);
    const struct trap_info *trap = ret == ETOYWASMTRAP ? &ctx->trap : NULL;
    if (rt_fail_mode) {
        sym_check(ret == 0 || ret == ETOYWASMTRAP || ret == ENOMEM, "result");
    } else
        sym_check(ret == 0 || ret == ETOYWASMTRAP, "result");
    int maintrap = trap ? (int)trap->trapid : -1;
    wasi_threads_complete_exec(wt, &trap);
    /* nothing runs any more */
    rt_fail_mode = 0;
    uint32_t count = (uint32_t)sym_concretize(w32(0)), ended = w32(4);
    for (int i = threads0; i < rt_threads; i++)
        rt_thr_join(i);
    rt_watch = NULL;
    sym_check(w32(0) == count && w32(4) == ended,
              "the threads have ended with the process");
    /* what has been started */
    sym_check(count <= 2, "no more threads than spawned");
    for (unsigned j = 0; j < count; j++) {
        uint32_t tid = w32(8 + 12 * j), arg = w32(12 + 12 * j);
        unsigned i = (sym_concretize(arg & 0xff) >> 4) & 3;
        if (th[1].act == 7 && i == 2)
            th[2].arg = 0x21;
        sym_check(i >= 1 && i < 3 && arg == th[i].arg, "argument");
        sym_check(!th[i].started, "started once");
        sym_check((int32_t)tid > 0 && tid < 0x20000000, "range of the id");
        th[i].started = 1;
        th[i].tid = tid;
        th[i].ended = w32(16 + 12 * j);
    }
    int created = rt_threads - threads0, positive = 0;
    for (unsigned i = 1; i < 3; i++) {
        int32_t r = (int32_t)w32(48 + 4 * (i - 1));
        if (r > 0) {
            positive++;
            sym_check(positive <= created, "an id only for a new thread");
            sym_check(r < 0x20000000, "range of the id");
            if (th[i].started)
                sym_check(th[i].tid == (uint32_t)r, "id");
            sym_reach("spawned");
        } else if (r < 0) {
            sym_check(!th[i].started, "a failed spawn starts nothing");
            sym_check(failures, "spawns succeed");
            sym_reach("failed");
        }
    }
    if (th[1].started && th[2].started && th[1].tid == th[2].tid) {
        sym_check(th[1].ended || th[2].ended, "ids are unique");
        sym_reach("reused");
    }
    if (starttrap)
        sym_check(count == 0, "no thread without an instance");
    /* outcome */
    if (ret == ENOMEM) {
        sym_reach("no memory");
    } else if (trap == NULL) {
        sym_check(ret == 0 && (th[0].act == 1 || th[0].act == 7),
                  "main returns");
        sym_reach("returned");
    } else {
        int ok = 0;
        for (unsigned i = 0; i < n; i++) {
            if (i && !th[i].started)
                continue;
            switch (th[i].act) {
            case 2:
                ok |= trap->trapid == TRAP_UNREACHABLE;
                break;
            case 3:
                ok |= trap->trapid == TRAP_VOLUNTARY_EXIT &&
                      wasi_instance_exit_code(wasi) ==
                          (th[i].arg & 0xff);
                break;
            case 4:
                if (i == 0)
                    ok |= trap->trapid == TRAP_VOLUNTARY_EXIT &&
                          wasi_instance_exit_code(wasi) == 0;
                break;
            case 6:
                ok |= trap->trapid == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS;
                break;
            }
        }
        sym_check(ok, "the outcome is that of a thread");
        if (maintrap == TRAP_VOLUNTARY_THREAD_EXIT && th[0].act != 4)
            sym_reach("main is stopped");
        sym_reach("ended");
    }
    exec_context_clear(ctx);
    instance_destroy(k.inst);
    k.inst = NULL;
    wk_imports_destroy(&k, imo);
    wasi_threads_instance_destroy(wt);
    wasi_instance_destroy(wasi);
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_reach("done");
    sym_expect("done");
}
