/*
 * Interruption and resumption.
 *
 * params: 0 kind
 *  0..7 programs, run with and without interruptions and compared:
 *    1 number of interruptions, 2: 1 run as the start function,
 *    3 load options
 *    0 loop, 1 calls, 2 tail calls, 3 exceptions, 4 memory and table
 *    instructions and traps, 5 restarting host functions, 6 callbacks from
 *    host functions, 7 calls of a host function from the embedder
 *  10 memory.atomic.wait (1: number of interruptions)
 *  11 endless loops
 */
#include <stdlib.h>
#include "restart.h"
#include "rt_thr.h"
#include "wk.h"

static struct wm m, em;
static struct wk k, ek;
static struct import_object *imo;
static struct host_instance hi;
static bool interrupting;
static unsigned budget, hbudget;
static unsigned ndone, nintr;

enum { H_RESTART, H_CB, E_FN, F_LOOP, F_CALLS, F_EVEN, F_ODD, F_EH, F_OPS,
       F_HOST, F_CB, F_HELPER, F_THROW, F_MID, F_BACK, F_START };

static int
host_restart(struct exec_context *ctx, struct host_instance *h,
             const struct functype *ft, const struct cell *params,
             struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    uint32_t x = HOST_FUNC_PARAM(ft, params, 0, i32);
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    int ret = restart_info_prealloc(ctx);
    if (ret)
        return ret;
    struct restart_info *r = &VEC_NEXTELEM(ctx->restarts);
    long left;
    sym_check(h == &hi, "the host function gets its instance");
    if (r->restart_type != RESTART_NONE) {
        sym_check(r->restart_type == RESTART_TIMER,
                  "a host function finds what it saved");
        left = r->restart_u.timer.abstimeout.tv_nsec;
        sym_check(r->restart_u.timer.abstimeout.tv_sec == (time_t)x,
                  "a restarted host function has its parameters");
        restart_info_clear(ctx);
    } else {
        left = 0;
        if (interrupting && hbudget > 0) {
            left = (long)sym_choice(hbudget + 1);
            hbudget -= (unsigned)left;
        }
    }
    if (left > 0) {
        nintr++;
        r->restart_type = RESTART_TIMER;
        r->restart_u.timer.abstimeout.tv_sec = (time_t)x;
        r->restart_u.timer.abstimeout.tv_nsec = left - 1;
        return ETOYWASMRESTART;
    }
    ndone++;
    HOST_FUNC_RESULT_SET(ft, results, 0, i32, x * 2 + 1);
    return 0;
}

/* calls F_BACK with its parameters, twice */
static int
host_cb(struct exec_context *ctx, struct host_instance *h,
        const struct functype *ft, const struct cell *params,
        struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    uint32_t n = HOST_FUNC_PARAM(ft, params, 0, i32);
    uint32_t x = HOST_FUNC_PARAM(ft, params, 1, i32);
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    int ret = restart_info_prealloc(ctx);
    if (ret)
        return ret;
    struct restart_info *r = &VEC_NEXTELEM(ctx->restarts);
    uint32_t step = 0, sum = 0;
    struct val v[2];
    memset(v, 0, sizeof(v));
    if (r->restart_type != RESTART_NONE) {
        sym_check(r->restart_type == RESTART_HOSTFUNC,
                  "a host function finds what it saved");
        struct restart_hostfunc *hf = &r->restart_u.hostfunc;
        step = hf->user1;
        sum = hf->user2;
        restart_info_clear(ctx);
        ctx->stack.lsize += hf->stack_adj;
        exec_pop_vals(ctx, &ft->result, v);
        sum = sum * 3 + v[0].u.i32;
    }
    if (step < 2) {
        v[0].u.i32 = n;
        v[1].u.i32 = x + step;
        ret = exec_push_vals(ctx, &ft->parameter, v);
        if (ret)
            return ret;
        r = &VEC_NEXTELEM(ctx->restarts);
        ret = schedule_call_from_hostfunc(ctx, r,
                                          VEC_ELEM(k.inst->funcs, F_BACK));
        r->restart_u.hostfunc.user1 = step + 1;
        r->restart_u.hostfunc.user2 = sum;
        return ret;
    }
    HOST_FUNC_RESULT_SET(ft, results, 0, i32, sum);
    return 0;
}

static const struct host_func hfuncs[] = {
    HOST_FUNC("restart", host_restart, "(i)i"),
    HOST_FUNC("cb", host_cb, "(ii)i"),
};
static const struct name hname = NAME_FROM_CSTR_LITERAL("h");
static const struct host_module hmod[] = {{
    .module_name = &hname,
    .funcs = hfuncs,
    .nfuncs = 2,
}};

static void
want(unsigned i, unsigned idx)
{
    if (i != idx)
        sym_fail_("harness: function index");
}

static void
module(void)
{
    wm_init(&em);
    WB(&em.mem, 1, 8, 4, 0);
    /* fn: store and load in the other memory */
    WMF(&em, "i", "i", NULL, 0x41, 0, 0x20, 0, 0x36, 0, 0, 0x41, 0, 0x28, 0, 0,
        0x41, 9, 0x6a);
    wm_export(&em, "fn", 0, 0);
    wm_must(&em, &ek);

    wm_init(&m);
    want(wm_import_fn(&m, "h", "restart", "i", "i"), H_RESTART);
    want(wm_import_fn(&m, "h", "cb", "ii", "i"), H_CB);
    want(wm_import_fn(&m, "e", "fn", "i", "i"), E_FN);
    WB(&m.mem, 1, 9, 64, 80, 0);
    WB(&m.tab, 1, 0x70, 1, 8, 10);
    WB(&m.glob, 2, 0x7f, 1, 0x41, 0, 0x0b, 0x7e, 1, 0x42, 0, 0x0b);
    unsigned tii = wm_type(&m, "ii", "i"), ti = wm_type(&m, "i", "i"),
             tix = wm_type(&m, "", "ix"), tt = wm_type(&m, "i", "");
    WB(&m.tag, 1, 0);
    wb_uleb(&m.tag, tt);
    struct wb *w;
    want(WMF(&m, "ii", "i", "i", 0x02, 0x40, 0x03, 0x40, 0x20, 0, 0x45, 0x0d,
             1, 0x20, 0, 0x41, 1, 0x6b, 0x21, 0, 0x20, 0, 0x41, 2, 0x74, 0x20,
             1, 0x36, 0, 0, 0x23, 0, 0x20, 0, 0x41, 2, 0x74, 0x28, 0, 0, 0x6a,
             0x24, 0, 0x02, 0x40, 0x02, 0x40, 0x02, 0x40, 0x20, 0, 0x0e, 2, 0,
             1, 2, 0x0b, 0x20, 1, 0x41, 1, 0x6a, 0x21, 1, 0x0c, 1, 0x0b, 0x20,
             1, 0x41, 3, 0x6c, 0x21, 1, 0x0b, 0x0c, 0, 0x0b, 0x0b, 0x23, 0,
             0x20, 1, 0x6a),
         F_LOOP);
    want(wm_fn(&m, "ii", "i", NULL, NULL, 0), F_CALLS);
    w = wm_code(&m, F_CALLS);
    WB(w, 0x20, 0, 0x45, 0x04, 0x7f, 0x20, 1, 0x10, E_FN, 0x05, 0x20, 0, 0x41,
       1, 0x6b, 0x20, 1, 0x20, 0, 0x6a, 0x41, 1, 0x11);
    wb_uleb(w, tii);
    WB(w, 0, 0x20, 1, 0x10, F_HELPER, 0x6a, 0x0b);
    want(wm_fn(&m, "ii", "i", NULL, NULL, 0), F_EVEN);
    w = wm_code(&m, F_EVEN);
    WB(w, 0x20, 0, 0x45, 0x04, 0x40, 0x20, 1, 0x12, H_RESTART, 0x0b, 0x20, 0,
       0x41, 1, 0x6b, 0x20, 1, 0x41, 1, 0x6a, 0x41, 2, 0x13);
    wb_uleb(w, tii);
    WB(w, 0);
    want(WMF(&m, "ii", "i", "I", 0x20, 0, 0x45, 0x04, 0x40, 0x20, 1, 0x12,
             E_FN, 0x0b, 0x20, 0, 0x41, 1, 0x6b, 0x20, 1, 0x41, 5, 0x6c, 0x12,
             F_EVEN),
         F_ODD);
    want(WMF(&m, "ii", "i", NULL, 0x02, 0x7f, 0x1f, 0x7f, 1, 0, 0, 0, 0x20, 0,
             0x20, 1, 0x10, F_MID, 0x0b, 0x0b, 0x41, 0xe4, 0, 0x6a),
         F_EH);
    want(WMF(&m, "ii", "i", NULL, 0x20, 1, 0x41, 7, 0x20, 0, 0xfc, 0x0b, 0,
             0x41, 4, 0x20, 1, 0x20, 0, 0xfc, 0x0a, 0, 0, 0x20, 0, 0x40, 0,
             0x24, 0, 0xd0, 0x70, 0x20, 0, 0xfc, 0x0f, 0, 0x24, 0, 0x20, 0,
             0xd2, F_ODD, 0x26, 0, 0x41, 0, 0x20, 1, 0xfd, 0x0f, 0xfd, 0x0b, 0,
             0, 0x41, 0xe4, 0, 0x20, 1, 0x6d, 0x23, 0, 0x6a),
         F_OPS);
    want(wm_fn(&m, "ii", "i", NULL, NULL, 0), F_HOST);
    w = wm_code(&m, F_HOST);
    WB(w, 0x20, 1, 0x10, H_RESTART, 0x20, 1, 0x41, 1, 0x6a, 0x41, 3, 0x11);
    wb_uleb(w, ti);
    WB(w, 0, 0x6a);
    want(WMF(&m, "ii", "i", NULL, 0x42, 5, 0x24, 1, 0x20, 0, 0x20, 1, 0x10,
             H_CB, 0x23, 1, 0xa7, 0x6a),
         F_CB);
    want(WMF(&m, "i", "i", "vIi", 0x20, 0, 0x41, 7, 0x6a, 0x20, 3, 0x6a),
         F_HELPER);
    want(WMF(&m, "ii", "i", NULL, 0x20, 0, 0x41, 3, 0x46, 0x04, 0x40, 0x20, 1,
             0x0f, 0x0b, 0x20, 0, 0x45, 0x04, 0x40, 0x20, 1, 0x08, 0, 0x0b,
             0x20, 0, 0x41, 1, 0x6b, 0x20, 1, 0x41, 1, 0x6a, 0x10, F_THROW),
         F_THROW);
    want(wm_fn(&m, "ii", "i", NULL, NULL, 0), F_MID);
    w = wm_code(&m, F_MID);
    wb_u8(w, 0x02);
    wb_sleb(w, (int)tix);
    WB(w, 0x1f, 0x7f, 1, 1, 0, 0, 0x20, 0, 0x20, 1, 0x10, F_THROW, 0x0b, 0x0f,
       0x0b, 0x41, 1, 0x24, 0, 0x0a);
    want(WMF(&m, "ii", "i", NULL, 0x20, 0, 0x04, 0x7f, 0x20, 0, 0x41, 1, 0x6b,
             0x20, 1, 0x10, H_CB, 0x05, 0x20, 1, 0x10, H_RESTART, 0x0b),
         F_BACK);
    /* table: 1 F_CALLS, 2 F_ODD, 3 H_RESTART */
    WB(&m.elem, 1, 0, 0x41, 1, 0x0b, 3, F_CALLS, F_ODD, H_RESTART);
}

static void
load(void)
{
    struct wb w;
    wk_init(&k);
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    if (import_object_create_for_host_funcs(&k.mctx, hmod, 1, &hi, &imo))
        sym_fail_("harness: host functions");
    imo = wk_exports(&k, ek.inst, "e", imo);
}

static atomic_uint intr;

static void
arm(struct exec_context *ctx)
{
    if (!interrupting || budget == 0) {
        atomic_store(&intr, 0);
        return;
    }
    atomic_store(&intr, 1);
    ctx->user_intr_delay = sym_u8();
}

static int
drive(struct exec_context *ctx, int ret)
{
    while (IS_RESTARTABLE(ret)) {
        if (ret == ETOYWASMUSERINTERRUPT) {
            sym_check(interrupting && budget > 0,
                      "an interrupt is reported only if requested");
            budget--;
            nintr++;
            arm(ctx);
        }
        ret = instance_execute_handle_restart_once(ctx, ret);
    }
    return ret;
}

static void
setup(struct exec_context *ctx)
{
    ctx->intrp = &intr;
    if (interrupting) {
        /* constant expressions are not interrupted but retried */
        ctx->check_interval = sym_param(2, 0) ? 2 : 1;
        rt_tick = 40000000; /* keeps the interval */
    }
    arm(ctx);
}

static struct out {
    int ret, trap;
    uint32_t res, pages, tsize, g0, ndone;
    uint64_t g1;
    uint8_t mem[80];
} out[2];

static void
run(unsigned i, unsigned f, uint32_t n, uint32_t x, bool start)
{
    struct out *o = &out[i];
    struct exec_context *ctx = &k.ec;
    memset(o, 0, sizeof(*o));
    interrupting = i == 1;
    ndone = 0;
    budget = interrupting ? (unsigned)sym_param(1, 1) : 0;
    hbudget = interrupting ? 2 : 0;
    report_init(&k.rep);
    if (instance_create_no_init(&k.mctx, k.m, &k.inst, imo, &k.rep))
        sym_fail_("the imports are satisfied");
    exec_context_init(ctx, k.inst, &k.mctx);
    if (start)
        setup(ctx);
    o->ret = drive(ctx, instance_execute_init(ctx));
    o->trap = o->ret == ETOYWASMTRAP ? (int)ctx->trap.trapid : -1;
    exec_context_clear(ctx);
    if (!start) {
        sym_check(o->ret == 0, "instantiation succeeds");
        const struct functype *ft = module_functype(k.m, f);
        struct val a[2], r;
        memset(a, 0, sizeof(a));
        memset(&r, 0, sizeof(r));
        a[0].u.i32 = n;
        a[1].u.i32 = x;
        if (ft->parameter.ntypes == 1)
            a[0].u.i32 = x;
        exec_context_init(ctx, k.inst, &k.mctx);
        setup(ctx);
        sym_check(exec_push_vals(ctx, &ft->parameter, a) == 0, "arguments");
        o->ret = drive(ctx, instance_execute_func(ctx, f, &ft->parameter,
                                                  &ft->result));
        if (o->ret == 0) {
            exec_pop_vals(ctx, &ft->result, &r);
            o->res = r.u.i32;
        } else if (o->ret == ETOYWASMTRAP)
            o->trap = (int)ctx->trap.trapid;
        exec_context_clear(ctx);
    }
    report_clear(&k.rep);
    o->ndone = ndone;
    struct val v;
    memset(&v, 0, sizeof(v));
    global_get(VEC_ELEM(k.inst->globals, 0), &v);
    o->g0 = v.u.i32;
    global_get(VEC_ELEM(k.inst->globals, 1), &v);
    o->g1 = v.u.i64;
    struct meminst *mi = VEC_ELEM(k.inst->mems, 0);
    o->pages = mi->size_in_pages;
    void *p;
    if (memory_instance_getptr2(mi, 0, 0, o->pages, &p, NULL))
        sym_fail_("the whole memory is accessible");
    memcpy(o->mem, p, o->pages);
    o->tsize = VEC_ELEM(k.inst->tables, 0)->size;
    instance_destroy(k.inst);
    k.inst = NULL;
}

static void
programs(unsigned kind)
{
    static const uint8_t fs[] = {F_LOOP, F_CALLS, F_EVEN, F_EH,
                                 F_OPS,  F_HOST,  F_CB,   H_RESTART};
    bool start = sym_param(2, 0) != 0;
    wk_opts = (unsigned)sym_param(3, 0);
    unsigned f = fs[kind];
    uint32_t n = 0, x;
    static const uint32_t xs[] = {0, 3, 60, 64, 0xffffffff};
    switch (kind) {
    case 3: n = sym_choice(4); break;
    case 6: n = sym_choice(2); break;
    case 5:
    case 7: break;
    default: n = sym_choice(3); break;
    }
    x = kind == 4 ? xs[sym_choice(5)] : sym_u32();
    if (start)
        x = 3;
    module();
    if (start) {
        want(wm_fn(&m, "", "", NULL, NULL, 0), F_START);
        struct wb *w = wm_code(&m, F_START);
        wb_u8(w, 0x41);
        wb_sleb(w, (int)n);
        wb_u8(w, 0x41);
        wb_sleb(w, (int)x);
        wb_u8(w, 0x10);
        wb_uleb(w, f);
        WB(w, 0xad, 0x24, 1);
        m.start = F_START;
    }
    load();
    run(0, f, n, x, start);
    run(1, f, n, x, start);
    const struct out *a = &out[0], *b = &out[1];
    sym_check(a->ret == b->ret && a->trap == b->trap, "the same outcome");
    sym_check(a->res == b->res, "the same result");
    sym_check(a->g0 == b->g0 && a->g1 == b->g1, "the same globals");
    sym_check(a->pages == b->pages && !memcmp(a->mem, b->mem, a->pages),
              "the same memory");
    sym_check(a->tsize == b->tsize, "the same table");
    sym_check(a->ndone == b->ndone, "host functions complete as often");
    if (nintr > 0)
        sym_reach("interrupted");
    sym_expect("interrupted");
    sym_observe(a->res);
    wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wk_fini(&ek);
    wm_fini(&m);
    wm_fini(&em);
    sym_check(rt_live == 0, "nothing remains allocated");
    if (kind == 4 && !start) {
        if (a->ret == ETOYWASMTRAP)
            sym_reach("trap");
        sym_expect("trap");
    } else if (kind != 4)
        sym_check(a->ret == 0, "the program completes");
}

/* ---- wait ---- */
static int64_t t;
static void
stuck(void)
{
    sym_check(t < 0, "a wait with a timeout ends");
    sym_reach("waits on");
    sym_end();
}

static void
waits(void)
{
    wm_init(&m);
    wm_import(&m, "m", "a", 2);
    WB(&m.imp, 0x0b, 16, 16, 0);
    bool is64 = sym_choice(2);
    unsigned f;
    if (is64)
        f = WMF(&m, "iII", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfe, 2, 3,
                0);
    else
        f = WMF(&m, "iiI", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfe, 1, 2,
                0);
    struct wb w;
    wk_init(&k);
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    if (create_satisfying_shared_memories(&k.mctx, &k.mctx, k.m, &imo))
        sym_fail_("harness: shared memory");
    sym_check(wk_inst(&k, imo) == 0, "instantiation succeeds");
    static const int64_t ts[] = {0, 1, 10000000, 50000000, 170000000, -1};
    t = ts[sym_choice(6)];
    rt_stuck = stuck;
    uint64_t expected = sym_choice(2);
    budget = (unsigned)sym_param(1, 1);
    interrupting = true;
    struct exec_context *ctx = &k.ec;
    exec_context_init(ctx, k.inst, &k.mctx);
    const struct functype *ft = module_functype(k.m, f);
    struct val a[3], r;
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    a[0].u.i32 = 8;
    a[1].u.i64 = expected;
    if (!is64)
        a[1].u.i32 = (uint32_t)expected;
    a[2].u.i64 = (uint64_t)t;
    ctx->intrp = &intr;
    arm(ctx);
    sym_check(exec_push_vals(ctx, &ft->parameter, a) == 0, "arguments");
    uint64_t t0 = rt_now;
    int ret = instance_execute_func(ctx, f, &ft->parameter, &ft->result);
    /* an infinite wait ends with the last interruption */
    while (IS_RESTARTABLE(ret)) {
        if (ret == ETOYWASMUSERINTERRUPT) {
            nintr++;
            sym_check(budget > 0, "an interrupt is reported only if "
                                  "requested");
            if (--budget == 0 && t < 0)
                break;
            arm(ctx);
            /* time passes before the resumption */
            rt_now += sym_choice(2) ? 20000000 : 0;
        }
        ret = instance_execute_handle_restart_once(ctx, ret);
    }
    if (expected != 0) {
        exec_pop_vals(ctx, &ft->result, &r);
        sym_check(ret == 0 && r.u.i32 == 1 && rt_now == t0, "not equal");
        sym_reach("not equal");
    } else if (t >= 0) {
        exec_pop_vals(ctx, &ft->result, &r);
        sym_check(ret == 0 && r.u.i32 == 2, "the wait times out");
        sym_check(rt_now >= t0 + (uint64_t)t,
                  "it does not time out early");
        sym_check(rt_now <= t0 + (uint64_t)t + nintr * 20000000,
                  "interruptions do not prolong the timeout");
        sym_reach("timed out");
        if (nintr > 0)
            sym_reach("interrupted");
    } else
        sym_check(IS_RESTARTABLE(ret), "an infinite wait does not end");
    exec_context_clear(ctx);
    sym_expect("not equal");
    sym_expect("timed out");
    sym_expect("waits on");
    sym_expect("interrupted");
    instance_destroy(k.inst);
    k.inst = NULL;
    wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
}

/* ---- endless loops ---- */
static void
endless(void)
{
    wm_init(&m);
    WB(&m.mem, 1, 0, 1);
    WB(&m.tab, 1, 0x70, 0, 4);
    unsigned te = wm_type(&m, "", ""), ti = wm_type(&m, "i", "i");
    WB(&m.tag, 1, 0);
    wb_uleb(&m.tag, te);
    struct wb *w;
    unsigned kind = sym_choice(9);
    /* the function under test is 0 */
    switch (kind) {
    case 0: WMF(&m, "", "", NULL, 0x03, 0x40, 0x0c, 0, 0x0b); break;
    case 1:
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x41, 1, 0x0d, 0, 0x0b);
        break;
    case 2:
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x41, 5, 0x0e, 1, 0, 0, 0x0b);
        break;
    case 3: WMF(&m, "", "", NULL, 0x12, 0); break;
    case 4:
        wm_fn(&m, "", "", NULL, NULL, 0);
        w = wm_code(&m, 0);
        WB(w, 0x41, 1, 0x13);
        wb_uleb(w, te);
        WB(w, 0);
        WB(&m.elem, 1, 0, 0x41, 0, 0x0b, 2, 0, 0);
        break;
    case 5:
        /* catch and throw */
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x02, 0x40, 0x1f, 0x40, 1, 2, 0,
            0x08, 0, 0x0b, 0x0b, 0x0c, 0, 0x0b);
        break;
    case 6:
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x10, 1, 0x0c, 0, 0x0b);
        WMF(&m, "", "", NULL, 0x01);
        break;
    case 7:
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x41, 0, 0x41, 0, 0x41, 0, 0xfc,
            0x0b, 0, 0x41, 0, 0x40, 0, 0x1a, 0x0c, 0, 0x0b);
        break;
    case 8:
        /* nested blocks and an if */
        WMF(&m, "", "", NULL, 0x03, 0x40, 0x02, 0x40, 0x41, 0, 0x04, 0x40,
            0x00, 0x05, 0x0c, 2, 0x0b, 0x0b, 0x0b);
        break;
    }
    (void)ti;
    wm_must(&m, &k);
    interrupting = true;
    atomic_store(&intr, 1);
    struct exec_context *ctx = &k.ec;
    exec_context_init(ctx, k.inst, &k.mctx);
    ctx->intrp = &intr;
    ctx->user_intr_delay = sym_choice(3);
    const struct functype *ft = module_functype(k.m, 0);
    rt_tick = 40000000;
    int ret = instance_execute_func(ctx, 0, &ft->parameter, &ft->result);
    ret = instance_execute_handle_restart_once(ctx, ret);
    /* artificial restarts of debug builds */
    for (unsigned i = 0; i < 3 && ret == ETOYWASMRESTART; i++)
        ret = instance_execute_handle_restart_once(ctx, ret);
    sym_check(ret == ETOYWASMUSERINTERRUPT,
              "an endless loop can be interrupted");
    sym_reach("interrupted");
    sym_expect("interrupted");
    exec_context_clear(ctx);
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
}

void
harness_main(void)
{
    unsigned kind = (unsigned)sym_param(0, 0);
    if (kind == 10)
        waits();
    else if (kind == 11)
        endless();
    else
        programs(kind);
}
