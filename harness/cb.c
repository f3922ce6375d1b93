/*
 * Host functions which call back into wasm, and exceptions around them.
 *
 * params: 0 kind
 *  0 arguments and results of callbacks (1: number of callbacks in a row)
 *  1 exceptions and traps in callbacks (1: depth of host calls)
 *  2 functions which do nothing but throw (1: way of calling)
 */
#include <errno.h>
#include <stdlib.h>

#include "restart.h"
#include "wk.h"

static struct wm m;
static struct wk k;
static struct import_object *imo;
static struct host_instance hi;

static const char *const ps[] = {"", "i", "I", "iI", "Fif", "iiiii"};
static const char *const rs[] = {"", "i", "F", "Ii", "ifI", "IIII"};
static const char *cp, *cr;
static struct val args[8], got[8];
static unsigned fback, rounds, calls;
static uint32_t hx;
static uint64_t hy, h0, h1;

static void
mkval(struct val *v, char t)
{
    memset(v, 0, sizeof(*v));
    if (t == 'i' || t == 'f')
        v->u.i32 = sym_u32();
    else
        v->u.i64 = sym_u64();
}
static bool
eqval(const struct val *a, const struct val *b, char t)
{
    if (t == 'i' || t == 'f')
        return a->u.i32 == b->u.i32;
    return a->u.i64 == b->u.i64;
}

/* (iI) -> (II): calls fback "rounds" times, then returns */
static int
host_cb(struct exec_context *ctx, struct host_instance *h,
        const struct functype *ft, const struct cell *params,
        struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    sym_check(HOST_FUNC_PARAM(ft, params, 0, i32) == hx &&
                  HOST_FUNC_PARAM(ft, params, 1, i64) == hy,
              "the host function finds its parameters every time");
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    const struct funcinst *fi = VEC_ELEM(k.inst->funcs, fback);
    const struct functype *cft = funcinst_functype(fi);
    int ret = restart_info_prealloc(ctx);
    if (ret)
        return ret;
    struct restart_info *r = &VEC_NEXTELEM(ctx->restarts);
    uint32_t step = 0;
    if (r->restart_type != RESTART_NONE) {
        sym_check(r->restart_type == RESTART_HOSTFUNC,
                  "a host function finds what it saved");
        struct restart_hostfunc *hf = &r->restart_u.hostfunc;
        step = hf->user1;
        sym_check(hf->user2 == 77, "a host function finds what it saved");
        restart_info_clear(ctx);
        ctx->stack.lsize += hf->stack_adj;
        memset(got, 0, sizeof(got));
        exec_pop_vals(ctx, &cft->result, got);
        for (unsigned i = 0; cr[i]; i++)
            sym_check(eqval(&got[i], &args[i], cr[i]),
                      "the host function gets the results");
        sym_check(step == calls, "each callback runs once");
    }
    if (step < rounds) {
        ret = exec_push_vals(ctx, &cft->parameter, args);
        if (ret)
            return ret;
        r = &VEC_NEXTELEM(ctx->restarts);
        ret = schedule_call_from_hostfunc(ctx, r, fi);
        r->restart_u.hostfunc.user1 = step + 1;
        r->restart_u.hostfunc.user2 = 77;
        return ret;
    }
    HOST_FUNC_RESULT_SET(ft, results, 0, i64, h0);
    HOST_FUNC_RESULT_SET(ft, results, 1, i64, h1);
    return 0;
}

/* notes its arguments */
static int
host_note(struct exec_context *ctx, struct host_instance *h,
          const struct functype *ft, const struct cell *params,
          struct cell *results)
{
    calls++;
    return 0;
}

/* (i) -> (i): calls fback(x - 1) once */
static int
host_once(struct exec_context *ctx, struct host_instance *h,
          const struct functype *ft, const struct cell *params,
          struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    uint32_t x = HOST_FUNC_PARAM(ft, params, 0, i32);
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    int ret = restart_info_prealloc(ctx);
    if (ret)
        return ret;
    struct restart_info *r = &VEC_NEXTELEM(ctx->restarts);
    struct val v;
    memset(&v, 0, sizeof(v));
    if (r->restart_type != RESTART_NONE) {
        uint32_t adj = r->restart_u.hostfunc.stack_adj;
        restart_info_clear(ctx);
        ctx->stack.lsize += adj;
        exec_pop_vals(ctx, &ft->result, &v);
        calls++;
        HOST_FUNC_RESULT_SET(ft, results, 0, i32, v.u.i32);
        return 0;
    }
    v.u.i32 = x - 1;
    ret = exec_push_vals(ctx, &ft->parameter, &v);
    if (ret)
        return ret;
    r = &VEC_NEXTELEM(ctx->restarts);
    return schedule_call_from_hostfunc(ctx, r,
                                       VEC_ELEM(k.inst->funcs, fback));
}

static const struct host_func hfuncs[] = {
    HOST_FUNC("cb", host_cb, "(iI)II"),
    HOST_FUNC("note", host_note, "()"),
    HOST_FUNC("once", host_once, "(i)i"),
};
static const struct name hname = NAME_FROM_CSTR_LITERAL("h");
static const struct host_module hmod[] = {{
    .module_name = &hname,
    .funcs = hfuncs,
    .nfuncs = 3,
}};

static void
setup(void)
{
    struct wb w;
    wk_init(&k);
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    if (import_object_create_for_host_funcs(&k.mctx, hmod, 1, &hi, &imo))
        sym_fail_("harness: host functions");
    sym_check(wk_inst(&k, imo) == 0, "the module can be instantiated");
}
static void
end(void)
{
    instance_destroy(k.inst);
    k.inst = NULL;
    wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
}

static void
values(void)
{
    rounds = (unsigned)sym_param(1, 1);
    cp = ps[sym_choice(6)];
    cr = rs[sym_choice(6)];
    unsigned np = (unsigned)strlen(cp), nr = (unsigned)strlen(cr);
    wm_init(&m);
    wm_import_fn(&m, "h", "cb", "iI", "II");
    wm_import_fn(&m, "h", "note", "", "");
    /*
     * the callback notes, keeps its parameters in globals of their types and
     * returns globals
     */
    static char ls[4] = "IvI";
    fback = wm_fn(&m, cp, cr, ls, NULL, 0);
    struct wb *w = wm_code(&m, fback);
    WB(w, 0x10, 1);
    wb_uleb(&m.glob, np + nr);
    for (unsigned i = 0; i < np + nr; i++) {
        char t = i < np ? cp[i] : cr[i - np];
        static const uint8_t z[8];
        switch (t) {
        case 'i': WB(&m.glob, T_I32, 1, 0x41, 0, 0x0b); break;
        case 'I': WB(&m.glob, T_I64, 1, 0x42, 0, 0x0b); break;
        case 'f':
            WB(&m.glob, T_F32, 1, 0x43);
            wb_raw(&m.glob, z, 4);
            wb_u8(&m.glob, 0x0b);
            break;
        case 'F':
            WB(&m.glob, T_F64, 1, 0x44);
            wb_raw(&m.glob, z, 8);
            wb_u8(&m.glob, 0x0b);
            break;
        }
    }
    for (unsigned i = 0; i < np; i++) {
        wb_u8(w, 0x20);
        wb_uleb(w, i);
        wb_u8(w, 0x24);
        wb_uleb(w, i);
    }
    for (unsigned i = 0; i < nr; i++) {
        wb_u8(w, 0x23);
        wb_uleb(w, np + i);
    }
    unsigned f = WMF(&m, "iI", "III", NULL, 0x42, 0x11, 0x20, 0, 0x20, 1, 0x10,
                     0);
    setup();
    for (unsigned i = 0; i < 8; i++)
        mkval(&args[i], i < np ? cp[i] : 'I');
    struct val keep[8];
    memcpy(keep, args, sizeof(keep));
    for (unsigned i = 0; i < nr; i++) {
        struct val v = args[i];
        if (cr[i] == 'i' || cr[i] == 'f')
            v.u.i64 = v.u.i32;
        global_set(VEC_ELEM(k.inst->globals, np + i), &v);
    }
    struct val a[2], r[3];
    memset(a, 0, sizeof(a));
    memset(r, 0, sizeof(r));
    hx = a[0].u.i32 = sym_u32();
    hy = a[1].u.i64 = sym_u64();
    h0 = sym_u64();
    h1 = sym_u64();
    sym_check(wk_call(&k, f, a, r) == 0, "called");
    sym_check(calls == rounds, "each callback runs once");
    sym_check(r[0].u.i64 == 0x11, "the caller's stack is kept");
    sym_check(r[1].u.i64 == h0 && r[2].u.i64 == h1,
              "the caller gets the results of the host function");
    for (unsigned i = 0; i < np && rounds; i++) {
        struct val v;
        memset(&v, 0, sizeof(v));
        global_get(VEC_ELEM(k.inst->globals, i), &v);
        sym_check(eqval(&v, &keep[i], cp[i]),
                  "the callback gets its arguments");
    }
    end();
    sym_reach("called");
    sym_expect("called");
}

/*
 * the callback at depth 0 throws, traps or returns, and may catch; nothing
 * is caught across a host function
 */
static void
exceptions(void)
{
    uint32_t depth = (uint32_t)sym_param(1, 1);
    /* 0 throw in the callback, 1 in a function it calls, 2 trap, 3 return */
    unsigned what = sym_choice(4);
    /* where a matching handler is: bit 0 callback, bit 1 caller of the host */
    unsigned where = sym_choice(4);
    unsigned clause = sym_choice(4);
    unsigned tag = sym_choice(2);
    wm_init(&m);
    wm_import_fn(&m, "h", "once", "i", "i");
    WB(&m.tag, 2, 0);
    wb_uleb(&m.tag, wm_type(&m, "i", ""));
    WB(&m.tag, 0);
    wb_uleb(&m.tag, wm_type(&m, "", ""));
    unsigned thr = wm_fn(&m, "i", "i", NULL, NULL, 0);
    struct wb *w = wm_code(&m, thr);
    if (tag == 0)
        WB(w, 0x20, 0, 0x08, 0);
    else
        WB(w, 0x08, 1);
    /* run: throw and so on at 0, otherwise through the host */
    unsigned run = wm_fn(&m, "i", "i", NULL, NULL, 0);
    w = wm_code(&m, run);
    WB(w, 0x20, 0, 0x04, 0x7f, 0x20, 0, 0x10, 0, 0x05);
    switch (what) {
    case 0:
        if (tag == 0)
            WB(w, 0x41, 9, 0x08, 0);
        else
            WB(w, 0x08, 1);
        break;
    case 1:
        WB(w, 0x41, 9, 0x10);
        wb_uleb(w, thr);
        break;
    case 2: WB(w, 0x00); break;
    case 3: WB(w, 0x41, 33); break;
    }
    WB(w, 0x0b);
    /* catches around run */
    unsigned f[2];
    for (unsigned i = 0; i < 2; i++) {
        f[i] = wm_fn(&m, "i", "i", "i", NULL, 0);
        w = wm_code(&m, f[i]);
        const char *r = clause == 0   ? tag ? "" : "i"
                        : clause == 1 ? tag ? "x" : "ix"
                        : clause == 2 ? ""
                                      : "x";
        wb_u8(w, 0x02);
        wb_sleb(w, (int)wm_type(&m, "", r));
        wb_u8(w, 0x1f);
        wb_u8(w, 0x40);
        if (where & (1u << i)) {
            wb_u8(w, 1);
            wb_u8(w, (uint8_t)clause);
            if (clause < 2)
                wb_u8(w, (uint8_t)tag);
            wb_u8(w, 0);
        } else
            wb_u8(w, 0);
        WB(w, 0x20, 0, 0x10);
        wb_uleb(w, run);
        WB(w, 0x0f, 0x0b, 0x00, 0x0b);
        if (clause & 1)
            wb_u8(w, 0x1a);
        if (clause < 2 && tag == 0)
            WB(w, 0x21, 1);
        else
            WB(w, 0x41, 9, 0x21, 1);
        WB(w, 0x20, 1, 0x41, 1, 0x6a);
    }
    fback = f[0];
    setup();
    uint32_t a[1] = {depth}, got1 = 0;
    for (unsigned i = 0; i < 2; i++) {
        calls = 0;
        int ret = wk_call_i32(&k, f[1], 1, a, &got1);
        /* the innermost handler is the caller itself without host calls */
        bool caught = depth ? (where & 1) != 0 : (where & 2) != 0;
        if (what == 2)
            sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_UNREACHABLE,
                      "a trap in a callback ends the call");
        else if (what == 3)
            sym_check(ret == 0 && got1 == 33, "the result of the callback");
        else if (caught) {
            sym_check(ret == 0 && got1 == 10,
                      "an exception is caught within the callback");
            sym_reach("caught");
        } else {
            sym_check(ret == ETOYWASMTRAP &&
                          k.trap == TRAP_UNCAUGHT_EXCEPTION,
                      "no exception passes through a host function");
            sym_reach("uncaught");
        }
        sym_check(calls == (ret == 0 ? depth : 0),
                  "the host functions are resumed only by a result");
    }
    end();
    sym_expect("caught");
    sym_expect("uncaught");
}

static void
throwonly(void)
{
    static const char *const tp[] = {"", "i", "v", "Ii"};
    static const char *const tx[] = {"x", "ix", "vx", "Iix"};
    unsigned way = (unsigned)sym_param(1, 0);
    unsigned t = sym_choice(4);
    bool ref = sym_choice(2);
    wm_init(&m);
    WB(&m.tag, 4);
    for (unsigned i = 0; i < 4; i++) {
        wb_u8(&m.tag, 0);
        wb_uleb(&m.tag, wm_type(&m, tp[i], ""));
    }
    unsigned thr = wm_fn(&m, tp[t], "", NULL, NULL, 0);
    struct wb *w = wm_code(&m, thr);
    for (unsigned i = 0; tp[t][i]; i++) {
        wb_u8(w, 0x20);
        wb_uleb(w, i);
    }
    wb_u8(w, 0x08);
    wb_uleb(w, t);
    /* call it; the payload is the result */
    unsigned f = wm_fn(&m, tp[t], tp[t], NULL, NULL, 0);
    w = wm_code(&m, f);
    wb_u8(w, 0x02);
    wb_sleb(w, (int)wm_type(&m, "", ref ? tx[t] : tp[t]));
    WB(w, 0x1f, 0x40, 1);
    wb_u8(w, ref);
    wb_uleb(w, t);
    wb_u8(w, 0);
    for (unsigned i = 0; tp[t][i]; i++) {
        wb_u8(w, 0x20);
        wb_uleb(w, i);
    }
    if (way == 2) {
        wb_u8(w, 0x08);
        wb_uleb(w, t);
    } else {
        wb_u8(w, 0x10);
        wb_uleb(w, thr);
    }
    WB(w, 0x0b, 0x00, 0x0b);
    if (ref)
        wb_u8(w, 0x1a);
    wm_must(&m, &k);
    struct val a[3], r[3];
    memset(a, 0, sizeof(a));
    memset(r, 0, sizeof(r));
    for (unsigned i = 0; tp[t][i]; i++)
        sym_bytes(&a[i].u, tp[t][i] == 'v' ? 16 : tp[t][i] == 'i' ? 4 : 8);
    if (way == 0) {
        sym_check(wk_call(&k, thr, a, NULL) == ETOYWASMTRAP &&
                      k.trap == TRAP_UNCAUGHT_EXCEPTION,
                  "an exception without handler traps");
    } else {
        sym_check(wk_call(&k, f, a, r) == 0, "caught");
        for (unsigned i = 0; tp[t][i]; i++)
            sym_check(memcmp(&a[i].u, &r[i].u,
                             tp[t][i] == 'v'   ? 16
                             : tp[t][i] == 'i' ? 4
                                               : 8) == 0,
                      "the payload");
    }
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_reach("done");
    sym_expect("done");
}

void
harness_main(void)
{
    switch (sym_param(0, 0)) {
    case 0: values(); break;
    case 1: exceptions(); break;
    case 2: throwonly(); break;
    }
}
