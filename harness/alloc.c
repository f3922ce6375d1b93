/*
 * C19: failing allocations.
 *
 * params: 0 what, 1 number of failures
 *   0: loading module p2 of mods.h
 *   1: loading, instantiating and running a module which uses most of the
 *      runtime's data structures
 *   2: the same with a heap limit instead of failures
 *   3: histories of p2 operations of the accounting
 *   4: loading custom sections
 *   5: arrays of any size
 */
#include <stdlib.h>

#include "mods.h"

static struct wk k;
static struct import_object *io;

static void
tear(void)
{
    rt_fail_mode = 0;
    if (io)
        wk_imports_destroy(&k, io);
    wk_fini(&k);
    sym_check(rt_live == 0, "memory leak");
}
/* ---- 0, 4 ---- */
static void
load(struct wb *w)
{
    wk_init(&k);
    rt_fail_budget = (int)sym_param(1, 1);
    rt_fail_mode = 1;
    int ret = wk_load(&k, w->b, w->n);
    rt_fail_mode = 0;
    if (rt_fail_taken)
        sym_reach(ret ? "failure" : "failure without effect");
    else
        sym_check(ret == 0, "a valid module is accepted");
    wb_fini(w);
    tear();
}
/* ---- 1, 2 ---- */
static unsigned fn_run, fn_again;

static void
mkmod(struct wb *w)
{
    struct wm m;
    wm_init(&m);
    wm_import(&m, "x", "g", 3);
    WB(&m.imp, 0x7f, 0);
    unsigned im = wm_import_fn(&m, "x", "two", "i", "ii");
    /* recursion */
    unsigned fac = im + 1;
    uint8_t c[] = {0x20, 0, 0x45, 0x04, 0x7f, 0x41, 1, 0x05, 0x20, 0, 0x20, 0,
                   0x41, 1, 0x6b, 0x10, 0, 0x6c, 0x0b};
    c[16] = (uint8_t)fac;
    wm_fn(&m, "i", "i", "IIF", c, sizeof(c));
    /* nested blocks, br_table */
    unsigned br = WMF(&m, "i", "i", NULL, 0x02, 0x40, 0x02, 0x40, 0x02, 0x40,
                      0x03, 0x40, 0x20, 0, 0x0e, 3, 1, 2, 3, 1, 0x0b, 0x0b,
                      0x41, 10, 0x0f, 0x0b, 0x41, 11, 0x0f, 0x0b, 0x41, 12);
    WB(&m.tag, 1, 0);
    wb_uleb(&m.tag, wm_type(&m, "i", ""));
    /* throw through a frame, catch */
    unsigned th = WMF(&m, "i", "", NULL, 0x20, 0, 0x08, 0);
    uint8_t e[] = {0x02, 0x7f, 0x1f, 0x40, 1, 0, 0, 0, 0x41, 7, 0x10, 0, 0x0b,
                   0x41, 0, 0x0b};
    e[11] = (uint8_t)th;
    unsigned ca = wm_fn(&m, "", "i", NULL, e, sizeof(e));
    struct wb b;
    wb_init(&b, 128);
    WB(&b, 0x41, 4, 0x40, 0, 0x21, 0, 0xd0, 0x70, 0x41, 3, 0xfc, 15, 0, 0x21,
       1, 0x41, 0xdc, 0xff, 3, 0x41, 0xdc, 0xff, 3, 0x28, 2, 0, 0x41, 5, 0x6a,
       0x36, 2, 0, 0x41, 5, 0x41, 1, 0x11);
    wb_uleb(&b, wm_type(&m, "i", "i"));
    WB(&b, 0, 0x41, 2, 0x10);
    wb_uleb(&b, br);
    WB(&b, 0x6a, 0x10);
    wb_uleb(&b, ca);
    WB(&b, 0x6a, 0x41, 50, 0x10);
    wb_uleb(&b, im);
    WB(&b, 0x6a, 0x6a, 0x20, 0, 0x41, 1, 0x6a, 0x41, 10, 0x74, 0x6a, 0x20, 1,
       0x41, 1, 0x6a, 0x41, 16, 0x74, 0x6a);
    fn_run = wm_fn(&m, "", "i", "ii", b.b, b.n);
    wb_fini(&b);
    /* pages, table size, passive segments */
    fn_again =
        WMF(&m, "", "i", NULL, 0x41, 0xdc, 0xff, 3, 0x28, 2, 0, 0x3f, 0, 0x41,
            8, 0x74, 0x6a, 0xfc, 16, 0, 0x41, 16, 0x74, 0x6a, 0x41, 8, 0x41, 0,
            0x41, 2, 0xfc, 8, 1, 0, 0x41, 8, 0x28, 2, 0, 0x41, 24, 0x74, 0x6a,
            0x41, 0, 0x28, 2, 0, 0x6a);
    WB(&m.mem, 1, 0, 1);
    WB(&m.tab, 1, 0x70, 0, 2);
    WB(&m.glob, 2, 0x7f, 1, 0x23, 0, 0x41, 2, 0x6a, 0x0b, 0x70, 0, 0xd2);
    wb_uleb(&m.glob, fac);
    WB(&m.glob, 0x0b);
    WB(&m.elem, 1, 0, 0x41, 1, 0x0b, 1);
    wb_uleb(&m.elem, fac);
    WB(&m.data, 2, 0, 0x41, 0, 0x0b, 1, 3, 1, 2, 1, 9);
    m.datacount = 2;
    wm_export(&m, "run", 0, fn_run);
    wm_export(&m, "memory", 2, 0);
    m.start = (int)WMF(&m, "", "", NULL, 0x41, 4, 0x41, 1, 0x36, 2, 0);
    wm_emit(&m, w);
    wm_fini(&m);
}
static int
two(struct exec_context *ctx, struct host_instance *hi,
    const struct functype *ft, const struct cell *params, struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    uint32_t v = HOST_FUNC_PARAM(ft, params, 0, i32);
    HOST_FUNC_RESULT_SET(ft, results, 0, i32, v + 1);
    HOST_FUNC_RESULT_SET(ft, results, 1, i32, 2);
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    return 0;
}
static int
imports(void)
{
    static const struct name mod = NAME_FROM_CSTR_LITERAL("x"),
                             gn = NAME_FROM_CSTR_LITERAL("g"),
                             fnn = NAME_FROM_CSTR_LITERAL("two");
    static const struct globaltype gt = {.t = TYPE_i32, .mut = GLOBAL_CONST};
    static struct globalinst g;
    static struct funcinst f;
    g.type = &gt;
    struct val v;
    v.u.i32 = 5;
    global_set(&g, &v);
    const struct functype *t = NULL;
    for (uint32_t i = 0; i < k.m->ntypes; i++)
        if (k.m->types[i].result.ntypes == 2)
            t = &k.m->types[i];
    f.is_host = true;
    f.u.host.type = t;
    f.u.host.func = two;
    int ret = import_object_alloc(&k.mctx, 2, &io);
    if (ret)
        return ret;
    io->entries[0].module_name = &mod;
    io->entries[0].name = &gn;
    io->entries[0].type = EXTERNTYPE_GLOBAL;
    io->entries[0].u.global = &g;
    io->entries[1].module_name = &mod;
    io->entries[1].name = &fnn;
    io->entries[1].type = EXTERNTYPE_FUNC;
    io->entries[1].u.func = &f;
    return 0;
}
static void
run(int limit)
{
    struct wb w;
    mkmod(&w);
    wk_init(&k);
    uint32_t lim = 0;
    if (limit) {
        lim = sym_u32();
        sym_check(mem_context_setlimit(&k.mctx, lim) == 0, "limit");
    } else {
        rt_fail_budget = (int)sym_param(1, 1);
        rt_fail_mode = 1;
    }
    int ret = wk_load(&k, w.b, w.n);
#define FAILED (rt_fail_taken || limit)
    if (limit)
        sym_check(k.mctx.allocated <= lim, "the heap limit is exceeded");
    if (ret) {
        sym_check(FAILED, "a valid module is rejected");
        sym_reach("load");
        goto out;
    }
    ret = imports();
    if (ret) {
        sym_check(FAILED, "import object");
        io = NULL;
        goto out;
    }
    ret = wk_inst(&k, io);
    if (limit)
        sym_check(k.mctx.allocated <= lim, "the heap limit is exceeded");
    if (ret) {
        sym_check(FAILED, "a valid module is not instantiated");
        sym_reach("instantiation");
        goto out;
    }
    int before = rt_fail_taken;
    uint32_t r, pages = 0, tab = 0;
    ret = wk_call_i32(&k, fn_run, 0, NULL, &r);
    int now = rt_fail_taken;
    if (limit)
        sym_check(k.mctx.allocated <= lim, "the heap limit is exceeded");
    rt_fail_mode = 0;
    if (ret == 0) {
        uint32_t mg = r >> 10 & 0x3f, tg = r >> 16;
        sym_check((r & 0x3ff) == 120 + 12 + 7 + 53, "result");
        sym_check(mg == 2 || (mg == 0 && (limit || now > before)),
                  "result of memory.grow");
        sym_check(tg == 3 || (tg == 0 && (limit || now > before)),
                  "result of table.grow");
        pages = mg ? 5 : 1;
        tab = tg ? 5 : 2;
        sym_reach(mg && tg ? "all works" : "a failed grow");
    } else {
        sym_check(limit || now > before, "execution fails");
        sym_reach("execution");
    }
    /* the instance can be used when there is memory again */
    if (limit) {
        sym_check(mem_context_setlimit(&k.mctx, SIZE_MAX) == 0, "limit");
    }
    uint32_t a;
    int ret2 = wk_call_i32(&k, fn_again, 0, NULL, &a);
    sym_check(ret2 == 0, "the instance cannot be used after a failure");
    struct meminst *mi = VEC_ELEM(k.inst->mems, 0);
    if (ret == 0) {
        sym_check(mi->size_in_pages == pages, "size of the memory");
        struct tableinst *ti = VEC_ELEM(k.inst->tables, 0);
        sym_check(ti->size == tab, "size of the table");
    }
    if (ret == 0)
        sym_check(a == 5 + (pages << 8) + (tab << 16) + (0x0901u << 24) + 3,
                  "state after the failure");
out:
    wb_fini(&w);
    tear();
}
/* ---- 3 ---- */
static void
accounting(unsigned n)
{
    struct mem_context root, kid[2];
    uint64_t lim[3];
    uint64_t used[3] = {0, 0, 0};
    struct {
        uint8_t *p;
        uint32_t n;
        unsigned c;
    } blk[4];
    unsigned nb = 0;
    mem_context_init(&root);
    for (unsigned i = 0; i < 3; i++) {
        if (i) {
            mem_context_init(&kid[i - 1]);
            kid[i - 1].parent = &root;
        }
        lim[i] = sym_u32();
        sym_check(mem_context_setlimit(i ? &kid[i - 1] : &root, lim[i]) == 0,
                  "limit");
    }
    rt_fail_budget = (int)sym_param(1, 1);
    for (unsigned i = 0; i < n; i++) {
        static const uint32_t szs[] = {1, 5, 16, 100};
        unsigned op = (unsigned)sym_choice(5);
        unsigned c = (unsigned)sym_choice(2);
        int taken = rt_fail_taken;
        if (op == 3 && sym_bool()) {
            uint64_t l = sym_u32();
            int ret = mem_context_setlimit(&kid[c], l);
            sym_check((ret == 0) == (l >= used[c + 1]), "setting a limit");
            if (ret == 0)
                lim[c + 1] = l;
            continue;
        }
        if (op <= 1) {
            if (nb == 4)
                continue;
            uint32_t sz = szs[sym_choice(4)];
            rt_fail_mode = 1;
            uint8_t *p = op ? mem_calloc(&kid[c], 1, sz)
                            : mem_alloc(&kid[c], sz);
            rt_fail_mode = 0;
            int ok = used[0] + sz <= lim[0] && used[c + 1] + sz <= lim[c + 1] &&
                     taken == rt_fail_taken;
            sym_check((p != NULL) == ok, "allocation");
            if (p) {
                used[0] += sz;
                used[c + 1] += sz;
                for (uint32_t l = 0; op && l < sz; l++)
                    sym_check(p[l] == 0, "memory is not cleared");
                for (uint32_t l = 0; l < sz; l++)
                    p[l] = (uint8_t)(l + i);
                p[0] = (uint8_t)i;
                blk[nb].p = p;
                blk[nb].n = sz;
                blk[nb++].c = c;
            }
        } else if (nb == 0) {
            continue;
        } else if (op == 2) {
            nb--;
            mem_free(&kid[blk[nb].c], blk[nb].p, blk[nb].n);
            used[0] -= blk[nb].n;
            used[blk[nb].c + 1] -= blk[nb].n;
        } else {
            c = blk[nb - 1].c;
            uint32_t o = blk[nb - 1].n;
            uint32_t sz = op == 3 ? o + szs[sym_choice(4)] : o / 2;
            if (sz == 0)
                continue;
            uint8_t id = blk[nb - 1].p[0];
            rt_fail_mode = 1;
            uint8_t *p =
                op == 3 ? mem_extend_zero(&kid[c], blk[nb - 1].p, o, sz)
                        : mem_shrink(&kid[c], blk[nb - 1].p, o, sz);
            rt_fail_mode = 0;
            int ok = taken == rt_fail_taken;
            if (op == 3)
                ok = ok && used[0] + (sz - o) <= lim[0] &&
                     used[c + 1] + (sz - o) <= lim[c + 1];
            sym_check((p != NULL) == ok, "reallocation");
            if (p) {
                for (uint32_t l = 0; l < sz && l < o; l++)
                    sym_check(p[l] == (uint8_t)(l + id) ||
                                  p[l] == 0,
                              "contents");
                for (uint32_t l = o; l < sz; l++)
                    sym_check(p[l] == 0, "memory is not cleared");
                used[0] = used[0] + sz - o;
                used[c + 1] = used[c + 1] + sz - o;
                blk[nb - 1].p = p;
                blk[nb - 1].n = sz;
            }
        }
        sym_check(root.allocated == used[0] && kid[0].allocated == used[1] &&
                      kid[1].allocated == used[2],
                  "accounting");
        sym_check(root.allocated <= lim[0] || lim[0] < used[0],
                  "the heap limit is exceeded");
    }
    while (nb) {
        nb--;
        mem_free(&kid[blk[nb].c], blk[nb].p, blk[nb].n);
    }
    for (unsigned i = 0; i < 3; i++)
        mem_context_clear(i ? &kid[i - 1] : &root);
    sym_check(rt_live == 0, "memory leak");
    sym_reach("done");
}
/* ---- 5 ---- */
static void
arrays(void)
{
    static const uint64_t ns[] = {1,       3,       8,          24,
                                  1u << 16, 1ull << 32, 1ull << 61, UINT64_MAX};
    struct mem_context c;
    mem_context_init(&c);
    sym_check(mem_context_setlimit(&c, 4096) == 0, "limit");
    uint64_t a, b = ns[sym_choice(8)], max = 4096 / b;
    bool fits = sym_choice(2);
    if (fits) {
        a = sym_choice(2) ? max : 1 + sym_choice(4);
        if (a == 0 || a > max)
            sym_end();
    } else {
        a = sym_u64();
        sym_assume(a > max);
    }
    if (sym_bool()) {
        uint64_t t = a;
        a = b;
        b = t;
    }
    uint8_t *p = mem_calloc(&c, a, b);
    sym_check((p != NULL) == fits, "an array is allocated exactly if it fits");
    if (p) {
        for (uint64_t i = 0; i < a * b; i++)
            sym_check(p[i] == 0, "memory is not cleared");
        sym_check(c.allocated == a * b, "accounting");
        mem_free(&c, p, a * b);
        sym_reach("fits");
    } else
        sym_reach("too large");
    mem_context_clear(&c);
    sym_expect("fits");
    sym_expect("too large");
}
void
harness_main(void)
{
    unsigned what = (unsigned)sym_param(0, 0);
    struct wb w;
    switch (what) {
    case 0:
        build(&w, (unsigned)sym_param(2, 0));
        load(&w);
        break;
    case 1:
    case 2:
        run(what == 2);
        break;
    case 3:
        accounting((unsigned)sym_param(2, 3));
        break;
    case 5:
        arrays();
        break;
    case 4:
        wb_init(&w, 256);
        wb_header(&w);
        if (sym_param(2, 0) == 0) {
            wb_sec(&w, 0);
            wb_name(&w, "dylink.0");
            WB(&w, 1, 4, 1, 2, 3, 4, 2, 5, 2, 1, 'a', 1, 'b', 3, 1, 0, 4, 8, 1,
               3, 'e', 'n', 'v', 1, 's', 1);
            wb_close(&w);
        } else {
            wb_sec(&w, 0);
            wb_name(&w, "name");
            WB(&w, 0, 2, 1, 'm', 1, 4, 1, 0, 1, 'f');
            wb_close(&w);
        }
        load(&w);
        break;
    }
}
