/*
 * Calls: arguments, results, locals and operands of caller and callee.
 *
 * params: 0 way of calling, 1 number of parameters, 2 load options,
 *         3 extra locals of the callee
 * ways: 0 call, 1 call_indirect, 2 return_call, 3 return_call_indirect,
 *       4 call of another instance's function, 5 return_call of one,
 *       6 call_indirect through another instance's table
 *
 * The callee returns its locals' initial values, and its parameters in
 * reverse order; it overwrites all its parameters and locals first.
 * The caller keeps an operand below the arguments and returns its own
 * parameters afterwards.
 */
#include "wk.h"

static const char tys[] = "iIFve";

static void
get(struct wb *b, unsigned i)
{
    wb_u8(b, 0x20);
    wb_uleb(b, i);
}
static void
constant(struct wb *b, char t, unsigned x)
{
    switch (t) {
    case 'i':
        wb_u8(b, 0x41);
        wb_sleb(b, (int32_t)x);
        break;
    case 'I':
        wb_u8(b, 0x42);
        wb_sleb(b, (int64_t)x << 33);
        break;
    case 'F':
        wb_u8(b, 0x44);
        wb_u64le(b, 0x4000000000000000u + x);
        break;
    case 'v':
        WB(b, 0xfd, 12);
        wb_u64le(b, x);
        wb_u64le(b, ~(uint64_t)x);
        break;
    case 'e':
        WB(b, 0xd0, T_EXTERNREF);
        break;
    }
}
static unsigned
size(char t)
{
    return t == 'i' ? 4 : t == 'v' ? 16 : 8;
}
static bool
same(char t, const struct val *a, const struct val *b)
{
    return memcmp(a, b, size(t)) == 0;
}

void
harness_main(void)
{
    unsigned way = (unsigned)sym_param(0, 0);
    unsigned np = (unsigned)sym_param(1, 2);
    wk_opts = (unsigned)sym_param(2, 0);
    unsigned nl = (unsigned)sym_param(3, 1);
    char p[8], l[4], r[16], cp[8], cr[24];
    unsigned i, nr = 0, ncr = 0;
    for (i = 0; i < np; i++)
        p[i] = tys[sym_choice(5)];
    p[i] = 0;
    for (i = 0; i < nl; i++)
        l[i] = tys[sym_choice(5)];
    l[i] = 0;
    for (i = 0; i < nl; i++)
        r[nr++] = l[i];
    for (i = np; i > 0; i--)
        r[nr++] = p[i - 1];
    r[nr] = 0;
    bool tail = way == 2 || way == 3 || way == 5;

    struct wm cm, em;
    struct wk k, ek;
    struct import_object *im = NULL;
    wm_init(&em);
    wm_init(&cm);
    bool ext = way >= 4;
    struct wm *gm = ext ? &em : &cm;
    unsigned g, f;
    if (ext) {
        if (way != 6) {
            g = wm_import_fn(&cm, "m", "g", p, r);
        } else {
            wm_import(&cm, "m", "t", 1);
            WB(&cm.imp, T_FUNCREF, 0, 0);
        }
        WMF(gm, "", "", NULL, 0x01);
    }
    g = wm_fn(gm, p, r, nl ? l : NULL, NULL, 0);
    struct wb *b = wm_code(gm, g);
    /* initial locals and the parameters in reverse order */
    for (i = 0; i < nl; i++)
        get(b, np + i);
    for (i = np; i > 0; i--)
        get(b, i - 1);
    for (i = 0; i < np + nl; i++) {
        constant(b, i < np ? p[i] : l[i - np], 0x1234 + i);
        wb_u8(b, 0x21);
        wb_uleb(b, i);
    }
    if (ext) {
        wm_export(&em, "g", 0, g);
        WB(&em.tab, 1, T_FUNCREF, 0, 4);
        wm_export(&em, "t", 1, 0);
        WB(&em.elem, 1, 0, 0x41, 2, 0x0b, 1);
        wb_uleb(&em.elem, g);
        g = way == 6 ? 0 : 0;
    } else {
        WB(&cm.tab, 1, T_FUNCREF, 0, 4);
        WB(&cm.elem, 1, 0, 0x41, 2, 0x0b, 1);
        wb_uleb(&cm.elem, g);
    }

    /* the caller: parameters p and one i32 more */
    for (i = 0; i < np; i++)
        cp[i] = p[i];
    cp[i++] = 'i';
    cp[i] = 0;
    if (!tail)
        cr[ncr++] = 'I';
    for (i = 0; i < nr; i++)
        cr[ncr++] = r[i];
    if (!tail) {
        for (i = 0; i <= np; i++)
            cr[ncr++] = cp[i];
        cr[ncr++] = 'I';
    }
    cr[ncr] = 0;
    f = wm_fn(&cm, cp, cr, "I", NULL, 0);
    b = wm_code(&cm, f);
    /* set the local, leave an operand */
    constant(b, 'I', 7);
    wb_u8(b, 0x22);
    wb_uleb(b, np + 1);
    for (i = 0; i < np; i++)
        get(b, i);
    unsigned ti = wm_type(&cm, p, r);
    switch (way) {
    case 0:
    case 4:
        wb_u8(b, 0x10);
        wb_uleb(b, g);
        break;
    case 2:
    case 5:
        wb_u8(b, 0x12);
        wb_uleb(b, g);
        break;
    case 1:
    case 6:
        WB(b, 0x41, 2, 0x11);
        wb_uleb(b, ti);
        wb_u8(b, 0);
        break;
    case 3:
        WB(b, 0x41, 2, 0x13);
        wb_uleb(b, ti);
        wb_u8(b, 0);
        break;
    }
    if (!tail) {
        for (i = 0; i <= np + 1; i++)
            get(b, i);
    }
    if (ext) {
        struct wb w;
        wm_must(&em, &ek);
        wm_emit(&cm, &w);
        wk_init(&k);
        im = wk_exports(&k, ek.inst, "m", NULL);
        int ret = wk_load(&k, w.b, w.n);
        sym_check(ret == 0, "the module is accepted");
        ret = wk_inst(&k, im);
        sym_check(ret == 0, "the module can be instantiated");
        wb_fini(&w);
    } else
        wm_must(&cm, &k);

    struct val a[8], res[24], zero, seven;
    memset(a, 0, sizeof(a));
    memset(res, 0, sizeof(res));
    memset(&zero, 0, sizeof(zero));
    memset(&seven, 0, sizeof(seven));
    seven.u.i64 = (uint64_t)7 << 33;
    for (i = 0; i <= np; i++)
        sym_bytes(&a[i], size(cp[i]));
    int ret = wk_call(&k, f, a, res);
    sym_check(ret == 0, "the call returns");
    unsigned o = 0;
    if (!tail) {
        sym_check(same('I', &res[o], &seven),
                  "operands below the arguments are kept");
        o++;
    }
    for (i = 0; i < nl; i++)
        sym_check(same(l[i], &res[o++], &zero), "locals start as zero");
    for (i = np; i > 0; i--)
        sym_check(same(p[i - 1], &res[o++], &a[i - 1]),
                  "arguments and results are passed unchanged");
    if (!tail) {
        for (i = 0; i <= np; i++)
            sym_check(same(cp[i], &res[o++], &a[i]),
                      "the caller's parameters are kept");
        sym_check(same('I', &res[o++], &seven),
                  "the caller's locals are kept");
    }
    sym_observe(res[0].u.i32);
    if (im)
        wk_imports_destroy(&k, im);
    wk_fini(&k);
    if (ext)
        wk_fini(&ek);
    wm_fini(&cm);
    wm_fini(&em);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_reach("done");
    sym_expect("done");
}
