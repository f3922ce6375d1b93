/*
 * Exceptions: which handler runs and what it receives.
 *
 * params: 0 number of clauses of the inner function, 1 of the outer one,
 *         2 how the inner one reaches the throw: 0 call, 1 in the same
 *           function, 2 tail call, 3 call inside blocks, 4 function of another
 *           instance, 5 indirect call
 *         3 what handlers do with an exception reference: 0 drop it,
 *           1 throw it again, 2 keep it in a local and throw it again
 *         4 first inner clause + 1 (0: all), 5 load options
 *
 * tags: 0 (i32), 1 (i32), 2 (i64 i32), 3 (), 4 (v128)
 */
#include "wk.h"

#define NT 5
#define NCL (2 * NT + 2) /* catch t, catch_ref t, catch_all, catch_all_ref */
static const char *const tagp[NT] = {"i", "i", "Ii", "", "v"};
static const char *const tagx[NT] = {"ix", "ix", "Iix", "x", "vx"};

static bool
cl_all(unsigned c)
{
    return c >= 2 * NT;
}
static bool
cl_ref(unsigned c)
{
    return cl_all(c) ? c == 2 * NT + 1 : c >= NT;
}
static unsigned
cl_tag(unsigned c)
{
    return c % NT;
}

static unsigned way, useref;

/* payload on the stack, reduced to one i64 */
static void
norm(struct wb *b, unsigned c)
{
    if (cl_all(c)) {
        WB(b, 0x42, 0x77);
        return;
    }
    switch (cl_tag(c)) {
    case 0:
    case 1: wb_u8(b, 0xad); break;
    case 2: WB(b, 0xad, 0x7c); break;
    case 3: WB(b, 0x42, 0); break;
    case 4: WB(b, 0xfd, 29, 1); break;
    }
}

/*
 * (which) -> (handler, value, local): local 1 i64 set before, local 2 exnref
 */
static void
body_begin(struct wm *m, struct wb *b, const unsigned *cl, unsigned n)
{
    WB(b, 0x42, 0x2a, 0x21, 1);
    for (unsigned j = n; j > 0; j--) {
        unsigned c = cl[j - 1];
        const char *r = cl_all(c) ? cl_ref(c) ? "x" : ""
                        : cl_ref(c) ? tagx[cl_tag(c)]
                                    : tagp[cl_tag(c)];
        wb_u8(b, 0x02);
        wb_sleb(b, (int)wm_type(m, "", r));
    }
    /* an operand below the try_table */
    WB(b, 0x42, 9);
    wb_u8(b, 0x1f);
    wb_sleb(b, (int)wm_type(m, "", "iII"));
    wb_uleb(b, n);
    for (unsigned j = 0; j < n; j++) {
        unsigned c = cl[j];
        wb_u8(b, cl_all(c) ? cl_ref(c) ? 3 : 2 : cl_ref(c) ? 1 : 0);
        if (!cl_all(c))
            wb_uleb(b, cl_tag(c));
        wb_uleb(b, j);
    }
    /* an operand inside */
    WB(b, 0x43, 1, 2, 3, 4);
}
static void
body_end(struct wb *b, const unsigned *cl, unsigned n, unsigned id)
{
    /* normal completion: results of the body, below them an f32 */
    WB(b, 0x1a, 0x20, 1, 0x0f);
    wb_u8(b, 0x0b); /* try_table */
    wb_u8(b, 0x00);
    for (unsigned j = 0; j < n; j++) {
        unsigned c = cl[j];
        wb_u8(b, 0x0b);
        if (cl_ref(c)) {
            if (useref == 0)
                wb_u8(b, 0x1a);
            else if (useref == 1) {
                WB(b, 0x0a);
                continue;
            } else {
                WB(b, 0x21, 2);
                norm(b, c);
                WB(b, 0x1a, 0x20, 2, 0x0a);
                continue;
            }
        }
        norm(b, c);
        WB(b, 0x21, 3, 0x41);
        wb_sleb(b, (int)(id + j));
        WB(b, 0x20, 3, 0x20, 1, 0x0f);
    }
    wb_u8(b, 0x00);
}

/* throw according to local 0; results iII when it does not */
static void
throwcode(struct wb *b, unsigned l0)
{
    for (unsigned t = 0; t < NT; t++) {
        WB(b, 0x20, 0, 0x41);
        wb_sleb(b, (int)t);
        WB(b, 0x46, 0x04, 0x40);
        switch (t) {
        case 0:
        case 1: WB(b, 0x23, 0); break;
        case 2: WB(b, 0x23, 1, 0x23, 0); break;
        case 4: WB(b, 0x23, 1, 0xfd, 18, 0x42, 3, 0xfd, 30, 0); break;
        }
        wb_u8(b, 0x08);
        wb_uleb(b, t);
        wb_u8(b, 0x0b);
    }
    (void)l0;
    /* 5: trap, 6: throw_ref of null, 7: nothing */
    WB(b, 0x20, 0, 0x41, 5, 0x46, 0x04, 0x40, 0x00, 0x0b);
    WB(b, 0x20, 0, 0x41, 6, 0x46, 0x04, 0x40, 0xd0, T_EXNREF, 0x0a, 0x0b);
    WB(b, 0x41, 0x63, 0x23, 1, 0x42, 0x2a);
}

static void
tags(struct wm *m)
{
    wb_u8(&m->tag, NT);
    for (unsigned t = 0; t < NT; t++) {
        wb_u8(&m->tag, 0);
        wb_uleb(&m->tag, wm_type(m, tagp[t], ""));
    }
}
static void
global_pair(struct wm *m)
{
    WB(&m->glob, 2, T_I32, 1, 0x41, 0, 0x0b, T_I64, 1, 0x42, 0, 0x0b);
}

/* the clause which catches tag t, or -1 */
static int
match(const unsigned *cl, unsigned n, unsigned t)
{
    for (unsigned j = 0; j < n; j++)
        if (cl_all(cl[j]) || cl_tag(cl[j]) == t)
            return (int)j;
    return -1;
}

void
harness_main(void)
{
    unsigned n1 = (unsigned)sym_param(0, 1), n0 = (unsigned)sym_param(1, 1);
    way = (unsigned)sym_param(2, 0);
    useref = (unsigned)sym_param(3, 0);
    unsigned first = (unsigned)sym_param(4, 0);
    wk_opts = (unsigned)sym_param(5, 0);
    unsigned c1[3], c0[3];
    for (unsigned j = 0; j < n1; j++)
        c1[j] = j == 0 && first ? first - 1 : sym_choice(NCL);
    for (unsigned j = 0; j < n0; j++)
        c0[j] = sym_choice(NCL);

    struct wm m, e;
    struct wk k, ek;
    wm_init(&m);
    wm_init(&e);
    struct import_object *im = NULL;
    unsigned thr = 0;
    if (way == 4) {
        /*
         * the other instance: tag 1 and 4 are not shared (same types, but
         * different tags)
         */
        static const char *const nm[] = {"t0", "t1", "t2", "t3", "t4"};
        tags(&e);
        global_pair(&e);
        unsigned f = wm_fn(&e, "i", "iII", NULL, NULL, 0);
        throwcode(wm_code(&e, f), 0);
        WMF(&e, "iI", "", NULL, 0x20, 0, 0x24, 0, 0x20, 1, 0x24, 1);
        wm_export(&e, "thr", 0, 0);
        for (unsigned t = 0; t < NT; t++)
            wm_export(&e, nm[t], 4, t);
        wm_must(&e, &ek);
        thr = wm_import_fn(&m, "m", "thr", "i", "iII");
        /* imported tags: 0 := t0, 1 := t1; the rest its own */
        wm_import(&m, "m", "t0", 4);
        wb_u8(&m.imp, 0);
        wb_uleb(&m.imp, wm_type(&m, "i", ""));
        wb_u8(&m.tag, NT - 1);
        for (unsigned t = 1; t < NT; t++) {
            wb_u8(&m.tag, 0);
            wb_uleb(&m.tag, wm_type(&m, tagp[t], ""));
        }
        global_pair(&m);
    } else {
        tags(&m);
        global_pair(&m);
        thr = wm_fn(&m, "i", "iII", NULL, NULL, 0);
        throwcode(wm_code(&m, thr), 0);
    }
    unsigned f1 = wm_fn(&m, "i", "iII", "IxI", NULL, 0);
    struct wb *b = wm_code(&m, f1);
    body_begin(&m, b, c1, n1);
    switch (way) {
    case 0:
    case 4:
        WB(b, 0x20, 0, 0x10);
        wb_uleb(b, thr);
        break;
    case 1: throwcode(b, 0); break;
    case 2:
        WB(b, 0x20, 0, 0x12);
        wb_uleb(b, thr);
        break;
    case 3:
        WB(b, 0x02);
        wb_sleb(b, (int)wm_type(&m, "", "iII"));
        WB(b, 0x42, 1, 0x03);
        wb_sleb(b, (int)wm_type(&m, "", "iII"));
        WB(b, 0x41, 1, 0x04);
        wb_sleb(b, (int)wm_type(&m, "", "iII"));
        WB(b, 0x20, 0, 0x10);
        wb_uleb(b, thr);
        WB(b, 0x05, 0x00, 0x0b, 0x0b, 0x0c, 0, 0x0b);
        break;
    case 5:
        WB(b, 0x20, 0, 0x41, 1, 0x11);
        wb_uleb(b, wm_type(&m, "i", "iII"));
        wb_u8(b, 0);
        WB(&m.tab, 1, T_FUNCREF, 0, 2);
        WB(&m.elem, 1, 0, 0x41, 1, 0x0b, 1);
        wb_uleb(&m.elem, thr);
        break;
    }
    body_end(b, c1, n1, 10);
    unsigned f0 = wm_fn(&m, "i", "iII", "IxI", NULL, 0);
    b = wm_code(&m, f0);
    body_begin(&m, b, c0, n0);
    WB(b, 0x20, 0, 0x10);
    wb_uleb(b, f1);
    body_end(b, c0, n0, 20);
    unsigned fs = WMF(&m, "iI", "", NULL, 0x20, 0, 0x24, 0, 0x20, 1, 0x24, 1);

    struct wb w;
    wm_emit(&m, &w);
    wk_init(&k);
    if (way == 4)
        im = wk_exports(&k, ek.inst, "m", NULL);
    int ret = wk_load(&k, w.b, w.n);
    sym_check(ret == 0, "the module is accepted");
    if (ret)
        sym_end();
    ret = wk_inst(&k, im);
    sym_check(ret == 0, "the module can be instantiated");
    wb_fini(&w);

    struct val a[2], r[3];
    memset(a, 0, sizeof(a));
    uint32_t x = sym_u32();
    uint64_t y = sym_u64();
    a[0].u.i32 = x;
    a[1].u.i64 = y;
    if (way == 4)
        sym_check(wk_call(&ek, 1, a, NULL) == 0, "values set");
    else
        sym_check(wk_call(&k, fs, a, NULL) == 0, "values set");
    unsigned rounds = 2;
    while (rounds--) {
        unsigned t = sym_choice(8);
        memset(a, 0, sizeof(a));
        memset(r, 0, sizeof(r));
        a[0].u.i32 = t;
        ret = wk_call(&k, f0, a, r);
        sym_observe(r[0].u.i32);
        if (t == 5)
            sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_UNREACHABLE,
                      "traps are not caught");
        else if (t == 6)
            sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_THROW_REF_NULL,
                      "throwing a null reference traps");
        else if (t == 7) {
            sym_check(ret == 0 && r[0].u.i32 == (uint32_t)-29 &&
                              r[1].u.i64 == y && r[2].u.i64 == 0x2a,
                      "without an exception no handler runs");
            sym_reach("none");
        } else {
            /* the tag as the catching module sees it */
            unsigned ct = way == 4 && t != 0 ? NT : t;
            int h = way == 2 ? -1 : match(c1, n1, ct);
            unsigned id = 10, c = 0;
            if (h >= 0 && useref && cl_ref(c1[h]))
                h = -1; /* thrown again */
            if (h >= 0)
                c = c1[h];
            else {
                h = match(c0, n0, ct);
                if (h >= 0 && useref && cl_ref(c0[h]))
                    h = -1;
                if (h >= 0)
                    c = c0[h];
                id = 20;
            }
            if (h < 0) {
                sym_check(ret == ETOYWASMTRAP &&
                                  k.trap == TRAP_UNCAUGHT_EXCEPTION,
                          "an exception without handler traps");
                sym_reach("uncaught");
            } else {
                uint64_t v = t == 3 ? 0 : t == 2 ? y + x : t == 4 ? y : x;
                if (cl_all(c))
                    v = (uint64_t)-9; /* the constant */
                sym_check(ret == 0, "a handled exception does not trap");
                sym_check(r[0].u.i32 == id + (unsigned)h,
                          "the innermost matching clause runs");
                sym_check(r[1].u.i64 == v, "a handler receives the values");
                sym_check(r[2].u.i64 == 0x2a, "locals survive an exception");
                sym_reach("handled");
            }
        }
        if (rounds && sym_param(6, 0) == 0)
            break;
    }
    sym_expect("none");
    if (im)
        wk_imports_destroy(&k, im);
    wk_fini(&k);
    if (way == 4)
        wk_fini(&ek);
    wm_fini(&m);
    wm_fini(&e);
    sym_check(rt_live == 0, "nothing remains allocated");
}
