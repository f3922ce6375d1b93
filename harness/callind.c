/*
 * call_indirect and return_call_indirect for every index and type, in the
 * defining instance and through an imported table in another one.
 *
 * params: 0: caller is 0 the same, 1 another instance
 */
#include "wk.h"

/* expected behaviour of the entries */
enum { NUL, T0, T2, T3 };

void
harness_main(void)
{
    bool other = sym_param(0, 0);
    struct wm m, n;
    struct wk k, j;
    wm_init(&m);
    unsigned t0 = wm_type_new(&m, "", "i");
    unsigned t1 = wm_type_new(&m, "", "i");
    unsigned t2 = wm_type_new(&m, "i", "i");
    unsigned t3 = wm_type_new(&m, "", "I");
    unsigned t4 = wm_type_new(&m, "Ii", "i");
    unsigned t5 = wm_type_new(&m, "", "ii");
    unsigned t6 = wm_type_new(&m, "", "");
    /* global 0 tells the instances apart */
    uint8_t id = sym_u8() & 0x3f;
    WB(&m.glob, 1, T_I32, 1, 0x41);
    wb_u8(&m.glob, id);
    wb_u8(&m.glob, 0x0b);
    unsigned fa = WMF(&m, "", "i", NULL, 0x23, 0, 0x41, 1, 0x6a);
    unsigned fb = WMF(&m, "", "i", NULL, 0x23, 0, 0x41, 2, 0x6a);
    m.fn[fb].ty = t1;
    unsigned fc = WMF(&m, "i", "i", NULL, 0x20, 0, 0x23, 0, 0x6a);
    unsigned fd = WMF(&m, "", "I", NULL, 0x23, 0, 0xac);
    WB(&m.tab, 2, T_FUNCREF, 0, 5, T_FUNCREF, 1, 2, 4);
    WB(&m.elem, 2);
    /* table 0: fa, (null), fb, fc, fd */
    WB(&m.elem, 4, 0x41, 0, 0x0b, 5);
    uint8_t e0[] = {0xd2, (uint8_t)fa, 0x0b, 0xd0, 0x70, 0x0b,
                    0xd2, (uint8_t)fb, 0x0b, 0xd2, (uint8_t)fc, 0x0b,
                    0xd2, (uint8_t)fd, 0x0b};
    wb_raw(&m.elem, e0, sizeof(e0));
    /* table 1: (null), fb */
    WB(&m.elem, 2, 1, 0x41, 1, 0x0b, 0, 1);
    wb_u8(&m.elem, (uint8_t)fb);
    static const uint8_t kinds[2][5] = {{T0, NUL, T0, T2, T3}, {NUL, T0}};
    static const uint8_t adds[2][5] = {{1, 0, 2, 0, 0}, {0, 2}};
    static const uint32_t sizes[2] = {5, 2};
    wm_export(&m, "t", 1, 0);
    wm_export(&m, "u", 1, 1);

    /* the callers: index in local 0, argument in local 1 */
    struct wm *c = &m;
    unsigned nt[7] = {t0, t1, t2, t3, t4, t5, t6};
    static const char *types[7][2] = {{"", "i"}, {"", "i"}, {"i", "i"},
                                      {"", "I"}, {"Ii", "i"}, {"", "ii"},
                                      {"", ""}};
    static const uint8_t tkind[7] = {T0, T0, T2, T3, 9, 9, 9};
    if (other) {
        wm_init(&n);
        c = &n;
        for (int i = 6; i >= 0; i--)
            nt[i] = wm_type_new(&n, types[i][0], types[i][1]);
        wm_import(&n, "a", "t", 1);
        WB(&n.imp, T_FUNCREF, 0, 5);
        wm_import(&n, "a", "u", 1);
        WB(&n.imp, T_FUNCREF, 1, 2, 4);
        WB(&n.glob, 1, T_I32, 1, 0x41, 0x3f, 0x0b);
    }
    unsigned ty = sym_choice(7), tab = sym_choice(2), tail = sym_choice(2);
    static const char *params[7] = {"ii", "ii", "ii", "ii", "ii", "ii", "ii"};
    unsigned f = wm_fn(c, params[ty], types[ty][1], NULL, "", 0);
    struct wb *b = wm_code(c, f);
    if (ty == 2)
        WB(b, 0x20, 1);
    if (ty == 4)
        WB(b, 0x42, 0, 0x20, 1);
    WB(b, 0x20, 0);
    wb_u8(b, tail ? 0x13 : 0x11);
    wb_uleb(b, nt[ty]);
    wb_uleb(b, tab);
    wm_must(&m, &k);
    struct wk *kk = &k;
    struct import_object *im = NULL;
    if (other) {
        struct wb w;
        kk = &j;
        wk_init(&j);
        im = wk_exports(&j, k.inst, "a", NULL);
        wm_emit(&n, &w);
        int ret = wk_load(&j, w.b, w.n);
        sym_check(ret == 0, "importing module loads");
        ret = wk_inst(&j, im);
        sym_check(ret == 0, "importing module instantiates");
    }
    struct val a[2], res[2];
    memset(a, 0, sizeof(a));
    memset(res, 0, sizeof(res));
    uint32_t idx = sym_u32(), arg = sym_u32();
    a[0].u.i32 = idx;
    a[1].u.i32 = arg;
    int ret = wk_call(kk, f, a, res);
    sym_observe((uint64_t)(uint32_t)ret);
    if (idx >= sizes[tab]) {
        sym_expect("outside");
        sym_reach("outside");
        sym_check(ret == ETOYWASMTRAP &&
                          kk->trap ==
                                  TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS,
                  "indirect call outside the table traps");
    } else {
        idx = (uint32_t)sym_concretize(idx);
        if (kinds[tab][idx] == NUL) {
            sym_expect("null");
            sym_reach("null");
            sym_check(ret == ETOYWASMTRAP &&
                              kk->trap == TRAP_CALL_INDIRECT_NULL_FUNCREF,
                      "indirect call of null traps");
        } else if (kinds[tab][idx] != tkind[ty]) {
            sym_expect("mismatch");
            sym_reach("mismatch");
            sym_check(ret == ETOYWASMTRAP &&
                              kk->trap == TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH,
                      "indirect call with another type traps");
        } else {
            sym_expect("called");
            sym_reach("called");
            sym_check(ret == 0, "indirect call with equal type succeeds");
            if (ty == 3)
                sym_check(res[0].u.i64 == id, "the stored function ran");
            else
                sym_check(res[0].u.i32 ==
                                  (uint32_t)(ty == 2 ? arg + id
                                                     : id + adds[tab][idx]),
                          "the stored function ran");
            sym_observe(res[0].u.i32);
        }
    }
    if (other) {
        wk_imports_destroy(&j, im);
        wk_fini(&j);
    }
    wk_fini(&k);
}
