/*
 * Histories of table operations on two tables against a model.
 *
 * params: 0 first operation, 1 length of the history,
 *         2 element type: 0 funcref, 1 externref
 */
#include "wk.h"

#define CAP 10
static uint64_t sh[2][CAP];
static uint32_t size[2], limit[2];
static uint64_t seg[5];
static uint32_t seglen = 5;
static bool ext;

enum { SET, FILL, COPY00, COPY01, COPY10, INIT, DROP, GROW, GROWB, GET, NOPS };

static struct val
mkref(uint64_t v)
{
    struct val r;
    memset(&r, 0, sizeof(r));
    if (ext)
        r.u.externref = (void *)(uintptr_t)v;
    else
        r.u.funcref.func = (void *)(uintptr_t)v;
    return r;
}
static uint64_t
refof(const struct val *v)
{
    return ext ? (uint64_t)(uintptr_t)v->u.externref
               : (uint64_t)(uintptr_t)v->u.funcref.func;
}

void
harness_main(void)
{
    unsigned first = (unsigned)sym_param(0, 0);
    unsigned len = (unsigned)sym_param(1, 1);
    ext = sym_param(2, 0);
    uint8_t rt = ext ? T_EXTERNREF : T_FUNCREF;
    struct wm m;
    struct wk k;
    wm_init(&m);
    WB(&m.tab, 2);
    wb_u8(&m.tab, rt);
    WB(&m.tab, 1, 4, 7);
    wb_u8(&m.tab, rt);
    WB(&m.tab, 0, 3);
    size[0] = 4;
    limit[0] = 7;
    size[1] = 3;
    limit[1] = 0xffffffff;
    unsigned f[NOPS], fget[2], fsize[2];
    unsigned a0 = WMF(&m, "", "i", NULL, 0x41, 11);
    unsigned a1 = WMF(&m, "", "i", NULL, 0x41, 22);
    const char *irI = ext ? "iei" : "iri", *ir = ext ? "ie" : "ir",
               *ri = ext ? "ei" : "ri", *r = ext ? "e" : "r";
    f[SET] = WMF(&m, ir, "", NULL, 0x20, 0, 0x20, 1, 0x26, 0);
    f[FILL] = WMF(&m, irI, "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 17, 0);
    f[COPY00] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 14,
                    0, 0);
    f[COPY01] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 14,
                    0, 1);
    f[COPY10] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 14,
                    1, 0);
    f[INIT] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 12, 0,
                  0);
    f[DROP] = WMF(&m, "", "", NULL, 0xfc, 13, 0);
    f[GROW] = WMF(&m, ri, "i", NULL, 0x20, 0, 0x20, 1, 0xfc, 15, 0);
    f[GROWB] = WMF(&m, ri, "i", NULL, 0x20, 0, 0x20, 1, 0xfc, 15, 1);
    f[GET] = fget[0] = WMF(&m, "i", r, NULL, 0x20, 0, 0x25, 0);
    fget[1] = WMF(&m, "i", r, NULL, 0x20, 0, 0x25, 1);
    fsize[0] = WMF(&m, "", "i", NULL, 0xfc, 16, 0);
    fsize[1] = WMF(&m, "", "i", NULL, 0xfc, 16, 1);
    /* one passive segment, longer than the tables */
    wb_u8(&m.elem, 1);
    wb_u8(&m.elem, 5);
    wb_u8(&m.elem, rt);
    wb_u8(&m.elem, 5);
    for (unsigned i = 0; i < 5; i++) {
        if (ext || i == 1) {
            wb_u8(&m.elem, 0xd0);
            wb_u8(&m.elem, rt);
        } else {
            wb_u8(&m.elem, 0xd2);
            wb_u8(&m.elem, i ? (uint8_t)a1 : (uint8_t)a0);
        }
        wb_u8(&m.elem, 0x0b);
    }
    wm_must(&m, &k);
    uint64_t fp[3];
    fp[0] = 0;
    fp[1] = (uint64_t)(uintptr_t)VEC_ELEM(k.inst->funcs, a0);
    fp[2] = (uint64_t)(uintptr_t)VEC_ELEM(k.inst->funcs, a1);
    if (!ext) {
        seg[0] = fp[1];
        seg[2] = fp[2];
        seg[3] = fp[2];
        seg[4] = fp[2];
    }
    /* distinct initial contents */
    for (unsigned w = 0; w < 2; w++)
        for (uint32_t i = 0; i < size[w]; i++) {
            struct val v[2];
            uint64_t x = ext ? sym_u64() : fp[(i + w) % 3];
            sh[w][i] = x;
            if (w == 0) {
                memset(&v[0], 0, sizeof(v[0]));
                v[0].u.i32 = i;
                v[1] = mkref(x);
                sym_check(wk_call(&k, f[SET], v, NULL) == 0, "table.set");
            }
        }
    /* the second table's entries are null at the beginning */
    memset(sh[1], 0, sizeof(sh[1]));

    for (unsigned step = 0; step < len; step++) {
        unsigned op = step == 0 ? first : sym_choice(NOPS);
        uint32_t a[3] = {sym_u32(), 0, 0};
        uint64_t x = 0;
        bool isref = op == SET || op == FILL || op == GROW || op == GROWB;
        if (isref)
            x = ext ? sym_u64() : fp[sym_choice(3)];
        else
            a[1] = sym_u32();
        if (op != SET && op != DROP && op != GROW && op != GROWB && op != GET)
            a[2] = sym_u32();
        if (op == GROW || op == GROWB)
            /* larger tables: whether memory suffices is unknown */
            sym_assume(a[0] <= 4 || a[0] >= 0xfffffff0);
        struct val v[3], res;
        memset(v, 0, sizeof(v));
        memset(&res, 0, sizeof(res));
        v[0].u.i32 = a[0];
        v[1].u.i32 = a[1];
        v[2].u.i32 = a[2];
        if (op == GROW || op == GROWB) {
            v[0] = mkref(x);
            v[1].u.i32 = a[0];
        } else if (isref)
            v[1] = mkref(x);
        int ret = wk_call(&k, f[op], v, &res);
        uint64_t d = (uint64_t)a[0] + a[2], s = (uint64_t)a[1] + a[2];
        unsigned dm = op == COPY10, sm = op == COPY01;
        bool oob = false;
        switch (op) {
        case SET:
        case GET: oob = a[0] >= size[0]; break;
        case FILL: oob = d > size[0]; break;
        case COPY00:
        case COPY01:
        case COPY10: oob = d > size[dm] || s > size[sm]; break;
        case INIT: oob = d > size[0] || s > seglen; break;
        }
        if (oob) {
            sym_expect("range trap");
            sym_reach("range trap");
            sym_check(ret == ETOYWASMTRAP &&
                              (k.trap == TRAP_OUT_OF_BOUNDS_TABLE_ACCESS ||
                               (k.trap == TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS &&
                                op == INIT && s > seglen)),
                      "table operation outside its range traps");
            sym_observe(1);
            continue;
        }
        sym_check(ret == 0, "table operation within its range succeeds");
        sym_observe(0);
        uint32_t n = (uint32_t)sym_concretize(a[2]);
        uint64_t tmp[CAP];
        switch (op) {
        case GET:
            sym_check(refof(&res) == sh[0][a[0]], "table.get");
            break;
        case SET: sh[0][a[0]] = x; break;
        case FILL:
            for (uint32_t i = 0; i < n; i++)
                sh[0][a[0] + i] = x;
            break;
        case COPY00:
        case COPY01:
        case COPY10:
            memcpy(tmp, sh[sm], sizeof(tmp));
            for (uint32_t i = 0; i < n; i++)
                sh[dm][a[0] + i] = tmp[a[1] + i];
            break;
        case INIT:
            for (uint32_t i = 0; i < n; i++)
                sh[0][a[0] + i] = seg[a[1] + i];
            break;
        case DROP: seglen = 0; break;
        case GROW:
        case GROWB: {
            unsigned w = op == GROWB;
            uint64_t want = (uint64_t)size[w] + a[0];
            if (res.u.i32 == 0xffffffff) {
                sym_check(want > limit[w] || a[0] > 16,
                          "growing within the maximum succeeds");
                sym_expect("grow fails");
                sym_reach("grow fails");
            } else {
                sym_check(res.u.i32 == size[w],
                          "table.grow returns the old size");
                sym_check(want <= limit[w],
                          "a table never grows beyond its maximum");
                uint32_t nsz = (uint32_t)sym_concretize(want);
                for (uint32_t i = size[w]; i < nsz && i < CAP; i++)
                    sh[w][i] = x;
                size[w] = nsz;
            }
            break;
        }
        }
    }
    for (unsigned w = 0; w < 2; w++) {
        struct val v, res;
        memset(&v, 0, sizeof(v));
        memset(&res, 0, sizeof(res));
        int ret = wk_call(&k, fsize[w], NULL, &res);
        sym_check(ret == 0 && res.u.i32 == size[w], "table.size");
        for (uint32_t i = 0; i < size[w] && i < CAP; i++) {
            v.u.i32 = i;
            ret = wk_call(&k, fget[w], &v, &res);
            sym_check(ret == 0, "every entry below the size is accessible");
            sym_check(refof(&res) == sh[w][i],
                      "contents after table operations");
        }
        v.u.i32 = size[w];
        ret = wk_call(&k, fget[w], &v, &res);
        sym_check(ret == ETOYWASMTRAP &&
                          k.trap == TRAP_OUT_OF_BOUNDS_TABLE_ACCESS,
                  "no entry at the size");
    }
    wk_fini(&k);
}
