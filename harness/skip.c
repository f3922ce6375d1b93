/*
 * Code which is jumped over may contain any instruction with any immediates.
 *
 * params: 0 first instruction, 1 number, 2 load options,
 *         3 steps: any nest of blocks made in so many steps instead
 */
#include "valctx.h"

/* blocks, loops, ifs and try_tables opened and closed in any order */
static uint32_t
nest(uint8_t *b, uint32_t n, unsigned steps)
{
    uint8_t open[8];
    unsigned d = 0;
    for (unsigned i = 0; i < steps; i++) {
        unsigned what = sym_choice(d == 0 ? 4 : open[d - 1] == 2 ? 6 : 5);
        switch (what) {
        case 0:
        case 1:
            b[n++] = (uint8_t)(0x02 + what);
            b[n++] = 0x40;
            break;
        case 2:
            b[n++] = 0x41;
            b[n++] = 0;
            b[n++] = 0x04;
            b[n++] = 0x40;
            break;
        case 3:
            b[n++] = 0x1f;
            b[n++] = 0x40;
            b[n++] = 1;
            b[n++] = 2;
            b[n++] = 0;
            break;
        case 4:
            b[n++] = 0x0b;
            d--;
            continue;
        default:
            b[n++] = 0x05;
            open[d - 1] = 4;
            continue;
        }
        open[d++] = (uint8_t)what;
    }
    while (d--)
        b[n++] = 0x0b;
    return n;
}
void
harness_main(void)
{
    unsigned steps = (unsigned)sym_param(3, 0);
    unsigned first = (unsigned)sym_param(0, 0);
    unsigned num = (unsigned)sym_param(1, 8);
    wk_opts = (unsigned)sym_param(2, 1);
    unsigned total = NOPTAB + 26;
    if (first + num > total)
        num = total - first;
    unsigned sel = first + sym_choice(num);
    uint8_t b[128];
    uint32_t n = 0;
    unsigned mode = sym_choice(3);
    if (mode == 0) {
        /* br over it */
        static const uint8_t p[] = {0x41, 7, 0x21, 0, 0x02, 0x40, 0x0c, 0};
        memcpy(b, p, sizeof(p));
        n = sizeof(p);
    } else if (mode == 1) {
        /* in a then branch not taken */
        static const uint8_t p[] = {0x41, 9, 0x21, 0, 0x41, 0, 0x04, 0x40,
                                    0x00};
        memcpy(b, p, sizeof(p));
        n = sizeof(p);
    } else {
        /* in an else branch not taken */
        static const uint8_t p[] = {0x41, 1, 0x04, 0x40, 0x41, 7, 0x21, 0,
                                    0x05, 0x00};
        memcpy(b, p, sizeof(p));
        n = sizeof(p);
    }
    if (steps) {
        n = nest(b, n, steps);
    } else if (sel < NOPTAB) {
        const struct ins *d = &optab[sel];
        if (d->prefix)
            b[n++] = d->prefix;
        b[n++] = d->op;
        if (d->prefix && d->op >= 0x80)
            b[n++] = 1;
        unsigned nsym = 0;
        switch (d->imm) {
        case IMM_NONE: break;
        case IMM_MEMARG:
        case IMM_MEMARGA:
        case IMM_MEM2:
        case IMM_TAB2:
        case IMM_DATAMEM:
        case IMM_ELEMTAB: nsym = 2; break;
        case IMM_MEMLANE: nsym = 3; break;
        case IMM_F32: nsym = 4; break;
        case IMM_F64: nsym = 8; break;
        case IMM_V128: nsym = 16; break;
        case IMM_SHUFFLE:
            memset(b + n, 11, 16);
            n += 16;
            break;
        default: nsym = 1; break;
        }
        for (unsigned i = 0; i < nsym; i++) {
            sym_code(b + n, 1);
            if (d->imm != IMM_F32 && d->imm != IMM_F64 && d->imm != IMM_V128)
                sym_assume(b[n] < 0x80);
            n++;
        }
    } else {
        static const struct {
            uint8_t n, b[14];
        } x[26] = {
            {1, {0x00}},
            {1, {0x01}},
            {3, {0x02, 0x40, 0x0b}},
            {3, {0x03, 0x40, 0x0b}},
            {4, {0x02, 0x7f, 0x00, 0x0b}},
            {4, {0x02, 0x02, 0x00, 0x0b}},
            {3, {0x04, 0x40, 0x0b}},
            {4, {0x04, 0x40, 0x05, 0x0b}},
            {2, {0x0c, 0x01}},
            {2, {0x0d, 0x00}},
            {5, {0x0e, 0x02, 0x00, 0x00, 0x00}},
            {1, {0x0f}},
            {2, {0x10, 0x01}},
            {3, {0x11, 0x02, 0x00}},
            {2, {0x12, 0x01}},
            {3, {0x13, 0x01, 0x00}},
            {1, {0x1a}},
            {1, {0x1b}},
            {3, {0x1c, 0x01, 0x70}},
            {2, {0x20, 0x05}},
            {2, {0x22, 0x05}},
            {2, {0x23, 0x01}},
            {2, {0x08, 0x01}},
            {1, {0x0a}},
            {8, {0x1f, 0x40, 0x02, 0x00, 0x01, 0x00, 0x02, 0x00}},
            {2, {0xd0, 0x70}},
        };
        const uint8_t *p = x[sel - NOPTAB].b;
        memcpy(b + n, p, x[sel - NOPTAB].n);
        n += x[sel - NOPTAB].n;
        if (p[0] == 0x1f)
            b[n++] = 0x0b;
    }
    b[n++] = 0x00;
    if (mode == 1) {
        b[n++] = 0x05;
        b[n++] = 0x41;
        b[n++] = 7;
        b[n++] = 0x21;
        b[n++] = 0;
    }
    b[n++] = 0x0b;
    b[n++] = 0x20;
    b[n++] = 0;
    b[n++] = 0x0b;

    struct rctx c;
    struct wb w;
    struct wk k;
    valmodule(&w, &c, 1, b, n);
    wk_init(&k);
    int ret = wk_load(&k, w.b, w.n);
    if (ret) {
        /* immediates which do not validate */
        wk_fini(&k);
        return;
    }
    ret = wk_inst(&k, NULL);
    sym_check(ret == 0, "instantiation");
    uint32_t res = 0;
    ret = wk_call_i32(&k, 5, 0, NULL, &res);
    sym_check(ret == 0 && res == 7, "code jumped over is skipped exactly");
    sym_reach("ok");
    wk_fini(&k);
    wb_fini(&w);
}
