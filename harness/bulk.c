/*
 * Histories of memory.size/grow/fill/copy/init/data.drop on two memories
 * against a model.
 *
 * params: 0 first operation kind, 1 length of the history,
 *         2 layout: 0 the memory is completely written before, 1 untouched,
 *           2 memories of 64KB pages (growth only),
 *           3 ranges around the end of such memories
 *         3 1: a growth in the first step is by 2
 */
#include "wk.h"

#define MAXA 10
#define CAP 16

static uint8_t sh[2][CAP]; /* expected contents */
static uint32_t size[2], limit[2];
static uint8_t seg[9]; /* longer than the memory */
static uint32_t seglen;

enum { FILL, COPY00, COPY01, COPY10, INIT, DROP, GROW, GROWB, NOPS };

/* growth of memories of 64KB pages, limits and page boundaries */
static void
pages(void)
{
    struct wm m;
    struct wk k;
    wm_init(&m);
    bool has_max = sym_choice(2);
    bool touched = sym_choice(2);
    uint32_t min = sym_choice(3);
    uint64_t max = has_max ? 4 : 65536;
    wb_u8(&m.mem, 1);
    wb_u8(&m.mem, has_max);
    wb_uleb(&m.mem, min);
    if (has_max)
        wb_uleb(&m.mem, max);
    unsigned fgrow = WMF(&m, "i", "i", NULL, 0x20, 0, 0x40, 0);
    unsigned fsize = WMF(&m, "", "i", NULL, 0x3f, 0);
    unsigned fload = WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0, 0);
    unsigned fstore = WMF(&m, "ii", "", NULL, 0x20, 0, 0x20, 1, 0x3a, 0, 0);
    wm_must(&m, &k);
    uint32_t cur = min, got;
    uint32_t keep[2] = {0, 0};
    if (min && touched)
        for (unsigned i = 0; i < 2; i++) {
            uint32_t a[2] = {i ? min * 65536 - 1 : 5, 0};
            a[1] = keep[i] = sym_u8();
            sym_check(wk_call_i32(&k, fstore, 2, a, NULL) == 0, "store");
        }
    for (unsigned i = 0; i < 2; i++) {
        uint32_t n = sym_u32();
        /* larger growth: only the cases which must fail */
        sym_assume(n <= 4 || n > 65536 - 4);
        int ret = wk_call_i32(&k, fgrow, 1, &n, &got);
        sym_check(ret == 0, "memory.grow does not trap");
        if ((uint64_t)cur + n > max) {
            sym_check(got == 0xffffffff, "growing beyond the maximum fails");
            sym_expect("page grow fails");
            sym_reach("page grow fails");
        } else if (n > 4 && got == 0xffffffff) {
            /* out of memory */
            sym_reach("page grow oom");
        } else {
            sym_check(got == cur, "memory.grow returns the old size");
            cur += (uint32_t)sym_concretize(n);
            sym_expect("page grow");
            sym_reach("page grow");
        }
        ret = wk_call_i32(&k, fsize, 0, NULL, &got);
        sym_check(ret == 0 && got == cur, "memory.size in pages");
    }
    if (cur == 0 || cur > 16)
        sym_end();
    uint32_t at[] = {0, 5, min ? min * 65536 - 1 : 7, min * 65536,
                     cur * 65536 - 1, cur * 65536};
    for (unsigned i = 0; i < 6; i++) {
        int ret = wk_call_i32(&k, fload, 1, &at[i], &got);
        if (at[i] >= cur * 65536) {
            sym_check(ret == ETOYWASMTRAP, "access at the size traps");
            continue;
        }
        sym_check(ret == 0, "access below the size");
        uint32_t want = min && at[i] == 5                 ? keep[0]
                        : min && at[i] == min * 65536 - 1 ? keep[1]
                                                          : 0;
        sym_check(got == want, "contents survive growth, new pages are zero");
    }
    wk_fini(&k);
}

/* short ranges around the end of a memory of 64KB pages, the empty ones too */
static void
ranges(void)
{
    struct wm m;
    struct wk k;
    wm_init(&m);
    uint32_t pages = sym_choice(3);
    uint64_t end = pages * 65536;
    WB(&m.mem, 1, 0);
    wb_uleb(&m.mem, pages);
    unsigned fb[3];
    fb[0] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 11, 0);
    fb[1] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 10, 0,
                0);
    fb[2] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 8, 0,
                0);
    m.datacount = 1;
    WB(&m.data, 1, 1, 1, 0);
    wm_must(&m, &k);
    unsigned op = sym_choice(3);
    uint32_t a[3] = {sym_u32(), 0, sym_choice(3)};
    if (op == 2 && sym_choice(2)) {
        a[1] = a[0];
        a[0] = 0;
    }
    sym_assume((uint64_t)a[0] + 4 >= end || a[0] == 0);
    int ret = wk_call_i32(&k, fb[op], 3, a, NULL);
    bool oob = (uint64_t)a[0] + a[2] > end ||
               (op == 1 && (uint64_t)a[1] + a[2] > end) ||
               (op == 2 && (uint64_t)a[1] + a[2] > 1);
    if (oob) {
        sym_check(ret == ETOYWASMTRAP,
                  "ranges outside the memory trap, empty or not");
        sym_reach("range trap");
    } else {
        sym_check(ret == 0, "ranges within the memory succeed");
        sym_reach("in range");
    }
    sym_expect("range trap");
    sym_expect("in range");
    wk_fini(&k);
    wm_fini(&m);
}

void
harness_main(void)
{
    if (sym_param(2, 0) == 3) {
        ranges();
        return;
    }
    if (sym_param(2, 0) == 2) {
        pages();
        return;
    }
    unsigned first = (unsigned)sym_param(0, 0);
    unsigned len = (unsigned)sym_param(1, 2);
    unsigned layout = (unsigned)sym_param(2, 0);
    struct wm m;
    struct wk k;
    wm_init(&m);
    /* memory 0: 7 to 10 bytes, memory 1: 5 bytes, no maximum */
    WB(&m.mem, 2, 0x09, 7, MAXA, 0, 0x08, 5, 0);
    size[0] = 7;
    limit[0] = MAXA;
    size[1] = 5;
    limit[1] = 0xffffffff;
    unsigned f[NOPS];
    f[FILL] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 11, 0);
    f[COPY00] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 10,
                    0, 0);
    f[COPY01] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 10,
                    0, 1);
    f[COPY10] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 10,
                    1, 0);
    f[INIT] = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 8, 2,
                  0);
    f[DROP] = WMF(&m, "", "", NULL, 0xfc, 9, 2);
    f[GROW] = WMF(&m, "i", "i", NULL, 0x20, 0, 0x40, 0);
    f[GROWB] = WMF(&m, "i", "i", NULL, 0x20, 0, 0x40, 1);
    unsigned fsize[2], fload[2];
    fsize[0] = WMF(&m, "", "i", NULL, 0x3f, 0);
    fsize[1] = WMF(&m, "", "i", NULL, 0x3f, 1);
    fload[0] = WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0, 0);
    fload[1] = WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0x40, 1, 0);
    /* data: 0 active in memory 0, 1 active in memory 1, 2 passive */
    m.datacount = 3;
    wb_u8(&m.data, 3);
    for (unsigned i = 0; i < 2; i++) {
        uint32_t n = layout ? 2 : size[i];
        if (i)
            WB(&m.data, 2, 1);
        else
            wb_u8(&m.data, 0);
        WB(&m.data, 0x41, 0, 0x0b);
        wb_uleb(&m.data, n);
        sym_bytes(sh[i], n);
        wb_raw(&m.data, sh[i], n);
    }
    seglen = sizeof(seg);
    sym_bytes(seg, seglen);
    WB(&m.data, 1, sizeof(seg));
    wb_raw(&m.data, seg, seglen);
    wm_must(&m, &k);

    for (unsigned step = 0; step < len; step++) {
        unsigned op = step == 0 ? first : sym_choice(NOPS);
        uint32_t a[3] = {0, 0, 0}, got = 0;
        unsigned na = 0;
        switch (op) {
        case DROP: break;
        case GROW:
        case GROWB: na = 1; break;
        default: na = 3; break;
        }
        for (unsigned i = 0; i < na; i++)
            a[i] = sym_u32();
        if (step == 0 && sym_param(3, 0) && (op == GROW || op == GROWB))
            a[0] = 2;
        else if (op == GROWB)
            /* beyond, only that the size stays consistent is checked */
            sym_assume(a[0] <= 4 || a[0] >= 0xfffffff0);
        int ret = wk_call_i32(&k, f[op], na, a, &got);
        uint64_t d = (uint64_t)a[0] + a[2], s = (uint64_t)a[1] + a[2];
        bool oob = false;
        unsigned dm = op == COPY10, sm = op == COPY01;
        switch (op) {
        case FILL: oob = d > size[0]; break;
        case COPY00:
        case COPY01:
        case COPY10: oob = d > size[dm] || s > size[sm]; break;
        case INIT: oob = d > size[0] || s > seglen; break;
        }
        if (oob) {
            sym_expect("range trap");
            sym_reach("range trap");
            /* which of two violated bounds is reported is not specified */
            sym_check(ret == ETOYWASMTRAP &&
                              (k.trap == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS ||
                               (k.trap == TRAP_OUT_OF_BOUNDS_DATA_ACCESS &&
                                op == INIT && s > seglen)),
                      "bulk operation outside its range traps");
        } else {
            sym_check(ret == 0, "bulk operation within its range succeeds");
            uint8_t tmp[CAP];
            uint32_t n = (uint32_t)sym_concretize(a[2]);
            switch (op) {
            case FILL:
                for (uint32_t i = 0; i < CAP; i++)
                    if (i >= a[0] && i - a[0] < n)
                        sh[0][i] = (uint8_t)a[1];
                break;
            case COPY00:
            case COPY01:
            case COPY10: {
                memcpy(tmp, sh[sm], CAP);
                for (uint32_t i = 0; i < n; i++)
                    sh[dm][a[0] + i] = tmp[a[1] + i];
                break;
            }
            case INIT:
                for (uint32_t i = 0; i < n; i++)
                    sh[0][a[0] + i] = seg[a[1] + i];
                break;
            case DROP: seglen = 0; break;
            case GROW:
            case GROWB: {
                unsigned w = op == GROWB;
                uint64_t want = (uint64_t)size[w] + a[0];
                if (got == 0xffffffff) {
                    sym_check(want > limit[w] || a[0] > 64,
                              "growing within the maximum succeeds");
                    sym_expect("grow fails");
                    sym_reach("grow fails");
                } else {
                    sym_check(got == size[w],
                              "memory.grow returns the old size");
                    sym_check(want <= limit[w],
                              "memory never grows beyond its maximum");
                    size[w] = (uint32_t)sym_concretize(want);
                }
                break;
            }
            }
        }
        sym_observe((uint64_t)(uint32_t)ret);
    }
    for (unsigned w = 0; w < 2; w++) {
        uint32_t got, a;
        int ret = wk_call_i32(&k, fsize[w], 0, NULL, &got);
        sym_check(ret == 0 && got == size[w], "memory.size");
        for (a = 0; a < size[w] && a < CAP; a++) {
            ret = wk_call_i32(&k, fload[w], 1, &a, &got);
            sym_check(ret == 0, "every byte below the size is accessible");
            sym_check(got == sh[w][a], "contents after bulk operations");
            sym_observe(got);
        }
        ret = wk_call_i32(&k, fload[w], 1, &size[w], &got);
        sym_check(ret == ETOYWASMTRAP &&
                          k.trap == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS,
                  "no byte at the size is accessible");
    }
    wk_fini(&k);
}
