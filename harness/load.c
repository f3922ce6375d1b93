/*
 * Loading arbitrary bytes: terminates, stays inside the given bytes, leaves
 * nothing allocated, and accepts exactly what the reference decoder accepts.
 *
 * params: 0 kind
 *   0: a file of exactly n arbitrary bytes
 *   1: header followed by n arbitrary bytes
 *   2: module m with the contents of section s replaced by n arbitrary bytes
 *   3: module m with an element or section count or size in section s
 *      replaced by boundary values (up to 2^32-1)
 *   4: numbers of locals
 *   5: custom section s ("name", "dylink.0") with n arbitrary bytes
 *   6: dylink.0 with subsections of types 1 to 5 and short contents
 *   8: dylink.0 with m well formed subsections
 *   7: sections m and s in this order, each empty or with one entry
 * 1 m, 2 s, 3 n
 */
#include <stdlib.h>

#include "mods.h"
#include "refmod.h"

static void
run(const uint8_t *p, uint32_t n, bool ref)
{
    struct wk k;
    wk_init(&k);
    int ret = wk_load(&k, p, n);
    sym_observe((uint64_t)(ret == 0));
    if (ref) {
        bool ok = refmodule(p, n);
        if (ok) {
            sym_check(ret == 0, "a valid module is accepted");
            sym_reach("valid");
        } else {
            sym_check(ret != 0, "an invalid module is rejected");
            sym_reach("invalid");
        }
    }
    wk_fini(&k);
    sym_check(rt_live == 1, "loading leaves nothing allocated");
}

/* arbitrary bytes; numbers take one byte, except at the end */
static void
short_bytes(uint8_t *p, unsigned n)
{
    sym_code(p, n);
    for (unsigned i = 0; i + 1 < n; i++)
        sym_assume(p[i] < 0x80);
}

static const uint32_t bounds[] = {
    0x7f,       0x80,       0x4000,     0x7fffffff, 0x80000000, 0xffffffff,
    0x10000000, 0x20000000, 0x40000000, 0x15555556, 0x0aaaaaab, 0x08000000,
    0x33333334, 0xfffffff0, 0x04000000, 0x06666667,
};

static void
uleb5(struct wb *w, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        wb_u8(w, (uint8_t)(((v >> (7 * i)) & 0x7f) | 0x80));
    wb_u8(w, (uint8_t)(v >> 28));
}

void
harness_main(void)
{
    unsigned kind = (unsigned)sym_param(0, 0);
    unsigned m = (unsigned)sym_param(1, 0);
    unsigned s = (unsigned)sym_param(2, 0);
    unsigned n = (unsigned)sym_param(3, 1);
    struct wb w, o;
    wb_init(&w, 1024);
    sym_max_alloc(0x40000);
    switch (kind) {
    case 0:
        for (unsigned i = 0; i < n; i++)
            sym_code(w.b + i, 1);
        run(w.b, n, true);
        break;
    case 1:
        wb_header(&w);
        if (n > 3)
            short_bytes(w.b + w.n, n);
        else
            sym_code(w.b + w.n, n);
        run(w.b, w.n + n, true);
        break;
    case 2:
    case 3: {
        build(&o, m);
        uint32_t p = 8;
        unsigned i = 0;
        while (p < o.n && i < s) {
            p += 2 + o.b[p + 1];
            i++;
        }
        if (p >= o.n) {
            wb_fini(&o);
            break;
        }
        wb_raw(&w, o.b, p + 1);
        uint32_t next = p + 2 + o.b[p + 1];
        if (kind == 2) {
            wb_u8(&w, (uint8_t)n);
            for (unsigned j = 0; j < n; j++)
                wb_u8(&w, 0);
            short_bytes(w.b + w.n - n, n);
        } else {
            /* one byte of the section becomes a five byte number */
            unsigned at = 1 + sym_choice(o.b[p + 1]);
            uint32_t v = bounds[sym_choice(sizeof(bounds) / sizeof(*bounds))];
            bool grow = sym_choice(2) == 0;
            if (at > 1) {
                wb_u8(&w, (uint8_t)(o.b[p + 1] + 4));
                wb_raw(&w, o.b + p + 2, at - 1);
                uleb5(&w, v);
                wb_raw(&w, o.b + p + 2 + at, o.b[p + 1] - at);
            } else {
                /* the size itself, or the count */
                if (grow) {
                    uleb5(&w, v);
                    wb_raw(&w, o.b + p + 2, o.b[p + 1]);
                } else {
                    wb_u8(&w, (uint8_t)(o.b[p + 1] + 4));
                    uleb5(&w, v);
                    wb_raw(&w, o.b + p + 3, o.b[p + 1] - 1);
                }
            }
        }
        wb_raw(&w, o.b + next, o.n - next);
        wb_fini(&o);
        uint32_t len = w.n;
        /* large limits and offsets are legal, others are not: no reference
         * for the values which only exceed an allocation limit */
        run(w.b, len, kind == 2);
        break;
    }
    case 4: {
        static const uint32_t v[] = {0,          1,          2,
                                     3,          0x7fffffff, 0x80000000,
                                     0xfffffffd, 0xfffffffe, 0xffffffff};
        uint32_t a = v[sym_choice(9)], b = v[sym_choice(9)];
        unsigned np = sym_choice(4);
        wb_header(&w);
        wb_sec(&w, 1);
        wb_u8(&w, 1);
        wb_functype(&w, np == 0 ? "" : np == 1 ? "i" : np == 2 ? "Iv" : "iii",
                    "");
        wb_close(&w);
        wb_sec(&w, 3);
        WB(&w, 1, 0);
        wb_close(&w);
        wb_sec(&w, 10);
        wb_u8(&w, 1);
        wb_open(&w);
        wb_u8(&w, 2);
        uleb5(&w, a);
        wb_u8(&w, T_I64);
        uleb5(&w, b);
        wb_u8(&w, T_I32);
        uint64_t total = (uint64_t)a + b + np;
        /* get the last local */
        wb_u8(&w, 0x20);
        uleb5(&w, (uint32_t)(total - 1));
        WB(&w, 0x1a, 0x0b);
        wb_close(&w);
        wb_close(&w);
        struct wk k;
        wk_init(&k);
        int ret = wk_load(&k, w.b, w.n);
        sym_observe((uint64_t)(ret == 0));
        if (total == 0 || (uint64_t)a + b > UINT32_MAX)
            sym_check(ret != 0, "too many locals are rejected");
        else if (total < 100)
            sym_check(ret == 0, "a valid module is accepted");
        wk_fini(&k);
        sym_check(rt_live == 1, "loading leaves nothing allocated");
        break;
    }
    case 5:
        wb_header(&w);
        wb_u8(&w, 0);
        if (s == 0) {
            wb_u8(&w, (uint8_t)(5 + n));
            wb_name(&w, "name");
        } else {
            wb_u8(&w, (uint8_t)(9 + n));
            wb_name(&w, "dylink.0");
        }
        short_bytes(w.b + w.n, n);
        run(w.b, w.n + n, s == 0);
        break;
    case 6: {
        /* m subsections with s bytes each, the first n bytes arbitrary */
        wb_header(&w);
        wb_u8(&w, 0);
        wb_u8(&w, (uint8_t)(9 + m * (2 + s)));
        wb_name(&w, "dylink.0");
        for (unsigned i = 0; i < m; i++) {
            wb_u8(&w, (uint8_t)(1 + sym_choice(5)));
            wb_u8(&w, (uint8_t)s);
            for (unsigned j = 0; j < s; j++) {
                wb_u8(&w, 0);
                if (j < n) {
                    sym_code(w.b + w.n - 1, 1);
                    sym_assume(w.b[w.n - 1] < 0x80);
                }
            }
        }
        run(w.b, w.n, false);
        break;
    }
    case 8: {
        /* dylink.0 with m well formed subsections */
        wb_header(&w);
        wb_sec(&w, 0);
        wb_name(&w, "dylink.0");
        for (unsigned i = 0; i < m; i++)
            switch (sym_choice(5)) {
            case 0: WB(&w, 1, 4, 0, 0, 0, 0); break;
            case 1: WB(&w, 2, 3, 1, 1, 'x'); break;
            case 2: WB(&w, 2, 5, 2, 1, 'x', 1, 'y'); break;
            case 3: WB(&w, 3, 4, 1, 1, 'x', 0); break;
            case 4: WB(&w, 4, 6, 1, 1, 'a', 1, 'b', 0); break;
            }
        wb_close(&w);
        run(w.b, w.n, false);
        break;
    }
    case 7: {
        /* two sections in any order, with count 0 */
        uint8_t a, b;
        wb_header(&w);
        sym_code(&a, 1);
        sym_code(&b, 1);
        sym_assume(a < 16);
        sym_assume(b < 16);
        wb_u8(&w, a);
        wb_u8(&w, 1);
        wb_u8(&w, 0);
        wb_u8(&w, b);
        wb_u8(&w, 1);
        wb_u8(&w, 0);
        run(w.b, w.n, true);
        break;
    }
    }
    wb_fini(&w);
}
