/*
 * Whole modules with arbitrary bytes at one place: accepted exactly when the
 * reference decoder and validator accept them, and nothing is left behind.
 *
 * params: 0 module, 1 first offset, 2 number of offsets, 3 bytes replaced
 *           (two or more: below 0x80 each)
 *         4 1: truncation at the offset instead, 2: bytes inserted into the
 *           section at the offset, 3: bytes removed from it
 */
#include <stdlib.h>

#include "mods.h"
#include "refmod.h"

void
harness_main(void)
{
    unsigned which = (unsigned)sym_param(0, 0);
    unsigned first = (unsigned)sym_param(1, 0);
    unsigned num = (unsigned)sym_param(2, 1000);
    unsigned width = (unsigned)sym_param(3, 1);
    struct wb w;
    build(&w, which);
    if (width == 0) {
        sym_check(refmodule(w.b, w.n), "internal: base module valid");
        struct wk k;
        wk_init(&k);
        sym_check(wk_load(&k, w.b, w.n) == 0, "base module accepted");
        wk_fini(&k);
        wb_fini(&w);
        return;
    }
    if (first >= w.n)
        sym_end();
    if (num > w.n - first)
        num = w.n - first;
    unsigned off = first + sym_choice(num);
    uint32_t n = w.n;
    unsigned mode = (unsigned)sym_param(4, 0);
    if (mode == 1)
        n = off;
    else if (mode >= 2) {
        /* the enclosing section; its size is one byte */
        uint32_t s = 8;
        while (s < n && s + 2 + w.b[s + 1] < off + (mode == 3))
            s += 2 + w.b[s + 1];
        if (s >= n || off < s + 2)
            sym_end();
        if (mode == 2) {
            if (w.b[s + 1] + width > 127)
                sym_fail_("internal: section size");
            w.b[s + 1] = (uint8_t)(w.b[s + 1] + width);
            for (uint32_t i = n; i > off; i--)
                w.b[i - 1 + width] = w.b[i - 1];
            n += width;
            sym_code(w.b + off, width);
            for (unsigned i = 0; width > 1 && i < width; i++)
                sym_assume(w.b[off + i] < 0x80);
        } else {
            if (off + width > s + 2 + w.b[s + 1])
                sym_end();
            w.b[s + 1] = (uint8_t)(w.b[s + 1] - width);
            for (uint32_t i = off; i + width < n; i++)
                w.b[i] = w.b[i + width];
            n -= width;
        }
    } else
        for (unsigned i = 0; i < width && off + i < n; i++) {
            sym_code(w.b + off + i, 1);
            if (width > 1)
                sym_assume(w.b[off + i] < 0x80);
        }
    struct wk k;
    wk_init(&k);
    int ret = wk_load(&k, w.b, n);
    bool ok = refmodule(w.b, n);
    sym_observe((uint64_t)(ret == 0));
    if (ok) {
        sym_check(ret == 0, "a valid module is accepted");
        sym_reach("valid");
    } else {
        sym_check(ret != 0, "an invalid module is rejected");
        sym_reach("invalid");
    }
    wk_fini(&k);
    wb_fini(&w);
    sym_check(rt_live == 0, "loading leaves nothing allocated");
}
