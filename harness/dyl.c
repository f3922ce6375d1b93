/*
 * C27: regions of shared objects.
 *
 * params: 0 number of libraries, 1 what is symbolic (1 memory sizes and
 *         alignments of all, 2 full range of one library's memory,
 *         3 tables, 4 full range of tables), 2 stack size class,
 *         3 the main module is not position independent
 */
#include "dylkit.h"

static const char *paths[] = {"/m", "./a", "./b", "./c"};
static const char *names[] = {0, "a", "b", "c"};
static const char *fm[] = {"m0", "m1", "m2", "m3"};
static const char *ft[] = {"t0", "t1", "t2", "t3"};
static const char *qm[] = {"qm0", "qm1", "qm2", "qm3"};
static const char *qt[] = {"qt0", "qt1", "qt2", "qt3"};

static struct dy d[4];
static struct {
    uint32_t base, size;
} mr[8], tr[8];

static int
meets(uint32_t b1, uint32_t s1, uint32_t b2, uint32_t s2)
{
    return (uint64_t)b1 < (uint64_t)b2 + s2 && (uint64_t)b2 < (uint64_t)b1 + s1;
}
static uint64_t
up(uint64_t v, uint32_t l)
{
    uint64_t k = ((uint64_t)1 << (l & 63)) - 1;
    return (v + k) & ~k;
}
void
harness_main(void)
{
    unsigned n = (unsigned)sym_param(0, 2), what = (unsigned)sym_param(1, 1);
    int stk = (int)sym_param(2, 0), nonpie = (int)sym_param(3, 0);
    int range = 1;
    uint64_t need = 0, tneed = 1;
    struct wm m;
    dy_init();
    for (unsigned i = 0; i <= n; i++) {
        switch (what) {
        case 1:
            d[i].memsize = (uint32_t)sym_u8() * (i == 1 ? 257 : 1);
            d[i].memalign = sym_u8() & 7;
            d[i].tabsize = i;
            break;
        case 2:
            d[i].memsize = 100;
            if (i == n) {
                d[i].memsize = sym_u32();
                d[i].memalign = sym_u32();
            }
            break;
        case 3:
            d[i].memsize = 8 * i;
            d[i].tabsize = (uint32_t)sym_choice(3);
            d[i].tabalign = (uint32_t)sym_choice(4);
            break;
        case 4:
            d[i].tabsize = 1;
            if (i == n) {
                d[i].tabsize = sym_u32();
                static const uint32_t al[] = {0, 1, 4, 5, 31, 32, 33, 256};
                d[i].tabalign = al[sym_choice(8)];
            }
            break;
        }
        if (nonpie && i == 0) {
            d[i].memsize = d[i].memalign = d[i].tabsize = d[i].tabalign = 0;
            need = 65536, tneed = 3;
        }
        if (d[i].memalign >= 32 || d[i].tabalign >= 32)
            range = 0;
        if (range) {
            need = up(need, d[i].memalign) + d[i].memsize;
            tneed = up(tneed, d[i].tabalign) + d[i].tabsize + 8;
        }
    }
    for (unsigned i = 1; i <= n; i++) {
        dy_base(&m);
        WMF(&m, "", "i", NULL, 0x23, 0);
        WMF(&m, "", "i", NULL, 0x23, 1);
        wm_export(&m, fm[i], 0, 0);
        wm_export(&m, ft[i], 0, 1);
        dy_obj(paths[i], &m, &d[i]);
        d[0].needs[i - 1] = names[i];
    }
    d[0].nneeds = n;
    if (nonpie) {
        wm_init(&m);
    } else {
        dy_base(&m);
        dy_got(&m, "env", "__stack_pointer");
        dy_got(&m, "GOT.mem", "__heap_base");
        dy_got(&m, "GOT.mem", "__heap_end");
        dy_got(&m, "GOT.mem", "__stack_low");
        dy_got(&m, "GOT.mem", "__stack_high");
    }
    for (unsigned i = 1; i <= n; i++) {
        wm_import_fn(&m, "env", fm[i], "", "i");
        wm_import_fn(&m, "env", ft[i], "", "i");
    }
    for (unsigned i = 1; i <= n; i++) {
        uint8_t c[2] = {0x10};
        c[1] = 2 * i - 2;
        wm_export(&m, qm[i], 0, wm_fn(&m, "", "i", NULL, c, 2));
        c[1] = 2 * i - 1;
        wm_export(&m, qt[i], 0, wm_fn(&m, "", "i", NULL, c, 2));
    }
    if (nonpie) {
        WB(&m.mem, 1, 0, 1);
        WB(&m.tab, 1, 0x70, 0, 3);
        WB(&m.glob, 5, 0x7f, 1, 0x41, 32, 0x0b, 0x7f, 0, 0x41, 48, 0x0b, 0x7f,
           0, 0x41, 52, 0x0b, 0x7f, 0, 0x41, 0, 0x0b, 0x7f, 0, 0x41, 32, 0x0b);
        wm_export(&m, "memory", 2, 0);
        wm_export(&m, "__indirect_function_table", 1, 0);
        wm_export(&m, "__stack_pointer", 3, 0);
        wm_export(&m, "__heap_base", 3, 1);
        wm_export(&m, "__heap_end", 3, 2);
        wm_export(&m, "__stack_low", 3, 3);
        wm_export(&m, "__stack_high", 3, 4);
    } else {
        wm_export(&m, "qm0", 0, WMF(&m, "", "i", NULL, 0x23, 0));
        wm_export(&m, "qt0", 0, WMF(&m, "", "i", NULL, 0x23, 1));
        wm_export(&m, "sp", 0, WMF(&m, "", "i", NULL, 0x23, 2));
        wm_export(&m, "hb", 0, WMF(&m, "", "i", NULL, 0x23, 3));
        wm_export(&m, "he", 0, WMF(&m, "", "i", NULL, 0x23, 4));
        wm_export(&m, "sl", 0, WMF(&m, "", "i", NULL, 0x23, 5));
        wm_export(&m, "sh", 0, WMF(&m, "", "i", NULL, 0x23, 6));
    }
    dy_obj(paths[0], &m, &d[0]);
    if (stk)
        dl.opts.stack_size = stk == 1 ? sym_u8() : sym_u32();
    uint32_t ssz = dl.opts.stack_size;
    if (!nonpie)
        need = up(up(need + ssz, 4), 16);
    /* larger allocations fail */
    uint32_t lim = what == 4 ? 1024 : 1 << 18;
    sym_max_alloc(lim);
    int ret = dyld_load(&dl, paths[0]);
    if (ret != 0) {
        sym_check(ret > 0, "error number");
        sym_check(!range || need > (1 << 18) - 65536 || tneed > lim / 16,
                  "objects which fit are not loaded");
        sym_reach("not loaded");
        sym_max_alloc(1 << 28);
        dy_clear();
        return;
    }
    sym_max_alloc(1 << 28);
    sym_check(range, "an alignment which cannot be had is accepted");
    struct meminst *mi = dyld_memory(&dl);
    struct tableinst *ti = dyld_func_table(&dl);
    uint64_t size = (uint64_t)mi->size_in_pages << 16;
    unsigned nm = 0, nt = 0;
    for (unsigned i = nonpie; i <= n; i++) {
        uint32_t v, t;
        sym_check(dy_call(qm[i], 0, NULL, &v) == 0, "memory base");
        sym_check(dy_call(qt[i], 0, NULL, &t) == 0, "table base");
        sym_check(up(v, d[i].memalign) == v, "alignment of memory");
        sym_check(up(t, d[i].tabalign) == t, "alignment of table elements");
        mr[nm].base = v;
        mr[nm++].size = d[i].memsize;
        tr[nt].base = t;
        tr[nt++].size = d[i].tabsize;
    }
    if (nonpie) {
        mr[nm].base = 0;
        mr[nm++].size = 65536;
        tr[nt].base = 0;
        tr[nt++].size = 3;
    } else {
        uint32_t sp, hb, he, sl, sh;
        sym_check(!dy_call("sp", 0, NULL, &sp) &&
                      !dy_call("hb", 0, NULL, &hb) &&
                      !dy_call("he", 0, NULL, &he) &&
                      !dy_call("sl", 0, NULL, &sl) &&
                      !dy_call("sh", 0, NULL, &sh),
                  "layout");
        sym_check(sp == sh && sp % 16 == 0, "stack pointer");
        sym_check(sl <= sh && sh - sl >= ssz, "size of the stack");
        sym_check(hb <= he && he % 65536 == 0, "heap");
        mr[nm].base = sl;
        mr[nm++].size = sh - sl;
        mr[nm].base = hb;
        mr[nm++].size = he - hb;
        tr[nt].base = 0;
        tr[nt++].size = 1;
    }
    for (unsigned i = 0; i < nm; i++) {
        sym_check((uint64_t)mr[i].base + mr[i].size <= size,
                  "a region is not in the memory");
        for (unsigned j = 0; j < i; j++)
            sym_check(!meets(mr[i].base, mr[i].size, mr[j].base, mr[j].size),
                      "regions overlap");
    }
    for (unsigned i = 0; i < nt; i++) {
        sym_check((uint64_t)tr[i].base + tr[i].size <= ti->size,
                  "a region is not in the table");
        for (unsigned j = 0; j < i; j++)
            sym_check(!meets(tr[i].base, tr[i].size, tr[j].base, tr[j].size),
                      "table regions overlap");
    }
    sym_reach("loaded");
    dy_clear();
}
