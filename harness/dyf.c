/*
 * C27: objects loaded and symbols looked up at run time.
 *
 * params: 0 what
 *   0: histories of loads (1 number of loads, 2 the first load or -1)
 *      followed by lookups
 *   1: load with any arguments (1 length class)
 *   2: lookup with any arguments
 *   3: load after the program has grown memory and table (1 pages,
 *      2 elements)
 */
#include "dylkit.h"

enum { OFF = 48, RET = 40, LOGP = 8 };
/* what happens to library "a" + n */
static const struct {
    int ok;
} lib[] = {{1} /* a */,         {0} /* b needs z */,
           {0} /* c: symbol */, {0} /* d: constructor traps */,
           {0} /* e: corrupt */, {1} /* f: its constructor loads a */,
           {0} /* g needs b */, {1} /* h needs a */,
           {0} /* i does not exist */};
#define NLIB 9

static uint32_t soff;
static struct dy d;
static uint32_t
rd32(uint32_t a)
{
    struct meminst *mi = dyld_memory(&dl);
    uint32_t v = 0;
    for (unsigned i = 0; i < 4; i++)
        if (a + i < mi->allocated)
            v |= (uint32_t)mi->data[a + i] << 8 * i;
    return v;
}
static void
obj(unsigned i)
{
    static const char *paths[] = {"./a", "./b", "./c", "./d",
                                  "./e", "./f", "./g", "./h"};
    struct wm m;
    dy_base(&m);
    memset(&d, 0, sizeof(d));
    d.memsize = 20;
    d.memalign = 2;
    d.tabsize = 2;
    if (i == 2)
        dy_got(&m, "GOT.mem", "nothere");
    else
        dy_got(&m, "GOT.mem", "log");
    if (i == 5)
        wm_import_fn(&m, "dyld", "load_object", "iiii", "i");
    WB(&m.glob, 1, 0x7f, 0, 0x41);
    for (unsigned k = 0; k < 4; k++)
        wb_u8(&m.glob, (uint8_t)(soff >> 7 * k | 0x80));
    wb_u8(&m.glob, (uint8_t)((uint32_t)((int32_t)soff >> 28) & 0x7f));
    wb_u8(&m.glob, 0x0b);
    unsigned b = WMF(&m, "", "i", NULL, 0x23, 0);
    uint8_t c[] = {0x41, 0};
    c[1] = (uint8_t)i + 3;
    unsigned f = wm_fn(&m, "", "i", NULL, c, 2);
    unsigned t;
    if (i == 3)
        t = WMF(&m, "", "", NULL, 0x00);
    else if (i == 5)
        t = WMF(&m, "", "", NULL, 0x41, OFF, 0x41, 1, 0x41, 0, 0x41, RET + 4,
                0x10, 0, 0x04, 0x40, 0x00, 0x0b);
    else /* count */
        t = WMF(&m, "", "", NULL, 0x23, 2, 0x23, 2, 0x28, 2, 0, 0x41, 1, 0x6a,
                0x36, 2, 0);
    wm_export(&m, "b", 0, b);
    wm_export(&m, "f", 0, f);
    wm_export(&m, "__wasm_call_ctors", 0, t);
    wm_export(&m, "s", 3, 3);
    /* functions in the object's table region */
    wb_u8(&m.elem, 1);
    WB(&m.elem, 0, 0x23, 1, 0x0b, 2);
    wb_u8(&m.elem, b);
    wb_u8(&m.elem, f);
    if (i == 1)
        d.needs[d.nneeds++] = "z";
    if (i == 6)
        d.needs[d.nneeds++] = "b";
    if (i == 7)
        d.needs[d.nneeds++] = "a";
    dy_obj(paths[i], &m, &d);
    if (i == 4)
        os_images[os_nimages - 1].n -= 3;
}
static void
setup(void)
{
    struct wm m;
    dy_init();
    /* small objects can be accessed at any address at once */
    dy_bytes = sym_param(0, 0) != 3;
    dl.opts.enable_dlfcn = true;
    soff = sym_u32();
    for (unsigned i = 0; i < 7; i++)
        obj(i == 4 && sym_param(0, 0) ? 0 : i);
    dy_base(&m);
    wm_import_fn(&m, "dyld", "load_object", "iiii", "i");
    wm_import_fn(&m, "dyld", "resolve_symbol", "iiiii", "i");
    WB(&m.glob, 1, 0x7f, 0, 0x41, LOGP, 0x0b);
    wm_export(&m, "log", 3, 2);
    wm_export(&m, "load", 0,
              WMF(&m, "iiii", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0x20, 3,
                  0x10, 0));
    wm_export(&m, "res", 0,
              WMF(&m, "iiiii", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0x20, 3,
                  0x20, 4, 0x10, 1));
    uint8_t c[] = {0x20, 0, 0x11, 0, 0};
    c[3] = (uint8_t)wm_type(&m, "", "i");
    wm_export(&m, "ci", 0, wm_fn(&m, "i", "i", NULL, c, 5));
    wm_export(&m, "grow", 0,
              WMF(&m, "ii", "i", NULL, 0xd0, 0x70, 0x20, 1, 0xfc, 15, 0, 0x1a,
                  0x20, 0, 0x40, 0));
    WB(&m.data, 1, 0, 0x41, OFF, 0x0b, 9, 'a', 'b', 'c', 'd', 'e', 'f', 'g',
       'h', 's');
    memset(&d, 0, sizeof(d));
    d.memsize = 64;
    d.memalign = 3;
    dy_obj("/m", &m, &d);
    dl.opts.stack_size = 256;
    sym_check(dyld_load(&dl, "/m") == 0, "main");
    sym_check(dyld_execute_init_funcs(&dl) == 0, "main");
}
static int
load(unsigned i, uint32_t *h)
{
    uint32_t r, a[] = {OFF + i, 1, 0, RET};
    sym_check(dy_call("load", 4, a, &r) == 0, "load_object traps");
    sym_check(r <= 1, "result");
    *h = rd32(RET);
    return r == 0;
}
/* name: offset of the character */
static int
look(uint32_t h, uint32_t type, unsigned name, uint32_t *v)
{
    uint32_t r, a[] = {h, type, OFF + name, 1, RET};
    sym_check(dy_call("res", 5, a, &r) == 0, "resolve_symbol traps");
    sym_check(r <= 1, "result");
    *v = rd32(RET);
    return r == 0;
}
static uint32_t
ci(uint32_t idx)
{
    uint32_t r;
    sym_check(dy_call("ci", 1, &idx, &r) == 0, "call by address");
    return r;
}
static void
lookups(unsigned l, uint32_t h)
{
    uint32_t f, b, s, f2, x;
    sym_check(look(h, 1, 5, &f), "function");
    sym_check(ci(f) == l + 3, "which function");
    sym_check(look(h, 1, 5, &f2) && f2 == f, "a function has two addresses");
    sym_check(look(h, 1, 1, &b), "function");
    sym_check(look(h, 2, 8, &s), "data");
    sym_check(s == ci(b) + soff, "address of data");
    sym_check(!look(h, 1, 8, &x) && !look(h, 2, 5, &x) && !look(h, 1, 4, &x),
              "a symbol which is not there");
}
void
harness_main(void)
{
    int what = (int)sym_param(0, 0);
    setup();
    if (what == 0) {
        unsigned n = (unsigned)sym_param(1, 2), ok = 0;
        uint32_t h[4], cnt = 0;
        unsigned lb[4];
        int a = 0;
        for (unsigned i = 0; i < n; i++) {
            int f = (int)sym_param(2 + i, -1);
            unsigned l = f >= 0 ? (unsigned)f : (unsigned)sym_choice(NLIB);
            if (l == 7 || l == 8) /* files which are not there */
                l = 8;
            int r = load(l, &h[ok]);
            sym_check(r == lib[l].ok, r ? "a load which cannot be done is done"
                                        : "an object is not loaded");
            if (r) {
                sym_check(h[ok] != 0, "handle");
                for (unsigned j = 0; j < ok; j++)
                    sym_check(h[j] != h[ok] || lb[j] == l, "equal handles");
                lb[ok++] = l;
                cnt = rd32(LOGP);
                sym_check(cnt >= 1, "constructors");
            }
        }
        for (unsigned i = 0; i < ok; i++)
            lookups(lb[i], h[i]);
        sym_reach("done");
    } else if (what == 1) {
        static const uint32_t lens[] = {0, 1, 2, 300, 3000, 0xffffffff};
        uint32_t a[] = {sym_u32(), lens[sym_param(1, 1)], 0, RET}, r;
        unsigned k = (unsigned)sym_param(2, 0);
        if (k == 1) {
            a[0] = OFF;
            a[2] = sym_u32();
        } else if (k == 2) {
            a[0] = OFF;
            a[3] = sym_u32();
        }
        sym_max_alloc(1 << 18);
        uint64_t size = dyld_memory(&dl)->size_in_pages;
        int ret = dy_call("load", 4, a, &r);
        int in = (uint64_t)a[0] + a[1] <= size;
        size = dyld_memory(&dl)->size_in_pages;
        if (k != 2 && a[2] == 0)
            sym_check((ret != 0) == !in, "access to the name");
        if (k == 1 && a[2] != 0)
            sym_check(ret == 0 && r == 1, "mode");
        if (k == 2)
            sym_check((ret == 0) == (a[3] % 4 == 0 && a[3] <= size - 4),
                      "access to the handle");
        if (k == 0 && ret == 0 && (a[1] != 1 || a[0] < OFF || a[0] > OFF + 6))
            sym_check(r == 1, "an object which does not exist is loaded");
        sym_reach("done");
    } else if (what == 2) {
        uint32_t h, a[] = {0, 1, OFF + 5, 1, RET}, r;
        sym_check(load(0, &h), "load");
        a[0] = h;
        unsigned k = (unsigned)sym_param(1, 0);
        a[k] = sym_u32();
        uint64_t size = dyld_memory(&dl)->size_in_pages;
        int ret = dy_call("res", 5, a, &r);
        if (k == 0 || k == 1)
            sym_check(ret == 0 && (r == 0) == (a[0] == h && a[1] <= 2 &&
                                               a[1] == 1),
                      "handle or type");
        if (k == 2)
            sym_check((ret == 0) == (a[2] < size) &&
                          (ret || (r == 0) == (a[2] == OFF + 5 ||
                                               a[2] == OFF + 1)),
                      "name");
        if (k == 3)
            sym_check((ret == 0) == ((uint64_t)a[2] + a[3] <= size) &&
                          (ret || (r == 0) == (a[3] == 1)),
                      "length of the name");
        if (k == 4)
            sym_check((ret == 0) == (a[4] % 4 == 0 && a[4] <= size - 4),
                      "access to the address");
        if (k != 4 || a[4] >= OFF + 16)
            lookups(0, h);
        sym_reach("done");
    } else {
        uint32_t g[] = {(uint32_t)sym_param(1, 1), (uint32_t)sym_param(2, 1)};
        uint32_t r, h, b, f;
        uint64_t ts = dyld_func_table(&dl)->size;
        uint32_t cf = 0;
        sym_check(dy_call("grow", 2, g, &r) == 0 && r == 1, "grow");
        sym_check(load(0, &h), "an object is not loaded");
        sym_check(look(h, 1, 1, &b) && look(h, 1, 5, &f), "function");
        b = ci(b);
        sym_check(b >= 65536 * (r + g[0]) || b + 20 <= 65536 * r,
                  "an object gets memory which the program owns");
        sym_check(f >= ts + g[1], "an object gets table elements which the "
                                  "program owns");
        sym_check((uint64_t)b + 20 <=
                      (uint64_t)dyld_memory(&dl)->size_in_pages << 16,
                  "a region is not in the memory");
        sym_reach("done");
        (void)cf;
    }
    dy_clear();
}
