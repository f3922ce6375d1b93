/*
 * C27: further guarantees of the dynamic linker.
 *
 * params: 0 what
 *   0: the shared exception tags
 *   1: a main module which is not position independent and lacks something
 *   2: weak symbols
 *   3: objects whose loading failed
 */
#include "dylkit.h"

static struct dy d;
static struct wm m;

static void
tag(const char *name)
{
    wm_import(&m, "env", name, 4);
    wb_u8(&m.imp, 0);
    wb_u8(&m.imp, (uint8_t)wm_type(&m, "i", ""));
}
static void
tags(void)
{
    static const char *thr[] = {"t0", "t1"};
    static const char *fn[] = {"c0", "c1", "c2", "c3"};
    dy_base(&m);
    tag("__c_longjmp");
    tag("__cpp_exception");
    wm_export(&m, "t0", 0, WMF(&m, "", "", NULL, 0x41, 7, 0x08, 0));
    wm_export(&m, "t1", 0, WMF(&m, "", "", NULL, 0x41, 9, 0x08, 1));
    dy_obj("./a", &m, &d);
    dy_base(&m);
    int swapped = sym_choice(2); /* the order of the imports */
    tag(swapped ? "__cpp_exception" : "__c_longjmp");
    tag(swapped ? "__c_longjmp" : "__cpp_exception");
    wm_import_fn(&m, "env", thr[0], "", "");
    wm_import_fn(&m, "env", thr[1], "", "");
    /* call a function, catch one tag */
    for (unsigned i = 0; i < 4; i++) {
        uint8_t c[] = {0x02, 0x7f, 0x1f, 0x40, 1,    0,   0, 0,
                       0x10, 0,    0x0b, 0x41, 33, 0x0b};
        c[6] = (uint8_t)((i >> 1) ^ (unsigned)swapped);
        c[9] = i & 1;
        wm_export(&m, fn[i], 0, wm_fn(&m, "", "i", NULL, c, sizeof(c)));
    }
    d.needs[0] = "a";
    d.nneeds = 1;
    dy_obj("/m", &m, &d);
    sym_check(dyld_load(&dl, "/m") == 0, "load");
    unsigned i = sym_choice(4);
    uint32_t v = 0;
    int ret = dy_call(fn[i], 0, NULL, &v);
    if ((i & 1) == i >> 1)
        sym_check(ret == 0 && v == (i ? 9 : 7), "the exception is caught");
    else
        sym_check(ret == ETOYWASMTRAP, "another exception is not caught");
    sym_reach("thrown");
    sym_expect("thrown");
}

static void
lacking(void)
{
    static const char *names[] = {"memory",          "__indirect_function_table",
                                  "__stack_pointer", "__heap_base",
                                  "__heap_end",      "__stack_low",
                                  "__stack_high"};
    static const uint8_t kinds[] = {2, 1, 3, 3, 3, 3, 3};
    /* which export is affected, and how */
    unsigned x = sym_choice(8), how = sym_choice(4);
    wm_init(&m);
    WB(&m.mem, 1, 0, 1);
    if (x == 1 && how == 1)
        WB(&m.tab, 1, 0x6f, 0, 3);
    else
        WB(&m.tab, 1, 0x70, 0, 3);
    /* 0 variable, 1 to 4 constants, 5 i64 constant, 6 i64 variable */
    WB(&m.glob, 7, 0x7f, 1, 0x41, 32, 0x0b, 0x7f, 0, 0x41, 48, 0x0b, 0x7f, 0,
       0x41, 52, 0x0b, 0x7f, 0, 0x41, 0, 0x0b, 0x7f, 0, 0x41, 32, 0x0b, 0x7e,
       0, 0x42, 1, 0x0b, 0x7e, 1, 0x42, 1, 0x0b);
    unsigned f = WMF(&m, "", "i", NULL, 0x41, 5);
    int bad = 0;
    for (unsigned i = 0; i < 7; i++) {
        uint8_t kind = kinds[i];
        unsigned idx = i < 2 ? 0 : i - 2;
        if (i == x) {
            switch (how) {
            case 0:
                bad = 1;
                continue; /* missing */
            case 1:
                /* another type */
                if (i >= 2) {
                    idx = i == 2 ? 1 : 0; /* mutability */
                    bad = 1;
                } else if (i == 1)
                    bad = 1;
                break;
            case 2:
                if (i >= 2) {
                    idx = i == 2 ? 6 : 5; /* i64 */
                    bad = 1;
                }
                break;
            default:
                /* another kind */
                kind = 0;
                idx = f;
                bad = 1;
            }
        }
        wm_export(&m, names[i], kind, idx);
    }
    wm_export(&m, "f", 0, f);
    dy_obj("/m", &m, &d);
    int ret = dyld_load(&dl, "/m");
    sym_check((ret != 0) == bad, bad ? "a missing export is not reported"
                                     : "the module is loaded");
    if (bad) {
        sym_reach("rejected");
    } else {
        uint32_t v;
        sym_check(dy_call("f", 0, NULL, &v) == 0 && v == 5, "call");
        sym_reach("loaded");
    }
    sym_expect("rejected");
    sym_expect("loaded");
}

static void
weak(void)
{
    int func = sym_choice(3); /* 0: data, 1: function, 2: call, bound now */
    dy_base(&m);
    if (func < 2)
        dy_got(&m, func ? "GOT.func" : "GOT.mem", "s");
    else {
        wm_import_fn(&m, "env", "s", "", "i");
        dl.opts.bindnow = true;
    }
    unsigned f;
    if (func < 2)
        f = WMF(&m, "", "i", NULL, 0x23, 2);
    else
        f = WMF(&m, "", "i", NULL, 0x41, 0);
    wm_export(&m, "f", 0, f);
    struct wb w;
    wb_init(&w, 256);
    dy_mem(&w, &d);
    /* two entries of import information */
    uint8_t fl[2];
    sym_code(fl, 2);
    fl[0] &= 0x7f;
    fl[1] &= 0x7f;
    int other = sym_choice(2); /* 1: the module of the second is another */
    wb_u8(&w, 4);
    wb_open(&w);
    wb_uleb(&w, 2);
    wb_name(&w, "env");
    wb_name(&w, "t");
    wb_u8(&w, fl[0]);
    wb_name(&w, other ? "other" : "env");
    wb_name(&w, "s");
    wb_u8(&w, fl[1]);
    wb_close(&w);
    dy_file("/m", &m, &w);
    wb_fini(&w);
    int ret = dyld_load(&dl, "/m");
    int isweak = !other && (fl[1] & 1);
    sym_check((ret == 0) == isweak, "only a weak symbol may be missing");
    if (ret == 0) {
        uint32_t v;
        sym_check(dy_call("f", 0, NULL, &v) == 0 && v == 0, "null");
        sym_reach("null");
    } else
        sym_reach("missing");
    sym_expect("null");
    sym_expect("missing");
}

enum { OFF = 48, RET = 40 };
static void
load(unsigned i, int ok)
{
    uint32_t r, a[] = {OFF + i, 1, 0, RET};
    sym_check(dy_call("load", 4, a, &r) == 0, "load_object traps");
    sym_check(r == !ok, ok ? "an object is not loaded"
                           : "a load which cannot be done is done");
}
static void
failed(void)
{
    unsigned why = sym_choice(3), good = sym_choice(2), first = sym_choice(2);
    dl.opts.enable_dlfcn = true;
    /* d: defines s, u, v; not loaded for some reason. a: defines s, u, v */
    for (unsigned i = 0; i < 2; i++) {
        dy_base(&m);
        WB(&m.glob, 1, 0x7f, 0, 0x41, 4, 0x0b);
        unsigned g = 2, f = WMF(&m, "", "i", NULL, 0x41, 11);
        if (i == 0 && why == 1) {
            dy_got(&m, "GOT.mem", "nothere");
            g = 3;
        }
        wm_export(&m, "u", 3, g);
        wm_export(&m, "v", 0, f);
        if (i == 0 && why == 0)
            wm_export(&m, "__wasm_call_ctors", 0,
                      WMF(&m, "", "", NULL, 0x00));
        memset(&d, 0, sizeof(d));
        d.memsize = 8;
        if (i == 0 && why == 2) {
            d.needs[0] = "z";
            d.nneeds = 1;
        }
        dy_obj(i ? "./a" : "./d", &m, &d);
    }
    /* x and y need the symbols */
    dy_base(&m);
    dy_got(&m, "GOT.mem", "u");
    memset(&d, 0, sizeof(d));
    dy_obj("./x", &m, &d);
    dy_base(&m);
    dy_got(&m, "GOT.func", "v");
    dy_obj("./y", &m, &d);
    dy_base(&m);
    wm_import_fn(&m, "dyld", "load_object", "iiii", "i");
    wm_export(&m, "load", 0,
              WMF(&m, "iiii", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0x20, 3,
                  0x10, 0));
    WB(&m.data, 1, 0, 0x41, OFF, 0x0b, 4, 'd', 'a', 'x', 'y');
    d.memsize = 64;
    d.memalign = 3;
    dy_obj("/m", &m, &d);
    dl.opts.stack_size = 256;
    sym_check(dyld_load(&dl, "/m") == 0, "main");
    if (good && first)
        load(1, 1);
    load(0, 0);
    if (good && !first)
        load(1, 1);
    load(2 + sym_choice(2), (int)good);
    sym_reach("failed");
    sym_expect("failed");
}

void
harness_main(void)
{
    dy_init();
    switch (sym_param(0, 0)) {
    case 0:
        tags();
        break;
    case 1:
        lacking();
        break;
    case 2:
        weak();
        break;
    default:
        failed();
    }
    dy_clear();
}
