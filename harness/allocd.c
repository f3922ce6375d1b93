/*
 * C19: failing allocations in the dynamic linker.
 *
 * params: 0 kind, 1 number of failures
 *   0: loading a program with a library and initialising both
 *   1: load_object; then again without failures
 *   2: resolve_symbol; then again without failures
 */
#include "dylkit.h"

static struct dy d;
enum { OFF = 48, RET = 40 };

static void
lib(const char *path, unsigned v)
{
    struct wm m;
    dy_base(&m);
    memset(&d, 0, sizeof(d));
    d.memsize = 20;
    d.memalign = 2;
    d.tabsize = 1;
    dy_got(&m, "GOT.mem", "x");
    uint8_t c[] = {0x41, 0};
    c[1] = (uint8_t)v;
    unsigned f = wm_fn(&m, "", "i", NULL, c, 2);
    wm_export(&m, path[2] == 'a' ? "f" : "g", 0, f);
    wm_export(&m, "__wasm_call_ctors", 0,
              WMF(&m, "", "", NULL, 0x23, 2, 0x23, 2, 0x28, 2, 0, 0x41, 1,
                  0x6a, 0x36, 2, 0));
    WB(&m.elem, 1, 0, 0x23, 1, 0x0b, 1);
    wb_u8(&m.elem, f);
    dy_obj(path, &m, &d);
}
static uint32_t
rd32(uint32_t a)
{
    struct meminst *mi = dyld_memory(&dl);
    uint32_t v = 0;
    for (unsigned i = 0; i < 4; i++)
        if (a + i < mi->allocated)
            v |= (uint32_t)mi->data[a + i] << 8 * i;
    return v;
}
void
harness_main(void)
{
    int what = (int)sym_param(0, 0), ret;
    struct wm m;
    uint32_t r, h;
    dy_init();
    dy_bytes = 1;
    dl.opts.enable_dlfcn = true;
    dl.opts.stack_size = 256;
    lib("./a", 5);
    lib("./b", 6);
    dy_base(&m);
    wm_import_fn(&m, "dyld", "load_object", "iiii", "i");
    wm_import_fn(&m, "dyld", "resolve_symbol", "iiiii", "i");
    unsigned f = wm_import_fn(&m, "env", "f", "", "i");
    dy_got(&m, "GOT.func", "f");
    WB(&m.glob, 1, 0x7f, 0, 0x41, 8, 0x0b);
    wm_export(&m, "x", 3, 3);
    wm_export(&m, "load", 0,
              WMF(&m, "iiii", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0x20, 3,
                  0x10, 0));
    wm_export(&m, "res", 0,
              WMF(&m, "iiiii", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0x20, 3,
                  0x20, 4, 0x10, 1));
    uint8_t c[] = {0x23, 2, 0x11, 0, 0, 0x10, 0, 0x6a};
    c[3] = (uint8_t)wm_type(&m, "", "i");
    c[6] = (uint8_t)f;
    wm_export(&m, "run", 0, wm_fn(&m, "", "i", NULL, c, sizeof(c)));
    WB(&m.data, 1, 0, 0x41, OFF, 0x0b, 2, 'b', 'g');
    memset(&d, 0, sizeof(d));
    d.memsize = 64;
    d.memalign = 3;
    d.needs[d.nneeds++] = "a";
    dy_obj("/m", &m, &d);

    rt_fail_budget = (int)sym_param(1, 1);
    rt_fail_mode = what == 0;
    ret = dyld_load(&dl, "/m");
    int st = 0;
    if (ret == 0) {
        ret = dyld_execute_init_funcs(&dl);
        st = 1;
    }
    if (what == 0) {
        if (ret == 0)
            ret = dy_call("run", 0, NULL, &r), st = 2;
        rt_fail_mode = 0;
        if (ret == 0)
            sym_check(r == 10, "result");
        sym_check(ret == 0 || rt_fail_taken, "loading fails");
        sym_reach(ret == 0 ? "loaded"
                           : st == 0 ? "load"
                                     : st == 1 ? "init" : "execution");
        dy_clear();
        return;
    }
    sym_check(ret == 0, "main");
    uint32_t n0 = rd32(8);
    sym_check(n0 == 1, "constructors");
    uint32_t a[] = {OFF, 1, 0, RET}, b[] = {0, 1, OFF + 1, 1, RET};
    if (what == 1)
        rt_fail_mode = 1;
    ret = dy_call("load", 4, a, &r);
    rt_fail_mode = 0;
    sym_check((ret == 0 && r == 0) || rt_fail_taken, "load_object fails");
    if (ret || r) {
        sym_reach(ret ? "error" : "error number");
        sym_check(dy_call("load", 4, a, &r) == 0 && r == 0,
                  "load_object fails afterwards");
    }
    sym_check(rd32(8) == n0 + 1 || rt_fail_taken, "constructors");
    h = rd32(RET);
    b[0] = h;
    if (what == 2)
        rt_fail_mode = 1;
    ret = dy_call("res", 5, b, &r);
    rt_fail_mode = 0;
    sym_check((ret == 0 && r == 0) || rt_fail_taken, "resolve_symbol fails");
    if (ret || r) {
        sym_reach(ret ? "error" : "error number");
        sym_check(dy_call("res", 5, b, &r) == 0 && r == 0,
                  "resolve_symbol fails afterwards");
    }
    sym_check(dy_call("run", 0, NULL, &r) == 0 && r == 10, "result");
    sym_reach("end");
    dy_clear();
}
