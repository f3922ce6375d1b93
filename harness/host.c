/*
 * Host functions: arguments and results, linking by signature, guest
 * pointers, errors.
 *
 * params: 0 kind
 *  0 arguments and results (1: way of calling)
 *  1 signature strings (1: length, 2: parameters, 3: results of the import)
 *  2 guest pointers (1: 0 contents, 1 sizes, 2 moving)
 *  3 errors and traps
 *  4 C conventions
 *  5 types as strings
 */
#include <errno.h>
#include <stdlib.h>

#include "cconv.h"
#include "wk.h"

static struct wm m;
static struct wk k;
static struct import_object *imo;
static struct host_instance hi;

static const struct name hname = NAME_FROM_CSTR_LITERAL("h");
static struct host_func hfuncs[] = {
    HOST_FUNC("first", NULL, "()"),
    HOST_FUNC("f", NULL, NULL),
    HOST_FUNC("last", NULL, "(iIfF)FfIi"),
};
static const struct host_module hmod[] = {{
    .module_name = &hname,
    .funcs = hfuncs,
    .nfuncs = 3,
}};

static const char *const ps[] = {"", "i", "I", "f", "F", "iI", "Fi", "IfF",
                                 "iiiiii", "FiIfi"};
static const char *const rs[] = {"", "i", "I", "f", "F", "Ii", "fF",
                                 "iIfFi"};

static struct val args[8], rets[8];
static unsigned np, nr, calls;

static void
mkval(struct val *v, char t)
{
    memset(v, 0, sizeof(*v));
    if (t == 'i' || t == 'f')
        v->u.i32 = sym_u32();
    else
        v->u.i64 = sym_u64();
}
static void
eqval(const struct val *a, const struct val *b, char t, const char *what)
{
    if (t == 'i' || t == 'f')
        sym_check(a->u.i32 == b->u.i32, what);
    else
        sym_check(a->u.i64 == b->u.i64, what);
}
static uint8_t
vt(char t)
{
    return t == 'i' ? T_I32 : t == 'I' ? T_I64 : t == 'f' ? T_F32 : T_F64;
}

static const char *hp, *hr;

static int
host_f(struct exec_context *ctx, struct host_instance *h,
       const struct functype *ft, const struct cell *params,
       struct cell *results)
{
    HOST_FUNC_CONVERT_PARAMS(ft, params);
    sym_check(h == &hi, "the host function gets its instance");
    sym_check(ft->parameter.ntypes == np && ft->result.ntypes == nr,
              "the host function gets its type");
    for (unsigned i = 0; i < np; i++) {
        sym_check(ft->parameter.types[i] == vt(hp[i]), "parameter type");
        eqval(&converted_params[i], &args[i], hp[i],
              "the host function gets the arguments");
    }
    HOST_FUNC_FREE_CONVERTED_PARAMS();
    for (unsigned i = 0; i < nr; i++) {
        sym_check(ft->result.types[i] == vt(hr[i]), "result type");
        if (hr[i] == 'i' || hr[i] == 'f')
            HOST_FUNC_RESULT_SET(ft, results, i, i32, rets[i].u.i32);
        else
            HOST_FUNC_RESULT_SET(ft, results, i, i64, rets[i].u.i64);
    }
    calls++;
    return 0;
}

static char sig[24];

static void
mksig(const char *p, const char *r)
{
    unsigned n = 0;
    sig[n++] = '(';
    while (*p)
        sig[n++] = *p++;
    sig[n++] = ')';
    while (*r)
        sig[n++] = *r++;
    sig[n] = 0;
}

static void
provide(const char *s, host_func_t f)
{
    hfuncs[1].type = s;
    hfuncs[1].func = f;
    wk_init(&k);
    sym_check(import_object_create_for_host_funcs(&k.mctx, hmod, 1, &hi,
                                                  &imo) == 0,
              "host functions are provided");
}
static int
instantiate(void)
{
    struct wb w;
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    return wk_inst(&k, imo);
}
static void
end(void)
{
    if (imo)
        wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
}

static void
values(void)
{
    unsigned way = (unsigned)sym_param(1, 0);
    hp = ps[sym_choice(10)];
    hr = rs[sym_choice(8)];
    np = (unsigned)strlen(hp);
    nr = (unsigned)strlen(hr);
    for (unsigned i = 0; i < np; i++)
        mkval(&args[i], hp[i]);
    for (unsigned i = 0; i < nr; i++)
        mkval(&rets[i], hr[i]);
    mksig(hp, hr);
    provide(sig, host_f);
    wm_init(&m);
    unsigned h = wm_import_fn(&m, "h", "f", hp, hr);
    WB(&m.tab, 1, 0x70, 0, 2);
    WB(&m.elem, 1, 0, 0x41, 1, 0x0b, 1, 0);
    /* in front of the results: something below on the stack */
    static char fr[8];
    unsigned below = way < 2;
    if (below)
        fr[0] = 'I';
    memcpy(fr + below, hr, nr + 1);
    unsigned f = wm_fn(&m, hp, fr, NULL, NULL, 0);
    struct wb *w = wm_code(&m, f);
    if (below)
        WB(w, 0x42, 0xd5, 0x00);
    for (unsigned i = 0; i < np; i++) {
        wb_u8(w, 0x20);
        wb_uleb(w, i);
    }
    switch (way) {
    case 0:
        wb_u8(w, 0x10);
        wb_uleb(w, h);
        break;
    case 1:
        WB(w, 0x41, 1, 0x11);
        wb_uleb(w, wm_type(&m, hp, hr));
        WB(w, 0);
        break;
    case 2:
        wb_u8(w, 0x12);
        wb_uleb(w, h);
        break;
    case 3:
        WB(w, 0x41, 1, 0x13);
        wb_uleb(w, wm_type(&m, hp, hr));
        WB(w, 0);
        break;
    case 4: wb_u8(w, 0x00); break;
    }
    sym_check(instantiate() == 0, "instantiated");
    struct val r[9];
    memset(r, 0, sizeof(r));
    sym_check(wk_call(&k, way == 4 ? h : f, args, r) == 0, "called");
    sym_check(calls == 1, "the host function is called once");
    if (below)
        sym_check(r[0].u.i64 == 0x55, "the stack below is kept");
    for (unsigned i = 0; i < nr; i++)
        eqval(&r[below + i], &rets[i], hr[i], "the caller gets the results");
    end();
    sym_reach("called");
    sym_expect("called");
}

/* ---- signatures ---- */

static bool
letter(char c)
{
    return c == 'i' || c == 'I' || c == 'f' || c == 'F';
}

static void
signatures(void)
{
    unsigned n = (unsigned)sym_param(1, 4);
    const char *p = ps[sym_param(2, 0)], *r = rs[sym_param(3, 0)];
    np = (unsigned)strlen(p);
    nr = (unsigned)strlen(r);
    sym_code((uint8_t *)sig, n);
    for (unsigned i = 0; i < n; i++)
        if (sig[i] == 0)
            sym_end();
    sig[n] = 0;
    bool ok = n >= 2 && sig[0] == '(';
    unsigned close = 0;
    for (unsigned i = 1; ok && i < n; i++)
        if (sig[i] == ')' && close == 0)
            close = i;
        else if (!letter(sig[i]))
            ok = false;
    ok = ok && close;
    hfuncs[1].type = sig;
    hfuncs[1].func = host_f;
    wk_init(&k);
    int ret = import_object_create_for_host_funcs(&k.mctx, hmod, 1, &hi, &imo);
    sym_check((ret == 0) == ok, "accepted exactly if it is a signature");
    wm_init(&m);
    if (ret) {
        imo = NULL;
        sym_check(ret == EINVAL, "an invalid signature is reported");
        sym_reach("invalid");
    } else {
        bool match = close - 1 == np && n - close - 1 == nr;
        for (unsigned i = 0; match && i < np; i++)
            match = sig[1 + i] == p[i];
        for (unsigned i = 0; match && i < nr; i++)
            match = sig[close + 1 + i] == r[i];
        wm_import_fn(&m, "h", "f", p, r);
        ret = instantiate();
        if (match)
            sym_check(ret == 0, "linked to an import of its signature");
        else
            sym_check(ret != 0, "not linked to another signature");
        sym_check((check_functype_with_string(k.m, 0, sig) == 0) == match,
                  "the type compared with a signature");
        if (match)
            sym_reach("match");
    }
    end();
    sym_expect("invalid");
}

/* ---- pointers ---- */

static struct {
    int op, ret, ret2;
    uint32_t ptr, len, align, ptr2;
    void *p, *p2, *base;
    bool moved;
    uint8_t b[8];
    bool nomem;
} a;

static int
host_ptr(struct exec_context *ctx, struct host_instance *h,
         const struct functype *ft, const struct cell *params,
         struct cell *results)
{
    struct meminst *mem = a.nomem ? NULL : cconv_memory(k.inst);
    switch (a.op) {
    case 0: a.ret = host_func_copyin(ctx, mem, a.b, a.ptr, a.len, a.align); break;
    case 1:
        a.ret = host_func_copyout(ctx, mem, a.b, a.ptr, a.len, a.align);
        break;
    case 2: a.ret = host_func_getptr(ctx, mem, a.ptr, a.len, &a.p); break;
    case 3: a.ret = host_func_check_align(ctx, a.ptr, a.align); break;
    case 4: {
        a.ret = host_func_getptr2(ctx, mem, a.ptr, a.len, &a.p, &a.moved);
        if (a.ret)
            break;
        a.moved = false;
        /* the first pointer is usable until something has moved */
        a.ret2 = host_func_getptr2(ctx, mem, a.ptr2, a.len, &a.p2, &a.moved);
        if (a.ret2)
            return a.ret2;
        if (a.moved) {
            a.ret = host_func_getptr2(ctx, mem, a.ptr, a.len, &a.p, NULL);
            sym_reach("moved");
        }
        if (a.ret == 0) {
            memset(a.p, 0x11, a.len);
            memset(a.p2, 0x22, a.len);
        }
        break;
    }
    }
    if (mem)
        a.base = mem->data;
    return a.ret;
}

static void
pointers(void)
{
    unsigned what = (unsigned)sym_param(1, 0);
    provide("()", host_ptr);
    wm_init(&m);
    wm_import_fn(&m, "h", "f", "", "");
    /* the conventional memory is the second one, of 20 or 131072 bytes */
    unsigned large = what == 1 || what == 2 ? sym_choice(2) : 0;
    uint32_t size;
    uint8_t init[20];
    for (unsigned i = 0; i < 20; i++)
        init[i] = (uint8_t)(i * 7 + 1);
    if (large) {
        WB(&m.mem, 2, 0, 0, 0, 2);
        size = 131072;
    } else {
        WB(&m.mem, 2, 0, 0, 8, 20, 0);
        size = 20;
        if (what != 2) {
            WB(&m.data, 1, 2, 1, 0x41, 0, 0x0b, 20);
            wb_raw(&m.data, init, 20);
        }
    }
    wm_export(&m, "memory", 2, 1);
    /* load from the memory */
    WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0x40, 1, 0);
    sym_check(instantiate() == 0, "instantiated");
    if (what == 1 && large) {
        /* materialise all of the memory */
        uint32_t last = size - 1, v;
        sym_check(wk_call_i32(&k, 1, 1, &last, &v) == 0, "load");
    }
    static const uint32_t aligns[] = {1, 2, 4, 8, 16};
    int want = 0, trap = -1;
    a.ptr = sym_u32();
    if (what == 0) {
        a.op = (int)sym_choice(2);
        a.len = sym_choice(3) * 3;
        a.align = aligns[sym_choice(5)];
        sym_bytes(a.b, sizeof(a.b));
    } else if (what == 1) {
        a.op = 2 + (int)sym_choice(2);
        if (a.op == 2) {
            a.len = sym_u32();
            a.nomem = sym_choice(2);
            a.align = 1;
        } else {
            a.len = 0;
            a.align = aligns[sym_choice(5)];
        }
    } else {
        a.op = 4;
        a.align = 1;
        a.len = 3;
        sym_assume(a.ptr < size + 2);
        a.ptr = (uint32_t)sym_concretize(a.ptr < 12 ? a.ptr : large ? 70000 : 19);
        static const uint32_t p2[] = {0, 14, 17, 18, 65535, 131069, 131070};
        a.ptr2 = p2[sym_choice(7)];
    }
    uint8_t before[8];
    memcpy(before, a.b, sizeof(before));
    if (a.ptr & (a.align - 1)) {
        want = ETOYWASMTRAP;
        trap = TRAP_UNALIGNED_MEMORY_ACCESS;
    } else if (a.op != 3 && a.nomem) {
        want = ETOYWASMTRAP;
        trap = TRAP_MEMORY_NOT_FOUND;
    } else if (a.op != 3 && ((uint64_t)a.ptr + a.len > size ||
                             (a.op == 4 && (uint64_t)a.ptr2 + a.len > size))) {
        want = ETOYWASMTRAP;
        trap = TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS;
    }
    int ret = wk_call(&k, 0, NULL, NULL);
    sym_check(ret == want, "accesses outside the memory trap, others succeed");
    sym_check(k.trap == trap, "the kind of the trap");
    if (ret == 0) {
        sym_reach("valid");
        if (a.op == 2)
            sym_check((uint8_t *)a.p == (uint8_t *)a.base + a.ptr,
                      "the pointer into the memory");
    }
    if (what == 0) {
        for (uint32_t i = 0; i < 20; i++) {
            uint32_t v;
            sym_check(wk_call_i32(&k, 1, 1, &i, &v) == 0, "load");
            bool in = ret == 0 && a.op == 1 && i >= a.ptr && i - a.ptr < a.len;
            sym_check(v == (in ? before[(i - a.ptr) & 7] : init[i]),
                      "the memory's contents");
        }
        for (unsigned i = 0; i < 8; i++) {
            bool in = ret == 0 && a.op == 0 && i < a.len;
            uint8_t e = before[i];
            if (in)
                e = init[(a.ptr + i) % 20];
            sym_check(a.b[i] == e, "the host's buffer");
        }
    } else if (what == 2 && ret == 0) {
        for (unsigned i = 0; i < 3; i++) {
            uint32_t v, p = a.ptr + i;
            bool over = p - a.ptr2 < 3;
            sym_check(wk_call_i32(&k, 1, 1, &p, &v) == 0 &&
                          v == (over ? 0x22 : 0x11),
                      "stored through the first pointer");
            p = a.ptr2 + i;
            sym_check(wk_call_i32(&k, 1, 1, &p, &v) == 0 && v == 0x22,
                      "stored through the second pointer");
        }
    }
    end();
    sym_expect("valid");
}

/* ---- errors ---- */

static int err, how, id;

static int
host_err(struct exec_context *ctx, struct host_instance *h,
         const struct functype *ft, const struct cell *params,
         struct cell *results)
{
    calls++;
    switch (how) {
    case 0: return err;
    case 1: return trap_with_id(ctx, id, "trap");
    default: return host_func_trap(ctx, "trap %d", 1);
    }
}

static void
errors(void)
{
    provide("(i)i", host_err);
    wm_init(&m);
    unsigned h = wm_import_fn(&m, "h", "f", "i", "i");
    WB(&m.tab, 1, 0x70, 0, 1);
    WB(&m.elem, 1, 0, 0x41, 0, 0x0b, 1, 0);
    how = (int)sym_choice(3);
    if (how == 0) {
        err = (int)sym_u32();
        sym_assume(err > 0);
    } else if (how == 1) {
        static const int ids[] = {TRAP_MISC, TRAP_VOLUNTARY_EXIT,
                                  TRAP_VOLUNTARY_THREAD_EXIT,
                                  TRAP_UNREACHABLE, TRAP_MEMORY_NOT_FOUND};
        id = ids[sym_choice(5)];
    } else
        id = TRAP_MISC;
    unsigned way = sym_choice(6);
    /* neither handlers nor the following code run */
    WB(&m.glob, 1, 0x7f, 1, 0x41, 0, 0x0b);
    unsigned f;
    switch (way) {
    default:
        f = WMF(&m, "i", "i", NULL, 0x20, 0, 0x10, 0, 0x41, 1, 0x24, 0);
        break;
    case 1:
        f = WMF(&m, "i", "i", NULL, 0x20, 0, 0x41, 0, 0x11, 0, 0, 0x41, 1,
                0x24, 0);
        break;
    case 2: f = WMF(&m, "i", "i", NULL, 0x20, 0, 0x12, 0); break;
    case 3:
        /* block try_table (catch_all 0) */
        f = WMF(&m, "i", "i", NULL, 0x02, 0x40, 0x1f, 0x40, 1, 2, 0, 0x20, 0,
                0x10, 0, 0x1a, 0x0b, 0x0b, 0x41, 1, 0x24, 0, 0x41, 5);
        break;
    case 4: f = h; break;
    }
    unsigned g = WMF(&m, "", "i", NULL, 0x23, 0);
    if (way == 5) {
        unsigned s = wm_fn(&m, "", "", NULL, NULL, 0);
        struct wb *w = wm_code(&m, s);
        WB(w, 0x41, 3, 0x10, 0, 0x1a);
        m.start = (int)s;
    }
    int ret = instantiate();
    int want = how ? ETOYWASMTRAP : err;
    if (way == 5) {
        sym_check(ret == want, "instantiation reports the error");
    } else {
        sym_check(ret == 0, "instantiated");
        struct val v, r;
        memset(&v, 0, sizeof(v));
        ret = wk_call(&k, f, &v, &r);
        sym_check(ret == want, "the embedder gets the error");
        sym_check(k.trap == (how ? id : -1), "the embedder gets the trap");
        uint32_t x;
        sym_check(wk_call_i32(&k, g, 0, NULL, &x) == 0 && x == 0,
                  "nothing else is executed");
    }
    sym_check(calls == 1, "the host function is called once");
    end();
    sym_reach("error");
    sym_expect("error");
}

/* ---- C conventions ---- */

static const struct tableinst *tab;
static uint32_t fptr;
static const struct funcinst *found;

static int
host_deref(struct exec_context *ctx, struct host_instance *h,
           const struct functype *ft, const struct cell *params,
           struct cell *results)
{
    return cconv_deref_func_ptr(ctx, tab, fptr, ft, &found);
}

static void
conventions(void)
{
    provide("()", host_deref);
    wm_init(&m);
    wm_import_fn(&m, "h", "f", "", "");
    unsigned f = WMF(&m, "", "", NULL, 0x01);
    unsigned g = WMF(&m, "i", "", NULL, 0x01);
    unsigned variant = sym_choice(6);
    WB(&m.mem, 2, 0, 0, 0, 1);
    unsigned memidx = sym_choice(2);
    WB(&m.tab, 3, 0x70, 0, 1, 0x70, 0, 5, 0x6f, 0, 1);
    WB(&m.elem, 1, 2, 1, 0x41, 1, 0x0b, 0, 3);
    wb_uleb(&m.elem, f);
    wb_uleb(&m.elem, g);
    wb_uleb(&m.elem, 0);
    WB(&m.glob, 1, 0x7f, 0, 0x41, 0, 0x0b);
    bool has_mem = false, has_tab = false;
    switch (variant) {
    case 0:
        wm_export(&m, "memory", 2, memidx);
        has_mem = true;
        wm_export(&m, "__indirect_function_table", 1, 1);
        has_tab = true;
        break;
    case 1:
        wm_export(&m, "memory", 0, f);
        wm_export(&m, "__indirect_function_table", 1, 2);
        break;
    case 2:
        wm_export(&m, "memorz", 2, memidx);
        wm_export(&m, "__indirect_function_table", 3, 0);
        break;
    case 3: break;
    case 4:
        wm_export(&m, "a", 2, 1 - memidx);
        wm_export(&m, "memory", 2, memidx);
        wm_export(&m, "z", 1, 0);
        has_mem = true;
        break;
    case 5:
        wm_export(&m, "__indirect_function_table", 1, 1);
        wm_export(&m, "memor", 2, memidx);
        has_tab = true;
        break;
    }
    sym_check(instantiate() == 0, "instantiated");
    struct meminst *mem = cconv_memory(k.inst);
    sym_check(mem == (has_mem ? VEC_ELEM(k.inst->mems, memidx) : NULL),
              "the memory exported as \"memory\"");
    tab = cconv_func_table(k.inst);
    sym_check(tab == (has_tab ? VEC_ELEM(k.inst->tables, 1) : NULL),
              "the function table");
    fptr = sym_u32();
    int ret = wk_call(&k, 0, NULL, NULL);
    int trap = !has_tab               ? TRAP_INDIRECT_FUNCTION_TABLE_NOT_FOUND
               : fptr >= 5            ? TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS
               : fptr == 0 || fptr == 4 ? TRAP_CALL_INDIRECT_NULL_FUNCREF
               : fptr == 2            ? TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH
                                      : -1;
    sym_check(ret == (trap < 0 ? 0 : ETOYWASMTRAP) && k.trap == trap,
              "a function pointer is valid exactly for such a function");
    if (ret == 0) {
        uint32_t i = fptr == 1 ? f : 0;
        sym_check(found == VEC_ELEM(k.inst->funcs, i), "the function");
        sym_reach("function");
    }
    end();
    sym_expect("function");
}

/* ---- types as strings ---- */

static void
strings(void)
{
    static const char *const tp[] = {"", "iIfF", "vrex", "FFFF", "r"};
    static const char *const ts[] = {"", "iIfF", "vcex", "FFFF", "c"};
    unsigned x = sym_choice(5), y = sym_choice(5);
    wm_init(&m);
    wk_init(&k);
    wm_import_fn(&m, "h", "f", tp[x], tp[y]);
    struct wb w;
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    mksig(ts[x], ts[y]);
    char *s = NULL;
    rt_fail_mode = 1;
    int ret = functype_to_string(&s, module_functype(k.m, 0));
    rt_fail_mode = 0;
    sym_check(ret == (rt_fail_taken ? ENOMEM : 0), "result");
    if (ret == 0) {
        sym_check(!strcmp(s, sig), "the type as a string");
        functype_string_free(s);
    }
    bool simple = (x < 2 || x == 3) && (y < 2 || y == 3);
    sym_check((check_functype_with_string(k.m, 0, sig) == 0) == simple,
              "compared with its own string");
    end();
    sym_reach("string");
    sym_expect("string");
}

void
harness_main(void)
{
    hfuncs[0].func = host_f;
    hfuncs[2].func = host_f;
    switch (sym_param(0, 0)) {
    case 0: values(); break;
    case 1: signatures(); break;
    case 2: pointers(); break;
    case 3: errors(); break;
    case 4: conventions(); break;
    case 5: strings(); break;
    }
}
