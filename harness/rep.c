/*
 * C08: branches which are executed again and again, with different outcomes,
 * and branches in turns with those of another module.
 *
 * params: 0 kind, 1 load options, 2 padding, 3 iterations
 *   0: a loop around branches of every kind
 *   1: the same, with calls of a function of another module (whose code has
 *      other targets at the same places) between the branches
 *   2: drop and select of values of different sizes
 */
#include "wk.h"

static struct wb *o;
static unsigned pad, callee;
static int calls;

/* local 0: condition bits, 1: hash, 2: iterations left */
static void
mark(unsigned v)
{
    WB(o, 0x20, 1, 0x41, 31, 0x6c, 0x41);
    wb_sleb(o, v);
    WB(o, 0x6a, 0x21, 1);
}
static void
bit(unsigned b)
{
    WB(o, 0x20, 0, 0x41);
    wb_sleb(o, b);
    WB(o, 0x76, 0x41, 1, 0x71);
}
static void
nops(unsigned n)
{
    while (n--)
        wb_u8(o, 1);
}
static void
call(void)
{
    if (calls) {
        WB(o, 0x20, 0, 0x20, 1, 0x10);
        wb_uleb(o, callee);
        WB(o, 0x21, 1);
    }
}
#define BITS 8
/* swap: the same length, other targets */
static void
body(int swap)
{
    WB(o, 0x03, 0x40); /* loop */
    nops(pad);
    bit(0);
    WB(o, 0x04, 0x40); /* if */
    if (swap) {
        nops(9);
        mark(1);
        wb_u8(o, 0x05);
        mark(2);
    } else {
        mark(1);
        wb_u8(o, 0x05);
        nops(9);
        mark(2);
    }
    wb_u8(o, 0x0b);
    call();
    /* block with a value: br_if out of it */
    WB(o, 0x02, 0x7f);
    WB(o, 0x41, 40);
    bit(1);
    WB(o, 0x0d, 0, 0x1a);
    if (swap)
        nops(4);
    mark(3);
    if (!swap)
        nops(4);
    WB(o, 0x41, 41, 0x0b);
    WB(o, 0x20, 1, 0x6a, 0x21, 1);
    /* if without else, left in the middle */
    bit(2);
    WB(o, 0x04, 0x40);
    mark(4);
    bit(3);
    WB(o, 0x0d, 0);
    nops(swap ? 2 : 7);
    mark(5);
    nops(swap ? 7 : 2);
    wb_u8(o, 0x0b);
    call();
    /* br_table out of two blocks or to the loop */
    WB(o, 0x20, 2, 0x41, 1, 0x6b, 0x21, 2);
    WB(o, 0x20, 0, 0x41, BITS, 0x76, 0x21, 0);
    WB(o, 0x02, 0x40, 0x02, 0x40);
    /* the bits have been shifted out of local 0 */
    WB(o, 0x20, 3, 0x41, 4, 0x76, 0x41, 3, 0x71);
    WB(o, 0x0e, 2, 0, 1, 1, 0x0b);
    if (swap)
        nops(3);
    mark(6);
    if (!swap)
        nops(3);
    wb_u8(o, 0x0b);
    mark(7);
    WB(o, 0x20, 0, 0x21, 3); /* copy for the next iteration */
    WB(o, 0x20, 2, 0x0d, 0, 0x0b);
    WB(o, 0x20, 1);
}
static uint32_t
ref(uint32_t c, uint32_t h, unsigned it, int inner)
{
#define M(v) (h = h * 31 + (v))
#define CALL                                                                 \
    do {                                                                     \
        if (inner)                                                           \
            h = ref(c, h, 1, 0);                                             \
    } while (0)
    while (it--) {
        M((c & 1) ? 1 : 2);
        CALL;
        if (c & 2) {
            h += 40;
        } else {
            M(3);
            h += 41;
        }
        if (c & 4) {
            M(4);
            if (!(c & 8))
                M(5);
        }
        CALL;
        if ((c >> 4 & 3) == 0)
            M(6);
        M(7);
        c >>= BITS;
    }
    return h;
}
static void
make(struct wm *m, int swap, unsigned it)
{
    wm_init(m);
    callee = wm_import_fn(m, "x", "f", "ii", "i");
    wm_export(m, "f", 0, 1);
    struct wb b;
    wb_init(&b, 512);
    o = &b;
    WB(o, 0x41);
    wb_sleb(o, it);
    WB(o, 0x21, 2, 0x20, 0, 0x21, 3);
    body(swap);
    unsigned f = wm_fn(m, "ii", "i", "ii", b.b, b.n);
    if (f != 1)
        sym_fail_("harness: index");
    wb_fini(&b);
}
static int
dummy(struct exec_context *ctx, struct host_instance *hi,
      const struct functype *ft, const struct cell *params,
      struct cell *results)
{
    return 0;
}
static void
loops(int two)
{
    unsigned it = (unsigned)sym_param(3, 2);
    struct wm a, b;
    struct wk ka, kb;
    struct wb w;
    struct funcinst fi;
    static const struct name xn = NAME_FROM_CSTR_LITERAL("x"),
                             fnn = NAME_FROM_CSTR_LITERAL("f");
    struct import_object *h, *ib;
    calls = 0;
    make(&b, 1, 1);
    wm_emit(&b, &w);
    wk_init(&kb);
    sym_check(wk_load(&kb, w.b, w.n) == 0, "the module is accepted");
    fi.is_host = true;
    fi.u.host.type = module_functype(kb.m, 0);
    fi.u.host.func = dummy;
    fi.u.host.instance = NULL;
    if (import_object_alloc(&kb.mctx, 1, &h))
        sym_fail_("harness: import object");
    h->entries[0].module_name = &xn;
    h->entries[0].name = &fnn;
    h->entries[0].type = EXTERNTYPE_FUNC;
    h->entries[0].u.func = &fi;
    sym_check(wk_inst(&kb, h) == 0, "instantiation");
    wb_fini(&w);
    ib = wk_exports(&kb, kb.inst, "x", NULL);
    calls = two;
    make(&a, 0, it);
    wm_emit(&a, &w);
    wk_init(&ka);
    sym_check(wk_load(&ka, w.b, w.n) == 0, "the module is accepted");
    sym_check(wk_inst(&ka, ib) == 0, "instantiation");
    wb_fini(&w);
    uint32_t p[2] = {0, 7}, r;
    for (unsigned i = 0; i < it; i++)
        p[0] |= (uint32_t)sym_u8() << BITS * i;
    sym_check(wk_call_i32(&ka, 1, 2, p, &r) == 0, "the function returns");
    sym_check(r == ref(p[0], 7, it, two), "the branches taken");
    sym_reach("done");
    wk_fini(&ka);
    wk_imports_destroy(&kb, ib);
    wk_imports_destroy(&kb, h);
    wk_fini(&kb);
    wm_fini(&a);
    wm_fini(&b);
}
/* ---- drop and select ---- */
static const char tys[] = "iIvFfre";
static void
sizes(void)
{
    struct wm m;
    struct wk k;
    struct wb w;
    unsigned n = (unsigned)sym_param(3, 3);
    wm_init(&m);
    wb_init(&w, 256);
    o = &w;
    char loc[32];
    /* parameters: i I v F f r e, then the results; i: condition */
    unsigned ty[6], op[6];
    for (unsigned i = 0; i < n; i++) {
        ty[i] = (unsigned)sym_choice(7);
        op[i] = (unsigned)sym_choice(ty[i] < 5 ? 3 : 2);
    }
    static char res[8];
    unsigned nr = 0;
    nops(pad);
    /*
     * values of every size below; then for each i a value and another one,
     * which is dropped or selected
     */
    for (unsigned i = 0; i < n; i++) {
        /* local 0: first, 7 + ty: second */
        wb_u8(o, 0x20);
        wb_uleb(o, ty[i]);
        wb_u8(o, 0x20);
        wb_uleb(o, 7 + ty[i]);
        if (op[i] == 0) {
            wb_u8(o, 0x1a);
        } else {
            /* condition: bit i of local 14 */
            WB(o, 0x20, 14, 0x41);
            wb_sleb(o, i);
            WB(o, 0x76, 0x41, 1, 0x71);
            if (op[i] == 2) {
                wb_u8(o, 0x1b);
            } else {
                WB(o, 0x1c, 1);
                char s[2] = {tys[ty[i]], 0};
                struct wb x;
                wb_init(&x, 8);
                wb_types(&x, s);
                wb_raw(o, x.b + x.n - 1, 1);
                wb_fini(&x);
            }
        }
        res[nr++] = tys[ty[i]];
    }
    res[nr] = 0;
    (void)loc;
    static char par[16] = "iIvFfreiIvFfrei";
    unsigned f = wm_fn(&m, par, res, NULL, w.b, w.n);
    wb_fini(&w);
    wk_opts = (unsigned)sym_param(1, 0);
    wm_must(&m, &k);
    struct val a[15], r[6];
    memset(a, 0, sizeof(a));
    memset(r, 0, sizeof(r));
    for (unsigned i = 0; i < 14; i++) {
        char t = tys[i % 7];
        if (t == 'r')
            a[i].u.funcref.func = i < 7 ? NULL : VEC_ELEM(k.inst->funcs, 0);
        else if (t == 'e')
            a[i].u.externref = (void *)(uintptr_t)(0x1234567890ull + i);
        else if (t == 'i' || t == 'f')
            a[i].u.i32 = 0x1111111 * (i + 1);
        else
            a[i].u.i64 = 0x1111111111111111ull * i + i;
        if (t == 'v')
            memset(&a[i].u.v128, 0x40 + (int)i, 16);
    }
    a[14].u.i32 = sym_u32();
    sym_check(wk_call(&k, f, a, r) == 0, "the function returns");
    for (unsigned i = 0; i < n; i++) {
        unsigned x = ty[i];
        if (op[i] && !(a[14].u.i32 >> i & 1))
            x += 7;
        unsigned sz = tys[ty[i]] == 'v' ? 16
                      : tys[ty[i]] == 'i' || tys[ty[i]] == 'f' ? 4 : 8;
        sym_check(!memcmp(&r[i].u, &a[x].u, sz), "the value");
    }
    sym_reach("done");
    wk_fini(&k);
    wm_fini(&m);
}
void
harness_main(void)
{
    wk_opts = (unsigned)sym_param(1, 0);
    pad = (unsigned)sym_param(2, 0);
    switch (sym_param(0, 0)) {
    case 0:
    case 1:
        loops((int)sym_param(0, 0));
        break;
    default:
        sizes();
    }
    sym_check(rt_live == 0, "nothing remains allocated");
}
