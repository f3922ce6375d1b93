/*
 * Locals, globals, and the limits on frames and stack cells.
 *
 * params: 0 kind, 1 load options, 2 variant
 * kinds: 0 locals: one is set (1: tee), another is read
 *        2 many locals (beyond 2^16 cells)
 *        3 globals
 *        4 limit on frames, recursion
 *        5 limit on frames, tail calls
 *        6 limit on stack cells
 *        7 tail calls between functions of different sizes
 *        8 recursion with locals
 *        9 many locals
 *        10 many parameters (beyond 2^16 cells)
 */
#include <stdlib.h>

#include "wk.h"

static const char tys[] = "iIvFfer";

static unsigned
size(char t)
{
    return t == 'i' || t == 'f' ? 4 : t == 'v' ? 16 : 8;
}
static void
leb(struct wb *b, uint8_t op, uint32_t i)
{
    wb_u8(b, op);
    wb_uleb(b, i);
}
static char *
str(char c)
{
    static char s[8][2];
    static unsigned n;
    char *p = s[n++ % 8];
    p[0] = c;
    p[1] = 0;
    return p;
}
static char one[2][2];

static void
locals(bool tee, bool many)
{
    /* parameters, then chunks of locals */
    static const char *params[] = {"i", "vi", "Iev", "iIFv", "ff"};
    uint32_t cn[3];
    char ct[3];
    struct wb w;
    const char *p = params[many ? 0 : sym_choice(5)];
    uint32_t np = (uint32_t)strlen(p), total = np;
    static const uint32_t big[] = {16383, 16384, 16385, 32768, 65535, 65536};
    unsigned nc = many ? 2 : 2;
    for (unsigned i = 0; i < nc; i++) {
        cn[i] = many ? i == 0 ? big[sym_choice(6)] : 2 : sym_choice(3 + i);
        ct[i] = many ? i == 0 ? "vI"[sym_choice(2)] : 'i'
                     : i == 0 ? "iv"[sym_choice(2)] : 'I';
        total += cn[i];
    }
    /* the written and the read one */
    uint32_t s, g;
    if (many) {
        uint32_t c[] = {0, 1, 2, total / 2, total - 4, total - 3, total - 2,
                        total - 1};
        s = c[sym_choice(8)];
        g = c[sym_choice(2) ? 7 : 5];
        if (sym_choice(2))
            g = s;
    } else {
        s = sym_choice(total);
        g = sym_choice(total);
    }
    char st = 0, gt = 0;
    uint32_t base = np;
    if (s < np)
        st = p[s];
    if (g < np)
        gt = p[g];
    for (unsigned i = 0; i < nc; i++) {
        if (s >= base && s < base + cn[i])
            st = ct[i];
        if (g >= base && g < base + cn[i])
            gt = ct[i];
        base += cn[i];
    }
    wb_init(&w, 512);
    wb_header(&w);
    wb_sec(&w, 1);
    wb_u8(&w, 2);
    /* f(params) -> the read local; the value written comes from a global */
    wb_functype(&w, p, str(gt));
    wb_functype(&w, str(st), "");
    wb_close(&w);
    wb_sec(&w, 3);
    WB(&w, 2, 0, 1);
    wb_close(&w);
    wb_sec(&w, 6);
    wb_u8(&w, 1);
    one[0][0] = st;
    static const uint8_t tc[] = {T_I32, T_I64, T_V128, T_F64,
                                 T_F32, T_EXTERNREF, T_FUNCREF};
    unsigned ti = 0;
    while (tys[ti] != st)
        ti++;
    wb_u8(&w, tc[ti]);
    wb_u8(&w, 1);
    switch (st) {
    case 'i': WB(&w, 0x41, 0); break;
    case 'I': WB(&w, 0x42, 0); break;
    case 'f': WB(&w, 0x43, 0, 0, 0, 0); break;
    case 'F': WB(&w, 0x44, 0, 0, 0, 0, 0, 0, 0, 0); break;
    case 'v':
        WB(&w, 0xfd, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
        break;
    case 'e': WB(&w, 0xd0, T_EXTERNREF); break;
    }
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_sec(&w, 10);
    wb_u8(&w, 2);
    wb_open(&w);
    wb_u8(&w, nc);
    for (unsigned i = 0; i < nc; i++) {
        wb_uleb(&w, cn[i]);
        unsigned j = 0;
        while (tys[j] != ct[i])
            j++;
        wb_u8(&w, tc[j]);
    }
    leb(&w, 0x23, 0);
    if (tee) {
        leb(&w, 0x22, s);
        leb(&w, 0x24, 0);
    } else
        leb(&w, 0x21, s);
    leb(&w, 0x20, g);
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_open(&w);
    wb_u8(&w, 0);
    leb(&w, 0x20, 0);
    leb(&w, 0x24, 0);
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_close(&w);
    struct wk k;
    wk_must(&k, &w);
    wb_fini(&w);
    struct val v, a[4], r, zero;
    memset(&v, 0, sizeof(v));
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    memset(&zero, 0, sizeof(zero));
    sym_bytes(&v, size(st));
    for (uint32_t i = 0; i < np; i++)
        sym_bytes(&a[i], size(p[i]));
    sym_check(wk_call(&k, 1, &v, NULL) == 0, "global set");
    sym_check(wk_call(&k, 0, a, &r) == 0, "the call returns");
    const struct val *e = s == g ? &v : g < np ? &a[g] : &zero;
    sym_check(memcmp(&r, e, size(gt)) == 0,
              "a local holds the last value assigned to it");
    sym_observe(r.u.i32);
    wk_fini(&k);
    sym_reach("done");
}

static void
globals(void)
{
    /* two imported, four own globals of different sizes */
    static const char gt[] = "iIvFIi";
    struct wm m, e;
    struct wk k, ek;
    struct wb w;
    uint8_t init[6][16];
    wm_init(&e);
    wb_u8(&e.glob, 2);
    WB(&e.glob, T_I32, 1, 0x41, 0, 0x0b, T_I64, 1, 0x42, 0, 0x0b);
    WMF(&e, "", "i", NULL, 0x23, 0);
    WMF(&e, "", "I", NULL, 0x23, 1);
    wm_export(&e, "a", 3, 0);
    wm_export(&e, "b", 3, 1);
    wm_must(&e, &ek);
    wm_init(&m);
    wm_import(&m, "m", "a", 3);
    WB(&m.imp, T_I32, 1);
    wm_import(&m, "m", "b", 3);
    WB(&m.imp, T_I64, 1);
    memset(init, 0, sizeof(init));
    WB(&m.glob, 4, T_V128, 1, 0xfd, 12);
    for (int i = 0; i < 16; i++) {
        init[2][i] = (uint8_t)(0x11 * i);
        wb_u8(&m.glob, init[2][i]);
    }
    WB(&m.glob, 0x0b, T_F64, 1, 0x44, 1, 2, 3, 4, 5, 6, 7, 8, 0x0b, T_I64, 1,
       0x42, 0x7f, 0x0b, T_I32, 1, 0x41, 5, 0x0b);
    for (int i = 0; i < 8; i++) {
        init[3][i] = (uint8_t)(i + 1);
        init[4][i] = 0xff;
    }
    init[5][0] = 5;
    unsigned fs[6], fg[6];
    for (unsigned i = 0; i < 6; i++) {
        static char s[6][2];
        s[i][0] = gt[i];
        fs[i] = wm_fn(&m, s[i], "", NULL, NULL, 0);
        leb(wm_code(&m, fs[i]), 0x20, 0);
        leb(wm_code(&m, fs[i]), 0x24, i);
        fg[i] = wm_fn(&m, "", s[i], NULL, NULL, 0);
        leb(wm_code(&m, fg[i]), 0x23, i);
    }
    wm_emit(&m, &w);
    wk_init(&k);
    struct import_object *im = wk_exports(&k, ek.inst, "m", NULL);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    sym_check(wk_inst(&k, im) == 0, "the module can be instantiated");
    wb_fini(&w);
    struct val v, r;
    for (unsigned step = 0; step < 2; step++) {
        unsigned i = sym_choice(6);
        memset(&v, 0, sizeof(v));
        sym_bytes(&v, size(gt[i]));
        memcpy(init[i], &v, size(gt[i]));
        sym_check(wk_call(&k, fs[i], &v, NULL) == 0, "global.set");
    }
    for (unsigned i = 0; i < 6; i++) {
        memset(&r, 0, sizeof(r));
        sym_check(wk_call(&k, fg[i], NULL, &r) == 0, "global.get");
        sym_check(memcmp(&r, init[i], size(gt[i])) == 0,
                  "a global holds the last value assigned to it");
        if (i < 2) {
            memset(&r, 0, sizeof(r));
            sym_check(wk_call(&ek, i, NULL, &r) == 0, "global.get");
            sym_check(memcmp(&r, init[i], size(gt[i])) == 0,
                      "an imported global is the exporter's");
        }
    }
    wk_imports_destroy(&k, im);
    wk_fini(&k);
    wk_fini(&ek);
    wm_fini(&m);
    wm_fini(&e);
    sym_reach("done");
}

/* f(n) = n == 0 ? 0 : f(n - 1) + n (not a tail call) */
static void
frames(void)
{
    struct wm m;
    struct wk k;
    wm_init(&m);
    WMF(&m, "i", "i", NULL, 0x20, 0, 0x45, 0x04, T_I32, 0x41, 0, 0x05, 0x20,
        0, 0x41, 1, 0x6b, 0x10, 0, 0x20, 0, 0x6a, 0x0b);
    wm_must(&m, &k);
    uint32_t n = sym_u8(), lim = 1 + sym_choice(6), r = 0;
    sym_assume(n < 8);
    wk_max_frames = lim;
    int ret = wk_call_i32(&k, 0, 1, &n, &r);
    if (n + 1 <= lim) {
        sym_check(ret == 0, "calls within the limit succeed");
        sym_check(r == n * (n + 1) / 2, "recursion computes the sum");
        sym_reach("fits");
    } else {
        sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_TOO_MANY_FRAMES,
                  "exceeding the frame limit traps");
        sym_reach("exceeds");
    }
    /* and the context is usable again */
    n = 0;
    sym_check(wk_call_i32(&k, 0, 1, &n, &r) == 0 && r == 0,
              "the instance is usable after the trap");
    wk_fini(&k);
    wm_fini(&m);
    sym_expect("fits");
    sym_expect("exceeds");
}

/* f(n, acc) = n == 0 ? acc : f(n - 1, acc + n) as a tail call */
static void
tail(void)
{
    struct wm m;
    struct wk k;
    unsigned way = sym_choice(2);
    wm_init(&m);
    unsigned f = WMF(&m, "ii", "i", NULL, 0x20, 0, 0x45, 0x04, 0x40, 0x20, 1,
                     0x0f, 0x0b, 0x20, 0, 0x41, 1, 0x6b, 0x20, 0, 0x20, 1,
                     0x6a);
    if (way == 0)
        WB(wm_code(&m, f), 0x12, 0);
    else {
        WB(wm_code(&m, f), 0x41, 0, 0x13, 0, 0);
        WB(&m.tab, 1, T_FUNCREF, 0, 1);
        WB(&m.elem, 1, 0, 0x41, 0, 0x0b, 1, 0);
    }
    wm_must(&m, &k);
    uint32_t a[2] = {sym_u8(), sym_u32()}, r = 0;
    sym_assume(a[0] < 20);
    wk_max_frames = 1;
    wk_max_cells = 40;
    uint32_t n = a[0];
    int ret = wk_call_i32(&k, 0, 2, a, &r);
    sym_check(ret == 0, "tail calls do not consume frames");
    sym_check(r == a[1] + n * (n + 1) / 2, "tail recursion computes the sum");
    wk_fini(&k);
    wm_fini(&m);
    sym_reach("done");
}

/*
 * Recursion depth n of a function whose frame holds l locals and o operands.
 * Each active frame needs at least the operands below the call, and at most
 * all of its locals and operands.
 */
static void
cells(void)
{
    struct wm m;
    struct wk k;
    char loc[8];
    unsigned nl = sym_choice(4);
    unsigned i;
    uint32_t lc = 1;
    for (i = 0; i < nl; i++) {
        loc[i] = "Iv"[i % 2];
        lc += i % 2 ? 4 : 2;
    }
    loc[i] = 0;
    wm_init(&m);
    /* n + 1 levels; one i64 below the call */
    WMF(&m, "i", "i", loc, 0x20, 0, 0x45, 0x04, T_I32, 0x41, 0, 0x05, 0x42, 9,
        0x20, 0, 0x41, 1, 0x6b, 0x10, 0, 0x20, 0, 0x6a, 0x21, 0, 0x1a, 0x20,
        0, 0x0b);
    wm_must(&m, &k);
    uint32_t n = sym_u8(), lim = sym_u8(), r = 0;
    sym_assume(n < 5);
    sym_assume(lim >= 1 && lim < 64);
    lim = (uint32_t)sym_concretize(lim);
    wk_max_cells = lim;
    int ret = wk_call_i32(&k, 0, 1, &n, &r);
    /* (the locals may be held elsewhere) */
    uint32_t least = n * 2;
    /* most operands at once: i64, i32, i32 */
    uint32_t most = (n + 1) * (lc + 4);
    if (ret == 0) {
        sym_check(least <= lim, "the stack limit is not exceeded");
        sym_check(r == n * (n + 1) / 2, "recursion computes the sum");
        sym_reach("fits");
    } else {
        sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_TOO_MANY_STACKCELLS,
                  "exceeding the stack limit traps");
        sym_check(most > lim, "calls within the stack limit succeed");
        sym_reach("exceeds");
    }
    wk_max_cells = 0;
    n = 3;
    sym_check(wk_call_i32(&k, 0, 1, &n, &r) == 0 && r == 6,
              "the instance is usable after the trap");
    wk_fini(&k);
    wm_fini(&m);
    sym_expect("fits");
    sym_expect("exceeds");
}

/* a(n, x) -> b(x + 1, 7, n - 1) -> a ... of different frame sizes */
static void
sizes(void)
{
    struct wm m;
    struct wk k;
    wm_init(&m);
    unsigned fin = sym_choice(2);
    /* 0: (i I) -> I  locals v */
    unsigned a = WMF(&m, "iI", "I", "v", 0x20, 0, 0x45, 0x04, 0x40, 0x20, 1,
                     0x0f, 0x0b, 0xfd, 12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11,
                     12, 13, 14, 15, 16, 0x21, 2, 0x20, 1, 0x42, 1, 0x7c,
                     0x42, 7, 0x20, 0, 0x41, 1, 0x6b);
    /* 1: (I I i) -> I: locals i, F must be zero */
    unsigned b = WMF(&m, "IIi", "I", "iF", 0x20, 2, 0x45, 0x04, 0x40, 0x20, 0,
                     0x20, 1, 0x7c, 0x0f, 0x0b, 0x20, 2, 0x41, 1, 0x6b, 0x20,
                     3, 0x6a, 0x20, 0, 0x20, 1, 0x7c, 0x20, 4, 0xbd, 0x7c,
                     0x41, 5, 0x21, 3);
    WB(wm_code(&m, a), 0x12, 1);
    WB(wm_code(&m, b), 0x12, 0);
    WB(&m.tab, 1, T_FUNCREF, 0, 1);
    wm_must(&m, &k);
    struct val v[2], r;
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    uint32_t n = sym_u8();
    sym_assume(n < 9);
    v[0].u.i32 = n;
    sym_bytes(&v[1].u.i64, 8);
    wk_max_frames = 1 + fin;
    sym_check(wk_call(&k, 0, v, &r) == 0, "tail calls do not consume frames");
    uint64_t x = v[1].u.i64;
    for (bool in_a = true;; in_a = !in_a) {
        if (in_a) {
            if (n == 0)
                break;
            x += 1;
            n--;
        } else {
            x += 7;
            if (n == 0)
                break;
            n--;
        }
    }
    sym_check(r.u.i64 == x, "tail calls pass arguments exactly");
    wk_fini(&k);
    wm_fini(&m);
    sym_reach("done");
}

/* every activation has its own locals */
static void
own(void)
{
    struct wm m;
    struct wk k;
    wm_init(&m);
    /* f(n, x): l = x + n; if n: l2 = f(n-1, x ^ 5); return l2 * 3 + l */
    WMF(&m, "iI", "I", "II", 0x20, 0, 0xac, 0x20, 1, 0x7c, 0x21, 2, 0x20, 0,
        0x04, 0x40, 0x20, 0, 0x41, 1, 0x6b, 0x20, 1, 0x42, 5, 0x85, 0x10, 0,
        0x21, 3, 0x0b, 0x20, 3, 0x42, 3, 0x7e, 0x20, 2, 0x7c);
    wm_must(&m, &k);
    struct val v[2], r;
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    uint32_t n = sym_choice(6);
    v[0].u.i32 = n;
    sym_bytes(&v[1].u.i64, 8);
    sym_check(wk_call(&k, 0, v, &r) == 0, "the call returns");
    uint64_t e = 0;
    for (uint32_t i = 0; i <= n; i++) {
        uint64_t x = ((n - i) & 1) ? v[1].u.i64 ^ 5 : v[1].u.i64;
        e = e * 3 + (x + i);
    }
    sym_check(r.u.i64 == e, "activations have their own locals");
    wk_fini(&k);
    wm_fini(&m);
    sym_reach("done");
}

/* many locals: zero at the beginning of every activation */
static void
many(void)
{
    static const unsigned ns[] = {1, 7, 40, 70, 130, 200};
    static const char ts[] = "iIfFvre";
    struct wm m;
    struct wk k;
    static char dl[401], cl[401];
    unsigned n = ns[sym_choice(6)];
    char t = ts[sym_choice(7)];
    unsigned np = sym_choice(2) * 3;
    wm_init(&m);
    /* d fills its locals */
    memset(dl, 'I', 250);
    unsigned d = wm_fn(&m, "I", "", dl, NULL, 0);
    struct wb *b = wm_code(&m, d);
    wb_fini(b);
    wb_init(b, 4096);
    for (unsigned i = 1; i <= 250; i++) {
        WB(b, 0x20, 0, 0x21);
        wb_uleb(b, i);
    }
    /* c returns one of its locals as seen at the beginning, as an i64 */
    memset(cl, t, n);
    unsigned which[3] = {0, n / 2, n - 1};
    unsigned c[3];
    for (unsigned j = 0; j < 3; j++) {
        c[j] = wm_fn(&m, np ? "IiI" : "", "I", cl, NULL, 0);
        b = wm_code(&m, c[j]);
        wb_u8(b, 0x20);
        wb_uleb(b, np + which[j]);
        switch (t) {
        case 'i': WB(b, 0xad); break;
        case 'I': break;
        case 'f': WB(b, 0xbc, 0xad); break;
        case 'F': WB(b, 0xbd); break;
        case 'v':
            WB(b, 0xfd, 29, 0, 0x20);
            wb_uleb(b, np + which[j]);
            WB(b, 0xfd, 29, 1, 0x84);
            break;
        default: WB(b, 0xd1, 0x45, 0xad); break;
        }
        /* then spoils it */
        wb_u8(b, 0x20);
        wb_uleb(b, np + which[(j + 1) % 3]);
        wb_u8(b, 0x21);
        wb_uleb(b, np + which[j]);
    }
    unsigned f = wm_fn(&m, "I", "III", NULL, NULL, 0);
    b = wm_code(&m, f);
    for (unsigned j = 0; j < 3; j++) {
        WB(b, 0x20, 0, 0x10);
        wb_uleb(b, d);
        if (np)
            WB(b, 0x20, 0, 0x41, 5, 0x20, 0);
        wb_u8(b, 0x10);
        wb_uleb(b, c[j]);
    }
    wm_must(&m, &k);
    struct val v, r[3];
    memset(&v, 0, sizeof(v));
    memset(r, 0, sizeof(r));
    sym_bytes(&v.u.i64, 8);
    sym_check(wk_call(&k, f, &v, r) == 0, "the call returns");
    for (unsigned j = 0; j < 3; j++)
        sym_check(r[j].u.i64 == 0, "locals are zero at the beginning");
    wk_fini(&k);
    wm_fini(&m);
    sym_reach("done");
}

/* many parameters: refused, or kept apart */
static void
params(void)
{
    static const uint32_t ns[] = {16000, 16383, 16384, 16385, 32767, 32768};
    uint32_t n = ns[sym_choice(6)];
    unsigned which = sym_choice(4);
    char t = n > 20000 ? 'I' : 'v';
    struct wb w;
    struct wk k;
    wb_init(&w, 40000);
    wb_header(&w);
    wb_sec(&w, 1);
    WB(&w, 1, 0x60);
    wb_uleb(&w, n + 1);
    memset(w.b + w.n, t == 'v' ? T_V128 : T_I64, n);
    w.n += n;
    WB(&w, T_I32, 1, T_I32);
    wb_close(&w);
    wb_sec(&w, 3);
    WB(&w, 1, 0);
    wb_close(&w);
    wb_sec(&w, 10);
    wb_u8(&w, 1);
    wb_open(&w);
    WB(&w, 1, 1, T_I32);
    uint32_t i = which == 0 ? n : which == 1 ? 0 : which == 2 ? n - 1 : n + 1;
    leb(&w, 0x20, i);
    if (i < n) {
        if (t == 'v')
            WB(&w, 0xfd, 27, 0);
        else
            WB(&w, 0xa7);
    }
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_close(&w);
    wk_init(&k);
    if (wk_load(&k, w.b, w.n) != 0) {
        sym_check(n > 16000, "a function with many parameters is accepted");
        sym_reach("limit");
    } else {
        sym_check(wk_inst(&k, NULL) == 0, "instantiated");
        struct val *a = calloc(n + 1, sizeof(*a)), r;
        memset(&r, 0, sizeof(r));
        sym_bytes(&a[0], 4);
        sym_bytes(&a[n - 1], 4);
        sym_bytes(&a[n], 4);
        sym_check(wk_call(&k, 0, a, &r) == 0, "the call returns");
        sym_check(r.u.i32 == (i > n ? 0 : a[i].u.i32),
                  "parameters are kept apart");
        free(a);
        sym_reach("done");
    }
    wk_fini(&k);
    wb_fini(&w);
}

void
harness_main(void)
{
    wk_opts = (unsigned)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0: locals(false, false); break;
    case 1: locals(true, false); break;
    case 2: locals(false, true); break;
    case 3: globals(); break;
    case 4: frames(); break;
    case 5: tail(); break;
    case 6: cells(); break;
    case 7: sizes(); break;
    case 8: own(); break;
    case 9: many(); break;
    case 10: params(); break;
    }
    if (sym_param(0, 0) < 4 || sym_param(0, 0) == 5 || sym_param(0, 0) > 6)
        sym_expect("done");
    sym_check(rt_live == 0, "nothing remains allocated");
}
