/*
 * Writing a loaded module: the canonical encoding is reproduced.
 *
 * params: 0 kind
 *  0 types, functions, locals, start (1: 1 globals, tags)
 *  1 element segments (1: how many)
 *  2 imports and exports
 *  3 limits (1: 0 memory, 1 table)
 *  4 data segments (1: how many)
 *  5 input with another encoding and custom sections
 *  6 failing output
 *  7 element segments of tables of other references
 *  8 many of everything, long names, many locals
 *  9 groups of locals (1: how many)
 *  10 every instruction (1: first, 2: number); 11 control instructions
 */
#include "module_writer.h"
#include "rt_os.h"
#include "valctx.h"

static struct wm m;
static struct wk k;

/* an integer as written, in LEB128 of symbolic bytes */
static void
sleb_const(struct wb *w)
{
    static const int64_t vs[] = {0, 63, 64, -64, -65, 8191, INT32_MIN,
                                 INT32_MAX};
    wb_sleb(w, vs[sym_choice(8)]);
}

/* another encoding which means the same */
static struct wb *alt;

static void
check_written(const uint8_t *b, uint32_t n)
{
    sym_check(module_write("x", k.m) == 0, "the module is written");
    sym_check(rt_file.closed == rt_file.opened, "the file is closed");
    if (alt && rt_file.n == alt->n) {
        b = alt->b;
        n = alt->n;
    }
    sym_check(rt_file.n == n, "the canonical encoding is written: size");
    sym_check(!memcmp(rt_file.b, b, n), "the canonical encoding is written");
    /* what was written is accepted and written as it is */
    struct wk k2;
    wk_init(&k2);
    sym_check(wk_load(&k2, rt_file.b, n) == 0, "the output is accepted");
    sym_check(module_write("x", k2.m) == 0, "the output can be written");
    sym_check(rt_file.n == n && !memcmp(rt_file.b, b, n),
              "writing again yields the same");
    wk_fini(&k2);
    sym_reach("written");
    sym_expect("written");
}

static void
end(void)
{
    wk_fini(&k);
    wm_fini(&m);
    sym_check(rt_live == 0, "nothing remains allocated");
}

static void
go(void)
{
    struct wb w;
    wm_emit(&m, &w);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    check_written(w.b, w.n);
    wb_fini(&w);
    if (alt)
        wb_fini(alt);
    end();
}

static const char *const sigs[] = {"", "i", "IfF", "vrexi", "iiiiiiii"};

static void
functions(void)
{
    wm_init(&m);
    bool fns = sym_param(1, 0) == 0;
    unsigned nf = fns ? sym_choice(3) : 1;
    unsigned ty = nf == 2 ? sym_choice(5) : 0;
    static const char *const locs[] = {NULL, "i", "vF", "rexIf"};
    for (unsigned i = 0; i < nf; i++) {
        unsigned l = fns ? sym_choice(4) : 0;
        unsigned f = wm_fn(&m, i ? sigs[ty] : "", "", locs[l], NULL, 0);
        struct wb *w = wm_code(&m, f);
        /* code of one or more than 127 bytes, arbitrary constants */
        unsigned n = fns && sym_choice(2) ? 70 : 0;
        for (unsigned j = 0; j < n; j++)
            WB(w, 0x01, 0x01);
        wb_u8(w, 0x44);
        uint8_t c[8];
        sym_code(c, 8);
        wb_raw(w, c, 8);
        wb_u8(w, 0x1a);
    }
    if (nf && sym_choice(2))
        m.start = 0;
    if (!fns) {
        unsigned mut = sym_choice(2);
        WB(&m.glob, 2, 0x7f);
        wb_u8(&m.glob, (uint8_t)mut);
        wb_u8(&m.glob, 0x41);
        sleb_const(&m.glob);
        WB(&m.glob, 0x0b, 0x7c, 1, 0x44);
        uint8_t c[8];
        sym_code(c, 8);
        wb_raw(&m.glob, c, 8);
        wb_u8(&m.glob, 0x0b);
    }
    if (!fns && sym_choice(2)) {
        /* unused types and tags */
        wm_type(&m, "ii", "I");
        unsigned t = wm_type(&m, "iI", "");
        WB(&m.tag, 1, 0);
        wb_uleb(&m.tag, t);
    }
    go();
}

static void
elements(void)
{
    unsigned n = (unsigned)sym_param(1, 1);
    wm_init(&m);
    WMF(&m, "", "", NULL, 0x01);
    WMF(&m, "", "", NULL, 0x01);
    WB(&m.tab, 2, 0x70, 0, 4, 0x70, 1, 5, 9);
    struct wb *e = &m.elem;
    wb_uleb(e, n);
    for (unsigned i = 0; i < n; i++) {
        unsigned kind = sym_choice(8), cnt = sym_choice(3);
        unsigned tab = kind == 2 || kind == 6 ? 1 : 0;
        bool ext = (kind == 5 || kind == 7) && sym_choice(2);
        /* without elements both forms are the same */
        if (cnt == 0 && kind >= 4 && !ext)
            sym_end();
        wb_uleb(e, kind);
        if (tab)
            wb_uleb(e, tab);
        if (!(kind & 1)) {
            wb_u8(e, 0x41);
            if (n == 1)
                sleb_const(e);
            else
                wb_sleb(e, (int64_t)i);
            wb_u8(e, 0x0b);
        }
        if (kind >= 4 ? kind > 4 : kind > 0)
            wb_u8(e, kind < 4 ? 0 : ext ? 0x6f : 0x70);
        wb_uleb(e, cnt);
        for (unsigned j = 0; j < cnt; j++) {
            if (kind < 4)
                wb_uleb(e, sym_choice(2));
            else if (ext)
                WB(e, 0xd0, 0x6f, 0x0b);
            else if (sym_choice(2))
                WB(e, 0xd0, 0x70, 0x0b);
            else {
                wb_u8(e, 0xd2);
                wb_uleb(e, sym_choice(2));
                wb_u8(e, 0x0b);
            }
        }
    }
    go();
}

static void
name(struct wb *w, unsigned max)
{
    unsigned n = sym_choice(max + 1);
    uint8_t c[4];
    sym_code(c, n);
    for (unsigned i = 0; i < n; i++)
        sym_assume(c[i] < 0x80);
    wb_uleb(w, n);
    wb_raw(w, c, n);
}

static void
imports(void)
{
    wm_init(&m);
    unsigned t = wm_type(&m, "i", ""), t2 = wm_type(&m, "F", "v");
    unsigned kind = sym_choice(5);
    wb_uleb(&m.imp, 1);
    name(&m.imp, 2);
    name(&m.imp, 1);
    wb_u8(&m.imp, (uint8_t)kind);
    switch (kind) {
    case 0: wb_uleb(&m.imp, sym_choice(2) ? t : t2); break;
    case 1: WB(&m.imp, 0x6f, 1, 0, 0x80, 1); break;
    case 2:
        if (sym_choice(2))
            WB(&m.imp, 3, 1, 2);
        else
            WB(&m.imp, 9, 1, 0x80, 1, 0);
        break;
    case 3: {
        static const uint8_t ts[] = {0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f};
        wb_u8(&m.imp, ts[sym_choice(7)]);
        wb_u8(&m.imp, (uint8_t)sym_choice(2));
        break;
    }
    case 4:
        wb_u8(&m.imp, 0);
        wb_uleb(&m.imp, t);
        break;
    }
    if (kind == 0)
        m.nimpfn = 1;
    wm_fn(&m, "", "", NULL, NULL, 0);
    WB(&m.tab, 1, 0x70, 0, 1);
    WB(&m.mem, 1, 1, 1, 2);
    WB(&m.tag, 1, 0);
    wb_uleb(&m.tag, t);
    WB(&m.glob, 1, 0x7f, 0, 0x41, 0, 0x0b);
    unsigned ek = sym_choice(5);
    m.exp.b[0] = 1;
    name(&m.exp, 2);
    wb_u8(&m.exp, (uint8_t)ek);
    wb_uleb(&m.exp, kind == ek ? sym_choice(2) : 0);
    go();
}

static void
limtype(struct wb *w, bool table, unsigned flags, uint32_t min, uint32_t max)
{
    w->n = 0;
    wb_u8(w, 1);
    if (table)
        wb_u8(w, 0x70);
    wb_u8(w, (uint8_t)flags);
    wb_uleb(w, min);
    if (flags & 1)
        wb_uleb(w, max);
    if (flags & 8)
        wb_u8(w, 0);
}

static void
limits(void)
{
    bool table = sym_param(1, 0) != 0;
    wm_init(&m);
    struct wb *w = table ? &m.tab : &m.mem, a;
    static const uint32_t v[] = {0,       1,       127,     128,
                                 16383,   16384,   65535,   65536,
                                 2097151, 2097152, 1 << 28, 0xfffffffe,
                                 0xffffffff};
    bool has_max = sym_choice(2);
    bool bytes = !table && sym_choice(2), shared = !table && sym_choice(2);
    unsigned nv = table || bytes ? 13 : 8;
    uint32_t top = v[nv - 1];
    if (shared && !has_max)
        sym_end();
    uint32_t min = v[sym_choice(nv)], max = has_max ? v[sym_choice(nv)] : top;
    if (min > max)
        sym_end();
    unsigned flags = has_max + 2 * shared + 8 * bytes;
    if (max == top && !shared) {
        /* the largest possible maximum means the same as none */
        limtype(w, table, flags ^ 1, min, max);
        alt = &a;
        wm_emit(&m, alt);
    }
    limtype(w, table, flags, min, max);
    go();
}

static void
datas(void)
{
    unsigned n = (unsigned)sym_param(1, 1);
    wm_init(&m);
    WB(&m.mem, 2, 1, 1, 2, 1, 2, 2);
    wb_uleb(&m.data, n);
    m.datacount = (int)n;
    for (unsigned i = 0; i < n; i++) {
        unsigned kind = sym_choice(3);
        static const uint8_t lens[] = {0, 1, 3, 128};
        unsigned len = lens[sym_choice(4)];
        wb_uleb(&m.data, kind);
        if (kind == 2)
            wb_uleb(&m.data, 1);
        if (kind != 1) {
            wb_u8(&m.data, 0x41);
            sleb_const(&m.data);
            wb_u8(&m.data, 0x0b);
        }
        uint8_t c[128];
        memset(c, 0, sizeof(c));
        sym_code(c, len > 3 ? 3 : len);
        wb_uleb(&m.data, len);
        wb_raw(&m.data, c, len);
    }
    go();
}

/* LEB128 of v in n bytes */
static void
pad(struct wb *w, uint32_t v, unsigned n)
{
    for (unsigned i = 0; i < n; i++, v >>= 7)
        wb_u8(w, (uint8_t)((v & 0x7f) | (i + 1 < n ? 0x80 : 0)));
}

/* either the canonical encoding, or padded with custom sections */
static void
encode(struct wb *w, bool canon, const uint8_t *pd, const uint8_t *c,
       const uint8_t *cust)
{
    wb_init(w, 512);
    wb_header(w);
#define N(i, v)                                                              \
    do {                                                                     \
        if (canon)                                                           \
            wb_uleb(w, v);                                                   \
        else                                                                 \
            pad(w, v, pd[i]);                                                \
    } while (0)
#define CUSTOM(i)                                                            \
    do {                                                                     \
        if (!canon && cust[i])                                               \
            WB(w, 0, 4, 1, 'x', 1, 2);                                       \
    } while (0)
    CUSTOM(0);
    unsigned s = canon ? 0 : pd[0] - 1;
    WB(w, 1);
    N(1, 4 + s);
    N(0, 1);
    WB(w, 0x60, 0, 0);
    WB(w, 3);
    N(2, 2 + s);
    N(0, 1);
    WB(w, 0);
    CUSTOM(1);
    WB(w, 5, 4, 1, 1, 1, 2);
    WB(w, 7);
    N(3, 5 + s);
    WB(w, 1, 1, 'a', 2);
    N(0, 0);
    WB(w, 12);
    N(1, 1 + s);
    N(0, 1);
    CUSTOM(2);
    WB(w, 10);
    N(2, 6 + s);
    WB(w, 1);
    N(0, 4);
    WB(w, 0, 0x01, 0x01, 0x0b);
    WB(w, 11);
    N(3, 7 + s);
    WB(w, 1, 0, 0x41, 0, 0x0b);
    N(0, 1);
    wb_u8(w, c[0]);
    CUSTOM(3);
}

static void
other(void)
{
    uint8_t pd[4], c[1], cust[4];
    for (unsigned i = 0; i < 4; i++) {
        pd[i] = (uint8_t)(1 + sym_choice(i ? 2 : 3));
        cust[i] = sym_choice(2);
    }
    sym_code(c, 1);
    struct wb w, x;
    encode(&w, true, pd, c, cust);
    encode(&x, false, pd, c, cust);
    wm_init(&m);
    wk_init(&k);
    sym_check(wk_load(&k, x.b, x.n) == 0, "the module is accepted");
    check_written(w.b, w.n);
    wb_fini(&w);
    wb_fini(&x);
    end();
}

static void
faults(void)
{
    wm_init(&m);
    WMF(&m, "", "", NULL, 0x01);
    WB(&m.tab, 1, 0x70, 0, 1);
    WB(&m.mem, 1, 1, 1, 2);
    WB(&m.elem, 1, 0, 0x41, 0, 0x0b, 1, 0);
    WB(&m.data, 1, 0, 0x41, 0, 0x0b, 2, 1, 2);
    wm_export(&m, "f", 0, 0);
    struct wb w;
    wm_emit(&m, &w);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    rt_file_fault = 1;
    int ret = module_write("x", k.m);
    sym_check((ret != 0) == (rt_file_failed > 0),
              "an error is reported exactly if the output failed");
    sym_check(rt_file.closed == rt_file.opened, "the file is closed");
    if (ret)
        sym_reach("failed");
    sym_expect("failed");
    end();
}

static void
extelements(void)
{
    wm_init(&m);
    uint8_t ty = sym_choice(2) ? 0x6f : 0x69;
    wb_u8(&m.tab, 2);
    wb_u8(&m.tab, ty);
    WB(&m.tab, 0, 3);
    wb_u8(&m.tab, ty);
    WB(&m.tab, 0, 4);
    struct wb *e = &m.elem;
    wb_u8(e, 2);
    for (unsigned i = 0; i < 2; i++) {
        unsigned kind = 5 + sym_choice(3), cnt = sym_choice(3);
        wb_uleb(e, kind);
        if (kind == 6) {
            wb_uleb(e, sym_choice(2));
            wb_u8(e, 0x41);
            sleb_const(e);
            wb_u8(e, 0x0b);
        }
        wb_u8(e, ty);
        wb_uleb(e, cnt);
        for (unsigned j = 0; j < cnt; j++) {
            wb_u8(e, 0xd0);
            wb_u8(e, ty);
            wb_u8(e, 0x0b);
        }
    }
    go();
}

static void
fill(struct wb *w, unsigned n)
{
    wb_uleb(w, n);
    for (unsigned i = 0; i < n; i++)
        wb_u8(w, (uint8_t)(0x41 + i % 26));
}

static void
manyenc(struct wb *wp, unsigned n, unsigned nl, bool empty, const uint8_t *c)
{
    unsigned imp = n / 2 + 1;
    struct wb w;
    wb_init(&w, 262144);
    wb_header(&w);
    wb_sec(&w, 1);
    wb_uleb(&w, n + 2);
    WB(&w, 0x60, 0, 0);
    for (unsigned i = 0; i <= n; i++) {
        unsigned np = i == n ? n : i % 3;
        wb_u8(&w, 0x60);
        wb_uleb(&w, np);
        for (unsigned j = 0; j < np; j++)
            wb_u8(&w, (uint8_t)(0x7f - (i / 3 + j) % 4));
        wb_u8(&w, 0);
    }
    wb_close(&w);
    wb_sec(&w, 2);
    wb_uleb(&w, 2 * imp);
    for (unsigned i = 0; i < imp; i++) {
        bool big = i + 1 == imp;
        fill(&w, big ? n : i % 3);
        fill(&w, big ? 2 * n : 1);
        wb_u8(&w, 0);
        wb_uleb(&w, n - i);
        fill(&w, big ? 2 * n : 1);
        fill(&w, big ? n : i % 3);
        WB(&w, 4, 0);
        wb_uleb(&w, n - i);
    }
    wb_close(&w);
    wb_sec(&w, 3);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++)
        wb_uleb(&w, i == n - 1 ? 0 : n + 1 - i);
    wb_close(&w);
    wb_sec(&w, 4);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        WB(&w, 0x70, 1);
        wb_uleb(&w, i);
        wb_uleb(&w, 128 * i);
    }
    wb_close(&w);
    wb_sec(&w, 5);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        WB(&w, 1, 0);
        wb_uleb(&w, 130 * i);
    }
    wb_close(&w);
    wb_sec(&w, 13);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        wb_u8(&w, 0);
        wb_uleb(&w, n - i);
    }
    wb_close(&w);
    wb_sec(&w, 6);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        wb_u8(&w, 0x7d);
        wb_u8(&w, i % 2);
        wb_u8(&w, 0x43);
        wb_raw(&w, c, 4);
        wb_u8(&w, 0x0b);
    }
    wb_close(&w);
    wb_sec(&w, 7);
    wb_uleb(&w, 5 * n);
    for (unsigned i = 0; i < 5 * n; i++) {
        wb_uleb(&w, 2);
        wb_u8(&w, (uint8_t)(0x30 + i / 40));
        wb_u8(&w, (uint8_t)(0x30 + i % 40));
        wb_u8(&w, i % 5);
        wb_uleb(&w, i / 5 + (i % 5 == 0 || i % 5 == 4 ? imp : 0));
    }
    wb_close(&w);
    wb_sec(&w, 8);
    wb_uleb(&w, imp + n - 1);
    wb_close(&w);
    wb_sec(&w, 9);
    wb_uleb(&w, n + 1);
    for (unsigned i = 0; i < n; i++) {
        wb_uleb(&w, i ? 2 : 0);
        if (i)
            wb_uleb(&w, i);
        WB(&w, 0x41, 0, 0x0b);
        if (i)
            wb_u8(&w, 0);
        wb_uleb(&w, 1);
        wb_uleb(&w, imp + i);
    }
    wb_uleb(&w, 1);
    wb_u8(&w, 0);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++)
        wb_uleb(&w, i);
    wb_close(&w);
    wb_sec(&w, 12);
    wb_uleb(&w, n);
    wb_close(&w);
    wb_sec(&w, 10);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        wb_open(&w);
        if (i == 0) {
            wb_uleb(&w, nl || empty ? 2 : 1);
            if (nl || empty) {
                wb_uleb(&w, nl);
                wb_u8(&w, 0x7e);
            }
            wb_uleb(&w, 3);
            wb_u8(&w, 0x7b);
        } else {
            unsigned nc = i == n - 1 ? n : i % 2;
            wb_uleb(&w, nc);
            for (unsigned j = 0; j < nc; j++) {
                wb_u8(&w, 1);
                wb_u8(&w, (uint8_t)(0x7f - (i + j) % 5));
            }
        }
        wb_u8(&w, 0x0b);
        wb_close(&w);
    }
    wb_close(&w);
    wb_sec(&w, 11);
    wb_uleb(&w, n);
    for (unsigned i = 0; i < n; i++) {
        wb_uleb(&w, i ? 2 : 0);
        if (i)
            wb_uleb(&w, i);
        WB(&w, 0x41, 0, 0x0b);
        fill(&w, i == n - 1 ? n : i % 3);
    }
    wb_close(&w);
    *wp = w;
}

static void
many(void)
{
    static const unsigned ns[] = {1, 126, 127, 128, 129, 200};
    static const unsigned ls[] = {0, 1, 127, 128, 16383, 16384, 65536};
    unsigned n = ns[sym_choice(6)], nl = ls[n == 1 ? sym_choice(7) : 1];
    uint8_t c[4];
    struct wb w, a;
    sym_code(c, 4);
    manyenc(&w, n, nl, true, c);
    if (nl == 0) {
        /* empty groups of locals can be left out */
        manyenc(&a, n, nl, false, c);
        alt = &a;
    }
    wm_init(&m);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    check_written(w.b, w.n);
    wb_fini(&w);
    if (alt)
        wb_fini(alt);
    end();
}

static void
locenc(struct wb *w, unsigned n, const uint8_t *cnt, const uint8_t *ty,
       bool empty)
{
    unsigned k = 0;
    wb_init(w, 128);
    wb_header(w);
    WB(w, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 10);
    wb_open(w);
    wb_u8(w, 1);
    wb_open(w);
    for (unsigned i = 0; i < n; i++)
        k += cnt[i] || empty;
    wb_uleb(w, k);
    for (unsigned i = 0; i < n; i++)
        if (cnt[i] || empty) {
            wb_uleb(w, cnt[i]);
            wb_u8(w, ty[i]);
        }
    wb_u8(w, 0x0b);
    wb_close(w);
    wb_close(w);
}

static void
groups(void)
{
    static const uint8_t ts[] = {0x7f, 0x7c, 0x7b, 0x6f};
    unsigned n = (unsigned)sym_param(1, 3);
    uint8_t cnt[4], ty[4];
    struct wb w, a;
    for (unsigned i = 0; i < n; i++) {
        cnt[i] = sym_choice(3);
        ty[i] = ts[sym_choice(4)];
    }
    locenc(&w, n, cnt, ty, true);
    locenc(&a, n, cnt, ty, false);
    alt = &a;
    wm_init(&m);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    check_written(w.b, w.n);
    wb_fini(&w);
    wb_fini(alt);
    end();
}

/* a function body, if it is valid */
static void
body(const uint8_t *b, uint32_t n)
{
    struct rctx c;
    struct wb w;
    valcontext(&c, 0);
    if (!refval(&c, b, n))
        sym_end();
    /* no maximum may be written as the largest one */
    static struct wb a;
    valmodule(&w, &c, 0, b, n);
    val_max = true;
    valmodule(&a, &c, 0, b, n);
    alt = &a;
    wm_init(&m);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    check_written(w.b, w.n);
    wb_fini(&w);
    wb_fini(alt);
    end();
}

static void
instructions(void)
{
    unsigned first = (unsigned)sym_param(1, 0);
    unsigned num = (unsigned)sym_param(2, 64);
    if (first + num > NOPTAB)
        num = NOPTAB - first;
    const struct ins *d = &optab[first + sym_choice(num)];
    uint8_t b[40];
    uint32_t n = 0, nsym = 1;
    b[n++] = 0x00;
    if (d->prefix)
        b[n++] = d->prefix;
    b[n++] = d->op;
    if (d->prefix && d->op >= 0x80)
        b[n++] = 1;
    switch (d->imm) {
    case IMM_NONE: nsym = 0; break;
    case IMM_MEMARG:
    case IMM_MEMARGA:
        b[n++] = d->x;
        break;
    case IMM_MEMLANE:
        b[n++] = d->x;
        b[n++] = 0;
        break;
    case IMM_MEM2:
    case IMM_TAB2:
    case IMM_DATAMEM:
    case IMM_ELEMTAB: nsym = 2; break;
    case IMM_F32: nsym = 4; break;
    case IMM_F64: nsym = 8; break;
    case IMM_V128: nsym = 16; break;
    case IMM_SHUFFLE:
        memset(b + n, 11, 16);
        n += 15;
        break;
    case IMM_I32:
    case IMM_I64:
        b[n++] = 0x8b;
        break;
    default: break;
    }
    sym_code(b + n, nsym);
    n += nsym;
    b[n++] = 0x00;
    b[n++] = 0x0b;
    body(b, n);
}

static void
control(void)
{
    static const uint8_t bs[][32] = {
        {0x02, 0x40, 0x03, 0x40, 0x0c, 0, 0x0b, 0x0b, 0x0b},
        {0x41, 0, 0x04, 0x40, 0x01, 0x05, 0x01, 0x0b, 0x0b},
        {0x41, 0, 0x04, 0x7f, 0x41, 1, 0x05, 0x41, 0x0b, 0x0b, 0x1a, 0x0b},
        {0x02, 1, 0x41, 0x0b, 0x0b, 0x1a, 0x0b},
        {0x02, 0x40, 0x41, 11, 0x0e, 11, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1,
         0x0b, 0x0b},
        {0x1f, 0x40, 2, 0, 1, 0, 2, 0, 0x01, 0x0b, 0x0b},
        {0x02, 0x69, 0x1f, 0x40, 1, 3, 0, 0x0b, 0x00, 0x0b, 0x1a, 0x0b},
        {0x00, 0x08, 0, 0x0b},
        {0x00, 0x0a, 0x0b},
        {0x00, 0x10, 3, 0x00, 0x0b},
        {0x00, 0x11, 8, 0, 0x0b},
        {0x00, 0x12, 0, 0x0b},
        {0x00, 0x13, 0, 0, 0x0b},
        {0x41, 1, 0x41, 2, 0x41, 3, 0x1b, 0x1a, 0x0b},
        {0x00, 0x1c, 1, 0x7b, 0x1a, 0x0b},
        {0xd0, 0x6f, 0x1a, 0xd0, 0x70, 0xd1, 0x1a, 0x0b},
        {0xd0, 0x69, 0x1a, 0xd2, 0, 0x1a, 0x0b},
        {0x20, 0, 0x22, 0, 0x21, 0, 0x23, 0, 0x24, 0, 0x0b},
        {0x02, 0x7f, 0x41, 0, 0x0f, 0x0b, 0x1a, 0x0b},
        {0x02, 0x40, 0x02, 0x40, 0x02, 0x40, 0x41, 0, 0x0d, 2, 0x0b, 0x0b,
         0x0b, 0x0b},
    };
    static const uint8_t ns[] = {9, 9, 12, 7, 20, 11, 12, 4, 3, 5,
                                 5, 4, 5, 9, 6, 8, 7, 11, 8, 14};
    unsigned i = sym_choice(20);
    struct rctx c;
    valcontext(&c, 0);
    sym_check(refval(&c, bs[i], ns[i]), "harness: body");
    body(bs[i], ns[i]);
}

void
harness_main(void)
{
    wb_short = true;
    switch (sym_param(0, 0)) {
    case 0: functions(); break;
    case 1: elements(); break;
    case 2: imports(); break;
    case 3: limits(); break;
    case 4: datas(); break;
    case 5: other(); break;
    case 6: faults(); break;
    case 7: extelements(); break;
    case 8: many(); break;
    case 9: groups(); break;
    case 10: instructions(); break;
    case 11: control(); break;
    }
}
