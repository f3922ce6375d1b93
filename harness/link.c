/*
 * Imports and exports: what satisfies an import, and that the object itself
 * is shared.
 *
 * params: 0 kind
 *  0 function types, 1 tables, 2 memories, 3 globals, 4 tags,
 *  5 names (1: length of the imported name), 6 kinds,
 *  7 sharing, 8 shared memories provided for a module's imports,
 *  9 several imports of several kinds from two modules, in any order
 *  10 provided memories too large for the host
 */
#include "wk.h"

static struct wm em, im;
static struct wk ek, k;
static struct import_object *imo;

static void
begin(void)
{
    wm_init(&em);
    wm_init(&im);
}
static int
link(const char *mod)
{
    struct wb w;
    wm_emit(&im, &w);
    wk_init(&k);
    imo = wk_exports(&k, ek.inst, mod, NULL);
    int ret = wk_load(&k, w.b, w.n);
    sym_check(ret == 0, "the module is accepted");
    if (ret)
        sym_end();
    wb_fini(&w);
    ret = wk_inst(&k, imo);
    sym_observe((uint64_t)(ret == 0));
    return ret;
}
static void
end(void)
{
    wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wk_fini(&ek);
    wm_fini(&em);
    wm_fini(&im);
}
static void
expect(int ret, bool match)
{
    if (match) {
        sym_check(ret == 0, "a matching import is satisfied");
        sym_reach("match");
    } else {
        sym_check(ret != 0, "an import of another type is not satisfied");
        sym_reach("mismatch");
    }
    sym_expect("match");
    sym_expect("mismatch");
}

static const char *const fts[][2] = {
    {"", ""},   {"i", ""},  {"", "i"},  {"i", "i"}, {"I", "i"},   {"i", "I"},
    {"ii", ""}, {"iI", ""}, {"Ii", ""}, {"", "iI"}, {"", "Ii"},   {"r", ""},
    {"e", ""},  {"v", ""},  {"f", ""},  {"F", ""},  {"iii", "i"},
};
#define NFT (sizeof(fts) / sizeof(fts[0]))

static void
body(struct wb *b, const char *r)
{
    (void)r;
    wb_u8(b, 0x00);
}

static void
functions(void)
{
    unsigned a = sym_choice(NFT), b = sym_choice(NFT);
    begin();
    unsigned f = wm_fn(&em, fts[a][0], fts[a][1], NULL, NULL, 0);
    body(wm_code(&em, f), fts[a][1]);
    wm_export(&em, "f", 0, f);
    wm_must(&em, &ek);
    wm_import_fn(&im, "m", "f", fts[b][0], fts[b][1]);
    expect(link("m"), a == b);
    end();
}
static void
tags(void)
{
    static const uint8_t pick[] = {0, 1, 4, 6, 7, 8, 11, 13};
    unsigned a = sym_choice(8), b = sym_choice(8);
    begin();
    const char *pa = fts[pick[a]][0], *pb = fts[pick[b]][0];
    WB(&em.tag, 1, 0);
    wb_uleb(&em.tag, wm_type(&em, pa, ""));
    wm_export(&em, "t", 4, 0);
    wm_must(&em, &ek);
    wm_import(&im, "m", "t", 4);
    wb_u8(&im.imp, 0);
    wb_uleb(&im.imp, wm_type(&im, pb, ""));
    expect(link("m"), strcmp(pa, pb) == 0);
    end();
}

struct lim {
    bool has_max;
    uint8_t min, max;
};
static void
limits(struct wb *b, const struct lim *l, uint8_t flags)
{
    wb_u8(b, flags | l->has_max);
    wb_u8(b, l->min);
    if (l->has_max)
        wb_u8(b, l->max);
    if (flags & 8)
        wb_u8(b, 0);
}
static void
anylim(struct lim *l, bool exporter, bool must_max)
{
    l->has_max = must_max || sym_choice(2);
    sym_code(&l->min, 1);
    sym_assume(l->min < (exporter ? 6 : 16));
    if (exporter)
        l->min = (uint8_t)sym_concretize(l->min);
    l->max = 0;
    if (l->has_max) {
        sym_code(&l->max, 1);
        sym_assume(l->max < 16);
        if (exporter)
            l->max = (uint8_t)sym_concretize(l->max);
        sym_assume(l->min <= l->max);
    }
}
static bool
limmatch(const struct lim *e, const struct lim *i, uint32_t size)
{
    if (size < i->min)
        return false;
    if (!i->has_max)
        return true;
    return e->has_max && e->max <= i->max;
}

static void
tables(void)
{
    static const uint8_t et[] = {T_FUNCREF, T_EXTERNREF};
    struct lim e, i;
    unsigned a = sym_choice(2), b = sym_choice(2);
    anylim(&e, true, false);
    anylim(&i, false, false);
    begin();
    wb_u8(&em.tab, 1);
    wb_u8(&em.tab, et[a]);
    limits(&em.tab, &e, 0);
    wm_export(&em, "t", 1, 0);
    unsigned f = wm_fn(&em, "i", "i", NULL, NULL, 0);
    struct wb *c = wm_code(&em, f);
    wb_u8(c, 0xd0);
    wb_u8(c, et[a]);
    WB(c, 0x20, 0, 0xfc, 15, 0);
    wm_must(&em, &ek);
    uint32_t g = sym_choice(3), r = 0, size = e.min;
    sym_check(wk_call_i32(&ek, f, 1, &g, &r) == 0, "table.grow");
    if (!e.has_max || size + g <= e.max) {
        sym_check(r == size, "table.grow succeeds within the maximum");
        size += g;
    }
    wm_import(&im, "m", "t", 1);
    wb_u8(&im.imp, et[b]);
    limits(&im.imp, &i, 0);
    expect(link("m"), a == b && limmatch(&e, &i, size));
    end();
}
static void
memories(void)
{
    /* shared, byte pages */
    static const uint8_t fl[] = {0, 2, 8, 10};
    struct lim e, i;
    unsigned a = fl[sym_choice(4)], b = fl[sym_choice(4)];
    anylim(&e, true, a & 2);
    anylim(&i, false, b & 2);
    begin();
    wb_u8(&em.mem, 1);
    limits(&em.mem, &e, (uint8_t)a);
    wm_export(&em, "x", 2, 0);
    unsigned f = WMF(&em, "i", "i", NULL, 0x20, 0, 0x40, 0);
    wm_must(&em, &ek);
    uint32_t g = sym_choice(3), r = 0, size = e.min;
    sym_check(wk_call_i32(&ek, f, 1, &g, &r) == 0, "memory.grow");
    if (!e.has_max || size + g <= e.max) {
        sym_check(r == size, "memory.grow succeeds within the maximum");
        size += g;
    }
    wm_import(&im, "m", "x", 2);
    limits(&im.imp, &i, (uint8_t)b);
    expect(link("m"), a == b && limmatch(&e, &i, size));
    end();
}
static void
globals(void)
{
    static const uint8_t t[] = {T_I32, T_I64, T_F32, T_F64,
                                T_V128, T_FUNCREF, T_EXTERNREF};
    unsigned a = sym_choice(7), b = sym_choice(7);
    unsigned ma = sym_choice(2), mb = sym_choice(2);
    begin();
    wb_u8(&em.glob, 1);
    wb_u8(&em.glob, t[a]);
    wb_u8(&em.glob, (uint8_t)ma);
    switch (a) {
    case 0: WB(&em.glob, 0x41, 0); break;
    case 1: WB(&em.glob, 0x42, 0); break;
    case 2: WB(&em.glob, 0x43, 0, 0, 0, 0); break;
    case 3: WB(&em.glob, 0x44, 0, 0, 0, 0, 0, 0, 0, 0); break;
    case 4:
        WB(&em.glob, 0xfd, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
        break;
    default:
        wb_u8(&em.glob, 0xd0);
        wb_u8(&em.glob, t[a]);
        break;
    }
    wb_u8(&em.glob, 0x0b);
    wm_export(&em, "g", 3, 0);
    wm_must(&em, &ek);
    wm_import(&im, "m", "g", 3);
    wb_u8(&im.imp, t[b]);
    wb_u8(&im.imp, (uint8_t)mb);
    expect(link("m"), a == b && ma == mb);
    end();
}

/* exported names, one function each returning its position */
static const char *const names[] = {"b",  "",   "a",    "ab", "\xc3\xa9",
                                    "aa", "ba", "abcd", "A"};
#define NN (sizeof(names) / sizeof(names[0]))
static void
namelookup(void)
{
    unsigned n = (unsigned)sym_param(1, 1);
    begin();
    for (unsigned i = 0; i < NN; i++) {
        unsigned f = wm_fn(&em, "", "i", NULL, NULL, 0);
        struct wb *b = wm_code(&em, f);
        wb_u8(b, 0x41);
        wb_sleb(b, (int)(10 + i));
        wm_export(&em, names[i], 0, f);
    }
    wm_export(&em, "mem", 2, 0);
    WB(&em.mem, 1, 0, 0);
    wm_must(&em, &ek);

    /* an import of an arbitrary name from an arbitrary module */
    uint8_t nm[8], mn[2];
    sym_code(nm, n);
    for (unsigned i = 0; i < n; i++)
        if (n != 2)
            sym_assume(nm[i] < 0x80);
    if (n == 2 && nm[0] >= 0x80)
        sym_assume(nm[0] == 0xc3);
    if (n == 2 && nm[0] == 0xc3)
        sym_assume(nm[1] >= 0x80 && nm[1] < 0xc0);
    if (n == 2 && nm[0] != 0xc3)
        sym_assume(nm[1] < 0x80);
    sym_code(mn, 1);
    sym_assume(mn[0] < 0x80);
    wb_u8(&im.imp, 1);
    wb_u8(&im.imp, 1);
    wb_u8(&im.imp, mn[0]);
    wb_u8(&im.imp, (uint8_t)n);
    wb_raw(&im.imp, nm, n);
    wb_u8(&im.imp, 0);
    wb_uleb(&im.imp, wm_type(&im, "", "i"));
    im.nimpfn = 1;
    unsigned f = WMF(&im, "", "i", NULL, 0x10, 0);
    int ret = link("m");
    int which = -1;
    for (unsigned i = 0; i < NN; i++) {
        if (strlen(names[i]) != n)
            continue;
        bool eq = true;
        for (unsigned j = 0; j < n; j++)
            if (nm[j] != (uint8_t)names[i][j])
                eq = false;
        if (eq)
            which = (int)i;
    }
    if (mn[0] != 'm' || which < 0) {
        sym_check(ret != 0, "an import of another name is not satisfied");
        sym_reach("mismatch");
    } else {
        sym_check(ret == 0, "an import is satisfied by its name");
        uint32_t r = 0;
        sym_check(ret == 0 && wk_call_i32(&k, f, 0, NULL, &r) == 0 &&
                          r == 10 + (uint32_t)which,
                  "an import is bound to the export of its name");
        sym_reach("match");
    }
    sym_expect("mismatch");
    if (n <= 2 || n == 4)
        sym_expect("match");
    /* the embedder's lookup */
    struct name q;
    uint32_t idx = 999;
    q.nbytes = n;
    q.data = (const char *)nm;
    unsigned type = sym_choice(4);
    ret = module_find_export(ek.m, &q, type, &idx);
    bool mem = n == 3 && nm[0] == 'm' && nm[1] == 'e' && nm[2] == 'm';
    if (which >= 0 && type == 0)
        sym_check(ret == 0 && idx == (uint32_t)which,
                  "an export is found by its name");
    else if (mem && type == 2)
        sym_check(ret == 0 && idx == 0, "an export is found by its name");
    else
        sym_check(ret != 0, "an export is not found by another name or kind");
    end();
}

static void
put_kind(struct wb *b, unsigned kind)
{
    switch (kind) {
    case 0: wb_u8(b, 0); break; /* type 0: () -> () */
    case 1: WB(b, T_FUNCREF, 0, 0); break;
    case 2: WB(b, 0, 0); break;
    case 3: WB(b, T_I32, 0); break;
    case 4: WB(b, 0, 0); break;
    }
}
static void
everything(struct wm *m)
{
    wm_type(m, "", "");
    WMF(m, "", "", NULL, 0x01);
    WB(&m->tab, 1, T_FUNCREF, 0, 1);
    WB(&m->mem, 1, 0, 0);
    WB(&m->glob, 1, T_I32, 0, 0x41, 7, 0x0b);
    WB(&m->tag, 1, 0, 0);
}
static void
kinds(void)
{
    unsigned a = sym_choice(5), b = sym_choice(5);
    begin();
    everything(&em);
    wm_export(&em, "x", (uint8_t)a, 0);
    wm_must(&em, &ek);
    wm_type(&im, "", "");
    wm_import(&im, "m", "x", (uint8_t)b);
    put_kind(&im.imp, b);
    expect(link("m"), a == b);
    end();
}

/* imports of objects with equal types from two chained modules */
static void
order(void)
{
    static struct wm e2;
    static struct wk ek2;
    /* both modules export functions p, q and globals u, v; each different */
    begin();
    wm_init(&e2);
    struct wm *ms[2] = {&em, &e2};
    for (unsigned j = 0; j < 2; j++) {
        struct wm *m = ms[j];
        unsigned p, q;
        if (j == 0) {
            p = WMF(m, "", "i", NULL, 0x41, 11);
            q = WMF(m, "", "i", NULL, 0x41, 12);
            WB(&m->glob, 2, T_I32, 0, 0x41, 13, 0x0b, T_I32, 0, 0x41, 14, 0x0b);
        } else {
            p = WMF(m, "", "i", NULL, 0x41, 21);
            q = WMF(m, "", "i", NULL, 0x41, 22);
            WB(&m->glob, 2, T_I32, 0, 0x41, 23, 0x0b, T_I32, 0, 0x41, 24, 0x0b);
        }
        wm_export(m, "p", 0, p);
        wm_export(m, "q", 0, q);
        wm_export(m, "u", 3, 0);
        wm_export(m, "v", 3, 1);
    }
    wm_must(&em, &ek);
    wm_must(&e2, &ek2);
    /* four imports: each any of the eight */
    unsigned sel[4], nf = 0, ng = 0;
    uint32_t want_f[4], want_g[4];
    static const char *const fld[] = {"p", "q", "u", "v"};
    wm_type(&im, "", "i");
    for (unsigned i = 0; i < 3; i++) {
        sel[i] = sym_choice(8);
        wm_import(&im, sel[i] & 4 ? "n" : "m", fld[sel[i] & 3],
                  (sel[i] & 2) ? 3 : 0);
        uint32_t v = 11 + (sel[i] & 3) + (sel[i] & 4 ? 10 : 0);
        if (sel[i] & 2) {
            WB(&im.imp, T_I32, 0);
            want_g[ng++] = v;
        } else {
            wb_uleb(&im.imp, 0);
            want_f[nf++] = v;
        }
    }
    im.nimpfn = nf;
    unsigned fn[4];
    for (unsigned i = 0; i < ng; i++) {
        fn[i] = wm_fn(&im, "", "i", NULL, NULL, 0);
        wb_u8(wm_code(&im, fn[i]), 0x23);
        wb_uleb(wm_code(&im, fn[i]), i);
    }
    WMF(&im, "", "", NULL, 0x01);
    struct wb w;
    wm_emit(&im, &w);
    wk_init(&k);
    imo = wk_exports(&k, ek2.inst, "n", NULL);
    imo = wk_exports(&k, ek.inst, "m", imo);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    sym_check(wk_inst(&k, imo) == 0, "all imports are satisfied");
    uint32_t r = 0;
    for (unsigned i = 0; i < nf; i++)
        sym_check(wk_call_i32(&k, i, 0, NULL, &r) == 0 && r == want_f[i],
                  "a function import is bound to the export of its name");
    for (unsigned i = 0; i < ng; i++)
        sym_check(wk_call_i32(&k, fn[i], 0, NULL, &r) == 0 && r == want_g[i],
                  "a global import is bound to the export of its name");
    end();
    wk_fini(&ek2);
    wm_fini(&e2);
    sym_reach("match");
    sym_expect("match");
}

/* one side changes the object, the other one sees it */
static void
sharing(void)
{
    begin();
    static const uint8_t ld[] = {0x20, 0, 0x2d, 0, 0};
    static const uint8_t st[] = {0x20, 0, 0x20, 1, 0x3a, 0, 0};
    static const uint8_t gr[] = {0x20, 0, 0x40, 0};
    static const uint8_t sz[] = {0x3f, 0};
    static const uint8_t tg[] = {0x20, 0, 0x25, 0};
    static const uint8_t ts[] = {0x20, 0, 0x20, 1, 0x26, 0};
    static const uint8_t tz[] = {0xfc, 16, 0};
    static const uint8_t tr[] = {0xd0, T_EXTERNREF, 0x20, 0, 0xfc, 15, 0};
    static const uint8_t gg[] = {0x23, 0};
    static const uint8_t gs[] = {0x20, 0, 0x24, 0};
    WB(&em.mem, 1, 9, 4, 9, 0);
    WB(&em.tab, 1, T_EXTERNREF, 0, 3);
    WB(&em.glob, 1, T_I64, 1, 0x42, 0, 0x0b);
    wm_export(&em, "me", 2, 0);
    wm_export(&em, "ta", 1, 0);
    wm_export(&em, "gl", 3, 0);
    wm_import(&im, "m", "me", 2);
    WB(&im.imp, 9, 1, 9, 0);
    wm_import(&im, "m", "gl", 3);
    WB(&im.imp, T_I64, 1);
    wm_import(&im, "m", "ta", 1);
    WB(&im.imp, T_EXTERNREF, 0, 2);
    struct wm *ms[2] = {&em, &im};
    for (unsigned j = 0; j < 2; j++) {
        struct wm *m = ms[j];
        wm_fn(m, "i", "i", NULL, ld, sizeof(ld));
        wm_fn(m, "ii", "", NULL, st, sizeof(st));
        wm_fn(m, "i", "i", NULL, gr, sizeof(gr));
        wm_fn(m, "", "i", NULL, sz, sizeof(sz));
        wm_fn(m, "i", "e", NULL, tg, sizeof(tg));
        wm_fn(m, "ie", "", NULL, ts, sizeof(ts));
        wm_fn(m, "", "i", NULL, tz, sizeof(tz));
        wm_fn(m, "i", "i", NULL, tr, sizeof(tr));
        wm_fn(m, "", "I", NULL, gg, sizeof(gg));
        wm_fn(m, "I", "", NULL, gs, sizeof(gs));
    }
    wm_must(&em, &ek);
    sym_check(link("m") == 0, "matching imports are satisfied");
    /* two operations, by either side */
    uint8_t mem[16] = {0};
    uint64_t tab[8] = {0}, gl = 0;
    uint32_t msz = 4, tsz = 3, r = 0;
    struct val a[2], res;
    for (unsigned step = 0; step < 2; step++) {
        struct wk *o = sym_choice(2) ? &k : &ek;
        memset(a, 0, sizeof(a));
        memset(&res, 0, sizeof(res));
        switch (sym_choice(5)) {
        case 0: {
            uint32_t at = sym_choice(4), x = sym_u32();
            a[0].u.i32 = at;
            a[1].u.i32 = x;
            sym_check(wk_call(o, 1, a, &res) == 0, "store");
            mem[at] = (uint8_t)x;
            break;
        }
        case 1: {
            uint32_t n = 1 + sym_choice(3);
            sym_check(wk_call_i32(o, 2, 1, &n, &r) == 0 &&
                              r == (msz + n <= 9 ? msz : (uint32_t)-1),
                      "grow");
            if (msz + n <= 9)
                msz += n;
            break;
        }
        case 2: {
            uint32_t at = sym_choice(3);
            a[0].u.i32 = at;
            sym_bytes(&a[1], 8);
            memcpy(&tab[at], &a[1], 8);
            sym_check(wk_call(o, 5, a, &res) == 0, "table.set");
            break;
        }
        case 3: {
            uint32_t n = 1 + sym_choice(2);
            sym_check(wk_call_i32(o, 7, 1, &n, &r) == 0 && r == tsz, "grow");
            tsz += n;
            break;
        }
        case 4:
            sym_bytes(&a[0], 8);
            gl = a[0].u.i64;
            sym_check(wk_call(o, 9, a, &res) == 0, "global.set");
            break;
        }
    }
    for (unsigned j = 0; j < 2; j++) {
        struct wk *o = j ? &k : &ek;
        for (uint32_t i = 0; i < msz; i++)
            sym_check(wk_call_i32(o, 0, 1, &i, &r) == 0 && r == mem[i],
                      "the memory is shared");
        sym_check(wk_call_i32(o, 0, 1, &msz, &r) == ETOYWASMTRAP,
                  "the memory's size is shared");
        sym_check(wk_call_i32(o, 3, 0, NULL, &r) == 0 && r == msz,
                  "the memory's size is shared");
        sym_check(wk_call_i32(o, 6, 0, NULL, &r) == 0 && r == tsz,
                  "the table's size is shared");
        for (uint32_t i = 0; i < tsz; i++) {
            memset(a, 0, sizeof(a));
            memset(&res, 0, sizeof(res));
            a[0].u.i32 = i;
            sym_check(wk_call(o, 4, a, &res) == 0 &&
                              memcmp(&res, &tab[i], 8) == 0,
                      "the table is shared");
        }
        memset(&res, 0, sizeof(res));
        sym_check(wk_call(o, 8, NULL, &res) == 0 && res.u.i64 == gl,
                  "the global is shared");
    }
    end();
    sym_reach("match");
    sym_expect("match");
}

/* create_satisfying_shared_memories() */
static void
provided(void)
{
    begin();
    /* a: shared, b: not shared, c: shared */
    uint8_t min[2], max[2];
    for (unsigned i = 0; i < 2; i++) {
        min[i] = (uint8_t)sym_choice(3);
        max[i] = (uint8_t)(min[i] + sym_choice(2));
    }
    WB(&em.mem, 1, 8, 1, 0);
    wm_export(&em, "b", 2, 0);
    wm_must(&em, &ek);
    wm_import(&im, "m", "a", 2);
    wb_u8(&im.imp, 0x0b);
    wb_u8(&im.imp, min[0]);
    wb_u8(&im.imp, max[0]);
    wb_u8(&im.imp, 0);
    bool other = sym_choice(2);
    if (other) {
        wm_import(&im, "m", "b", 2);
        WB(&im.imp, 8, 1, 0);
    }
    wm_import(&im, "n", "c", 2);
    wb_u8(&im.imp, 0x0b);
    wb_u8(&im.imp, min[1]);
    wb_u8(&im.imp, max[1]);
    wb_u8(&im.imp, 0);
    WMF(&im, "", "i", NULL, 0x3f, 0);
    WMF(&im, "i", "i", NULL, 0x20, 0, 0x40, 0);
    unsigned c = wm_fn(&im, "", "i", NULL, NULL, 0);
    wb_u8(wm_code(&im, c), 0x3f);
    wb_u8(wm_code(&im, c), 1 + other);
    struct wb w;
    wm_emit(&im, &w);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    imo = wk_exports(&k, ek.inst, "m", NULL);
    struct import_object *s;
    int ret = create_satisfying_shared_memories(&k.mctx, &k.mctx, k.m, &s);
    sym_check(ret == 0, "shared memories are provided");
    s->next = imo;
    imo = s;
    sym_check(wk_inst(&k, imo) == 0, "provided memories satisfy the imports");
    uint32_t r = 0, one = 1;
    sym_check(wk_call_i32(&k, 0, 0, NULL, &r) == 0 && r == min[0],
              "a provided memory has the size requested");
    sym_check(wk_call_i32(&k, c, 0, NULL, &r) == 0 && r == min[1],
              "a provided memory has the size requested");
    sym_check(wk_call_i32(&k, 1, 1, &one, &r) == 0 &&
                      r == (min[0] < max[0] ? min[0] : (uint32_t)-1),
              "a provided memory has the maximum requested");
    sym_check(wk_call_i32(&k, c, 0, NULL, &r) == 0 && r == min[1],
              "provided memories are distinct");
    /* the instance goes first */
    instance_destroy(k.inst);
    k.inst = NULL;
    end();
    sym_reach("match");
    sym_expect("match");
}

/* memories too large for the host, or only just not */
static void
large(void)
{
    begin();
    static const uint32_t pages[] = {1, 40000, 65535, 65536};
    uint32_t min[2];
    for (unsigned i = 0; i < 2; i++) {
        min[i] = pages[sym_choice(4)];
        wm_import(&im, "m", i ? "b" : "a", 2);
        wb_u8(&im.imp, 3);
        wb_uleb(&im.imp, min[i]);
        wb_uleb(&im.imp, 65536);
    }
    static const uint8_t sz[2][2] = {{0x3f, 0}, {0x3f, 1}};
    static const uint8_t ld[2][6] = {{0x20, 0, 0x2d, 0, 0},
                                     {0x20, 0, 0x2d, 0x40, 1, 0}};
    for (unsigned i = 0; i < 2; i++) {
        wm_fn(&im, "", "i", NULL, sz[i], 2);
        wm_fn(&im, "i", "i", NULL, ld[i], 5 + i);
    }
    struct wb w;
    wm_emit(&im, &w);
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    struct import_object *s = NULL;
    int ret = create_satisfying_shared_memories(&k.mctx, &k.mctx, k.m, &s);
    if (ret == 0) {
        sym_check(wk_inst(&k, s) == 0, "provided memories are usable");
        for (unsigned i = 0; i < 2; i++) {
            uint32_t r = 1, z = 0;
            sym_check(wk_call_i32(&k, i * 2, 0, NULL, &r) == 0 &&
                              r == min[i],
                      "a provided memory has the size requested");
            sym_check(wk_call_i32(&k, i * 2 + 1, 1, &z, &r) == 0 && r == 0,
                      "a provided memory is accessible and zeroed");
        }
        instance_destroy(k.inst);
        k.inst = NULL;
        sym_reach("match");
        import_object_destroy(&k.mctx, s);
    } else {
        sym_check(ret == ENOMEM || ret == EOVERFLOW, "the error is reported");
        sym_reach("mismatch");
    }
    wk_fini(&k);
    wm_fini(&em);
    wm_fini(&im);
    sym_expect("match");
    sym_expect("mismatch");
}

void
harness_main(void)
{
    switch (sym_param(0, 0)) {
    case 0: functions(); break;
    case 1: tables(); break;
    case 2: memories(); break;
    case 3: globals(); break;
    case 4: tags(); break;
    case 5: namelookup(); break;
    case 6: kinds(); break;
    case 7: sharing(); break;
    case 8: provided(); break;
    case 9: order(); break;
    case 10: large(); break;
    }
    sym_check(rt_live == 0, "nothing remains allocated");
}
