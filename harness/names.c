/*
 * Names: escaping and the name section.
 *
 * params: 0 kind
 *  0 escaping (1: characters, 2: limit or 0, 3: allocations may fail)
 *  1 well-formed name sections (1: function entries, 2: longer names)
 *  2 arbitrary name sections (1: bytes, 2: prefix)
 *  4 malformed name sections (1: what)
 *  3 modules in turns (1: allocation failures, 2: cleared meanwhile,
 *    3: rounds)
 */
#include <stdlib.h>

#include "escape.h"
#include "name.h"
#include "wk.h"

#define UNKNOWN "<unknown>"

/* ---- escaping ---- */

static bool
special(uint8_t c)
{
    return c <= 0x20 || c >= 0x7f || c == '=' || c == ':' || c == '\\' ||
           c == ',';
}

static unsigned
unit(uint8_t c, char *o)
{
    if (!special(c)) {
        o[0] = (char)c;
        return 1;
    }
    o[0] = '\\';
    o[1] = (char)('0' + (c >> 6));
    o[2] = (char)('0' + ((c >> 3) & 7));
    o[3] = (char)('0' + (c & 7));
    return 4;
}

static void
escaping(void)
{
    unsigned n = (unsigned)sym_param(1, 4);
    int max = (int)sym_param(2, 0);
    struct name nm;
    uint8_t *c = malloc(n ? n : 1);
    sym_code(c, n);
    nm.data = (const char *)c;
    nm.nbytes = n;
    if (max)
        set_max_escaped_len(max);
    if (sym_param(3, 0))
        rt_fail_mode = 1;
    struct escaped_string e;
    escape_name(&e, &nm);
    rt_fail_mode = 0;
    sym_check(e.escaped_len >= 0, "length");
    if (max)
        sym_check(e.escaped_len <= max, "limit respected");
    unsigned len = (unsigned)e.escaped_len, pos = 0;
    unsigned need = 0;
    char u[4];
    for (unsigned i = 0; i < n; i++)
        need += unit(c[i], u);
    if (!(max && need > (unsigned)max) && !rt_fail_taken) {
        /* the whole text */
        sym_check(len == need, "escaped length");
        for (unsigned i = 0; i < n; i++) {
            unsigned k = unit(c[i], u);
            for (unsigned j = 0; j < k; j++)
                sym_check(e.escaped[pos++] == u[j], "escaped text");
        }
        sym_reach("whole");
        sym_expect("whole");
    } else {
        /* whole characters of the text followed by ".." */
        sym_check(len >= 2 && e.escaped[len - 1] == '.' &&
                      e.escaped[len - 2] == '.',
                  "omission is marked");
        for (unsigned i = 0; i < n && pos < len - 2; i++) {
            unsigned k = unit(c[i], u);
            sym_check(pos + k <= len - 2, "omission at a whole character");
            for (unsigned j = 0; j < k; j++)
                sym_check(e.escaped[pos++] == u[j], "escaped prefix");
        }
        sym_check(pos == len - 2, "the prefix of the text");
        sym_reach("omitted");
        sym_expect("omitted");
    }
    escaped_string_clear(&e);
    free(c);
    sym_check(rt_live == 0, "nothing remains allocated");
}

/* ---- name sections ---- */

static struct wm m;
static struct wk k;

static void
load(struct wk *wk, const uint8_t *sec, uint32_t n)
{
    /* functions 0 to 2, function 1 exported; globals 0 and 1, 0 exported */
    wm_init(&m);
    WMF(&m, "", "i", NULL, 0x41, 7);
    WMF(&m, "", "", NULL, 0x01);
    WMF(&m, "", "", NULL, 0x01);
    WB(&m.glob, 2, 0x7f, 0, 0x41, 0, 0x0b, 0x7f, 0, 0x41, 0, 0x0b);
    WB(&m.data, 2, 1, 0, 1, 0);
    wm_export(&m, "exf", 0, 1);
    wm_export(&m, "exg", 3, 0);
    struct wb w;
    wm_emit(&m, &w);
    if (sec) {
        wb_sec(&w, 0);
        wb_name(&w, "name");
        wb_raw(&w, sec, n);
        wb_close(&w);
    }
    wk_init(wk);
    sym_check(wk_load(wk, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    wm_fini(&m);
}

static bool
is(const struct name *n, const char *s)
{
    unsigned l = (unsigned)strlen(s);
    return n->nbytes == l && !memcmp(n->data, s, l);
}

enum { FUNC, GLOBAL, DATA, MODULE };

static void
lookup(struct nametable *t, struct wk *wk, unsigned what, uint32_t idx,
       struct name *n)
{
    n->data = NULL;
    n->nbytes = 0xdeadbeef;
    switch (what) {
    case FUNC: nametable_lookup_func(t, wk->m, idx, n); break;
    case GLOBAL: nametable_lookup_global(t, wk->m, idx, n); break;
    case DATA: nametable_lookup_data(t, wk->m, idx, n); break;
    case MODULE: nametable_lookup_module(t, wk->m, n); break;
    }
}

static const char *
fallback(unsigned what, uint32_t idx)
{
    return what == FUNC && idx == 1     ? "exf"
           : what == GLOBAL && idx == 0 ? "exg"
                                        : UNKNOWN;
}

struct ent {
    uint32_t idx;
    unsigned n;
    uint8_t c[4];
};
static struct ent ents[3][3];
static unsigned nents[3];
static struct ent mod;

static void
text(struct wb *w, struct ent *e, unsigned max)
{
    e->n = sym_choice(max + 1);
    if (e->n == 3) {
        e->c[0] = 0xe3;
        e->c[1] = 0x81;
        e->c[2] = 0x82;
    } else {
        sym_code(e->c, e->n);
        for (unsigned i = 0; i < e->n; i++)
            sym_assume(e->c[i] < 0x80);
    }
    wb_uleb(w, e->n);
    wb_raw(w, e->c, e->n);
}

static void
namemap(struct wb *w, unsigned what, unsigned n, unsigned max)
{
    wb_open(w);
    wb_uleb(w, n);
    nents[what] = n;
    for (unsigned i = 0; i < n; i++) {
        struct ent *e = &ents[what][i];
        uint8_t x;
        sym_code(&x, 1);
        sym_assume(x < 0x80);
        if (i && x <= ents[what][i - 1].idx)
            sym_end();
        e->idx = x;
        if (sym_choice(2)) {
            /* a large index */
            e->idx = 0x4000 + x;
            wb_u8(w, x | 0x80);
            wb_u8(w, 0x80);
            wb_u8(w, 1);
        } else
            wb_u8(w, x);
        text(w, e, max);
    }
    wb_close(w);
}

static void
check_lookup(struct nametable *t, struct wk *wk, unsigned what, uint32_t idx)
{
    struct name n;
    lookup(t, wk, what, idx, &n);
    if (what == MODULE) {
        if (mod.idx)
            sym_check(n.nbytes == mod.n && !memcmp(n.data, mod.c, mod.n),
                      "the module's name");
        else
            sym_check(is(&n, UNKNOWN), "the module has no name");
        return;
    }
    for (unsigned i = 0; i < nents[what]; i++) {
        struct ent *e = &ents[what][i];
        if (e->idx != idx)
            continue;
        sym_check(n.nbytes == e->n && !memcmp(n.data, e->c, e->n),
                  "the name which the section assigns");
        sym_reach("named");
        return;
    }
    sym_check(is(&n, fallback(what, idx)), "the name of an unnamed item");
    sym_reach("unnamed");
}

static void
wellformed(void)
{
    unsigned nf = (unsigned)sym_param(1, 2);
    unsigned max = (unsigned)sym_param(2, 1);
    struct wb w;
    wb_init(&w, 512);
    wb_short = true;
    if (sym_choice(2)) {
        mod.idx = 1;
        wb_u8(&w, 0);
        wb_open(&w);
        text(&w, &mod, max);
        wb_close(&w);
    }
    unsigned fix = nf > 1;
    if (nf) {
        wb_u8(&w, 1);
        namemap(&w, FUNC, nf, max);
    }
    if (!fix && sym_choice(2))
        WB(&w, 2, 6, 1, 0, 1, 0, 1, 'l');
    if (!fix && sym_choice(2))
        WB(&w, 5, 2, 0xff, 0xff);
    if (!fix && sym_choice(2)) {
        wb_u8(&w, 7);
        namemap(&w, GLOBAL, 1, 1);
    }
    if (!fix && sym_choice(2)) {
        wb_u8(&w, 9);
        namemap(&w, DATA, 1, 1);
    }
    if (!fix && sym_choice(2))
        WB(&w, 11, 0);
    load(&k, w.b, w.n);
    wb_fini(&w);
    struct nametable t;
    nametable_init(&t);
    unsigned what = fix ? FUNC : sym_choice(4);
    uint32_t idx = sym_u32();
    check_lookup(&t, &k, what, idx);
    check_lookup(&t, &k, MODULE, 0);
    check_lookup(&t, &k, what, idx);
    nametable_clear(&t);
    wk_fini(&k);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_expect("unnamed");
}

static const struct {
    uint8_t n, b[10];
} prefixes[] = {
    {0, {0}},
    {3, {1, 4, 1}},
    {6, {1, 4, 1, 0, 1, 'a'}},          /* a function named, then anything */
    {4, {0, 2, 1, 'm'}},                /* the module named */
    {8, {1, 4, 1, 1, 1, 'a', 2, 3}},    /* locals of any contents */
    {7, {0, 2, 1, 'm', 1, 6, 2}},
    {8, {7, 4, 1, 0, 1, 'g', 9, 4}},
};

static void
arbitrary(void)
{
    unsigned n = (unsigned)sym_param(1, 4), pf = (unsigned)sym_param(2, 0);
    uint8_t b[24];
    memcpy(b, prefixes[pf].b, prefixes[pf].n);
    sym_code(b + prefixes[pf].n, n);
    n += prefixes[pf].n;
    load(&k, b, n);
    const uint8_t *end = k.m->name_section_end;
    const uint8_t *start = end - n;
    struct nametable t;
    nametable_init(&t);
    for (unsigned what = 0; what < 4; what++) {
        struct name nm;
        uint32_t idx = what == MODULE ? 0 : sym_choice(2);
        lookup(&t, &k, what, idx, &nm);
        const uint8_t *d = (const uint8_t *)nm.data;
        if (d >= start && d <= end)
            sym_check(nm.nbytes <= (size_t)(end - d),
                      "a name inside the section");
        else {
            sym_check(is(&nm, fallback(what, idx)),
                      "otherwise the name of an unnamed item");
            sym_reach("fallback");
        }
    }
    nametable_clear(&t);
    /* execution is not affected */
    uint32_t r = 0;
    sym_check(wk_inst(&k, NULL) == 0, "the module is instantiated");
    sym_check(wk_call_i32(&k, 0, 0, NULL, &r) == 0 && r == 7,
              "the module is executed");
    wk_fini(&k);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_expect("fallback");
}

/* bytes which need not be constants */
#define B(...)                                                               \
    do {                                                                     \
        const uint8_t b_[] = {__VA_ARGS__};                                  \
        wb_raw(&w, b_, sizeof(b_));                                          \
    } while (0)
/* nothing of a malformed section is used */
static void
malformed(unsigned what)
{
    struct wb w;
    wb_init(&w, 256);
    wb_short = true;
    unsigned n;
    switch (what) {
    case 0:
        /* indexes which do not ascend */
        n = 2 + sym_choice(2);
        wb_u8(&w, 1);
        wb_open(&w);
        wb_uleb(&w, n);
        int bad = 0, last = -1;
        for (unsigned i = 0; i < n; i++) {
            unsigned x = sym_choice(4);
            bad |= (int)x <= last;
            last = (int)x;
            B( (uint8_t)x, 1, (uint8_t)('a' + i));
        }
        wb_close(&w);
        if (!bad)
            sym_end();
        break;
    case 1: {
        /* subsections which do not ascend */
        static const uint8_t subs[4] = {0, 1, 7, 9};
        unsigned i = sym_choice(4), j = sym_choice(4);
        if (subs[j] > subs[i])
            sym_end();
        for (unsigned k = 0; k < 2; k++) {
            uint8_t s = subs[k ? j : i];
            uint8_t c = (uint8_t)('a' + k);
            if (s == 0)
                B( 0, 2, 1, c);
            else
                B( s, 7, 2, 0, 1, c, 1, 1, c);
        }
        break;
    }
    case 2: {
        /* a name which is not UTF-8 */
        uint8_t c;
        sym_code(&c, 1);
        sym_assume(c >= 0x80);
        static const uint8_t subs[4] = {0, 1, 7, 9};
        uint8_t s = subs[sym_choice(4)];
        if (s == 0)
            B( 0, 2, 1, c);
        else
            B( s, 7, 2, 0, 1, 'a', 1, 1, c);
        break;
    }
    default: {
        /* a name beyond the end */
        uint8_t c;
        sym_code(&c, 1);
        sym_assume(c > 1 && c < 0x80);
        static const uint8_t subs[4] = {0, 1, 7, 9};
        uint8_t s = subs[sym_choice(4)];
        if (s == 0)
            B( 0, 2, c, 'a');
        else
            B( s, 7, 2, 0, 1, 'a', 1, c, 'b');
    }
    }
    load(&k, w.b, w.n);
    wb_fini(&w);
    struct nametable t;
    nametable_init(&t);
    for (unsigned i = 0; i < 2; i++) {
        unsigned kind = sym_choice(4);
        uint32_t idx = kind == MODULE ? 0 : sym_choice(3);
        struct name nm;
        lookup(&t, &k, kind, idx, &nm);
        sym_check(is(&nm, fallback(kind, idx)),
                  "nothing of a malformed section is used");
    }
    nametable_clear(&t);
    wk_fini(&k);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_reach("malformed");
    sym_expect("malformed");
}

static void
turns(void)
{
    /* one named, one unnamed, one malformed */
    static const uint8_t s0[] = {0, 2, 1, 'A', 1, 7, 2, 0, 1, 'a', 1, 1, 'b'};
    static const uint8_t s1[] = {1, 4, 1, 1, 1, 'c', 7, 4, 1, 1, 1, 'd'};
    static const uint8_t s2[] = {1, 5, 1, 2, 1, 'e', 9, 1, 9};
    static struct wk ks[4];
    load(&ks[0], s0, sizeof(s0));
    load(&ks[1], s1, sizeof(s1));
    load(&ks[2], s2, sizeof(s2));
    load(&ks[3], NULL, 0);
    struct nametable t;
    nametable_init(&t);
    rt_fail_mode = 1;
    rt_fail_budget = (int)sym_param(1, 0);
    for (unsigned i = 0; i < (unsigned)sym_param(3, 3); i++) {
        unsigned x = sym_choice(4), idx = sym_choice(2), what = sym_choice(2);
        if (sym_param(2, 0) && i == 1)
            nametable_clear(&t);
        struct name n;
        int taken = rt_fail_taken;
        lookup(&t, &ks[x], what, idx, &n);
        const char *e = fallback(what, idx);
        const char *f = e;
        if (x == 0 && what == FUNC)
            e = idx ? "b" : "a";
        if (x == 1 && idx == 1)
            e = what == FUNC ? "c" : "d";
        if (rt_fail_taken > taken)
            sym_check(is(&n, e) || is(&n, f),
                      "the name, or none without memory");
        else
            sym_check(is(&n, e), "the name of the item of this module");
        lookup(&t, &ks[x], MODULE, 0, &n);
        if (rt_fail_taken == taken || x != 0)
            sym_check(is(&n, x == 0 ? "A" : UNKNOWN), "the module's name");
    }
    rt_fail_mode = 0;
    nametable_clear(&t);
    for (unsigned i = 0; i < 4; i++)
        wk_fini(&ks[i]);
    sym_check(rt_live == 0, "nothing remains allocated");
    sym_reach("turns");
    sym_expect("turns");
}

void
harness_main(void)
{
    switch (sym_param(0, 0)) {
    case 0: escaping(); break;
    case 1: wellformed(); break;
    case 2: arbitrary(); break;
    case 3: turns(); break;
    case 4: malformed((unsigned)sym_param(1, 0)); break;
    }
}
