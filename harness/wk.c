#include <stdlib.h>

#include "wk.h"

void
wb_init(struct wb *w, uint32_t cap)
{
    w->b = malloc(cap);
    w->n = 0;
    w->cap = cap;
    w->np = 0;
}
void
wb_u8(struct wb *w, uint8_t v)
{
    if (w->n >= w->cap)
        sym_fail_("harness: module buffer too small");
    w->b[w->n++] = v;
}
void
wb_raw(struct wb *w, const void *p, uint32_t n)
{
    const uint8_t *b = p;
    for (uint32_t i = 0; i < n; i++)
        wb_u8(w, b[i]);
}
void
wb_uleb(struct wb *w, uint64_t v)
{
    do {
        uint8_t b = v & 0x7f;
        v >>= 7;
        wb_u8(w, b | (v ? 0x80 : 0));
    } while (v);
}
void
wb_sleb(struct wb *w, int64_t v)
{
    for (;;) {
        uint8_t b = v & 0x7f;
        v >>= 7;
        int done = (v == 0 && !(b & 0x40)) || (v == -1 && (b & 0x40));
        wb_u8(w, b | (done ? 0 : 0x80));
        if (done)
            return;
    }
}
void
wb_u32le(struct wb *w, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        wb_u8(w, (uint8_t)(v >> (8 * i)));
}
void
wb_u64le(struct wb *w, uint64_t v)
{
    for (int i = 0; i < 8; i++)
        wb_u8(w, (uint8_t)(v >> (8 * i)));
}
void
wb_header(struct wb *w)
{
    WB(w, 0, 0x61, 0x73, 0x6d, 1, 0, 0, 0);
}
void
wb_open(struct wb *w)
{
    w->patch[w->np++] = w->n;
    /* five byte LEB128 size, patched later */
    for (int i = 0; i < 5; i++)
        wb_u8(w, 0);
}
bool wb_short;
void
wb_close(struct wb *w)
{
    uint32_t p = w->patch[--w->np];
    uint32_t sz = w->n - p - 5;
    if (wb_short) {
        uint32_t n = 0;
        uint32_t v = sz;
        do {
            uint8_t b = v & 0x7f;
            v >>= 7;
            w->b[p + n++] = (uint8_t)(b | (v ? 0x80 : 0));
        } while (v);
        memmove(w->b + p + n, w->b + p + 5, sz);
        w->n = p + n + sz;
        return;
    }
    for (int i = 0; i < 4; i++)
        w->b[p + i] = (uint8_t)(((sz >> (7 * i)) & 0x7f) | 0x80);
    w->b[p + 4] = (uint8_t)((sz >> 28) & 0x7f);
}
void
wb_sec(struct wb *w, uint8_t id)
{
    wb_u8(w, id);
    wb_open(w);
}
void
wb_name(struct wb *w, const char *s)
{
    uint32_t n = (uint32_t)strlen(s);
    wb_uleb(w, n);
    wb_raw(w, s, n);
}
static uint8_t
tcode(char c)
{
    switch (c) {
    case 'i': return T_I32;
    case 'I': return T_I64;
    case 'f': return T_F32;
    case 'F': return T_F64;
    case 'v': return T_V128;
    case 'r': return T_FUNCREF;
    case 'e': return T_EXTERNREF;
    case 'x': return T_EXNREF;
    }
    sym_fail_("harness: bad type character");
}
void
wb_types(struct wb *w, const char *s)
{
    wb_uleb(w, strlen(s));
    for (; *s; s++)
        wb_u8(w, tcode(*s));
}
void
wb_functype(struct wb *w, const char *params, const char *results)
{
    wb_u8(w, 0x60);
    wb_types(w, params);
    wb_types(w, results);
}

void
wk_init(struct wk *k)
{
    memset(k, 0, sizeof(*k));
    mem_context_init(&k->mctx);
    k->trap = -1;
}

unsigned wk_opts;
void (*wk_setup)(struct wk *);
uint32_t wk_max_frames, wk_max_cells;

int
wk_load(struct wk *k, const uint8_t *p, uint32_t n)
{
    struct load_context lc;
    int mode = rt_fail_mode;
    rt_fail_mode = 0;
    k->buf = malloc(n);
    rt_fail_mode = mode;
    memcpy(k->buf, p, n);
    load_context_init(&lc, &k->mctx);
    if (wk_opts & 1)
        lc.options.generate_jump_table = false;
    if (wk_opts & 2) {
#if defined(TOYWASM_USE_RESULTTYPE_CELLIDX)
        lc.options.generate_resulttype_cellidx = false;
#endif
#if defined(TOYWASM_USE_LOCALTYPE_CELLIDX)
        lc.options.generate_localtype_cellidx = false;
#endif
    }
    int ret = module_create(&k->m, k->buf, k->buf + n, &lc);
    load_context_clear(&lc);
    if (ret)
        k->m = NULL;
    return ret;
}

int
wk_inst(struct wk *k, const struct import_object *imports)
{
    report_init(&k->rep);
    int ret = instance_create(&k->mctx, k->m, &k->inst, imports, &k->rep);
    report_clear(&k->rep);
    if (ret)
        k->inst = NULL;
    return ret;
}

void
wk_must(struct wk *k, struct wb *w)
{
    wk_init(k);
    int ret = wk_load(k, w->b, w->n);
    sym_check(ret == 0, "a valid module is accepted");
    if (ret)
        sym_end();
    ret = wk_inst(k, NULL);
    sym_check(ret == 0, "a valid module can be instantiated");
    if (ret)
        sym_end();
}

int
wk_call(struct wk *k, uint32_t funcidx, const struct val *args,
        struct val *results)
{
    const struct functype *ft = module_functype(k->m, funcidx);
    k->trap = -1;
    exec_context_init(&k->ec, k->inst, &k->mctx);
    if (wk_max_frames)
        k->ec.options.max_frames = wk_max_frames;
    if (wk_max_cells)
        k->ec.options.max_stackcells = wk_max_cells;
    if (wk_setup)
        wk_setup(k);
    int ret = exec_push_vals(&k->ec, &ft->parameter, args);
    if (ret == 0) {
        ret = instance_execute_func(&k->ec, funcidx, &ft->parameter,
                                    &ft->result);
        ret = instance_execute_handle_restart(&k->ec, ret);
    }
    if (ret == 0)
        exec_pop_vals(&k->ec, &ft->result, results);
    else if (ret == ETOYWASMTRAP)
        k->trap = k->ec.trap.trapid;
    exec_context_clear(&k->ec);
    return ret;
}

void
wk_fini(struct wk *k)
{
    if (k->inst)
        instance_destroy(k->inst);
    if (k->m)
        module_destroy(&k->mctx, k->m);
    free(k->buf);
    k->buf = NULL;
    mem_context_clear(&k->mctx);
}

void
wb_fini(struct wb *w)
{
    free(w->b);
}

void
wm_init(struct wm *m)
{
    memset(m, 0, sizeof(*m));
    m->start = -1;
    m->datacount = -1;
    wb_init(&m->imp, 512);
    wb_init(&m->tab, 64);
    wb_init(&m->mem, 64);
    wb_init(&m->tag, 64);
    wb_init(&m->glob, 256);
    wb_init(&m->exp, 512);
    wb_init(&m->elem, 256);
    wb_init(&m->data, 512);
    wb_u8(&m->exp, 0);
}
unsigned
wm_type(struct wm *m, const char *p, const char *r)
{
    for (unsigned i = 0; i < m->nty; i++)
        if (!strcmp(m->ty[i].p, p) && !strcmp(m->ty[i].r, r))
            return i;
    m->ty[m->nty].p = p;
    m->ty[m->nty].r = r;
    return m->nty++;
}
unsigned
wm_fn(struct wm *m, const char *p, const char *r, const char *loc,
      const void *code, uint32_t n)
{
    unsigned i = m->nfn++;
    if (i >= 24)
        sym_fail_("harness: too many functions");
    m->fn[i].ty = wm_type(m, p, r);
    m->fn[i].loc = loc;
    wb_init(&m->fn[i].b, 512);
    wb_raw(&m->fn[i].b, code, n);
    return m->nimpfn + i;
}
struct wb *
wm_code(struct wm *m, unsigned funcidx)
{
    return &m->fn[funcidx - m->nimpfn].b;
}
void
wm_export(struct wm *m, const char *name, uint8_t kind, uint32_t idx)
{
    m->exp.b[0]++;
    wb_name(&m->exp, name);
    wb_u8(&m->exp, kind);
    wb_uleb(&m->exp, idx);
}
static void
wm_sec(struct wb *w, uint8_t id, const struct wb *c)
{
    if (!c->n)
        return;
    wb_sec(w, id);
    wb_raw(w, c->b, c->n);
    wb_close(w);
}
void
wm_emit(struct wm *m, struct wb *w)
{
    wb_init(w, 4096);
    wb_header(w);
    if (m->nty) {
        wb_sec(w, 1);
        wb_uleb(w, m->nty);
        for (unsigned i = 0; i < m->nty; i++)
            wb_functype(w, m->ty[i].p, m->ty[i].r);
        wb_close(w);
    }
    wm_sec(w, 2, &m->imp);
    if (m->nfn) {
        wb_sec(w, 3);
        wb_uleb(w, m->nfn);
        for (unsigned i = 0; i < m->nfn; i++)
            wb_uleb(w, m->fn[i].ty);
        wb_close(w);
    }
    wm_sec(w, 4, &m->tab);
    wm_sec(w, 5, &m->mem);
    wm_sec(w, 13, &m->tag);
    wm_sec(w, 6, &m->glob);
    if (m->exp.b[0])
        wm_sec(w, 7, &m->exp);
    if (m->start >= 0) {
        wb_sec(w, 8);
        wb_uleb(w, (uint32_t)m->start);
        wb_close(w);
    }
    wm_sec(w, 9, &m->elem);
    if (m->datacount >= 0) {
        wb_sec(w, 12);
        wb_uleb(w, (uint32_t)m->datacount);
        wb_close(w);
    }
    if (m->nfn) {
        wb_sec(w, 10);
        wb_uleb(w, m->nfn);
        for (unsigned i = 0; i < m->nfn; i++) {
            const char *l = m->fn[i].loc;
            wb_open(w);
            if (l) {
                wb_uleb(w, strlen(l));
                for (; *l; l++) {
                    wb_u8(w, 1);
                    wb_u8(w, tcode(*l));
                }
            } else
                wb_u8(w, 0);
            wb_raw(w, m->fn[i].b.b, m->fn[i].b.n);
            wb_u8(w, 0x0b);
            wb_close(w);
        }
        wb_close(w);
    }
    wm_sec(w, 11, &m->data);
}
void
wm_must(struct wm *m, struct wk *k)
{
    struct wb w;
    wm_emit(m, &w);
    wk_must(k, &w);
    wb_fini(&w);
}
void
wm_fini(struct wm *m)
{
    wb_fini(&m->imp);
    wb_fini(&m->tab);
    wb_fini(&m->mem);
    wb_fini(&m->tag);
    wb_fini(&m->glob);
    wb_fini(&m->exp);
    wb_fini(&m->elem);
    wb_fini(&m->data);
    for (unsigned i = 0; i < m->nfn; i++)
        wb_fini(&m->fn[i].b);
}
int
wk_call_i32(struct wk *k, uint32_t funcidx, unsigned n, const uint32_t *a,
            uint32_t *res)
{
    struct val v[8], r;
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    for (unsigned i = 0; i < n; i++)
        v[i].u.i32 = a[i];
    int ret = wk_call(k, funcidx, v, &r);
    if (ret == 0 && res)
        *res = r.u.i32;
    return ret;
}

unsigned
wm_type_new(struct wm *m, const char *p, const char *r)
{
    m->ty[m->nty].p = p;
    m->ty[m->nty].r = r;
    return m->nty++;
}
void
wm_import(struct wm *m, const char *mod, const char *name, uint8_t kind)
{
    if (!m->imp.n)
        wb_u8(&m->imp, 0);
    m->imp.b[0]++;
    wb_name(&m->imp, mod);
    wb_name(&m->imp, name);
    wb_u8(&m->imp, kind);
}
unsigned
wm_import_fn(struct wm *m, const char *mod, const char *name, const char *p,
             const char *r)
{
    if (m->nfn)
        sym_fail_("harness: imports must come first");
    wm_import(m, mod, name, 0);
    wb_uleb(&m->imp, wm_type(m, p, r));
    return m->nimpfn++;
}
struct import_object *
wk_exports(struct wk *k, struct instance *inst, const char *mod,
           struct import_object *next)
{
    /* the name is referenced, not copied */
    static struct name names[16];
    static unsigned nnames;
    struct name *n = &names[nnames++ % 16];
    set_name_cstr(n, mod);
    struct import_object *im;
    int ret = import_object_create_for_exports(&k->mctx, inst, n, &im);
    if (ret)
        sym_fail_("harness: import object");
    im->next = next;
    return im;
}
void
wk_imports_destroy(struct wk *k, struct import_object *im)
{
    while (im) {
        struct import_object *n = im->next;
        import_object_destroy(&k->mctx, im);
        im = n;
    }
}
