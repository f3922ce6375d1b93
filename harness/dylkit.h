/* shared objects for the dynamic linker */
#pragma once
#define WK_NO_HOST_INSTANCE
#if !defined(DY_HAVE_DYLD_H)
#include "dyld.h"
#endif
#include "rt_os.h"
#include "wk.h"

static int dy_bytes; /* memory has pages of one byte */
/*
 * The first imports of every object. Globals: 0 memory base, 1 table base.
 */
static void
dy_base(struct wm *m)
{
    wm_init(m);
    wm_import(m, "env", "memory", 2);
    if (dy_bytes)
        WB(&m->imp, 8, 0, 0);
    else
        WB(&m->imp, 0, 0);
    wm_import(m, "env", "__indirect_function_table", 1);
    WB(&m->imp, 0x70, 0, 0);
    wm_import(m, "env", "__memory_base", 3);
    WB(&m->imp, 0x7f, 0);
    wm_import(m, "env", "__table_base", 3);
    WB(&m->imp, 0x7f, 0);
}
/* a mutable i32 global */
static void
dy_got(struct wm *m, const char *mod, const char *name)
{
    wm_import(m, mod, name, 3);
    WB(&m->imp, 0x7f, 1);
}

struct dy {
    uint32_t memsize, memalign, tabsize, tabalign;
    const char *needs[4];
    unsigned nneeds;
    const char *info[4]; /* import info: names in env */
    uint32_t flags[4];
    unsigned ninfo;
};
/* five byte encoding of any value */
static void
dy_u32(struct wb *w, uint32_t v)
{
    for (unsigned i = 0; i < 4; i++)
        wb_u8(w, (uint8_t)(v >> 7 * i | 0x80));
    wb_u8(w, v >> 28);
}
static void
dy_mem(struct wb *w, const struct dy *d)
{
    WB(w, 1, 20);
    dy_u32(w, d->memsize);
    dy_u32(w, d->memalign);
    dy_u32(w, d->tabsize);
    dy_u32(w, d->tabalign);
}
static void
dy_needs(struct wb *w, const struct dy *d)
{
    wb_u8(w, 2);
    wb_open(w);
    wb_uleb(w, d->nneeds);
    for (unsigned i = 0; i < d->nneeds; i++)
        wb_name(w, d->needs[i]);
    wb_close(w);
}
static void
dy_info(struct wb *w, const struct dy *d)
{
    wb_u8(w, 4);
    wb_open(w);
    wb_uleb(w, d->ninfo);
    for (unsigned i = 0; i < d->ninfo; i++) {
        wb_name(w, "env");
        wb_name(w, d->info[i]);
        wb_u8(w, (uint8_t)d->flags[i]);
    }
    wb_close(w);
}
static struct wb dy_img[OS_NIMAGES];

/* path of a file whose contents are the module with the dylink section */
static void
dy_file(const char *path, struct wm *m, const struct wb *dylink)
{
    struct wb w, *o = &dy_img[os_nimages];
    wm_emit(m, &w);
    wm_fini(m);
    wb_init(o, w.n + dylink->n + 32);
    wb_raw(o, w.b, 8);
    wb_sec(o, 0);
    wb_name(o, "dylink.0");
    wb_raw(o, dylink->b, dylink->n);
    wb_close(o);
    wb_raw(o, w.b + 8, w.n - 8);
    wb_fini(&w);
    os_images[os_nimages].path = path;
    os_images[os_nimages].b = o->b;
    os_images[os_nimages].n = o->n;
    os_nimages++;
}
static void
dy_obj(const char *path, struct wm *m, const struct dy *d)
{
    struct wb w;
    wb_init(&w, 256);
    dy_mem(&w, d);
    if (d->nneeds)
        dy_needs(&w, d);
    if (d->ninfo)
        dy_info(&w, d);
    dy_file(path, m, &w);
    wb_fini(&w);
}

static struct wk dk;
static struct dyld dl;

static void
dy_init(void)
{
    wk_init(&dk);
    dyld_init(&dl, &dk.mctx);
}
static void
dy_clear(void)
{
    dyld_clear(&dl);
    sym_check(os_nmapped == 0, "an object's file stays mapped");
    sym_check(os_nopen() == 0, "a file stays open");
    for (unsigned i = 0; i < os_nimages; i++)
        wb_fini(&dy_img[i]);
    mem_context_clear(&dk.mctx);
    report_clear(&dk.rep);
    sym_check(rt_live == 0, "memory leak");
}
/* call main's exported function; 0: it returned */
static int
dy_call(const char *name, unsigned n, const uint32_t *a, uint32_t *r)
{
    struct instance *in = dyld_main_object_instance(&dl);
    struct name nm;
    uint32_t idx;
    set_name_cstr(&nm, name);
    if (module_find_export(in->module, &nm, EXTERNTYPE_FUNC, &idx))
        sym_fail_("harness: export");
    struct module *m = dk.m;
    struct instance *o = dk.inst;
    dk.m = (struct module *)in->module;
    dk.inst = in;
    int ret = wk_call_i32(&dk, idx, n, a, r);
    dk.m = m;
    dk.inst = o;
    return ret;
}
