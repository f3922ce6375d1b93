/* wasm kit: build small modules, load, instantiate and run them */
#pragma once
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>

#include "toywasm_config.h"

#include "instance.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "report.h"
#include "type.h"
#include "exec.h"
#if !defined(WK_NO_HOST_INSTANCE) /* the header has no guard */
#include "host_instance.h"
#endif

#include "sym.h"

/* ---- module builder ---- */
struct wb {
    uint8_t *b;
    uint32_t n, cap;
    uint32_t patch[8];
    int np;
};

void wb_init(struct wb *w, uint32_t cap);
void wb_u8(struct wb *w, uint8_t v);
void wb_raw(struct wb *w, const void *p, uint32_t n);
void wb_uleb(struct wb *w, uint64_t v);
void wb_sleb(struct wb *w, int64_t v);
void wb_u32le(struct wb *w, uint32_t v);
void wb_u64le(struct wb *w, uint64_t v);
void wb_header(struct wb *w);
/* length-prefixed regions (sections, function bodies) */
void wb_open(struct wb *w);
/* encode sizes in the shortest way */
extern bool wb_short;
void wb_close(struct wb *w);
void wb_sec(struct wb *w, uint8_t id);
void wb_name(struct wb *w, const char *s);
/* "i32" etc. as one character: i I f F v r e x (exnref) */
void wb_types(struct wb *w, const char *s);
void wb_functype(struct wb *w, const char *params, const char *results);

#define WB(w, ...)                                                           \
    do {                                                                     \
        static const uint8_t wb_bytes_[] = {__VA_ARGS__};                    \
        wb_raw(w, wb_bytes_, sizeof(wb_bytes_));                             \
    } while (0)

/* ---- instance ---- */
struct wk {
    struct mem_context mctx;
    struct module *m;
    struct instance *inst;
    struct exec_context ec;
    struct report rep;
    uint8_t *buf; /* exact-size copy of the module bytes */
    int trap; /* trap id of the last call, or -1 */
};

/* load options: bit 0 no jump tables, bit 1 no cell index tables */
extern unsigned wk_opts;
/* limits for calls, 0: none */
extern uint32_t wk_max_frames, wk_max_cells;

/* called for the context of each call, before it starts */
extern void (*wk_setup)(struct wk *);

void wk_init(struct wk *k);
int wk_load(struct wk *k, const uint8_t *p, uint32_t n);
int wk_inst(struct wk *k, const struct import_object *imports);
/* load + instantiate, must succeed */
void wk_must(struct wk *k, struct wb *w);
/* call function; 0 or ETOYWASMTRAP (k->trap set) or another error */
int wk_call(struct wk *k, uint32_t funcidx, const struct val *args,
            struct val *results);
void wk_fini(struct wk *k);
void wb_fini(struct wb *w);

#define T_I32 0x7f
#define T_I64 0x7e
#define T_F32 0x7d
#define T_F64 0x7c
#define T_V128 0x7b
#define T_FUNCREF 0x70
#define T_EXTERNREF 0x6f
#define T_EXNREF 0x69

/* ---- whole modules ---- */
struct wm {
    struct {
        const char *p, *r;
    } ty[24];
    unsigned nty;
    struct {
        unsigned ty;
        const char *loc; /* local types, or NULL */
        struct wb b;     /* code without the final end */
    } fn[24];
    unsigned nfn;
    /* contents of sections including the count, n == 0: absent */
    struct wb imp, tab, mem, tag, glob, exp, elem, data;
    int start;     /* function index or -1 */
    int datacount; /* -1: absent */
    unsigned nimpfn;
};
void wm_init(struct wm *m);
unsigned wm_type(struct wm *m, const char *p, const char *r);
/* returns the function's index */
unsigned wm_fn(struct wm *m, const char *p, const char *r, const char *loc,
               const void *code, uint32_t n);
#define WMF(m, p, r, loc, ...)                                               \
    ({                                                                       \
        static const uint8_t wmf_bytes_[] = {__VA_ARGS__};                   \
        wm_fn(m, p, r, loc, wmf_bytes_, sizeof(wmf_bytes_));                 \
    })
/* code buffer of a function, to append to */
struct wb *wm_code(struct wm *m, unsigned funcidx);
void wm_export(struct wm *m, const char *name, uint8_t kind, uint32_t idx);
void wm_emit(struct wm *m, struct wb *w);
/* emit, load, instantiate; must succeed */
void wm_must(struct wm *m, struct wk *k);
void wm_fini(struct wm *m);
/* call with i32 arguments, at most one i32 result */
int wk_call_i32(struct wk *k, uint32_t funcidx, unsigned n, const uint32_t *a,
                uint32_t *res);
/* a type which is not merged with an equal one */
unsigned wm_type_new(struct wm *m, const char *p, const char *r);
/* function import "m" "f"-style entries; count byte first */
void wm_import(struct wm *m, const char *mod, const char *name, uint8_t kind);
unsigned wm_import_fn(struct wm *m, const char *mod, const char *name,
                      const char *p, const char *r);
/* the exports of an instance, under a module name, in front of next */
struct import_object *wk_exports(struct wk *k, struct instance *inst,
                                 const char *mod,
                                 struct import_object *next);
void wk_imports_destroy(struct wk *k, struct import_object *im);
