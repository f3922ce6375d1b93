/* wasm kit for WASI: a module which forwards to WASI functions */
#pragma once
#include <fcntl.h>
#include <stdlib.h>

#include "rt_os.h"
#include "wasi.h"
#include "wk.h"

/* number of bytes of the guest's memory (pages of one byte) */
#ifndef WS_MEM
#define WS_MEM 192
#endif

enum {
    W_ARGS_GET,
    W_ARGS_SIZES,
    W_CLOCK_RES,
    W_CLOCK_TIME,
    W_ENV_GET,
    W_ENV_SIZES,
    W_ADVISE,
    W_ALLOCATE,
    W_CLOSE,
    W_DATASYNC,
    W_FDSTAT,
    W_SETFLAGS,
    W_SETRIGHTS,
    W_FILESTAT,
    W_SETSIZE,
    W_SETTIMES,
    W_PREAD,
    W_PRENAME,
    W_PRESTAT,
    W_PWRITE,
    W_READ,
    W_READDIR,
    W_RENUMBER,
    W_SEEK,
    W_SYNC,
    W_TELL,
    W_WRITE,
    W_MKDIR,
    W_PSTAT,
    W_PSETTIMES,
    W_LINK,
    W_OPEN,
    W_READLINK,
    W_RMDIR,
    W_RENAME,
    W_SYMLINK,
    W_UNLINK,
    W_POLL,
    W_EXIT,
    W_RANDOM,
    W_YIELD,
    W_ACCEPT,
    W_RECV,
    W_SEND,
    W_SHUTDOWN,
    W_N,
};
static const struct {
    const char *name, *p, *r;
} ws_fn[W_N] = {
    {"args_get", "ii", "i"},
    {"args_sizes_get", "ii", "i"},
    {"clock_res_get", "ii", "i"},
    {"clock_time_get", "iIi", "i"},
    {"environ_get", "ii", "i"},
    {"environ_sizes_get", "ii", "i"},
    {"fd_advise", "iIIi", "i"},
    {"fd_allocate", "iII", "i"},
    {"fd_close", "i", "i"},
    {"fd_datasync", "i", "i"},
    {"fd_fdstat_get", "ii", "i"},
    {"fd_fdstat_set_flags", "ii", "i"},
    {"fd_fdstat_set_rights", "iII", "i"},
    {"fd_filestat_get", "ii", "i"},
    {"fd_filestat_set_size", "iI", "i"},
    {"fd_filestat_set_times", "iIIi", "i"},
    {"fd_pread", "iiiIi", "i"},
    {"fd_prestat_dir_name", "iii", "i"},
    {"fd_prestat_get", "ii", "i"},
    {"fd_pwrite", "iiiIi", "i"},
    {"fd_read", "iiii", "i"},
    {"fd_readdir", "iiiIi", "i"},
    {"fd_renumber", "ii", "i"},
    {"fd_seek", "iIii", "i"},
    {"fd_sync", "i", "i"},
    {"fd_tell", "ii", "i"},
    {"fd_write", "iiii", "i"},
    {"path_create_directory", "iii", "i"},
    {"path_filestat_get", "iiiii", "i"},
    {"path_filestat_set_times", "iiiiIIi", "i"},
    {"path_link", "iiiiiii", "i"},
    {"path_open", "iiiiiIIii", "i"},
    {"path_readlink", "iiiiii", "i"},
    {"path_remove_directory", "iii", "i"},
    {"path_rename", "iiiiii", "i"},
    {"path_symlink", "iiiii", "i"},
    {"path_unlink_file", "iii", "i"},
    {"poll_oneoff", "iiii", "i"},
    {"proc_exit", "i", ""},
    {"random_get", "ii", "i"},
    {"sched_yield", "", "i"},
    {"sock_accept", "iii", "i"},
    {"sock_recv", "iiiiii", "i"},
    {"sock_send", "iiiii", "i"},
    {"sock_shutdown", "ii", "i"},
};

/* WASI error numbers */
enum {
    WE_OK = 0,
    WE_2BIG = 1,
    WE_ACCES = 2,
    WE_AGAIN = 6,
    WE_BADF = 8,
    WE_EXIST = 20,
    WE_INTR = 27,
    WE_INVAL = 28,
    WE_IO = 29,
    WE_ISDIR = 31,
    WE_LOOP = 32,
    WE_NOENT = 44,
    WE_NOMEM = 48,
    WE_NOTDIR = 54,
    WE_NOTEMPTY = 55,
    WE_NOTSOCK = 57,
    WE_NOTSUP = 58,
    WE_OVERFLOW = 61,
    WE_PERM = 63,
    WE_PIPE = 64,
    WE_RANGE = 68,
    WE_SPIPE = 70,
};

struct ws {
    struct wk k;
    struct wasi_instance *wasi;
    struct import_object *imp;
    struct meminst *mi;
    uint8_t *mem;
    uint32_t err;     /* WASI result of the last call */
    int fn[W_N];      /* function index of the wrapper or -1 */
    uint8_t before[WS_MEM];
};

static struct os_file ws_std[3];

/* memory contents: fixed pattern */
static inline void
ws_fill(struct ws *s)
{
    for (unsigned i = 0; i < WS_MEM; i++)
        s->mem[i] = (uint8_t)(0xa0 + i);
}
static inline void
ws_snap(struct ws *s)
{
    memcpy(s->before, s->mem, WS_MEM);
}

/*
 * fns: the functions to import, ended by W_N. mod: module name. prep: called
 * with the instance before the module is instantiated.
 */
static inline void
ws_init(struct ws *s, const int *fns, const char *mod,
        void (*prep)(struct wasi_instance *))
{
    struct wm m;
    struct wb w;
    memset(s, 0, sizeof(*s));
    for (int i = 0; i < 3; i++) {
        os_mkfile(&ws_std[i], OSK_STREAM);
        os_mkfd(i, &ws_std[i], i ? O_WRONLY : O_RDONLY);
    }
    wk_init(&s->k);
    if (wasi_instance_create(&s->k.mctx, &s->wasi))
        sym_fail_("harness: wasi_instance_create");
    if (prep)
        prep(s->wasi);
    if (import_object_create_for_wasi(&s->k.mctx, s->wasi, &s->imp))
        sym_fail_("harness: import_object_create_for_wasi");
    wm_init(&m);
    for (int i = 0; i < W_N; i++)
        s->fn[i] = -1;
    int n = 0;
    for (const int *p = fns; *p != W_N; p++)
        s->fn[*p] = wm_import_fn(&m, mod, ws_fn[*p].name, ws_fn[*p].p,
                                 ws_fn[*p].r);
    for (const int *p = fns; *p != W_N; p++) {
        unsigned f = wm_fn(&m, ws_fn[*p].p, ws_fn[*p].r, NULL, "", 0);
        struct wb *c = wm_code(&m, f);
        for (unsigned j = 0; ws_fn[*p].p[j]; j++) {
            wb_u8(c, 0x20);
            wb_u8(c, (uint8_t)j);
        }
        wb_u8(c, 0x10);
        wb_uleb(c, (uint32_t)s->fn[*p]);
        s->fn[*p] = (int)f;
        n++;
    }
    (void)n;
    wb_u8(&m.mem, 1);
#if defined(WS_LAZY)
    WB(&m.mem, 0, 1); /* the host's memory grows with its use */
#else
    wb_u8(&m.mem, 0x08); /* page size */
    wb_uleb(&m.mem, WS_MEM);
    wb_u8(&m.mem, 0);
#endif
    wm_export(&m, "memory", 2, 0);
    wm_emit(&m, &w);
    if (wk_load(&s->k, w.b, w.n))
        sym_fail_("harness: module rejected");
    if (wk_inst(&s->k, s->imp))
        sym_fail_("harness: instantiation failed");
    wb_fini(&w);
    wm_fini(&m);
    s->mi = VEC_ELEM(s->k.inst->mems, 0);
    wasi_instance_set_memory(s->wasi, s->mi);
    void *p;
    bool moved;
    if (memory_instance_getptr2(s->mi, 0, 0, WS_MEM, &p, &moved))
        sym_fail_("harness: memory");
    s->mem = p;
#if !defined(WS_LAZY)
    ws_fill(s);
#endif
}
static inline void
ws_fini(struct ws *s)
{
    instance_destroy(s->k.inst);
    s->k.inst = NULL;
    wk_imports_destroy(&s->k, s->imp);
    wasi_instance_destroy(s->wasi);
    wk_fini(&s->k);
}
/* 0, or an error (s->k.trap); s->err is the WASI error number */
static inline int
ws_calla(struct ws *s, int f, const uint64_t *a)
{
    struct val v[10], r;
    if (s->fn[f] < 0)
        sym_fail_("harness: function not imported");
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    for (unsigned i = 0; ws_fn[f].p[i]; i++) {
        if (ws_fn[f].p[i] == 'I')
            v[i].u.i64 = a[i];
        else
            v[i].u.i32 = (uint32_t)a[i];
    }
    s->err = ~0u;
    int ret = wk_call(&s->k, (uint32_t)s->fn[f], v, &r);
    if (ret == 0)
        s->err = r.u.i32;
    return ret;
}
#define WSC(s, f, ...) ws_calla(s, f, (const uint64_t[]){__VA_ARGS__})
/* call which must not fail in any other way than by a WASI error */
#define WSE(s, f, ...)                                                       \
    ({                                                                       \
        int ret_ = WSC(s, f, __VA_ARGS__);                                   \
        sym_check(ret_ == 0, "the WASI call returns");                       \
        (s)->err;                                                            \
    })

static inline uint32_t
ld32(const uint8_t *p)
{
    return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 |
           (uint32_t)p[3] << 24;
}
static inline uint64_t
ld64(const uint8_t *p)
{
    return ld32(p) | (uint64_t)ld32(p + 4) << 32;
}
static inline void
st32(uint8_t *p, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        p[i] = (uint8_t)(v >> (8 * i));
}
static inline void
st64(uint8_t *p, uint64_t v)
{
    st32(p, (uint32_t)v);
    st32(p + 4, (uint32_t)(v >> 32));
}
/* nothing outside of [p, p + n) has changed */
static inline void
ws_only(struct ws *s, uint64_t p, uint64_t n, const char *what)
{
    unsigned bad = 0;
    for (unsigned i = 0; i < WS_MEM; i++)
        bad |= (unsigned)(s->mem[i] != s->before[i]) &
               (unsigned)!((i >= p) & (i - p < n));
    sym_check(!bad, what);
}
static inline int
inmem(uint64_t p, uint64_t n)
{
    return n <= WS_MEM && p <= WS_MEM - n;
}
