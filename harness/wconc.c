/*
 * C20: descriptors used by several threads at a time.
 *
 * params: 0, 1, 2 what the threads do (0: nothing), 3 preemptions,
 *         4 interrupts
 * actions: 1 close 4, 2 close 5, 3 renumber 4 to 5, 4 renumber 5 to 4,
 *          5 read 4, 6 blocking read of 5, 7 poll 5, 8 open, 9 fdstat 4,
 *          10 open and close, 11 write 4, 12 renumber 4 to 4, 13 readdir 4,
 *          14 unlink below 3, 15 close 3, 16 path of 3
 */
#include <errno.h>

#include "cluster.h"
#include "rt_thr.h"
#include "wasikit.h"

static struct ws s;
static struct os_file files[4];
static struct thread {
    int act;
    uint32_t err; /* result */
    uint32_t fd;  /* opened */
    int opened;
    int done;
} th[3];

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
}
static void
addfile(uint32_t n, int kind)
{
    os_mkfile(&files[n - 4], kind);
    if (wasi_instance_add_hostfd(s.wasi, n,
                                 os_mkfd(-1, &files[n - 4], O_RDWR)))
        sym_fail_("harness: add_hostfd");
}
static uint32_t
tcall(int f, const uint64_t *a)
{
    struct exec_context ec;
    const struct functype *ft = module_functype(s.k.m, (uint32_t)s.fn[f]);
    struct val v[10], r;
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    for (unsigned i = 0; ws_fn[f].p[i]; i++) {
        if (ws_fn[f].p[i] == 'I')
            v[i].u.i64 = a[i];
        else
            v[i].u.i32 = (uint32_t)a[i];
    }
    exec_context_init(&ec, s.k.inst, &s.k.mctx);
    sym_check(exec_push_vals(&ec, &ft->parameter, v) == 0, "arguments");
    int ret = instance_execute_func(&ec, (uint32_t)s.fn[f], &ft->parameter,
                                    &ft->result);
    ret = instance_execute_handle_restart(&ec, ret);
    sym_check(ret == 0, "the call returns");
    exec_pop_vals(&ec, &ft->result, &r);
    exec_context_clear(&ec);
    return r.u.i32;
}
#define TC(f, ...) tcall(f, (const uint64_t[]){__VA_ARGS__})
static void
body(void *vp)
{
    struct thread *t = vp;
    uint32_t o = 48 * (uint32_t)(t - th); /* our part of the memory */
    switch (t->act) {
    case 1:
        t->err = TC(W_CLOSE, 4);
        break;
    case 2:
        t->err = TC(W_CLOSE, 5);
        break;
    case 3:
        t->err = TC(W_RENUMBER, 4, 5);
        break;
    case 4:
        t->err = TC(W_RENUMBER, 5, 4);
        break;
    case 12:
        t->err = TC(W_RENUMBER, 4, 4);
        break;
    case 5:
    case 6:
        st32(s.mem + o, o + 8);
        st32(s.mem + o + 4, 1);
        t->err = TC(W_READ, t->act == 5 ? 4 : 5, o, 1, o + 12);
        break;
    case 11:
        st32(s.mem + o, o + 8);
        st32(s.mem + o + 4, 1);
        t->err = TC(W_WRITE, 4, o, 1, o + 12);
        break;
    case 7:
        memset(s.mem + o, 0, 48);
        s.mem[o + 8] = 1;
        st32(s.mem + o + 16, 5);
        t->err = TC(W_POLL, o, o, 1, o + 40);
        break;
    case 8:
    case 10:
        s.mem[o] = 'f';
        t->err = TC(W_OPEN, 3, 0, o, 1, 0, 0x1fffffff, 0x1fffffff, 0, o + 4);
        if (t->err == 0) {
            t->opened = 1;
            t->fd = ld32(s.mem + o + 4);
            if (t->act == 10)
                t->err = TC(W_CLOSE, t->fd);
        }
        break;
    case 9:
        t->err = TC(W_FDSTAT, 4, o);
        break;
    case 13:
        t->err = TC(W_READDIR, 4, o, 32, 0, o + 40);
        if (t->err == 0)
            sym_check(ld32(s.mem + o + 40) == 25 && s.mem[o + 24] == 'e',
                      "the directory entry");
        break;
    case 14:
        s.mem[o] = 'f';
        t->err = TC(W_UNLINK, 3, o, 1);
        break;
    case 15:
        t->err = TC(W_CLOSE, 3);
        break;
    case 16:
        t->err = TC(W_PRESTAT, 3, o);
        break;
    }
    t->done = 1;
}
static void
yield(void)
{
    rt_yield();
}
static void
pollhook(void)
{
    if (os_polls > 12)
        sym_fail_("polls forever");
    if (os_polls >= 2)
        files[1].avail = 4;
}
static int
nact(int a)
{
    int n = 0;
    for (unsigned i = 0; i < 3; i++)
        n += th[i].act == a;
    return n;
}
static int
nok(int a)
{
    int n = 0;
    for (unsigned i = 0; i < 3; i++)
        n += th[i].act == a && th[i].err == 0;
    return n;
}
void
harness_main(void)
{
    static const int need[] = {
        W_N,    W_CLOSE, W_CLOSE,  W_RENUMBER, W_RENUMBER, W_READ,
        W_READ, W_POLL,  W_OPEN,   W_FDSTAT,   W_OPEN,     W_WRITE,
        W_RENUMBER, W_READDIR, W_UNLINK, W_CLOSE, W_PRESTAT};
    int fns[5], nf = 0;
    unsigned n = 0;
    for (unsigned i = 0; i < 3; i++)
        if (sym_param(i, i < 2))
            th[n++].act = (int)sym_param(i, 1);
    fns[nf++] = W_CLOSE;
    for (unsigned i = 0; i < n; i++) {
        int j;
        for (j = 0; j < nf && fns[j] != need[th[i].act]; j++)
            ;
        if (j == nf)
            fns[nf++] = need[th[i].act];
    }
    fns[nf] = W_N;
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, nact(13) ? OSK_DIR : OSK_REG);
    addfile(5, OSK_STREAM);
    files[0].size = 4;
    os_mkfile(&files[2], OSK_REG);
    static struct os_dirent entry = {"e", 1, 0};
    os_dir = &entry;
    os_ndir = 1;
    os_cookie = 1;
    os_open_file = &files[2];
    /* there is nothing to read at first */
    files[1].avail = 0;
    os_ready_file = &files[1];
    os_ready_at = 2;
    int nopen = (int)os_nopen();
    int id[3];
    rt_preempt = (int)sym_param(3, 2);
    rt_quantum = 40;
    os_call_hook = yield;
    os_poll_hook = pollhook;
    for (unsigned i = 0; i < n; i++)
        id[i] = rt_thr_spawn(body, &th[i]);
    for (unsigned i = 0; i < n; i++)
        rt_thr_join(id[i]);
    os_call_hook = NULL;
    os_poll_hook = NULL;
    for (unsigned i = 0; i < n; i++) {
        sym_check(th[i].done, "all calls return");
        sym_check(th[i].err == 0 || th[i].err == WE_BADF, "errors");
        if (th[i].err)
            sym_reach("bad descriptor");
        else
            sym_reach("success");
        /* opened descriptors */
        for (unsigned j = 0; j < i; j++)
            if (th[i].act == 8 && th[j].act == 8 && !th[i].err && !th[j].err)
                sym_check(th[i].fd != th[j].fd, "descriptors are unique");
    }
    /* each successful close or renumbering closes one file */
    int opened = 0, closed = nok(1) + nok(2) + nok(3) + nok(4);
    for (unsigned i = 0; i < n; i++) {
        opened += th[i].opened;
        closed += th[i].act == 10 && th[i].opened && th[i].err == 0;
    }
    sym_check((int)os_nopen() == nopen + opened - closed,
              "open host descriptors");
    if (nact(3) == 0 && nact(4) == 0 && nact(8) == 0 && nact(10) == 0) {
        sym_check(nok(1) == (nact(1) > 0), "4 is closed by one of them");
        sym_check(nok(2) == (nact(2) > 0), "5 is closed by one of them");
        if (!nact(1))
            sym_check(nok(5) == nact(5) && nok(9) == nact(9) &&
                          nok(11) == nact(11) && nok(12) == nact(12),
                      "other calls succeed");
    }
    if (nact(15) == 0)
        sym_check(nok(8) == nact(8) && nok(14) == nact(14) &&
                      nok(16) == nact(16),
                  "the directory works");
    os_nlog = 0;
    ws_fini(&s);
    sym_check(os_nopen() == 5, "all are closed");
    sym_reach("done");
    sym_expect("done");
}
