/*
 * C19: failing allocations in WASI.
 *
 * params: 0 kind, 1 number of failures
 *   0: creation of the WASI instance, preopened directories, imports
 *   1: call p2 (see below); then again without failures
 */
#include <errno.h>

#include "wasikit.h"

static struct ws s;
static struct os_file files[4];
static struct os_dirent ents[] = {{"a", 1, 8}, {"bc", 2, 4}};

#define P1 16
#define P2 48
#define OUT 96

static void
setup(void)
{
    struct mem_context mctx;
    mem_context_init(&mctx);
    for (int i = 0; i < 3; i++) {
        os_mkfile(&ws_std[i], OSK_STREAM);
        os_mkfd(i, &ws_std[i], i ? O_WRONLY : O_RDONLY);
    }
    struct wasi_instance *w = NULL;
    struct import_object *io = NULL;
    rt_fail_budget = (int)sym_param(1, 1);
    rt_fail_mode = 1;
    int ret = wasi_instance_create(&mctx, &w);
    if (ret) {
        w = NULL;
        sym_reach("instance");
        goto out;
    }
    ret = wasi_instance_populate_stdio_with_hostfd(w);
    if (ret) {
        sym_reach("stdio");
        goto out;
    }
    ret = wasi_instance_prestat_add(w, "dir");
    if (ret) {
        sym_reach("preopen");
        goto out;
    }
    ret = wasi_instance_prestat_add(w, "/h/o::guest");
    if (ret) {
        sym_reach("mapped preopen");
        goto out;
    }
    ret = import_object_create_for_wasi(&mctx, w, &io);
    if (ret) {
        io = NULL;
        sym_reach("imports");
        goto out;
    }
out:
    rt_fail_mode = 0;
    sym_check((ret != 0) <= (rt_fail_taken != 0), "setup fails");
    if (io)
        import_object_destroy(&mctx, io);
    if (w)
        wasi_instance_destroy(w);
    mem_context_clear(&mctx);
    sym_check(rt_live == 0, "memory leak");
    sym_check(os_nopen() == 3, "host descriptor leak");
    sym_reach("end");
}
static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir") ||
        wasi_instance_prestat_add(w, "/h/o::guest"))
        sym_fail_("harness: wasi setup");
}
static const int op[] = {W_OPEN,  W_MKDIR,   W_RMDIR,    W_UNLINK, W_PSTAT,
                         W_PSETTIMES, W_READLINK, W_LINK, W_RENAME, W_SYMLINK,
                         W_READDIR, W_POLL,  W_READ,     W_WRITE,  W_PRESTAT,
                         W_PRENAME, W_RENUMBER, W_CLOSE};
static int
call(int f)
{
    switch (f) {
    case W_MKDIR:
    case W_RMDIR:
    case W_UNLINK:
        return WSC(&s, f, 3, P1, 2);
    case W_PSTAT:
        return WSC(&s, f, 3, 1, P1, 2, OUT);
    case W_PSETTIMES:
        return WSC(&s, f, 3, 1, P1, 2, 0, 0, 5);
    case W_OPEN:
        return WSC(&s, f, 3, 1, P1, 2, 0, 2, 2, 0, OUT);
    case W_READLINK:
        return WSC(&s, f, 3, P1, 2, OUT, 20, OUT + 32);
    case W_LINK:
        return WSC(&s, f, 3, 1, P1, 2, 4, P2, 3);
    case W_RENAME:
        return WSC(&s, f, 3, P1, 2, 4, P2, 3);
    case W_SYMLINK:
        return WSC(&s, f, P1, 2, 4, P2, 3);
    case W_READDIR:
        return WSC(&s, f, 5, OUT, 60, 0, OUT + 64);
    case W_POLL:
        return WSC(&s, f, P1, OUT, 1, OUT + 64);
    case W_READ:
    case W_WRITE:
        return WSC(&s, f, f == W_WRITE, P2, 2, OUT);
    case W_PRESTAT:
        return WSC(&s, f, 3, OUT);
    case W_PRENAME:
        return WSC(&s, f, 3, OUT, 3);
    case W_RENUMBER:
        return WSC(&s, f, 5, 4);
    default:
        return WSC(&s, f, 5);
    }
}
static void
calls(int f)
{
    const int fns[] = {f, f == W_OPEN ? W_CLOSE : W_OPEN, W_N};
    os_mkfile(&files[0], OSK_DIR);
    os_mkfile(&files[1], OSK_REG);
    os_dir = ents;
    os_ndir = 2;
    os_cookie = 1;
    os_link = "target";
    os_stat = &files[1].st;
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    s.mem[P1] = 'a';
    s.mem[P1 + 1] = 'b';
    s.mem[P2] = 'c';
    s.mem[P2 + 1] = 'd';
    s.mem[P2 + 2] = 'e';
    os_open_file = &files[f != W_OPEN ? 0 : 1];
    if (f == W_READDIR || f == W_RENUMBER || f == W_CLOSE) {
        sym_check(WSE(&s, W_OPEN, 3, 1, P1, 2, 2, 1 << 14, 0, 0, OUT) == 0 &&
                      ld32(s.mem + OUT) == 5,
                  "harness: open");
    }
    if (f == W_POLL) {
        /* a clock which has expired */
        memset(s.mem + P1, 0, 48);
        st32(s.mem + P1 + 16, 1);
    }
    if (f == W_READ || f == W_WRITE) {
        ws_std[0].avail = 20;
        ws_std[1].room = 20;
        st32(s.mem + P2, OUT + 8);
        st32(s.mem + P2 + 4, 4);
        st32(s.mem + P2 + 8, OUT + 16);
        st32(s.mem + P2 + 12, 5);
    }
    unsigned open = os_nopen(), base = open;
    os_nlog = 0;
    rt_fail_budget = (int)sym_param(1, 1);
    rt_fail_mode = 1;
    int ret = call(f);
    rt_fail_mode = 0;
    int taken = rt_fail_taken;
    if (ret == 0 && s.err == 0) {
        sym_reach("success");
        if (f == W_OPEN)
            open++;
        if (f == W_CLOSE || f == W_RENUMBER)
            goto out;
    } else {
        sym_check(taken, "the call fails");
        sym_check(ret != 0 || s.err == WE_NOMEM, "error number");
        sym_reach(ret ? "error" : "error number");
    }
    sym_check(os_nopen() == open, "host descriptors after the call");
    ret = call(f);
    sym_check(ret == 0 && s.err == 0, "the call fails afterwards");
    if (f == W_OPEN)
        sym_check(ld32(s.mem + OUT) == 4 + (os_nopen() - base),
                  "descriptor number");
out:
    ws_fini(&s);
    sym_check(rt_live == 0, "memory leak");
    sym_check(os_nopen() == 3, "host descriptor leak");
}
void
harness_main(void)
{
    if (sym_param(0, 0) == 0)
        setup();
    else
        calls(op[sym_param(2, 0)]);
}
