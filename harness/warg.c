/*
 * C25: arguments, environment, preopened directories, exit code.
 *
 * kinds:
 *   0 env a b c n   n strings of a, b, c bytes at fixed places
 *   1 env a b       two strings, any pointers
 *   2 n             preopened directory given by n bytes
 *   3               any descriptor, any buffer
 *   4               proc_exit
 */
#define WS_MEM 128
#include <errno.h>

#include "wasikit.h"

static struct ws s;
static char str[3][16];
static const char *strs[4];
static unsigned len[3], nstr;
static int env;

static void
anystr(char *p, unsigned n)
{
    sym_bytes(p, n);
    for (unsigned i = 0; i < n; i++)
        sym_assume(p[i] != 0);
    p[n] = 0;
}
static void
prep(struct wasi_instance *w)
{
    static const char *const other[] = {"other", "x=y", NULL};
    for (unsigned i = 0; i < nstr; i++)
        strs[i] = str[i];
    if (env) {
        wasi_instance_set_args(w, 2, other);
        wasi_instance_set_environ(w, (int)nstr, strs);
    } else {
        wasi_instance_set_args(w, (int)nstr, strs);
        wasi_instance_set_environ(w, 2, other);
    }
}
static void
setup(unsigned first)
{
    static const int fns[] = {W_ARGS_GET, W_ARGS_SIZES, W_ENV_GET,
                              W_ENV_SIZES, W_N};
    for (unsigned i = 0; i < nstr; i++) {
        len[i] = (unsigned)sym_param(first + i, 1);
        anystr(str[i], len[i]);
    }
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
}
static unsigned
total(void)
{
    unsigned t = 0;
    for (unsigned i = 0; i < nstr; i++)
        t += len[i] + 1;
    return t;
}
/* whether m holds the strings, found at the address buf by the guest */
static int
good(const uint8_t *argv, const uint8_t *m, uint32_t buf)
{
    unsigned bad = 0, o = 0;
    for (unsigned i = 0; i < nstr; i++) {
        bad |= ld32(argv + 4 * i) != buf + o;
        for (unsigned j = 0; j <= len[i]; j++)
            bad |= m[o + j] != (uint8_t)str[i][j];
        o += len[i] + 1;
    }
    return !bad;
}
static void
fixed(void)
{
    nstr = (unsigned)sym_param(5, 0);
    setup(2);
    ws_snap(&s);
    sym_check(WSE(&s, env ? W_ENV_SIZES : W_ARGS_SIZES, 64, 72) == 0,
              "sizes");
    sym_check(ld32(s.mem + 64) == nstr, "count");
    sym_check(ld32(s.mem + 72) == total(), "size");
    memcpy(s.before + 64, s.mem + 64, 4);
    ws_only(&s, 72, 4, "only the results are written");
    ws_snap(&s);
    sym_check(WSE(&s, env ? W_ENV_GET : W_ARGS_GET, 8, 33) == 0, "get");
    sym_check(good(s.mem + 8, s.mem + 33, 33), "strings");
    if (nstr)
        memcpy(s.before + 8, s.mem + 8, 4 * nstr);
    ws_only(&s, 33, total(), "only the strings and pointers are written");
    ws_fini(&s);
    sym_reach("done");
    sym_expect("done");
}
static void
pointers(void)
{
    nstr = 2;
    setup(2);
    uint32_t p = sym_u32(), q = sym_u32();
    int sizes = (int)sym_choice(2);
    ws_snap(&s);
    int ret;
    if (sizes) {
        ret = WSC(&s, env ? W_ENV_SIZES : W_ARGS_SIZES, p, q);
        if (ret) {
            sym_check(ret == ETOYWASMTRAP, "trap");
            sym_check(!inmem(p, 4) || p % 4 || !inmem(q, 4) || q % 4,
                      "good pointers do not trap");
            sym_reach("trap");
        } else {
            sym_check(s.err == 0, "no error");
            sym_check(inmem(p, 4) && inmem(q, 4) && p % 4 == 0,
                      "bad pointers trap");
            p = (uint32_t)sym_concretize(p);
            sym_check(ld32(s.mem + q) == total(), "size");
            if (p + 4 <= q || q + 4 <= p)
                sym_check(ld32(s.mem + p) == 2, "count");
            sym_reach("sizes");
        }
        sym_expect("sizes");
    } else {
        ret = WSC(&s, env ? W_ENV_GET : W_ARGS_GET, p, q);
        if (ret) {
            sym_check(ret == ETOYWASMTRAP, "trap");
            sym_check(!inmem(p, 8) || p % 4 || !inmem(q, total()),
                      "good pointers do not trap");
            sym_reach("trap");
        } else {
            sym_check(s.err == 0, "no error");
            sym_check(inmem(p, 8) && p % 4 == 0 && inmem(q, total()),
                      "bad pointers trap");
            p = (uint32_t)sym_concretize(p);
            if (p + 8 <= q || q + total() <= p)
                sym_check(good(s.mem + p, s.mem + q, q), "strings");
            sym_reach("get");
        }
        sym_expect("get");
    }
    sym_expect("trap");
    ws_fini(&s);
}

/* ---- preopened directories ---- */
static char dir[16];
static int addret;
static void
prepdir(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "first") ||
        wasi_instance_prestat_add(w, dir) ||
        wasi_instance_prestat_add(w, "a::last"))
        addret = 1;
}
static const int dirfns[] = {W_PRESTAT, W_PRENAME, W_EXIT, W_N};
static void
dirs(unsigned n)
{
    anystr(dir, n);
    ws_init(&s, dirfns, "wasi_snapshot_preview1", prepdir);
    sym_check(!addret, "preopened");
    /* the guest's name follows the first :: */
    unsigned o = 0;
    for (unsigned i = 0; i + 1 < n; i++)
        if (dir[i] == ':' && dir[i + 1] == ':') {
            o = i + 2;
            break;
        }
    if (o)
        sym_reach("mapped");
    else
        sym_reach("plain");
    ws_snap(&s);
    sym_check(WSE(&s, W_PRESTAT, 4, 64) == 0, "prestat");
    sym_check(s.mem[64] == 0 && ld32(s.mem + 68) == n - o, "record");
    ws_only(&s, 64, 8, "only the record is written");
    ws_snap(&s);
    uint32_t l = sym_u32();
    int ret = WSC(&s, W_PRENAME, 4, 64, l);
    sym_check(ret == 0, "the call returns");
    if (s.err) {
        sym_check(l < n - o, "large buffers");
        ws_only(&s, 0, 0, "nothing is written");
        sym_reach("small");
    } else {
        sym_check(l >= n - o, "small buffers");
        unsigned bad = 0;
        for (unsigned i = 0; o + i < n; i++)
            bad |= s.mem[64 + i] != (uint8_t)dir[o + i];
        sym_check(!bad, "name");
        ws_only(&s, 64, n - o, "only the name is written");
        sym_reach("name");
    }
    ws_fini(&s);
    sym_expect("plain");
    if (n >= 2)
        sym_expect("mapped");
    if (n >= 1)
        sym_expect("small");
    sym_expect("name");
}
static void
anyfd(void)
{
    memcpy(dir, "second", 7);
    ws_init(&s, dirfns, "wasi_snapshot_preview1", prepdir);
    uint32_t fd = sym_u32(), p = sym_u32(), l = sym_u32();
    int ret;
    ws_snap(&s);
    int name = (int)sym_choice(2);
    uint32_t n = fd == 3 ? 5 : fd == 4 ? 6 : 4;
    static const char *const names[] = {"first", "second", "last"};
    if (name)
        ret = WSC(&s, W_PRENAME, fd, p, l);
    else
        ret = WSC(&s, W_PRESTAT, fd, p);
    if (fd < 3 || fd > 5) {
        sym_check(ret == 0 && s.err == WE_BADF, "other descriptors");
        ws_only(&s, 0, 0, "nothing is written");
        sym_reach("bad");
    } else if (ret) {
        sym_check(ret == ETOYWASMTRAP, "trap");
        if (name)
            sym_check(!inmem(p, n) && l >= n, "names which do not fit trap");
        else
            sym_check(!inmem(p, 8) || p % 4, "good pointers do not trap");
        ws_only(&s, 0, 0, "nothing is written");
        sym_reach("trap");
    } else if (name) {
        if (s.err) {
            sym_check(l < n, "large buffers");
            ws_only(&s, 0, 0, "nothing is written");
        } else {
            sym_check(l >= n && inmem(p, n), "small buffers");
            unsigned bad = 0, f = (unsigned)sym_concretize(fd) - 3;
            for (unsigned i = 0; names[f][i]; i++)
                bad |= s.mem[p + i] != (uint8_t)names[f][i];
            sym_check(!bad, "name");
            ws_only(&s, p, n, "only the name is written");
            sym_reach("name");
        }
    } else {
        sym_check(s.err == 0 && inmem(p, 8) && p % 4 == 0, "prestat");
        sym_check(s.mem[p] == 0 && ld32(s.mem + p + 4) == n, "record");
        ws_only(&s, p, 8, "only the record is written");
        sym_reach("record");
    }
    ws_fini(&s);
    sym_expect("bad");
    sym_expect("trap");
    sym_expect("name");
    sym_expect("record");
}
static void
ex(void)
{
    ws_init(&s, dirfns, "wasi_snapshot_preview1", prepdir);
    uint32_t code = sym_u32();
    ws_snap(&s);
    int ret = WSC(&s, W_EXIT, code);
    sym_check(ret == ETOYWASMTRAP && s.k.trap == TRAP_VOLUNTARY_EXIT,
              "proc_exit ends the program");
    sym_check(wasi_instance_exit_code(s.wasi) == code, "exit code");
    ws_only(&s, 0, 0, "nothing is written");
    ws_fini(&s);
    sym_reach("exit");
    sym_expect("exit");
}
void
harness_main(void)
{
    env = (int)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0:
        fixed();
        break;
    case 1:
        pointers();
        break;
    case 2:
        dirs((unsigned)env);
        break;
    case 3:
        anyfd();
        break;
    case 4:
        ex();
        break;
    }
}
