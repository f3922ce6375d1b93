/*
 * C21: WASI functions while the memory moves. Small memories are allocated as
 * they are used, so that looking up one guest address can move the bytes
 * behind another.
 *
 * params: 0 function
 */
#define WS_LAZY
#define WS_MEM 64
#include <errno.h>

#include "wasikit.h"

static struct ws s;
static struct os_file files[2];
static struct os_dirent dir[2];
static const char *args[] = {"ab", "c"};

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
    wasi_instance_set_args(w, 2, args);
}
static const uint8_t *
at(uint32_t p, uint32_t n)
{
    void *r;
    bool moved;
    if (memory_instance_getptr2(s.mi, p, 0, n, &r, &moved))
        sym_fail_("harness: memory");
    s.mem = s.mi->data;
    return r;
}
static void
is(uint32_t p, const void *e, uint32_t n, const char *what)
{
    sym_check(memcmp(at(p, n), e, n) == 0, what);
}

#define PATHP 40
#define VEC 16

void
harness_main(void)
{
    unsigned f = (unsigned)sym_param(0, W_READ);
    const int fns[] = {(int)f, W_N};
    bool sock = f == W_RECV || f == W_SEND;
    static const uint32_t place[] = {96, 400, 896};
    static const uint8_t perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2},
                                       {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    unsigned c = sym_choice(6);
    uint32_t x = place[perm[c][0]], y = place[perm[c][1]],
             z = place[perm[c][2]];
    uint8_t v[12];
    uint32_t n;
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], sock ? OSK_SOCK : f == W_READDIR ? OSK_DIR : OSK_REG);
    for (unsigned i = 0; i < OS_FSZ; i++)
        files[0].data[i] = (uint8_t)(0x31 + i);
    files[0].size = files[0].avail = 20;
    if (wasi_instance_add_hostfd(
            s.wasi, 4,
            os_mkfd(-1, &files[0], f == W_READDIR ? O_RDONLY : O_RDWR)))
        sym_fail_("harness: add_hostfd");
    os_mkfile(&files[1], OSK_REG);
    os_open_file = &files[1];
    os_stat = &files[1].st;
    dir[0].name = "n1";
    dir[1].name = "name2";
    os_dir = dir;
    os_ndir = 2;
    os_cookie = 1;
    os_link = "target";
    memset(s.mem, 0, WS_MEM);
    st32(s.mem + VEC, x);
    st32(s.mem + VEC + 4, 3);
    st32(s.mem + VEC + 8, y);
    st32(s.mem + VEC + 12, 5);
    s.mem[PATHP] = 'p';
    os_nlog = 0;
    int ret;
    switch (f) {
    case W_READ:
        ret = WSC(&s, f, 4, VEC, 2, z);
        goto readcheck;
    case W_PREAD:
        ret = WSC(&s, f, 4, VEC, 2, 0, z);
        goto readcheck;
    case W_RECV:
        ret = WSC(&s, f, 4, VEC, 2, 0, z, z + 40);
    readcheck:
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "123", 3, "first buffer");
        is(y, "45678", 5, "second buffer");
        is(z, "\x08\0\0\0", 4, "length");
        break;
    case W_WRITE:
        ret = WSC(&s, f, 4, VEC, 2, z);
        goto writecheck;
    case W_PWRITE:
        ret = WSC(&s, f, 4, VEC, 2, 0, z);
        goto writecheck;
    case W_SEND:
        ret = WSC(&s, f, 4, VEC, 2, 0, z);
    writecheck:
        sym_check(ret == 0 && s.err == 0, "success");
        memset(v, 0, sizeof(v));
        sym_check(memcmp(files[0].data, v, 8) == 0, "bytes written");
        is(z, "\x08\0\0\0", 4, "length");
        break;
    case W_READDIR:
        ret = WSC(&s, f, 4, x, 80, 0, z);
        sym_check(ret == 0 && s.err == 0, "success");
        memcpy(&n, at(z, 4), 4);
        sym_check(n == 24 + 2 + 24 + 5, "length");
        is(x + 24, "n1", 2, "first name");
        is(x + 50, "name2", 5, "second name");
        is(x + 24 + 2 + 16, "\5\0\0\0", 4, "length of the second name");
        break;
    case W_READLINK:
        ret = WSC(&s, f, 3, PATHP, 1, x, 20, z);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "target", 6, "target");
        is(z, "\6\0\0\0", 4, "length");
        break;
    case W_ARGS_GET:
        ret = WSC(&s, f, x, y);
        sym_check(ret == 0 && s.err == 0, "success");
        is(y, "ab\0c", 5, "strings");
        st32(v, y);
        st32(v + 4, y + 3);
        is(x, v, 8, "pointers");
        break;
    case W_ARGS_SIZES:
        ret = WSC(&s, f, x, y);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "\2\0\0\0", 4, "count");
        is(y, "\5\0\0\0", 4, "size");
        break;
    case W_OPEN:
        ret = WSC(&s, f, 3, 0, PATHP, 1, 0, 2, 2, 0, x);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "\5\0\0\0", 4, "number");
        break;
    case W_FILESTAT:
        ret = WSC(&s, f, 4, x);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x + 32, "\x14\0\0\0\0\0\0\0", 8, "size");
        break;
    case W_PSTAT:
        files[1].st.st_size = 0x1234;
        ret = WSC(&s, f, 3, 1, PATHP, 1, x);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x + 32, "\x34\x12\0\0\0\0\0\0", 8, "size");
        break;
    case W_RENAME:
        /* the second name consists of zeros */
        ret = WSC(&s, f, 3, PATHP, 1, 3, x, 1);
        sym_check(ret == 0 && s.err != 0 && os_nlog == 0,
                  "a name with a NUL");
        break;
    case W_PRENAME:
        ret = WSC(&s, f, 3, x, 3);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "dir", 3, "name");
        break;
    case W_POLL:
        /* at 0: write to 4 */
        s.mem[0] = 9;
        s.mem[8] = 2;
        st32(s.mem + 16, 4);
        st64(s.mem + 24, 0);
        ret = WSC(&s, f, 0, x, 1, z);
        sym_check(ret == 0 && s.err == 0, "success");
        is(x, "\x09\0\0\0\0\0\0\0\0\0\2", 11, "event");
        is(z, "\1\0\0\0", 4, "number of events");
        break;
    case W_RANDOM:
        ret = WSC(&s, f, x, 300);
        sym_check(ret == 0 && s.err == 0, "success");
        break;
    default:
        sym_fail_("harness: function");
    }
    /* nothing else appears */
    if (f != W_RANDOM)
        is(200, "\0\0\0\0\0\0\0\0", 8, "other bytes");
    sym_reach("done");
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
}
