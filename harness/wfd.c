/*
 * WASI descriptors: histories of operations, failures, bad numbers.
 *
 * params: 0 kind
 *  0 histories (1: number of operations, 2: first operation or 255,
 *    3: failing host calls)
 *  1 path_open with failures (1: 0 host calls, 1 allocations, 2 result
 *    pointer; 2: file kind)
 *  2 directories
 *  3 sock_accept (1: 0 host calls, 1 allocations, 2 result pointer)
 *  4 numbers which are not open (1: function)
 *  5 wasi_instance_add_hostfd
 */
#include "wasikit.h"

static struct ws s;
static struct os_file files[4];
#define PATHP 0
#define RETP 8

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
}
/* the number of host descriptors before any guest call */
static unsigned base_open;

static uint32_t
do_open(uint32_t dirfd, uint32_t oflags)
{
    s.mem[PATHP] = 'x';
    st32(s.mem + RETP, 0xdeadbeef);
    return WSE(&s, W_OPEN, dirfd, 0, PATHP, 1, oflags,
               (oflags & 2) ? 0x2 : 0x42, 0x42, 0, RETP);
}

/* ---- histories ---- */
#define NREF 9
enum { R_NONE, R_HOST, R_PRE };
static struct {
    int kind;
    int hostfd;
} ref[NREF];

static int fewer;
static uint32_t
anyfd(void)
{
    uint32_t fd = sym_u32();
    if (fewer)
        sym_assume(fd >= 3 && fd <= 6);
    if (fd < NREF)
        fd = (uint32_t)sym_concretize(fd);
    return fd;
}
static int
refkind(uint32_t fd)
{
    return fd < NREF ? ref[fd].kind : R_NONE;
}
static int
nref(void)
{
    int n = 0;
    for (int i = 0; i < NREF; i++)
        n += ref[i].kind == R_HOST;
    return n;
}
/* every number refers to what the reference says */
static void
probe(void)
{
    for (uint32_t i = 0; i < NREF; i++) {
        unsigned n = os_nlog;
        os_nlog = 0;
        int f = os_fault;
        os_fault = 0;
        uint32_t e = WSE(&s, W_SYNC, i);
        os_fault = f;
        if (ref[i].kind == R_HOST) {
            sym_check(e == WE_OK && os_nlog == 1 &&
                          os_log[0].op == OSO_FSYNC &&
                          os_log[0].fd == ref[i].hostfd,
                      "an open number refers to its object");
        } else {
            sym_check(e == WE_BADF && os_nlog == 0,
                      "a number without an object is refused");
        }
        if (ref[i].kind == R_PRE)
            sym_check(WSE(&s, W_PRESTAT, i, RETP) == WE_OK,
                      "a preopen stays");
        else
            sym_check(WSE(&s, W_PRESTAT, i, RETP) == WE_BADF,
                      "no preopen appears");
        os_nlog = n;
    }
    sym_check(os_nopen() == base_open - 3 + (unsigned)nref(),
              "host descriptors are open exactly for open objects");
}
static void
history(unsigned n, unsigned first, int faults)
{
    static const int fns[] = {W_OPEN, W_CLOSE, W_RENUMBER, W_SYNC, W_PRESTAT,
                              W_WRITE, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    for (int i = 0; i < 3; i++) {
        ref[i].kind = R_HOST;
        ref[i].hostfd = OS_FIRST + i;
    }
    ref[3].kind = R_PRE;
    base_open = os_nopen();
    os_mkfile(&files[0], OSK_REG);
    os_open_file = &files[0];
    /* two more */
    for (int i = 4; i < 6; i++) {
        sym_check(do_open(3, 0) == WE_OK, "open");
        sym_check(ld32(s.mem + RETP) == (uint32_t)i, "the lowest number");
        ref[i].kind = R_HOST;
        ref[i].hostfd = os_last(OSO_OPEN)->fd;
    }
    probe();
    os_fault = faults;
    os_fault_errno = EIO;
    for (unsigned i = 0; i < n; i++) {
        unsigned op = i == 0 && first < 3 ? first : sym_choice(3);
        os_failed = 0;
        os_nlog = 0;
        uint32_t e, a, b;
        switch (op) {
        case 0:
            a = anyfd();
            e = do_open(a, 0);
            if (refkind(a) != R_PRE) {
                sym_check(e == (refkind(a) == R_NONE ? WE_BADF : WE_NOTDIR),
                          "only directories can be opened from");
                sym_check(os_count(OSO_OPEN) == 0, "and no host call made");
                break;
            }
            if (os_failed) {
                sym_reach("failed");
                sym_check(e == WE_IO || os_failed == OSO_CLOSE,
                          "an error of the host is reported");
                break;
            }
            sym_check(e == WE_OK, "open succeeds");
            b = ld32(s.mem + RETP);
            sym_check(b < NREF && ref[b].kind == R_NONE && b >= 3,
                      "a new number is not in use");
            for (uint32_t j = 3; j < b; j++)
                sym_check(ref[j].kind != R_NONE, "the lowest free number");
            ref[b].kind = R_HOST;
            ref[b].hostfd = os_last(OSO_OPEN)->fd;
            sym_reach("opened");
            break;
        case 1:
            a = anyfd();
            e = WSE(&s, W_CLOSE, a);
            if (refkind(a) == R_NONE) {
                sym_check(e == WE_BADF && os_nlog == 0,
                          "closing a number which is not open");
                break;
            }
            if (ref[a].kind == R_HOST) {
                sym_check(os_count(OSO_CLOSE) == 1 &&
                              os_last(OSO_CLOSE)->fd == ref[a].hostfd,
                          "its host descriptor is closed");
            } else
                sym_check(os_count(OSO_CLOSE) == 0, "nothing to close");
            sym_check(e == (os_failed ? WE_IO : WE_OK), "close reports");
            ref[a].kind = R_NONE;
            sym_reach("closed");
            break;
        case 2:
            a = anyfd();
            b = anyfd();
            e = WSE(&s, W_RENUMBER, a, b);
            if (refkind(a) == R_NONE || refkind(b) == R_NONE) {
                sym_check(e == WE_BADF && os_nlog == 0,
                          "renumbering numbers which are not open");
                break;
            }
            sym_check(e == WE_OK, "renumber succeeds");
            if (a == b) {
                sym_check(os_nlog == 0, "renumbering onto itself");
                break;
            }
            if (ref[b].kind == R_HOST)
                sym_check(os_count(OSO_CLOSE) == 1 &&
                              os_last(OSO_CLOSE)->fd == ref[b].hostfd,
                          "the replaced object is closed");
            else
                sym_check(os_count(OSO_CLOSE) == 0, "nothing to close");
            ref[b] = ref[a];
            ref[a].kind = R_NONE;
            sym_reach("renumbered");
            break;
        }
        probe();
    }
    os_fault = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_check(os_nopen() == 3, "everything is closed at the end");
    for (int i = 0; i < 3; i++)
        sym_check(os_fds[i].open, "the embedder's descriptors stay open");
    sym_expect("opened");
    sym_expect("closed");
    sym_expect("renumbered");
}

/* ---- one creation with failures ---- */
static void
create(int sock, unsigned mode, int kind)
{
    static const int fns[] = {W_OPEN, W_CLOSE, W_SYNC, W_ACCEPT, W_PRESTAT,
                              W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], kind);
    os_open_file = &files[0];
    uint32_t lfd = 0;
    if (sock) {
        os_mkfile(&files[1], OSK_SOCK);
        os_mkfile(&files[2], OSK_SOCK);
        files[1].avail = 1;
        os_accept_file = &files[2];
        if (wasi_instance_add_hostfd(s.wasi, 4,
                                     os_mkfd(-1, &files[1], O_RDWR)))
            sym_fail_("harness: socket");
        lfd = 4;
    }
    base_open = os_nopen();
    os_nlog = 0;
    long live = rt_live;
    if (mode == 0) {
        os_fault = 2;
        os_fault_errno = EACCES;
    }
    if (mode == 1)
        rt_fail_mode = 1;
    uint32_t retp = RETP;
    if (mode == 2)
        retp = sym_u32();
    uint32_t flags = sock ? (uint32_t)sym_concretize(sym_u32() & 4) : 0;
    s.mem[PATHP] = 'x';
    ws_snap(&s);
    int ret;
    if (sock)
        ret = WSC(&s, W_ACCEPT, lfd, flags, retp);
    else
        ret = WSC(&s, W_OPEN, 3, 0, PATHP, 1, 0, 0x2, 0x2, 0, retp);
    rt_fail_mode = 0;
    os_fault = 0;
    sym_check(ret == 0 || mode == 1 || (mode == 2 && ret == ETOYWASMTRAP),
              "the call returns");
    unsigned now = os_nopen();
    sym_check(now == base_open || now == base_open + 1, "at most one opened");
    uint32_t nfd = sock ? 5 : 4;
    unsigned nl = os_nlog;
    os_nlog = 0;
    uint32_t e = s.err;
    uint32_t p = WSE(&s, W_SYNC, nfd);
    sym_check(p == (now == base_open ? WE_BADF : WE_OK),
              "a host descriptor stays open exactly for an open number");
    if (ret == 0 && e == WE_OK) {
        sym_check(now == base_open + 1, "success opens");
        sym_check(ld32(s.mem + retp) == nfd, "the number is stored");
        ws_only(&s, retp, 4, "only the result is stored");
        sym_reach("opened");
    } else if (ret == 0) {
        sym_check(now == base_open, "an error opens nothing");
        ws_only(&s, 0, 0, "an error stores nothing");
        sym_check(mode == 0 ? e == WE_ACCES : mode == 1 ? e == WE_NOMEM : 0,
                  "the error is reported");
        sym_reach("error");
        if (mode == 0 && nl)
            sym_reach("host error");
    } else {
        ws_only(&s, 0, 0, "a trap stores nothing");
        sym_reach("trap");
        if (mode == 2)
            sym_check(!inmem(retp, 4) || retp % 4 != 0, "trap cause");
    }
    if (now == base_open + 1) {
        sym_check(WSE(&s, W_CLOSE, nfd) == WE_OK, "close");
        sym_check(os_nopen() == base_open, "closed");
        if (mode != 1)
            sym_check(rt_live <= live + 1, "nothing leaks");
    } else
        sym_check(rt_live <= live + 1, "nothing leaks");
    ws_fini(&s);
    sym_check(os_nopen() == 3 + (unsigned)sock, "everything is closed");
    sym_check(rt_live == 0, "everything is freed");
    sym_expect("opened");
    sym_expect(mode == 2 ? "trap" : "error");
}

/* ---- directories ---- */
static void
directory(void)
{
    static const int fns[] = {W_OPEN, W_CLOSE, W_READDIR, W_RENUMBER, W_SYNC,
                              W_PSTAT, W_N};
    static struct os_dirent de[] = {{"a", 7, 8}, {"b", 8, 4}};
    static struct stat st;
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], OSK_DIR);
    os_mkfile(&files[1], OSK_REG);
    os_dir = de;
    os_ndir = 2;
    os_stat = &st;
    os_open_file = &files[0];
    sym_check(do_open(3, 2) == WE_OK && ld32(s.mem + RETP) == 4, "open");
    /* relative to the directory which has been opened */
    os_open_file = &files[1];
    sym_check(do_open(4, 0) == WE_OK && ld32(s.mem + RETP) == 5, "open");
    unsigned nread = sym_choice(3);
    for (unsigned i = 0; i < nread; i++) {
        uint32_t e = WSE(&s, W_READDIR, 4, 16, 100, 0, RETP);
        sym_check(e == WE_OK, "readdir");
    }
    os_nlog = 0;
    int hfd = OS_FIRST + 3;
    /* 0 close, 1 replaced, 2 left to the teardown, 3 moved, then closed */
    unsigned how = sym_choice(4);
    switch (how) {
    case 0:
        sym_check(WSE(&s, W_CLOSE, 4) == WE_OK, "close");
        break;
    case 1:
        sym_check(WSE(&s, W_RENUMBER, 5, 4) == WE_OK, "renumber");
        break;
    case 2:
        break;
    case 3:
        sym_check(WSE(&s, W_RENUMBER, 4, 5) == WE_OK, "renumber");
        os_nlog = 0;
        sym_check(WSE(&s, W_CLOSE, 5) == WE_OK, "close");
        break;
    }
    if (how != 2) {
        sym_check(os_count(OSO_CLOSE) == 1 &&
                      os_last(OSO_CLOSE)->fd == hfd,
                  "the directory is closed once");
        sym_reach("closed");
    }
    ws_fini(&s);
    sym_check(os_nopen() == 3, "everything is closed at the end");
    sym_check(rt_live == 0, "everything is freed");
    sym_expect("closed");
}

/* ---- numbers which are not open ---- */
static const int fdfns[] = {
    W_ADVISE,  W_ALLOCATE,  W_CLOSE,   W_DATASYNC, W_FDSTAT,   W_SETFLAGS,
    W_SETRIGHTS, W_FILESTAT, W_SETSIZE, W_SETTIMES, W_PREAD,    W_PRENAME,
    W_PRESTAT, W_PWRITE,    W_READ,    W_READDIR,  W_SEEK,     W_SYNC,
    W_TELL,    W_WRITE,     W_MKDIR,   W_PSTAT,    W_PSETTIMES, W_OPEN,
    W_READLINK, W_RMDIR,    W_UNLINK,  W_ACCEPT,   W_RECV,     W_SEND,
    W_SHUTDOWN,
};
static void
badfd(unsigned i)
{
    int f = fdfns[i];
    int fns[] = {f, f == W_CLOSE ? W_N : W_CLOSE, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], OSK_REG);
    os_open_file = &files[0];
    /* number 1 is closed */
    sym_check(WSE(&s, W_CLOSE, 1) == WE_OK, "close");
    os_nlog = 0;
    uint32_t fd = sym_u32();
    if (fd < 4)
        fd = (uint32_t)sym_concretize(fd);
    if (fd == 0 || fd == 2)
        sym_end();
    uint64_t a[10];
    for (unsigned j = 1; j < 10; j++)
        a[j] = 8;
    a[0] = fd;
    /* arguments which are refused for any descriptor */
    int pre_ok = f == W_PRESTAT || f == W_PRENAME || f == W_FDSTAT ||
                 f == W_SETRIGHTS || f == W_CLOSE;
    switch (f) {
    case W_SETFLAGS:
        a[1] = (sym_u8() & 1) ? 4 : 0;
        break;
    case W_SETTIMES:
        a[3] = 5;
        break;
    case W_PREAD:
    case W_PWRITE:
    case W_READ:
    case W_WRITE:
    case W_RECV:
    case W_SEND:
        a[2] = 1;
        st32(s.mem + 8, 16);
        st32(s.mem + 12, 4);
        if (f == W_RECV || f == W_SEND)
            a[3] = 0;
        break;
    case W_SEEK:
        a[2] = 0;
        break;
    case W_MKDIR:
    case W_RMDIR:
    case W_UNLINK:
    case W_READLINK:
        a[1] = 8;
        a[2] = 1;
        pre_ok = 1;
        break;
    case W_PSTAT:
    case W_PSETTIMES:
    case W_OPEN:
        a[1] = 0;
        a[2] = 8;
        a[3] = 1;
        if (f == W_PSETTIMES)
            a[6] = 5;
        if (f == W_OPEN) {
            a[4] = 0;
            a[5] = 2;
            a[7] = 0;
        }
        pre_ok = 1;
        break;
    case W_ACCEPT:
        a[1] = 0;
        break;
    case W_SHUTDOWN:
        a[1] = 3;
        break;
    }
    s.mem[8] = 'x';
    if (f == W_WRITE || f == W_PWRITE || f == W_READ || f == W_PREAD ||
        f == W_RECV || f == W_SEND)
        st32(s.mem + 8, 16);
    if (fd == 3 && pre_ok)
        sym_end();
    ws_snap(&s);
    int ret = ws_calla(&s, f, a);
    sym_check(ret == 0, "the call returns");
    sym_check(s.err == WE_BADF, "a number which is not open is refused");
    sym_check(os_nlog == 0, "no host call is made");
    ws_only(&s, 0, 0, "nothing is stored");
    sym_reach("refused");
    ws_fini(&s);
    sym_expect("refused");
}

/* ---- embedder's descriptors ---- */
static void
addfd(void)
{
    static const int fns[] = {W_OPEN, W_CLOSE, W_SYNC, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], OSK_REG + (int)sym_choice(5));
    os_mkfile(&files[1], OSK_REG);
    os_open_file = &files[1];
    int h = os_mkfd(-1, &files[0], O_RDWR);
    uint32_t n = sym_choice(8);
    os_fault = 1;
    os_nlog = 0;
    unsigned before = os_nopen();
    rt_fail_mode = sym_bool();
    int ret = wasi_instance_add_hostfd(s.wasi, n, h);
    rt_fail_mode = 0;
    os_fault = 0;
    os_nlog = 0;
    int faults = os_failed || rt_fail_taken;
    if (n < 4) {
        sym_check(ret == EBUSY || (ret != 0 && faults), "number in use");
        sym_reach("busy");
    } else if (ret == 0) {
        sym_check(WSE(&s, W_SYNC, n) == WE_OK &&
                      os_last(OSO_FSYNC)->fd != h &&
                      os_fds[os_last(OSO_FSYNC)->fd].f == &files[0],
                  "the number refers to a copy");
        if (files[0].kind != OSK_TTY)
            sym_check(os_fds[os_last(OSO_FSYNC)->fd].flags & O_NONBLOCK,
                      "host descriptors do not block");
        sym_reach("added");
    } else {
        sym_check(faults, "only failures of the host prevent it");
        sym_check(os_nopen() == before, "nothing is left open");
        sym_check(WSE(&s, W_SYNC, n) == WE_BADF, "the number is not open");
        sym_reach("failed");
    }
    /* the next number */
    sym_check(do_open(3, 0) == WE_OK, "open");
    sym_check(ld32(s.mem + RETP) == (ret == 0 && n == 4 ? 5u : 4u),
              "the lowest free number");
    ws_fini(&s);
    sym_check(os_nopen() == 4, "everything else is closed at the end");
    sym_check(rt_live == 0, "everything is freed");
    sym_expect("busy");
    sym_expect("added");
    sym_expect("failed");
}

void
harness_main(void)
{
    switch (sym_param(0, 0)) {
    case 0:
        fewer = (int)sym_param(4, 0);
        history((unsigned)sym_param(1, 1), (unsigned)sym_param(2, 255),
                (int)sym_param(3, 0));
        break;
    case 1:
        create(0, (unsigned)sym_param(1, 0), (int)sym_param(2, OSK_REG));
        break;
    case 2:
        directory();
        break;
    case 3:
        create(1, (unsigned)sym_param(1, 0), OSK_REG);
        break;
    case 4:
        badfd((unsigned)sym_param(1, 0));
        break;
    case 5:
        addfd();
        break;
    }
}
