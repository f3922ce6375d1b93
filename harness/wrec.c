/*
 * C23: records and error numbers of WASI functions.
 *
 * kinds:
 *   0 f op    the host call fails with any error
 *   1 f u     file status, any values. u: wasi_unstable
 *   2         descriptor status
 *   3         directory entries
 *   4 u       fd_seek and fd_tell
 *   5         sizes and offsets given to the host
 *   6         socket functions
 */
#include <dirent.h>
#include <errno.h>
#include <sys/socket.h>

#include "wasikit.h"

static struct ws s;
static struct os_file files[4];
static struct os_dirent dir[4];
static int hfd;

#define FD 4
#define P1 8
#define P2 16
#define IOV 24
#define RET 32
#define OUT 64

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
}
static void
init(const int *fns, const char *mod, int kind, int flags)
{
    ws_init(&s, fns, mod, prep);
    os_mkfile(&files[0], kind);
    os_stat = &files[0].st;
    if (wasi_instance_add_hostfd(s.wasi, FD,
                                 os_mkfd(-1, &files[0], flags)))
        sym_fail_("harness: add_hostfd");
    for (int i = 0; i < OS_NFD; i++)
        if (os_fds[i].open)
            hfd = i;
    os_nlog = 0;
}
static void
memis(const uint8_t *e, const char *what)
{
    unsigned d = 0;
    for (unsigned i = 0; i < WS_MEM; i++)
        d |= (unsigned)(s.mem[i] ^ e[i]);
    sym_check(d == 0, what);
}

/* the WASI number of the same meaning, or 0 */
static uint32_t
wasi_of(int e)
{
    switch (e) {
#define E(n, h)                                                              \
    case h:                                                                  \
        return n;
        E(1, E2BIG)
        E(2, EACCES)
        E(3, EADDRINUSE)
        E(4, EADDRNOTAVAIL)
        E(5, EAFNOSUPPORT)
        E(6, EAGAIN)
        E(7, EALREADY)
        E(8, EBADF)
        E(9, EBADMSG)
        E(10, EBUSY)
        E(11, ECANCELED)
        E(12, ECHILD)
        E(13, ECONNABORTED)
        E(14, ECONNREFUSED)
        E(15, ECONNRESET)
        E(16, EDEADLK)
        E(17, EDESTADDRREQ)
        E(18, EDOM)
        E(19, EDQUOT)
        E(20, EEXIST)
        E(21, EFAULT)
        E(22, EFBIG)
        E(23, EHOSTUNREACH)
        E(24, EIDRM)
        E(25, EILSEQ)
        E(26, EINPROGRESS)
        E(27, EINTR)
        E(28, EINVAL)
        E(29, EIO)
        E(30, EISCONN)
        E(31, EISDIR)
        E(32, ELOOP)
        E(33, EMFILE)
        E(34, EMLINK)
        E(35, EMSGSIZE)
        E(36, EMULTIHOP)
        E(37, ENAMETOOLONG)
        E(38, ENETDOWN)
        E(39, ENETRESET)
        E(40, ENETUNREACH)
        E(41, ENFILE)
        E(42, ENOBUFS)
        E(43, ENODEV)
        E(44, ENOENT)
        E(45, ENOEXEC)
        E(46, ENOLCK)
        E(47, ENOLINK)
        E(48, ENOMEM)
        E(49, ENOMSG)
        E(50, ENOPROTOOPT)
        E(51, ENOSPC)
        E(52, ENOSYS)
        E(53, ENOTCONN)
        E(54, ENOTDIR)
        E(55, ENOTEMPTY)
        E(56, ENOTRECOVERABLE)
        E(57, ENOTSOCK)
        E(58, ENOTSUP)
        E(59, ENOTTY)
        E(60, ENXIO)
        E(61, EOVERFLOW)
        E(62, EOWNERDEAD)
        E(63, EPERM)
        E(64, EPIPE)
        E(65, EPROTO)
        E(66, EPROTONOSUPPORT)
        E(67, EPROTOTYPE)
        E(68, ERANGE)
        E(69, EROFS)
        E(70, ESPIPE)
        E(71, ESRCH)
        E(72, ESTALE)
        E(73, ETIMEDOUT)
        E(74, ETXTBSY)
        E(75, EXDEV)
    }
    return 0;
}
/* errors which have to be told apart */
static int
listed(int e)
{
    switch (e) {
    case EACCES:
    case EAGAIN:
    case EBADF:
    case ECONNRESET:
    case EEXIST:
    case EINTR:
    case EINVAL:
    case EIO:
    case EISDIR:
    case ELOOP:
    case ENOENT:
    case ENOMEM:
    case ENOSPC:
    case ENOTDIR:
    case ENOTEMPTY:
    case ENOTSOCK:
    case ENOTSUP:
    case EOVERFLOW:
    case EPERM:
    case EPIPE:
    case ERANGE:
    case ESPIPE:
        return 1;
    }
    return 0;
}

static void
errors(int f, int op)
{
    const int fns[] = {f, W_N};
    int kind = f == W_READDIR                                 ? OSK_DIR
               : f == W_ACCEPT || f == W_RECV || f == W_SEND ||
                         f == W_SHUTDOWN
                   ? OSK_SOCK
                   : OSK_REG;
    init(fns, "wasi_snapshot_preview1", kind, O_RDWR | O_NONBLOCK);
    os_mkfile(&files[1], OSK_REG);
    os_open_file = &files[1];
    os_accept_file = &files[0];
    os_link = "x";
    files[0].avail = files[0].size = 8;
    unsigned nopen = os_nopen();
    s.mem[P1] = 'a';
    s.mem[P2] = 'b';
    st32(s.mem + IOV, 100);
    st32(s.mem + IOV + 4, 4);
    ws_snap(&s);
    int e = (int)sym_u8();
    sym_assume(e >= 1 && e <= 133);
    if (op == OSO_READ || op == OSO_WRITE || op == OSO_ACCEPT)
        if (e == EAGAIN)
            sym_end(); /* waits */
    if (op == OSO_READ || op == OSO_WRITE || op == OSO_ACCEPT ||
        op == OSO_RANDOM)
        if (e == EINTR)
            sym_end(); /* may be retried */
    os_fault = 1;
    os_fault_op = op;
    os_fault_errno = e;
    int ret;
    switch (f) {
    case W_CLOCK_RES:
        ret = WSC(&s, f, 1, OUT);
        break;
    case W_CLOCK_TIME:
        ret = WSC(&s, f, 1, 1, OUT);
        break;
    case W_ALLOCATE:
        ret = WSC(&s, f, FD, 1, 2);
        break;
    case W_CLOSE:
    case W_DATASYNC:
    case W_SYNC:
        ret = WSC(&s, f, FD);
        break;
    case W_FDSTAT:
    case W_FILESTAT:
    case W_TELL:
        ret = WSC(&s, f, FD, OUT);
        break;
    case W_SETSIZE:
        ret = WSC(&s, f, FD, 5);
        break;
    case W_SETTIMES:
        ret = WSC(&s, f, FD, 5, 5, 5);
        break;
    case W_PREAD:
    case W_PWRITE:
        ret = WSC(&s, f, FD, IOV, 1, 1, RET);
        break;
    case W_READ:
    case W_WRITE:
        ret = WSC(&s, f, FD, IOV, 1, RET);
        break;
    case W_READDIR:
        ret = WSC(&s, f, FD, OUT, 40, 0, RET);
        break;
    case W_SEEK:
        ret = WSC(&s, f, FD, 1, 0, OUT);
        break;
    case W_MKDIR:
    case W_RMDIR:
    case W_UNLINK:
        ret = WSC(&s, f, 3, P1, 1);
        break;
    case W_PSTAT:
        ret = WSC(&s, f, 3, op == OSO_STAT, P1, 1, OUT);
        break;
    case W_PSETTIMES:
        ret = WSC(&s, f, 3, op == OSO_UTIMES, P1, 1, 0, 0, 5);
        break;
    case W_OPEN:
        ret = WSC(&s, f, 3, 1, P1, 1, 0, 2, 2, 0, OUT);
        break;
    case W_READLINK:
        ret = WSC(&s, f, 3, P1, 1, OUT, 20, RET);
        break;
    case W_LINK:
        ret = WSC(&s, f, 3, 1, P1, 1, 3, P2, 1);
        break;
    case W_RENAME:
        ret = WSC(&s, f, 3, P1, 1, 3, P2, 1);
        break;
    case W_SYMLINK:
        ret = WSC(&s, f, P1, 1, 3, P2, 1);
        break;
    case W_RANDOM:
        ret = WSC(&s, f, OUT, 4);
        break;
    case W_ACCEPT:
        ret = WSC(&s, f, FD, 0, OUT);
        break;
    case W_RECV:
        ret = WSC(&s, f, FD, IOV, 1, 0, RET, OUT);
        break;
    case W_SEND:
        ret = WSC(&s, f, FD, IOV, 1, 0, RET);
        break;
    default:
        ret = WSC(&s, f, FD, 1);
        break;
    }
    sym_check(ret == 0, "the call returns");
    if (os_failed) {
        uint32_t w = wasi_of(e);
        if (listed(e))
            sym_check(s.err == w, "error number of the host's error");
        else
            sym_check(s.err == WE_IO || (w && s.err == w),
                      "other errors");
        sym_check(s.err != 0, "failures are reported");
        if (f != W_CLOSE)
            sym_check(os_nopen() == nopen, "no descriptor is left");
        ws_only(&s, 0, 0, "the memory is unchanged after an error");
        sym_reach("failed");
    } else {
        sym_check(s.err == 0, "success");
        sym_reach("success");
    }
    os_fault = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("failed");
    sym_expect("success");
}

static uint8_t
ftype(uint32_t mode)
{
    switch (mode & S_IFMT) {
    case S_IFBLK:
        return 1;
    case S_IFCHR:
        return 2;
    case S_IFDIR:
        return 3;
    case S_IFREG:
        return 4;
    case S_IFLNK:
        return 7;
    }
    return 0;
}
static void
filestat(int f, int u)
{
    const int fns[] = {f, W_N};
    uint8_t e[WS_MEM];
    init(fns, u ? "wasi_unstable" : "wasi_snapshot_preview1", OSK_SOCK,
         O_RDWR);
    struct stat *st = &files[0].st;
    st->st_dev = sym_u64();
    st->st_ino = sym_u64();
    st->st_nlink = sym_u64();
    st->st_mode = sym_u32();
    st->st_size = (off_t)sym_u64();
    st->st_uid = sym_u32();
    st->st_blocks = (blkcnt_t)sym_u64();
    struct timespec *ts[3] = {&st->st_atim, &st->st_mtim, &st->st_ctim};
    uint64_t t[3];
    for (int i = 0; i < 3; i++) {
        ts[i]->tv_sec = (time_t)(sym_u64() >> 31);
        ts[i]->tv_nsec = (long)(sym_u32() & 0x1fffffff);
        t[i] = (uint64_t)ts[i]->tv_sec * 1000000000 + ts[i]->tv_nsec;
    }
    int sock = SOCK_STREAM + (int)sym_choice(3);
    os_socktype = sock;
    uint8_t type = ftype(st->st_mode);
    if (f == W_FILESTAT && S_ISSOCK(st->st_mode))
        type = sock == SOCK_STREAM ? 6 : sock == SOCK_DGRAM ? 5 : 0;
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    s.mem[P1] = e[P1] = 'x';
    int ret;
    if (f == W_PSTAT)
        ret = WSC(&s, f, 3, 1, P1, 1, OUT);
    else
        ret = WSC(&s, f, FD, OUT);
    sym_check(ret == 0, "the call returns");
    if (u && st->st_nlink > 0xffffffff) {
        sym_check(s.err != 0, "a link count which does not fit");
        memis(e, "the memory is unchanged");
        sym_reach("toobig");
        sym_end();
    }
    sym_check(s.err == 0, "success");
    unsigned n = u ? 56 : 64;
    memset(e + OUT, 0, n);
    st64(e + OUT, st->st_dev);
    st64(e + OUT + 8, st->st_ino);
    e[OUT + 16] = type;
    uint8_t *p = e + OUT + 20;
    if (u) {
        st32(p, (uint32_t)st->st_nlink);
        p += 4;
    } else {
        p += 4;
        st64(p, st->st_nlink);
        p += 8;
    }
    st64(p, (uint64_t)st->st_size);
    for (int i = 0; i < 3; i++)
        st64(p + 8 + 8 * i, t[i]);
    /* padding does not matter */
    for (unsigned i = 17; i < (u ? 20 : 24); i++)
        s.mem[OUT + i] = 0;
    memis(e, "file status");
    sym_reach("done");
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    if (u)
        sym_expect("toobig");
}

static void
fdstat(void)
{
    static const int fns[] = {W_FDSTAT, W_SETFLAGS, W_N};
    uint8_t e[WS_MEM];
    int hf = (int)(sym_u32() & (O_APPEND | O_NONBLOCK | O_ACCMODE));
    init(fns, "wasi_snapshot_preview1", OSK_SOCK, hf);
    files[0].st.st_mode = sym_u32();
    int sock = SOCK_STREAM + (int)sym_choice(3);
    os_socktype = sock;
    uint8_t type = ftype(files[0].st.st_mode);
    if (S_ISSOCK(files[0].st.st_mode))
        type = sock == SOCK_STREAM ? 6 : sock == SOCK_DGRAM ? 5 : 0;
    uint32_t fl = sym_u32();
    int nb = 0;
    if (sym_bool()) {
        int ret = WSC(&s, W_SETFLAGS, FD, fl);
        sym_check(ret == 0, "the call returns");
        if (s.err == 0) {
            sym_check(!(fl & ~5u), "unknown flags are refused");
            nb = (fl >> 2) & 1;
            if (fl & ~4u)
                sym_end(); /* not supported so far */
            sym_reach("set");
        } else {
            sym_check((fl & ~4u) != 0, "O_NONBLOCK can be changed");
            sym_reach("refused");
        }
    }
    uint32_t fd = sym_bool() ? 3 : FD;
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    int ret = WSC(&s, W_FDSTAT, fd, OUT);
    sym_check(ret == 0 && s.err == 0, "success");
    memset(e + OUT, 0, 24);
    uint64_t r = ~0ull;
    const uint64_t seek = 1u << 2 | 1u << 5;
    uint64_t paths = 0;
    /* create dir 9, create file 10, link source 11, target 12, open 13,
     * readlink 15, rename source 16, target 17, filestat get 18,
     * set size 19, set times 20, symlink 24, remove dir 25, unlink 26 */
    static const uint8_t bits[] = {9,  10, 11, 12, 13, 15, 16,
                                   17, 18, 19, 20, 24, 25, 26};
    for (unsigned i = 0; i < sizeof(bits); i++)
        paths |= 1ull << bits[i];
    const uint64_t socks = 1ull << 28 | 1ull << 29;
    const uint64_t reg = 1u << 1 | 1u << 6 | 1u << 22;
    if (fd == 3) {
        type = 3;
    } else {
        e[OUT + 2] = (uint8_t)((hf & O_APPEND ? 1 : 0) | (nb ? 4 : 0));
    }
    e[OUT] = type;
    if (type == 3)
        r = ~(reg | seek | socks);
    else if (type == 2)
        r = ~(paths | seek | socks);
    else if (type == 4)
        r = ~(paths | socks);
    st64(e + OUT + 8, r);
    st64(e + OUT + 16, ~0ull);
    /* only rights which exist matter */
    for (int i = 8; i < 24; i += 8) {
        st64(e + OUT + i, ld64(e + OUT + i) & 0x3fffffff);
        st64(s.mem + OUT + i, ld64(s.mem + OUT + i) & 0x3fffffff);
    }
    s.mem[OUT + 1] = 0;
    for (unsigned i = 4; i < 8; i++)
        s.mem[OUT + i] = 0;
    memis(e, "descriptor status");
    sym_reach("done");
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("set");
    sym_expect("refused");
}

static uint8_t
dtype(uint8_t t)
{
    switch (t) {
    case DT_BLK:
        return 1;
    case DT_CHR:
        return 2;
    case DT_DIR:
        return 3;
    case DT_REG:
        return 4;
    case DT_LNK:
        return 7;
    }
    return 0;
}
static void
dirents(void)
{
    static const int fns[] = {W_READDIR, W_N};
    uint8_t e[WS_MEM];
    init(fns, "wasi_snapshot_preview1", OSK_DIR, O_RDONLY);
    static char names[3][8];
    os_dir = dir;
    os_ndir = 3;
    os_cookie = sym_u64() & 0x1fffffffffffffff;
    sym_assume(os_cookie != 0);
    for (unsigned i = 0; i < 3; i++) {
        for (unsigned j = 0; j < 2 * i + 1; j++) {
            names[i][j] = (char)sym_u8();
            sym_assume(names[i][j] != 0);
        }
        dir[i].name = names[i];
        dir[i].ino = sym_u64();
        dir[i].type = sym_u8();
    }
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    int ret = WSC(&s, W_READDIR, FD, OUT, 100, 0, RET);
    sym_check(ret == 0 && s.err == 0, "success");
    uint8_t *p = e + OUT;
    for (unsigned i = 0; i < 3; i++) {
        st64(p, (i + 1) * os_cookie);
        st64(p + 8, dir[i].ino);
        st32(p + 16, 2 * i + 1);
        st32(p + 20, 0);
        p[20] = dtype(dir[i].type);
        memcpy(p + 24, names[i], 2 * i + 1);
        /* padding */
        for (unsigned j = 21; j < 24; j++)
            s.mem[p - e + j] = 0;
        p += 24 + 2 * i + 1;
    }
    st32(e + RET, (uint32_t)(p - (e + OUT)));
    memis(e, "directory entries");
    sym_reach("done");
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
}

static void
seek(int u)
{
    static const int fns[] = {W_SEEK, W_TELL, W_N};
    init(fns, u ? "wasi_unstable" : "wasi_snapshot_preview1",
         sym_bool() ? OSK_DIR : OSK_REG, O_RDWR);
    int isdir = files[0].kind == OSK_DIR;
    uint64_t pos = sym_u64() >> 1, size = sym_u64() >> 1;
    os_fds[hfd].pos = pos;
    files[0].size = size;
    int64_t off = (int64_t)sym_u64();
    uint32_t wh = sym_u32();
    ws_snap(&s);
    int ret = WSC(&s, W_SEEK, FD, (uint64_t)off, wh, OUT);
    sym_check(ret == 0, "the call returns");
    if (wh > 2 || isdir) {
        sym_check((wh > 2 && s.err == WE_INVAL) || (isdir && s.err == WE_BADF),
                  "seek is refused");
        sym_check(os_count(OSO_SEEK) == 0, "no host call");
        ws_only(&s, 0, 0, "memory after an error");
        sym_reach("refused");
    } else {
        if (u)
            wh = wh == 2 ? 0 : wh + 1;
        uint64_t base = wh == 0 ? 0 : wh == 1 ? pos : size;
        uint64_t r = base + (uint64_t)off;
        int neg = off < 0 && (uint64_t)-off > base;
        int over = off >= 0 && r >> 63;
        if (neg || over) {
            sym_check(s.err == (neg ? WE_INVAL : WE_OVERFLOW),
                      "out of range");
            ws_only(&s, 0, 0, "memory after an error");
            sym_check(os_fds[hfd].pos == pos, "position after an error");
            sym_reach("range");
        } else {
            sym_check(s.err == 0, "seek");
            sym_check(ld64(s.mem + OUT) == r, "new position");
            sym_check(os_fds[hfd].pos == r, "position of the host");
            ws_only(&s, OUT, 8, "memory");
            ret = WSC(&s, W_TELL, FD, OUT);
            sym_check(ret == 0 && s.err == 0, "tell");
            sym_check(ld64(s.mem + OUT) == r, "told position");
            sym_check(os_fds[hfd].pos == r, "position after tell");
            sym_reach("done");
        }
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("range");
    sym_expect("refused");
}

static void
sizes(void)
{
    static const int fns[] = {W_SETSIZE, W_ALLOCATE, W_PREAD, W_PWRITE, W_N};
    init(fns, "wasi_snapshot_preview1", OSK_REG, O_RDWR | O_NONBLOCK);
    uint64_t a = sym_u64(), b = sym_u64();
    int f = fns[sym_choice(4)];
    int ret;
    st32(s.mem + IOV, 100);
    st32(s.mem + IOV + 4, 4);
    files[0].size = 8;
    struct os_call *c;
    switch (f) {
    case W_SETSIZE:
        ret = WSC(&s, f, FD, a);
        c = os_last(OSO_FTRUNCATE);
        break;
    case W_ALLOCATE:
        ret = WSC(&s, f, FD, a, b);
        c = os_last(OSO_FALLOCATE);
        break;
    case W_PREAD:
        ret = WSC(&s, f, FD, IOV, 1, a, RET);
        c = os_last(OSO_READ);
        break;
    default:
        ret = WSC(&s, f, FD, IOV, 1, a, RET);
        c = os_last(OSO_WRITE);
        break;
    }
    sym_check(ret == 0, "the call returns");
    if (c == NULL) {
        sym_check(s.err != 0 && ((a | b) >> 63),
                  "refused only if out of range");
    } else {
        sym_check(c->fd == hfd, "descriptor");
        sym_check(c->a == a, "offset or size");
        if (f == W_ALLOCATE)
            sym_check(c->b == b, "length");
        if (a >> 63 && f != W_ALLOCATE) {
            sym_check(s.err == WE_INVAL, "negative offsets");
            sym_reach("negative");
        } else {
            sym_reach("done");
        }
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("negative");
}

static void
socks(void)
{
    static const int fns[] = {W_RECV, W_SEND, W_SHUTDOWN, W_ACCEPT, W_FDSTAT,
                              W_N};
    init(fns, "wasi_snapshot_preview1", OSK_SOCK, O_RDWR | O_NONBLOCK);
    uint32_t fl = sym_u32();
    int f = fns[sym_choice(4)];
    st32(s.mem + IOV, 100);
    st32(s.mem + IOV + 4, 4);
    files[0].avail = 4;
    int ret;
    switch (f) {
    case W_RECV:
        os_msgflags = sym_bool() ? MSG_TRUNC : 0;
        ws_snap(&s);
        ret = WSC(&s, f, FD, IOV, 1, fl, RET, OUT);
        sym_check(ret == 0, "the call returns");
        if (s.err) {
            sym_check(fl > 1, "plain receive and peek work");
            sym_check(s.err == WE_INVAL || s.err == WE_NOTSUP,
                      "flags are refused");
            sym_check(os_count(OSO_READ) == 0, "no host call");
            sym_reach("refused");
        } else {
            sym_check(fl <= 1, "unknown flags");
            struct os_call *c = os_last(OSO_READ);
            sym_check(c && c->fd == hfd, "descriptor");
            sym_check(((c->flags & MSG_PEEK) != 0) == (fl & 1), "peek");
            sym_check(ld32(s.mem + RET) == 4, "length");
            sym_check((s.mem[OUT] | s.mem[OUT + 1] << 8) ==
                          (os_msgflags ? 1 : 0),
                      "truncation");
            sym_reach("done");
        }
        break;
    case W_SEND:
        ret = WSC(&s, f, FD, IOV, 1, fl, RET);
        sym_check(ret == 0, "the call returns");
        if (fl) {
            sym_check(s.err == WE_INVAL || s.err == WE_NOTSUP, "send flags");
            sym_check(os_count(OSO_WRITE) == 0, "no host call");
        } else {
            sym_check(s.err == 0 && ld32(s.mem + RET) == 4, "sent");
            sym_reach("done");
        }
        break;
    case W_ACCEPT: {
        static struct os_file peer;
        os_mkfile(&peer, OSK_SOCK);
        os_accept_file = &peer;
        ret = WSC(&s, f, FD, fl, RET);
        sym_check(ret == 0, "the call returns");
        if (s.err) {
            sym_check(fl != 0 && fl != 4, "plain accept works");
            sym_check(s.err == WE_INVAL || s.err == WE_NOTSUP,
                      "accept flags are refused");
            sym_check(os_count(OSO_ACCEPT) == 0, "no host call");
            sym_reach("not accepted");
            break;
        }
        sym_check(fl == 0 || fl == 4, "unknown accept flags");
        ret = WSC(&s, W_FDSTAT, ld32(s.mem + RET), OUT);
        sym_check(ret == 0 && s.err == 0, "the new socket exists");
        sym_check((s.mem[OUT + 2] | s.mem[OUT + 3] << 8) == fl,
                  "flags of the new socket");
        ret = WSC(&s, W_FDSTAT, FD, OUT);
        sym_check(ret == 0 && s.err == 0, "the socket remains");
        sym_reach("accepted");
        break;
    }
    default:
        ret = WSC(&s, f, FD, fl);
        sym_check(ret == 0, "the call returns");
        if (s.err) {
            sym_check(fl == 0 || fl > 3, "shutdown flags");
            sym_check(os_count(OSO_SHUTDOWN) == 0, "no host call");
        } else {
            struct os_call *c = os_last(OSO_SHUTDOWN);
            sym_check(fl >= 1 && fl <= 3 && c, "shutdown");
            sym_check(c->flags ==
                          (fl == 1   ? SHUT_RD
                           : fl == 2 ? SHUT_WR
                                     : SHUT_RDWR),
                      "direction");
            sym_reach("shut");
        }
        break;
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("refused");
    sym_expect("accepted");
    sym_expect("not accepted");
    sym_expect("shut");
}

void
harness_main(void)
{
    int f = (int)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0:
        errors(f, (int)sym_param(2, 0));
        break;
    case 1:
        filestat(f, (int)sym_param(2, 0));
        break;
    case 2:
        fdstat();
        break;
    case 3:
        dirents();
        break;
    case 4:
        seek(f);
        break;
    case 5:
        sizes();
        break;
    case 6:
        socks();
        break;
    }
}
