/*
 * C22: host calls made for WASI path functions.
 *
 * kinds:
 *   0 f which n   any path of n bytes
 *   1 f which     any directory descriptor
 *   2             path_open: any flags and rights
 *   3 f           lookup flags, times
 *   4             preopen names
 */
#include <errno.h>

#include "wasikit.h"

static struct ws s;
static struct os_file files[5];

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir") ||
        wasi_instance_prestat_add(w, "/h/o::guest"))
        sym_fail_("harness: wasi setup");
}
#define P1 16
#define P2 48
#define OUT 96
#define STAT 104
static int
isop(int f)
{
    switch (f) {
    case W_MKDIR:
        return OSO_MKDIR;
    case W_RMDIR:
        return OSO_RMDIR;
    case W_UNLINK:
        return OSO_UNLINK;
    case W_PSTAT:
        return OSO_STAT;
    case W_PSETTIMES:
        return OSO_UTIMES;
    case W_OPEN:
        return OSO_OPEN;
    case W_READLINK:
        return OSO_READLINK;
    case W_LINK:
        return OSO_LINK;
    case W_RENAME:
        return OSO_RENAME;
    default:
        return OSO_SYMLINK;
    }
}
static int
call(int f, uint32_t d1, uint32_t n1, uint32_t d2, uint32_t n2)
{
    switch (f) {
    case W_MKDIR:
    case W_RMDIR:
    case W_UNLINK:
        return WSC(&s, f, d1, P1, n1);
    case W_PSTAT:
        return WSC(&s, f, d1, 1, P1, n1, OUT);
    case W_PSETTIMES:
        return WSC(&s, f, d1, 1, P1, n1, 0, 0, 5);
    case W_OPEN:
        return WSC(&s, f, d1, 1, P1, n1, 0, 2, 2, 0, OUT);
    case W_READLINK:
        return WSC(&s, f, d1, P1, n1, OUT, 20, OUT + 32);
    case W_LINK:
        return WSC(&s, f, d1, 1, P1, n1, d2, P2, n2);
    case W_RENAME:
        return WSC(&s, f, d1, P1, n1, d2, P2, n2);
    default:
        return WSC(&s, W_SYMLINK, P1, n1, d2, P2, n2);
    }
}
static int
two(int f)
{
    return f == W_LINK || f == W_RENAME || f == W_SYMLINK;
}
static unsigned
changes(void)
{
    unsigned n = 0;
    for (unsigned i = 0; i < os_nlog; i++)
        n += os_log[i].op != OSO_FSTAT && os_log[i].op != OSO_CLOSE;
    return n;
}
static int
pathis(const char *t, const char *pre, const uint8_t *b, unsigned n)
{
    for (; *pre; pre++, t++)
        if (*t != *pre)
            return 0;
    unsigned d = 0;
    for (unsigned i = 0; i < n; i++)
        d |= (unsigned)((uint8_t)t[i] ^ b[i]);
    return (d == 0) & (t[n] == 0);
}
static void
init(int f)
{
    const int fns[] = {f, f == W_OPEN ? W_FDSTAT : W_OPEN, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[0], OSK_DIR);
    os_mkfile(&files[1], OSK_REG);
    os_stat = &files[1].st;
    os_open_file = &files[0];
    /* 5: a directory, 6: a file */
    s.mem[P1] = 's';
    s.mem[P1 + 1] = 'u';
    if (WSC(&s, W_OPEN, 3, 0, P1, 2, 2, 2, 2, 0, OUT) || s.err ||
        ld32(s.mem + OUT) != 5)
        sym_fail_("opening a directory fails");
    os_open_file = &files[1];
    if (WSC(&s, W_OPEN, 3, 0, P1, 2, 0, 2, 2, 0, OUT) || s.err ||
        ld32(s.mem + OUT) != 6)
        sym_fail_("opening a file fails");
    s.mem[P1] = 'a';
    s.mem[P1 + 1] = 'b';
    s.mem[P2] = 'c';
    os_nlog = 0;
}

static void
bytes(int f, int which, unsigned n)
{
    init(f);
    uint8_t *b = s.mem + (which ? P2 : P1);
    sym_code(b, n);
    int nul = 0;
    for (unsigned i = 0; i < n; i++)
        nul |= b[i] == 0;
    int abs = n > 0 && b[0] == '/';
    int target = f == W_SYMLINK && !which;
    ws_snap(&s);
    int ret = call(f, 3, which ? 2 : n, 3, which ? n : 1);
    sym_check(ret == 0, "the call returns");
    if (s.err) {
        sym_check((nul && s.err == WE_INVAL) ||
                      (abs && !target && s.err == WE_PERM),
                  "only bad paths are refused");
        sym_check(changes() == 0, "no host call for a refused path");
        sym_reach("refused");
    } else {
        sym_check(!nul, "embedded NUL");
        sym_check(!abs || target, "absolute path");
        sym_check(changes() == 1 && os_count(isop(f)) == 1,
                  "the requested operation is done once");
        struct os_call *c = os_last(isop(f));
        if (f == W_SYMLINK)
            sym_check(pathis(c->path, "", s.before + P1, which ? 2 : n),
                      "target");
        else
            sym_check(pathis(c->path, "dir/", s.before + P1, which ? 2 : n),
                      "path");
        if (two(f))
            sym_check(pathis(c->path2, "dir/", s.before + P2, which ? n : 1),
                      "second path");
        sym_reach("done");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    if (n)
        sym_expect("refused");
}

static void
dirs(int f, int which)
{
    init(f);
    uint32_t d = sym_u32();
    if (d < 7)
        d = (uint32_t)sym_concretize(d);
    const char *pre = d == 3   ? "dir/"
                      : d == 4 ? "/h/o/"
                      : d == 5 ? "dir/su/"
                               : NULL;
    ws_snap(&s);
    int ret = call(f, which ? 3 : d, 2, which ? d : 3, 1);
    sym_check(ret == 0, "the call returns");
    if (pre == NULL) {
        sym_check(s.err == (d < 7 ? WE_NOTDIR : WE_BADF),
                  "only directories have paths");
        sym_check(changes() == 0, "no host call without a directory");
        sym_reach("refused");
    } else {
        sym_check(s.err == 0 && changes() == 1, "the operation is done");
        struct os_call *c = os_last(isop(f));
        if (f == W_SYMLINK)
            sym_check(pathis(c->path, "", s.before + P1, 2), "target");
        else
            sym_check(
                pathis(c->path, which ? "dir/" : pre, s.before + P1, 2),
                "path");
        if (two(f))
            sym_check(
                pathis(c->path2, which ? pre : "dir/", s.before + P2, 1),
                "second path");
        sym_reach("done");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("refused");
}

static void
openflags(void)
{
    init(W_OPEN);
    uint32_t look = sym_u32(), ofl = sym_u32(), fdfl = sym_u32();
    uint64_t rights = sym_u64(), inh = sym_u64();
    int k = (int)sym_choice(5);
    if (k > 1)
        os_mkfile(&files[k], k == 2 ? OSK_STREAM : k == 3 ? OSK_SOCK
                                                          : OSK_TTY);
    os_open_file = &files[k];
    ws_snap(&s);
    int ret = WSC(&s, W_OPEN, 3, look, P1, 2, ofl, rights, inh, fdfl, OUT);
    sym_check(ret == 0, "the call returns");
    int wr = (rights >> 6) & 1, rd = (rights >> 1) & 1;
    if (os_count(OSO_OPEN) == 0) {
        int unsup = (ofl & ~15u) || (fdfl & ~5u) || (look & ~1u);
        sym_check(((ofl & 2) && wr && s.err == WE_ISDIR) ||
                      (unsup && (s.err == WE_INVAL || s.err == WE_NOTSUP)),
                  "refused only if not supported");
        sym_reach("refused");
    } else {
        sym_check(!((ofl & 2) && wr), "directories are not written to");
        struct os_call *c = os_last(OSO_OPEN);
        int h = c->flags;
        sym_check(((h & O_CREAT) != 0) == ((ofl & 1) != 0), "O_CREAT");
        sym_check(((h & O_DIRECTORY) != 0) == ((ofl & 2) != 0),
                  "O_DIRECTORY");
        sym_check(((h & O_EXCL) != 0) == ((ofl & 4) != 0), "O_EXCL");
        sym_check(((h & O_TRUNC) != 0) == ((ofl & 8) != 0), "O_TRUNC");
        sym_check(((h & O_APPEND) != 0) == ((fdfl & 1) != 0), "O_APPEND");
        sym_check(((h & O_NOFOLLOW) != 0) == ((look & 1) == 0),
                  "O_NOFOLLOW");
        sym_check(h & O_NONBLOCK, "the host does not block");
        sym_check((h & O_ACCMODE) == (wr ? rd ? O_RDWR : O_WRONLY : O_RDONLY),
                  "access mode");
        sym_check(pathis(c->path, "dir/", s.before + P1, 2), "path");
        if (h & O_CREAT)
            sym_check(c->a == 0666, "mode of new files");
        if (s.err == 0) {
            uint32_t fd = ld32(s.mem + OUT);
            sym_check(fd == 7, "the number");
            sym_check(WSE(&s, W_FDSTAT, fd, STAT) == 0, "status");
            sym_check((s.mem[STAT + 2] & 4) == (fdfl & 4), "NONBLOCK");
            os_nlog = 0;
            os_open_file = &files[1];
            ret = WSC(&s, W_OPEN, fd, 0, P1, 2, 0, 2, 2, 0, OUT);
            sym_check(ret == 0 && (k == 0 ? s.err == 0
                                          : s.err == WE_NOTDIR &&
                                                os_nlog == 0),
                      "files in the new descriptor");
            sym_reach("opened");
        } else
            sym_check(s.err == WE_ISDIR || s.err == WE_NOTDIR,
                      "errors of the host");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("opened");
    sym_expect("refused");
}

static void
flags(int f)
{
    const int fns[] = {f, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[1], OSK_REG);
    os_stat = &files[1].st;
    if (wasi_instance_add_hostfd(s.wasi, 5, os_mkfd(-1, &files[1], O_RDWR)))
        sym_fail_("harness: add_hostfd");
    int h = -1;
    for (int i = 0; i < OS_NFD; i++)
        if (os_fds[i].open)
            h = i;
    s.mem[P1] = 'a';
    s.mem[P2] = 'b';
    os_nlog = 0;
    uint32_t look = sym_u32(), fst = 0;
    uint64_t at = 0, mt = 0;
    int ret, op, opn;
    if (f != W_SETTIMES && (look & ~1u)) {
        /* unknown lookup flags: not defined */
        sym_end();
    }
    switch (f) {
    case W_PSTAT:
        ret = WSC(&s, f, 3, look, P1, 1, OUT);
        op = OSO_STAT;
        opn = OSO_LSTAT;
        break;
    case W_LINK:
        ret = WSC(&s, f, 3, look, P1, 1, 3, P2, 1);
        sym_check(ret == 0, "the call returns");
        if (look & 1) {
            sym_check(s.err == 0 && os_count(OSO_LINK) == 1, "link");
            sym_reach("done");
        } else {
            sym_check(s.err == WE_NOTSUP && os_nlog == 0,
                      "links to symbolic links are not supported");
            sym_reach("refused");
        }
        os_nlog = 0;
        ws_fini(&s);
        return;
    case W_PSETTIMES:
    case W_SETTIMES:
        fst = sym_u32();
        at = sym_u64();
        mt = sym_u64();
        if (f == W_SETTIMES) {
            look = 1;
            ret = WSC(&s, f, 5, at, mt, fst);
            op = opn = OSO_FUTIMES;
        } else {
            ret = WSC(&s, f, 3, look, P1, 1, at, mt, fst);
            op = OSO_UTIMES;
            opn = OSO_LUTIMES;
        }
        break;
    default:
        return;
    }
    sym_check(ret == 0, "the call returns");
    if (f == W_PSETTIMES || f == W_SETTIMES) {
        if ((fst & 3) == 3 || (fst & 12) == 12) {
            sym_check(s.err == WE_INVAL && os_nlog == 0,
                      "contradictory flags");
            sym_reach("contradictory");
        } else if (s.err) {
            sym_check(fst != 5 && fst != 10 &&
                          (s.err == WE_NOTSUP || s.err == WE_INVAL) &&
                          os_nlog == 0,
                      "other combinations are refused");
            sym_reach("refused");
        } else {
            sym_check(os_nlog == 1 &&
                          (os_log[0].op == op || os_log[0].op == opn),
                      "times are set");
            sym_check(os_log[0].op == ((look & 1) ? op : opn),
                      "symbolic links are followed as requested");
            struct os_call *c = &os_log[0];
            if (f == W_SETTIMES)
                sym_check(c->fd == h, "descriptor");
            else
                sym_check(pathis(c->path, "dir/", s.before + P1, 0) ||
                              pathis(c->path, "dir/", s.mem + P1, 1),
                          "path");
            if (fst == 10) {
                sym_check(c->t[0] == ~0ull, "now");
                sym_reach("now");
            } else {
                sym_check(fst == 5, "flags");
                sym_check(c->t[0] == at / 1000000000 &&
                              c->t[1] == at % 1000000000 / 1000,
                          "access time");
                sym_check(c->t[2] == mt / 1000000000 &&
                              c->t[3] == mt % 1000000000 / 1000,
                          "modification time");
                sym_reach("times");
            }
        }
        sym_expect("now");
        sym_expect("times");
        sym_expect("contradictory");
        sym_expect("refused");
    } else {
        sym_check(s.err == 0 && os_nlog == 1, "success");
        sym_check(os_log[0].op == ((look & 1) ? op : opn),
                  "symbolic links are followed as requested");
        sym_reach("done");
        sym_expect("done");
    }
    os_nlog = 0;
    ws_fini(&s);
}

void
harness_main(void)
{
    int f = (int)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0:
        bytes(f, (int)sym_param(2, 0), (unsigned)sym_param(3, 2));
        break;
    case 1:
        dirs(f, (int)sym_param(2, 0));
        break;
    case 2:
        openflags();
        break;
    case 3:
        flags(f);
        break;
    }
}
