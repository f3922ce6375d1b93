/*
 * Model of the host's operating system.
 *
 * External functions NAME which the runtime calls are routed to rt_NAME.
 */
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

#include "rt_os.h"

void rt_wrote(const char *p, size_t n);
#include "sym.h"

int *rt___errno_location(void);
#define ERRNO (*rt___errno_location())

/* ---- stdio output files ---- */

struct rt_file rt_file;
int rt_file_fault;
int rt_file_failed;

static int
file_fault(void)
{
    if (rt_file_fault > 0 && sym_bool()) {
        rt_file_fault--;
        rt_file_failed++;
        ERRNO = ENOSPC;
        return 1;
    }
    return 0;
}

void *
rt_fopen(const char *name, const char *mode)
{
    if (mode[0] != 'w' || rt_file.open)
        sym_fail_("model: fopen");
    if (file_fault())
        return NULL;
    rt_file.n = 0;
    rt_file.error = 0;
    rt_file.open = 1;
    rt_file.opened++;
    return &rt_file;
}
size_t
rt_fwrite(const void *p, size_t sz, size_t n, void *fp)
{
    struct rt_file *f = fp;
    if (!f->open)
        sym_fail_("a closed file is written");
    if (sz == 0 || n == 0)
        return 0;
    if (file_fault()) {
        f->error = 1;
        return 0;
    }
    for (size_t i = 0; i < sz * n; i++) {
        if (f->n >= RT_FMAX)
            sym_fail_("model: file too large");
        f->b[f->n++] = ((const uint8_t *)p)[i];
    }
    return n;
}
int
rt_ferror(void *fp)
{
    return ((struct rt_file *)fp)->error;
}
int
rt_fflush(void *fp)
{
    (void)fp;
    return 0;
}
int
rt_fclose(void *fp)
{
    struct rt_file *f = fp;
    if (!f->open)
        sym_fail_("a file is closed twice");
    f->open = 0;
    f->closed++;
    if (file_fault())
        return -1;
    return 0;
}

/* ---- the rest of the system ---- */

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern uint64_t rt_now;

struct os_fd os_fds[OS_NFD];
struct os_call os_log[OS_NLOG];
unsigned os_nlog;
struct os_file *os_open_file, *os_accept_file;
struct stat *os_stat;
const char *os_link = "target";
int os_msgflags, os_socktype = SOCK_STREAM;
struct os_dirent *os_dir;
unsigned os_ndir;
uint64_t os_cookie = 1;
int os_fault, os_fault_op, os_fault_errno = EIO;
int os_failed;
uint64_t os_xfer_max = 1 << 20;
unsigned os_polls, os_ready_at;
struct os_file *os_ready_file;
int os_last_timeout;
void (*os_poll_hook)(void);
void (*os_call_hook)(void);
uint64_t os_res_ns = 1;
int os_res_clock;
static unsigned os_random;

static struct os_call *
logcall(int op, int fd)
{
    if (os_call_hook)
        os_call_hook();
    if (os_nlog >= OS_NLOG)
        sym_fail_("model: too many system calls");
    struct os_call *c = &os_log[os_nlog++];
    c->op = op;
    c->fd = fd;
    c->flags = 0;
    c->path[0] = c->path2[0] = 0;
    c->a = c->b = 0;
    return c;
}
static void
logpath(char *d, const char *s)
{
    unsigned i;
    for (i = 0; s[i]; i++) {
        if (i + 1 >= OS_PATH)
            sym_fail_("model: path too long");
        d[i] = s[i];
    }
    d[i] = 0;
}
struct os_call *
os_last(int op)
{
    for (unsigned i = os_nlog; i > 0; i--)
        if (os_log[i - 1].op == op)
            return &os_log[i - 1];
    return NULL;
}
unsigned
os_count(int op)
{
    unsigned n = 0;
    for (unsigned i = 0; i < os_nlog; i++)
        n += os_log[i].op == op;
    return n;
}
static int
fails(int op)
{
    if (os_fault > 0 && (os_fault_op == 0 || os_fault_op == op) &&
        sym_bool()) {
        os_fault--;
        os_failed = op;
        ERRNO = os_fault_errno;
        return 1;
    }
    return 0;
}
static int
err(int e)
{
    ERRNO = e;
    return -1;
}
void
os_mkfile(struct os_file *f, int kind)
{
    memset(f, 0, sizeof(*f));
    f->kind = kind;
    f->room = OS_FSZ;
    f->st.st_nlink = 1;
    f->st.st_mode = kind == OSK_REG    ? S_IFREG | 0644
                    : kind == OSK_DIR  ? S_IFDIR | 0755
                    : kind == OSK_SOCK ? S_IFSOCK | 0600
                    : kind == OSK_TTY  ? S_IFCHR | 0600
                                       : S_IFIFO | 0600;
}
int
os_mkfd(int fd, struct os_file *f, int flags)
{
    if (fd < 0) {
        for (fd = OS_FIRST; fd < OS_NFD && os_fds[fd].open; fd++)
            ;
    }
    if (fd >= OS_NFD)
        sym_fail_("model: too many descriptors");
    os_fds[fd].open = 1;
    os_fds[fd].flags = flags;
    os_fds[fd].pos = 0;
    os_fds[fd].f = f;
    os_fds[fd].dir = 0;
    os_fds[fd].image = NULL;
    return fd;
}
unsigned
os_nopen(void)
{
    unsigned n = 0;
    for (int i = 0; i < OS_NFD; i++)
        n += os_fds[i].open;
    return n;
}
/* NULL: error */
static struct os_fd *
getfd(int fd)
{
    if (fd == -1) {
        ERRNO = EBADF;
        return NULL;
    }
    if (fd < 0 || fd >= OS_NFD || !os_fds[fd].open)
        sym_fail_("a host call is made for a descriptor which is not open");
    return &os_fds[fd];
}

int
rt_isatty(int fd)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return 0;
    if (d->f->kind == OSK_TTY)
        return 1;
    ERRNO = ENOTTY;
    return 0;
}
int
rt_fcntl(int fd, int cmd, ...)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    if (cmd == F_GETFL)
        return d->flags;
    if (cmd != F_SETFL)
        sym_fail_("model: fcntl");
    __builtin_va_list ap;
    __builtin_va_start(ap, cmd);
    int v = __builtin_va_arg(ap, int);
    __builtin_va_end(ap);
    struct os_call *c = logcall(OSO_FCNTL, fd);
    c->flags = v;
    if (fails(OSO_FCNTL))
        return -1;
    d->flags = (d->flags & ~(O_APPEND | O_NONBLOCK)) |
               (v & (O_APPEND | O_NONBLOCK));
    return 0;
}
int
rt_dup(int fd)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_DUP, fd);
    if (fails(OSO_DUP))
        return -1;
    return os_mkfd(-1, d->f, d->flags);
}
struct os_image os_images[OS_NIMAGES];
unsigned os_nimages;
int os_nmapped;
static struct os_file image_file;
int
rt_open(const char *path, int flags, ...)
{
    struct os_call *c = logcall(OSO_OPEN, -1);
    logpath(c->path, path);
    c->flags = flags;
    if (flags & O_CREAT) {
        __builtin_va_list ap;
        __builtin_va_start(ap, flags);
        c->a = __builtin_va_arg(ap, unsigned);
        __builtin_va_end(ap);
    }
    if (fails(OSO_OPEN))
        return -1;
    for (unsigned i = 0; i < os_nimages; i++)
        if (!strcmp(os_images[i].path, path)) {
            c->fd = os_mkfd(-1, &image_file, flags & O_ACCMODE);
            os_fds[c->fd].image = &os_images[i];
            return c->fd;
        }
    if (os_open_file == NULL)
        return err(ENOENT);
    if (os_open_file->kind != OSK_DIR && (flags & O_DIRECTORY))
        return err(ENOTDIR);
    if (os_open_file->kind == OSK_DIR && (flags & O_ACCMODE) != O_RDONLY)
        return err(EISDIR);
    if (os_open_file->kind == OSK_REG && (flags & O_TRUNC))
        os_open_file->size = 0;
    c->fd = os_mkfd(-1, os_open_file,
                    flags & (O_ACCMODE | O_APPEND | O_NONBLOCK));
    return c->fd;
}
int
rt_close(int fd)
{
    if (fd == -1)
        return err(EBADF);
    if (fd < 0 || fd >= OS_NFD || !os_fds[fd].open)
        sym_fail_("a host descriptor is closed which is not open");
    logcall(OSO_CLOSE, fd);
    os_fds[fd].open = 0;
    os_fds[fd].closes++;
    if (fails(OSO_CLOSE))
        return -1;
    return 0;
}
int
rt_fstat(int fd, struct stat *st)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_FSTAT, fd);
    if (fails(OSO_FSTAT))
        return -1;
    *st = d->f->st;
    if (d->f->kind == OSK_REG)
        st->st_size = d->f->size;
    if (d->image)
        st->st_size = d->image->n;
    return 0;
}
/* mappings of images */
void *rt_malloc(size_t);
void rt_free(void *);
void *
rt_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return MAP_FAILED;
    if (addr != NULL || off != 0 || d->image == NULL || d->image->n != n)
        sym_fail_("model: mmap");
    if (n == 0) {
        err(EINVAL);
        return MAP_FAILED;
    }
    void *p = rt_malloc(n);
    if (p == NULL)
        return MAP_FAILED;
    memcpy(p, d->image->b, n);
    os_nmapped++;
    return p;
}
int
rt_munmap(void *p, size_t n)
{
    rt_free(p);
    os_nmapped--;
    return 0;
}

/* ---- data ---- */
static size_t
iovtotal(const struct iovec *v, int n)
{
    size_t t = 0;
    for (int i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}
static ssize_t
doread(struct os_fd *d, const struct iovec *v, int n, int at, int64_t off,
       int peek)
{
    struct os_file *f = d->f;
    if (n <= 0 || n > 1024)
        return err(EINVAL);
    if ((d->flags & O_ACCMODE) == O_WRONLY)
        return err(EBADF);
    if (f->kind == OSK_DIR)
        return err(EISDIR);
    if (fails(OSO_READ))
        return -1;
    uint64_t pos, left;
    if (f->kind == OSK_REG) {
        pos = at ? (uint64_t)off : d->pos;
        if (at && off < 0)
            return err(EINVAL);
        left = pos < f->size ? f->size - pos : 0;
    } else {
        if (at)
            return err(ESPIPE);
        pos = d->pos;
        left = f->avail;
        if (left == 0 && !f->hup) {
            if (!(d->flags & O_NONBLOCK) && f->kind != OSK_TTY)
                sym_fail_("the host blocks in a read");
            return err(EAGAIN);
        }
    }
    uint64_t k = 0;
    for (int i = 0; i < n; i++) {
        uint8_t *p = v[i].iov_base;
        for (size_t j = 0; j < v[i].iov_len; j++) {
            if (k >= left || k >= os_xfer_max)
                goto out;
            p[j] = f->data[pos + k];
            k++;
        }
    }
out:
    if (!at && !peek) {
        d->pos += k;
        if (f->kind != OSK_REG)
            f->avail -= k;
    }
    return k;
}
static ssize_t
dowrite(struct os_fd *d, const struct iovec *v, int n, int at, int64_t off)
{
    struct os_file *f = d->f;
    if (n <= 0 || n > 1024)
        return err(EINVAL);
    if ((d->flags & O_ACCMODE) == O_RDONLY)
        return err(EBADF);
    if (fails(OSO_WRITE))
        return -1;
    uint64_t pos, room;
    if (f->kind == OSK_REG) {
        pos = at ? (uint64_t)off : d->pos;
        if (at && off < 0)
            return err(EINVAL);
        if (d->flags & O_APPEND)
            pos = f->size;
        room = pos < OS_FSZ ? OS_FSZ - pos : 0;
        if (room == 0 && iovtotal(v, n))
            return err(EFBIG);
    } else {
        if (at)
            return err(ESPIPE);
        if (f->hup)
            return err(EPIPE);
        pos = f->wrote;
        room = f->room;
        if (room == 0) {
            if (!(d->flags & O_NONBLOCK) && f->kind != OSK_TTY)
                sym_fail_("the host blocks in a write");
            return err(EAGAIN);
        }
    }
    uint64_t k = 0;
    for (int i = 0; i < n; i++) {
        const uint8_t *p = v[i].iov_base;
        for (size_t j = 0; j < v[i].iov_len; j++) {
            if (k >= room || k >= os_xfer_max)
                goto out;
            f->data[pos + k] = p[j];
            k++;
        }
    }
out:
    if (f->kind == OSK_REG) {
        if (pos + k > f->size)
            f->size = pos + k;
        if (!at)
            d->pos = pos + k;
    } else {
        f->wrote += k;
        f->room -= k;
    }
    return k;
}
ssize_t
rt_readv(int fd, const struct iovec *v, int n)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_READ, fd);
    return doread(d, v, n, 0, 0, 0);
}
ssize_t
rt_read(int fd, void *p, size_t n)
{
    struct iovec v = {p, n};
    return rt_readv(fd, &v, 1);
}
ssize_t
rt_preadv(int fd, const struct iovec *v, int n, off_t off)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_READ, fd)->a = off;
    return doread(d, v, n, 1, off, 0);
}
ssize_t
rt_pread(int fd, void *p, size_t n, off_t off)
{
    struct iovec v = {p, n};
    return rt_preadv(fd, &v, 1, off);
}
ssize_t
rt_writev(int fd, const struct iovec *v, int n)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_WRITE, fd);
    return dowrite(d, v, n, 0, 0);
}
ssize_t
rt_write(int fd, const void *p, size_t n)
{
    /* messages to the standard output */
    if (fd == 1)
        rt_wrote(p, n);
    if (fd == 1 || fd == 2)
        return n;
    struct iovec v = {(void *)p, n};
    return rt_writev(fd, &v, 1);
}
ssize_t
rt_pwritev(int fd, const struct iovec *v, int n, off_t off)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_WRITE, fd)->a = off;
    return dowrite(d, v, n, 1, off);
}
ssize_t
rt_pwrite(int fd, const void *p, size_t n, off_t off)
{
    struct iovec v = {(void *)p, n};
    return rt_pwritev(fd, &v, 1, off);
}
off_t
rt_lseek(int fd, off_t off, int whence)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    struct os_call *c = logcall(OSO_SEEK, fd);
    c->a = off;
    c->flags = whence;
    if (fails(OSO_SEEK))
        return -1;
    if (d->f->kind != OSK_REG && d->f->kind != OSK_DIR)
        return err(ESPIPE);
    uint64_t base = whence == SEEK_SET   ? 0
                    : whence == SEEK_CUR ? d->pos
                    : whence == SEEK_END ? d->f->size
                                         : ~0ull;
    if (base == ~0ull)
        return err(EINVAL);
    if (off >= 0 && base + (uint64_t)off > INT64_MAX)
        return err(EOVERFLOW);
    int64_t r = (int64_t)(base + (uint64_t)off);
    if (r < 0)
        return err(EINVAL);
    d->pos = r;
    return r;
}
int
rt_ftruncate(int fd, off_t n)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_FTRUNCATE, fd)->a = n;
    if (fails(OSO_FTRUNCATE))
        return -1;
    if (n < 0 || d->f->kind != OSK_REG)
        return err(EINVAL);
    return 0;
}
int
rt_posix_fallocate(int fd, off_t o, off_t n)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return EBADF;
    struct os_call *c = logcall(OSO_FALLOCATE, fd);
    c->a = o;
    c->b = n;
    if (fails(OSO_FALLOCATE))
        return os_fault_errno;
    return 0;
}
int
rt_fsync(int fd)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_FSYNC, fd);
    return fails(OSO_FSYNC) ? -1 : 0;
}
int
rt_fdatasync(int fd)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_FDATASYNC, fd);
    return fails(OSO_FDATASYNC) ? -1 : 0;
}
static void
logtimes(struct os_call *c, const struct timeval *tv)
{
    c->t[0] = ~0ull;
    if (tv) {
        c->t[0] = tv[0].tv_sec;
        c->t[1] = tv[0].tv_usec;
        c->t[2] = tv[1].tv_sec;
        c->t[3] = tv[1].tv_usec;
    }
}
int
rt_futimes(int fd, const struct timeval *tv)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logtimes(logcall(OSO_FUTIMES, fd), tv);
    return fails(OSO_FUTIMES) ? -1 : 0;
}

/* ---- paths ---- */
static int
pathop(int op, const char *a, const char *b)
{
    struct os_call *c = logcall(op, -1);
    logpath(c->path, a);
    if (b)
        logpath(c->path2, b);
    return fails(op) ? -1 : 0;
}
int
rt_utimes(const char *p, const struct timeval *tv)
{
    struct os_call *c = logcall(OSO_UTIMES, -1);
    logpath(c->path, p);
    logtimes(c, tv);
    return fails(OSO_UTIMES) ? -1 : 0;
}
int
rt_lutimes(const char *p, const struct timeval *tv)
{
    struct os_call *c = logcall(OSO_LUTIMES, -1);
    logpath(c->path, p);
    logtimes(c, tv);
    return fails(OSO_LUTIMES) ? -1 : 0;
}
int
rt_mkdir(const char *p, mode_t m)
{
    int r = pathop(OSO_MKDIR, p, NULL);
    os_last(OSO_MKDIR)->a = m;
    return r;
}
int
rt_rmdir(const char *p)
{
    return pathop(OSO_RMDIR, p, NULL);
}
int
rt_unlink(const char *p)
{
    return pathop(OSO_UNLINK, p, NULL);
}
int
rt_rename(const char *a, const char *b)
{
    return pathop(OSO_RENAME, a, b);
}
int
rt_link(const char *a, const char *b)
{
    return pathop(OSO_LINK, a, b);
}
int
rt_symlink(const char *a, const char *b)
{
    return pathop(OSO_SYMLINK, a, b);
}
ssize_t
rt_readlink(const char *p, char *buf, size_t n)
{
    if (pathop(OSO_READLINK, p, NULL))
        return -1;
    if ((ssize_t)n <= 0)
        return err(EINVAL);
    size_t i;
    for (i = 0; i < n && os_link[i]; i++)
        buf[i] = os_link[i];
    return i;
}
static int
dostat(int op, const char *p, struct stat *st)
{
    if (pathop(op, p, NULL))
        return -1;
    if (os_stat == NULL)
        return err(ENOENT);
    *st = *os_stat;
    return 0;
}
int
rt_stat(const char *p, struct stat *st)
{
    return dostat(OSO_STAT, p, st);
}
int
rt_lstat(const char *p, struct stat *st)
{
    return dostat(OSO_LSTAT, p, st);
}

/* ---- directories ---- */
struct os_DIR {
    int open, fd;
    uint64_t pos;
    struct dirent de;
};
static struct os_DIR dirs[4];
static struct os_DIR *
getdir(void *p)
{
    struct os_DIR *d = p;
    if (!d->open)
        sym_fail_("a directory stream is used which is not open");
    getfd(d->fd);
    return d;
}
void *
rt_fdopendir(int fd)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return NULL;
    logcall(OSO_OPENDIR, fd);
    if (fails(OSO_OPENDIR))
        return NULL;
    if (d->f->kind != OSK_DIR) {
        ERRNO = ENOTDIR;
        return NULL;
    }
    if (d->dir)
        sym_fail_("two directory streams for one descriptor");
    for (int i = 0; i < 4; i++)
        if (!dirs[i].open) {
            dirs[i].open = 1;
            dirs[i].fd = fd;
            dirs[i].pos = 0;
            d->dir = 1;
            return &dirs[i];
        }
    sym_fail_("model: too many directory streams");
}
int
rt_closedir(void *p)
{
    struct os_DIR *d = getdir(p);
    logcall(OSO_CLOSEDIR, d->fd);
    d->open = 0;
    return rt_close(d->fd);
}
void *
rt_readdir(void *p)
{
    struct os_DIR *d = getdir(p);
    logcall(OSO_READDIR, d->fd);
    if (fails(OSO_READDIR))
        return NULL;
    if (d->pos >= os_ndir)
        return NULL;
    struct os_dirent *e = &os_dir[d->pos++];
    d->de.d_ino = e->ino;
    d->de.d_type = e->type;
    unsigned i;
    for (i = 0; e->name[i]; i++)
        d->de.d_name[i] = e->name[i];
    d->de.d_name[i] = 0;
    return &d->de;
}
long
rt_telldir(void *p)
{
    return getdir(p)->pos * os_cookie;
}
void
rt_seekdir(void *p, long pos)
{
    struct os_DIR *d = getdir(p);
    logcall(OSO_SEEKDIR, d->fd)->a = pos;
    for (uint64_t i = 0; i <= os_ndir; i++)
        if ((uint64_t)pos == i * os_cookie) {
            d->pos = i;
            return;
        }
    /* a position which telldir() has not returned */
    d->pos = os_ndir;
}
void
rt_rewinddir(void *p)
{
    struct os_DIR *d = getdir(p);
    logcall(OSO_REWINDDIR, d->fd);
    d->pos = 0;
}

/* ---- sockets ---- */
int
rt_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_ACCEPT, fd);
    if (fails(OSO_ACCEPT))
        return -1;
    if (d->f->kind != OSK_SOCK)
        return err(ENOTSOCK);
    if (sa != NULL) {
        if ((int)*len < 0)
            return err(EINVAL);
        unsigned n = *len < 16 ? *len : 16;
        memset(sa, 0, n);
        *len = 16;
    }
    if (d->f->avail == 0) {
        if (!(d->flags & O_NONBLOCK))
            sym_fail_("the host blocks in accept");
        return err(EAGAIN);
    }
    d->f->avail--;
    return os_mkfd(-1, os_accept_file, O_RDWR);
}
ssize_t
rt_recvmsg(int fd, struct msghdr *m, int flags)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_READ, fd)->flags = flags;
    if (d->f->kind != OSK_SOCK)
        return err(ENOTSOCK);
    ssize_t n = doread(d, m->msg_iov, m->msg_iovlen, 0, 0,
                       (flags & MSG_PEEK) != 0);
    if (n >= 0)
        m->msg_flags = os_msgflags;
    return n;
}
ssize_t
rt_sendmsg(int fd, const struct msghdr *m, int flags)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_WRITE, fd)->flags = flags;
    if (d->f->kind != OSK_SOCK)
        return err(ENOTSOCK);
    return dowrite(d, m->msg_iov, m->msg_iovlen, 0, 0);
}
int
rt_shutdown(int fd, int how)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    logcall(OSO_SHUTDOWN, fd)->flags = how;
    if (d->f->kind != OSK_SOCK)
        return err(ENOTSOCK);
    return fails(OSO_SHUTDOWN) ? -1 : 0;
}
int
rt_getsockopt(int fd, int level, int opt, void *p, socklen_t *len)
{
    struct os_fd *d = getfd(fd);
    if (d == NULL)
        return -1;
    if (d->f->kind != OSK_SOCK)
        return err(ENOTSOCK);
    if (level != SOL_SOCKET || opt != SO_TYPE || *len < sizeof(int))
        sym_fail_("model: getsockopt");
    *(int *)p = os_socktype;
    *len = sizeof(int);
    return 0;
}

/* ---- waiting ---- */
int
rt_poll(struct pollfd *p, nfds_t n, int timeout)
{
    os_polls++;
    if (os_polls > 24)
        sym_fail_("the runtime polls forever");
    logcall(OSO_POLL, -1)->flags = timeout;
    os_last_timeout = timeout;
    if (os_poll_hook)
        os_poll_hook();
    if (fails(OSO_POLL))
        return -1;
    if (os_ready_file && os_ready_at == os_polls) {
        os_ready_file->avail = 1;
        os_ready_file->room = 1;
    }
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0)
            continue;
        struct os_fd *d = getfd(p[i].fd);
        int r = 0;
        if (d->f->kind == OSK_REG || d->f->kind == OSK_DIR)
            r = POLLIN | POLLOUT;
        else {
            if (d->f->avail)
                r |= POLLIN;
            if (d->f->room)
                r |= POLLOUT;
        }
        r &= p[i].events;
        if (d->f->kind != OSK_REG && d->f->kind != OSK_DIR)
            r |= d->f->hup;
        p[i].revents = r;
        k += r != 0;
    }
    if (k == 0) {
        if (timeout < 0)
            sym_fail_("the host blocks in poll");
        rt_now += (uint64_t)timeout * 1000000;
    }
    return k;
}
int
rt_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    rt_now += (uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
    return 0;
}
int
rt_clock_getres(clockid_t id, struct timespec *ts)
{
    os_res_clock = (int)id;
    if (fails(OSO_CLOCK))
        return -1;
    ts->tv_sec = os_res_ns / 1000000000;
    ts->tv_nsec = os_res_ns % 1000000000;
    return 0;
}
ssize_t
rt_getrandom(void *p, size_t n, unsigned flags)
{
    logcall(OSO_RANDOM, -1)->a = n;
    if (fails(OSO_RANDOM))
        return -1;
    if (n > os_xfer_max)
        n = os_xfer_max;
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)p)[i] = (uint8_t)(0xc0 + os_random++);
    return n;
}

/* ---- messages ---- */
void *
rt_localtime_r(const time_t *t, void *tm)
{
    memset(tm, 0, sizeof(struct tm));
    return tm;
}
size_t
rt_strftime(char *b, size_t n, const char *f, const void *tm)
{
    if (n)
        b[0] = 0;
    return 0;
}
