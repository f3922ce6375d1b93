/* model of the host's operating system */
#pragma once
#include <stddef.h>
#include <stdint.h>

/* ---- stdio output files ---- */
#define RT_FMAX 32768
struct rt_file {
    uint8_t b[RT_FMAX];
    uint32_t n;
    int open, error, opened, closed;
};
extern struct rt_file rt_file;
extern int rt_file_fault; /* number of stdio calls which may fail */
extern int rt_file_failed;

/*
 * ---- descriptors, files, directories, sockets ----
 *
 * Nothing of the real system is touched. Paths are recorded, not resolved.
 */
#include <sys/stat.h>

#define OS_NFD 32
#define OS_FIRST 10 /* the first descriptor which open() returns */
#define OS_FSZ 64
#define OS_PATH 48

enum { OSK_REG, OSK_DIR, OSK_STREAM, OSK_SOCK, OSK_TTY };

struct os_file {
    int kind;
    uint8_t data[OS_FSZ];
    uint64_t size;   /* of regular files */
    uint64_t avail;  /* of streams: bytes which can be read */
    uint64_t room;   /* of streams: bytes which can be written */
    int hup;         /* streams: revents to add */
    uint64_t wrote;  /* of streams: bytes written, stored in data */
    struct stat st;  /* st_mode is set from kind by os_mkfile */
};
struct os_fd {
    int open;
    int flags;
    uint64_t pos;
    struct os_file *f;
    int closes; /* number of times this number has been closed */
    int dir;    /* owned by a DIR */
    const struct os_image *image;
};
/* files which can be opened by these paths and mapped */
#define OS_NIMAGES 8
struct os_image {
    const char *path;
    const uint8_t *b;
    size_t n;
};
extern struct os_image os_images[OS_NIMAGES];
extern unsigned os_nimages;
extern int os_nmapped;
struct os_dirent {
    const char *name;
    uint64_t ino;
    uint8_t type;
};
enum {
    OSO_NONE,
    OSO_OPEN,
    OSO_CLOSE,
    OSO_READ,
    OSO_WRITE,
    OSO_SEEK,
    OSO_STAT,
    OSO_LSTAT,
    OSO_FSTAT,
    OSO_MKDIR,
    OSO_RMDIR,
    OSO_UNLINK,
    OSO_RENAME,
    OSO_LINK,
    OSO_SYMLINK,
    OSO_READLINK,
    OSO_UTIMES,
    OSO_LUTIMES,
    OSO_FUTIMES,
    OSO_FTRUNCATE,
    OSO_FALLOCATE,
    OSO_FSYNC,
    OSO_FDATASYNC,
    OSO_FCNTL,
    OSO_OPENDIR,
    OSO_READDIR,
    OSO_POLL,
    OSO_ACCEPT,
    OSO_SHUTDOWN,
    OSO_RANDOM,
    OSO_CLOCK,
    OSO_DUP,
    OSO_SEEKDIR,
    OSO_REWINDDIR,
    OSO_CLOSEDIR,
};
struct os_call {
    int op, fd, flags;
    char path[OS_PATH], path2[OS_PATH];
    uint64_t a, b;
    uint64_t t[4]; /* utimes: seconds and microseconds; t[0] ~0: NULL */
};
#define OS_NLOG 64
extern struct os_fd os_fds[OS_NFD];
extern struct os_call os_log[OS_NLOG];
extern unsigned os_nlog;
/* what open(), stat(), accept(), readlink() give */
extern struct os_file *os_open_file, *os_accept_file;
extern struct stat *os_stat;
extern const char *os_link;
extern int os_msgflags, os_socktype;
extern struct os_dirent *os_dir;
extern unsigned os_ndir;
extern uint64_t os_cookie; /* telldir() of the n-th entry: n * os_cookie */
/* the number of calls which may fail, the operation (0: all), the error */
extern int os_fault, os_fault_op, os_fault_errno;
extern int os_failed; /* operation which failed last */
/* at most this many bytes are transferred at once */
extern uint64_t os_xfer_max;
extern unsigned os_polls;
/* poll() number n makes the stream ready */
extern unsigned os_ready_at;
extern struct os_file *os_ready_file;
extern int os_last_timeout;
extern void (*os_poll_hook)(void);
/* called before each host call */
extern void (*os_call_hook)(void);
/* called at the start of each host call which may block or sleep */
extern uint64_t os_res_ns;
extern int os_res_clock;

void os_mkfile(struct os_file *f, int kind);
int os_mkfd(int fd, struct os_file *f, int flags);
unsigned os_nopen(void);
struct os_call *os_last(int op);
unsigned os_count(int op);
