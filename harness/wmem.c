/*
 * C21: guest memory accesses of WASI functions.
 *
 * kinds:
 *   0 f       functions which store one record, any address
 *   1 f       vectors at a fixed place, any bases and lengths (count entries)
 *   2 f huge  any address and count of the vector (huge: memory does not
 *             become short)
 *   3 f       any address of the result of a transfer
 *   4 f which paths at any address with any length
 *   5         fd_readdir, any buffer
 *   6         fd_readdir, any address of the result
 *   7         path_readlink, any buffer
 *   8         random_get, any buffer
 *   9 which   poll_oneoff, any count and any address of the subscriptions,
 *             the events, or their number
 */
#include <errno.h>
#include <sys/socket.h>

#include "wasikit.h"

static struct ws s;
static struct os_file files[4];
static struct os_dirent dir[3];

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
}
/* the memory is exactly e */
static void
memis(const uint8_t *e, const char *what)
{
    unsigned d = 0;
    for (unsigned i = 0; i < WS_MEM; i++)
        d |= (unsigned)(s.mem[i] ^ e[i]);
    sym_check(d == 0, what);
}
/* nothing but [p, p + n) has changed */
static void
only(uint64_t p, uint64_t n, const char *what)
{
    unsigned bad = 0;
    for (unsigned i = 0; i < WS_MEM; i++)
        bad |= (unsigned)(s.mem[i] != s.before[i]) &
               (unsigned)!((i >= p) & (i - p < n));
    sym_check(!bad, what);
}
static void
addfile(uint32_t n, struct os_file *f, int kind)
{
    os_mkfile(f, kind);
    for (unsigned i = 0; i < OS_FSZ; i++)
        f->data[i] = (uint8_t)(0x31 + i);
    int h = os_mkfd(-1, f, kind == OSK_DIR ? O_RDONLY : O_RDWR);
    if (wasi_instance_add_hostfd(s.wasi, n, h))
        sym_fail_("harness: add_hostfd");
}

/* ---- records ---- */
static void
record(unsigned f)
{
    const int fns[] = {(int)f, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, &files[0], OSK_REG);
    addfile(5, &files[1], OSK_SOCK);
    os_mkfile(&files[2], OSK_REG);
    os_mkfile(&files[3], OSK_SOCK);
    os_open_file = &files[2];
    os_accept_file = &files[3];
    os_stat = &files[0].st;
    files[1].avail = 1;
    uint64_t a[10] = {4, 0, 0, 0, 0, 0, 0, 0, 0, 0};
    uint32_t p = sym_u32();
    unsigned n = 4, al = 4;
    switch (f) {
    case W_CLOCK_RES:
        a[0] = 0;
        a[1] = p;
        n = al = 8;
        break;
    case W_CLOCK_TIME:
        a[0] = 0;
        a[2] = p;
        n = al = 8;
        break;
    case W_FDSTAT:
        a[1] = p;
        n = 24;
        al = 8;
        break;
    case W_FILESTAT:
        a[1] = p;
        n = 64;
        al = 8;
        break;
    case W_PRESTAT:
        a[0] = 3;
        a[1] = p;
        n = 8;
        break;
    case W_SEEK:
        a[3] = p;
        n = al = 8;
        break;
    case W_TELL:
        a[1] = p;
        n = al = 8;
        break;
    case W_PSTAT:
        a[0] = 3;
        a[2] = 7;
        a[3] = 1;
        a[4] = p;
        n = 64;
        al = 8;
        break;
    case W_OPEN:
        a[0] = 3;
        a[2] = 7;
        a[3] = 1;
        a[5] = 2;
        a[8] = p;
        break;
    case W_ACCEPT:
        a[0] = 5;
        a[2] = p;
        break;
    }
    ws_snap(&s);
    os_fault = 1;
    int ret = ws_calla(&s, (int)f, a);
    int ok = inmem(p, n) && p % al == 0;
    if (ret == 0 && s.err == 0) {
        sym_check(ok, "a record is stored only inside of the memory");
        only(p, n, "only the record is changed");
        sym_reach("stored");
    } else if (ret == 0) {
        sym_check(os_failed, "an error");
        only(0, 0, "errors store nothing");
        sym_reach("error");
    } else {
        sym_check(ret == ETOYWASMTRAP && !ok, "trap for a bad address only");
        only(0, 0, "traps store nothing");
        sym_reach("trap");
    }
    os_fault = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("stored");
    sym_expect("trap");
    if (f != W_CLOCK_RES && f != W_CLOCK_TIME && f != W_PRESTAT)
        sym_expect("error");
}

/* ---- vectors ---- */
#define IOVS 8
#define RETP 4
#define FLAGP 2
#define FSIZE 5
static int
isread(unsigned f)
{
    return f == W_READ || f == W_PREAD || f == W_RECV;
}
static void
vsetup(unsigned f)
{
    const int fns[] = {(int)f, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    int sock = f == W_RECV || f == W_SEND;
    addfile(4, &files[0], sock ? OSK_SOCK : OSK_REG);
    files[0].size = FSIZE;
    files[0].avail = FSIZE;
    if (!isread(f))
        os_xfer_max = FSIZE;
}
static int
vcall(unsigned f, uint32_t iovs, uint32_t cnt, uint32_t retp, uint64_t off)
{
    switch (f) {
    case W_READ:
    case W_WRITE:
        return WSC(&s, (int)f, 4, iovs, cnt, retp);
    case W_PREAD:
    case W_PWRITE:
        return WSC(&s, (int)f, 4, iovs, cnt, off, retp);
    case W_RECV:
        return WSC(&s, (int)f, 4, iovs, cnt, 0, retp, FLAGP);
    default:
        return WSC(&s, (int)f, 4, iovs, cnt, 0, retp);
    }
}
/* what a successful transfer does; e: the expected memory; returns bytes */
static unsigned
transfer(unsigned f, uint8_t *e, const uint32_t *base, const uint32_t *len,
         unsigned cnt, unsigned pos)
{
    unsigned k = 0;
    unsigned lim = FSIZE;
    if (isread(f))
        lim = pos < FSIZE ? FSIZE - pos : 0;
    if (os_xfer_max < lim)
        lim = (unsigned)os_xfer_max;
    unsigned d = 0;
    for (unsigned i = 0; i < cnt; i++)
        for (uint32_t j = 0; j < len[i] && k < lim; j++, k++) {
            if (isread(f))
                e[base[i] + j] = (uint8_t)(0x31 + pos + k);
            else
                d |= (unsigned)(files[0].data[pos + k] ^
                                s.before[base[i] + j]);
        }
    sym_check(d == 0, "the bytes given to the host");
    return k;
}
static void
unwritten(unsigned f, unsigned pos, unsigned k)
{
    unsigned d = 0;
    for (unsigned i = 0; i < OS_FSZ; i++)
        if (isread(f) || i < pos || i >= pos + k)
            d |= (unsigned)(files[0].data[i] ^ (uint8_t)(0x31 + i));
    sym_check(d == 0, "no other bytes of the file change");
}
static void
vectors(unsigned f, unsigned cnt, unsigned fault)
{
    uint32_t base[4], len[4];
    uint8_t e[WS_MEM];
    vsetup(f);
    int ok = 1, zero = 0;
    for (unsigned i = 0; i < cnt; i++) {
        base[i] = sym_u32();
        len[i] = sym_u32();
        st32(s.mem + IOVS + 8 * i, base[i]);
        st32(s.mem + IOVS + 8 * i + 4, len[i]);
        ok &= inmem(base[i], len[i]);
        /* an empty buffer outside of the memory: either is fine */
        zero |= len[i] == 0 && base[i] > WS_MEM;
    }
    unsigned pos = 0;
    uint64_t off = 0;
    if (f == W_PREAD || f == W_PWRITE) {
        off = sym_u64();
        if (off < 8)
            off = pos = (unsigned)sym_concretize(off);
        else if (off < 1ull << 63)
            sym_end();
    }
    if (fault)
        os_fault = 1;
    else if (cnt == 1)
        os_xfer_max = 1 + sym_choice(4);
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    int ret = vcall(f, IOVS, cnt, RETP, off);
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && (!ok || zero),
                  "trap for a bad range only");
        memis(e, "a trap changes nothing");
        sym_check(os_count(OSO_READ) == 0 && os_count(OSO_WRITE) == 0,
                  "nothing is transferred for a bad range");
        unwritten(f, 0, 0);
        sym_reach("trap");
    } else if (s.err) {
        sym_check(ok || zero, "a bad range traps");
        memis(e, "an error changes nothing");
        unwritten(f, 0, 0);
        if (off >> 63) {
            sym_check(s.err == WE_INVAL || s.err == WE_OVERFLOW ||
                          (os_failed && s.err == WE_IO),
                      "negative offsets");
            sym_reach("negative");
        } else
            sym_check(os_failed && s.err == WE_IO,
                      "only an error of the host");
        sym_reach("error");
    } else {
        sym_check(ok || zero, "a bad range traps");
        sym_check(!(off >> 63), "negative offsets fail");
        sym_check(!os_failed, "errors are reported");
        unsigned k = transfer(f, e, base, len, cnt, pos);
        unwritten(f, pos, k);
        st32(e + RETP, k);
        if (f == W_RECV)
            e[FLAGP] = e[FLAGP + 1] = 0;
        memis(e, "the memory after a transfer");
        if (k)
            sym_reach("moved");
        if (f != W_PREAD && f != W_PWRITE && f != W_RECV && f != W_SEND) {
            int h = os_last(isread(f) ? OSO_READ : OSO_WRITE)->fd;
            sym_check(os_fds[h].pos == k, "position of the file");
        }
    }
    os_fault = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("moved");
    sym_expect("trap");
    if (fault)
        sym_expect("error");
}

/* any address and number of vectors, all of which are good */
static void
vecptr(unsigned f, int huge)
{
    uint8_t e[WS_MEM];
    vsetup(f);
    for (unsigned i = 0; i + 8 <= WS_MEM; i += 8) {
        st32(s.mem + i, 64);
        st32(s.mem + i + 4, 2);
    }
    uint32_t p = sym_u32(), cnt = sym_u32();
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    if (huge)
        rt_huge = 1024;
    else
        sym_max_alloc(1024);
    int ret = vcall(f, p, cnt, RETP, 0);
    int ok = cnt <= WS_MEM / 8 && inmem(p, 8ull * cnt) && p % 4 == 0;
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && !ok, "trap for a bad vector only");
        memis(e, "a trap changes nothing");
        sym_reach("trap");
    } else if (s.err) {
        sym_check(cnt == 0 ? s.err == WE_INVAL
                           : s.err == WE_OVERFLOW || s.err == WE_NOMEM ||
                                 s.err == WE_INVAL,
                  "error number");
        sym_check(cnt == 0 || cnt > WS_MEM / 8, "errors for bad counts only");
        memis(e, "an error changes nothing");
        sym_reach("error");
    } else {
        sym_check(ok, "vectors are read inside of the memory only");
        cnt = (uint32_t)sym_concretize(cnt);
        uint32_t base[WS_MEM / 8], len[WS_MEM / 8];
        for (uint32_t i = 0; i < cnt; i++) {
            base[i] = p % 8 ? 2 : 64;
            len[i] = p % 8 ? 64 : 2;
        }
        unsigned k = transfer(f, e, base, len, cnt, 0);
        unwritten(f, 0, k);
        st32(e + RETP, k);
        if (f == W_RECV)
            e[FLAGP] = e[FLAGP + 1] = 0;
        memis(e, "the memory after a transfer");
        sym_reach("moved");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("moved");
    sym_expect("trap");
    sym_expect("error");
}
/* any address of the results */
static void
vecret(unsigned f)
{
    uint8_t e[WS_MEM];
    vsetup(f);
    st32(s.mem + IOVS, 40);
    st32(s.mem + IOVS + 4, 3);
    st32(s.mem + IOVS + 8, 60);
    st32(s.mem + IOVS + 12, 2);
    uint32_t base[2] = {40, 60}, len[2] = {3, 2};
    uint32_t p = sym_u32(), q = FLAGP;
    int ok = inmem(p, 4) && p % 4 == 0, okq = 1;
    if (f == W_RECV) {
        q = sym_u32();
        okq = inmem(q, 2) && q % 2 == 0;
    }
    os_msgflags = sym_bool() ? MSG_TRUNC : 0;
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    int ret;
    if (f == W_RECV)
        ret = WSC(&s, W_RECV, 4, IOVS, 2, 0, p, q);
    else
        ret = vcall(f, IOVS, 2, p, 0);
    sym_check(ret == 0 || (ret == ETOYWASMTRAP && !(ok && okq)),
              "trap for a bad address only");
    if (ret == 0)
        sym_check(s.err == 0, "success");
    /* a trap may come after the transfer, which is seen then */
    unsigned k = transfer(f, e, base, len, 2, 0);
    unsigned d = 0, u = 0;
    for (unsigned i = 0; i < WS_MEM; i++)
        u |= (unsigned)(s.mem[i] ^ s.before[i]);
    if (ret == 0) {
        sym_check(ok && okq, "results are stored inside of the memory");
        for (unsigned i = 0; i < 4; i++)
            e[p + i] = i ? 0 : (uint8_t)k;
        if (f == W_RECV) {
            /* overlapping results: either order */
            uint8_t e2[WS_MEM];
            e[q] = (uint8_t)(os_msgflags != 0);
            e[q + 1] = 0;
            memcpy(e2, e, WS_MEM);
            for (unsigned i = 0; i < 4; i++)
                e2[p + i] = i ? 0 : (uint8_t)k;
            for (unsigned i = 0; i < WS_MEM; i++)
                d |= (unsigned)(s.mem[i] != e[i]) &
                     (unsigned)(s.mem[i] != e2[i]);
        } else
            for (unsigned i = 0; i < WS_MEM; i++)
                d |= (unsigned)(s.mem[i] ^ e[i]);
        sym_check(d == 0, "the memory after a transfer");
        sym_reach("stored");
    } else {
        for (unsigned i = 0; i < WS_MEM; i++)
            d |= (unsigned)(s.mem[i] ^ e[i]) &
                 ~(unsigned)-((i >= p) & (i - p < 4) & ok);
        sym_check(d == 0 || u == 0, "a trap stores no result");
        sym_reach("trap");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("stored");
    sym_expect("trap");
}

/* ---- paths ---- */
static void
paths(unsigned f, unsigned which)
{
    const int fns[] = {(int)f, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_mkfile(&files[2], OSK_REG);
    os_open_file = &files[2];
    os_stat = &files[2].st;
    for (unsigned i = 0; i < WS_MEM; i++)
        s.mem[i] = (uint8_t)('A' + i % 26);
    uint32_t p = sym_u32(), n = sym_u32();
    int ok = inmem(p, n);
    if (ok && n > 20)
        sym_end();
    sym_assume(n <= 40 || n >= 290);
    sym_max_alloc(300);
    uint64_t P = which ? 7 : p, N = which ? 2 : n, Q = which ? p : 7,
             M = which ? n : 2;
    ws_snap(&s);
    int ret;
    int op = OSO_NONE;
    unsigned rp = 0, rn = 0;
    switch (f) {
    case W_MKDIR:
        ret = WSC(&s, W_MKDIR, 3, P, N);
        op = OSO_MKDIR;
        break;
    case W_RMDIR:
        ret = WSC(&s, W_RMDIR, 3, P, N);
        op = OSO_RMDIR;
        break;
    case W_UNLINK:
        ret = WSC(&s, W_UNLINK, 3, P, N);
        op = OSO_UNLINK;
        break;
    case W_PSTAT:
        ret = WSC(&s, W_PSTAT, 3, 1, P, N, 64);
        op = OSO_STAT;
        rp = 64;
        rn = 64;
        break;
    case W_PSETTIMES:
        ret = WSC(&s, W_PSETTIMES, 3, 1, P, N, 0, 0, 5);
        op = OSO_UTIMES;
        break;
    case W_OPEN:
        ret = WSC(&s, W_OPEN, 3, 1, P, N, 0, 2, 2, 0, 64);
        op = OSO_OPEN;
        rp = 64;
        rn = 4;
        break;
    case W_READLINK:
        ret = WSC(&s, W_READLINK, 3, P, N, 80, 10, 64);
        op = OSO_READLINK;
        rp = 64;
        rn = 26;
        break;
    case W_LINK:
        ret = WSC(&s, W_LINK, 3, 1, P, N, 3, Q, M);
        op = OSO_LINK;
        break;
    case W_RENAME:
        ret = WSC(&s, W_RENAME, 3, P, N, 3, Q, M);
        op = OSO_RENAME;
        break;
    default:
        ret = WSC(&s, W_SYMLINK, P, N, 3, Q, M);
        op = OSO_SYMLINK;
        break;
    }
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && !ok, "trap for a bad path only");
        only(0, 0, "traps store nothing");
        sym_check(os_count(op) == 0, "and nothing is done");
        sym_reach("trap");
    } else if (s.err) {
        sym_check(s.err == WE_NOMEM && !ok && n > 200,
                  "error for a huge path only");
        only(0, 0, "errors store nothing");
        sym_check(os_count(op) == 0, "and nothing is done");
        sym_reach("error");
    } else {
        sym_check(ok, "a path outside of the memory is not read");
        only(rp, rn, "only the result is stored");
        sym_check(os_count(op) == 1, "the operation is done");
        /* the name */
        struct os_call *c = os_last(op);
        const char *t = which ? c->path2 : c->path;
        const char *pre = f == W_SYMLINK && !which ? "" : "dir/";
        while (*pre) {
            sym_check(*t == *pre, "the name starts with the directory");
            t++;
            pre++;
        }
        for (uint32_t i = 0; i < n; i++, t++)
            sym_check((uint8_t)*t == s.before[p + i], "the name");
        sym_check(*t == 0, "the end of the name");
        sym_reach("done");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("done");
    sym_expect("trap");
}

/* ---- directories ---- */
/* the bytes of all entries */
static unsigned
dirbytes(uint8_t *b, unsigned *ends, unsigned n)
{
    unsigned o = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned l = 0;
        while (dir[i].name[l])
            l++;
        st64(b + o, i + 1);
        st64(b + o + 8, dir[i].ino);
        st32(b + o + 16, l);
        st32(b + o + 20, i == 1 ? 3 : 4);
        for (unsigned j = 0; j < l; j++)
            b[o + 24 + j] = (uint8_t)dir[i].name[j];
        o += 24 + l;
        ends[i] = o;
    }
    return o;
}
static void
readdirs(int res)
{
    static const int fns[] = {W_READDIR, W_N};
    uint8_t b[128];
    unsigned ends[2];
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, &files[0], OSK_DIR);
    dir[0] = (struct os_dirent){"ab", 0x1122334455667788, 8};
    dir[1] = (struct os_dirent){"xyz", 7, 4};
    os_dir = dir;
    os_ndir = 2;
    unsigned total = dirbytes(b, ends, 2);
    uint32_t p = 100, n = 60, r = 8;
    if (res)
        r = sym_u32();
    else {
        p = sym_u32();
        n = sym_u32();
        if (p < 200) {
            sym_assume(p % 4 == (uint32_t)sym_param(1, 0));
            p = (uint32_t)sym_concretize(p);
        }
    }
    int ok = inmem(p, n);
    int okr = inmem(r, 4) && r % 4 == 0;
    ws_snap(&s);
    int ret = WSC(&s, W_READDIR, 4, p, n, 0, r);
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && (!ok || !okr),
                  "trap for bad addresses only");
        only(p, ok ? n : WS_MEM, "no result is stored");
        sym_reach("trap");
    } else {
        sym_check(s.err == 0 && okr, "success");
        uint32_t k = n < total ? n : total;
        k = (uint32_t)sym_concretize(k);
        if (!res)
            sym_check(ld32(s.mem + r) == k, "the number of bytes");
        if (p >= 200) {
            only(r, 4, "nothing outside of the memory");
            sym_check(k < 24, "entries inside of the memory");
            os_nlog = 0;
            ws_fini(&s);
            return;
        }
        unsigned bad = 0;
        unsigned last = 0;
        for (unsigned i = 0; i < 2; i++)
            if (ends[i] <= k)
                last = ends[i];
        if (last)
            sym_check(inmem(p, last), "entries inside of the memory");
        for (unsigned i = 0; i < WS_MEM; i++) {
            unsigned in = (i >= p) & (i - p < k);
            unsigned in2 = (i >= r) & (i - r < 4);
            uint8_t w = in ? b[i - p] : s.before[i];
            uint8_t w2 = in2 ? (uint8_t)(k >> (8 * (i - r))) : w;
            /* the last entry may be cut or left out */
            unsigned part = in & (i - p >= last);
            bad |= (unsigned)(s.mem[i] != w2) &
                   (unsigned)!(part & (s.mem[i] == s.before[i]));
        }
        sym_check(!bad, "the entries");
        sym_reach("read");
        if (k == total)
            sym_reach("complete");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("read");
    sym_expect("complete");
    sym_expect("trap");
}

static void
readlinks(void)
{
    static const int fns[] = {W_READLINK, W_N};
    uint8_t e[WS_MEM];
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    os_link = "linked";
    uint32_t p = sym_u32(), n = sym_u32(), r = 8;
    if (sym_bool())
        r = (uint32_t)sym_concretize(sym_u8()) * 2;
    int okr = inmem(r, 4) && r % 4 == 0;
    s.mem[0] = 'l';
    ws_snap(&s);
    memcpy(e, s.before, WS_MEM);
    int ret = WSC(&s, W_READLINK, 3, 0, 1, p, n, r);
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && (!inmem(p, n) || !okr),
                  "trap for bad addresses only");
        if (!inmem(p, n))
            memis(e, "a trap changes nothing");
        sym_reach("trap");
    } else if (s.err) {
        sym_check(s.err == WE_INVAL && n == 0, "an empty buffer");
        memis(e, "an error changes nothing");
        sym_reach("error");
    } else {
        sym_check(inmem(p, n) && okr, "the buffer is inside of the memory");
        uint32_t k = n < 6 ? n : 6;
        k = (uint32_t)sym_concretize(k);
        for (uint32_t i = 0; i < k; i++)
            e[p + i] = (uint8_t)os_link[i];
        st32(e + r, k);
        memis(e, "the name and its length");
        sym_reach("read");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("read");
    sym_expect("trap");
}

static void
randoms(int fault)
{
    static const int fns[] = {W_RANDOM, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    uint32_t p = sym_u32(), n = sym_u32();
    int ok = inmem(p, n);
    if (ok && n > 12)
        sym_end();
    if (fault) {
        os_fault = 1;
        os_fault_errno = fault == 1 ? EINTR : EIO;
    }
    os_xfer_max = 5;
    ws_snap(&s);
    int ret = WSC(&s, W_RANDOM, p, n);
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && !ok, "trap for a bad buffer only");
        only(0, 0, "a trap changes nothing");
        sym_reach("trap");
    } else {
        sym_check(ok, "a bad buffer traps");
        if (os_failed && fault == 2) {
            sym_check(s.err == WE_IO, "an error of the host is reported");
            only(p, n, "only the buffer is changed");
            sym_reach("error");
        } else {
            sym_check(s.err == 0, "success");
            uint8_t e[WS_MEM];
            memcpy(e, s.before, WS_MEM);
            /* what the model of the host stores */
            for (uint32_t i = 0; i < n; i++)
                e[p + i] = (uint8_t)(0xc0 + i);
            memis(e, "the whole buffer is filled");
            sym_reach("filled");
            if (os_failed)
                sym_reach("interrupted");
        }
    }
    os_fault = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("filled");
    sym_expect("trap");
    if (fault)
        sym_expect(fault == 1 ? "interrupted" : "error");
}

/* every 48 bytes ask for writing to 2 */
static void
pollptr(unsigned which)
{
    static const int fns[] = {W_POLL, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    memset(s.mem, 0, WS_MEM);
    for (unsigned i = 0; i < WS_MEM; i += 8)
        s.mem[i] = 2;
    ws_snap(&s);
    rt_huge = 1024;
    uint32_t p = sym_u32(), cnt = which == 2 ? 1 : sym_u32();
    uint32_t in = which == 0 ? p : 0, out = which == 1 ? p : 96,
             retp = which == 2 ? p : 188;
    int ok = cnt <= 4 && inmem(in, 48ull * cnt) && inmem(out, 32ull * cnt) &&
             inmem(retp, 4) && in % 8 == 0 && out % 8 == 0 && retp % 4 == 0;
    int ret = WSC(&s, W_POLL, in, out, cnt, retp);
    if (ret) {
        sym_check(ret == ETOYWASMTRAP && !ok, "trap for a bad address only");
        if (which != 2)
            only(0, 0, "a trap changes nothing");
        sym_reach("trap");
    } else if (s.err) {
        sym_check(cnt == 0 || cnt > WS_MEM / 48, "errors for bad counts only");
        only(0, 0, "an error changes nothing");
        if (which != 2) {
            sym_reach("error");
            sym_expect("error");
        }
    } else {
        sym_check(ok && cnt > 0, "only the memory is used");
        unsigned bad = 0;
        for (unsigned i = 0; i < WS_MEM; i++)
            bad |= (unsigned)(s.mem[i] != s.before[i]) &
                   (unsigned)!(((i >= out) & (i - out < 32 * cnt)) |
                               ((i >= retp) & (i - retp < 4)));
        sym_check(!bad, "only the events and their number are stored");
        sym_reach("events");
    }
    os_nlog = 0;
    rt_huge = 0;
    ws_fini(&s);
    sym_expect("events");
    sym_expect("trap");
}

void
harness_main(void)
{
    sym_block_mux(64);
    unsigned f = (unsigned)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0:
        record(f);
        break;
    case 1:
        vectors(f, (unsigned)sym_param(2, 1), (unsigned)sym_param(3, 0));
        break;
    case 2:
        vecptr(f, (int)sym_param(2, 0));
        break;
    case 3:
        vecret(f);
        break;
    case 4:
        paths(f, (unsigned)sym_param(2, 0));
        break;
    case 5:
        readdirs(0);
        break;
    case 6:
        readdirs(1);
        break;
    case 7:
        readlinks();
        break;
    case 8:
        randoms((int)f);
        break;
    case 9:
        pollptr(f);
        break;
    }
}
