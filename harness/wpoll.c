/*
 * C24: clocks, timeouts, poll_oneoff.
 *
 * kinds:
 *   0 t       functions on times
 *   1         clock_time_get and clock_res_get
 *   2 n       poll_oneoff with n subscriptions
 *   3 k       poll_oneoff with a timer. k: interruptions
 *   4 o       poll_oneoff with overlapping buffers
 *   5 f       blocking reads and writes
 */
#define WS_MEM 288
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <sys/socket.h>
#include <time.h>

#include "rt_thr.h"
#include "timeutil.h"
#include "wasikit.h"

static struct ws s;
static struct os_file files[4];

/* ---- times ---- */
/*
 * The clocks of this harness: one instant as seen by each clock. Reads of a
 * clock do not take time.
 */
static int harness_clock;
static struct timespec clk_real, clk_mono;
static int clk_reads, clk_id;
int
rt_clock_gettime(clockid_t id, struct timespec *ts)
{
    clk_reads++;
    clk_id = (int)id;
    if (harness_clock) {
        *ts = id == CLOCK_REALTIME ? clk_real : clk_mono;
        return 0;
    }
    uint64_t t = rt_now;
    if (id == CLOCK_REALTIME)
        t += rt_clock_base;
    else if (id != CLOCK_MONOTONIC)
        t += 7777;
    ts->tv_sec = (time_t)(t / 1000000000u);
    ts->tv_nsec = (long)(t % 1000000000u);
    return 0;
}
static struct timespec
anytime(void)
{
    struct timespec t;
    t.tv_sec = (time_t)(sym_u64() >> 1);
    t.tv_nsec = (long)(sym_u32() & 0x3fffffff);
    if (t.tv_nsec >= 1000000000)
        sym_end();
    return t;
}
static int
normal(const struct timespec *t)
{
    return (t->tv_sec >= 0) & (t->tv_nsec >= 0) & (t->tv_nsec < 1000000000);
}
static int
cmp(const struct timespec *a, const struct timespec *b)
{
    return (a->tv_sec > b->tv_sec) - (a->tv_sec < b->tv_sec) +
           (a->tv_sec == b->tv_sec) *
               ((a->tv_nsec > b->tv_nsec) - (a->tv_nsec < b->tv_nsec));
}
/* a + b == c */
static int
sums(const struct timespec *a, const struct timespec *b,
     const struct timespec *c)
{
    uint64_t ns = (uint64_t)a->tv_nsec + (uint64_t)b->tv_nsec;
    uint64_t carry = ns >= 1000000000;
    return ((uint64_t)a->tv_sec + (uint64_t)b->tv_sec + carry ==
            (uint64_t)c->tv_sec) &
           (ns - carry * 1000000000 == (uint64_t)c->tv_nsec);
}
static int
overflows(const struct timespec *a, const struct timespec *b)
{
    uint64_t ns = (uint64_t)a->tv_nsec + (uint64_t)b->tv_nsec;
    uint64_t carry = ns >= 1000000000;
    return (uint64_t)a->tv_sec + (uint64_t)b->tv_sec + carry > INT64_MAX;
}
static void
times(int t)
{
    struct timespec a = anytime(), b, c;
    int ret, ms;
    uint64_t ns;
    harness_clock = 1;
    switch (t) {
    case 0:
        b = anytime();
        sym_check(timespec_cmp(&a, &b) == cmp(&a, &b), "comparison");
        break;
    case 1:
        b = anytime();
        ret = timespec_add(&a, &b, &c);
        if (ret) {
            sym_check(ret == EOVERFLOW && overflows(&a, &b), "overflow");
            sym_reach("overflow");
        } else {
            sym_check(!overflows(&a, &b) && normal(&c) && sums(&a, &b, &c),
                      "sum");
        }
        sym_expect("overflow");
        break;
    case 2:
        b = anytime();
        if (cmp(&a, &b) < 0)
            sym_end();
        timespec_sub(&a, &b, &c);
        sym_check(normal(&c) && sums(&b, &c, &a), "difference");
        break;
    case 3:
        ns = sym_u64();
        ret = timespec_from_ns(&c, ns);
        sym_check(ret == 0, "nanoseconds fit");
        sym_check((uint64_t)c.tv_sec * 1000000000 + (uint64_t)c.tv_nsec == ns,
                  "value");
        sym_check((uint64_t)c.tv_sec <= UINT64_MAX / 1000000000 &&
                      normal(&c),
                  "normalised");
        break;
    case 4:
        ns = timespec_to_ms(&a);
        if ((uint64_t)a.tv_sec > UINT64_MAX / 1000 - 1)
            sym_check(ns >= UINT64_MAX - 2000, "saturation");
        else
            sym_check(ns == (uint64_t)a.tv_sec * 1000 +
                                (uint64_t)a.tv_nsec / 1000000,
                      "milliseconds");
        break;
    case 5:
        /* time until a */
        {
            static const struct timespec now[] = {
                {0, 0},
                {1700000000, 999999999},
            };
            clk_real = now[sym_choice(2)];
        }
        ret = abstime_to_reltime_ms_roundup(CLOCK_REALTIME, &a, &ms);
        if (cmp(&a, &clk_real) <= 0) {
            sym_check(ret == 0 && ms == 0, "a time which has passed");
            sym_reach("past");
        } else if (ret) {
            sym_check(ret == EOVERFLOW, "error");
            b.tv_sec = INT_MAX / 1000 - 1;
            b.tv_nsec = 0;
            /* not within INT_MAX ms */
            sym_check(overflows(&clk_real, &b) ||
                          (a.tv_sec - clk_real.tv_sec >=
                           INT_MAX / 1000 - 1),
                      "overflow");
            sym_reach("overflow");
        } else {
            sym_check(ms > 0, "positive");
            timespec_sub(&a, &clk_real, &b);
            sym_check(b.tv_sec <= INT_MAX / 1000, "range");
            /* the part below a second */
            ns = (uint32_t)ms - (uint32_t)b.tv_sec * 1000;
            sym_check(ns <= 1000, "seconds");
            ns = (ns & 1023) * 1000000;
            sym_check(ns >= (uint64_t)b.tv_nsec, "not early");
            sym_check(ns < (uint64_t)b.tv_nsec + 1000000,
                      "not a millisecond late");
            sym_reach("future");
        }
        sym_expect("past");
        sym_expect("overflow");
        sym_expect("future");
        break;
    case 6:
        {
            static const struct timespec now[] = {
                {0, 0},
                {1700000000, 999999999},
                {INT64_MAX, 500000000},
            };
            clk_real = now[sym_choice(3)];
            clk_mono = anytime();
        }
        ret = convert_timespec(CLOCK_MONOTONIC, CLOCK_REALTIME, &a, &c);
        /* c - real == a - mono */
        if (cmp(&a, &clk_mono) >= 0) {
            timespec_sub(&a, &clk_mono, &b);
            if (ret) {
                sym_check(ret == EOVERFLOW && overflows(&clk_real, &b),
                          "overflow");
                sym_reach("overflow");
            } else {
                sym_check(normal(&c) && sums(&clk_real, &b, &c),
                          "future time of the other clock");
                sym_reach("future");
            }
        } else {
            timespec_sub(&clk_mono, &a, &b);
            if (ret) {
                sym_check(ret == EOVERFLOW && cmp(&b, &clk_real) > 0,
                          "before the epoch");
                sym_reach("epoch");
            } else {
                sym_check(normal(&c) && sums(&c, &b, &clk_real),
                          "past time of the other clock");
                sym_reach("past");
            }
        }
        sym_expect("overflow");
        sym_expect("future");
        sym_expect("past");
        break;
    case 7:
        clk_mono = anytime();
        ns = sym_u64();
        ret = abstime_from_reltime_ns(CLOCK_MONOTONIC, &c, ns);
        b.tv_sec = (time_t)(ns / 1000000000);
        b.tv_nsec = (long)(ns % 1000000000);
        if (ret) {
            sym_check(ret == EOVERFLOW && overflows(&clk_mono, &b),
                      "overflow");
            sym_reach("overflow");
        } else {
            sym_check(normal(&c) && sums(&clk_mono, &b, &c), "sum");
            sym_reach("sum");
        }
        sym_expect("sum");
        sym_expect("overflow");
        break;
    }
}

static void
prep(struct wasi_instance *w)
{
    if (wasi_instance_populate_stdio_with_hostfd(w) ||
        wasi_instance_prestat_add(w, "dir"))
        sym_fail_("harness: wasi setup");
}
static void
clocks(void)
{
    static const int fns[] = {W_CLOCK_RES, W_CLOCK_TIME, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    uint32_t id = sym_u32();
    uint64_t prec = sym_u64();
    if (id <= 3)
        id = (uint32_t)sym_concretize(id);
    clk_real.tv_sec = (time_t)(sym_u64() >> 30);
    clk_mono.tv_sec = (time_t)(sym_u64() >> 30);
    clk_real.tv_nsec = (long)(sym_u32() & 0x1fffffff);
    clk_mono.tv_nsec = (long)(sym_u32() & 0x1fffffff);
    harness_clock = 1;
    os_res_ns = 12345;
    ws_snap(&s);
    int res = sym_bool();
    int ret;
    if (res)
        ret = WSC(&s, W_CLOCK_RES, id, 64);
    else
        ret = WSC(&s, W_CLOCK_TIME, id, prec, 64);
    sym_check(ret == 0, "the call returns");
    if (id > 3) {
        sym_check(s.err == WE_INVAL, "unknown clocks");
        ws_only(&s, 0, 0, "nothing is written");
        sym_reach("unknown");
    } else {
        sym_check(s.err == 0, "known clocks");
        static const int ids[] = {CLOCK_REALTIME, CLOCK_MONOTONIC,
                                  CLOCK_PROCESS_CPUTIME_ID,
                                  CLOCK_THREAD_CPUTIME_ID};
        sym_check((res ? os_res_clock : clk_id) == ids[id], "the clock asked for is read");
        struct timespec *t = id == 0 ? &clk_real : &clk_mono;
        uint64_t v = (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec;
        sym_check(ld64(s.mem + 64) == (res ? 12345 : v), "value");
        ws_only(&s, 64, 8, "only the result is written");
        sym_reach("known");
    }
    harness_clock = 0;
    ws_fini(&s);
    sym_expect("known");
    sym_expect("unknown");
}

/* ---- poll ---- */
#define OUT 144
#define RET 264
static uint64_t late; /* oversleep */
static int symlate;
static void
oversleep(void)
{
    if (os_polls > 3)
        sym_end();
    if (symlate) {
        late = sym_u64() >> 20;
        rt_now += late;
    }
}
static void
addfile(uint32_t n, int kind)
{
    os_mkfile(&files[n - 4], kind);
    if (wasi_instance_add_hostfd(s.wasi, n,
                                 os_mkfd(-1, &files[n - 4], O_RDWR)))
        sym_fail_("harness: add_hostfd");
}
static int
revents(uint32_t fd, int type)
{
    struct os_file *f = fd == 0   ? &ws_std[0]
                        : fd == 4 ? &files[0]
                                  : &files[1];
    int r = 0;
    if (f->kind == OSK_REG)
        return type == 1 ? POLLIN : POLLOUT;
    if (type == 1 && f->avail)
        r = POLLIN;
    if (type == 2 && f->room)
        r = POLLOUT;
    return r | f->hup;
}
static void
polls(unsigned n)
{
    static const int fns[] = {W_POLL, W_N};
    static const int hups[] = {0, POLLHUP, POLLERR, POLLHUP | POLLERR};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, OSK_REG);
    addfile(5, OSK_STREAM);
    uint64_t ud[3];
    uint32_t type[3], fd[3];
    int nclock = 0, bad = 0, unsup = 0, ready = 0;
    ws_std[0].avail = sym_bool();
    files[1].avail = sym_bool();
    files[1].room = sym_bool();
    files[1].hup = hups[sym_choice(4)];
    for (unsigned i = 0; i < n; i++) {
        uint8_t *p = s.mem + 48 * i;
        ud[i] = sym_u64();
        st64(p, ud[i]);
        type[i] = sym_choice(4);
        p[8] = type[i] == 3 ? (uint8_t)(sym_u8() | 4) : (uint8_t)type[i];
        fd[i] = 0;
        if (type[i] == 0) {
            uint32_t id = sym_choice(3);
            st32(p + 16, id == 2 ? sym_u32() | 2 : id);
            st64(p + 24, 10000000); /* 10 ms */
            st64(p + 32, 0);
            st64(p + 40, 0);
            nclock++;
            unsup |= id == 2;
        } else if (type[i] < 3) {
            static const uint32_t fds[] = {0, 3, 4, 5, 6};
            fd[i] = fds[sym_choice(5)];
            st32(p + 16, fd[i]);
            if (fd[i] == 3 || fd[i] == 6)
                bad++;
            else
                ready += revents(fd[i], (int)type[i]) != 0;
        }
    }
    int inval = 0;
    for (unsigned i = 0; i < n; i++)
        inval |= type[i] == 3;
    if (!nclock && !ready) {
        /* would wait forever */
        os_ready_file = &ws_std[0];
        os_ready_at = 2;
    }
    ws_snap(&s);
    os_poll_hook = oversleep;
    uint64_t start = rt_now;
    int ret = WSC(&s, W_POLL, 0, OUT, n, RET);
    os_poll_hook = NULL;
    sym_check(ret == 0, "the call returns");
    if (s.err) {
        sym_check((inval && s.err == WE_INVAL) ||
                      ((unsup || nclock > 1) && s.err == WE_NOTSUP) ||
                      (unsup && s.err == WE_INVAL),
                  "errors");
        sym_check(ld32(s.mem + RET) == ld32(s.before + RET),
                  "no count after an error");
        sym_reach("error");
    } else {
        sym_check(!inval && !unsup, "bad subscriptions are refused");
        uint32_t k = ld32(s.mem + RET), j = 0;
        sym_check(k >= 1 && k <= n, "at least one event");
        k = (uint32_t)sym_concretize(k);
        unsigned seen[3] = {0, 0, 0};
        int timeout = !bad && !ready && rt_now > start && nclock;
        /* events in the order of the subscriptions */
        for (unsigned i = 0; i < n && j < k; i++) {
            uint8_t *e = s.mem + OUT + 32 * j;
            int want, err = 0;
            if (type[i] == 0) {
                want = rt_now - start >= 10000000;
            } else if (fd[i] == 3 || fd[i] == 6) {
                want = 1;
                err = WE_BADF;
            } else {
                int r = revents(fd[i], (int)type[i]);
                want = r != 0 && !bad;
                err = r & POLLHUP   ? WE_PIPE
                      : r & POLLERR ? WE_IO
                                    : 0;
            }
            if (!want)
                continue;
            sym_check(ld64(e) == ud[i], "user data");
            sym_check((e[8] | e[9] << 8) == err, "error of the event");
            sym_check(e[10] == type[i], "type of the event");
            seen[i] = 1;
            j++;
        }
        sym_check(j == k, "no other events");
        (void)timeout;
        for (unsigned i = 0; i < n; i++) {
            if (type[i] && (fd[i] == 3 || fd[i] == 6))
                sym_check(seen[i], "bad descriptors are reported");
            else if (type[i] && !bad && revents(fd[i], (int)type[i]))
                sym_check(seen[i], "ready descriptors are reported");
        }
        sym_check(os_last_timeout != 0 || os_polls <= 1, "no busy loop");
        sym_reach("events");
    }
    os_nlog = 0;
    /* nothing but the events and the count is written */
    for (unsigned i = 0; i < WS_MEM; i++)
        if (!(i >= OUT && i < OUT + 32 * n) && !(i >= RET && i < RET + 4))
            sym_check(s.mem[i] == s.before[i], "other memory");
    ws_fini(&s);
    sym_expect("events");
    sym_expect("error");
}

/* time passes: at least ms milliseconds */
static struct timespec
after(struct timespec t, uint64_t sec, uint64_t nsec)
{
    uint64_t n = (uint64_t)t.tv_nsec + nsec;
    uint64_t c = n >= 1000000000;
    t.tv_sec = (time_t)((uint64_t)t.tv_sec + sec + c);
    t.tv_nsec = (long)(n - (c ? 1000000000 : 0));
    return t;
}
static atomic_uint intr;
static int intr_at; /* interrupt during the n-th poll. 0: before the first */
static unsigned nintr;
static struct timespec over; /* the sleeps took that much longer */
static int slept; /* time passes during the interruptions */
static void (*during)(void); /* another thread during the interruptions */
/* a call which is interrupted and resumed */
static int
icall(int f, const uint64_t *a)
{
    struct exec_context *ctx = &s.k.ec;
    const struct functype *ft = module_functype(s.k.m, (uint32_t)s.fn[f]);
    struct val v[10], r;
    memset(v, 0, sizeof(v));
    memset(&r, 0, sizeof(r));
    for (unsigned i = 0; ws_fn[f].p[i]; i++) {
        if (ws_fn[f].p[i] == 'I')
            v[i].u.i64 = a[i];
        else
            v[i].u.i32 = (uint32_t)a[i];
    }
    exec_context_init(ctx, s.k.inst, &s.k.mctx);
    ctx->intrp = &intr;
    s.err = ~0u;
    sym_check(exec_push_vals(ctx, &ft->parameter, v) == 0, "arguments");
    int ret = instance_execute_func(ctx, (uint32_t)s.fn[f], &ft->parameter,
                                    &ft->result);
    while (IS_RESTARTABLE(ret)) {
        if (ret == ETOYWASMUSERINTERRUPT) {
            sym_check(atomic_load(&intr) != 0,
                      "an interrupt is reported only if requested");
            atomic_store(&intr, 0);
            nintr++;
            if (slept) {
                rt_now += 20000000;
                clk_real.tv_sec += slept;
                clk_mono.tv_sec += slept;
            }
            if (during)
                during();
        }
        ret = instance_execute_handle_restart_once(ctx, ret);
    }
    if (ret == 0) {
        exec_pop_vals(ctx, &ft->result, &r);
        s.err = r.u.i32;
    }
    exec_context_clear(ctx);
    return ret;
}
static void
advance(void)
{
    if (os_polls > 3)
        sym_end();
    /* at least as long as asked for */
    static const struct timespec extra[] = {{0, 0}, {0, 1}, {7, 999999999}};
    const struct timespec *x = &extra[sym_choice(3)];
    uint64_t t = (uint64_t)os_last_timeout;
    sym_check(t < 1000, "the host waits for a short time only");
    clk_real = after(clk_real, 0, t * 1000000);
    clk_mono = after(clk_mono, 0, t * 1000000);
    clk_real = after(clk_real, (uint64_t)x->tv_sec, (uint64_t)x->tv_nsec);
    clk_mono = after(clk_mono, (uint64_t)x->tv_sec, (uint64_t)x->tv_nsec);
    over = after(over, (uint64_t)x->tv_sec, (uint64_t)x->tv_nsec);
    if ((int)os_polls == intr_at)
        atomic_store(&intr, 1);
}
static void
timer(int k)
{
    static const int fns[] = {W_POLL, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    uint32_t id = sym_choice(2);
    uint64_t to, ud = sym_u64();
    uint32_t abs = sym_choice(2);
    clk_real.tv_sec = 1700000000;
    clk_real.tv_nsec = 123456789;
    clk_mono.tv_sec = 5000;
    clk_mono.tv_nsec = 987654321;
    struct timespec start = id == 0 ? clk_real : clk_mono, dl;
    /* a time nearby, or far away */
    static const uint64_t far[] = {
        0,
        1,
        1000000000,
        (uint64_t)INT_MAX * 1000000 + 1,
        (uint64_t)INT64_MAX,
        UINT64_MAX,
    };
    uint32_t f = sym_choice(7);
    if (f == 6) {
        static const uint32_t step[] = {1, 7919, 500009};
        uint32_t st = step[sym_choice(3)];
        to = (uint64_t)sym_u8() * st;
        if (abs)
            to += (uint64_t)start.tv_sec * 1000000000 +
                  (uint64_t)start.tv_nsec - 128 * st;
    } else {
        to = far[f];
        if (abs && sym_choice(2))
            to += (uint64_t)start.tv_sec * 1000000000 +
                  (uint64_t)start.tv_nsec;
    }
    uint64_t sec = to / 1000000000, nsec = to % 1000000000;
    if (abs) {
        dl.tv_sec = (time_t)sec;
        dl.tv_nsec = (long)nsec;
    } else {
        dl = after(start, sec, nsec);
    }
    st64(s.mem, ud);
    s.mem[8] = 0;
    st32(s.mem + 16, id);
    st64(s.mem + 24, to);
    st64(s.mem + 32, 0);
    st64(s.mem + 40, (uint64_t)abs);
    os_poll_hook = advance;
    harness_clock = 1;
    ws_snap(&s);
    int ret;
    intr_at = -1;
    nintr = 0;
    if (k) {
        intr_at = (int)sym_choice(3);
        atomic_store(&intr, intr_at == 0);
        slept = (int)sym_choice(2);
    }
    ret = icall(W_POLL, (const uint64_t[]){0, OUT, 1, RET});
    sym_check(ret == 0, "the call returns");
    struct timespec now = id == 0 ? clk_real : clk_mono;
    if (s.err) {
        sym_check(s.err == WE_OVERFLOW, "error");
        sym_check(dl.tv_sec > start.tv_sec &&
                      dl.tv_sec - start.tv_sec >= INT_MAX / 1000 - 1,
                  "only far away times overflow");
        sym_check(os_polls == 0, "no waiting");
        sym_reach("overflow");
    } else {
        sym_check(ld32(s.mem + RET) == 1, "one event");
        uint8_t *e = s.mem + OUT;
        sym_check(ld64(e) == ud && e[8] == 0 && e[9] == 0 && e[10] == 0,
                  "event");
        sym_check(cmp(&now, &dl) >= 0, "not early");
        sym_reach("timeout");
        /* not later than the sleeps and the interruption make it */
        if (f == 6 || f <= 2) {
            struct timespec lim = cmp(&dl, &start) > 0 ? dl : start;
            lim = after(lim, 0, 1000000);
            lim = after(lim, (uint64_t)over.tv_sec, (uint64_t)over.tv_nsec);
            lim.tv_sec += slept;
            sym_check(cmp(&now, &lim) <= 0, "not late");
        }
        if (nintr)
            sym_reach("interrupted");
        if (cmp(&dl, &start) <= 0) {
            sym_check(os_polls <= 1 && (os_polls == 0 || os_last_timeout == 0),
                      "no waiting for times which have passed");
            sym_reach("past");
        }
    }
    os_poll_hook = NULL;
    harness_clock = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("timeout");
    sym_expect("past");
    sym_expect("overflow");
    if (k)
        sym_expect("interrupted");
}

/* the events replace the subscriptions */
static void
overlap(void)
{
    static const int fns[] = {W_POLL, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    uint64_t ud[2];
    uint32_t type[2], bad = sym_choice(2);
    addfile(4, OSK_REG);
    uint32_t out = 8 * sym_choice(13), in = 8 * sym_choice(6);
    for (unsigned i = 0; i < 2; i++) {
        uint8_t *p = s.mem + in + 48 * i;
        ud[i] = sym_u64();
        type[i] = 1 + sym_choice(2);
        st64(p, ud[i]);
        p[8] = (uint8_t)type[i];
        st32(p + 16, bad ? 3 : 4);
    }
    int ret = WSC(&s, W_POLL, in, out, 2, RET);
    sym_check(ret == 0 && s.err == 0, "the call returns");
    sym_check(ld32(s.mem + RET) == 2, "two events");
    for (unsigned i = 0; i < 2; i++) {
        uint8_t *e = s.mem + out + 32 * i;
        sym_check(ld64(e) == ud[i], "user data");
        sym_check((e[8] | e[9] << 8) == (bad ? WE_BADF : 0),
                  "error of the event");
        sym_check(e[10] == type[i], "type of the event");
    }
    os_nlog = 0;
    ws_fini(&s);
    sym_reach("overlap");
    sym_expect("overlap");
}

static void
intrhook(void)
{
    if (os_polls > 6)
        sym_fail_("polls for no reason");
    if ((int)os_polls == intr_at)
        atomic_store(&intr, 1);
}
/* blocking and not blocking reads and writes */
static void
blocking(int wr)
{
    static const int fns[] = {W_READ, W_WRITE, W_SETFLAGS, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, OSK_STREAM);
    int nonblock = (int)sym_choice(2);
    if (nonblock)
        sym_check(WSE(&s, W_SETFLAGS, 4, 4) == 0, "set flags");
    else if (sym_choice(2)) {
        sym_check(WSE(&s, W_SETFLAGS, 4, 4) == 0, "set flags");
        sym_check(WSE(&s, W_SETFLAGS, 4, 0) == 0, "set flags");
    }
    struct os_file *f = &files[0];
    uint8_t d[4];
    sym_bytes(d, 4);
    memcpy(f->data, d, 4);
    memcpy(s.mem + 64, d, 4);
    if (!wr)
        memset(s.mem + 64, 0, 4);
    st32(s.mem, 64);
    st32(s.mem + 4, 1);
    f->avail = 0;
    f->room = 0;
    os_ready_file = f;
    os_ready_at = 1 + sym_choice(3);
    unsigned at = (unsigned)os_ready_at;
    intr_at = (int)sym_choice(5) - 1; /* -1: never */
    atomic_store(&intr, intr_at == 0);
    slept = 1;
    nintr = 0;
    os_polls = 0;
    os_poll_hook = intrhook;
    ws_snap(&s);
    int ret = icall(wr ? W_WRITE : W_READ, (const uint64_t[]){4, 0, 1, RET});
    sym_check(ret == 0, "the call returns");
    if (nonblock) {
        sym_check(s.err == WE_AGAIN && os_polls == 0, "EAGAIN");
        ws_only(&s, 0, 0, "nothing is written");
        sym_reach("again");
    } else {
        sym_check(s.err == 0, "blocking calls wait");
        sym_check(ld32(s.mem + RET) == 1, "one byte");
        sym_check(os_polls >= at && os_polls <= at + nintr, "waits");
        if (wr)
            sym_check(f->data[0] == d[0], "the byte is written");
        else
            sym_check(s.mem[64] == d[0] && f->avail == 0, "the byte is read");
        sym_reach("waited");
        if (nintr)
            sym_reach("interrupted");
    }
    os_poll_hook = NULL;
    os_ready_file = NULL;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("again");
    sym_expect("waited");
    sym_expect("interrupted");
}

/* the subscriptions change while the call is interrupted */
static unsigned change;
static void
other(void)
{
    switch (change) {
    case 0:
        st32(s.mem + 48 + 16, 3); /* not a host's file */
        break;
    case 1:
        s.mem[48 + 8] = 9; /* no such type */
        break;
    case 2:
        st32(s.mem + 16, 7); /* no such clock */
        break;
    case 3:
        s.mem[48 + 8] = 0; /* two clocks */
        st32(s.mem + 48 + 16, 0);
        break;
    case 4:
        files[0].avail = 1;
        break;
    case 5:
        s.mem[8] = 1; /* no clock */
        st32(s.mem + 16, 3);
        break;
    }
}
static void
changing(void)
{
    static const int fns[] = {W_POLL, W_N};
    ws_init(&s, fns, "wasi_snapshot_preview1", prep);
    addfile(4, OSK_STREAM);
    files[0].avail = 0;
    clk_real.tv_sec = 1700000000;
    clk_mono.tv_sec = 5000;
    memset(s.mem, 0, WS_MEM);
    st64(s.mem, 0x55);
    st64(s.mem + 24, 100000000);
    st64(s.mem + 48, 0x66);
    s.mem[48 + 8] = 1;
    st32(s.mem + 48 + 16, 4);
    os_poll_hook = advance;
    harness_clock = 1;
    intr_at = (int)sym_choice(2);
    atomic_store(&intr, intr_at == 0);
    change = sym_choice(6);
    during = other;
    nintr = 0;
    int ret = icall(W_POLL, (const uint64_t[]){0, OUT, 2, RET});
    sym_check(ret == 0, "the call returns");
    uint32_t n = ld32(s.mem + RET);
    uint8_t *e = s.mem + OUT;
    if (nintr) {
        switch (change) {
        case 0:
            sym_check(s.err == 0 && n >= 1, "an event");
            e += ld64(e) == 0x55 ? 32 : 0;
            sym_check(ld64(e) == 0x66 && e[8] == WE_BADF, "BADF");
            break;
        case 1:
        case 2:
        case 3:
            sym_check(s.err != 0, "an error");
            break;
        case 4:
            sym_check(s.err == 0 && n >= 1, "an event");
            e += ld64(e) == 0x55 ? 32 : 0;
            sym_check(ld64(e) == 0x66 && e[8] == 0, "readable");
            break;
        case 5:
            sym_check(s.err == 0 && n == 1 && ld64(e) == 0x55 &&
                          e[8] == WE_BADF && e[10] == 1,
                      "BADF instead of the clock");
            break;
        }
        sym_reach("changed");
    } else {
        sym_check(s.err == 0 && n == 1 && ld64(e) == 0x55, "timeout");
        sym_reach("timeout");
    }
    os_poll_hook = NULL;
    harness_clock = 0;
    os_nlog = 0;
    ws_fini(&s);
    sym_expect("changed");
}

void
harness_main(void)
{
    int a = (int)sym_param(1, 0);
    switch (sym_param(0, 0)) {
    case 0:
        times(a);
        break;
    case 1:
        clocks();
        break;
    case 2:
        polls((unsigned)a);
        break;
    case 3:
        timer(a);
        break;
    case 4:
        overlap();
        break;
    case 5:
        blocking(a);
        break;
    case 6:
        changing();
        break;
    }
}
