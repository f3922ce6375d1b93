/*
 * Model of pthreads and clocks.  See rt_thr.h.
 */
#include <errno.h>
#include <pthread.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>

#include "rt_thr.h"
#include "sym.h"

int rt_preempt;
int rt_spurious;
int rt_quantum = 200;
int rt_create_fail;
int rt_idle;
int rt_idle_max = 20;
void (*rt_stuck)(void);
uint64_t rt_now = 1000000000000ull;
uint64_t rt_tick;
uint64_t rt_clock_base = 1700000000000000000ull;
int rt_threads = 1;
int rt_switches;
int (*rt_watch)(const void *p);
void (*rt_access)(const void *p, int size, int write, int atomic);

#define MAXT 8
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };

struct mtx {
    int owner; /* thread + 1 */
    int magic;
};
struct cnd {
    int magic;
    int pad;
    int nwait;
};
#define M_INIT 0x4d555458
#define C_INIT 0x434f4e44
#define DEAD 0x64656164

static struct thr {
    int state;
    int co;
    struct mtx *m;
    struct cnd *c;
    bool timed;
    bool timedout;
    uint64_t deadline;
    int join;
    void *(*fn)(void *);
    void (*fn2)(void *);
    void *arg;
} th[MAXT];
static int cur;

int
rt_thr_self(void)
{
    return cur;
}
int
rt_thr_done(int t)
{
    return th[t].state == T_DONE;
}

static int
ready(int t)
{
    switch (th[t].state) {
    case T_RUN:
        return 1;
    case T_MUTEX:
        return th[t].m->owner == 0;
    case T_COND:
        return th[t].timed && th[t].deadline <= rt_now;
    case T_JOIN:
        return th[th[t].join].state == T_DONE;
    }
    return 0;
}

static void
wake_cond(int t, bool timedout)
{
    /* it may have timed out before, and not have got the mutex yet */
    if (!timedout && th[t].timed && th[t].deadline <= rt_now)
        timedout = sym_choice(2) != 0;
    th[t].timedout = timedout;
    th[t].state = T_MUTEX;
    th[t].c->nwait--;
    if (!timedout)
        rt_idle = 0;
}

/* transfer control to t, which is ready or a condition waiter */
static void
go(int t)
{
    if (th[t].state == T_COND) {
        if (th[t].deadline > rt_now)
            rt_now = th[t].deadline;
        else
            rt_idle++;
        wake_cond(t, true);
        if (th[t].m->owner != 0)
            return; /* it waits for the mutex now */
    }
    if (th[t].state == T_MUTEX)
        th[t].m->owner = t + 1;
    th[t].state = T_RUN;
    if (t != cur) {
        cur = t;
        rt_switches++;
        sym_thread_switch(th[t].co);
    }
}

/* the current thread cannot go on: run others until it can */
static void
block(void)
{
    int me = cur;
    int c[MAXT + 1];
    do {
        int n = 0, i;
        for (i = 0; i < rt_threads; i++)
            if (ready(i))
                c[n++] = i;
        if (n == 0) {
            /* let the time pass */
            int best = -1;
            for (i = 0; i < rt_threads; i++)
                if (th[i].state == T_COND && th[i].timed &&
                    (best < 0 || th[i].deadline < th[best].deadline))
                    best = i;
            if (best < 0) {
                if (rt_stuck)
                    rt_stuck();
                sym_fail_("deadlock: no thread can make progress");
            }
            if (++rt_idle > rt_idle_max) {
                if (rt_stuck)
                    rt_stuck();
                sym_fail_("the threads wait forever");
            }
            go(best);
            continue;
        }
        int nsp = n;
        if (rt_spurious > 0)
            for (i = 0; i < rt_threads; i++)
                if (th[i].state == T_COND && !ready(i))
                    c[nsp++] = i;
        int k = sym_choice(nsp);
        if (k >= n) {
            rt_spurious--;
            wake_cond(c[k], false);
            continue;
        }
        go(c[k]);
    } while (cur != me || th[me].state != T_RUN);
}

/* a point where the current thread may be preempted */
void
rt_yield(void)
{
    static int last, ran;
    if (rt_threads == 1)
        return;
    if (last != cur) {
        last = cur;
        ran = 0;
    }
    ran++;
    if (rt_preempt <= 0 && ran < rt_quantum)
        return;
    int c[MAXT + 1];
    int n = 1, i;
    c[0] = cur;
    for (i = 1; i < rt_threads; i++)
        if (ready((cur + i) % rt_threads))
            c[n++] = (cur + i) % rt_threads;
    int k;
    if (ran >= rt_quantum) {
        /* the schedule is fair */
        ran = 0;
        if (n == 1)
            return;
        k = 1;
    } else {
        k = sym_choice(n);
        if (k == 0)
            return;
        rt_preempt--;
    }
    int me = cur;
    go(c[k]);
    /* a thread whose timed wait expired may still be waiting for the mutex */
    if (cur != me)
        sym_fail_("scheduler");
}

static void
entry(void *vp)
{
    struct thr *t = vp;
    if (t->fn)
        t->fn(t->arg);
    else
        t->fn2(t->arg);
    rt_idle = 0;
    t->state = T_DONE;
    block();
    sym_fail_("scheduler: ran a finished thread");
}

static int
spawn(void *(*fn)(void *), void (*fn2)(void *), void *arg)
{
    int t = rt_threads;
    if (t >= MAXT)
        sym_fail_("too many threads for the model");
    th[t].fn = fn;
    th[t].fn2 = fn2;
    th[t].arg = arg;
    th[t].state = T_RUN;
    th[t].co = sym_thread_create(entry, &th[t]);
    rt_threads++;
    return t;
}

int
rt_thr_spawn(void (*fn)(void *), void *arg)
{
    return spawn(NULL, fn, arg);
}

void
rt_thr_join(int t)
{
    while (th[t].state != T_DONE) {
        th[cur].state = T_JOIN;
        th[cur].join = t;
        block();
    }
}

int
rt_pthread_create(pthread_t *tp, const pthread_attr_t *a,
                  void *(*fn)(void *), void *arg)
{
    (void)a;
    if (rt_create_fail > 0 && sym_bool()) {
        rt_create_fail--;
        return EAGAIN;
    }
    *tp = (pthread_t)spawn(fn, NULL, arg);
    rt_yield();
    return 0;
}
int
rt_pthread_detach(pthread_t t)
{
    (void)t;
    return 0;
}
int
rt_pthread_join(pthread_t t, void **r)
{
    rt_thr_join((int)t);
    if (r)
        *r = NULL;
    return 0;
}
pthread_t
rt_pthread_self(void)
{
    return (pthread_t)cur;
}

/* ---- mutexes ---- */

static struct mtx *
mtx(pthread_mutex_t *p)
{
    struct mtx *m = (struct mtx *)(void *)p;
    if (m->magic != M_INIT && !(m->magic == 0 && m->owner >= 0))
        sym_fail_("use of a mutex which is not initialised");
    return m;
}

int
rt_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a)
{
    (void)a;
    struct mtx *m = (struct mtx *)(void *)p;
    m->owner = 0;
    m->magic = M_INIT;
    return 0;
}
int
rt_pthread_mutex_destroy(pthread_mutex_t *p)
{
    struct mtx *m = mtx(p);
    if (m->owner != 0)
        sym_fail_("a locked mutex is destroyed");
    for (int i = 0; i < rt_threads; i++)
        if ((th[i].state == T_MUTEX || th[i].state == T_COND) && th[i].m == m)
            sym_fail_("a mutex is destroyed while a thread waits for it");
    m->magic = DEAD;
    return 0;
}
int
rt_pthread_mutex_lock(pthread_mutex_t *p)
{
    struct mtx *m = mtx(p);
    rt_yield();
    if (m->owner == cur + 1)
        sym_fail_("deadlock: a thread locks a mutex it already holds");
    if (m->owner != 0) {
        th[cur].state = T_MUTEX;
        th[cur].m = m;
        block();
    } else
        m->owner = cur + 1;
    return 0;
}
int
rt_pthread_mutex_unlock(pthread_mutex_t *p)
{
    struct mtx *m = mtx(p);
    if (m->owner != cur + 1)
        sym_fail_("a mutex is unlocked by a thread which does not hold it");
    m->owner = 0;
    rt_yield();
    return 0;
}

/* ---- condition variables ---- */

static struct cnd *
cnd(pthread_cond_t *p)
{
    struct cnd *c = (struct cnd *)(void *)p;
    if (c->magic != C_INIT && c->magic != 0)
        sym_fail_("use of a condition variable which is not initialised");
    return c;
}

int
rt_pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *a)
{
    (void)a;
    struct cnd *c = (struct cnd *)(void *)p;
    c->magic = C_INIT;
    c->nwait = 0;
    return 0;
}
int
rt_pthread_cond_destroy(pthread_cond_t *p)
{
    struct cnd *c = cnd(p);
    if (c->nwait != 0)
        sym_fail_("a condition variable with waiters is destroyed");
    c->magic = DEAD;
    return 0;
}

static int
cwait(pthread_cond_t *cp, pthread_mutex_t *mp, bool timed, uint64_t deadline)
{
    struct cnd *c = cnd(cp);
    struct mtx *m = mtx(mp);
    if (m->owner != cur + 1)
        sym_fail_("waiting on a condition without holding the mutex");
    m->owner = 0;
    c->nwait++;
    th[cur].state = T_COND;
    th[cur].m = m;
    th[cur].c = c;
    th[cur].timed = timed;
    th[cur].timedout = false;
    th[cur].deadline = deadline;
    block();
    return th[cur].timedout ? ETIMEDOUT : 0;
}

int
rt_pthread_cond_wait(pthread_cond_t *cp, pthread_mutex_t *mp)
{
    return cwait(cp, mp, false, 0);
}
int
rt_pthread_cond_timedwait(pthread_cond_t *cp, pthread_mutex_t *mp,
                          const struct timespec *ts)
{
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
        return EINVAL;
    /* absolute CLOCK_REALTIME */
    uint64_t s = (uint64_t)ts->tv_sec;
    uint64_t d;
    if (s >= 15000000000ull)
        d = UINT64_MAX - 1;
    else {
        d = s * 1000000000ull + (uint64_t)ts->tv_nsec;
        d = d < rt_clock_base ? 0 : d - rt_clock_base;
    }
    return cwait(cp, mp, true, d);
}
int
rt_pthread_cond_signal(pthread_cond_t *cp)
{
    struct cnd *c = cnd(cp);
    int w[MAXT], n = 0;
    for (int i = 0; i < rt_threads; i++)
        if (th[i].state == T_COND && th[i].c == c)
            w[n++] = i;
    if (n > 0)
        wake_cond(w[sym_choice(n)], false);
    return 0;
}
int
rt_pthread_cond_broadcast(pthread_cond_t *cp)
{
    struct cnd *c = cnd(cp);
    for (int i = 0; i < rt_threads; i++)
        if (th[i].state == T_COND && th[i].c == c)
            wake_cond(i, false);
    return 0;
}

/* ---- clocks ---- */

__attribute__((weak)) int
rt_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_MONOTONIC)
        rt_now += rt_tick;
    uint64_t t = rt_now;
    if (id == CLOCK_REALTIME)
        t += rt_clock_base;
    ts->tv_sec = (time_t)(t / 1000000000u);
    ts->tv_nsec = (long)(t % 1000000000u);
    return 0;
}

/* ---- instrumented memory accesses ---- */

static void
acc(const void *p, int n, int wr, int at)
{
    if (rt_watch && rt_watch(p)) {
        if (rt_access)
            rt_access(p, n, wr, at);
        rt_yield();
    }
}

#define RW(N)                                                                 \
    void rt___tsan_read##N(void *p) { acc(p, N, 0, 0); }                      \
    void rt___tsan_write##N(void *p) { acc(p, N, 1, 0); }                     \
    void rt___tsan_unaligned_read##N(void *p) { acc(p, N, 0, 0); }            \
    void rt___tsan_unaligned_write##N(void *p) { acc(p, N, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void rt___tsan_read_range(void *p, size_t n) { acc(p, (int)n, 0, 0); }
void rt___tsan_write_range(void *p, size_t n) { acc(p, (int)n, 1, 0); }
void rt___tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void rt___tsan_func_entry(void *p) { (void)p; }
void rt___tsan_func_exit(void) {}
void rt___tsan_init(void) {}
void rt___tsan_atomic_thread_fence(int o) { (void)o; }
void rt___tsan_atomic_signal_fence(int o) { (void)o; }

#define AT(B, T)                                                              \
    T rt___tsan_atomic##B##_load(volatile T *p, int o)                        \
    {                                                                         \
        (void)o;                                                              \
        acc((void *)p, B / 8, 0, 1);                                          \
        return *p;                                                            \
    }                                                                         \
    void rt___tsan_atomic##B##_store(volatile T *p, T v, int o)               \
    {                                                                         \
        (void)o;                                                              \
        acc((void *)p, B / 8, 1, 1);                                          \
        *p = v;                                                               \
    }                                                                         \
    T rt___tsan_atomic##B##_exchange(volatile T *p, T v, int o)               \
    {                                                                         \
        (void)o;                                                              \
        acc((void *)p, B / 8, 1, 1);                                          \
        T r = *p;                                                             \
        *p = v;                                                               \
        return r;                                                             \
    }                                                                         \
    RMW(B, T, add, r + v)                                                     \
    RMW(B, T, sub, r - v)                                                     \
    RMW(B, T, and, r & v)                                                     \
    RMW(B, T, or, r | v)                                                      \
    RMW(B, T, xor, r ^ v)                                                     \
    RMW(B, T, nand, ~(r & v))                                                 \
    T rt___tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v,     \
                                                 int o, int fo)               \
    {                                                                         \
        (void)o;                                                              \
        (void)fo;                                                             \
        acc((void *)p, B / 8, 1, 1);                                          \
        T r = *p;                                                             \
        *p = r == e ? v : r;                                                  \
        return r;                                                             \
    }                                                                         \
    int rt___tsan_atomic##B##_compare_exchange_strong(                        \
        volatile T *p, T *e, T v, int o, int fo)                              \
    {                                                                         \
        (void)o;                                                              \
        (void)fo;                                                             \
        acc((void *)p, B / 8, 1, 1);                                          \
        T r = *p;                                                             \
        int ok = r == *e;                                                     \
        *p = ok ? v : r;                                                      \
        *e = r;                                                               \
        return ok;                                                            \
    }                                                                         \
    int rt___tsan_atomic##B##_compare_exchange_weak(                          \
        volatile T *p, T *e, T v, int o, int fo)                              \
    {                                                                         \
        return rt___tsan_atomic##B##_compare_exchange_strong(p, e, v, o, fo); \
    }
#define RMW(B, T, NAME, EXPR)                                                 \
    T rt___tsan_atomic##B##_fetch_##NAME(volatile T *p, T v, int o)           \
    {                                                                         \
        (void)o;                                                              \
        acc((void *)p, B / 8, 1, 1);                                          \
        T r = *p;                                                             \
        *p = (T)(EXPR);                                                       \
        return r;                                                             \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
