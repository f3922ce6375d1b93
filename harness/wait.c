/*
 * memory.atomic.wait and notify.
 *
 * params: 0 kind
 *  0 waiters and one notifier: 1 number of waiters, 2 preemptions,
 *    3: 1 the notifier changes the cell before it notifies, 4 spurious wakeups,
 *    5: 1 64-bit wait, 6 number of notifications
 *  1 one waiter with a timeout, nobody notifies
 *  2 two waiters on different cells or memories, one notification:
 *    1 preemptions
 *  3 traps, results without blocking
 *  4 timeout against notification: 1 preemptions
 */
#include "thrkit.h"

/* each memory has 16 bytes */
static unsigned f_wait[2][2], f_notify[2], f_notify4[2], f_st[2];

static void
module(void)
{
    wm_init(&tm);
    wm_import(&tm, "m", "a", 2);
    WB(&tm.imp, 0x0b, 16, 16, 0);
    wm_import(&tm, "m", "b", 2);
    WB(&tm.imp, 0x0b, 16, 16, 0);
    for (unsigned i = 0; i < 2; i++) {
        struct wb *w;
        for (unsigned l = 0; l < 2; l++) {
            f_wait[i][l] = wm_fn(&tm, l ? "iII" : "iiI", "i", NULL, NULL, 0);
            w = wm_code(&tm, f_wait[i][l]);
            WB(w, 0x20, 0, 0x20, 1, 0x20, 2, 0xfe);
            wb_u8(w, (uint8_t)(1 + l));
            wb_u8(w, (uint8_t)(0x42 + l));
            wb_u8(w, (uint8_t)i);
            wb_u8(w, 0);
        }
        f_notify[i] = wm_fn(&tm, "ii", "i", NULL, NULL, 0);
        w = wm_code(&tm, f_notify[i]);
        WB(w, 0x20, 0, 0x20, 1, 0xfe, 0, 0x42);
        wb_u8(w, (uint8_t)i);
        wb_u8(w, 0);
        /* with a static offset */
        f_notify4[i] = wm_fn(&tm, "ii", "i", NULL, NULL, 0);
        w = wm_code(&tm, f_notify4[i]);
        WB(w, 0x20, 0, 0x20, 1, 0xfe, 0, 0x42);
        wb_u8(w, (uint8_t)i);
        wb_u8(w, 4);
        f_st[i] = wm_fn(&tm, "iI", "", NULL, NULL, 0);
        w = wm_code(&tm, f_st[i]);
        WB(w, 0x20, 0, 0x20, 1, 0xfe, 0x18, 0x43);
        wb_u8(w, (uint8_t)i);
        wb_u8(w, 0);
    }
}

static struct waiter {
    struct wk *k;
    unsigned mem;
    bool is64;
    uint32_t addr;
    uint64_t expected;
    int64_t timeout;
    int ret;
    uint32_t res;
    uint64_t t0, t1;
    bool begun, done;
} ws[3];

static void
waiter(void *vp)
{
    struct waiter *w = vp;
    struct val a[3], r;
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    a[0].u.i32 = w->addr;
    if (w->is64)
        a[1].u.i64 = w->expected;
    else
        a[1].u.i32 = (uint32_t)w->expected;
    a[2].u.i64 = (uint64_t)w->timeout;
    w->t0 = rt_now;
    w->begun = true;
    w->ret = wk_call(w->k, f_wait[w->mem][w->is64], a, &r);
    w->t1 = rt_now;
    w->res = r.u.i32;
    w->done = true;
}

static struct notifier {
    struct wk *k;
    unsigned mem;
    uint32_t addr, count, n;
    uint64_t store;
    bool dostore;
    unsigned rounds;
    uint32_t woken;
    bool done;
} nt;

static void
notifier(void *vp)
{
    struct notifier *n = vp;
    struct val a[2], r;
    if (n->dostore) {
        memset(a, 0, sizeof(a));
        a[0].u.i32 = n->addr & ~7u;
        a[1].u.i64 = n->store;
        sym_check(wk_call(n->k, f_st[n->mem], a, NULL) == 0, "store");
    }
    for (unsigned i = 0; i < n->rounds; i++) {
        memset(a, 0, sizeof(a));
        memset(&r, 0, sizeof(r));
        bool off = n->addr >= 4;
        a[0].u.i32 = off ? n->addr - 4 : n->addr;
        a[1].u.i32 = n->count;
        sym_check(wk_call(n->k, (off ? f_notify4 : f_notify)[n->mem], a, &r) ==
                      0,
                  "notify");
        sym_check(r.u.i32 <= n->count,
                  "notify wakes at most the requested number");
        n->woken += r.u.i32;
    }
    n->done = true;
}

static void
poke(unsigned mem, uint32_t addr, uint64_t v)
{
    struct val a[2];
    memset(a, 0, sizeof(a));
    a[0].u.i32 = addr;
    a[1].u.i64 = v;
    sym_check(wk_call(&tk0, f_st[mem], a, NULL) == 0, "store");
}

static bool stuck_ok;
static unsigned nw;

static void
stuck(void)
{
    if (!stuck_ok)
        return;
    /* all those still waiting have a reason to */
    uint32_t woken = 0;
    for (unsigned i = 0; i < nw; i++)
        if (ws[i].done && ws[i].res == 0)
            woken++;
    sym_check(nt.done, "notify does not block");
    sym_check(woken == nt.woken, "as many waiters wake as were notified");
    sym_reach("waits on");
    sym_end();
}

static void
many(void)
{
    nw = (unsigned)sym_param(1, 1);
    bool st = sym_param(3, 1) != 0;
    bool is64 = sym_param(5, 0) != 0;
    module();
    tinit(nw + 1);
    uint64_t v = sym_u64(), x = sym_u64();
    poke(0, 8, v);
    uint32_t v32 = (uint32_t)v, x32 = (uint32_t)x;
    bool same = is64 ? v == x : v32 == x32;
    /* a store which does not change the cell is no different from none */
    sym_assume(!(st && same));
    for (unsigned i = 0; i < nw; i++) {
        ws[i].k = &tk[i];
        ws[i].addr = 8;
        ws[i].is64 = is64;
        ws[i].expected = is64 ? v : v32;
        ws[i].timeout = -1;
    }
    nt.k = &tk[nw];
    nt.addr = 8;
    nt.count = sym_u32();
    nt.store = x;
    nt.dostore = st;
    nt.rounds = (unsigned)sym_param(6, 1);
    rt_preempt = (int)sym_param(2, 2);
    rt_spurious = (int)sym_param(4, 0);
    rt_idle_max = 8;
    rt_stuck = stuck;
    /* without a change of the cell a waiter may come too late */
    stuck_ok = true;
    int id[4];
    for (unsigned i = 0; i < nw; i++)
        id[i] = rt_thr_spawn(waiter, &ws[i]);
    id[nw] = rt_thr_spawn(notifier, &nt);
    if (st)
        /* after the change nobody begins to wait; wake all those who did */
        stuck_ok = nt.count < nw;
    for (unsigned i = 0; i <= nw; i++)
        rt_thr_join(id[i]);
    uint32_t woken = 0;
    for (unsigned i = 0; i < nw; i++) {
        sym_check(ws[i].ret == 0, "wait returns normally");
        sym_check(ws[i].res <= 1, "wait without timeout never times out");
        if (ws[i].res == 0)
            woken++;
        else
            sym_check(st, "'not equal' only if the cell differs");
    }
    sym_check(woken == nt.woken, "as many waiters wake as were notified");
    if (woken)
        sym_reach("woken");
    if (st && woken < nw)
        sym_reach("not equal");
    tfini();
    sym_expect("woken");
    if (st)
        sym_expect("not equal");
    else
        sym_expect("waits on");
}

static void
timeout(void)
{
    module();
    tinit(1);
    uint64_t v = sym_u64();
    poke(0, 0, v);
    nw = 1;
    ws[0].k = &tk[0];
    ws[0].is64 = sym_choice(2);
    ws[0].expected = ws[0].is64 ? v : (uint32_t)v;
    static const int64_t ts[] = {0,        1,         999999,    10000000,
                                 50000000, 50000001,  120000000, 999999999,
                                 -1,       INT64_MIN, -1000000};
    unsigned c = sym_choice(11);
    ws[0].timeout = ts[c];
    rt_now += sym_choice(2) ? 999999999 : 0;
    rt_spurious = 1;
    rt_idle_max = 30;
    rt_stuck = stuck;
    stuck_ok = ws[0].timeout < 0;
    nt.done = true;
    int id = rt_thr_spawn(waiter, &ws[0]);
    rt_thr_join(id);
    sym_check(ws[0].timeout >= 0, "a negative timeout is infinite");
    sym_check(ws[0].ret == 0 && ws[0].res == 2, "the wait times out");
    sym_check(ws[0].t1 == ws[0].t0 + (uint64_t)ws[0].timeout,
              "the wait times out when its timeout has elapsed");
    sym_reach("timed out");
    tfini();
    sym_expect("timed out");
    sym_expect("waits on");
}

static void
cells(void)
{
    module();
    tinit(3);
    nw = 2;
    for (unsigned i = 0; i < 2; i++) {
        ws[i].k = &tk[i];
        ws[i].mem = i == 0 ? 0 : sym_choice(2);
        ws[i].addr = i == 0 ? 4 : 4 * sym_choice(3);
        ws[i].timeout = i == 0 ? -1 : 70000000;
    }
    nt.k = &tk[2];
    nt.mem = sym_choice(2);
    nt.addr = 4 * sym_choice(3);
    nt.count = sym_choice(2) ? 0xffffffff : 1;
    nt.rounds = 1;
    rt_preempt = (int)sym_param(1, 1);
    rt_idle_max = 8;
    rt_stuck = stuck;
    stuck_ok = true;
    int id[3];
    for (unsigned i = 0; i < 2; i++)
        id[i] = rt_thr_spawn(waiter, &ws[i]);
    id[2] = rt_thr_spawn(notifier, &nt);
    rt_thr_join(id[1]);
    rt_thr_join(id[2]);
    uint32_t could = 0;
    for (unsigned i = 0; i < 2; i++) {
        bool there = ws[i].mem == nt.mem && ws[i].addr == nt.addr;
        could += there;
        if (ws[i].done && ws[i].res == 0)
            sym_check(there, "a notification wakes waiters of its cell only");
    }
    sym_check(ws[1].ret == 0 && (ws[1].res == 0 || ws[1].res == 2),
              "the waiter wakes or times out");
    sym_check(nt.woken <= could, "notify counts waiters of its cell only");
    if (nt.woken)
        sym_reach("woken");
    sym_expect("woken");
    sym_expect("waits on");
    /* if nothing woke the first one, it waits on */
    rt_thr_join(id[0]);
    uint32_t woken = 0;
    for (unsigned i = 0; i < 2; i++)
        woken += ws[i].res == 0;
    sym_check(woken == nt.woken, "as many waiters wake as were notified");
    tfini();
}

static void
plain(void)
{
    module();
    /* and an unshared memory */
    WB(&tm.mem, 1, 8, 16, 0);
    unsigned w32 = WMF(&tm, "iiI", "i", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfe,
                       1, 0x42, 2, 0);
    unsigned n32 = WMF(&tm, "ii", "i", NULL, 0x20, 0, 0x20, 1, 0xfe, 0, 0x42,
                       2, 0);
    tinit(0);
    uint64_t v[2] = {sym_u64(), sym_u64()};
    poke(0, 0, v[0]);
    poke(0, 8, v[1]);
    struct val a[3], r;
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    uint32_t addr = sym_u32(), x = sym_u32();
    uint64_t y = sym_u64();
    a[0].u.i32 = addr;
    rt_idle_max = 3;
    unsigned kind = sym_choice(4);
    int ret;
    unsigned sz = 4;
    switch (kind) {
    case 0:
        a[1].u.i32 = x;
        ret = wk_call(&tk0, f_notify[0], a, &r);
        break;
    case 1:
        a[1].u.i32 = x;
        ret = wk_call(&tk0, n32, a, &r);
        break;
    case 2: {
        bool l = sym_choice(2);
        sz = l ? 8 : 4;
        if (l)
            a[1].u.i64 = y;
        else
            a[1].u.i32 = (uint32_t)y;
        ret = wk_call(&tk0, f_wait[0][l], a, &r); /* timeout 0 */
        break;
    }
    default:
        a[1].u.i32 = x;
        ret = wk_call(&tk0, w32, a, &r);
        break;
    }
    bool oob = (uint64_t)addr + sz > 16, mis = addr % sz != 0;
    if (kind == 3) {
        sym_check(ret == ETOYWASMTRAP &&
                          (tk0.trap == TRAP_ATOMIC_WAIT_ON_NON_SHARED_MEMORY ||
                           oob || mis),
                  "waiting on unshared memory traps");
        sym_reach("trap");
    } else if (oob || mis) {
        sym_check(ret == ETOYWASMTRAP &&
                          ((oob && tk0.trap ==
                                           TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS) ||
                           (mis &&
                            tk0.trap == TRAP_UNALIGNED_ATOMIC_OPERATION)),
                  "misaligned and out of bounds accesses trap");
        sym_reach("trap");
    } else if (kind < 2) {
        sym_check(ret == 0 && r.u.i32 == 0, "notify without waiters");
        sym_reach("notify");
    } else {
        uint64_t cell = 0;
        addr = (uint32_t)sym_concretize(addr);
        memcpy(&cell, (char *)v + addr, sz);
        uint64_t e = sz == 8 ? y : (uint32_t)y;
        sym_check(ret == 0 && r.u.i32 == (cell == e ? 2 : 1),
                  "wait compares the whole cell");
        sym_reach("compared");
    }
    tfini();
    sym_expect("trap");
    sym_expect("notify");
    sym_expect("compared");
}

static void
race(void)
{
    module();
    tinit(2);
    nw = 1;
    ws[0].k = &tk[0];
    ws[0].timeout = sym_choice(2) ? 1000000 : 60000000;
    nt.k = &tk[1];
    nt.count = 1;
    nt.rounds = 1;
    rt_preempt = (int)sym_param(1, 3);
    rt_spurious = 1;
    int id = rt_thr_spawn(waiter, &ws[0]);
    int id2 = rt_thr_spawn(notifier, &nt);
    /* the time may pass before the notifier runs */
    rt_yield();
    unsigned c = sym_choice(3);
    if (c)
        rt_now += c == 1 ? 1000000 : 60000000;
    rt_thr_join(id);
    rt_thr_join(id2);
    sym_check(ws[0].ret == 0 && (ws[0].res == 0 || ws[0].res == 2),
              "the waiter wakes or times out");
    sym_check((ws[0].res == 0) == (nt.woken == 1),
              "woken exactly if the notification found the waiter");
    if (ws[0].res == 2) {
        sym_check(ws[0].t1 >= ws[0].t0 + (uint64_t)ws[0].timeout,
                  "no timeout before its time");
        sym_reach("timed out");
    } else
        sym_reach("woken");
    tfini();
    sym_expect("woken");
    sym_expect("timed out");
}

void
harness_main(void)
{
    switch (sym_param(0, 0)) {
    case 0: many(); break;
    case 1: timeout(); break;
    case 2: cells(); break;
    case 3: plain(); break;
    case 4: race(); break;
    }
}
