/*
 * Growth of a shared memory by one thread of a cluster while others use it.
 *
 * params: 0 what the first thread does, 1 what the second does,
 *         2 what the third does (0: none), 3 preemptions,
 *         4 allocation failures of the growth, 5 spurious wakeups
 * actions: 1 memory.grow once, 2 twice, 3 a loop of atomic increments and
 *          loads, 4 loop until the size has changed, 5 wait on a cell,
 *          6 return at once, 7 terminate the cluster,
 *          8 loop until terminated, 9 plain stores and loads in a loop,
 *          10 grow too much, 11 memory.fill/copy in a loop, then grow
 */
#include "thrkit.h"

#define SZ0 8
#define SZMAX 12

static struct cluster cl;
static unsigned fn[16];
static struct thread {
    struct wk *k;
    unsigned act;
    int ret;
    int trap;
    uint32_t res;
    bool in_guest;
} ts[3];

static void
setup(struct wk *k)
{
    if (k != &tk0)
        k->ec.cluster = &cl;
    /* this is adjusted to the time which passes between the checks */
    k->ec.check_interval = 5;
}

static void
module(void)
{
    wm_init(&tm);
    wm_import(&tm, "m", "a", 2);
    WB(&tm.imp, 0x0b, SZ0, SZMAX, 0);
    fn[1] = WMF(&tm, "", "i", NULL, 0x41, 1, 0x40, 0);
    fn[2] = WMF(&tm, "", "i", NULL, 0x41, 1, 0x40, 0, 0x41, 1, 0x40, 0, 0x6a);
    /* local 0: count; [0] += 1; sum of [4] */
    fn[3] = WMF(&tm, "", "i", "ii", 0x03, 0x40,          /* loop */
                0x41, 0, 0x41, 1, 0xfe, 0x1e, 2, 0, 0x1a, /* [0] += 1 */
                0x41, 4, 0x28, 2, 0, 0x20, 1, 0x6a, 0x21, 1,
                0x20, 0, 0x41, 1, 0x6a, 0x22, 0, 0x41, 2, 0x48, 0x0d, 0, 0x0b,
                0x20, 1);
    fn[4] = WMF(&tm, "", "i", NULL, 0x03, 0x40, 0x3f, 0, 0x41, SZ0, 0x46,
                0x0d, 0, 0x0b, 0x3f, 0);
    fn[5] = WMF(&tm, "", "i", NULL, 0x41, 4, 0x41, 5, 0x42, 0xe4, 0, 0xfe, 1,
                2, 0);
    fn[6] = WMF(&tm, "", "i", NULL, 0x41, 7);
    fn[8] = WMF(&tm, "", "i", NULL, 0x03, 0x40, 0x0c, 0, 0x0b, 0x41, 0);
    fn[9] = WMF(&tm, "", "i", "i", 0x03, 0x40, 0x41, 0, 0x20, 0, 0x41, 3,
                0x6a, 0x3a, 0, 0, 0x20, 0, 0x41, 1, 0x6a, 0x22, 0, 0x41, 2,
                0x48, 0x0d, 0, 0x0b, 0x41, 0, 0x2d, 0, 0);
    fn[10] = WMF(&tm, "", "i", NULL, 0x41, SZMAX - SZ0 + 1, 0x40, 0);
    fn[11] = WMF(&tm, "", "i", NULL, 0x41, 1, 0x41, 9, 0x41, 1, 0xfc, 11, 0,
                 0x41, 2, 0x41, 1, 0x41, 1, 0xfc, 10, 0, 0, 0x41, 1, 0x40, 0);
}

static void
body(void *vp)
{
    struct thread *t = vp;
    if (t->act == 7) {
        toywasm_mutex_lock(&cl.lock);
        cluster_set_interrupt(&cl);
        toywasm_mutex_unlock(&cl.lock);
    } else {
        struct val r;
        memset(&r, 0, sizeof(r));
        t->ret = wk_call(t->k, fn[t->act], NULL, &r);
        t->trap = t->k->trap;
        t->res = r.u.i32;
    }
    toywasm_mutex_lock(&cl.lock);
    cluster_remove_thread(&cl);
    toywasm_mutex_unlock(&cl.lock);
}

void
harness_main(void)
{
    unsigned n = 0;
    for (unsigned i = 0; i < 3; i++)
        if (sym_param(i, i < 2 ? 1 : 0))
            ts[n++].act = (unsigned)sym_param(i, 1);
    module();
    tinit(n);
    wk_setup = setup;
    uint32_t init[2] = {0, 5};
    unsigned grows = 0, incs = 0, big = 0;
    bool term = false, fill = false, spin = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned a = ts[i].act;
        grows += a == 1 || a == 11 ? 1 : a == 2 ? 2 : 0;
        big += a == 10;
        incs += a == 3 ? 2 : 0;
        term |= a == 7;
        fill |= a == 11;
        spin |= a == 4;
    }
    memcpy(tmem[0]->data, init, 8);
    cluster_init(&cl);
    twatch[0] = &cl;
    twatchn[0] = sizeof(cl);
    twatch[1] = tmem[0];
    twatchn[1] = sizeof(*tmem[0]);
    toywasm_mutex_lock(&cl.lock);
    for (unsigned i = 0; i < n; i++) {
        ts[i].k = &tk[i];
        cluster_add_thread(&cl);
    }
    toywasm_mutex_unlock(&cl.lock);
    int id[3];
    rt_preempt = (int)sym_param(3, 2);
    rt_spurious = (int)sym_param(5, 0);
    rt_tick = 40000000;
    rt_quantum = 40;
    for (unsigned i = 0; i < n; i++)
        id[i] = rt_thr_spawn(body, &ts[i]);
    cluster_join(&cl);
    for (unsigned i = 0; i < n; i++)
        rt_thr_join(id[i]);
    rt_watch = NULL;
    wk_setup = NULL;
    cluster_destroy(&cl);

    uint32_t size = tmem[0]->size_in_pages;
    uint8_t mem[SZMAX];
    memset(mem, 0xff, sizeof(mem));
    void *p;
    bool moved = false;
    sym_check(memory_instance_getptr2(tmem[0], 0, 0, size, &p, &moved) == 0,
              "the memory is accessible up to its size");
    memcpy(mem, p, size);
    bool inter = false;
    unsigned seen = 0, done = 0;
    for (unsigned i = 0; i < n; i++) {
        struct thread *t = &ts[i];
        if (t->act == 7)
            continue;
        if (t->ret != 0) {
            sym_check(t->ret == ETOYWASMTRAP &&
                              t->trap == TRAP_VOLUNTARY_THREAD_EXIT && term,
                      "threads fail only when the cluster is terminated");
            inter = true;
            continue;
        }
        switch (t->act) {
        case 1:
        case 11:
            sym_check(t->res >= SZ0 && t->res < SZ0 + grows,
                      "memory.grow returns the previous size");
            sym_check(!(seen >> (t->res - SZ0) & 1),
                      "each growth has a previous size of its own");
            seen |= 1u << (t->res - SZ0);
            done++;
            break;
        case 2:
            sym_check(t->res >= SZ0 * 2 + 1 && t->res < (SZ0 + grows) * 2,
                      "memory.grow returns the previous size");
            done += 2;
            break;
        case 3:
            sym_check(t->res == 10, "contents survive the growth");
            break;
        case 4:
            sym_check(t->res > SZ0 && t->res <= SZ0 + grows,
                      "the new size becomes visible");
            break;
        case 5:
            sym_check(t->res == 2, "the waiter times out");
            break;
        case 6:
            sym_check(t->res == 7, "result");
            break;
        case 8:
            sym_fail_("an endless loop ended");
        case 9:
            sym_check(t->res == 4, "stores survive the growth");
            break;
        case 10:
            sym_check(t->res == (uint32_t)-1,
                      "growing beyond the maximum fails");
            break;
        }
    }
    if (!inter) {
        sym_check(done == grows && size == SZ0 + grows,
                  "each growth takes effect once");
        uint32_t cnt, five;
        memcpy(&cnt, mem, 4);
        memcpy(&five, mem + 4, 4);
        if (incs)
            sym_check((fill ? cnt & 0xff : cnt) == incs,
                      "no update is lost");
        sym_check(five == 5, "contents survive the growth");
        if (fill)
            sym_check(mem[1] == 9 && mem[2] == 9, "bulk stores survive");
        for (uint32_t i = SZ0; i < size; i++)
            sym_check(mem[i] == 0, "new memory is zero");
        sym_reach("done");
    } else
        sym_reach("interrupted");
    if (rt_preempt < (int)sym_param(3, 2))
        sym_reach("preempted");
    tfini();
    if (!term)
        sym_expect("done");
    else
        sym_expect("interrupted");
    if (sym_param(3, 2))
        sym_expect("preempted");
}
