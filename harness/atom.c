/*
 * Atomic memory instructions.
 *
 * params: 0 kind: 0 one instruction, 1 concurrent instructions
 *  kind 0: 1 first opcode, 2 number of opcodes, 3: 1 shared memory
 *  kind 1: 1 opcode of the first thread, 2 number of its instructions,
 *          3 number of threads, 4 preemptions
 */
#include "rt_thr.h"
#include "wk.h"

static const uint8_t width[7] = {4, 8, 1, 2, 1, 2, 4};
static const uint8_t is64[7] = {0, 1, 0, 0, 1, 1, 1};
#define SZ 16

static uint64_t
apply(unsigned grp, unsigned bits, uint64_t old, uint64_t a, uint64_t b)
{
    uint64_t mask = bits == 64 ? UINT64_MAX : (1ull << bits) - 1;
    uint64_t r = old;
    switch (grp) {
    case 0: r = old; break;
    case 1: r = a; break;
    case 2: r = old + a; break;
    case 3: r = old - a; break;
    case 4: r = old & a; break;
    case 5: r = old | a; break;
    case 6: r = old ^ a; break;
    case 7: r = a; break;
    case 8: r = old == a ? b : old; break;
    }
    return r & mask;
}

/* a function which executes op with its parameters */
static unsigned
mkfn(struct wm *m, uint8_t op, uint32_t off)
{
    unsigned grp = (op - 0x10) / 7, v = (op - 0x10) % 7;
    const char *t = is64[v] ? "I" : "i";
    static char ps[96][4];
    static unsigned nps;
    char *p = ps[nps++];
    unsigned n = 0;
    p[n++] = 'i';
    if (grp >= 1)
        p[n++] = *t;
    if (grp == 8)
        p[n++] = *t;
    p[n] = 0;
    unsigned f = wm_fn(m, p, grp == 1 ? "" : t, NULL, NULL, 0);
    struct wb *w = wm_code(m, f);
    for (unsigned i = 0; i < n; i++) {
        wb_u8(w, 0x20);
        wb_u8(w, (uint8_t)i);
    }
    wb_u8(w, 0xfe);
    wb_u8(w, op);
    unsigned al = width[v] == 8 ? 3 : width[v] == 4 ? 2 : width[v] == 2;
    wb_u8(w, (uint8_t)al);
    wb_uleb(w, off);
    return f;
}

static void
setup_shared(struct wm *m, struct wk *k, struct import_object **imo)
{
    struct wb w;
    wm_emit(m, &w);
    wk_init(k);
    sym_check(wk_load(k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    if (create_satisfying_shared_memories(&k->mctx, &k->mctx, k->m, imo))
        sym_fail_("harness: shared memory");
    sym_check(wk_inst(k, *imo) == 0, "instantiation succeeds");
}

static void
single(unsigned first, unsigned n, bool shared)
{
    static struct wm m;
    static struct wk k;
    struct import_object *imo = NULL;
    uint8_t op = (uint8_t)(0x10 + first + sym_choice(n));
    unsigned grp = (op - 0x10u) / 7, v = (op - 0x10u) % 7;
    static const uint32_t offs[] = {0, 1, 4, 12, 0xfffffff8, 0xffffffff};
    uint32_t off = offs[sym_choice(6)];
    wm_init(&m);
    if (shared) {
        wm_import(&m, "m", "mem", 2);
        WB(&m.imp, 0x0b, SZ, SZ, 0);
    } else
        WB(&m.mem, 1, 8, SZ, 0);
    unsigned fst = WMF(&m, "iI", "", NULL, 0x20, 0, 0x20, 1, 0x37, 0, 0);
    unsigned fld = WMF(&m, "i", "I", NULL, 0x20, 0, 0x29, 0, 0);
    unsigned f = mkfn(&m, op, off);
    if (shared)
        setup_shared(&m, &k, &imo);
    else
        wm_must(&m, &k);
    uint8_t mem[SZ];
    sym_bytes(mem, SZ);
    struct val a[3], r;
    for (unsigned i = 0; i < SZ; i += 8) {
        memset(a, 0, sizeof(a));
        a[0].u.i32 = i;
        memcpy(&a[1].u.i64, &mem[i], 8);
        sym_check(wk_call(&k, fst, a, NULL) == 0, "store");
    }
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    uint32_t addr = sym_u32();
    uint64_t x = sym_u64(), y = sym_u64();
    if (!is64[v]) {
        x = (uint32_t)x;
        y = (uint32_t)y;
    }
    a[0].u.i32 = addr;
    if (is64[v]) {
        a[1].u.i64 = x;
        a[2].u.i64 = y;
    } else {
        a[1].u.i32 = (uint32_t)x;
        a[2].u.i32 = (uint32_t)y;
    }
    int ret = wk_call(&k, f, a, &r);
    uint64_t ea = (uint64_t)addr + off;
    unsigned w = width[v];
    bool oob = ea + w > SZ, mis = ea % w != 0;
    if (oob || mis) {
        sym_check(ret == ETOYWASMTRAP &&
                          ((oob && k.trap ==
                                           TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS) ||
                           (mis &&
                            k.trap == TRAP_UNALIGNED_ATOMIC_OPERATION)),
                  "misaligned and out of bounds accesses trap");
        if (oob)
            sym_reach("oob");
        else
            sym_reach("misaligned");
    } else {
        sym_check(ret == 0, "the access succeeds");
        ea = sym_concretize(ea);
        uint64_t old = 0;
        memcpy(&old, &mem[ea], w);
        uint64_t nw = apply(grp, w * 8, old, x, y);
        memcpy(&mem[ea], &nw, w);
        if (grp != 1)
            sym_check((is64[v] ? r.u.i64 : r.u.i32) == old,
                      "the previous value is returned, zero extended");
        sym_reach("ok");
    }
    for (unsigned i = 0; i < SZ; i += 8) {
        memset(a, 0, sizeof(a));
        memset(&r, 0, sizeof(r));
        a[0].u.i32 = i;
        sym_check(wk_call(&k, fld, a, &r) == 0 &&
                          memcmp(&r.u.i64, &mem[i], 8) == 0,
                  "contents of the memory");
    }
    sym_expect("ok");
    sym_expect("oob");
    if (w > 1)
        sym_reach("misaligned-possible");
    if (imo)
        instance_destroy(k.inst), k.inst = NULL,
        wk_imports_destroy(&k, imo);
    wk_fini(&k);
    wm_fini(&m);
}

/* ---- several threads ---- */

static struct wk k0;
static struct instance *insts[3];
static const uint8_t *lo, *hi;

static int
watch(const void *p)
{
    return (const uint8_t *)p >= lo && (const uint8_t *)p < hi;
}

struct job {
    struct wk k;
    unsigned f[2], n;
    uint64_t x[2], y[2], r[2];
    uint8_t op[2];
    uint32_t addr[2], off;
} jobs[3];

static void
run(void *vp)
{
    struct job *j = vp;
    for (unsigned i = 0; i < j->n; i++) {
        struct val a[3], r;
        memset(a, 0, sizeof(a));
        memset(&r, 0, sizeof(r));
        a[0].u.i32 = j->addr[i] - j->off;
        a[1].u.i64 = j->x[i];
        a[2].u.i64 = j->y[i];
        sym_check(wk_call(&j->k, j->f[i], a, &r) == 0,
                  "the access succeeds");
        j->r[i] = is64[(j->op[i] - 0x10) % 7] ? r.u.i64 : r.u.i32;
    }
}

/* does some order of the remaining operations explain the results? */
static uint8_t want[SZ];
static bool
explain(uint8_t *mem, const unsigned *at, unsigned nt)
{
    bool done = true;
    bool ok = false;
    for (unsigned t = 0; t < nt; t++) {
        struct job *j = &jobs[t];
        if (at[t] >= j->n)
            continue;
        done = false;
        unsigned i = at[t];
        unsigned grp = (j->op[i] - 0x10u) / 7, v = (j->op[i] - 0x10u) % 7;
        uint8_t m2[SZ];
        memcpy(m2, mem, SZ);
        uint64_t old = 0;
        memcpy(&old, &m2[j->addr[i]], width[v]);
        uint64_t nw = apply(grp, width[v] * 8, old, j->x[i], j->y[i]);
        memcpy(&m2[j->addr[i]], &nw, width[v]);
        unsigned at2[3] = {at[0], at[1], at[2]};
        at2[t]++;
        bool same = grp == 1 || old == j->r[i];
        ok |= same & explain(m2, at2, nt);
    }
    if (done) {
        bool eq = true;
        for (unsigned i = 0; i < 8; i++)
            eq &= mem[8 + i] == want[i];
        return eq;
    }
    return ok;
}

static void
concurrent(unsigned op0, unsigned per, unsigned nt, unsigned pre)
{
    static struct wm m;
    struct import_object *imo = NULL;
    wm_init(&m);
    wm_import(&m, "m", "mem", 2);
    WB(&m.imp, 0x0b, SZ, SZ, 0);
    unsigned fst = WMF(&m, "iI", "", NULL, 0x20, 0, 0x20, 1, 0x37, 0, 0);
    unsigned fld = WMF(&m, "i", "I", NULL, 0x20, 0, 0x29, 0, 0);
    for (unsigned t = 0; t < nt; t++) {
        jobs[t].n = t == 0 ? per : 1;
        /* the same cell, differently addressed */
        jobs[t].off = t == 0 ? 0 : 8;
        for (unsigned i = 0; i < jobs[t].n; i++) {
            uint8_t op;
            if (t == 0 && i == 0)
                op = (uint8_t)(0x10 + op0);
            else if (t == 0) {
                /* read back, with an instruction of the same width */
                op = (uint8_t)(0x10 + op0 % 7);
            } else {
                /* one of each kind, of the same width or the widest */
                static const uint8_t g[] = {0, 1, 2, 7, 8};
                op = (uint8_t)(0x10 + 7 * g[sym_choice(5)] +
                               (sym_choice(2) ? 1 : op0 % 7));
            }
            jobs[t].op[i] = op;
            unsigned v = (op - 0x10u) % 7;
            jobs[t].addr[i] = 8;
            jobs[t].f[i] = mkfn(&m, op, jobs[t].off);
            jobs[t].x[i] = sym_u64();
            jobs[t].y[i] = sym_u64();
            if (!is64[v]) {
                jobs[t].x[i] = (uint32_t)jobs[t].x[i];
                jobs[t].y[i] = (uint32_t)jobs[t].y[i];
            }
        }
    }
    setup_shared(&m, &k0, &imo);
    struct meminst *mi = imo->entries[0].u.mem;
    uint8_t mem[SZ];
    sym_bytes(mem, SZ);
    struct val a[2], r;
    memset(a, 0, sizeof(a));
    a[0].u.i32 = 8;
    memcpy(&a[1].u.i64, mem + 8, 8);
    sym_check(wk_call(&k0, fst, a, NULL) == 0, "store");
    void *p;
    bool moved = false;
    if (memory_instance_getptr2(mi, 0, 0, SZ, &p, &moved))
        sym_fail_("harness: memory");
    lo = p;
    hi = lo + SZ;
    for (unsigned t = 0; t < nt; t++) {
        jobs[t].k = k0;
        report_init(&jobs[t].k.rep);
        if (instance_create(&k0.mctx, k0.m, &jobs[t].k.inst, imo,
                            &jobs[t].k.rep))
            sym_fail_("harness: instance");
        report_clear(&jobs[t].k.rep);
    }
    rt_watch = watch;
    rt_preempt = (int)pre;
    int id[3];
    for (unsigned t = 0; t < nt; t++)
        id[t] = rt_thr_spawn(run, &jobs[t]);
    for (unsigned t = 0; t < nt; t++)
        rt_thr_join(id[t]);
    rt_watch = NULL;
    memset(a, 0, sizeof(a));
    memset(&r, 0, sizeof(r));
    a[0].u.i32 = 8;
    sym_check(wk_call(&k0, fld, a, &r) == 0, "load");
    memcpy(want, &r.u.i64, 8);
    unsigned at[3] = {0, 0, 0};
    sym_check(explain(mem, at, nt),
              "concurrent atomic operations take effect in some order");
    for (unsigned t = 0; t < nt; t++)
        instance_destroy(jobs[t].k.inst);
    instance_destroy(k0.inst);
    k0.inst = NULL;
    wk_imports_destroy(&k0, imo);
    wk_fini(&k0);
    wm_fini(&m);
    sym_reach("done");
    sym_expect("done");
    if (rt_preempt < (int)pre)
        sym_reach("preempted");
    sym_expect("preempted");
}

void
harness_main(void)
{
    if (sym_param(0, 0) == 0)
        single((unsigned)sym_param(1, 0), (unsigned)sym_param(2, 63),
               sym_param(3, 0) != 0);
    else
        concurrent((unsigned)sym_param(1, 14), (unsigned)sym_param(2, 1),
                   (unsigned)sym_param(3, 2), (unsigned)sym_param(4, 3));
    sym_check(rt_live == 0, "nothing remains allocated");
}
