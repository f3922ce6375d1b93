/*
 * Instantiation: constant expressions, active segments, start functions.
 *
 * params: 0 kind
 *  0 integer constant expressions (1: 0 i32, 1 i64)
 *  1 constants of the other types
 *  2 data segments (1: number of segments)
 *  3 element segments (1: number of segments, 2: 1 element expressions)
 *  4 both, in one module, and a start function
 *  5 start functions
 *  6 segments after instantiation
 *  7 globals which refer to functions
 */
#include "wk.h"

static struct wm m;
static struct wk k, ek;
static struct import_object *imo;
static struct exec_context ictx;

/* host provided objects */
static struct globalinst *hg[8];
static struct globaltype hgt[8];
static struct name hname[8], hmod;
static unsigned nhg;
static uint64_t hv[8][2];

static void
hglobal(uint8_t type, bool mut, const char *name)
{
    unsigned i = nhg++;
    static const char *const names[] = {"g0", "g1", "g2", "g3", "g4", "g5"};
    hgt[i].t = (enum valtype)type;
    hgt[i].mut = mut ? GLOBAL_VAR : GLOBAL_CONST;
    set_name_cstr(&hname[i], name ? name : names[i]);
    set_name_cstr(&hmod, "h");
    if (global_instance_create(&k.mctx, &hg[i], &hgt[i]))
        sym_fail_("harness: global");
    wm_import(&m, "h", name ? name : names[i], 3);
    wb_u8(&m.imp, type);
    wb_u8(&m.imp, mut);
}
static void
hset(unsigned i, uint64_t v, uint64_t v2)
{
    struct val x;
    memset(&x, 0, sizeof(x));
    memcpy(&x.u, &v, 8);
    if (hgt[i].t == TYPE_v128)
        memcpy((char *)&x.u + 8, &v2, 8);
    hv[i][0] = v;
    hv[i][1] = v2;
    global_set(hg[i], &x);
}
static void
himports(void)
{
    struct import_object *o;
    if (import_object_alloc(&k.mctx, nhg, &o))
        sym_fail_("harness: import object");
    for (unsigned i = 0; i < nhg; i++) {
        o->entries[i].module_name = &hmod;
        o->entries[i].name = &hname[i];
        o->entries[i].type = EXTERNTYPE_GLOBAL;
        o->entries[i].u.global = hg[i];
    }
    o->next = imo;
    imo = o;
}

static void
load(void)
{
    struct wb w;
    wm_emit(&m, &w);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    wb_fini(&w);
    himports();
}

/* instantiate; a failed instance is kept until the end */
static int
start(void)
{
    report_init(&k.rep);
    int ret = instance_create_no_init(&k.mctx, k.m, &k.inst, imo, &k.rep);
    if (ret)
        sym_fail_("the imports are satisfied");
    exec_context_init(&ictx, k.inst, &k.mctx);
    ictx.report = &k.rep;
    ret = instance_execute_init(&ictx);
    ret = instance_execute_handle_restart(&ictx, ret);
    k.trap = ret == ETOYWASMTRAP ? (int)ictx.trap.trapid : -1;
    exec_context_clear(&ictx);
    report_clear(&k.rep);
    return ret;
}

static void
end(void)
{
    if (k.inst)
        instance_destroy(k.inst);
    k.inst = NULL;
    wk_imports_destroy(&k, imo);
    for (unsigned i = 0; i < nhg; i++)
        global_instance_destroy(&k.mctx, hg[i]);
    wk_fini(&k);
    wm_fini(&m);
}

static struct val
get(unsigned f)
{
    struct val r;
    memset(&r, 0, sizeof(r));
    sym_check(wk_call(&k, f, NULL, &r) == 0, "the global can be read");
    return r;
}

/* ---- constant expressions ---- */

static void
integers(bool is64)
{
    uint8_t t = is64 ? T_I64 : T_I32;
    const uint8_t cst = is64 ? 0x42 : 0x41;
    const uint8_t ops[3] = {is64 ? 0x7c : 0x6a, is64 ? 0x7d : 0x6b,
                            is64 ? 0x7e : 0x6c};
    hglobal(t, false, NULL);
    hglobal(t, false, NULL);
    uint64_t a = is64 ? sym_u64() : sym_u32();
    uint64_t b = is64 ? sym_u64() : sym_u32();
    uint64_t e;
    unsigned n = sym_choice(4);
    wb_u8(&m.glob, 1);
    wb_u8(&m.glob, t);
    wb_u8(&m.glob, 0);
    wb_u8(&m.glob, cst);
    if (n == 0) {
        uint8_t cb = sym_u8();
        sym_assume(cb < 0x80);
        e = (uint64_t)((int64_t)(int8_t)(cb << 1) >> 1);
        wb_u8(&m.glob, cb);
    } else {
        static const int64_t cs[] = {0, 1, -1, 64, -65, 2147483647,
                                     -2147483647 - 1, INT64_MAX, INT64_MIN};
        e = (uint64_t)cs[sym_choice(is64 ? 9 : 7)];
        wb_sleb(&m.glob, (int64_t)e);
    }
#define OP(o, x, y)                                                           \
    (is64 ? ((o) == 0   ? (x) + (y)                                           \
             : (o) == 1 ? (x) - (y)                                           \
                        : (x) * (y))                                          \
          : ((o) == 0   ? (uint32_t)(x) + (uint32_t)(y)                       \
             : (o) == 1 ? (uint32_t)(x) - (uint32_t)(y)                       \
                        : (uint32_t)(x) * (uint32_t)(y)))
    for (unsigned i = 0; i < n; i++) {
        /* another operand, maybe itself computed, and an operation */
        WB(&m.glob, 0x23, 0);
        uint64_t v = a;
        for (unsigned d = 0; d < 2 && i == 1; d++) {
            unsigned o = sym_choice(3);
            WB(&m.glob, 0x23, 1);
            wb_u8(&m.glob, ops[o]);
            v = OP(o, v, b);
        }
        unsigned o = sym_choice(3);
        wb_u8(&m.glob, ops[o]);
        e = OP(o, e, v);
    }
    wb_u8(&m.glob, 0x0b);
    unsigned f = is64 ? WMF(&m, "", "I", NULL, 0x23, 2)
                      : WMF(&m, "", "i", NULL, 0x23, 2);
    load();
    hset(0, a, 0);
    hset(1, b, 0);
    sym_check(start() == 0, "instantiation succeeds");
    struct val r = get(f);
    if (is64)
        sym_check(r.u.i64 == e, "value of a constant expression");
    else
        sym_check(r.u.i32 == (uint32_t)e, "value of a constant expression");
    end();
    sym_reach("const");
    sym_expect("const");
}

static void
others(void)
{
    static const struct {
        uint8_t t;
        const char *s;
        unsigned sz;
    } ty[] = {{T_I32, "i", 4},  {T_I64, "I", 8},   {T_F32, "f", 4},
              {T_F64, "F", 8},  {T_V128, "v", 16}, {T_EXTERNREF, "e", 8},
              {T_FUNCREF, "r", 8}};
    unsigned i = sym_choice(7);
    unsigned sz = ty[i].sz;
    hglobal(ty[i].t, false, NULL);
    uint8_t b[16] = {0}, g[16] = {0};
    sym_bytes(b, sz);
    sym_bytes(g, sz);
    bool viaget = i < 2 || sym_choice(2);
    /* before and after it other globals */
    WB(&m.glob, 3, T_I64, 1, 0x42, 5, 0x0b);
    wb_u8(&m.glob, ty[i].t);
    wb_u8(&m.glob, 1);
    bool null = false;
    if (viaget) {
        WB(&m.glob, 0x23, 0);
    } else if (ty[i].t == T_EXTERNREF || ty[i].t == T_FUNCREF) {
        wb_u8(&m.glob, 0xd0);
        wb_u8(&m.glob, ty[i].t);
        null = true;
    } else {
        static const uint8_t op[] = {0, 0, 0x43, 0x44, 0xfd};
        wb_u8(&m.glob, op[i]);
        if (op[i] == 0xfd)
            wb_u8(&m.glob, 12);
        wb_raw(&m.glob, b, sz);
    }
    WB(&m.glob, 0x0b, T_I32, 1, 0x41, 9, 0x0b);
    unsigned f = wm_fn(&m, "", ty[i].s, NULL, NULL, 0);
    WB(wm_code(&m, f), 0x23, 2);
    unsigned f1 = WMF(&m, "", "I", NULL, 0x23, 1);
    unsigned f3 = WMF(&m, "", "i", NULL, 0x23, 3);
    load();
    uint64_t v[2];
    memcpy(v, g, 16);
    hset(0, v[0], v[1]);
    sym_check(start() == 0, "instantiation succeeds");
    struct val r = get(f);
    uint8_t zero[16] = {0};
    sym_check(memcmp(&r, null ? zero : viaget ? g : b, sz) == 0,
              "value of a constant");
    sym_check(get(f1).u.i64 == 5 && get(f3).u.i32 == 9,
              "the other globals have their values");
    end();
    sym_reach("const");
    sym_expect("const");
}

/* ---- data segments ---- */

#define MSZ 6
static uint8_t mem[2][MSZ];

static void
importmem(void)
{
    static struct wm em;
    wm_init(&em);
    WB(&em.mem, 1, 8, MSZ, 0);
    wm_export(&em, "mem", 2, 0);
    WMF(&em, "i", "i", NULL, 0x20, 0, 0x2d, 0, 0);
    WMF(&em, "ii", "", NULL, 0x20, 0, 0x20, 1, 0x3a, 0, 0);
    wm_must(&em, &ek);
    wm_fini(&em);
    imo = wk_exports(&k, ek.inst, "m", imo);
    wm_import(&m, "m", "mem", 2);
    WB(&m.imp, 8, 1, 0);
}

static void
checkmem(struct wk *o, unsigned f, const uint8_t *e)
{
    for (uint32_t i = 0; i < MSZ; i++) {
        uint32_t r = 0;
        sym_check(wk_call_i32(o, f, 1, &i, &r) == 0 && r == e[i],
                  "contents of the memory after instantiation");
    }
}

static void
datas(unsigned n)
{
    importmem(); /* memory 0 is imported, memory 1 its own */
    WB(&m.mem, 1, 8, MSZ, 0);
    hglobal(T_I32, false, NULL);
    hglobal(T_I32, false, NULL);
    uint32_t g[2] = {sym_u32(), sym_u32()};
    wb_u8(&m.data, (uint8_t)n);
    bool fails = false;
    unsigned applied = 0, symoff = sym_choice(n);
    for (unsigned i = 0; i < n; i++) {
        unsigned len = sym_choice(4);
        uint8_t b[4];
        sym_bytes(b, 4);
        unsigned kind = sym_choice(4);
        unsigned mi = kind == 1;
        uint32_t off = 0;
        wb_u8(&m.data, kind == 3 ? 1 : kind == 0 ? 0 : 2);
        if (kind == 1 || kind == 2)
            wb_u8(&m.data, (uint8_t)mi);
        if (kind != 3) {
            if (i == symoff) {
                WB(&m.data, 0x23);
                wb_u8(&m.data, (uint8_t)(i & 1));
                off = g[i & 1];
            } else {
                static const int32_t offs[] = {0, 3, 6, 7, -1};
                off = (uint32_t)offs[sym_choice(5)];
                wb_u8(&m.data, 0x41);
                wb_sleb(&m.data, (int32_t)off);
            }
            wb_u8(&m.data, 0x0b);
        }
        wb_uleb(&m.data, len);
        wb_raw(&m.data, b, len);
        if (kind == 3 || fails)
            continue;
        if ((uint64_t)off + len > MSZ) {
            fails = true;
            continue;
        }
        applied++;
        for (unsigned j = 0; j < MSZ; j++)
            if (j >= off && j - off < len)
                mem[mi][j] = b[j - off];
    }
    unsigned f0 = WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0, 0);
    unsigned f1 = WMF(&m, "i", "i", NULL, 0x20, 0, 0x2d, 0x40, 1, 0);
    load();
    hset(0, g[0], 0);
    hset(1, g[1], 0);
    int ret = start();
    if (fails) {
        sym_check(ret == ETOYWASMTRAP &&
                          k.trap == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS,
                  "an active data segment out of bounds traps");
        sym_reach("fails");
    } else {
        sym_check(ret == 0, "instantiation succeeds");
        checkmem(&k, f0, mem[0]);
        checkmem(&k, f1, mem[1]);
        sym_reach("applied");
    }
    checkmem(&ek, 0, mem[0]);
    end();
    wk_fini(&ek);
    sym_expect("fails");
    sym_expect("applied");
}

/* ---- element segments ---- */

#define TSZ 4
/* what the entries of the tables are: 0 null, 1+i function i */
static uint8_t tab[2][TSZ];

static void
elems(unsigned n, bool exprs)
{
    static struct wm em;
    wm_init(&em);
    WB(&em.tab, 1, T_FUNCREF, 0, TSZ);
    wm_export(&em, "t", 1, 0);
    WMF(&em, "", "i", NULL, 0x41, 50);
    wm_export(&em, "f", 0, 0);
    wm_type(&em, "", "i");
    WMF(&em, "i", "i", NULL, 0x20, 0, 0x11, 0, 0);
    unsigned enull = WMF(&em, "i", "i", NULL, 0x20, 0, 0x25, 0, 0xd1);
    wm_must(&em, &ek);
    wm_fini(&em);
    imo = wk_exports(&k, ek.inst, "m", imo);
    wm_import_fn(&m, "m", "f", "", "i"); /* function 0 */
    wm_import(&m, "m", "t", 1);
    WB(&m.imp, T_FUNCREF, 0, 2);
    WB(&m.tab, 1, T_FUNCREF, 0, TSZ);
    hglobal(T_I32, false, NULL);
    hglobal(T_I32, false, NULL);
    uint32_t g[2] = {sym_u32(), sym_u32()};
    WMF(&m, "", "i", NULL, 0x41, 51);
    WMF(&m, "", "i", NULL, 0x41, 52);
    wb_u8(&m.elem, (uint8_t)n);
    bool fails = false;
    unsigned symoff = sym_choice(n);
    for (unsigned i = 0; i < n; i++) {
        unsigned len = sym_choice(3);
        /* 0,4: table 0; 2,6: explicit; 1,5 passive; 3,7 declarative */
        unsigned kind = sym_choice(4) + (exprs ? 4 : 0);
        unsigned ti = (kind & 3) == 2 ? sym_choice(2) : 0;
        bool active = !(kind & 1);
        uint32_t off = 0;
        wb_u8(&m.elem, (uint8_t)kind);
        if ((kind & 3) == 2)
            wb_u8(&m.elem, (uint8_t)ti);
        if (active) {
            if (i == symoff) {
                WB(&m.elem, 0x23);
                wb_u8(&m.elem, (uint8_t)(i & 1));
                if (g[i & 1] <= TSZ)
                    g[i & 1] = (uint32_t)sym_concretize(g[i & 1]);
                off = g[i & 1];
            } else {
                static const int32_t offs[] = {1, 5, 4, 0, -1};
                off = (uint32_t)offs[sym_choice(n > 1 ? 2 : 5)];
                wb_u8(&m.elem, 0x41);
                wb_sleb(&m.elem, (int32_t)off);
            }
            wb_u8(&m.elem, 0x0b);
        }
        if (kind & 3)
            wb_u8(&m.elem, kind & 4 ? T_FUNCREF : 0);
        wb_uleb(&m.elem, len);
        uint8_t what[2];
        for (unsigned j = 0; j < len; j++) {
            what[j] = n > 1 ? (uint8_t)(1 + (i * 2 + j) % 3)
                            : (uint8_t)(1 + sym_choice(2) * (j + 1));
            if (exprs) {
                if (i == n - 1 && sym_choice(2)) {
                    what[j] = 0;
                    WB(&m.elem, 0xd0, T_FUNCREF, 0x0b);
                } else {
                    wb_u8(&m.elem, 0xd2);
                    wb_u8(&m.elem, (uint8_t)(what[j] - 1));
                    wb_u8(&m.elem, 0x0b);
                }
            } else
                wb_u8(&m.elem, (uint8_t)(what[j] - 1));
        }
        if (!active || fails)
            continue;
        if ((uint64_t)off + len > TSZ) {
            fails = true;
            continue;
        }
        for (unsigned j = 0; j < TSZ; j++)
            for (unsigned l = 0; l < len; l++)
                if ((uint64_t)off + l == j)
                    tab[ti][j] = what[l];
    }
    wm_type(&m, "", "i");
    unsigned fcall[2], fnull[2];
    for (unsigned i = 0; i < 2; i++) {
        fcall[i] = wm_fn(&m, "i", "i", NULL, NULL, 0);
        WB(wm_code(&m, fcall[i]), 0x20, 0, 0x11, 0);
        wb_u8(wm_code(&m, fcall[i]), (uint8_t)i);
        fnull[i] = wm_fn(&m, "i", "i", NULL, NULL, 0);
        WB(wm_code(&m, fnull[i]), 0x20, 0, 0x25);
        wb_u8(wm_code(&m, fnull[i]), (uint8_t)i);
        wb_u8(wm_code(&m, fnull[i]), 0xd1);
    }
    load();
    hset(0, g[0], 0);
    hset(1, g[1], 0);
    int ret = start();
    if (fails) {
        sym_check(ret == ETOYWASMTRAP &&
                          k.trap == TRAP_OUT_OF_BOUNDS_TABLE_ACCESS,
                  "an active element segment out of bounds traps");
        sym_reach("fails");
    } else {
        sym_check(ret == 0, "instantiation succeeds");
        sym_reach("applied");
    }
    for (unsigned v = 0; v < 3; v++) {
        struct wk *o = v == 2 ? &ek : &k;
        unsigned ti = v & 1;
        if (fails && v < 2)
            continue;
        for (uint32_t i = 0; i < TSZ; i++) {
            uint32_t r = 0;
            sym_check(wk_call_i32(o, v == 2 ? enull : fnull[v], 1, &i, &r) ==
                                      0 &&
                              r == (tab[ti][i] == 0),
                      "entries of the table after instantiation");
            if (tab[ti][i] == 0)
                continue;
            sym_check(wk_call_i32(o, v == 2 ? 1 : fcall[v], 1, &i, &r) == 0 &&
                              r == 49u + tab[ti][i],
                      "functions in the table after instantiation");
        }
    }
    end();
    wk_fini(&ek);
    sym_expect("fails");
    sym_expect("applied");
}

/* ---- everything in order ---- */

static void
sequence(void)
{
    importmem();
    hglobal(T_I32, true, "cnt");
    hglobal(T_I32, false, "o");
    WB(&m.tab, 1, T_FUNCREF, 0, 3);
    WB(&m.glob, 1, T_I32, 1, 0x23, 1, 0x41, 1, 0x6a, 0x0b);
    uint32_t o = sym_u32();
    uint8_t d = sym_u8();
    unsigned eoff = sym_choice(4);
    unsigned tr = sym_choice(3);
    /* elem (eoff) 1 function; data (o) d */
    WB(&m.elem, 1, 0, 0x41);
    wb_u8(&m.elem, (uint8_t)eoff);
    WB(&m.elem, 0x0b, 1, 0);
    WB(&m.data, 1, 0, 0x23, 1, 0x0b, 1);
    wb_u8(&m.data, d);
    /*
     * the start function counts, copies what it sees in memory to the last
     * byte, changes the global and may trap
     */
    unsigned f = WMF(&m, "", "", NULL, 0x23, 0, 0x41, 1, 0x6a, 0x24, 0, 0x41,
                     MSZ - 1, 0x23, 1, 0x2d, 0, 0, 0x3a, 0, 0, 0x23, 2, 0x41,
                     10, 0x6a, 0x24, 2);
    if (tr == 1)
        WB(wm_code(&m, f), 0x00);
    if (tr == 2)
        WB(wm_code(&m, f), 0x41, 0, 0x25, 0, 0xd1, 0x04, 0x40, 0x00, 0x0b);
    m.start = (int)f;
    unsigned fg = WMF(&m, "", "i", NULL, 0x23, 2);
    load();
    hset(0, 7, 0);
    hset(1, o, 0);
    int ret = start();
    uint8_t e[MSZ] = {0};
    uint32_t cnt = 7;
    int want = -1;
    if (eoff + 1 > 3)
        want = TRAP_OUT_OF_BOUNDS_TABLE_ACCESS;
    else if (o >= MSZ)
        want = TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS;
    else {
        for (unsigned i = 0; i < MSZ; i++)
            if (i == o)
                e[i] = d;
        e[MSZ - 1] = d;
        cnt = 8;
        if (tr == 1 || (tr == 2 && eoff != 0))
            want = TRAP_UNREACHABLE;
    }
    if (want >= 0) {
        sym_check(ret == ETOYWASMTRAP && k.trap == want,
                  "instantiation ends with the first trap");
        sym_reach("fails");
    } else {
        sym_check(ret == 0, "instantiation succeeds");
        sym_check(get(fg).u.i32 == o + 1 + 10,
                  "the start function sees the initialised globals");
        sym_reach("applied");
    }
    struct val c;
    global_get(hg[0], &c);
    sym_check(c.u.i32 == cnt, "the start function runs once, last");
    checkmem(&ek, 0, e);
    end();
    wk_fini(&ek);
    sym_expect("fails");
    sym_expect("applied");
}

/* ---- start functions ---- */

static void
starts(void)
{
    /* the start function is imported, direct, or calls another */
    static struct wm em;
    wm_init(&em);
    WB(&em.glob, 1, T_I32, 1, 0x41, 0, 0x0b);
    wm_export(&em, "f", 0,
              WMF(&em, "", "", NULL, 0x23, 0, 0x41, 1, 0x6a, 0x24, 0));
    WMF(&em, "", "i", NULL, 0x23, 0);
    wm_must(&em, &ek);
    wm_fini(&em);
    imo = wk_exports(&k, ek.inst, "m", imo);
    unsigned imp = wm_import_fn(&m, "m", "f", "", "");
    unsigned loop = WMF(&m, "", "", "i", 0x03, 0x40, 0x10, 0, 0x20, 0, 0x41, 1,
                        0x6a, 0x22, 0, 0x41, 25, 0x48, 0x0d, 0, 0x0b);
    unsigned kind = sym_choice(3);
    m.start = kind == 0 ? -1 : kind == 1 ? (int)imp : (int)loop;
    load();
    bool simple = sym_choice(2);
    int ret;
    if (simple) {
        ret = wk_inst(&k, imo);
    } else
        ret = start();
    sym_check(ret == 0, "instantiation succeeds");
    uint32_t r = 99;
    sym_check(wk_call_i32(&ek, 1, 0, NULL, &r) == 0 &&
                      r == (kind == 0 ? 0 : kind == 1 ? 1 : 25),
              "the start function runs exactly once");
    end();
    wk_fini(&ek);
    sym_reach("applied");
    sym_expect("applied");
}

/* ---- segments after instantiation ---- */

static void
after(void)
{
    WB(&m.mem, 1, 8, 8, 0);
    WB(&m.tab, 1, T_FUNCREF, 0, 8);
    unsigned f = WMF(&m, "", "", NULL, 0x01);
    (void)f;
    unsigned dk = sym_choice(3), ek_ = sym_choice(8);
    WB(&m.data, 2);
    wb_u8(&m.data, (uint8_t)dk);
    if (dk == 2)
        WB(&m.data, 0);
    if (dk != 1)
        WB(&m.data, 0x41, 0, 0x0b);
    WB(&m.data, 2, 'a', 'b', 1, 1, 'c');
    m.datacount = 2;
    WB(&m.elem, 2);
    wb_u8(&m.elem, (uint8_t)ek_);
    if ((ek_ & 3) == 2)
        WB(&m.elem, 0);
    if (!(ek_ & 1))
        WB(&m.elem, 0x41, 0, 0x0b);
    if (ek_ & 3)
        wb_u8(&m.elem, ek_ & 4 ? T_FUNCREF : 0);
    if (ek_ & 4)
        WB(&m.elem, 2, 0xd2, 0, 0x0b, 0xd2, 0, 0x0b);
    else
        WB(&m.elem, 2, 0, 0);
    WB(&m.elem, 1, 0, 1, 0);
    unsigned di = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc, 8,
                      0, 0);
    unsigned ei = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc,
                      12, 0, 0);
    unsigned di1 = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc,
                       8, 1, 0);
    unsigned ei1 = WMF(&m, "iii", "", NULL, 0x20, 0, 0x20, 1, 0x20, 2, 0xfc,
                       12, 1, 0);
    load();
    sym_check(start() == 0, "instantiation succeeds");
    uint32_t a[3] = {sym_u32(), sym_u32(), sym_u32()};
    bool elem = sym_choice(2);
    bool other = sym_choice(2);
    uint32_t len = other ? 1 : (elem ? (ek_ & 3) == 1 : dk == 1) ? 2 : 0;
    bool ok = (uint64_t)a[1] + a[2] <= len && (uint64_t)a[0] + a[2] <= 8;
    int ret = wk_call_i32(&k, elem ? (other ? ei1 : ei) : (other ? di1 : di),
                          3, a, NULL);
    if (ok)
        sym_check(ret == 0, "a passive segment remains usable");
    else
        sym_check(ret == ETOYWASMTRAP,
                  "an active or declarative segment has been dropped");
    end();
    sym_reach("applied");
    sym_expect("applied");
}

/* ---- globals which refer to functions ---- */

static void
funcs(void)
{
    static struct wm em;
    wm_init(&em);
    wm_export(&em, "f", 0, WMF(&em, "", "i", NULL, 0x41, 50));
    wm_must(&em, &ek);
    wm_fini(&em);
    imo = wk_exports(&k, ek.inst, "m", imo);
    wm_import_fn(&m, "m", "f", "", "i");
    WMF(&m, "", "i", NULL, 0x41, 51);
    WMF(&m, "", "i", NULL, 0x41, 52);
    WB(&m.tab, 1, T_FUNCREF, 0, 1);
    uint8_t w = (uint8_t)sym_choice(3);
    WB(&m.glob, 2, T_FUNCREF, 0, 0xd2);
    wb_u8(&m.glob, w);
    WB(&m.glob, 0x0b, T_FUNCREF, 0, 0xd0, T_FUNCREF, 0x0b);
    wm_type(&m, "", "i");
    unsigned f = WMF(&m, "", "i", NULL, 0x41, 0, 0x23, 0, 0x26, 0, 0x41, 0,
                     0x11, 0, 0);
    unsigned g = WMF(&m, "", "i", NULL, 0x23, 1, 0xd1);
    load();
    sym_check(start() == 0, "instantiation succeeds");
    uint32_t r = 0;
    sym_check(wk_call_i32(&k, f, 0, NULL, &r) == 0 && r == 50u + w,
              "ref.func refers to the function");
    sym_check(wk_call_i32(&k, g, 0, NULL, &r) == 0 && r == 1,
              "ref.null is null");
    end();
    wk_fini(&ek);
    sym_reach("applied");
    sym_expect("applied");
}

void
harness_main(void)
{
    wm_init(&m);
    wk_init(&k);
    switch (sym_param(0, 0)) {
    case 0: integers(sym_param(1, 0) != 0); break;
    case 1: others(); break;
    case 2: datas((unsigned)sym_param(1, 1)); break;
    case 3: elems((unsigned)sym_param(1, 1), sym_param(2, 0) != 0); break;
    case 4: sequence(); break;
    case 5: starts(); break;
    case 6: after(); break;
    case 7: funcs(); break;
    }
    sym_check(rt_live == 0, "nothing remains allocated");
}
