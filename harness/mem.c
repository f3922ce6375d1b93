/*
 * Loads and stores with arbitrary address, static offset and value.
 *
 * params: 0 class (0 loads, 1 stores, 2 SIMD loads, 3 SIMD stores and lane
 *           accesses, 4 atomic loads and stores)
 *         1 memory layout: 0 byte sized pages, 1 one 64KB page lazily
 *           allocated, 2 one 64KB page touched at the end first,
 *           3 byte sized pages, growing before the access
 *         2 memory index used (with 2 memories), 0 or 1
 */
#include "wk.h"

struct op {
    uint8_t prefix, code;
    uint8_t size;   /* bytes accessed */
    char type;      /* i I f F v */
    uint8_t kind;   /* see below */
};
enum {
    LD,      /* zero extended */
    LDS,     /* sign extended */
    ST,
    VLD,     /* whole v128 */
    VEXS,    /* v128.loadNxM_s: size 8, arg lane bytes in 'type' */
    VEXU,
    VSPLAT,
    VZERO,
    VLANE,
    VST,
    VSTLANE,
};
static const struct op ops_load[] = {
    {0, 0x28, 4, 'i', LD},  {0, 0x29, 8, 'I', LD},  {0, 0x2a, 4, 'f', LD},
    {0, 0x2b, 8, 'F', LD},  {0, 0x2c, 1, 'i', LDS}, {0, 0x2d, 1, 'i', LD},
    {0, 0x2e, 2, 'i', LDS}, {0, 0x2f, 2, 'i', LD},  {0, 0x30, 1, 'I', LDS},
    {0, 0x31, 1, 'I', LD},  {0, 0x32, 2, 'I', LDS}, {0, 0x33, 2, 'I', LD},
    {0, 0x34, 4, 'I', LDS}, {0, 0x35, 4, 'I', LD},
};
static const struct op ops_store[] = {
    {0, 0x36, 4, 'i', ST}, {0, 0x37, 8, 'I', ST}, {0, 0x38, 4, 'f', ST},
    {0, 0x39, 8, 'F', ST}, {0, 0x3a, 1, 'i', ST}, {0, 0x3b, 2, 'i', ST},
    {0, 0x3c, 1, 'I', ST}, {0, 0x3d, 2, 'I', ST}, {0, 0x3e, 4, 'I', ST},
};
static const struct op ops_vload[] = {
    {0xfd, 0, 16, 'v', VLD},  {0xfd, 1, 8, 1, VEXS},   {0xfd, 2, 8, 1, VEXU},
    {0xfd, 3, 8, 2, VEXS},    {0xfd, 4, 8, 2, VEXU},   {0xfd, 5, 8, 4, VEXS},
    {0xfd, 6, 8, 4, VEXU},    {0xfd, 7, 1, 'v', VSPLAT},
    {0xfd, 8, 2, 'v', VSPLAT}, {0xfd, 9, 4, 'v', VSPLAT},
    {0xfd, 10, 8, 'v', VSPLAT}, {0xfd, 92, 4, 'v', VZERO},
    {0xfd, 93, 8, 'v', VZERO},
};
static const struct op ops_vlane[] = {
    {0xfd, 11, 16, 'v', VST},    {0xfd, 84, 1, 'v', VLANE},
    {0xfd, 85, 2, 'v', VLANE},   {0xfd, 86, 4, 'v', VLANE},
    {0xfd, 87, 8, 'v', VLANE},   {0xfd, 88, 1, 'v', VSTLANE},
    {0xfd, 89, 2, 'v', VSTLANE}, {0xfd, 90, 4, 'v', VSTLANE},
    {0xfd, 91, 8, 'v', VSTLANE},
};
static const struct op ops_atomic[] = {
    {0xfe, 0x10, 4, 'i', LD}, {0xfe, 0x11, 8, 'I', LD},
    {0xfe, 0x12, 1, 'i', LD}, {0xfe, 0x13, 2, 'i', LD},
    {0xfe, 0x14, 1, 'I', LD}, {0xfe, 0x15, 2, 'I', LD},
    {0xfe, 0x16, 4, 'I', LD}, {0xfe, 0x17, 4, 'i', ST},
    {0xfe, 0x18, 8, 'I', ST}, {0xfe, 0x19, 1, 'i', ST},
    {0xfe, 0x1a, 2, 'i', ST}, {0xfe, 0x1b, 1, 'I', ST},
    {0xfe, 0x1c, 2, 'I', ST}, {0xfe, 0x1d, 4, 'I', ST},
};
#define N(a) (unsigned)(sizeof(a) / sizeof((a)[0]))

static void
uleb5(struct wb *w, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        wb_u8(w, (uint8_t)(0x80 | (v >> (7 * i))));
    wb_u8(w, (uint8_t)(v >> 28));
}

#define SMALL 20

void
harness_main(void)
{
    unsigned class = (unsigned)sym_param(0, 0);
    unsigned layout = (unsigned)sym_param(1, 0);
    unsigned memidx = (unsigned)sym_param(2, 0);
    const struct op *t[] = {ops_load, ops_store, ops_vload, ops_vlane,
                            ops_atomic};
    unsigned nt[] = {N(ops_load), N(ops_store), N(ops_vload), N(ops_vlane),
                     N(ops_atomic)};
    struct op o = t[class][sym_choice(nt[class])];
    bool lane = o.kind == VLANE || o.kind == VSTLANE;
    bool store = o.kind == ST || o.kind == VST || o.kind == VSTLANE;
    bool vec = o.prefix == 0xfd;
    unsigned laneidx = 0;
    if (lane) {
        unsigned nl = 16 / o.size;
        /* first, last and a middle lane */
        unsigned c = sym_choice(3);
        laneidx = c == 0 ? 0 : c == 1 ? nl - 1 : nl / 2;
    }
    uint32_t off = sym_u32();
    uint32_t addr = sym_u32();
    bool bytepages = layout == 0 || layout == 3;
    uint64_t memsize = bytepages ? SMALL : 65536;
    uint64_t ea = (uint64_t)addr + off;
    if (layout == 1 || (layout == 2 && (store || vec)))
        /* windows around the interesting places */
        sym_assume(ea < 3 || (ea >= 65536 - 18 && ea <= 65536 + 2) ||
                   ea >= 0xfffffff0);
    unsigned log2 = o.size == 16 ? 4 : o.size == 8 ? 3 : o.size == 4 ? 2
                    : o.size == 2 ? 1 : 0;
    uint8_t init[SMALL];
    memset(init, 0, sizeof(init));
    struct wb w;
    struct wk k;
    wb_init(&w, 512);
    wb_header(&w);
    wb_sec(&w, 1);
    wb_uleb(&w, 2);
    char vt = vec ? 'v' : o.type;
    char p[4] = {'i', vt, 0, 0}, r[2] = {vt, 0};
    if (!store && !lane)
        p[1] = 0;
    if (store)
        r[0] = 0;
    wb_functype(&w, p, r);
    wb_functype(&w, "", "");
    wb_close(&w);
    wb_sec(&w, 3);
    WB(&w, 2, 0, 1);
    wb_close(&w);
    wb_sec(&w, 5);
    wb_uleb(&w, 2);
    for (unsigned i = 0; i < 2; i++) {
        /* the other memory is smaller */
        if (bytepages) {
            wb_u8(&w, 0x08);
            wb_uleb(&w, i == memidx ? (layout == 3 ? SMALL - 5 : SMALL) : 3);
            wb_u8(&w, 0);
        } else {
            wb_u8(&w, 0);
            wb_uleb(&w, i == memidx ? 1 : 0);
        }
    }
    wb_close(&w);
    wb_sec(&w, 10);
    wb_uleb(&w, 2);
    wb_open(&w);
    wb_u8(&w, 0);
    WB(&w, 0x20, 0);
    if (p[1])
        WB(&w, 0x20, 1);
    if (o.prefix)
        wb_u8(&w, o.prefix);
    wb_uleb(&w, o.prefix ? o.code : 0);
    if (!o.prefix)
        w.b[w.n - 1] = o.code;
    wb_u8(&w, (uint8_t)(log2 | (memidx ? 0x40 : 0)));
    if (memidx)
        wb_uleb(&w, memidx);
    uleb5(&w, off);
    if (lane)
        wb_u8(&w, (uint8_t)laneidx);
    wb_u8(&w, 0x0b);
    wb_close(&w);
    /* preparation */
    wb_open(&w);
    wb_u8(&w, 0);
    if (layout == 2) {
        wb_u8(&w, 0x41);
        wb_sleb(&w, 65535);
        wb_u8(&w, 0x2d);
        wb_u8(&w, (uint8_t)(memidx ? 0x40 : 0));
        if (memidx)
            wb_uleb(&w, memidx);
        wb_u8(&w, 0);
        wb_u8(&w, 0x1a);
    }
    if (layout == 3) {
        WB(&w, 0x41, 5, 0x40);
        wb_uleb(&w, memidx);
        wb_u8(&w, 0x1a);
    }
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_close(&w);
    if (bytepages) {
        /* active data segment with arbitrary contents */
        unsigned len = layout == 3 ? 7 : SMALL - 3;
        wb_sec(&w, 11);
        wb_uleb(&w, 1);
        wb_uleb(&w, 2);
        wb_uleb(&w, memidx);
        WB(&w, 0x41, 1, 0x0b);
        wb_uleb(&w, len);
        sym_bytes(init + 1, len);
        wb_raw(&w, init + 1, len);
        wb_close(&w);
    }
    wk_must(&k, &w);
    struct val a[2], res;
    int ret = wk_call(&k, 1, NULL, NULL);
    sym_check(ret == 0, "preparation");
    memset(a, 0, sizeof(a));
    a[0].u.i32 = addr;
    uint8_t vb[16];
    memset(vb, 0, sizeof(vb));
    if (p[1]) {
        unsigned nb = vec ? 16 : (vt == 'i' || vt == 'f') ? 4 : 8;
        sym_bytes(vb, nb);
        memcpy(&a[1].u, vb, nb);
    }
    memset(&res, 0, sizeof(res));
    ret = wk_call(&k, 0, a, &res);
    sym_observe((uint64_t)ret);
    bool inb = ea + o.size <= memsize;
    bool aligned = o.prefix != 0xfe || (ea & (o.size - 1)) == 0;
    sym_expect("done");
    sym_expect("trap");
    uint8_t want[SMALL];
    memcpy(want, init, sizeof(want));
    if (!inb || !aligned) {
        sym_reach("trap");
        sym_check(ret == ETOYWASMTRAP, "out of bounds access traps");
        sym_check((!inb && k.trap == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS) ||
                          (!aligned &&
                           (k.trap == TRAP_UNALIGNED_ATOMIC_OPERATION ||
                            k.trap == TRAP_UNALIGNED_MEMORY_ACCESS)),
                  "memory access raises the right trap");
    } else {
        sym_reach("done");
        sym_check(ret == 0, "access inside the memory succeeds");
    }
    /* current contents, as an embedder sees it */
    void *vp = NULL;
    uint32_t peek = (uint32_t)memsize;
    int r2 = memory_instance_getptr2(VEC_ELEM(k.inst->mems, memidx), 0, 0,
                                     peek, &vp, NULL);
    sym_check(r2 == 0, "memory size");
    r2 = memory_instance_getptr2(VEC_ELEM(k.inst->mems, memidx), 0, 0,
                                 peek + 1, &vp, NULL);
    sym_check(r2 != 0, "memory size is unchanged");
    memory_instance_getptr2(VEC_ELEM(k.inst->mems, memidx), 0, 0, peek, &vp,
                            NULL);
    const uint8_t *m = vp;
    if (ret == 0) {
        uint8_t src[16], exp[16];
        memset(exp, 0, sizeof(exp));
        memset(src, 0, sizeof(src));
        unsigned e = (unsigned)ea;
        if (!store) {
            for (unsigned i = 0; i < o.size; i++)
                src[i] = bytepages ? init[e + i] : 0;
        }
        switch (o.kind) {
        case LD:
        case VLD:
        case VZERO:
            memcpy(exp, src, o.size);
            break;
        case LDS:
            memcpy(exp, src, o.size);
            for (unsigned i = o.size; i < 8; i++)
                exp[i] = (src[o.size - 1] & 0x80) ? 0xff : 0;
            break;
        case VEXS:
        case VEXU: {
            unsigned lb = (unsigned)o.type;
            for (unsigned i = 0; i < 8 / lb; i++)
                for (unsigned j = 0; j < 2 * lb; j++)
                    exp[i * 2 * lb + j] =
                            j < lb ? src[i * lb + j]
                            : o.kind == VEXS && (src[i * lb + lb - 1] & 0x80)
                                    ? 0xff
                                    : 0;
            break;
        }
        case VSPLAT:
            for (unsigned i = 0; i < 16; i++)
                exp[i] = src[i % o.size];
            break;
        case VLANE:
            memcpy(exp, vb, 16);
            memcpy(exp + laneidx * o.size, src, o.size);
            break;
        }
        if (!store) {
            unsigned nb = vec ? 16 : (vt == 'i' || vt == 'f') ? 4 : 8;
            const uint8_t *g = (const uint8_t *)&res.u;
            int eq = 1;
            for (unsigned i = 0; i < nb; i++)
                eq &= g[i] == exp[i];
            sym_check(eq, "loaded value");
            sym_observe(g[0]);
            sym_observe(g[nb - 1]);
        } else {
            const uint8_t *v = vb + (o.kind == VSTLANE ? laneidx * o.size : 0);
            if (bytepages)
                for (unsigned i = 0; i < o.size; i++)
                    want[e + i] = v[i];
            else {
                int eq = 1;
                for (unsigned i = 0; i < o.size; i++)
                    eq &= m[e + i] == v[i];
                sym_check(eq, "stored bytes");
                sym_check((e == 0 || m[e - 1] == 0) &&
                                  (e + o.size == 65536 ||
                                   m[e + o.size] == 0),
                          "neighbours of the stored bytes");
            }
        }
    }
    if (bytepages) {
        int eq = 1;
        for (unsigned i = 0; i < SMALL; i++) {
            eq &= m[i] == want[i];
        }
        sym_check(eq, "memory contents after the access");
    }
    wk_fini(&k);
}
