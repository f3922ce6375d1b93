/*
 * Modules with more than 128 of everything: each index, whatever the number of
 * bytes it takes, means its own function, global, local, table, memory, label,
 * type, segment, tag.
 *
 * param 0: what, 1: load options
 */
#include "wk.h"

#define N 140

static const unsigned idx[] = {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 139};
static struct wb w;
static struct wk k;

static unsigned
any(void)
{
    return idx[sym_choice(11)];
}

static uint32_t
val(unsigned i)
{
    return 3 * i + 1;
}

static void
opx(uint8_t op, unsigned i)
{
    wb_u8(&w, op);
    wb_uleb(&w, i);
}

static void
konst(int32_t v)
{
    wb_u8(&w, 0x41);
    wb_sleb(&w, v);
}

static void
fc(unsigned op, unsigned i, unsigned j)
{
    wb_u8(&w, 0xfc);
    wb_uleb(&w, op);
    wb_uleb(&w, i);
    wb_uleb(&w, j);
}

static void
memarg(uint8_t op, unsigned mem)
{
    wb_u8(&w, op);
    if (mem == 0)
        wb_u8(&w, 2);
    else {
        wb_u8(&w, 0x42);
        wb_uleb(&w, mem);
    }
    wb_u8(&w, 0);
}

static unsigned
tyn(unsigned i)
{
    return i / 3 % 3;
}

/* declare function i in one of several ways */
static unsigned decl_way = 1;
static unsigned decl_idx;

static void
prologue(unsigned what)
{
    wb_init(&w, 16384);
    wb_header(&w);
    wb_sec(&w, 1);
    wb_uleb(&w, N + 3);
    for (unsigned i = 0; i < N; i++) {
        wb_u8(&w, 0x60);
        wb_uleb(&w, i % 3);
        for (unsigned j = 0; j < i % 3; j++)
            wb_u8(&w, T_I32);
        wb_uleb(&w, tyn(i));
        for (unsigned j = 0; j < tyn(i); j++)
            wb_u8(&w, T_I32);
    }
    WB(&w, 0x60, 0, 1, T_I32, 0x60, 1, T_I32, 1, T_I32, 0x60, 1, T_I32, 0);
    wb_close(&w);
    wb_sec(&w, 3);
    wb_uleb(&w, N + 1);
    for (unsigned i = 0; i < N; i++)
        wb_uleb(&w, N);
    wb_uleb(&w, N + 1);
    wb_close(&w);
    wb_sec(&w, 4);
    wb_uleb(&w, N);
    for (unsigned i = 0; i < N; i++)
        WB(&w, T_FUNCREF, 0, 2);
    wb_close(&w);
    wb_sec(&w, 5);
    wb_uleb(&w, what == 4 ? N : 1);
    for (unsigned i = 0; i < (what == 4 ? N : 1); i++)
        WB(&w, 0, 1);
    wb_close(&w);
    wb_sec(&w, 13);
    wb_uleb(&w, N);
    for (unsigned i = 0; i < N; i++) {
        wb_u8(&w, 0);
        wb_uleb(&w, N + 2);
    }
    wb_close(&w);
    wb_sec(&w, 6);
    wb_uleb(&w, N + 1);
    for (unsigned i = 0; i < N; i++) {
        wb_u8(&w, T_I32);
        wb_u8(&w, 1);
        konst((int32_t)val(i));
        wb_u8(&w, 0x0b);
    }
    WB(&w, T_FUNCREF, 0);
    if (decl_way == 2)
        opx(0xd2, decl_idx);
    else
        WB(&w, 0xd0, T_FUNCREF);
    wb_u8(&w, 0x0b);
    wb_close(&w);
    if (decl_way == 0) {
        wb_sec(&w, 7);
        WB(&w, 1, 1, 'f', 0);
        wb_uleb(&w, decl_idx);
        wb_close(&w);
    }
    wb_sec(&w, 9);
    wb_uleb(&w, N + 1);
    for (unsigned i = 0; i < N; i++) {
        if (decl_way == 1) {
            WB(&w, 1, 0, 1);
            wb_uleb(&w, i);
        } else
            WB(&w, 5, T_FUNCREF, 1, 0xd0, T_FUNCREF, 0x0b);
    }
    if (decl_way == 3) {
        WB(&w, 3, 0, 1);
        wb_uleb(&w, decl_idx);
    } else if (decl_way == 4) {
        WB(&w, 7, T_FUNCREF, 1);
        opx(0xd2, decl_idx);
        wb_u8(&w, 0x0b);
    } else
        WB(&w, 3, 0, 0);
    wb_close(&w);
    wb_sec(&w, 12);
    wb_uleb(&w, N);
    wb_close(&w);
    wb_sec(&w, 10);
    wb_uleb(&w, N + 1);
    for (unsigned i = 0; i < N; i++) {
        wb_open(&w);
        wb_u8(&w, 0);
        konst((int32_t)val(i));
        wb_u8(&w, 0x0b);
        wb_close(&w);
    }
    wb_open(&w);
    /* one group of locals for each two */
    wb_uleb(&w, N / 2);
    for (unsigned i = 0; i < N / 2; i++)
        WB(&w, 2, T_I32);
}

static void
epilogue(void)
{
    wb_u8(&w, 0x0b);
    wb_close(&w);
    wb_close(&w);
    wb_sec(&w, 11);
    wb_uleb(&w, N);
    for (unsigned i = 0; i < N; i++) {
        WB(&w, 1, 1);
        wb_u8(&w, (uint8_t)(i + 1));
    }
    wb_close(&w);
}

static void
declared(void)
{
    decl_way = sym_choice(5);
    decl_idx = any();
    unsigned i = any();
    prologue(0);
    opx(0xd2, i);
    WB(&w, 0x1a, 0x41, 0);
    epilogue();
    wk_init(&k);
    int ret = wk_load(&k, w.b, w.n);
    sym_observe((uint64_t)(ret == 0));
    sym_check((ret == 0) == (decl_way == 1 || i == decl_idx),
              "ref.func is valid for the declared functions only");
    if (ret == 0)
        sym_reach("valid");
    else
        sym_reach("invalid");
    sym_expect("valid");
    sym_expect("invalid");
    wk_fini(&k);
    wb_fini(&w);
    sym_check(rt_live == 0, "nothing remains allocated");
}

void
harness_main(void)
{
    unsigned what = (unsigned)sym_param(0, 0);
    wk_opts = (unsigned)sym_param(1, 0);
    if (what == 10) {
        declared();
        return;
    }
    uint32_t x = 0, want = 0;
    sym_bytes(&x, 4);
    unsigned i = what == 6 ? 0 : any(), j = 0;
    bool trap = false;
    prologue(what);
    switch (what) {
    case 0:
        opx(0x10, i);
        want = val(i);
        break;
    case 1:
        j = any();
        opx(0x20, 0);
        opx(0x24, j);
        opx(0x23, i);
        want = i == j ? x : val(i);
        break;
    case 2:
        j = any();
        opx(0x20, 0);
        opx(sym_choice(2) ? 0x21 : 0x22, j);
        if (w.b[w.n - (j < 128 ? 2 : 3)] == 0x22)
            wb_u8(&w, 0x1a);
        opx(0x20, i);
        want = i == j || i == 0 ? x : 0;
        break;
    case 3:
        /* tables, call_indirect with a type beyond 128 */
        j = any();
        konst(1);
        opx(0xd2, j);
        opx(0x26, j);
        konst(1);
        wb_u8(&w, 0x11);
        wb_uleb(&w, N);
        wb_uleb(&w, i);
        trap = i != j;
        want = val(j);
        break;
    case 4:
        j = any();
        konst(8);
        opx(0x20, 0);
        memarg(0x36, j);
        konst(8);
        memarg(0x28, i);
        want = i == j ? x : 0;
        break;
    case 5: {
        /* labels: each end which is passed counts */
        bool cond = sym_choice(2);
        for (unsigned b = 0; b < N; b++)
            WB(&w, 0x02, 0x40);
        if (cond)
            opx(0x20, 0);
        opx(cond ? 0x0d : 0x0c, i);
        for (unsigned b = 0; b < N; b++)
            WB(&w, 0x0b, 0x20, 5, 0x41, 1, 0x6a, 0x21, 5);
        WB(&w, 0x20, 5);
        want = cond && x == 0 ? N : N - i;
        break;
    }
    case 6: {
        /* a branch table with many entries */
        for (unsigned b = 0; b < 5; b++)
            WB(&w, 0x02, 0x40);
        opx(0x20, 0);
        opx(0x0e, N);
        for (unsigned b = 0; b <= N; b++)
            wb_u8(&w, (uint8_t)((b * 7 + 3) % 5));
        for (unsigned b = 0; b < 5; b++)
            WB(&w, 0x0b, 0x20, 5, 0x41, 1, 0x6a, 0x21, 5);
        WB(&w, 0x20, 5);
        uint32_t e = x < N ? x : N;
        want = 5 - (e * 7 + 3) % 5;
        break;
    }
    case 7:
        /* blocks with a type index */
        for (unsigned b = 0; b < i % 3; b++)
            konst(1);
        wb_u8(&w, sym_choice(2) ? 0x03 : 0x02);
        wb_sleb(&w, i);
        for (unsigned b = 0; b < i % 3; b++)
            wb_u8(&w, 0x1a);
        for (unsigned b = 0; b < tyn(i); b++)
            opx(0x20, 0);
        wb_u8(&w, 0x0b);
        for (unsigned b = 0; b < tyn(i); b++)
            WB(&w, 0x20, 6, 0x6a, 0x21, 6);
        WB(&w, 0x20, 6);
        want = x * tyn(i);
        break;
    case 8: {
        /* data segments */
        j = any();
        wb_u8(&w, 0xfc);
        wb_uleb(&w, 9);
        wb_uleb(&w, j);
        konst(8);
        konst(0);
        konst(1);
        fc(8, i, 0);
        konst(8);
        memarg(0x28, 0);
        trap = i == j;
        want = i + 1;
        break;
    }
    case 9: {
        /* element segments */
        j = any();
        wb_u8(&w, 0xfc);
        wb_uleb(&w, 13);
        wb_uleb(&w, j);
        konst(1);
        konst(0);
        konst(1);
        fc(12, i, j);
        konst(1);
        wb_u8(&w, 0x11);
        wb_uleb(&w, N);
        wb_uleb(&w, j);
        trap = i == j;
        want = val(i);
        break;
    }
    case 11:
        /* tags */
        j = any();
        WB(&w, 0x02, 0x40, 0x02, T_I32, 0x1f, 0x40, 2, 0);
        wb_uleb(&w, i);
        WB(&w, 0, 2, 1);
        opx(0x20, 0);
        opx(0x08, j);
        WB(&w, 0x0b, 0x00, 0x0b, 0x41, 1, 0x6a, 0x0f, 0x0b, 0x41, 7);
        want = i == j ? x + 1 : 7;
        break;
    }
    epilogue();
    wk_init(&k);
    sym_check(wk_load(&k, w.b, w.n) == 0, "the module is accepted");
    sym_check(wk_inst(&k, NULL) == 0, "the module is instantiated");
    uint32_t res = 0;
    int ret = wk_call_i32(&k, N, 1, &x, &res);
    sym_observe((uint64_t)ret);
    if (trap) {
        sym_check(ret != 0, "traps");
        sym_reach("trap");
    } else {
        sym_check(ret == 0, "no error");
        sym_check(res == want, "the right one");
        sym_reach("ok");
    }
    sym_expect("ok");
    wk_fini(&k);
    wb_fini(&w);
    sym_check(rt_live == 0, "nothing remains allocated");
}
