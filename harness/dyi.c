/*
 * C27: which objects are loaded, in which order they are initialised.
 *
 * params: 0 number of libraries, 1 which dependencies are possible (0 none
 *         in cycles, 1 any), 2 kinds of init functions (0 fixed, 1 any),
 *         3 the object whose init function traps, or -1
 *
 * Objects append to a log in main's memory.
 */
#include "dylkit.h"

static const char *paths[] = {"/m", "./a", "./b", "./c"};
static const char *names[] = {0, "a", "b", "c"};
static struct dy d[4];
static int kinds[4];
static int edge[4][4], reach[4][4];

/* append v to the log; global 2: address of the log */
static unsigned
logger(struct wm *m, uint8_t v)
{
    uint8_t c[] = {0x23, 2, 0x23, 2, 0x2d, 0, 0, 0x6a, 0x41, v, 0, 0x3a, 0, 1,
                   0x23, 2, 0x23, 2, 0x2d, 0, 0, 0x41, 1, 0x6a, 0x3a, 0, 0};
    c[9] = v | 0x80;
    return wm_fn(m, "", "", NULL, c, sizeof(c));
}
void
harness_main(void)
{
    unsigned n = (unsigned)sym_param(0, 2);
    int any = (int)sym_param(1, 0), kindany = (int)sym_param(2, 0);
    int bad = (int)sym_param(3, -1);
    struct wm m;
    dy_init();
    for (unsigned i = 0; i <= n; i++)
        kinds[i] = kindany ? (int)sym_choice(4) : 1 + (int)(i & 1);
    for (unsigned i = 0; i <= n; i++)
        for (unsigned j = 1; j <= n; j++) {
            if (any ? (i == 0 && n > 2) : i >= j)
                edge[i][j] = i == 0 && j == 1;
            else
                edge[i][j] = sym_bool();
            reach[i][j] = edge[i][j];
        }
    for (unsigned k = 1; k <= n; k++)
        for (unsigned i = 0; i <= n; i++)
            for (unsigned j = 1; j <= n; j++)
                reach[i][j] |= reach[i][k] && reach[k][j];
    for (unsigned j = 0; j <= n; j++) {
        unsigned i = n - j;
        dy_base(&m);
        if (i)
            dy_got(&m, "GOT.mem", "log");
        else {
            WB(&m.glob, 1, 0x7f, 0, 0x23, 0, 0x0b);
            wm_export(&m, "log", 3, 2);
        }
        wm_export(&m, "__wasm_apply_data_relocs", 0,
                  logger(&m, (uint8_t)(0x10 + i)));
        if (kinds[i] & 1)
            wm_export(&m, "_initialize", 0,
                      i == bad ? WMF(&m, "", "", NULL, 0x00)
                               : logger(&m, (uint8_t)(0x20 + i)));
        if (kinds[i] & 2)
            wm_export(&m, "__wasm_call_ctors", 0,
                      i == bad ? WMF(&m, "", "", NULL, 0x00)
                               : logger(&m, (uint8_t)(0x20 + i)));
        d[i].memsize = 32;
        for (unsigned k = 1; k <= n; k++)
            if (edge[i][k])
                d[i].needs[d[i].nneeds++] = names[k];
        dy_obj(paths[i], &m, &d[i]);
    }
    int ret = dyld_load(&dl, paths[0]);
    sym_check(ret == 0, "objects are not loaded");
    ret = dyld_execute_init_funcs(&dl);
    struct meminst *mi = dyld_memory(&dl);
    int stop = bad >= 0 && (bad == 0 || reach[0][bad]) && kinds[bad];
    sym_check((ret != 0) == stop,
              stop ? "a trap is not reported" : "initialisation fails");
#define RD(i) ((i) < mi->allocated ? mi->data[i] : 0)
    unsigned cnt = RD(0), k = 0;
    int at[4][2];
    sym_check(cnt < 16, "too many calls");
    for (unsigned i = 0; i < 4; i++)
        at[i][0] = at[i][1] = -1;
    for (; k < cnt; k++) {
        unsigned v = RD(k + 1);
        unsigned o = v & 15, c = (v >> 4) - 1;
        sym_check(o <= n && c < 2, "log");
        sym_check(at[o][c] < 0, "an init function runs twice");
        at[o][c] = (int)k;
    }
    for (unsigned i = 0; i <= n; i++) {
        int ld = i == 0 || reach[0][i];
        sym_check((at[i][0] >= 0) == ld, "which objects are relocated");
        if (!stop)
            sym_check((at[i][1] >= 0) == (ld && kinds[i]),
                      "which objects are initialised");
        if (stop)
            sym_check(!(i == 0 || edge[i][bad]) || at[i][1] < 0 ||
                          (i && reach[bad][i]),
                      "an object is initialised before what it needs");
        for (unsigned j = 0; j <= n; j++) {
            if (at[i][0] >= 0 && at[j][1] >= 0)
                sym_check(at[i][0] < at[j][1],
                          "a constructor runs before relocations");
            if (j && edge[i][j] && !(i && reach[j][i]) && at[i][1] >= 0 &&
                kinds[j])
                sym_check(at[j][1] >= 0 && at[j][1] < at[i][1],
                          "an object is initialised before what it needs");
        }
    }
    sym_reach("done");
    dy_clear();
}
