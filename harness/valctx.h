/* a module with one of everything around a function body under test */
#pragma once
#include "refval.h"
#include "wk.h"

static const struct rctx ctx0 = {
    .ntypes = 8,
    .types = {{"", ""}, {"", "i"}, {"i", "i"}, {"If", "iI"}, {"", "v"},
              {"", "e"}, {"i", ""}, {"", "ix"}},
    .nfuncs = 6,
    .functy = {0, 1, 2, 3, 4, 0},
    .declared = {true, false, true, false, false, false},
    .ntables = 2,
    .tabty = {'r', 'e'},
    .nmems = 2,
    .nglobals = 4,
    .globty = {'i', 'I', 'r', 'v'},
    .globmut = {true, false, true, true},
    .nelems = 2,
    .elemty = {'r', 'e'},
    .datacount = true,
    .ndatas = 2,
    .ntags = 2,
    .tagty = {6, 0},
    .locals = "iIfFvre",
};
static const char *const results[] = {"", "i", "iI", "e"};
/* tables, globals and tags in the other order */
static bool val_swap;
/* the memories have the largest maximum instead of none */
static bool val_max;

static void
valcontext(struct rctx *cp, unsigned res)
{
    *cp = ctx0;
    cp->result = results[res];
    /* the function under test is number 5 */
    cp->types[8].p = "";
    cp->types[8].r = results[res];
    cp->ntypes = 9;
    cp->functy[5] = 8;
    if (val_swap) {
        cp->tabty[0] = 'e';
        cp->tabty[1] = 'r';
        cp->tagty[0] = 0;
        cp->tagty[1] = 6;
        cp->globty[0] = 'I';
        cp->globmut[0] = false;
        cp->globty[1] = 'i';
        cp->globmut[1] = true;
        cp->globty[2] = 'v';
        cp->globty[3] = 'r';
    }
}

/* the module around the body; c gets the context of the body */
static void
valmodule(struct wb *wp, struct rctx *cp, unsigned res, const uint8_t *b,
          uint32_t n)
{
    valcontext(cp, res);

    wb_init(wp, 1024);
    wb_header(wp);
    wb_sec(wp, 1);
    wb_uleb(wp, cp->ntypes);
    for (unsigned i = 0; i < cp->ntypes; i++)
        wb_functype(wp, cp->types[i].p, cp->types[i].r);
    wb_close(wp);
    wb_sec(wp, 3);
    WB(wp, 6, 0, 1, 2, 3, 4, 8);
    wb_close(wp);
    wb_sec(wp, 4);
    if (val_swap)
        WB(wp, 2, T_EXTERNREF, 0, 1, T_FUNCREF, 0, 1);
    else
        WB(wp, 2, T_FUNCREF, 0, 1, T_EXTERNREF, 0, 1);
    wb_close(wp);
    wb_sec(wp, 5);
    if (val_max)
        WB(wp, 2, 1, 1, 0x80, 0x80, 4, 1, 1, 0x80, 0x80, 4);
    else
        WB(wp, 2, 0, 1, 0, 1);
    wb_close(wp);
    wb_sec(wp, 13);
    if (val_swap)
        WB(wp, 2, 0, 0, 0, 6);
    else
        WB(wp, 2, 0, 6, 0, 0);
    wb_close(wp);
    wb_sec(wp, 6);
    WB(wp, 4);
    for (unsigned i = 0; i < 4; i++)
        switch (val_swap ? i ^ 1 : i) {
        case 0: WB(wp, T_I32, 1, 0x41, 0, 0x0b); break;
        case 1: WB(wp, T_I64, 0, 0x42, 0, 0x0b); break;
        case 2: WB(wp, T_FUNCREF, 1, 0xd2, 0, 0x0b); break;
        case 3:
            WB(wp, T_V128, 1, 0xfd, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
               0, 0, 0, 0x0b);
            break;
        }
    wb_close(wp);
    wb_sec(wp, 9);
    WB(wp, 2, 1, 0, 1, 2, 5, T_EXTERNREF, 0);
    wb_close(wp);
    wb_sec(wp, 12);
    WB(wp, 2);
    wb_close(wp);
    wb_sec(wp, 10);
    wb_uleb(wp, 6);
    for (unsigned i = 0; i < 5; i++) {
        WB(wp, 3, 0, 0x00, 0x0b);
    }
    wb_open(wp);
    WB(wp, 7, 1, T_I32, 1, T_I64, 1, T_F32, 1, T_F64, 1, T_V128, 1, T_FUNCREF,
       1, T_EXTERNREF);
    wb_raw(wp, b, n);
    wb_close(wp);
    wb_close(wp);
    wb_sec(wp, 11);
    WB(wp, 2, 1, 1, 0, 1, 1, 0);
    wb_close(wp);

}
/* load it and compare with the reference */
static void
valcheck(unsigned res, const uint8_t *b, uint32_t n)
{
    struct rctx c;
    struct wb w;
    struct wk k;
    valmodule(&w, &c, res, b, n);
    wk_init(&k);
    int ret = wk_load(&k, w.b, w.n);
    bool ok = refval(&c, b, n);
    sym_observe((uint64_t)(ret == 0));
    if (ok) {
        sym_check(ret == 0, "a valid function body is accepted");
        sym_reach("valid");
    } else {
        sym_check(ret != 0, "an invalid function body is rejected");
        sym_reach("invalid");
    }
    wk_fini(&k);
    wb_fini(&w);
    sym_check(rt_live == 0, "loading leaves nothing allocated");
}
