/*
 * C27: binding of symbols.
 *
 * params: 0 number of libraries, 1 symbol (0 data, 1 function by address,
 *         2 function by call, 3 function by address and call), 2 bind now,
 *         3 load order (libraries need each other in a chain)
 *
 * Each object either does not export the symbol, exports it, or exports
 * something else under this name. Each object refers to it.
 */
#include "dylkit.h"

static const char *paths[] = {"/m", "./a", "./b", "./c"};
static const char *names[] = {0, "a", "b", "c"};
static const char *fq[] = {"q0", "q1", "q2", "q3"};
static const char *fc[] = {"c0", "c1", "c2", "c3"};
static const char *fi[] = {"i0", "i1", "i2", "i3"};
static const char *fb[] = {"b0", "b1", "b2", "b3"};
static const char *pq[] = {"pq0", "pq1", "pq2", "pq3"};
static const char *pc[] = {"pc0", "pc1", "pc2", "pc3"};
static const char *pi[] = {"pi0", "pi1", "pi2", "pi3"};
static const char *pb[] = {"pb0", "pb1", "pb2", "pb3"};

enum { NONE, DEF, OTHER, NDEF };

static struct dy d[4];
static int def[4];
static uint32_t off[4];

void
harness_main(void)
{
    unsigned n = (unsigned)sym_param(0, 2), kind = (unsigned)sym_param(1, 0);
    int now = (int)sym_param(2, 0), chain = (int)sym_param(3, 0);
    struct wm m;
    int first = -1, weakmiss = 0;
    dy_init();
    dl.opts.bindnow = now;
    for (unsigned i = 0; i <= n; i++) {
        def[i] = (int)sym_choice(NDEF);
        off[i] = kind ? 100 + i : sym_u32();
        d[i].memsize = 24 + i;
        d[i].memalign = 3;
        d[i].tabsize = 1;
        d[i].flags[0] = 0;
        d[i].info[0] = "other";
        d[i].flags[1] = sym_u8() & 0x7f;
        d[i].info[1] = "s";
        d[i].ninfo = 2;
        if (first < 0 &&
            (def[i] == DEF || (kind && def[i] == OTHER)))
            first = (int)i;
    }
    for (unsigned i = 0; i <= n; i++)
        if (!(d[i].flags[1] & 1))
            weakmiss = 1;
    if (chain) {
        for (unsigned i = 0; i < n; i++) {
            d[i].needs[0] = names[i + 1];
            d[i].nneeds = 1;
        }
    } else {
        d[0].nneeds = n;
        for (unsigned i = 1; i <= n; i++)
            d[0].needs[i - 1] = names[i];
    }
    for (unsigned j = 0; j <= n; j++) {
        unsigned i = n - j; /* main last */
        dy_base(&m);
        if (kind == 0)
            dy_got(&m, "GOT.mem", "s");
        else if (kind != 2)
            dy_got(&m, "GOT.func", "s");
        else
            dy_got(&m, "env", "__stack_pointer");
        int plt = kind >= 2;
        if (plt)
            wm_import_fn(&m, "env", "s", "", "i");
        if (i == 0)
            for (unsigned l = 1; l <= n; l++) {
                wm_import_fn(&m, "env", fq[l], "", "i");
                if (kind >= 2)
                    wm_import_fn(&m, "env", fc[l], "", "i");
                if (kind & 1)
                    wm_import_fn(&m, "env", fi[l], "", "i");
                wm_import_fn(&m, "env", fb[l], "", "i");
            }
        unsigned q = WMF(&m, "", "i", NULL, 0x23, 2);
        unsigned b = WMF(&m, "", "i", NULL, 0x23, 0);
        wm_export(&m, i ? fq[i] : pq[0], 0, q);
        wm_export(&m, i ? fb[i] : pb[0], 0, b);
        if (kind >= 2)
            wm_export(&m, i ? fc[i] : pc[0], 0,
                      WMF(&m, "", "i", NULL, 0x10, 0));
        if (kind & 1) {
            uint8_t c[] = {0x23, 2, 0x11, 0, 0};
            c[3] = (uint8_t)wm_type(&m, "", "i");
            wm_export(&m, i ? fi[i] : pi[0], 0,
                      wm_fn(&m, "", "i", NULL, c, 5));
        }
        if (i == 0)
            for (unsigned l = 1, x = plt; l <= n; l++) {
                uint8_t c[2] = {0x10};
                c[1] = x++;
                wm_export(&m, pq[l], 0, wm_fn(&m, "", "i", NULL, c, 2));
                if (kind >= 2) {
                    c[1] = x++;
                    wm_export(&m, pc[l], 0, wm_fn(&m, "", "i", NULL, c, 2));
                }
                if (kind & 1) {
                    c[1] = x++;
                    wm_export(&m, pi[l], 0, wm_fn(&m, "", "i", NULL, c, 2));
                }
                c[1] = x++;
                wm_export(&m, pb[l], 0, wm_fn(&m, "", "i", NULL, c, 2));
            }
        /* globals 3 const and 4 mutable */
        wb_u8(&m.glob, 2);
        for (unsigned l = 0; l < 2; l++) {
            wb_u8(&m.glob, 0x7f);
            wb_u8(&m.glob, l);
            wb_u8(&m.glob, 0x41);
            for (unsigned k = 0; k < 4; k++)
                wb_u8(&m.glob, (uint8_t)(off[i] >> 7 * k | 0x80));
            wb_u8(&m.glob, (uint8_t)((uint32_t)((int32_t)off[i] >> 28) & 0x7f));
            wb_u8(&m.glob, 0x0b);
        }
        if (kind == 0) {
            if (def[i])
                wm_export(&m, "s", 3, def[i] == DEF ? 3 : 4);
        } else if (def[i]) {
            uint8_t c[] = {0x41, 0, 0, 0x1a};
            c[1] = off[i] | 0x80;
            c[2] = off[i] >> 7;
            wm_export(&m, "s", 0,
                      def[i] == DEF ? wm_fn(&m, "", "i", NULL, c, 3)
                                    : wm_fn(&m, "", "", NULL, c, 4));
        }
        dy_obj(paths[i], &m, &d[i]);
    }
    int ret = dyld_load(&dl, paths[0]);
    int fail = first < 0 && weakmiss && (kind != 2 || now);
    int wrong = kind && first >= 0 && def[first] == OTHER;
    if (now && kind >= 2 && wrong && weakmiss)
        fail = 1; /* the call cannot be bound */
    sym_check((ret != 0) == fail, ret ? "objects are not loaded"
                                      : "a missing symbol is not reported");
    if (ret != 0) {
        sym_reach("not loaded");
        dy_clear();
        return;
    }
    uint32_t base = 0, addr = 0;
    if (first >= 0)
        sym_check(dy_call(pb[first], 0, NULL, &base) == 0, "base");
    for (unsigned i = 0; i <= n; i++) {
        uint32_t v;
        sym_check(dy_call(pq[i], 0, NULL, &v) == 0, "value of the symbol");
        if (kind == 0) {
            sym_check(v == (first < 0 ? 0 : base + off[first]),
                      "address of data");
            continue;
        }
        if (kind & 1) {
            if (i == 0)
                addr = v;
            sym_check(v == addr, "a function has two addresses");
            sym_check((v == 0) == (first < 0), "null address");
            ret = dy_call(pi[i], 0, NULL, &v);
            if (first >= 0 && !wrong)
                sym_check(ret == 0 && v == off[first],
                          "call by address");
            else
                sym_check(ret != 0, "a call which cannot be made is made");
        }
        if (kind >= 2) {
            /* again: first time and bound */
            for (int again = 0; again < 2; again++) {
                ret = dy_call(pc[i], 0, NULL, &v);
                if (first >= 0 && !wrong)
                    sym_check(ret == 0 && v == off[first], "call by name");
                else
                    sym_check(ret != 0, "a call which cannot be made is made");
            }
        }
    }
    sym_reach("loaded");
    dy_clear();
}
