/*
 * C27: contents of the dylink.0 section.
 *
 * params: 0 number of bytes of any value, 1 a memory info subsection
 *         follows them, 2 first byte or -1
 */
#include "dylkit.h"

static uint8_t b[64];
static unsigned n;

/* reference decoder */
static unsigned pos, end;
static int bad;
static uint8_t
u8(void)
{
    if (pos >= end) {
        bad = 1;
        return 0;
    }
    return b[pos++];
}
static uint32_t
leb(void)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < 5; i++) {
        uint8_t c = u8();
        if (bad)
            return 0;
        v |= (uint64_t)(c & 0x7f) << 7 * i;
        if (!(c & 0x80)) {
            if (v >> 32)
                bad = 1;
            return (uint32_t)v;
        }
    }
    bad = 1;
    return 0;
}
static uint32_t mem[4];
static unsigned has;

static void
ref(void)
{
    pos = 0;
    end = n;
    do {
        uint8_t t = u8();
        uint32_t l = leb();
        if (bad || l > n - pos) {
            bad = 1;
            return;
        }
        if ((t == 1 || t == 2 || t == 4) && (has & 1u << t)) {
            bad = 1;
            return;
        }
        unsigned e = pos + l;
        end = e;
        if (t == 1) {
            for (unsigned i = 0; i < 4; i++)
                mem[i] = leb();
            has |= 2;
        } else if (t == 2) {
            has |= 4;
            if (leb() != 0)
                bad = 1; /* no such files */
        } else if (t == 4) {
            has |= 16;
            uint32_t c = leb();
            if (c > 4)
                bad = 1;
            for (uint32_t i = 0; i < c && !bad; i++) {
                for (unsigned k = 0; k < 2; k++) {
                    uint32_t s = leb();
                    if (bad || s > end - pos) {
                        bad = 1;
                        return;
                    }
                    for (; s; s--)
                        if (u8() >= 0x80)
                            bad = 1; /* undecided */
                }
                leb();
            }
        } else
            pos = e;
        if (bad || pos != e) {
            bad = 1;
            return;
        }
        end = n;
    } while (pos < n);
}
void
harness_main(void)
{
    int tail = (int)sym_param(1, 0), fst = (int)sym_param(2, -1);
    struct wm m;
    struct wb w;
    struct dy d;
    dy_init();
    n = (unsigned)sym_param(0, 4);
    for (unsigned i = 0; i < n; i++)
        b[i] = i == 0 && fst >= 0 ? (uint8_t)fst : sym_u8();
    if (tail) {
        static const uint8_t t[] = {1, 4, 40, 3, 2, 1};
        memcpy(b + n, t, sizeof(t));
        n += sizeof(t);
    }
    ref();
    wb_init(&w, 64);
    wb_raw(&w, b, n);
    dy_base(&m);
    wm_export(&m, "mb", 0, WMF(&m, "", "i", NULL, 0x23, 0));
    dy_file("./a", &m, &w);
    wb_fini(&w);
    dy_base(&m);
    dy_got(&m, "GOT.mem", "__stack_low");
    wm_import_fn(&m, "env", "mb", "", "i");
    wm_export(&m, "sl", 0, WMF(&m, "", "i", NULL, 0x23, 2));
    wm_export(&m, "b", 0, WMF(&m, "", "i", NULL, 0x10, 0));
    memset(&d, 0, sizeof(d));
    d.needs[d.nneeds++] = "a";
    dy_obj("/m", &m, &d);
    sym_max_alloc(1024);
    int ret = dyld_load(&dl, "/m");
    sym_check(ret >= 0, "error number");
    int fits = !bad && mem[0] <= 1000 && mem[1] <= 10 && mem[2] <= 10 &&
               mem[3] <= 3;
    if (fits)
        sym_check(ret == 0, "a valid object is not loaded");
    if (ret == 0 && !bad) {
        uint32_t sl, mb;
        sym_check(dy_call("sl", 0, NULL, &sl) == 0 &&
                      dy_call("b", 0, NULL, &mb) == 0,
                  "layout");
        sym_check((uint64_t)mb + mem[0] <= sl, "size of the object's memory");
        sym_check(mem[1] < 32 && mb % (1u << mem[1]) == 0,
                  "alignment of the object's memory");
    }
    if (bad)
        sym_reach("bad");
    else
        sym_reach("good");
    sym_max_alloc(1 << 28);
    dy_clear();
}
