/*
 * C31: values, names and commands given to the repl and the command line.
 *
 * params: 0 what
 *   0: a number (1 type, 2 prefix, 3 further characters)
 *   1: a vector (1 length)
 *   2: references
 *   3: names of functions (1 kind)
 *   4: printed results (1 which)
 *   5: numbers of arguments, unknown functions, traps
 *   6: sessions (1 number of commands, 2 the first one, 100.. the first four, 255 none)
 *   7: a module in hexadecimal text
 *   8: the command line (1 which, 2 with failing allocations)
 *   9: a session with failing allocations (1 commands)
 */
#define WK_NO_HOST_INSTANCE
#include <errno.h>
#include <fcntl.h>

#include "repl.h"
#define DY_HAVE_DYLD_H
#include "dylkit.h"
#include "rt_cli.h"
#include "rt_os.h"
#include "rt_thr.h"
#include "wk.h"

const char *const toywasm_config_string = "";
int toywasm_main(int argc, char **argv);

static struct repl_state st;
static long live0;
static struct mem_context mc[6];

static void
stdio(void)
{
    static struct os_file files[3];
    for (int i = 0; i < 3; i++) {
        os_mkfile(&files[i], OSK_TTY);
        os_mkfd(i, &files[i], O_RDWR);
    }
    rt_capture = 1;
}
static void
init(void)
{
    stdio();
    live0 = rt_live;
    for (unsigned i = 0; i < 6; i++) {
        mem_context_init(&mc[i]);
        if (i)
            mc[i].parent = &mc[0];
    }
    toywasm_repl_state_init(&st);
    st.mctx = &mc[0];
    st.modules_mctx = &mc[1];
    st.instances_mctx = &mc[2];
    st.wasi_mctx = &mc[3];
    st.dyld_mctx = &mc[4];
    st.impobj_mctx = &mc[5];
}
static void
fini(void)
{
    toywasm_repl_reset(&st);
    for (unsigned i = 6; i-- > 0;) {
        sym_check(mc[i].allocated == 0, "nothing remains allocated");
        mem_context_clear(&mc[i]);
    }
    sym_check(os_nmapped == 0, "nothing remains mapped");
    sym_check(rt_live == live0, "nothing leaks");
}
static void
image(const char *path, struct wm *m)
{
    static struct wb ws[4];
    struct wb w;
    wm_emit(m, &w);
    ws[os_nimages] = w;
    os_images[os_nimages].path = path;
    os_images[os_nimages].b = ws[os_nimages].b;
    os_images[os_nimages].n = w.n;
    os_nimages++;
}
static void
load(struct wm *m)
{
    image("m", m);
    live0 = rt_live;
    sym_check(toywasm_repl_load(&st, NULL, "m", false) == 0, "load");
    rt_nout = 0;
}
static int
run_(const char *cmd)
{
    rt_nout = 0;
    return toywasm_repl_invoke(&st, NULL, cmd, NULL, true);
}
/* the output is exactly the text */
static void
printed(const char *e, size_t n, const char *what)
{
    sym_check(rt_nout == n, what);
    unsigned bad = 0;
    for (size_t i = 0; i < n; i++)
        bad |= (unsigned)(rt_out[i] != e[i]);
    sym_check(!bad, what);
}
static int
begins(const char *e)
{
    size_t n = strlen(e);
    return rt_nout >= n && memcmp(rt_out, e, n) == 0;
}

/* ---- numbers ---- */
static unsigned
hexdigit(uint8_t c)
{
    return c >= '0' && c <= '9'   ? c - '0'
           : c >= 'a' && c <= 'f' ? c - 'a' + 10
           : c >= 'A' && c <= 'F' ? c - 'A' + 10
                                  : 99;
}
/* 0: no number, 1: *v, 2: too large, 3: forms which need not be accepted */
static int
refnum(const uint8_t *s, unsigned n, uint64_t *v)
{
    unsigned i = 0, b = 10;
    if (n == 0)
        return 0;
    if (s[0] == '+' || s[0] == '-' || (s[0] >= 9 && s[0] <= 13))
        return 3;
    if (s[0] == '0' && n > 1) {
        if (s[1] == 'b' || s[1] == 'B' || s[1] == 'o' || s[1] == 'O')
            return 3;
        if (s[1] == 'x' || s[1] == 'X') {
            b = 16;
            i = 2;
            if (n == 2)
                return 0;
        } else {
            b = 8;
            i = 1;
        }
    }
    unsigned __int128 x = 0;
    int big = 0;
    for (; i < n; i++) {
        unsigned d = hexdigit(s[i]);
        if (d >= b)
            return 0;
        x = x * b + d;
        if (x >> 64) {
            big = 1;
            x = 0;
        }
    }
    *v = (uint64_t)x;
    return big ? 2 : 1;
}
static void
numbers(unsigned type, unsigned prefix, unsigned more)
{
    static const char *pre[] = {"",
                                "0x",
                                "42949672",
                                "0xfffffff",
                                "184467440737095516",
                                "0xfffffffffffffff",
                                "0377777777",
                                "0177777777777777777777",
                                "000000000000000000000000000",
                                "-",
                                "1234567890123456"};
    static const char *letter[] = {"i", "I", "f", "F"};
    static const char *name[] = {"i32", "i64", "f32", "f64"};
    static const uint8_t vt[] = {0x7f, 0x7e, 0x7d, 0x7c};
    struct wm m;
    wm_init(&m);
    /* the argument and a marker */
    char ty[4] = {letter[type][0], 0};
    char rty[4] = {letter[type][0], 0};
    (void)vt;
    unsigned f = WMF(&m, ty, rty, NULL, 0x20, 0);
    wm_export(&m, "f", 0, f);
    init();
    load(&m);
    char cmd[64];
    uint8_t *s = (uint8_t *)cmd + 2;
    memcpy(cmd, "f ", 2);
    unsigned n = (unsigned)strlen(pre[prefix]);
    memcpy(s, pre[prefix], n);
    for (unsigned i = 0; i < more; i++) {
        sym_code(s + n, 1);
        sym_assume(s[n] != ' ' && s[n] != 0);
        n++;
    }
    s[n] = 0;
    uint64_t v = 0;
    int ref = refnum(s, n, &v);
    int ret = run_(cmd);
    if (ref == 1 && (type & 1) == 0 && v > UINT32_MAX)
        ref = 2;
    if (ref == 1) {
        sym_check(ret == 0, "a number is accepted");
        char e[64];
        size_t k = rt_format(e, sizeof(e), "Result: %lu:%s\n", v, name[type]);
        printed(e, k, "the value arrives");
        sym_reach("number");
    } else if (ref == 3) {
        sym_reach("other");
    } else {
        sym_check(ret != 0, "other text is an error");
        sym_check(rt_nout == 0, "nothing is executed");
        sym_reach("error");
    }
    fini();
    if (prefix != 9) {
        if ((type & 1) || n <= 10 || prefix == 8)
            sym_expect("number");
        sym_expect("error");
    }
}

/* ---- vectors ---- */
static void
vector(unsigned len)
{
    struct wm m;
    wm_init(&m);
    unsigned f = WMF(&m, "v", "v", NULL, 0x20, 0);
    wm_export(&m, "f", 0, f);
    init();
    load(&m);
    char cmd[64];
    static const char digits[] = "0123456789abcdefABCDEF0123456789ab";
    memcpy(cmd, "f ", 2);
    char *s = cmd + 2;
    memcpy(s, digits, len);
    s[len] = 0;
    unsigned p = sym_choice(len);
    static const uint8_t dist[] = {0, 1, 15, 16};
    unsigned q = (p + dist[sym_choice(4)]) % len;
    sym_code((uint8_t *)&s[p], 1);
    if (q != p)
        sym_code((uint8_t *)&s[q], 1);
    sym_assume(s[p] != ' ' && s[p] != 0 && s[q] != ' ' && s[q] != 0);
    int ok = len == 32;
    char e[64];
    memcpy(e, "Result: ", 8);
    for (unsigned i = 0; i < len; i++) {
        unsigned d = hexdigit((uint8_t)s[i]);
        ok &= d < 16;
        e[8 + i] = (char)(d < 10 ? '0' + d : 'a' + d - 10);
    }
    memcpy(e + 8 + len, ":v128\n", 6);
    int ret = run_(cmd);
    if (ok) {
        sym_check(ret == 0, "a vector is accepted");
        printed(e, 8 + 32 + 6, "the value arrives");
        sym_reach("vector");
    } else {
        sym_check(ret != 0, "other text is an error");
        sym_check(rt_nout == 0, "nothing is executed");
        sym_reach("error");
    }
    fini();
    sym_expect("error");
    if (len == 32)
        sym_expect("vector");
}

/* ---- references ---- */
static void
refs(void)
{
    struct wm m;
    wm_init(&m);
    unsigned f = WMF(&m, "e", "e", NULL, 0x20, 0);
    wm_export(&m, "f", 0, f);
    f = WMF(&m, "e", "i", NULL, 0x20, 0, 0xd1);
    wm_export(&m, "n", 0, f);
    f = WMF(&m, "r", "i", NULL, 0x20, 0, 0xd1);
    wm_export(&m, "z", 0, f);
    f = WMF(&m, "", "re", NULL, 0xd0, 0x70, 0xd0, 0x6f);
    wm_export(&m, "nulls", 0, f);
    init();
    load(&m);
    uint8_t c[2];
    sym_code(c, 2);
    sym_assume(c[0] >= '0' && c[0] <= '9' && c[1] >= '0' && c[1] <= '9');
    char cmd[16] = "f 1xx", e[64];
    cmd[3] = (char)c[0];
    cmd[4] = (char)c[1];
    sym_check(run_(cmd) == 0, "externref");
    size_t k = rt_format(e, sizeof(e), "Result: 1%c%c:externref\n", c[0],
                         c[1]);
    printed(e, k, "externref");
    sym_check(run_("f 0") == 0, "externref 0");
    printed("Result: 0:externref\n", 20, "externref 0");
    sym_check(run_("n 0") == 0, "externref 0");
    printed("Result: 0:i32\n", 14, "externref 0 is not null");
    sym_check(run_("f null") == 0, "null");
    printed("Result: null:externref\n", 23, "null");
    sym_check(run_("n null") == 0, "null");
    printed("Result: 1:i32\n", 14, "null is null");
    sym_check(run_("z null") == 0, "null");
    printed("Result: 1:i32\n", 14, "null is null");
    sym_check(run_("nulls") == 0, "nulls");
    printed("Result: null:funcref, null:externref\n", 37, "nulls");
    cmd[2] = 'n';
    sym_check(run_(cmd) != 0 && rt_nout == 0, "not a reference");
    fini();
    sym_reach("refs");
    sym_expect("refs");
}

/* ---- names ---- */
static void
names(unsigned kind)
{
    struct wm m;
    wm_init(&m);
    unsigned f = WMF(&m, "", "i", NULL, 0x41, 1);
    unsigned g = WMF(&m, "", "i", NULL, 0x41, 2);
    char n1[4] = {0}, cmd[16];
    uint8_t c[2];
    init();
    if (kind == 0) {
        /* an escaped byte */
        sym_code((uint8_t *)n1, 1);
        sym_assume(n1[0] > 0);
        wm_export(&m, n1, 0, f);
        wm_export(&m, "longer", 0, g);
        load(&m);
        sym_code(c, 2);
        memcpy(cmd, "\\x", 2);
        memcpy(cmd + 2, c, 2);
        cmd[4] = 0;
        sym_assume(c[0] != ' ' && c[1] != ' ' && c[0] && c[1]);
        unsigned h = hexdigit(c[0]), l = hexdigit(c[1]);
        if (h > 15 || l > 15) {
            if (c[0] == '+' || c[0] == '-' || (c[0] >= 9 && c[0] <= 13))
                sym_end();
            sym_check(run_(cmd) != 0 && rt_nout == 0, "not an escape");
            sym_reach("error");
        } else if ((uint8_t)n1[0] == h * 16 + l) {
            sym_check(run_(cmd) == 0, "the escaped name");
            printed("Result: 1:i32\n", 14, "the escaped name");
            sym_reach("found");
        } else {
            sym_check(run_(cmd) != 0 && rt_nout == 0, "another name");
            sym_reach("not found");
        }
        sym_expect("error");
        sym_expect("found");
        sym_expect("not found");
    } else if (kind == 1) {
        /* plain bytes */
        unsigned n = sym_choice(3);
        sym_code((uint8_t *)n1, 2);
        sym_assume(n1[0] > 0 && n1[1] > 0);
        wm_export(&m, n1, 0, f);
        load(&m);
        sym_code(c, 2);
        memcpy(cmd, c, 2);
        cmd[n] = 0;
        for (unsigned i = 0; i < 2; i++)
            sym_assume(c[i] != ' ' && c[i] && c[i] != '\\' && c[i] != '"');
        if (n == 2 && c[0] == (uint8_t)n1[0] && c[1] == (uint8_t)n1[1]) {
            sym_check(run_(cmd) == 0, "the name");
            printed("Result: 1:i32\n", 14, "the name");
            sym_reach("found");
        } else {
            sym_check(run_(cmd) != 0 && rt_nout == 0, "another name");
            sym_reach("not found");
        }
        sym_expect("found");
        sym_expect("not found");
    } else {
        static const struct {
            const char *cmd;
            int r;
        } t[] = {
            {"\"\"", 1},       {"\"ab\"", 2},    {"a\"b\"", 2},
            {"\"a\"b", 2},     {"a\\x62", 2},    {"\\x61b", 2},
            {"\"a\\x62\"", 2}, {"\"", 0},        {"\"ab", 0},
            {"ab\"", 0},       {"\\", 0},        {"\\x", 0},
            {"\\x6", 0},       {"\\n", 0},       {"a", 0},
            {"abc", 0},        {"   ab", 2},     {"ab   ", 2},
            {"\\x61\\x62", 2}, {"ab\\x00", 0},   {"   ", 0},
            {"AB", 0},         {"\\x61b \"", 0},
        };
        wm_export(&m, "", 0, f);
        wm_export(&m, "ab", 0, g);
        wm_export(&m, "a", 3, 0);
        WB(&m.glob, 1, 0x7f, 0, 0x41, 5, 0x0b);
        load(&m);
        unsigned i = sym_choice(sizeof(t) / sizeof(t[0]));
        int ret = run_(t[i].cmd);
        if (t[i].r) {
            sym_check(ret == 0, "the name");
            char e[32];
            size_t k = rt_format(e, sizeof(e), "Result: %d:i32\n", t[i].r);
            printed(e, k, "the name");
        } else {
            sym_check(ret != 0 && rt_nout == 0, "no such name");
        }
        sym_reach("quotes");
        sym_expect("quotes");
    }
    fini();
}

/* ---- results ---- */
static void
leb5(struct wb *w, uint32_t v)
{
    for (unsigned i = 0; i < 4; i++)
        wb_u8(w, (uint8_t)(v >> 7 * i | 0x80));
    wb_u8(w, (uint8_t)((v >> 28) | ((v >> 31) ? 0x70 : 0)));
}
static void
results(unsigned which)
{
    struct wm m;
    wm_init(&m);
    uint8_t b[16];
    sym_bytes(b, 16);
    uint64_t v;
    memcpy(&v, b, 8);
    char e[128];
    size_t k = 0;
    struct wb *w;
    unsigned f;
    init();
    switch (which) {
    case 0: /* two numbers */
        f = WMF(&m, "", "fi", NULL, 0x43);
        w = wm_code(&m, f);
        for (unsigned i = 0; i < 4; i++)
            wb_u8(w, b[i]);
        wb_u8(w, 0x41);
        leb5(w, (uint32_t)b[4] * 16777);
        k = rt_format(e, sizeof(e), "Result: %u:f32, %u:i32\n", (uint32_t)v,
                      (uint32_t)b[4] * 16777);
        break;
    case 1: /* 64 bits */
        f = WMF(&m, "", "F", NULL, 0x44);
        w = wm_code(&m, f);
        for (unsigned i = 0; i < 8; i++)
            wb_u8(w, b[i]);
        k = rt_format(e, sizeof(e), "Result: %lu:f64\n", v);
        break;
    case 2:
        f = WMF(&m, "", "v", NULL, 0xfd, 0x0c);
        w = wm_code(&m, f);
        for (unsigned i = 0; i < 16; i++)
            wb_u8(w, b[i]);
        memcpy(e, "Result: ", 8);
        for (unsigned i = 0; i < 16; i++)
            for (unsigned j = 0; j < 2; j++) {
                unsigned d = (unsigned)b[15 - i] >> (j ? 0 : 4) & 15;
                e[8 + 2 * i + j] = (char)('0' + d + (unsigned)(d > 9) * 39);
            }
        memcpy(e + 40, ":v128\n", 7);
        k = 46;
        break;
    case 3:
        f = WMF(&m, "", "", NULL, 0x01);
        memcpy(e, "Result: <Empty Stack>\n", 23);
        k = 22;
        break;
    default: /* reinterpreted */
        f = WMF(&m, "", "I", NULL, 0x44);
        w = wm_code(&m, f);
        for (unsigned i = 0; i < 8; i++)
            wb_u8(w, b[i]);
        wb_u8(w, 0xbd);
        k = rt_format(e, sizeof(e), "Result: %lu:i64\n", v);
        break;
    }
    wm_export(&m, "f", 0, f);
    load(&m);
    sym_check(run_("f") == 0, "success");
    printed(e, k, "the results");
    /* without printing */
    rt_nout = 0;
    uint32_t code = 77;
    sym_check(toywasm_repl_invoke(&st, NULL, "f", &code, false) == 0 &&
                  code == 0 && rt_nout == 0,
              "quiet");
    sym_reach("results");
    fini();
    sym_expect("results");
}

/* ---- arguments, traps ---- */
static void
args(void)
{
    struct wm m;
    wm_init(&m);
    static const uint8_t set[] = {0x20, 0, 0x24, 0, 0x20, 1, 0x24, 1};
    unsigned f = wm_fn(&m, "ii", "", NULL, set, sizeof(set));
    wm_export(&m, "set", 0, f);
    f = WMF(&m, "", "ii", NULL, 0x23, 0, 0x23, 1);
    wm_export(&m, "get", 0, f);
    f = WMF(&m, "i", "i", NULL, 0x41, 5, 0x20, 0, 0x6d);
    wm_export(&m, "div", 0, f);
    f = WMF(&m, "", "", NULL, 0x00);
    wm_export(&m, "trap", 0, f);
    f = WMF(&m, "i", "i", NULL, 0x20, 0, 0x28, 0, 0);
    wm_export(&m, "load", 0, f);
    f = WMF(&m, "i", "", NULL, 0x20, 0, 0x11, 3, 0);
    wm_export(&m, "ind", 0, f);
    f = WMF(&m, "f", "i", NULL, 0x20, 0, 0xa8);
    wm_export(&m, "trunc", 0, f);
    WB(&m.mem, 1, 0, 1);
    WB(&m.tab, 1, 0x70, 0, 3);
    WB(&m.elem, 1, 0, 0x41, 1, 0x0b, 1, 1);
    WB(&m.glob, 2, 0x7f, 1, 0x41, 3, 0x0b, 0x7f, 1, 0x41, 4, 0x0b);
    init();
    load(&m);
    static const struct {
        const char *cmd;
        int what; /* 0 error, 1 set, 2: trap */
        const char *out;
    } t[] = {
        {"set 8 9", 1, "Result: <Empty Stack>\n"},
        {"set  8   9 ", 1, "Result: <Empty Stack>\n"},
        {"set 8", 0, ""},
        {"set", 0, ""},
        {"set 8 9 10", 0, ""},
        {"set 8 x", 0, ""},
        {"set x 9", 0, ""},
        {"nosuch", 0, ""},
        {"", 0, ""},
        {"div 5", 3, "Result: 1:i32\n"},
        {"div 0", 2, "Error: [trap] integer divide by zero"},
        {"trap", 2, "Error: [trap] unreachable executed"},
        {"load 65533", 2, "Error: [trap] out of bounds memory access"},
        {"load 65532", 3, "Result: 0:i32\n"},
        {"ind 0", 2, "Error: [trap] uninitialized element"},
        {"ind 1", 2, "Error: [trap] indirect call type mismatch"},
        {"ind 3", 2, "Error: [trap] undefined element"},
        {"trunc 0x7fc00000", 2, "Error: [trap] invalid conversion to integer"},
        {"trunc 0x4f000000", 2, "Error: [trap] integer overflow"},
        {"trunc 0x3f800000", 3, "Result: 1:i32\n"},
    };
    unsigned i = sym_choice(sizeof(t) / sizeof(t[0]));
    uint32_t code = 77;
    rt_nout = 0;
    int ret = toywasm_repl_invoke(&st, NULL, t[i].cmd,
                                  sym_choice(2) ? &code : NULL, true);
    switch (t[i].what) {
    case 0:
        sym_check(ret != 0 && rt_nout == 0, "an error");
        break;
    case 2:
        sym_check(ret != 0 && begins(t[i].out), "a trap");
        break;
    default:
        sym_check(ret == 0, "success");
        printed(t[i].out, strlen(t[i].out), "success");
    }
    sym_check(run_("get") == 0, "get");
    if (t[i].what == 1)
        printed("Result: 8:i32, 9:i32\n", 21, "the function was executed");
    else
        printed("Result: 3:i32, 4:i32\n", 21, "nothing was executed");
    sym_reach("args");
    fini();
    sym_expect("args");
}

/* ---- sessions ---- */
enum { NCMD = 22 };
/* state of the reference */
static struct {
    unsigned n;             /* number of modules */
    char name[8], kind[8];  /* '-': none */
    uint32_t ctr[8];        /* counters */
    int reg[8];             /* what registered "x": module or -1 */
    unsigned nreg;
    int imp[8]; /* the module an instance of B imports from */
} R;
static void
session(unsigned ncmd, int first)
{
    struct wm m;
    /* A: a counter */
    wm_init(&m);
    unsigned f = WMF(&m, "", "i", NULL, 0x23, 0, 0x41, 1, 0x6a, 0x24, 0, 0x23,
                     0);
    wm_export(&m, "f", 0, f);
    wm_export(&m, "g", 3, 0);
    WB(&m.glob, 1, 0x7f, 1, 0x41, 10, 0x0b);
    image("a", &m);
    /* B: calls the registered one twice */
    wm_init(&m);
    f = wm_import_fn(&m, "x", "f", "", "i");
    f = WMF(&m, "", "i", NULL, 0x10, 0, 0x1a, 0x10, 0);
    wm_export(&m, "f", 0, f);
    image("b", &m);
    /* C: its start function traps */
    wm_init(&m);
    f = WMF(&m, "", "", NULL, 0x00);
    wm_export(&m, "f", 0, f);
    m.start = (int)f;
    image("c", &m);
    /* D: not a module */
    os_images[os_nimages].path = "d";
    os_images[os_nimages].b = (const uint8_t *)"\0asm\1\0\0\0\7\1\1";
    os_images[os_nimages].n = 11;
    os_nimages++;
    static const char *const cmds[NCMD] = {
        ":load a",              /* 0 */
        ":load b",              /* 1 */
        ":load c",              /* 2 */
        ":load d",              /* 3 */
        ":load e",              /* 4 */
        ":module M load a",     /* 5 */
        ":module N load b",     /* 6 */
        ":invoke f",            /* 7 */
        ":module M invoke f",   /* 8 */
        ":module N invoke f",   /* 9 */
        ":register x",          /* 10 */
        ":module M register x", /* 11 */
        ":global-get g",        /* 12 */
        ":module M global-get g", /* 13 */
        ":init",                /* 14 */
        ":nonsense a",          /* 15 */
        "nonsense",             /* 16 */
        "",                     /* 17 */
        ":module M",            /* 18 */
        ":invoke",              /* 19 */
        ":module",              /* 20 */
        ":exit",                /* 21 */
    };
    char in[256];
    size_t n = 0;
    char e[1024];
    size_t k = 0;
    memset(&R, 0, sizeof(R));
    int ended = 0;
#define E(...) (k += rt_format(e + k, sizeof(e) - k, __VA_ARGS__))
    E("toywasm> ");
    for (unsigned i = 0; i < ncmd; i++) {
        static const uint8_t prefix[][4] = {
            {0, 7, 10, 5},  /* two modules, one of them registered */
            {5, 11, 6, 9},  /* a module which uses another one */
            {5, 11, 14, 0}, /* names of modules which are gone */
        };
        unsigned c;
        if (first >= 100 && i < 4)
            c = prefix[first - 100][i];
        else if (i == 0 && first >= 0)
            c = (unsigned)first;
        else
            c = sym_choice(NCMD);
        size_t l = strlen(cmds[c]);
        memcpy(in + n, cmds[c], l);
        in[n + l] = '\n';
        n += l + 1;
        if (ended)
            continue;
        int err = 0, mod = -1;
        char what = 0;
        switch (c) {
        case 0:
        case 5:
            R.kind[R.n] = 'a';
            R.name[R.n] = c == 5 ? 'M' : '-';
            R.ctr[R.n++] = 10;
            break;
        case 1:
        case 6:
            if (R.nreg > 1 && R.kind[R.reg[R.nreg - 1]] == 'c') {
                /* the older one might be used instead: left open */
                return;
            }
            if (R.nreg == 0 || R.kind[R.reg[R.nreg - 1]] == 'c') {
                /* a module without import */
                err = -1;
                what = 'L';
            } else {
                R.kind[R.n] = 'b';
                R.imp[R.n] = R.reg[R.nreg - 1];
                R.name[R.n++] = c == 6 ? 'N' : '-';
            }
            break;
        case 2:
            /* loaded all the same */
            what = 't';
            R.kind[R.n] = 'c';
            R.name[R.n++] = '-';
            break;
        case 3:
            err = -1;
            what = 'L';
            break;
        case 4:
            err = -1;
            break;
        case 7:
        case 8:
        case 9:
        case 12:
        case 13:
        case 10:
        case 11:
            if (c == 7 || c == 12 || c == 10) {
                mod = (int)R.n - 1;
            } else {
                char w = c == 9 ? 'N' : 'M';
                for (int j = (int)R.n - 1; j >= 0; j--)
                    if (R.name[j] == w)
                        mod = j;
            }
            if (mod < 0) {
                err = -1;
            } else if (c == 10 || c == 11) {
                R.reg[R.nreg++] = mod;
            } else if (c == 12 || c == 13) {
                if (R.kind[mod] == 'a')
                    E("Result: %u:i32\n", R.ctr[mod]);
                else
                    err = -1;
            } else {
                int t = mod, inc = 1;
                while (R.kind[t] == 'b') {
                    t = R.imp[t];
                    inc *= 2;
                }
                if (R.kind[t] == 'c') {
                    what = 't';
                    err = -1;
                } else {
                    R.ctr[t] += (uint32_t)inc;
                    E("Result: %u:i32\n", R.ctr[t]);
                }
            }
            break;
        case 14:
            memset(&R, 0, sizeof(R));
            break;
        case 18:
            err = -1;
            break;
        case 21:
            ended = 1;
            break;
        }
        if (what == 't')
            E("T");
        if (what == 'L')
            E("L");
        if (err)
            E("E");
        if (!ended)
            E("toywasm> ");
    }
    init();
    rt_in = in;
    rt_nin = n;
    rt_inpos = 0;
    rt_nout = 0;
    sym_check(toywasm_repl(&st) == 0, "the repl ends");
    /* messages are compared by their kind */
    char o[RT_OUT];
    size_t no = 0;
    for (size_t i = 0; i < rt_nout;) {
        static const struct {
            const char *t;
            char c;
        } kinds[] = {
            {"Error: [trap]", 'T'},
            {"load/validation error:", 'L'},
            {"instantiation error:", 'L'},
            {"Error: command", 'E'},
            {"current pc", '-'},
            {"frame[", '-'},
            {"  ", '-'},
        };
        char c = 0;
        for (unsigned j = 0; j < sizeof(kinds) / sizeof(kinds[0]); j++) {
            size_t l = strlen(kinds[j].t);
            if (i + l <= rt_nout && memcmp(rt_out + i, kinds[j].t, l) == 0)
                c = kinds[j].c;
        }
        if (c) {
            if (c != '-')
                o[no++] = c;
            while (i < rt_nout && rt_out[i] != '\n')
                i++;
            i++;
        } else {
            o[no++] = rt_out[i++];
        }
    }
    sym_check(no == k && memcmp(o, e, k) == 0, "the output");
    sym_reach("session");
    fini();
    sym_expect("session");
}

/* ---- hexadecimal modules ---- */
static void
loadhex(void)
{
    struct wm m;
    struct wb w;
    wm_init(&m);
    unsigned f = WMF(&m, "", "i", NULL, 0x41, 0x33);
    wm_export(&m, "f", 0, f);
    wm_emit(&m, &w);
    char in[512];
    size_t n = 0;
    static const char hexd[] = "0123456789abcdef";
    uint8_t c[2];
    sym_code(c, 2);
    unsigned at = 0;
    for (unsigned i = 0; i < w.n; i++)
        if (i + 1 < w.n && w.b[i] == 0x41 && w.b[i + 1] == 0x33)
            at = i + 1;
    unsigned shortby = sym_choice(3);
    n += rt_format(in, sizeof(in), ":load-hex %u\n", w.n);
    for (unsigned i = 0; i < w.n - (shortby == 1); i++) {
        in[n] = hexd[w.b[i] >> 4];
        in[n + 1] = hexd[w.b[i] & 15];
        if (i == at)
            memcpy(in + n, c, 2);
        n += 2;
    }
    if (shortby == 2)
        in[n++] = '0'; /* too long */
    in[n++] = '\n';
    static const char inv[] = ":invoke f\n";
    if (shortby == 0) {
        memcpy(in + n, inv, 10);
        n += 10;
    }
    unsigned h = hexdigit(c[0]), l = hexdigit(c[1]);
    if (c[0] == '+' || c[0] == '-' || c[0] == ' ' || (c[0] >= 9 && c[0] <= 13) ||
        c[1] == 0)
        sym_end();
    init();
    rt_in = in;
    rt_nin = n;
    rt_inpos = 0;
    rt_nout = 0;
    sym_check(toywasm_repl(&st) == 0, "the repl ends");
    if (shortby == 0 && h < 16 && l < 16) {
        uint32_t v = h * 16 + l;
        if (v < 0x80) {
            char e[64];
            size_t k = rt_format(e, sizeof(e),
                                 "toywasm> toywasm> Result: %u:i32\ntoywasm> ",
                                 v & 0x40 ? v | ~0x7fu : v);
            printed(e, k, "the module");
            sym_reach("loaded");
        }
    } else {
        sym_check(begins("toywasm> Error: command ':load-hex' failed with "),
                  "an error");
        sym_reach("error");
    }
    fini();
    sym_expect("loaded");
    sym_expect("error");
}

/* ---- failing allocations ---- */
static void
failing(unsigned which)
{
    struct wm m;
    wm_init(&m);
    unsigned f = WMF(&m, "iv", "vi", NULL, 0x20, 1, 0x20, 0);
    wm_export(&m, "f", 0, f);
    wm_export(&m, "g", 3, 0);
    f = WMF(&m, "", "", NULL, 0x00);
    wm_export(&m, "t", 0, f);
    WB(&m.glob, 1, 0x7f, 1, 0x41, 10, 0x0b);
    image("a", &m);
    wm_init(&m);
    wm_import(&m, "x", "g", 3);
    WB(&m.imp, 0x7f, 1);
    f = WMF(&m, "", "i", NULL, 0x23, 0);
    wm_export(&m, "f", 0, f);
    image("b", &m);
    static const char *const in[] = {
        ":module M load a\n"
        ":invoke f 1 00000000000000000000000000000002\n"
        ":invoke t\n",
        ":load a\n"
        ":register x\n"
        ":module N load b\n"
        ":module N invoke f\n",
        ":load-hex 8\n"
        "0061736d01000000\n"
        ":load a\n"
        ":global-get g\n"
        ":init\n"
        ":module M load a\n",
    };
    static const char *const out[] = {
        "> > Result: 00000000000000000000000000000002:v128, 1:i32\n"
        "> Error: [trap] unreachable executed",
        "> > > > Result: 10:i32\n> ",
        "> > > Result: 10:i32\n> > > ",
    };
    init();
    st.opts.prompt = "";
    rt_in = in[which];
    rt_nin = strlen(rt_in);
    rt_inpos = 0;
    rt_nout = 0;
    rt_fail_budget = 1;
    rt_fail_mode = 1;
    int ret = toywasm_repl(&st);
    rt_fail_mode = 0;
    sym_check(ret == 0, "the repl ends");
    if (!rt_fail_taken) {
        sym_check(begins(out[which]), "the output");
        sym_reach("no failure");
    } else {
        sym_reach("failure");
    }
    fini();
    sym_expect("failure");
    sym_expect("no failure");
}

/* ---- the command line ---- */
static int want; /* the expected exit status */
static const char *wantout;
static uint64_t t0, limit; /* of the execution */
static void
atexit_(int status)
{
    rt_fail_mode = 0;
    if (rt_fail_taken) {
        sym_check(status == want || status == 1, "exit status");
        sym_check(os_nmapped == 0, "nothing remains mapped");
        sym_check(rt_live == live0, "nothing leaks");
        sym_reach("failure");
        return;
    }
    sym_check(status == want, "exit status");
    if (limit && want)
        sym_check(rt_now > t0 + limit && rt_now <= t0 + limit + 5000000,
                  "the time limit");
    if (wantout)
        printed(wantout, strlen(wantout), "output");
    sym_check(os_nmapped == 0, "nothing remains mapped");
    sym_check(rt_live == live0, "nothing leaks");
    sym_reach("exit");
}
static void
cmdline(unsigned which)
{
    struct wm m;
    unsigned f, x, g;
    char *argv[12] = {"toywasm"};
    int argc = 1;
    char num[16];
    uint8_t c[3];
    stdio();
    rt_exit_hook = atexit_;
    wantout = NULL;
    sym_expect("exit");
    wm_init(&m);
    switch (which) {
    case 0: {
        /* a program's exit code, its arguments and environment */
        uint32_t code = sym_u32();
        x = wm_import_fn(&m, "wasi_snapshot_preview1", "proc_exit", "i", "");
        wm_import_fn(&m, "wasi_snapshot_preview1", "args_sizes_get", "ii",
                     "i");
        wm_import_fn(&m, "wasi_snapshot_preview1", "environ_sizes_get", "ii",
                     "i");
        f = WMF(&m, "", "", NULL, 0x41, 0, 0x41, 4, 0x10, 1, 0x1a, 0x41, 8,
                0x41, 12, 0x10, 2, 0x1a,
                /* unreachable unless 3 arguments, 2 variables */
                0x41, 0, 0x28, 2, 0, 0x41, 3, 0x47, 0x04, 0x40, 0x00, 0x0b,
                0x41, 8, 0x28, 2, 0, 0x41, 2, 0x47, 0x04, 0x40, 0x00, 0x0b,
                0x41, 4, 0x28, 2, 0, 0x41, 16, 0x47, 0x04, 0x40, 0x00, 0x0b);
        struct wb *w = wm_code(&m, f);
        if (sym_choice(2)) {
            wb_u8(w, 0x41);
            leb5(w, code);
            WB(w, 0x10, 0);
            want = (int)code;
        } else {
            want = 0;
        }
        (void)x;
        wm_export(&m, "_start", 0, f);
        wm_export(&m, "memory", 2, 0);
        WB(&m.mem, 1, 0, 1);
        image("dir/m.wasm", &m);
        argv[argc++] = "--wasi";
        argv[argc++] = "--wasi-env";
        argv[argc++] = "A=1";
        argv[argc++] = "--wasi-env=B=22";
        argv[argc++] = "--";
        argv[argc++] = "dir/m.wasm"; /* m.wasm */
        argv[argc++] = "--x";
        argv[argc++] = "1234";
        wantout = "";
        break;
    }
    case 1:
        /* a trap, a missing file, no _start, an unresolved import */
        want = 1;
        g = sym_choice(5);
        if (g == 4)
            wm_import_fn(&m, "env", "missing", "i", "i");
        f = WMF(&m, "", "", NULL, 0x00);
        wm_export(&m, g == 1 ? "start" : "_start", 0, f);
        image("m", &m);
        argv[argc++] = g == 2 ? "n" : g == 3 ? "dir/" : "m";
        break;
    case 2:
        /* functions called in order */
        f = WMF(&m, "i", "i", NULL, 0x23, 0, 0x20, 0, 0x6a, 0x24, 0, 0x23, 0);
        wm_export(&m, "add", 0, f);
        WB(&m.glob, 1, 0x7f, 1, 0x41, 10, 0x0b);
        image("m", &m);
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--invoke";
        argv[argc++] = "add 5";
        argv[argc++] = "--invoke=add 0x10";
        g = sym_choice(3);
        if (g) {
            argv[argc++] = "--invoke";
            argv[argc++] = g == 1 ? "add" : "sub 1";
        }
        want = g != 0;
        wantout = "Result: 15:i32\nResult: 31:i32\n";
        break;
    case 3:
        /* limits */
        sym_code(c, 3);
        for (unsigned i = 0; i < 3; i++)
            sym_assume(c[i] >= '0' && c[i] <= '9');
        /* frames: calls itself 20 times */
        f = WMF(&m, "i", "i", NULL, 0x20, 0, 0x04, 0x7f, 0x20, 0, 0x41, 1,
                0x6b, 0x10, 0, 0x05, 0x41, 7, 0x0b);
        wm_export(&m, "f", 0, f);
        image("m", &m);
        g = 2 + sym_choice(2);
        if (c[0] == '0' && sym_choice(2) == 0)
            g = 1;
        else if (c[0] == '0')
            sym_end(); /* octal */
        memcpy(num, c, g);
        num[g] = 0;
        uint32_t v = 0;
        for (unsigned i = 0; i < g; i++)
            v = v * 10 + (uint32_t)(c[i] - '0');
        argv[argc++] = "--max-frames";
        argv[argc++] = num;
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--invoke";
        argv[argc++] = "f 20";
        want = v < 21;
        if (!want)
            wantout = "Result: 7:i32\n";
        break;
    case 4: {
        static const char *opt[] = {"--max-frames", "--max-stack-cells",
                                    "--max-memory", "--dyld-stack-size"};
        static const char *bad[] = {"", "x", "1x", "0x", "99999999999999999999",
                                    "1 "};
        argv[argc++] = (char *)opt[sym_choice(4)];
        if (sym_choice(2)) {
            argv[argc++] = (char *)bad[sym_choice(6)];
            want = 1;
        } else {
            argv[argc++] = "0x100000";
            want = 0;
        }
        argv[argc++] = "--version";
        break;
    }
    case 5:
        /* unresolved functions */
        wm_import_fn(&m, "env", "missing", "iI", "i");
        f = WMF(&m, "", "i", NULL, 0x41, 9);
        wm_export(&m, "ok", 0, f);
        f = WMF(&m, "", "i", NULL, 0x41, 9, 0x42, 1, 0x10, 0);
        wm_export(&m, "call", 0, f);
        wm_export(&m, "import", 0, 0);
        image("m", &m);
        g = sym_choice(4);
        if (g)
            argv[argc++] = "--allow-unresolved-functions";
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--invoke";
        argv[argc++] = g == 3 ? "import 1 2" : g == 2 ? "call" : "ok";
        want = g != 1;
        if (g == 1)
            wantout = "Result: 9:i32\n";
        break;
    case 6:
        /* a session */
        f = WMF(&m, "", "i", NULL, 0x41, 5);
        wm_export(&m, "f", 0, f);
        image("m", &m);
        argv[argc++] = "--repl";
        argv[argc++] = "--repl-prompt";
        argv[argc++] = "P";
        rt_in = ":load m\n:invoke f\n";
        rt_nin = 18;
        want = 0;
        wantout = "P> P> Result: 5:i32\nP> ";
        break;
    case 7:
        /* cells: the parameters take 3; 6 are plenty */
        f = WMF(&m, "iI", "i", "i", 0x41, 5, 0x22, 2);
        wm_export(&m, "f", 0, f);
        image("m", &m);
        g = sym_choice(7);
        g = g < 3 ? g : g + 3;
        num[0] = (char)('0' + g);
        num[1] = 0;
        argv[argc++] = "--max-stack-cells";
        argv[argc++] = num;
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--invoke";
        argv[argc++] = "f 1 2";
        want = g < 3;
        if (!want)
            wantout = "Result: 5:i32\n";
        break;
    case 8:
        /* the time limit in milliseconds */
        sym_code(c, 1);
        sym_assume(c[0] >= '1' && c[0] <= '9');
        f = WMF(&m, "i", "", NULL, 0x03, 0x40, 0x20, 0, 0x0d, 0, 0x0b);
        wm_export(&m, "f", 0, f);
        image("m", &m);
        num[0] = (char)c[0];
        num[1] = 0;
        argv[argc++] = "--timeout";
        argv[argc++] = num;
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--invoke";
        argv[argc++] = (want = (int)sym_choice(2)) ? "f 1" : "f 0";
        rt_tick = 1000000;
        t0 = rt_now;
        limit = (uint64_t)(c[0] - '0') * 1000000;
        break;
    case 9: {
        /* several dynamically linked modules */
        g = sym_choice(3);
        static const struct dy d = {8, 0, 0, 0};
        for (unsigned i = 0; i < 2; i++) {
            dy_base(&m);
            if (i == 0)
                f = WMF(&m, "", "i", NULL, 0x23, 0, 0x41, 11, 0x36, 0, 0, 0x23,
                        0, 0x28, 0, 0);
            else
                f = WMF(&m, "", "i", NULL, 0x23, 0, 0x28, 0, 0, 0x41, 5, 0x6a);
            wm_export(&m, "f", 0, f);
            dy_obj(i ? "n" : "m", &m, &d);
        }
        if (g != 2)
            argv[argc++] = "--dyld";
        argv[argc++] = "--load";
        argv[argc++] = "m";
        if (g == 2)
            argv[argc++] = "--dyld"; /* too late */
        argv[argc++] = "--invoke";
        argv[argc++] = "f";
        if (g == 1) {
            argv[argc++] = "--load";
            argv[argc++] = "n";
            argv[argc++] = "--invoke";
            argv[argc++] = "f";
        }
        want = g == 2;
        wantout = g == 1   ? "Result: 11:i32\nResult: 5:i32\n"
                  : g == 0 ? "Result: 11:i32\n"
                           : NULL;
        break;
    }
    case 10:
        /* an instantiated module, then the option */
        f = WMF(&m, "", "i", NULL, 0x41, 5);
        wm_export(&m, "f", 0, f);
        image("m", &m);
        argv[argc++] = "--load";
        argv[argc++] = "m";
        argv[argc++] = "--dyld";
        argv[argc++] = "--invoke";
        argv[argc++] = "f";
        want = 1;
        break;
    }
    live0 = rt_live;
    if (sym_param(2, 0)) {
        rt_fail_budget = 1;
        rt_fail_mode = 1;
        sym_expect("failure");
    }
    toywasm_main(argc, argv);
    sym_fail_("main returned");
}

void
harness_main(void)
{
    unsigned a = (unsigned)sym_param(1, 0), b = (unsigned)sym_param(2, 0);
    switch (sym_param(0, 0)) {
    case 0:
        numbers(a, b, (unsigned)sym_param(3, 2));
        break;
    case 1:
        vector(a);
        break;
    case 2:
        refs();
        break;
    case 3:
        names(a);
        break;
    case 4:
        results(a);
        break;
    case 5:
        args();
        break;
    case 6:
        session(a, sym_param(2, 255) == 255 ? -1 : (int)b);
        break;
    case 7:
        loadhex();
        break;
    case 8:
        cmdline(a);
        break;
    case 9:
        failing(a);
        break;
    }
}
