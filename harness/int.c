/*
 * Integer instructions: every i32/i64 numeric instruction, all operand
 * values, through load, validation and execution, against an independent
 * definition.
 */
#include "ops.h"

static uint64_t
sx(uint64_t v, unsigned from)
{
    uint64_t m = 1ull << (from - 1);
    v &= (m << 1) - 1;
    return (v ^ m) - m;
}

/* result in *r; returns -1 or the expected trap */
static int
ref(unsigned op, uint64_t a, uint64_t b, uint64_t *r)
{
    bool w64 = (op >= 0x50 && op <= 0x5a) || (op >= 0x79 && op <= 0x8a) ||
               op == 0xc2 || op == 0xc3 || op == 0xc4;
    unsigned n = w64 ? 64 : 32;
    uint64_t mask = w64 ? ~0ull : 0xffffffffull;
    unsigned k = op;
    if (op >= 0x50 && op <= 0x5a)
        k = op - 0x50 + 0x45;
    else if (op >= 0x79 && op <= 0x8a)
        k = op - 0x79 + 0x67;
    int64_t sa = (int64_t)sx(a, n), sb = (int64_t)sx(b, n);
    uint64_t sh = b & (n - 1);
    uint64_t v = 0;
    switch (op) {
    case 0xa7: *r = a & 0xffffffff; return -1;     /* i32.wrap_i64 */
    case 0xac: *r = sx(a, 32); return -1;          /* i64.extend_i32_s */
    case 0xad: *r = a & 0xffffffff; return -1;     /* i64.extend_i32_u */
    case 0xc0: *r = sx(a, 8) & 0xffffffff; return -1;
    case 0xc1: *r = sx(a, 16) & 0xffffffff; return -1;
    case 0xc2: *r = sx(a, 8); return -1;
    case 0xc3: *r = sx(a, 16); return -1;
    case 0xc4: *r = sx(a, 32); return -1;
    }
    switch (k) {
    case 0x45: v = a == 0; *r = v; return -1;
    case 0x46: *r = a == b; return -1;
    case 0x47: *r = a != b; return -1;
    case 0x48: *r = sa < sb; return -1;
    case 0x49: *r = a < b; return -1;
    case 0x4a: *r = sa > sb; return -1;
    case 0x4b: *r = a > b; return -1;
    case 0x4c: *r = sa <= sb; return -1;
    case 0x4d: *r = a <= b; return -1;
    case 0x4e: *r = sa >= sb; return -1;
    case 0x4f: *r = a >= b; return -1;
    case 0x67: /* clz: position of the highest set bit */
        v = n;
        for (unsigned i = 0; i < n; i++)
            v = (a >> i) & 1 ? n - 1 - i : v;
        break;
    case 0x68: /* ctz */
        v = n;
        for (unsigned i = n; i-- > 0;)
            v = (a >> i) & 1 ? i : v;
        break;
    case 0x69:
        v = 0;
        for (unsigned i = 0; i < n; i++)
            v += (a >> i) & 1;
        break;
    case 0x6a: v = a + b; break;
    case 0x6b: v = a - b; break;
    case 0x6c:
        v = w64 ? a * b : (uint32_t)a * (uint32_t)b;
        break;
    case 0x6d: /* div_s */
        if (b == 0)
            return TRAP_DIV_BY_ZERO;
        if (a == 1ull << (n - 1) && b == mask)
            return TRAP_INTEGER_OVERFLOW;
        v = w64 ? (uint64_t)(sa / sb)
                : (uint32_t)((int32_t)a / (int32_t)b);
        break;
    case 0x6e:
        if (b == 0)
            return TRAP_DIV_BY_ZERO;
        v = w64 ? a / b : (uint32_t)a / (uint32_t)b;
        break;
    case 0x6f: /* rem_s */
        if (b == 0)
            return TRAP_DIV_BY_ZERO;
        if (b == mask)
            v = 0;
        else
            v = w64 ? (uint64_t)(sa % sb)
                    : (uint32_t)((int32_t)a % (int32_t)b);
        break;
    case 0x70:
        if (b == 0)
            return TRAP_DIV_BY_ZERO;
        v = w64 ? a % b : (uint32_t)a % (uint32_t)b;
        break;
    case 0x71: v = a & b; break;
    case 0x72: v = a | b; break;
    case 0x73: v = a ^ b; break;
    case 0x74: v = a << sh; break;
    case 0x75: v = (uint64_t)(sa >> sh); break;
    case 0x76: v = (a & mask) >> sh; break;
    case 0x77:
        v = sh ? (a << sh) | ((a & mask) >> (n - sh)) : a;
        break;
    case 0x78:
        v = sh ? ((a & mask) >> sh) | (a << (n - sh)) : a;
        break;
    default: sym_fail_("harness: bad opcode");
    }
    *r = v & mask;
    return -1;
}

static const char *
sig(unsigned op)
{
    if (op == 0x45 || op == 0xc0 || op == 0xc1 || (op >= 0x67 && op <= 0x69))
        return "i:i";
    if ((op >= 0x46 && op <= 0x4f) || (op >= 0x6a && op <= 0x78))
        return "ii:i";
    if (op == 0x50 || op == 0xa7)
        return "I:i";
    if (op >= 0x51 && op <= 0x5a)
        return "II:i";
    if ((op >= 0x79 && op <= 0x7b) || (op >= 0xc2 && op <= 0xc4))
        return "I:I";
    if (op >= 0x7c && op <= 0x8a)
        return "II:I";
    if (op == 0xac || op == 0xad)
        return "i:I";
    return NULL;
}

static void
split(const char *s, char *p, char *r)
{
    while (*s != ':')
        *p++ = *s++;
    *p = 0;
    s++;
    while (*s)
        *r++ = *s++;
    *r = 0;
}

void
harness_main(void)
{
    /* params: first opcode, number of opcodes */
    unsigned op = (unsigned)sym_param(0, 0x45) +
                  sym_choice((unsigned)sym_param(1, 1));
    const char *s = sig(op);
    if (!s)
        sym_end();
    char p[4], r[4];
    split(s, p, r);
    struct wb w;
    struct wk k;
    uint8_t ob = (uint8_t)op;
    op_module(&w, p, r, &ob, 1);
    wk_must(&k, &w);
    struct val a[2], res;
    memset(a, 0, sizeof(a));
    for (int i = 0; p[i]; i++)
        symval(&a[i], p[i]);
    memset(&res, 0, sizeof(res));
    int ret = wk_call(&k, 0, a, &res);
    uint64_t x = p[0] == 'i' ? a[0].u.i32 : a[0].u.i64;
    uint64_t y = p[0] == 'i' ? a[1].u.i32 : a[1].u.i64;
    uint64_t want = 0;
    sym_expect("result");
    sym_observe((uint64_t)ret);
    int trap = ref(op, x, y, &want);
    if (trap >= 0) {
        sym_reach("trap");
        sym_check(ret == ETOYWASMTRAP, "integer operation traps when it must");
        sym_check(k.trap == trap, "integer operation raises the right trap");
    } else {
        sym_reach("result");
        sym_check(ret == 0, "integer operation does not trap");
        uint64_t got = r[0] == 'i' ? res.u.i32 : res.u.i64;
        sym_observe(got);
        sym_check(got == want, "integer operation result");
    }
    wk_fini(&k);
}
