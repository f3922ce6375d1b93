/*
 * Floating-point instructions and conversions, all operand bit patterns.
 * params: first opcode, number of opcodes; 0xfcNN for the saturating
 * conversions.
 */
#include "fpref.h"
#include "ops.h"

struct sig {
    const char *p;
    char r;
};
static bool
sig(unsigned op, struct sig *s)
{
    s->p = NULL;
    if (op >= 0x5b && op <= 0x60)
        s->p = "ff", s->r = 'i';
    else if (op >= 0x61 && op <= 0x66)
        s->p = "FF", s->r = 'i';
    else if (op >= 0x8b && op <= 0x91)
        s->p = "f", s->r = 'f';
    else if (op >= 0x92 && op <= 0x98)
        s->p = "ff", s->r = 'f';
    else if (op >= 0x99 && op <= 0x9f)
        s->p = "F", s->r = 'F';
    else if (op >= 0xa0 && op <= 0xa6)
        s->p = "FF", s->r = 'F';
    else
        switch (op) {
        case 0xa8: case 0xa9: case 0xbc: s->p = "f"; s->r = 'i'; break;
        case 0xaa: case 0xab: s->p = "F"; s->r = 'i'; break;
        case 0xae: case 0xaf: s->p = "f"; s->r = 'I'; break;
        case 0xb0: case 0xb1: case 0xbd: s->p = "F"; s->r = 'I'; break;
        case 0xb2: case 0xb3: case 0xbe: s->p = "i"; s->r = 'f'; break;
        case 0xb4: case 0xb5: s->p = "I"; s->r = 'f'; break;
        case 0xb6: s->p = "F"; s->r = 'f'; break;
        case 0xb7: case 0xb8: s->p = "i"; s->r = 'F'; break;
        case 0xb9: case 0xba: case 0xbf: s->p = "I"; s->r = 'F'; break;
        case 0xbb: s->p = "f"; s->r = 'F'; break;
        case 0xfc00: case 0xfc01: s->p = "f"; s->r = 'i'; break;
        case 0xfc02: case 0xfc03: s->p = "F"; s->r = 'i'; break;
        case 0xfc04: case 0xfc05: s->p = "f"; s->r = 'I'; break;
        case 0xfc06: case 0xfc07: s->p = "F"; s->r = 'I'; break;
        }
    return s->p != NULL;
}

enum { EXACT, FLOAT };

/* expected bits; *cls: EXACT or FLOAT (equal modulo NaN payload) */
static int
ref(unsigned op, uint64_t a, uint64_t b, uint64_t *r, int *cls)
{
    *cls = EXACT;
    struct fmt f = F32;
    unsigned k = op;
    bool d = (op >= 0x61 && op <= 0x66) || (op >= 0x99 && op <= 0xa6);
    if (op >= 0x61 && op <= 0x66)
        k = op - 6;
    else if (op >= 0x99 && op <= 0xa6)
        k = op - 14;
    if (d)
        f = F64;
    bool un = nan_(f, a) || nan_(f, b);
    switch (k) {
    case 0x5b: *r = !un && equal(f, a, b); return -1;
    case 0x5c: *r = un || !equal(f, a, b); return -1;
    case 0x5d: *r = !un && less(f, a, b); return -1;
    case 0x5e: *r = !un && less(f, b, a); return -1;
    case 0x5f: *r = !un && (less(f, a, b) || equal(f, a, b)); return -1;
    case 0x60: *r = !un && (less(f, b, a) || equal(f, a, b)); return -1;
    case 0x8b: *r = a & ~sbit(f); return -1;
    case 0x8c: *r = a ^ sbit(f); return -1;
    case 0x98: *r = (a & ~sbit(f)) | (b & sbit(f)); return -1;
    case 0x8d: *cls = FLOAT; *r = rnd(f, a, 0); return -1;
    case 0x8e: *cls = FLOAT; *r = rnd(f, a, 1); return -1;
    case 0x8f: *cls = FLOAT; *r = rnd(f, a, 2); return -1;
    case 0x90: *cls = FLOAT; *r = rnd(f, a, 3); return -1;
    case 0x91:
        *cls = FLOAT;
        *r = d ? d2b(__builtin_sqrt(b2d(a)))
               : f2b(__builtin_sqrtf(b2f((uint32_t)a)));
        return -1;
    case 0x92:
        *cls = FLOAT;
        *r = d ? d2b(b2d(a) + b2d(b))
               : f2b(b2f((uint32_t)a) + b2f((uint32_t)b));
        return -1;
    case 0x93:
        *cls = FLOAT;
        *r = d ? d2b(b2d(a) - b2d(b))
               : f2b(b2f((uint32_t)a) - b2f((uint32_t)b));
        return -1;
    case 0x94:
        *cls = FLOAT;
        *r = d ? d2b(b2d(a) * b2d(b))
               : f2b(b2f((uint32_t)a) * b2f((uint32_t)b));
        return -1;
    case 0x95:
        *cls = FLOAT;
        *r = d ? d2b(b2d(a) / b2d(b))
               : f2b(b2f((uint32_t)a) / b2f((uint32_t)b));
        return -1;
    case 0x96: /* min */
    case 0x97:
        *cls = FLOAT;
        *r = fminmax(f, a, b, k == 0x96);
        return -1;
    }
    struct fmt src = F32;
    unsigned bits = 32;
    bool sgn = false, sat = false;
    uint64_t v = 0;
    bool neg;
    switch (op) {
    case 0xa8: sgn = true; break;
    case 0xa9: break;
    case 0xaa: sgn = true; src = F64; break;
    case 0xab: src = F64; break;
    case 0xae: sgn = true; bits = 64; break;
    case 0xaf: bits = 64; break;
    case 0xb0: sgn = true; src = F64; bits = 64; break;
    case 0xb1: src = F64; bits = 64; break;
    case 0xfc00: sat = true; sgn = true; break;
    case 0xfc01: sat = true; break;
    case 0xfc02: sat = true; sgn = true; src = F64; break;
    case 0xfc03: sat = true; src = F64; break;
    case 0xfc04: sat = true; sgn = true; bits = 64; break;
    case 0xfc05: sat = true; bits = 64; break;
    case 0xfc06: sat = true; sgn = true; src = F64; bits = 64; break;
    case 0xfc07: sat = true; src = F64; bits = 64; break;
    case 0xb2: *cls = FLOAT; *r = f2b((float)(int32_t)a); return -1;
    case 0xb3: *cls = FLOAT; *r = f2b((float)(uint32_t)a); return -1;
    case 0xb4: *cls = FLOAT; *r = f2b((float)(int64_t)a); return -1;
    case 0xb5: *cls = FLOAT; *r = f2b((float)a); return -1;
    case 0xb6: *cls = FLOAT; *r = f2b((float)b2d(a)); return -1;
    case 0xb7: *cls = FLOAT; *r = d2b((double)(int32_t)a); return -1;
    case 0xb8: *cls = FLOAT; *r = d2b((double)(uint32_t)a); return -1;
    case 0xb9: *cls = FLOAT; *r = d2b((double)(int64_t)a); return -1;
    case 0xba: *cls = FLOAT; *r = d2b((double)a); return -1;
    case 0xbb: *cls = FLOAT; *r = d2b((double)b2f((uint32_t)a)); return -1;
    case 0xbc: case 0xbd: case 0xbe: case 0xbf: *r = a; return -1;
    default: sym_fail_("harness: opcode");
    }
    if (sat) {
        *r = tointsat(src, a, bits, sgn);
        return -1;
    }
    int c = toint(src, a, bits, sgn, &v, &neg);
    if (c == 0) {
        *r = v;
        return -1;
    }
    return c == 2 ? TRAP_INVALID_CONVERSION_TO_INTEGER
                  : TRAP_INTEGER_OVERFLOW;
}

void
harness_main(void)
{
    unsigned op = (unsigned)sym_param(0, 0x8b) +
                  sym_choice((unsigned)sym_param(1, 1));
    struct sig s;
    if (!sig(op, &s))
        sym_end();
    uint8_t ob[2] = {(uint8_t)op, 0};
    unsigned on = 1;
    if (op >= 0xfc00) {
        ob[0] = 0xfc;
        ob[1] = (uint8_t)op;
        on = 2;
    }
    char rr[2] = {s.r, 0};
    struct wb w;
    struct wk k;
    op_module(&w, s.p, rr, ob, on);
    wk_must(&k, &w);
    struct val a[2], res;
    memset(a, 0, sizeof(a));
    for (int i = 0; s.p[i]; i++)
        symval(&a[i], s.p[i]);
    memset(&res, 0, sizeof(res));
    int ret = wk_call(&k, 0, a, &res);
    uint64_t x[2];
    for (int i = 0; i < 2; i++)
        x[i] = s.p[0] == 'f' || s.p[0] == 'i' ? a[i].u.i32 : a[i].u.i64;
    uint64_t want = 0;
    int cls;
    int trap = ref(op, x[0], x[1], &want, &cls);
    sym_expect("result");
    sym_observe((uint64_t)ret);
    if (trap >= 0) {
        sym_check(ret == ETOYWASMTRAP, "conversion traps when it must");
        sym_check(k.trap == trap, "conversion raises the right trap");
    } else {
        sym_check(ret == 0, "float operation does not trap");
        sym_reach("result");
        uint64_t got = s.r == 'i' || s.r == 'f' ? res.u.i32 : res.u.i64;
        if (cls == FLOAT) {
            struct fmt f = s.r == 'f' ? F32 : F64;
            bool n1 = nan_(f, got), n2 = nan_(f, want);
            sym_check(got == want || (n1 && n2), "float result");
            sym_observe(n1 ? 1 : got);
        } else {
            sym_check(got == want, "exact result");
            sym_observe(got);
        }
    }
    wk_fini(&k);
}
