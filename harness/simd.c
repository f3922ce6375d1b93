/*
 * SIMD instructions against lane by lane definitions.
 * Floating point: one arbitrary lane is symbolic, the others hold fixed
 * distinct values.  Lane-wise integer instructions: two neighbouring lanes.
 * Everything else: all bytes.
 * params: first opcode (after 0xfd), number of opcodes
 */
#include "fpref.h"
#include "ops.h"

typedef uint8_t V[16];

static uint64_t
get(const V v, unsigned lb, unsigned i)
{
    uint64_t r = 0;
    for (unsigned j = 0; j < lb; j++)
        r |= (uint64_t)v[i * lb + j] << (8 * j);
    return r;
}
static void
put(V v, unsigned lb, unsigned i, uint64_t x)
{
    for (unsigned j = 0; j < lb; j++)
        v[i * lb + j] = (uint8_t)(x >> (8 * j));
}
static int64_t
sx(uint64_t v, unsigned lb)
{
    switch (lb) {
    case 1: return (int8_t)v;
    case 2: return (int16_t)v;
    case 4: return (int32_t)v;
    default: return (int64_t)v;
    }
}
static int64_t
sget(const V v, unsigned lb, unsigned i)
{
    return sx(get(v, lb, i), lb);
}
static int64_t
clamp(int64_t v, int64_t lo, int64_t hi)
{
    v = v < lo ? lo : v;
    return v > hi ? hi : v;
}

/* shape of an integer instruction by opcode block */
static unsigned
ilane(unsigned op)
{
    if (op < 128)
        return 1;
    if (op < 160)
        return 2;
    if (op < 192)
        return 4;
    return 8;
}

enum { NONE, CMP, IUN, IBIN, SHIFT, TEST, FUN, FBIN, FCMP, BITS1, BITS2,
       BITS3, SPLAT, EXTRACT, REPLACE, CONST, SHUFFLE, SWIZZLE, NARROW,
       EXTADD, EXTEND, EXTMUL, DOT, BITMASK, ANYTRUE, CONV };

static int
class(unsigned op)
{
    switch (op) {
    case 12: return CONST;
    case 13: return SHUFFLE;
    case 14: return SWIZZLE;
    case 77: return BITS1;
    case 78: case 79: case 80: case 81: return BITS2;
    case 82: return BITS3;
    case 83: return ANYTRUE;
    case 94: case 95: return CONV;
    case 96: case 97: case 98: case 128: case 129: case 160: case 161:
    case 192: case 193: return IUN;
    case 99: case 131: case 163: case 195: return TEST;
    case 100: case 132: case 164: case 196: return BITMASK;
    case 101: case 102: case 133: case 134: return NARROW;
    case 103: case 104: case 105: case 106: case 116: case 117: case 122:
    case 148: return FUN;
    case 107: case 108: case 109: case 139: case 140: case 141: case 171:
    case 172: case 173: case 203: case 204: case 205: return SHIFT;
    case 124: case 125: case 126: case 127: return EXTADD;
    case 186: return DOT;
    case 154: case 162: case 165: case 166: case 175: case 176: case 178:
    case 179: case 180: case 187: case 194: case 197: case 198: case 207:
    case 208: case 210: case 211: case 212: case 226: case 238: return NONE;
    }
    if (op >= 15 && op <= 20)
        return SPLAT;
    if (op >= 21 && op <= 34) {
        switch (op) {
        case 23: case 26: case 28: case 30: case 32: case 34: return REPLACE;
        }
        return EXTRACT;
    }
    if (op >= 35 && op <= 64)
        return CMP;
    if (op >= 65 && op <= 76)
        return FCMP;
    if ((op >= 135 && op <= 138) || (op >= 167 && op <= 170) ||
        (op >= 199 && op <= 202))
        return EXTEND;
    if ((op >= 156 && op <= 159) || (op >= 188 && op <= 191) ||
        (op >= 220 && op <= 223))
        return EXTMUL;
    if (op >= 214 && op <= 219)
        return CMP;
    if (op >= 224 && op <= 247)
        return op == 224 || op == 225 || op == 227 || op == 236 ||
                               op == 237 || op == 239
                       ? FUN
                       : FBIN;
    if (op >= 248 && op <= 255)
        return CONV;
    if (op >= 110 && op <= 213)
        return IBIN;
    return NONE;
}

static uint64_t
cmp(unsigned k, uint64_t a, uint64_t b, unsigned lb)
{
    int64_t sa = sx(a, lb), sb = sx(b, lb);
    switch (k) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return sa < sb;
    case 3: return a < b;
    case 4: return sa > sb;
    case 5: return a > b;
    case 6: return sa <= sb;
    case 7: return a <= b;
    case 8: return sa >= sb;
    default: return a >= b;
    }
}

static uint64_t
ibin(unsigned op, uint64_t a, uint64_t b, unsigned lb)
{
    int64_t sa = sx(a, lb), sb = sx(b, lb);
    int64_t smax = (int64_t)((1ull << (8 * lb - 1)) - 1), smin = -smax - 1;
    uint64_t umax = lb == 8 ? ~0ull : (1ull << (8 * lb)) - 1;
    switch (op) {
    case 110: case 142: case 174: case 206: return a + b;
    case 113: case 145: case 177: case 209: return a - b;
    case 149: return a * b;
    case 181: return (uint32_t)a * (uint32_t)b;
    case 213: return a * b;
    case 111: case 143: return (uint64_t)clamp(sa + sb, smin, smax);
    case 112: case 144: return a + b > umax ? umax : a + b;
    case 114: case 146: return (uint64_t)clamp(sa - sb, smin, smax);
    case 115: case 147: return a < b ? 0 : a - b;
    case 118: case 150: case 182: return sa < sb ? a : b;
    case 119: case 151: case 183: return a < b ? a : b;
    case 120: case 152: case 184: return sa > sb ? a : b;
    case 121: case 153: case 185: return a > b ? a : b;
    case 123: case 155: return (a + b + 1) >> 1;
    case 130: {
        int32_t p = ((int32_t)sa * (int32_t)sb + 0x4000) >> 15;
        p = p < -0x8000 ? -0x8000 : p;
        return (uint64_t)(int64_t)(p > 0x7fff ? 0x7fff : p);
    }
    }
    sym_fail_("harness: ibin");
}

static uint64_t
iun(unsigned op, uint64_t a, unsigned lb)
{
    if (op == 98) {
        unsigned n = 0;
        for (unsigned i = 0; i < 8; i++)
            n += (a >> i) & 1;
        return n;
    }
    if (op == 97 || op == 129 || op == 161 || op == 193)
        return 0 - a;
    return sx(a, lb) < 0 ? 0 - a : a;
}

static struct fmt
ffmt(unsigned op)
{
    if ((op >= 71 && op <= 76) || op == 116 || op == 117 || op == 122 ||
        op == 148 || op >= 236)
        return F64;
    return F32;
}

static uint64_t
fun(unsigned op, struct fmt f, uint64_t a)
{
    switch (op) {
    case 103: case 116: return rnd(f, a, 0);
    case 104: case 117: return rnd(f, a, 1);
    case 105: case 122: return rnd(f, a, 2);
    case 106: case 148: return rnd(f, a, 3);
    case 224: case 236: return a & ~sbit(f);
    case 225: case 237: return a ^ sbit(f);
    case 227: return f2b(__builtin_sqrtf(b2f((uint32_t)a)));
    case 239: return d2b(__builtin_sqrt(b2d(a)));
    }
    sym_fail_("harness: fun");
}
static uint64_t
fbin(unsigned op, struct fmt f, uint64_t a, uint64_t b)
{
    float x = b2f((uint32_t)a), y = b2f((uint32_t)b);
    double X = b2d(a), Y = b2d(b);
    bool un = nan_(f, a) || nan_(f, b);
    switch (op) {
    case 228: return f2b(x + y);
    case 229: return f2b(x - y);
    case 230: return f2b(x * y);
    case 231: return f2b(x / y);
    case 240: return d2b(X + Y);
    case 241: return d2b(X - Y);
    case 242: return d2b(X * Y);
    case 243: return d2b(X / Y);
    case 232: case 244: return fminmax(f, a, b, true);
    case 233: case 245: return fminmax(f, a, b, false);
    case 234: case 246: return !un && less(f, b, a) ? b : a;
    case 235: case 247: return !un && less(f, a, b) ? b : a;
    }
    sym_fail_("harness: fbin");
}

static void
fill(V v, unsigned salt)
{
    /* ordinary distinct values which are normal floats too */
    for (unsigned i = 0; i < 16; i++)
        v[i] = (uint8_t)(i % 4 == 3 ? 0x40 + i / 4 : 0x10 + 7 * i + salt);
}

void
harness_main(void)
{
    unsigned op = (unsigned)sym_param(0, 96) +
                  sym_choice((unsigned)sym_param(1, 1));
    int c = class(op);
    if (c == NONE || (op >= 84 && op <= 93))
        sym_end();
    V a, b, m, want;
    memset(b, 0, 16);
    memset(m, 0, 16);
    memset(want, 0, 16);
    bool fp = c == FUN || c == FBIN || c == FCMP || c == CONV;
    /* which bytes are symbolic */
    unsigned lb = 0;
    struct fmt f = ffmt(op);
    if (fp) {
        lb = f.n / 8;
        if (op == 94 || op == 252 || op == 253)
            lb = 8;
        if (op == 95 || op == 248 || op == 249 || op == 250 || op == 251 ||
            op == 254 || op == 255)
            lb = 4;
        fill(a, 0);
        fill(b, 0x35);
        unsigned i = sym_choice(16 / lb);
        sym_bytes(a + i * lb, lb);
        if (c == FBIN || c == FCMP)
            sym_bytes(b + i * lb, lb);
    } else if (c == CMP || c == IUN || c == IBIN || c == SHIFT ||
               c == NARROW || c == EXTADD || c == EXTEND || c == EXTMUL ||
               c == DOT || c == SWIZZLE) {
        /* two arbitrary neighbouring lanes */
        lb = c == SWIZZLE ? 1
             : c == CMP   ? (op < 45 ? 1 : op < 55 ? 2 : op < 65 ? 4 : 8)
             : c == NARROW ? (op < 128 ? 2 : 4)
             : c == EXTADD ? (op < 126 ? 1 : 2)
             : c == EXTEND || c == EXTMUL ? ilane(op) / 2
             : c == DOT                   ? 2
                                          : ilane(op);
        fill(a, 0);
        fill(b, 0x35);
        unsigned i = sym_choice(16 / lb), j = (i + 1) % (16 / lb);
        if (c == SWIZZLE) {
            sym_bytes(a, 16);
            for (unsigned n = 0; n < 16; n++)
                b[n] = (uint8_t)((n * 7 + 3) % 16);
        } else {
            sym_bytes(a + i * lb, lb);
            sym_bytes(a + j * lb, lb);
        }
        if (op == 130) {
            /* products of two unknowns are hard to compare */
            static const uint16_t t[] = {0, 1, 0xffff, 0x8000, 0x7fff, 0x4000,
                                         0xc001, 0x8001};
            put(b, lb, i, t[sym_choice(8)]);
            put(b, lb, j, 0x8000);
        } else {
            sym_bytes(b + i * lb, lb);
            sym_bytes(b + j * lb, lb);
        }
    } else {
        sym_bytes(a, 16);
        if (c == BITS2 || c == BITS3 || c == SHUFFLE)
            sym_bytes(b, 16);
        if (c == BITS3)
            sym_bytes(m, 16);
    }
    uint64_t sc = 0; /* scalar operand */
    const char *p = "v", *r = "v";
    uint8_t imm[16];
    unsigned nimm = 0;
    switch (c) {
    case CMP: case IBIN: case FBIN: case FCMP: case BITS2: case SWIZZLE:
    case NARROW: case EXTMUL: case DOT: p = "vv"; break;
    case BITS3: p = "vvv"; break;
    case TEST: case BITMASK: case ANYTRUE: r = "i"; break;
    case SHIFT: p = "vi"; sc = sym_u32(); break;
    case SPLAT: {
        static const char *t[] = {"i", "i", "i", "I", "f", "F"};
        p = t[op - 15];
        sc = sym_u64();
        if (p[0] == 'i' || p[0] == 'f')
            sc &= 0xffffffff;
        break;
    }
    case EXTRACT: case REPLACE: {
        static const char *t[] = {"i", "i", "i", "i", "i", "i", "i",
                                  "i", "I", "I", "f", "f", "F", "F"};
        static const char *t2[] = {"vi", "vi", "vi", "vi", "vi", "vi", "vi",
                                   "vi", "vI", "vI", "vf", "vf", "vF", "vF"};
        static const uint8_t lbt[] = {1, 1, 1, 2, 2, 2, 4, 4, 8, 8, 4, 4, 8,
                                      8};
        lb = lbt[op - 21];
        if (c == EXTRACT)
            r = t[op - 21];
        else {
            p = t2[op - 21];
            sc = sym_u64();
            if (p[1] == 'i' || p[1] == 'f')
                sc &= 0xffffffff;
        }
        nimm = 1;
        imm[0] = (uint8_t)sym_choice(16 / lb);
        break;
    }
    case CONST:
        p = "";
        nimm = 16;
        memcpy(imm, a, 16);
        break;
    case SHUFFLE:
        p = "vv";
        nimm = 16;
        for (unsigned i = 0; i < 16; i++)
            imm[i] = (uint8_t)((i * 11 + 5) % 32);
        for (unsigned i = sym_choice(16), j = 0; j < 2; j++, i = (i + 1) % 16) {
            imm[i] = sym_u8();
            sym_assume(imm[i] < 32);
        }
        break;
    }
    uint8_t ob[24];
    unsigned on = 0;
    ob[on++] = 0xfd;
    ob[on++] = (uint8_t)(op >= 128 ? (op & 0x7f) | 0x80 : op);
    if (op >= 128)
        ob[on++] = 1;
    for (unsigned i = 0; i < nimm; i++)
        ob[on++] = imm[i];
    struct wb w;
    struct wk k;
    op_module(&w, p, r, ob, on);
    wk_must(&k, &w);
    struct val av[3], res;
    memset(av, 0, sizeof(av));
    memset(&res, 0, sizeof(res));
    const uint8_t *src[3] = {a, b, m};
    for (unsigned i = 0; p[i]; i++) {
        if (p[i] == 'v')
            memcpy(&av[i].u.v128, src[i], 16);
        else if (p[i] == 'i' || p[i] == 'f')
            av[i].u.i32 = (uint32_t)sc;
        else
            av[i].u.i64 = sc;
    }
    int ret = wk_call(&k, 0, av, &res);
    sym_expect("result");
    sym_reach("result");
    sym_check(ret == 0, "SIMD instruction does not trap");
    uint64_t wsc = 0;
    switch (c) {
    case CMP: {
        unsigned kk;
        if (op >= 214) {
            static const uint8_t t[] = {0, 1, 2, 4, 6, 8};
            lb = 8;
            kk = t[op - 214];
        } else {
            lb = op < 45 ? 1 : op < 55 ? 2 : 4;
            kk = (op - 35) % 10;
        }
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i,
                cmp(kk, get(a, lb, i), get(b, lb, i), lb) ? ~0ull : 0);
        break;
    }
    case IUN:
        lb = ilane(op);
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i, iun(op, get(a, lb, i), lb));
        break;
    case IBIN:
        lb = ilane(op);
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i, ibin(op, get(a, lb, i), get(b, lb, i), lb));
        break;
    case SHIFT: {
        lb = ilane(op);
        unsigned n = (unsigned)sc & (8 * lb - 1);
        unsigned kind = (op - (lb == 1   ? 107
                               : lb == 2 ? 139
                               : lb == 4 ? 171
                                         : 203));
        for (unsigned i = 0; i < 16 / lb; i++) {
            uint64_t x = get(a, lb, i);
            put(want, lb, i,
                kind == 0   ? x << n
                : kind == 1 ? (uint64_t)(sx(x, lb) >> n)
                            : x >> n);
        }
        break;
    }
    case TEST:
        lb = ilane(op);
        wsc = 1;
        for (unsigned i = 0; i < 16 / lb; i++)
            wsc &= get(a, lb, i) != 0;
        break;
    case ANYTRUE:
        for (unsigned i = 0; i < 16; i++)
            wsc |= a[i] != 0;
        break;
    case BITMASK:
        lb = ilane(op);
        for (unsigned i = 0; i < 16 / lb; i++)
            wsc |= (get(a, lb, i) >> (8 * lb - 1)) << i;
        break;
    case FUN:
        lb = f.n / 8;
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i, fun(op, f, get(a, lb, i)));
        break;
    case FBIN:
        lb = f.n / 8;
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i, fbin(op, f, get(a, lb, i), get(b, lb, i)));
        break;
    case FCMP:
        lb = f.n / 8;
        for (unsigned i = 0; i < 16 / lb; i++) {
            uint64_t x = get(a, lb, i), y = get(b, lb, i);
            bool un = nan_(f, x) || nan_(f, y);
            bool v;
            switch (op - (op >= 71 ? 71 : 65)) {
            case 0: v = !un && equal(f, x, y); break;
            case 1: v = un || !equal(f, x, y); break;
            case 2: v = !un && less(f, x, y); break;
            case 3: v = !un && less(f, y, x); break;
            case 4: v = !un && !less(f, y, x); break;
            default: v = !un && !less(f, x, y); break;
            }
            put(want, lb, i, v ? ~0ull : 0);
        }
        break;
    case BITS1:
        for (unsigned i = 0; i < 16; i++)
            want[i] = (uint8_t)~a[i];
        break;
    case BITS2:
        for (unsigned i = 0; i < 16; i++)
            want[i] = op == 78   ? a[i] & b[i]
                      : op == 79 ? a[i] & (uint8_t)~b[i]
                      : op == 80 ? a[i] | b[i]
                                 : a[i] ^ b[i];
        break;
    case BITS3:
        for (unsigned i = 0; i < 16; i++)
            want[i] = (uint8_t)((a[i] & m[i]) | (b[i] & ~m[i]));
        break;
    case SPLAT:
        lb = op == 15 ? 1 : op == 16 ? 2 : op == 17 || op == 19 ? 4 : 8;
        for (unsigned i = 0; i < 16 / lb; i++)
            put(want, lb, i, sc);
        break;
    case EXTRACT:
        wsc = op == 21 || op == 24 ? (uint64_t)sget(a, lb, imm[0])
                                   : get(a, lb, imm[0]);
        break;
    case REPLACE:
        memcpy(want, a, 16);
        put(want, lb, imm[0], sc);
        break;
    case CONST:
        memcpy(want, a, 16);
        break;
    case SHUFFLE:
        for (unsigned i = 0; i < 16; i++) {
            uint8_t v = 0;
            for (unsigned j = 0; j < 16; j++) {
                v = imm[i] == j ? a[j] : v;
                v = imm[i] == 16 + j ? b[j] : v;
            }
            want[i] = v;
        }
        break;
    case SWIZZLE:
        for (unsigned i = 0; i < 16; i++) {
            uint8_t v = 0;
            for (unsigned j = 0; j < 16; j++)
                v = b[i] == j ? a[j] : v;
            want[i] = v;
        }
        break;
    case NARROW: {
        unsigned from = op < 128 ? 2 : 4, to = from / 2;
        bool sgn = op == 101 || op == 133;
        int64_t lo = sgn ? -(1ll << (8 * to - 1)) : 0;
        int64_t hi = sgn ? (1ll << (8 * to - 1)) - 1 : (1ll << (8 * to)) - 1;
        unsigned n = 16 / from;
        for (unsigned i = 0; i < n; i++) {
            put(want, to, i, (uint64_t)clamp(sget(a, from, i), lo, hi));
            put(want, to, n + i, (uint64_t)clamp(sget(b, from, i), lo, hi));
        }
        break;
    }
    case EXTADD: {
        unsigned from = op < 126 ? 1 : 2;
        bool sgn = op == 124 || op == 126;
        for (unsigned i = 0; i < 16 / from / 2; i++)
            put(want, from * 2, i,
                sgn ? (uint64_t)(sget(a, from, 2 * i) +
                                 sget(a, from, 2 * i + 1))
                    : get(a, from, 2 * i) + get(a, from, 2 * i + 1));
        break;
    }
    case EXTEND: {
        unsigned to = ilane(op), from = to / 2;
        unsigned kk = op - (to == 2 ? 135 : to == 4 ? 167 : 199);
        unsigned base = kk & 1 ? 16 / to : 0;
        for (unsigned i = 0; i < 16 / to; i++)
            put(want, to, i,
                kk < 2 ? (uint64_t)sget(a, from, base + i)
                       : get(a, from, base + i));
        break;
    }
    case EXTMUL: {
        unsigned to = ilane(op), from = to / 2;
        unsigned kk = op - (to == 2 ? 156 : to == 4 ? 188 : 220);
        unsigned base = kk & 1 ? 16 / to : 0;
        for (unsigned i = 0; i < 16 / to; i++) {
            if (to == 8)
                put(want, to, i,
                    kk < 2 ? (uint64_t)(sget(a, from, base + i) *
                                        sget(b, from, base + i))
                           : get(a, from, base + i) *
                                     get(b, from, base + i));
            else
                put(want, to, i,
                    kk < 2 ? (uint32_t)((int32_t)sget(a, from, base + i) *
                                        (int32_t)sget(b, from, base + i))
                           : (uint32_t)get(a, from, base + i) *
                                     (uint32_t)get(b, from, base + i));
        }
        break;
    }
    case DOT:
        for (unsigned i = 0; i < 4; i++) {
            uint32_t x = (uint32_t)((int32_t)sget(a, 2, 2 * i) *
                                    (int32_t)sget(b, 2, 2 * i));
            uint32_t y = (uint32_t)((int32_t)sget(a, 2, 2 * i + 1) *
                                    (int32_t)sget(b, 2, 2 * i + 1));
            put(want, 4, i, x + y);
        }
        break;
    case CONV:
        switch (op) {
        case 94:
            for (unsigned i = 0; i < 2; i++)
                put(want, 4, i, f2b((float)b2d(get(a, 8, i))));
            break;
        case 95:
            for (unsigned i = 0; i < 2; i++)
                put(want, 8, i, d2b((double)b2f((uint32_t)get(a, 4, i))));
            break;
        case 248: case 249:
            for (unsigned i = 0; i < 4; i++)
                put(want, 4, i, tointsat(F32, get(a, 4, i), 32, op == 248));
            break;
        case 252: case 253:
            for (unsigned i = 0; i < 2; i++)
                put(want, 4, i, tointsat(F64, get(a, 8, i), 32, op == 252));
            break;
        case 250:
            for (unsigned i = 0; i < 4; i++)
                put(want, 4, i, f2b((float)(int32_t)get(a, 4, i)));
            break;
        case 251:
            for (unsigned i = 0; i < 4; i++)
                put(want, 4, i, f2b((float)(uint32_t)get(a, 4, i)));
            break;
        case 254:
            for (unsigned i = 0; i < 2; i++)
                put(want, 8, i, d2b((double)(int32_t)get(a, 4, i)));
            break;
        case 255:
            for (unsigned i = 0; i < 2; i++)
                put(want, 8, i, d2b((double)(uint32_t)get(a, 4, i)));
            break;
        }
        break;
    }
    if (r[0] != 'v') {
        uint64_t got = r[0] == 'i' || r[0] == 'f' ? res.u.i32 : res.u.i64;
        if (r[0] == 'i' || r[0] == 'f')
            wsc &= 0xffffffff;
        sym_observe(got);
        sym_check(got == wsc, "scalar result of a SIMD instruction");
    } else {
        const uint8_t *g = (const uint8_t *)&res.u.v128;
        struct fmt rf = f;
        bool fr = (c == FUN && op != 224 && op != 225 && op != 236 &&
                   op != 237) ||
                  (c == FBIN && op != 234 && op != 235 && op != 246 &&
                   op != 247);
        if (op == 94 || op == 250 || op == 251)
            fr = true, rf = F32;
        if (op == 95 || op == 254 || op == 255)
            fr = true, rf = F64;
        if (fr) {
            unsigned l = rf.n / 8;
            for (unsigned i = 0; i < 16 / l; i++) {
                uint64_t x = get(g, l, i), y = get(want, l, i);
                sym_check(x == y || (nan_(rf, x) && nan_(rf, y)),
                          "float lane of a SIMD result");
                sym_observe(nan_(rf, x) ? 1 : x);
            }
        } else {
            for (unsigned i = 0; i < 16; i++) {
                sym_check(g[i] == want[i], "lane of a SIMD result");
                sym_observe(g[i]);
            }
        }
    }
    wk_fini(&k);
}
