#include "expr.h"

#include <algorithm>
#include <cassert>
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>

std::vector<unsigned> g_varwidth;

static std::vector<E> g_table;
static size_t g_count;
static uint32_t g_nextid;

static inline uint64_t
mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

size_t
expr_count()
{
    return g_count;
}

static void
rehash()
{
    size_t n = g_table.empty() ? (1 << 16) : g_table.size() * 2;
    std::vector<E> t(n, nullptr);
    for (E e : g_table) {
        if (!e)
            continue;
        size_t i = e->hash & (n - 1);
        while (t[i])
            i = (i + 1) & (n - 1);
        t[i] = e;
    }
    g_table.swap(t);
}

static E
intern(Op op, unsigned w, uint32_t a, E k0, E k1, E k2, u128 c)
{
    assert(w >= 1 && w <= 128);
    if (g_count * 2 >= g_table.size())
        rehash();
    uint64_t h = mix(op, w);
    h = mix(h, a);
    h = mix(h, k0 ? k0->id + 1 : 0);
    h = mix(h, k1 ? k1->id + 1 : 0);
    h = mix(h, k2 ? k2->id + 1 : 0);
    h = mix(h, (uint64_t)c);
    h = mix(h, (uint64_t)(c >> 64));
    size_t n = g_table.size();
    size_t i = h & (n - 1);
    while (g_table[i]) {
        E e = g_table[i];
        if (e->hash == h && e->op == op && e->w == w && e->a == a &&
            e->k[0] == k0 && e->k[1] == k1 && e->k[2] == k2 && e->c == c)
            return e;
        i = (i + 1) & (n - 1);
    }
    Expr *e = new Expr();
    e->op = op;
    e->w = w;
    e->a = a;
    e->id = g_nextid++;
    e->hash = h;
    e->k[0] = k0;
    e->k[1] = k1;
    e->k[2] = k2;
    e->c = c;
    e->stamp = 0;
    e->vars = nullptr;
    e->z3 = nullptr;
    g_table[i] = e;
    g_count++;
    return e;
}

E
mkc(u128 v, unsigned w)
{
    return intern(O_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w));
}

E
mkvar(uint32_t idx, unsigned w)
{
    if (g_varwidth.size() <= idx)
        g_varwidth.resize(idx + 1);
    g_varwidth[idx] = w;
    return intern(O_VAR, w, idx, nullptr, nullptr, nullptr, 0);
}

static inline s128
sx(u128 v, unsigned w)
{
    if (w == 128)
        return (s128)v;
    u128 sb = (u128)1 << (w - 1);
    return (s128)((v ^ sb) - sb);
}

static u128
foldbin(Op op, unsigned w, u128 x, u128 y)
{
    u128 m = maskw(w);
    switch (op) {
    case O_ADD: return (x + y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y == 0 ? m : x / y;
    case O_UREM: return y == 0 ? x : x % y;
    case O_SDIV: {
        s128 a = sx(x, w), b = sx(y, w);
        if (b == 0)
            return a >= 0 ? m : 1;
        if (b == -1)
            return (u128)(-(u128)a) & m;
        return (u128)(a / b) & m;
    }
    case O_SREM: {
        s128 a = sx(x, w), b = sx(y, w);
        if (b == 0)
            return x;
        if (b == -1)
            return 0;
        return (u128)(a % b) & m;
    }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
    case O_LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case O_ASHR: {
        s128 a = sx(x, w);
        unsigned s = y >= w ? w - 1 : (unsigned)y;
        return (u128)(a >> s) & m;
    }
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_SLT: return sx(x, w) < sx(y, w);
    default: abort();
    }
}

static float
asf(u128 x)
{
    uint32_t u = (uint32_t)x;
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static double
asd(u128 x)
{
    uint64_t u = (uint64_t)x;
    double f;
    memcpy(&f, &u, 8);
    return f;
}
static u128
fromf(float f)
{
    if (f != f)
        return 0x7fc00000u;
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}
static u128
fromd(double f)
{
    if (f != f)
        return 0x7ff8000000000000ull;
    uint64_t u;
    memcpy(&u, &f, 8);
    return u;
}

template <typename T>
static T
rnd(T x, uint32_t a)
{
    switch (a) {
    case 0: return std::floor(x);
    case 1: return std::ceil(x);
    case 2: return std::trunc(x);
    default: return std::nearbyint(x);
    }
}

u128
foldf(Op op, unsigned w, uint32_t a, u128 x, unsigned xw, u128 y)
{
    switch (op) {
    case O_FADD:
    case O_FSUB:
    case O_FMUL:
    case O_FDIV:
    case O_FSQRT:
    case O_FRND:
        if (w == 32) {
            volatile float p = asf(x), q = asf(y), r;
            switch (op) {
            case O_FADD: r = p + q; break;
            case O_FSUB: r = p - q; break;
            case O_FMUL: r = p * q; break;
            case O_FDIV: r = p / q; break;
            case O_FSQRT: r = std::sqrt((float)p); break;
            default: r = rnd((float)p, a); break;
            }
            return fromf(r);
        } else {
            volatile double p = asd(x), q = asd(y), r;
            switch (op) {
            case O_FADD: r = p + q; break;
            case O_FSUB: r = p - q; break;
            case O_FMUL: r = p * q; break;
            case O_FDIV: r = p / q; break;
            case O_FSQRT: r = std::sqrt((double)p); break;
            default: r = rnd((double)p, a); break;
            }
            return fromd(r);
        }
    case O_FCVT:
        if (xw == 32)
            return fromd((double)asf(x));
        return fromf((float)asd(x));
    case O_S2F: {
        int64_t v = (int64_t)sx(x, xw);
        return w == 32 ? fromf((float)v) : fromd((double)v);
    }
    case O_U2F: {
        uint64_t v = (uint64_t)x;
        return w == 32 ? fromf((float)v) : fromd((double)v);
    }
    case O_F2S: {
        double v = xw == 32 ? (double)asf(x) : asd(x);
        if (!(v >= -9223372036854775808.0 && v < 9223372036854775808.0))
            return (u128)1 << (w - 1);
        return (u128)(s128)(int64_t)v & maskw(w);
    }
    case O_F2U: {
        double v = xw == 32 ? (double)asf(x) : asd(x);
        if (!(v > -1.0 && v < 18446744073709551616.0))
            return maskw(w);
        return (u128)(uint64_t)v & maskw(w);
    }
    default: abort();
    }
}

u128
umax(E e, int depth)
{
    switch (e->op) {
    case O_CONST: return e->c;
    case O_ZEXT: return umax(e->k[0], depth);
    case O_CONCAT:
        if (depth > 0)
            return (umax(e->k[0], depth - 1) << e->k[1]->w) |
                   umax(e->k[1], depth - 1);
        break;
    case O_AND:
        if (depth > 0)
            return std::min(umax(e->k[0], depth - 1),
                            umax(e->k[1], depth - 1));
        break;
    case O_ITE:
        if (depth > 0)
            return std::max(umax(e->k[1], depth - 1),
                            umax(e->k[2], depth - 1));
        break;
    case O_UDIV:
        if (isc(e->k[1]) && e->k[1]->c != 0 && depth > 0)
            return umax(e->k[0], depth - 1) / e->k[1]->c;
        break;
    case O_UREM:
        if (isc(e->k[1]) && e->k[1]->c != 0)
            return e->k[1]->c - 1;
        break;
    case O_ADD:
        if (depth > 0) {
            u128 a = umax(e->k[0], depth - 1), b = umax(e->k[1], depth - 1);
            u128 m = maskw(e->w);
            if (a <= m - b)
                return a + b;
        }
        break;
    case O_MUL:
        if (depth > 0 && e->w <= 64) {
            u128 a = umax(e->k[0], depth - 1), b = umax(e->k[1], depth - 1);
            if (a <= 0xffffffffffffffffull && b <= 0xffffffffffffffffull &&
                (a == 0 || b <= maskw(e->w) / a))
                return a * b;
        }
        break;
    default: break;
    }
    return maskw(e->w);
}

static bool
commut(Op op)
{
    switch (op) {
    case O_ADD:
    case O_MUL:
    case O_AND:
    case O_OR:
    case O_XOR:
    case O_EQ: return true;
    default: return false;
    }
}

/* split point for bitwise operations, 0 if none */
static unsigned
splitpoint(E a)
{
    if (a->op == O_CONCAT)
        return a->k[1]->w;
    if (a->op == O_ZEXT)
        return a->k[0]->w;
    return 0;
}

static unsigned
lowones(u128 c, unsigned w)
{
    unsigned n = 0;
    while (n < w && (c & 1)) {
        c >>= 1;
        n++;
    }
    return n;
}

static bool
isnotof(E a, E b)
{
    return (a->op == O_XOR && isc(a->k[1]) && a->k[1]->c == maskw(a->w) &&
            a->k[0] == b) ||
           (b->op == O_XOR && isc(b->k[1]) && b->k[1]->c == maskw(b->w) &&
            b->k[0] == a);
}

E
mkbin(Op op, E a, E b)
{
    unsigned w = a->w;
    assert(a->w == b->w);
    unsigned rw = (op == O_EQ || op == O_ULT || op == O_SLT) ? 1 : w;
    if (isc(a) && isc(b))
        return mkc(foldbin(op, w, a->c, b->c), rw);
    if (commut(op)) {
        if (isc(a) || (!isc(b) && a->id > b->id))
            std::swap(a, b);
    }
    switch (op) {
    case O_ADD:
        if (isc(b)) {
            if (b->c == 0)
                return a;
            if (a->op == O_ADD && isc(a->k[1]))
                return mkbin(O_ADD, a->k[0],
                             mkc(a->k[1]->c + b->c, w));
            if (w == 1)
                return mkbin(O_XOR, a, b);
            if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2]))
                return mkite(a->k[0], mkbin(O_ADD, a->k[1], b),
                             mkbin(O_ADD, a->k[2], b));
        } else {
            /* keep constants outermost */
            if (a->op == O_ADD && isc(a->k[1]))
                return mkbin(O_ADD, mkbin(O_ADD, a->k[0], b), a->k[1]);
            if (b->op == O_ADD && isc(b->k[1]))
                return mkbin(O_ADD, mkbin(O_ADD, a, b->k[0]), b->k[1]);
            /* x + (-x) where -x = MUL(x, -1) */
            if (b->op == O_MUL && isc(b->k[1]) &&
                b->k[1]->c == maskw(w) && b->k[0] == a)
                return mkc(0, w);
            if (a->op == O_MUL && isc(a->k[1]) &&
                a->k[1]->c == maskw(w) && a->k[0] == b)
                return mkc(0, w);
            /* (x / c) * c + x % c */
            for (int s = 0; s < 2; s++) {
                E p = s ? b : a, q = s ? a : b;
                if (p->op == O_MUL && p->k[0]->op == O_UDIV &&
                    q->op == O_UREM && p->k[1] == q->k[1] &&
                    p->k[0]->k[1] == q->k[1] && p->k[0]->k[0] == q->k[0])
                    return q->k[0];
            }
            /* (x + y) + (-y) */
            for (int s = 0; s < 2; s++) {
                E p = s ? b : a, q = s ? a : b;
                if (q->op == O_MUL && isc(q->k[1]) &&
                    q->k[1]->c == maskw(w) && p->op == O_ADD) {
                    if (p->k[0] == q->k[0])
                        return p->k[1];
                    if (p->k[1] == q->k[0])
                        return p->k[0];
                }
                /* (x + y * c) + y * -c */
                if (q->op == O_MUL && isc(q->k[1]) && p->op == O_ADD)
                    for (int i = 0; i < 2; i++) {
                        E m = p->k[i];
                        if (m->op == O_MUL && isc(m->k[1]) &&
                            m->k[0] == q->k[0] &&
                            ((m->k[1]->c + q->k[1]->c) & maskw(w)) == 0)
                            return p->k[1 - i];
                    }
            }
        }
        break;
    case O_MUL:
        if (isc(b)) {
            if (b->c == 0)
                return b;
            if (b->c == 1)
                return a;
            if (a->op == O_MUL && isc(a->k[1]))
                return mkbin(O_MUL, a->k[0], mkc(a->k[1]->c * b->c, w));
            if (b->c != maskw(w)) {
                u128 c = b->c;
                if ((c & (c - 1)) == 0) {
                    unsigned s = 0;
                    while (!(c & 1)) {
                        c >>= 1;
                        s++;
                    }
                    return mkbin(O_SHL, a, mkc(s, w));
                }
                if (a->op == O_ADD && isc(a->k[1]))
                    return mkbin(O_ADD, mkbin(O_MUL, a->k[0], b),
                                 mkc(a->k[1]->c * b->c, w));
            } else {
                if (a->op == O_ADD && isc(a->k[1]))
                    return mkbin(O_ADD, mkbin(O_MUL, a->k[0], b),
                                 mkc(-a->k[1]->c, w));
            }
            if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2]))
                return mkite(a->k[0], mkbin(O_MUL, a->k[1], b),
                             mkbin(O_MUL, a->k[2], b));
        }
        break;
    case O_UDIV:
        if (isc(b)) {
            if (b->c == 1)
                return a;
            u128 c = b->c;
            if (c && (c & (c - 1)) == 0) {
                unsigned s = 0;
                while (!(c & 1)) {
                    c >>= 1;
                    s++;
                }
                return mkbin(O_LSHR, a, mkc(s, w));
            }
        }
        break;
    case O_UREM:
        if (isc(b)) {
            u128 c = b->c;
            if (c && (c & (c - 1)) == 0)
                return mkbin(O_AND, a, mkc(c - 1, w));
        }
        break;
    case O_SDIV:
    case O_SREM:
        if (isc(b) && b->c && w > 1 && !(b->c >> (w - 1)) &&
            !(umax(a) >> (w - 1)))
            return mkbin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
        break;
    case O_AND:
        if (a == b)
            return a;
        if (isc(b)) {
            if (b->c == 0)
                return b;
            if (b->c == maskw(w))
                return a;
            if (a->op == O_AND && isc(a->k[1]))
                return mkbin(O_AND, a->k[0], mkc(a->k[1]->c & b->c, w));
            /* contiguous mask -> concat/extract form */
            unsigned tz = 0;
            u128 c = b->c;
            while (!(c & 1)) {
                c >>= 1;
                tz++;
            }
            unsigned n = lowones(c, w - tz);
            if ((c >> n) == 0) {
                E mid = mkextract(a, tz, n);
                if (tz)
                    mid = mkconcat(mid, mkc(0, tz));
                return mkzext(mid, w);
            }
        }
        if (w == 1 && isnotof(a, b))
            return mkc(0, 1);
        goto bitwise;
    case O_OR:
        if (a == b)
            return a;
        if (isc(b)) {
            if (b->c == 0)
                return a;
            if (b->c == maskw(w))
                return b;
        }
        if (w == 1 && isnotof(a, b))
            return mkc(1, 1);
        goto bitwise;
    case O_XOR:
        if (a == b)
            return mkc(0, w);
        if (isc(b)) {
            if (b->c == 0)
                return a;
            if (a->op == O_XOR && isc(a->k[1]))
                return mkbin(O_XOR, a->k[0], mkc(a->k[1]->c ^ b->c, w));
            if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2]))
                return mkite(a->k[0], mkbin(O_XOR, a->k[1], b),
                             mkbin(O_XOR, a->k[2], b));
        }
        goto bitwise;
    bitwise : {
        unsigned s = splitpoint(a);
        if (!s)
            s = splitpoint(b);
        /* only split when one side has structure and the other one has
         * structure or is a constant: keeps the DAG small */
        if (s && (splitpoint(a) || isc(a)) && (splitpoint(b) || isc(b))) {
            E hi = mkbin(op, mkextract(a, s, w - s), mkextract(b, s, w - s));
            E lo = mkbin(op, mkextract(a, 0, s), mkextract(b, 0, s));
            return mkconcat(hi, lo);
        }
        break;
    }
    case O_SHL:
        if (isc(b)) {
            if (b->c == 0)
                return a;
            if (b->c >= w)
                return mkc(0, w);
            return mkconcat(mkextract(a, 0, w - (unsigned)b->c),
                            mkc(0, (unsigned)b->c));
        }
        if (isc(a) && a->c == 0)
            return a;
        break;
    case O_LSHR:
        if (isc(b)) {
            if (b->c == 0)
                return a;
            if (b->c >= w)
                return mkc(0, w);
            return mkzext(mkextract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        if (isc(a) && a->c == 0)
            return a;
        break;
    case O_ASHR:
        if (isc(b)) {
            if (b->c == 0)
                return a;
            unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
            return mksext(mkextract(a, s, w - s), w);
        }
        break;
    case O_EQ:
        if (a == b)
            return mkc(1, 1);
        if (isc(b)) {
            if (w == 1)
                return b->c ? a : mkbin(O_XOR, a, mkc(1, 1));
            switch (a->op) {
            case O_ZEXT:
                if (b->c >> a->k[0]->w)
                    return mkc(0, 1);
                return mkbin(O_EQ, a->k[0], mkc(b->c, a->k[0]->w));
            case O_SEXT: {
                unsigned kw = a->k[0]->w;
                u128 lo = b->c & maskw(kw);
                if (((u128)sx(lo, kw) & maskw(w)) != b->c)
                    return mkc(0, 1);
                return mkbin(O_EQ, a->k[0], mkc(lo, kw));
            }
            case O_CONCAT: {
                unsigned lw = a->k[1]->w;
                return mkand1(mkbin(O_EQ, a->k[0],
                                    mkc(b->c >> lw, a->k[0]->w)),
                              mkbin(O_EQ, a->k[1], mkc(b->c, lw)));
            }
            case O_ADD:
                if (isc(a->k[1]))
                    return mkbin(O_EQ, a->k[0], mkc(b->c - a->k[1]->c, w));
                break;
            case O_XOR:
                if (isc(a->k[1]))
                    return mkbin(O_EQ, a->k[0], mkc(b->c ^ a->k[1]->c, w));
                break;
            case O_ITE:
                if (isc(a->k[1]) || isc(a->k[2])) {
                    E x = mkbin(O_EQ, a->k[1], b), y = mkbin(O_EQ, a->k[2], b);
                    return mkite(a->k[0], x, y);
                }
                break;
            default: break;
            }
            if (umax(a) < b->c)
                return mkc(0, 1);
        } else {
            if (w == 1)
                return mkbin(O_XOR, mkbin(O_XOR, a, b), mkc(1, 1));
            if (a->op == O_ADD && b->op == O_ADD) {
                if (isc(a->k[1]) && isc(b->k[1]) && a->k[0] == b->k[0])
                    return mkc(a->k[1]->c == b->k[1]->c, 1);
            }
            if (a->op == O_ZEXT && b->op == O_ZEXT &&
                a->k[0]->w == b->k[0]->w)
                return mkbin(O_EQ, a->k[0], b->k[0]);
            if (a->op == O_SEXT && b->op == O_SEXT &&
                a->k[0]->w == b->k[0]->w)
                return mkbin(O_EQ, a->k[0], b->k[0]);
        }
        break;
    case O_ULT:
        if (a == b)
            return mkc(0, 1);
        if (isc(b)) {
            if (b->c == 0)
                return mkc(0, 1);
            if (b->c == 1)
                return mkbin(O_EQ, a, mkc(0, w));
            if (umax(a) < b->c)
                return mkc(1, 1);
            if (a->op == O_ZEXT && (b->c >> a->k[0]->w) == 0)
                return mkbin(O_ULT, a->k[0], mkc(b->c, a->k[0]->w));
            if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2]))
                return mkite(a->k[0], mkbin(O_ULT, a->k[1], b),
                             mkbin(O_ULT, a->k[2], b));
        }
        if (isc(a)) {
            if (a->c == maskw(w))
                return mkc(0, 1);
            if (umax(b) <= a->c)
                return mkc(0, 1);
            if (b->op == O_ZEXT && (a->c >> b->k[0]->w) == 0)
                return mkbin(O_ULT, mkc(a->c, b->k[0]->w), b->k[0]);
            if (b->op == O_ITE && isc(b->k[1]) && isc(b->k[2]))
                return mkite(b->k[0], mkbin(O_ULT, a, b->k[1]),
                             mkbin(O_ULT, a, b->k[2]));
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
            return mkbin(O_ULT, a->k[0], b->k[0]);
        if (w == 1)
            return mkand1(mknot(a), b);
        break;
    case O_SLT:
        if (a == b)
            return mkc(0, 1);
        /* both known non-negative: unsigned comparison */
        if (w > 1) {
            u128 half = (u128)1 << (w - 1);
            u128 ma = umax(a), mb = umax(b);
            if (ma < half && mb < half)
                return mkbin(O_ULT, a, b);
            if (ma < half && isc(b) && b->c >= half)
                return mkc(0, 1);
            if (mb < half && isc(a) && a->c >= half)
                return mkc(1, 1);
        }
        break;
    default: break;
    }
    return intern(op, rw, 0, a, b, nullptr, 0);
}

E
mknot(E a)
{
    return mkbin(O_XOR, a, mkc(maskw(a->w), a->w));
}
E
mkneg(E a)
{
    return mkbin(O_MUL, a, mkc(maskw(a->w), a->w));
}
E
mksub(E a, E b)
{
    if (a == b)
        return mkc(0, a->w);
    if (isc(b))
        return mkbin(O_ADD, a, mkc(-b->c, b->w));
    return mkbin(O_ADD, a, mkneg(b));
}
E
mkand1(E a, E b)
{
    return mkbin(O_AND, a, b);
}
E
mkor1(E a, E b)
{
    return mkbin(O_OR, a, b);
}
E
mkeq(E a, E b)
{
    return mkbin(O_EQ, a, b);
}
E
mkne(E a, E b)
{
    return mknot(mkeq(a, b));
}
E
mkult(E a, E b)
{
    return mkbin(O_ULT, a, b);
}
E
mkule(E a, E b)
{
    return mknot(mkbin(O_ULT, b, a));
}
E
mkslt(E a, E b)
{
    return mkbin(O_SLT, a, b);
}
E
mksle(E a, E b)
{
    return mknot(mkbin(O_SLT, b, a));
}

/* merge adjacent extracts without rewriting the operand */
static E
rawextract(E a, unsigned off, unsigned w)
{
    if (w == a->w)
        return a;
    return intern(O_EXTRACT, w, off, a, nullptr, nullptr, 0);
}

E
mkconcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isc(hi) && isc(lo))
        return mkc((hi->c << lo->w) | lo->c, w);
    if (isc(hi) && hi->c == 0)
        return mkzext(lo, w);
    /* adjacent extracts */
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] &&
        hi->a == lo->a + lo->w)
        return rawextract(lo->k[0], lo->a, w);
    if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0]) {
        /* memoized: the operands are DAGs with sharing */
        static std::unordered_map<uint64_t, E> memo;
        uint64_t key = ((uint64_t)hi->id << 32) | lo->id;
        auto it = memo.find(key);
        if (it != memo.end())
            return it->second;
        E r = mkite(hi->k[0], mkconcat(hi->k[1], lo->k[1]),
                    mkconcat(hi->k[2], lo->k[2]));
        memo[key] = r;
        return r;
    }
    /* right-nested canonical form: concat(a, concat(b, c)) */
    if (hi->op == O_CONCAT)
        return mkconcat(hi->k[0], mkconcat(hi->k[1], lo));
    if (lo->op == O_CONCAT) {
        /* try to merge hi with the top part of lo */
        E t = lo->k[0];
        if (isc(hi) && isc(t))
            return mkconcat(mkc((hi->c << t->w) | t->c, hi->w + t->w),
                            lo->k[1]);
        if (hi->op == O_EXTRACT && t->op == O_EXTRACT &&
            hi->k[0] == t->k[0] && hi->a == t->a + t->w)
            return mkconcat(rawextract(t->k[0], t->a, hi->w + t->w),
                            lo->k[1]);
        if (hi->op == O_ITE && t->op == O_ITE && hi->k[0] == t->k[0])
            return mkconcat(mkconcat(hi, t), lo->k[1]);
    }
    if (hi->op == O_ZEXT) {
        E x = mkconcat(hi->k[0], lo);
        return mkzext(x, w);
    }
    if (lo->op == O_ZEXT) {
        /* concat(hi, zext(x)) -> concat(hi, concat(0, x)) */
        E z = mkc(0, lo->w - lo->k[0]->w);
        if (isc(hi))
            return mkconcat(mkc(hi->c << z->w, hi->w + z->w), lo->k[0]);
        E inner = intern(O_CONCAT, lo->w, 0, z, lo->k[0], nullptr, 0);
        return intern(O_CONCAT, w, 0, hi, inner, nullptr, 0);
    }
    return intern(O_CONCAT, w, 0, hi, lo, nullptr, 0);
}

E
mkextract(E a, unsigned off, unsigned w)
{
    assert(off + w <= a->w && w >= 1);
    if (w == a->w)
        return a;
    if (isc(a))
        return mkc(a->c >> off, w);
    switch (a->op) {
    case O_EXTRACT: return mkextract(a->k[0], a->a + off, w);
    case O_CONCAT: {
        unsigned lw = a->k[1]->w;
        if (off >= lw)
            return mkextract(a->k[0], off - lw, w);
        if (off + w <= lw)
            return mkextract(a->k[1], off, w);
        return mkconcat(mkextract(a->k[0], 0, off + w - lw),
                        mkextract(a->k[1], off, lw - off));
    }
    case O_ZEXT: {
        unsigned kw = a->k[0]->w;
        if (off >= kw)
            return mkc(0, w);
        if (off + w <= kw)
            return mkextract(a->k[0], off, w);
        return mkzext(mkextract(a->k[0], off, kw - off), w);
    }
    case O_SEXT: {
        unsigned kw = a->k[0]->w;
        if (off + w <= kw)
            return mkextract(a->k[0], off, w);
        if (off < kw)
            return mksext(mkextract(a->k[0], off, kw - off), w);
        return mksext(mkextract(a->k[0], kw - 1, 1), w);
    }
    case O_AND:
    case O_OR:
    case O_XOR:
        return mkbin(a->op, mkextract(a->k[0], off, w),
                     mkextract(a->k[1], off, w));
    case O_ADD:
    case O_MUL:
        /* not for single bytes: a value split into bytes by a store must
         * reassemble when it is loaded */
        if (off == 0 && w >= 32)
            return mkbin(a->op, mkextract(a->k[0], 0, w),
                         mkextract(a->k[1], 0, w));
        break;
    case O_ITE:
        if (isc(a->k[1]) || isc(a->k[2]) || w == 8) {
            static std::unordered_map<uint64_t, E> memo;
            uint64_t key = ((uint64_t)a->id << 16) | (off << 8) | w;
            auto it = memo.find(key);
            if (it != memo.end())
                return it->second;
            E r = mkite(a->k[0], mkextract(a->k[1], off, w),
                        mkextract(a->k[2], off, w));
            memo[key] = r;
            return r;
        }
        break;
    default: break;
    }
    return intern(O_EXTRACT, w, off, a, nullptr, nullptr, 0);
}

E
mkzext(E a, unsigned w)
{
    assert(w >= a->w);
    if (w == a->w)
        return a;
    if (isc(a))
        return mkc(a->c, w);
    if (a->op == O_ZEXT)
        a = a->k[0];
    if (a->op == O_CONCAT && isc(a->k[0]) && a->k[0]->c == 0)
        return mkzext(a->k[1], w);
    return intern(O_ZEXT, w, 0, a, nullptr, nullptr, 0);
}

E
mksext(E a, unsigned w)
{
    assert(w >= a->w);
    if (w == a->w)
        return a;
    if (isc(a))
        return mkc((u128)sx(a->c, a->w), w);
    if (a->op == O_SEXT)
        a = a->k[0];
    if (a->op == O_ZEXT)
        return mkzext(a->k[0], w);
    return intern(O_SEXT, w, 0, a, nullptr, nullptr, 0);
}

E
mkite(E c, E a, E b)
{
    assert(c->w == 1 && a->w == b->w);
    if (isc(c))
        return c->c ? a : b;
    if (a == b)
        return a;
    /* normalize negated conditions */
    if (c->op == O_XOR && isc(c->k[1]))
        return mkite(c->k[0], b, a);
    if (a->w == 1) {
        if (isc(a) && isc(b))
            return a->c ? c : mknot(c);
        if (isc(a))
            return a->c ? mkor1(c, b) : mkand1(mknot(c), b);
        if (isc(b))
            return b->c ? mkor1(mknot(c), a) : mkand1(c, a);
    }
    if (a->op == O_ITE && a->k[0] == c)
        return mkite(c, a->k[1], b);
    if (b->op == O_ITE && b->k[0] == c)
        return mkite(c, a, b->k[2]);
    return intern(O_ITE, a->w, 0, c, a, b, 0);
}

E
mkf(Op op, unsigned w, uint32_t a, E x, E y)
{
    if (isc(x) && (!y || isc(y)))
        return mkc(foldf(op, w, a, x->c, x->w, y ? y->c : 0), w);
    /* results that are NaN are canonical, so these are commutative */
    if ((op == O_FADD || op == O_FMUL) &&
        (isc(x) || (!isc(y) && x->id > y->id)))
        std::swap(x, y);
    return intern(op, w, a, x, y, nullptr, 0);
}

static unsigned
mantbits(unsigned w)
{
    return w == 32 ? 23 : 52;
}

E
mkfnan(E a)
{
    unsigned w = a->w;
    unsigned m = mantbits(w);
    /* (a & 0x7ff..) > exponent mask */
    E mag = mkextract(a, 0, w - 1);
    u128 inf = maskw(w - 1) & ~maskw(m);
    return mkult(mkc(inf, w - 1), mag);
}

static E
bothzero(E a, E b)
{
    unsigned w = a->w;
    E z = mkc(0, w - 1);
    return mkand1(mkeq(mkextract(a, 0, w - 1), z),
                  mkeq(mkextract(b, 0, w - 1), z));
}

E
mkfeq(E a, E b)
{
    E nn = mkand1(mknot(mkfnan(a)), mknot(mkfnan(b)));
    return mkand1(nn, mkor1(mkeq(a, b), bothzero(a, b)));
}

static E
rawflt(E a, E b)
{
    /* sign-magnitude order, zeros handled by the caller */
    unsigned w = a->w;
    E sa = mkextract(a, w - 1, 1), sb = mkextract(b, w - 1, 1);
    E ma = mkextract(a, 0, w - 1), mb = mkextract(b, 0, w - 1);
    E same = mkite(sa, mkult(mb, ma), mkult(ma, mb));
    return mkite(mkeq(sa, sb), same, sa);
}

E
mkflt(E a, E b)
{
    E nn = mkand1(mknot(mkfnan(a)), mknot(mkfnan(b)));
    return mkand1(nn, mkand1(mknot(bothzero(a, b)), rawflt(a, b)));
}
E
mkfle(E a, E b)
{
    E nn = mkand1(mknot(mkfnan(a)), mknot(mkfnan(b)));
    return mkand1(nn, mkor1(mkor1(mkeq(a, b), bothzero(a, b)),
                            rawflt(a, b)));
}

const std::vector<uint32_t> &
exprvars(E e0)
{
    if (e0->vars)
        return *e0->vars;
    std::vector<E> st;
    st.push_back(e0);
    while (!st.empty()) {
        E e = st.back();
        if (e->vars) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < 3; i++)
            if (e->k[i] && !e->k[i]->vars) {
                st.push_back(e->k[i]);
                ready = false;
            }
        if (!ready)
            continue;
        st.pop_back();
        /* share the vector with a child when possible */
        std::vector<uint32_t> *best = nullptr;
        if (e->op == O_VAR) {
            best = new std::vector<uint32_t>{e->a};
        } else {
            for (int i = 0; i < 3; i++)
                if (e->k[i] && (!best || e->k[i]->vars->size() > best->size()))
                    best = e->k[i]->vars;
            if (!best) {
                static std::vector<uint32_t> empty;
                best = &empty;
            }
            for (int i = 0; i < 3; i++) {
                if (!e->k[i] || e->k[i]->vars == best)
                    continue;
                auto *v = e->k[i]->vars;
                if (std::includes(best->begin(), best->end(), v->begin(),
                                  v->end()))
                    continue;
                auto *n = new std::vector<uint32_t>();
                std::set_union(best->begin(), best->end(), v->begin(),
                               v->end(), std::back_inserter(*n));
                best = n;
            }
        }
        e->vars = best;
    }
    return *e0->vars;
}

static uint64_t g_stamp;

u128
evalexpr(E e0, const Model &m)
{
    if (isc(e0))
        return e0->c;
    uint64_t st = ++g_stamp;
    std::vector<E> stk;
    stk.push_back(e0);
    while (!stk.empty()) {
        E e = stk.back();
        if (e->stamp == st) {
            stk.pop_back();
            continue;
        }
        if (e->op == O_CONST) {
            e->ev = e->c;
            e->stamp = st;
            stk.pop_back();
            continue;
        }
        if (e->op == O_VAR) {
            e->ev = e->a < m.size() ? (m[e->a] & maskw(e->w)) : 0;
            e->stamp = st;
            stk.pop_back();
            continue;
        }
        if (e->op == O_ITE) {
            if (e->k[0]->stamp != st) {
                stk.push_back(e->k[0]);
                continue;
            }
            E t = e->k[0]->ev ? e->k[1] : e->k[2];
            if (t->stamp != st) {
                stk.push_back(t);
                continue;
            }
            e->ev = t->ev;
            e->stamp = st;
            stk.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < 2; i++)
            if (e->k[i] && e->k[i]->stamp != st) {
                stk.push_back(e->k[i]);
                ready = false;
            }
        if (!ready)
            continue;
        u128 x = e->k[0]->ev;
        u128 r;
        switch (e->op) {
        case O_CONCAT: r = (x << e->k[1]->w) | e->k[1]->ev; break;
        case O_EXTRACT: r = (x >> e->a) & maskw(e->w); break;
        case O_ZEXT: r = x; break;
        case O_SEXT: r = (u128)sx(x, e->k[0]->w) & maskw(e->w); break;
        case O_FADD:
        case O_FSUB:
        case O_FMUL:
        case O_FDIV:
        case O_FSQRT:
        case O_FRND:
        case O_FCVT:
        case O_S2F:
        case O_U2F:
        case O_F2S:
        case O_F2U:
            r = foldf(e->op, e->w, e->a, x, e->k[0]->w,
                      e->k[1] ? e->k[1]->ev : 0);
            break;
        default: r = foldbin(e->op, e->k[0]->w, x, e->k[1]->ev); break;
        }
        e->ev = r;
        e->stamp = st;
        stk.pop_back();
    }
    return e0->ev;
}

static const char *opn[] = {
        "const", "var",  "add",  "mul",   "udiv", "sdiv",   "urem", "srem",
        "and",   "or",   "xor",  "shl",   "lshr", "ashr",   "eq",   "ult",
        "slt",   "cat",  "ext",  "zext",  "sext", "ite",    "fadd", "fsub",
        "fmul",  "fdiv", "sqrt", "frnd",  "fcvt", "s2f",    "u2f",  "f2s",
        "f2u",
};

std::string
expr_str(E e, int depth)
{
    char b[96];
    if (e->op == O_CONST) {
        snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w);
        return b;
    }
    if (e->op == O_VAR) {
        snprintf(b, sizeof b, "v%u:%u", e->a, e->w);
        return b;
    }
    if (depth == 0)
        return "...";
    std::string s = "(";
    s += opn[e->op];
    if (e->op == O_EXTRACT) {
        snprintf(b, sizeof b, "[%u+%u]", e->a, e->w);
        s += b;
    }
    for (int i = 0; i < 3; i++)
        if (e->k[i])
            s += " " + expr_str(e->k[i], depth - 1);
    return s + ")";
}
