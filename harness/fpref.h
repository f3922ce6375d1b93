/* bit level definitions of IEEE 754 operations */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <string.h>

static inline float
b2f(uint32_t b)
{
    float f;
    memcpy(&f, &b, 4);
    return f;
}
static inline double
b2d(uint64_t b)
{
    double f;
    memcpy(&f, &b, 8);
    return f;
}
static inline uint32_t
f2b(float f)
{
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}
static inline uint64_t
d2b(double f)
{
    uint64_t b;
    memcpy(&b, &f, 8);
    return b;
}

/* parameters of a format: n bits, m mantissa bits */
struct fmt {
    unsigned n, m;
};
static const struct fmt F32 = {32, 23}, F64 = {64, 52};

static inline uint64_t
sbit(struct fmt f)
{
    return 1ull << (f.n - 1);
}
static inline uint64_t
inf(struct fmt f)
{
    return ((1ull << (f.n - 1 - f.m)) - 1) << f.m;
}
static inline bool
nan_(struct fmt f, uint64_t a)
{
    return (a & ~sbit(f)) > inf(f);
}
/* unordered-free "a < b" on bit patterns */
static inline bool
less(struct fmt f, uint64_t a, uint64_t b)
{
    uint64_t s = sbit(f);
    uint64_t ma = a & ~s, mb = b & ~s;
    if (ma == 0 && mb == 0)
        return false;
    if ((a & s) && (b & s))
        return ma > mb;
    if (a & s)
        return true;
    if (b & s)
        return false;
    return ma < mb;
}
static inline bool
equal(struct fmt f, uint64_t a, uint64_t b)
{
    return a == b || ((a | b) & ~sbit(f)) == 0;
}
/* mode: 0 ceil, 1 floor, 2 trunc, 3 nearest even */
static inline uint64_t
rnd(struct fmt f, uint64_t a, int mode)
{
    uint64_t s = a & sbit(f), m = a & ~sbit(f);
    unsigned bias = (1u << (f.n - 2 - f.m)) - 1;
    unsigned e = (unsigned)(m >> f.m);
    uint64_t one = (uint64_t)bias << f.m;
    if (m > inf(f))
        return a;
    if (e >= bias + f.m)
        return a; /* integral, or infinite */
    if (m == 0)
        return a;
    if (e < bias) {
        bool up;
        if (mode == 0)
            up = !s;
        else if (mode == 1)
            up = s != 0;
        else if (mode == 2)
            up = false;
        else
            up = m > ((uint64_t)(bias - 1) << f.m); /* > 0.5 */
        return s | (up ? one : 0);
    }
    unsigned fb = f.m - (e - bias); /* fraction bits */
    uint64_t mask = (1ull << fb) - 1;
    uint64_t frac = m & mask, t = m & ~mask;
    if (frac == 0)
        return a;
    bool up;
    uint64_t half = 1ull << (fb - 1);
    if (mode == 0)
        up = !s;
    else if (mode == 1)
        up = s != 0;
    else if (mode == 2)
        up = false;
    else {
        bool odd;
        if (fb == f.m)
            odd = true; /* 1.xxx: the integer part is 1 */
        else
            odd = (m >> fb) & 1;
        up = frac > half || (frac == half && odd);
    }
    return s | (up ? t + (1ull << fb) : t);
}

/*
 * truncation to an integer of 'bits' bits.
 * 0: in range, 1: too large or small, 2: nan
 */
static inline int
toint(struct fmt f, uint64_t a, unsigned bits, bool sgn, uint64_t *r,
      bool *neg)
{
    uint64_t s = a & sbit(f), m = a & ~sbit(f);
    int bias = (1 << (f.n - 2 - f.m)) - 1;
    int e = (int)(m >> f.m) - bias;
    *neg = s != 0;
    if (m > inf(f))
        return 2;
    if (e < 0) {
        *r = 0;
        return 0;
    }
    if (e > 64)
        return 1;
    uint64_t sig = (m & ((1ull << f.m) - 1)) | 1ull << f.m;
    uint64_t mag;
    if (e == 64)
        return 1;
    if (e <= (int)f.m)
        mag = sig >> (f.m - (unsigned)e);
    else
        mag = sig << ((unsigned)e - f.m);
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (sgn) {
        uint64_t lim = 1ull << (bits - 1);
        if (s ? mag > lim : mag >= lim)
            return 1;
    } else {
        if (s && mag != 0)
            return 1;
        if (mag > mask)
            return 1;
    }
    *r = (s ? -mag : mag) & mask;
    return 0;
}


/* minimum (or maximum), neither operand being NaN */
static inline uint64_t
fminmax(struct fmt f, uint64_t a, uint64_t b, bool min)
{
    if (nan_(f, a) || nan_(f, b))
        return inf(f) + 1;
    if (equal(f, a, b))
        /* the signs differ only for zeros */
        return min ? a | b : a & b;
    return less(f, a, b) == min ? a : b;
}
static inline uint64_t
tointsat(struct fmt src, uint64_t a, unsigned bits, bool sgn)
{
    uint64_t v = 0;
    bool neg;
    int c = toint(src, a, bits, sgn, &v, &neg);
    if (c == 0)
        return v;
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (c == 2)
        return 0;
    if (sgn)
        return neg ? 1ull << (bits - 1) : mask >> 1;
    return neg ? 0 : mask;
}
