/*
 * Function bodies with arbitrary bytes: accepted exactly when the reference
 * validator accepts them.
 *
 * params: 0 prefix template, 1 number of arbitrary bytes, 2 suffix template
 *         3 result type, 4 number of bytes in the next arbitrary run after a
 *         further template
 */
#include "valctx.h"

#define T(...) {(const uint8_t[]){__VA_ARGS__}, sizeof((uint8_t[]){__VA_ARGS__})}
static const struct {
    const uint8_t *p;
    uint32_t n;
} prefixes[] = {
    {NULL, 0},
    T(0x00),                                     /* 1 unreachable */
    T(0x20, 0),                                  /* 2 i */
    T(0x20, 0, 0x20, 0),                         /* 3 ii */
    T(0x20, 1, 0x20, 1),                         /* 4 II */
    T(0x20, 2, 0x20, 2),                         /* 5 ff */
    T(0x20, 3, 0x20, 3),                         /* 6 FF */
    T(0x20, 4, 0x20, 4, 0x20, 4),                /* 7 vvv */
    T(0x20, 5, 0x20, 5, 0x20, 0),                /* 8 rri */
    T(0x20, 0, 0x20, 6),                         /* 9 ie */
    T(0x20, 0, 0x20, 1),                         /* 10 iI */
    T(0x20, 0, 0x20, 4),                         /* 11 iv */
    T(0x20, 0, 0x20, 1, 0x20, 1),                /* 12 iII */
    T(0x20, 0, 0x20, 0, 0x20, 0),                /* 13 iii */
    T(0x20, 0, 0x02, 2),                         /* 14 block (i)->(i) */
    T(0x20, 1, 0x20, 2, 0x03, 3),                /* 15 loop (If)->(iI) */
    T(0x20, 0, 0x20, 0, 0x04, 2),                /* 16 if (i)->(i) */
    T(0x20, 0, 0x20, 0, 0x04, 2, 0x05),          /* 17 if else */
    T(0x20, 0, 0x04, 0x40),                      /* 18 if -> */
    T(0x02, 0x40, 0x00),                         /* 19 block unreachable */
    T(0x20, 0, 0x1f, 6, 0),                      /* 20 try_table (i)->() */
    T(0x02, 7, 0x1f, 0x40, 1),                   /* 21 try_table, clause */
    T(0x20, 0, 0x20, 1, 0x20, 2),                /* 22 iIf */
    T(0x20, 0, 0x20, 0, 0x20, 1),                /* 23 iiI */
    T(0x20, 4, 0x20, 0),                         /* 24 vi */
    T(0x20, 0, 0x20, 2),                         /* 25 if */
    T(0x20, 0, 0x20, 3),                         /* 26 iF */
    T(0x20, 0, 0x20, 5),                         /* 27 ir */
    T(0x20, 5, 0x20, 0),                         /* 28 ri */
    T(0x20, 4, 0x20, 1),                         /* 29 vI */
    T(0x20, 4, 0x20, 2),                         /* 30 vf */
    T(0x20, 4, 0x20, 3),                         /* 31 vF */
    T(0x20, 0, 0x02, 2, 0x20, 0, 0x0e, 1),       /* 32 br_table in (i)->(i) */
    T(0x02, 1, 0x03, 0x40, 0x20, 0, 0x20, 0, 0x0e, 1), /* 33 mixed */
    T(0x00, 0xfc),                               /* 34 */
    T(0x00, 0xfd),                               /* 35 */
    T(0x00, 0xfe),                               /* 36 */
    T(0x20, 0, 0x20, 6, 0x20, 0),                /* 37 iei */
    T(0x02, 7, 0x1f, 0x7f, 1),                   /* 38 try_table, result */
};
static const struct {
    const uint8_t *p;
    uint32_t n;
} suffixes[] = {
    T(0x0b),
    T(0x0b, 0x0b),
    T(0x1a, 0x0b),
    T(0x1a, 0x0b, 0x0b),
    T(0x0b, 0x1a, 0x1a, 0x0b),
    T(0x0b, 0x0b, 0x0b),
    T(0x0b, 0x1a, 0x0b),
    T(0x1a, 0x1a, 0x0b),
    T(0x0b, 0x0b, 0x1a, 0x1a, 0x0b),
    T(0x00, 0x0b),
    T(0x00, 0x0b, 0x00, 0x0b),
    T(0x0b, 0x00, 0x0b, 0x1a, 0x1a, 0x0b), /* 11 */
    T(0x1a, 0x1a, 0x1a, 0x0b),
    T(0x00, 0x0b, 0x00, 0x0b, 0x00, 0x0b),
};

void
harness_main(void)
{
    unsigned pre = (unsigned)sym_param(0, 0);
    unsigned nb = (unsigned)sym_param(1, 1);
    unsigned suf = (unsigned)sym_param(2, 0);
    unsigned res = (unsigned)sym_param(3, 0);
    uint8_t b[128];
    uint32_t n = 0;
    memcpy(b, prefixes[pre].p, prefixes[pre].n);
    n = prefixes[pre].n;
    sym_code(b + n, nb);
    /* no br_table with a count in more than one byte */
    for (unsigned i = 0; i + 1 < nb; i++)
        if (b[n + i] == 0x0e)
            sym_assume(b[n + i + 1] < 0x80);
    n += nb;
    memcpy(b + n, suffixes[suf].p, suffixes[suf].n);
    n += suffixes[suf].n;

    valcheck(res, b, n);
}
