/*
 * Function bodies made of any sequence of instructions out of a set: accepted
 * exactly when the reference validator accepts them.
 *
 * params: 0 prefix, 1 number of instructions, 2 result type, 3 first
 *         instruction, 4 number of first instructions, 5: 1 the first
 *         immediate of the last instruction is anything below 10,
 *         6: 1 other order of tables, globals and tags
 */
#include "valctx.h"

#define T(...) {(const uint8_t[]){__VA_ARGS__}, sizeof((uint8_t[]){__VA_ARGS__})}
struct tmpl {
    const uint8_t *p;
    uint32_t n;
};
static const struct tmpl prefixes[] = {
    T(0x01),
    T(0x00),                               /* 1 unreachable */
    T(0x20, 0, 0x20, 0),                   /* 2 ii */
    T(0x20, 1, 0x20, 0, 0x20, 0),          /* 3 Iii */
    T(0x20, 0, 0x20, 1, 0x20, 2, 0x02, 3), /* 4 block (If)->(iI) */
    T(0x20, 0, 0x03, 2),                   /* 5 loop (i)->(i) */
    T(0x02, 1, 0x02, 0x40, 0x00),          /* 6 nested, unreachable */
    T(0x20, 0, 0x04, 5, 0x20, 6, 0x05),    /* 7 if ->e, else */
    T(0x20, 4, 0x02, 7, 0x20, 0),          /* 8 v, block ->ix */
    T(0x02, 0x7f, 0x20, 0, 0x20, 1, 0x20, 0), /* 9 block ->i, iIi */
};
static const struct tmpl items[] = {
    T(0x00),             /* unreachable */
    T(0x02, 0x40),       /* block */
    T(0x02, 2),          /* block (i)->(i) */
    T(0x02, 1),          /* block ->i */
    T(0x02, 7),          /* block ->ix */
    T(0x03, 3),          /* loop (If)->(iI) */
    T(0x03, 0x7e),       /* loop ->I */
    T(0x04, 2),          /* if (i)->(i) */
    T(0x04, 0x40),       /* if */
    T(0x05),             /* else */
    T(0x0b),             /* end */
    T(0x0c, 0),          /* br */
    T(0x0c, 1),
    T(0x0d, 0), /* br_if */
    T(0x0d, 1),
    T(0x0d, 2),
    T(0x0e, 0, 0),    /* br_table */
    T(0x0e, 1, 0, 1),
    T(0x0e, 1, 1, 0),
    T(0x0f),             /* return */
    T(0x10, 0),          /* call ()->() */
    T(0x10, 2),          /* call (i)->(i) */
    T(0x10, 3),          /* call (If)->(iI) */
    T(0x11, 2, 0),       /* call_indirect */
    T(0x11, 2, 1),
    T(0x12, 1),          /* return_call */
    T(0x12, 2),
    T(0x13, 2, 0),       /* return_call_indirect */
    T(0x13, 1, 1),
    T(0x1a),             /* drop */
    T(0x1b),             /* select */
    T(0x1c, 1, 0x7e),    /* select I */
    T(0x1c, 1, 0x6f),    /* select e */
    T(0x1f, 0x40, 1, 0, 0, 0),       /* try_table, catch (i) */
    T(0x1f, 0x40, 1, 1, 0, 0),       /* catch_ref (i) */
    T(0x1f, 0x7f, 1, 0, 1, 1),       /* catch () */
    T(0x1f, 2, 1, 2, 1),             /* catch_all */
    T(0x1f, 2, 2, 3, 0, 0, 0, 1),    /* catch_all_ref, catch (i) */
    T(0x08, 0),          /* throw (i) */
    T(0x08, 1),          /* throw () */
    T(0x0a),             /* throw_ref */
    T(0x20, 0),          /* local.get */
    T(0x20, 1),
    T(0x20, 4),
    T(0x20, 6),
    T(0x21, 1),          /* local.set */
    T(0x22, 0),          /* local.tee */
    T(0x23, 2),          /* global.get */
    T(0x24, 1),          /* global.set, immutable */
    T(0x25, 1),          /* table.get */
    T(0x41, 0),          /* i32.const */
    T(0x42, 0),
    T(0x45),             /* i32.eqz */
    T(0x6a),             /* i32.add */
    T(0x7c),             /* i64.add */
    T(0xa7),             /* i32.wrap_i64 */
    T(0xd0, 0x6f),       /* ref.null extern */
    T(0xd1),             /* ref.is_null */
    T(0xd2, 1),          /* ref.func, not declared */
    T(0xd2, 2),
    T(0xfd, 15),         /* i8x16.splat */
    T(0xfd, 21, 0),      /* extract_lane */
};
#define NI (sizeof(items) / sizeof(items[0]))

/* the body, closed so that it is valid if it is up to here */
static uint32_t
close(uint8_t *d, const uint8_t *b, uint32_t n, unsigned open)
{
    memcpy(d, b, n);
    for (unsigned i = 0; i < open; i++) {
        d[n++] = 0x00;
        d[n++] = 0x0b;
    }
    return n;
}
static unsigned
opens(uint8_t op)
{
    return op == 0x02 || op == 0x03 || op == 0x04 || op == 0x1f;
}

void
harness_main(void)
{
    unsigned pre = (unsigned)sym_param(0, 0);
    unsigned len = (unsigned)sym_param(1, 1);
    unsigned res = (unsigned)sym_param(2, 0);
    unsigned first = (unsigned)sym_param(3, 0);
    unsigned nfirst = (unsigned)sym_param(4, NI);
    uint8_t b[96], d[128];
    uint32_t n = prefixes[pre].n, dn;
    memcpy(b, prefixes[pre].p, n);
    unsigned open = 1;
    if (pre >= 4)
        open++;
    if (pre == 6)
        open++;
    val_swap = sym_param(6, 0) != 0;
    struct rctx c;
    valcontext(&c, res);
    dn = close(d, b, n, open);
    if (!refval(&c, d, dn))
        sym_fail_("harness: prefix");
    for (unsigned i = 0; i < len && open; i++) {
        unsigned x = i ? sym_choice(NI) : first + sym_choice(nfirst);
        if (x >= NI)
            sym_end();
        uint8_t op = items[x].p[0];
        memcpy(b + n, items[x].p, items[x].n);
        if (i == len - 1 && items[x].n > 1 && op < 0xfc && sym_param(5, 0)) {
            sym_code(b + n + 1, 1);
            sym_assume(b[n + 1] < 10);
        }
        n += items[x].n;
        open += opens(op);
        open -= op == 0x0b;
        dn = close(d, b, n, open);
        if (!refval(&c, d, dn))
            break;
    }
    valcheck(res, d, dn);
    sym_expect("invalid");
    sym_expect("valid");
}
