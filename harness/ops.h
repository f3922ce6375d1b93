/* run one instruction with symbolic operands through the whole pipeline */
#pragma once
#include "wk.h"

/*
 * A module with one function: params -> result, body
 * "local.get 0 .. local.get n-1; <op bytes>; end".
 */
static inline void
op_module(struct wb *w, const char *params, const char *results,
          const uint8_t *op, uint32_t oplen)
{
    wb_init(w, 256);
    wb_header(w);
    wb_sec(w, 1);
    wb_uleb(w, 1);
    wb_functype(w, params, results);
    wb_close(w);
    wb_sec(w, 3);
    WB(w, 1, 0);
    wb_close(w);
    wb_sec(w, 10);
    wb_uleb(w, 1);
    wb_open(w);
    wb_u8(w, 0);
    for (uint32_t i = 0; params[i]; i++) {
        wb_u8(w, 0x20);
        wb_uleb(w, i);
    }
    wb_raw(w, op, oplen);
    wb_u8(w, 0x0b);
    wb_close(w);
    wb_close(w);
}

static inline void
symval(struct val *v, char t)
{
    memset(v, 0, sizeof(*v));
    switch (t) {
    case 'i':
    case 'f':
        v->u.i32 = sym_u32();
        break;
    case 'I':
    case 'F':
        v->u.i64 = sym_u64();
        break;
    case 'v':
        sym_bytes(&v->u.v128, 16);
        break;
    }
}
