/*
 * LEB128 immediates: all byte values of every encoding length, in several
 * places of a module.
 */
#include "wk.h"

enum { K_S32, K_S64, K_LOCAL, K_CALL, K_BR, K_BLOCK, K_GLOBAL, K_SECSIZE,
       K_OFFSET, K_TYPEIDX, K_LOCALS, NKIND };

static unsigned
bits(int kind)
{
    return kind == K_S64 ? 64 : kind == K_BLOCK ? 33 : 32;
}
static bool
is_signed(int kind)
{
    return kind == K_S32 || kind == K_S64 || kind == K_BLOCK;
}

/* value of the encoding; returns false if the format forbids it */
static bool
decode(const uint8_t *b, unsigned n, unsigned width, bool sgn, uint64_t *v)
{
    unsigned max = (width + 6) / 7;
    uint64_t x = 0;
    if (n > max)
        return false;
    for (unsigned i = 0; i < n; i++)
        x |= (uint64_t)(b[i] & 0x7f) << (7 * i);
    if (n == max) {
        unsigned used = width - 7 * (max - 1); /* bits used of the last byte */
        uint8_t last = b[n - 1] & 0x7f;
        if (sgn) {
            uint8_t top = (uint8_t)((0x7f >> (used - 1)) << (used - 1));
            if ((last & top) != 0 && (last & top) != top)
                return false;
        } else if (last >> used)
            return false;
    }
    if (sgn && 7 * n < 64) {
        uint64_t m = 1ull << (7 * n - 1);
        x = (x ^ m) - m;
    }
    *v = x;
    return true;
}

void
harness_main(void)
{
    int kind = (int)sym_param(0, K_S32);
    unsigned maxlen = (bits(kind) + 6) / 7 + 1;
    unsigned n = 1 + sym_choice(maxlen);
    /* trunc: the module ends inside the integer */
    bool trunc = sym_choice(2);
    uint8_t b[12];
    sym_bytes(b, n);
    for (unsigned i = 0; i < n; i++)
        sym_assume((i + 1 < n || trunc) ? b[i] >= 0x80 : b[i] < 0x80);
    struct wb w;
    struct wk k;
    wb_init(&w, 512);
    wb_header(&w);
    wb_sec(&w, 1);
    wb_uleb(&w, 3);
    wb_functype(&w, "", kind == K_S64 ? "I" : "i");
    wb_functype(&w, "iii", "i");
    wb_functype(&w, "", "");
    wb_close(&w);
    wb_sec(&w, 3);
    wb_uleb(&w, 3);
    wb_u8(&w, kind == K_LOCAL ? 1 : 0);
    if (kind == K_TYPEIDX && !trunc)
        wb_raw(&w, b, n);
    else
        wb_u8(&w, 0);
    wb_u8(&w, 0);
    wb_close(&w);
    if (kind == K_OFFSET) {
        wb_sec(&w, 5);
        /* 2 pages of 64KB */
        WB(&w, 1, 0, 2);
        wb_close(&w);
    }
    if (kind == K_GLOBAL) {
        wb_sec(&w, 6);
        WB(&w, 2, 0x7f, 0, 0x41, 11, 0x0b, 0x7f, 0, 0x41, 22, 0x0b);
        wb_close(&w);
    }
    wb_sec(&w, 10);
    wb_uleb(&w, 3);
    wb_open(&w);
    if (kind != K_LOCALS)
        wb_u8(&w, 0);
    switch (kind) {
    case K_S32: wb_u8(&w, 0x41); break;
    case K_S64: wb_u8(&w, 0x42); break;
    case K_LOCAL: wb_u8(&w, 0x20); break;
    case K_CALL: wb_u8(&w, 0x10); break;
    case K_BR: WB(&w, 0x02, 0x7f, 0x41, 3, 0x0c); break;
    case K_BLOCK: wb_u8(&w, 0x02); break;
    case K_GLOBAL: wb_u8(&w, 0x23); break;
    case K_OFFSET:
        /* touch the last byte, so that the memory is fully allocated */
        WB(&w, 0x41, 0, 0x2d, 0, 0xff, 0xff, 0x07, 0x1a, 0x41, 0, 0x2d, 0);
        break;
    case K_LOCALS: wb_u8(&w, 1); break;
    case K_TYPEIDX:
        if (!trunc)
            WB(&w, 0x41, 7);
        break;
    case K_SECSIZE: WB(&w, 0x41, 7); break;
    }
    if (kind != K_SECSIZE && (kind != K_TYPEIDX || trunc))
        wb_raw(&w, b, n);
    if (!trunc)
        switch (kind) {
        case K_BR: WB(&w, 0x0b); break;
        case K_BLOCK: WB(&w, 0x41, 5, 0x0b); break;
        case K_LOCALS: WB(&w, 0x7f, 0x41, 9); break;
        }
    if (!trunc || kind == K_SECSIZE)
        wb_u8(&w, 0x0b);
    wb_close(&w);
    if (trunc && kind != K_SECSIZE) {
        /* the function body is the end of everything */
        wb_close(&w);
        goto built;
    }
    wb_open(&w);
    wb_u8(&w, 0);
    if (kind == K_S64)
        WB(&w, 0x42, 1, 0x0b);
    else
        WB(&w, 0x41, 41, 0x0b);
    wb_close(&w);
    wb_open(&w);
    wb_u8(&w, 0);
    if (kind == K_S64)
        WB(&w, 0x42, 2, 0x0b);
    else
        WB(&w, 0x41, 42, 0x0b);
    wb_close(&w);
    wb_close(&w);
built:
    if (kind == K_SECSIZE) {
        /* an empty custom section whose size is the integer */
        wb_u8(&w, 0);
        wb_raw(&w, b, n);
        if (!trunc)
            WB(&w, 1, 'x', 5, 6);
    }
    uint64_t v = 0;
    bool ok = !trunc && decode(b, n, bits(kind), is_signed(kind), &v);
    sym_expect("accepted");
    sym_expect("rejected");
    bool idxok = true;
    switch (kind) {
    case K_LOCAL: idxok = v < 3; break;
    case K_CALL: idxok = v < 3; break;
    case K_TYPEIDX: idxok = v < 2; break;
    case K_BR: idxok = v < 2; break;
    case K_BLOCK:
        /* a multi-byte negative number is not a block type by the format,
           not decided here */
        sym_assume(!ok || n == 1 || !(v >> 63));
        idxok = v == 0 || v == (uint64_t)-1;
        break;
    case K_GLOBAL: idxok = v < 2; break;
    case K_SECSIZE: idxok = v == 4; break;
    case K_LOCALS:
        /* implementation limits are not the subject */
        sym_assume(!ok || v < 20 || v >= 0x80000000);
        idxok = v < 20;
        break;
    }
    if (kind == K_CALL && ok && v == 0)
        sym_end(); /* endless recursion */
    if (kind == K_TYPEIDX && trunc)
        sym_end();
    wk_init(&k);
    int ret = wk_load(&k, w.b, w.n);
    sym_observe((uint64_t)ret);
    if (!ok || !idxok) {
        sym_reach("rejected");
        sym_check(ret != 0, "malformed or out of range integer is rejected");
        wk_fini(&k);
        return;
    }
    sym_reach("accepted");
    sym_check(ret == 0, "well formed integer is accepted");
    ret = wk_inst(&k, NULL);
    sym_check(ret == 0, "module with well formed integer instantiates");
    struct val a[3], r;
    memset(a, 0, sizeof(a));
    a[0].u.i32 = 100;
    a[1].u.i32 = 101;
    a[2].u.i32 = 102;
    memset(&r, 0, sizeof(r));
    ret = wk_call(&k, 0, a, &r);
    sym_observe((uint64_t)ret);
    if (kind == K_OFFSET) {
        if (v >= 2 * 65536) {
            sym_check(ret == ETOYWASMTRAP, "offset is decoded exactly");
        } else {
            sym_check(ret == 0, "offset is decoded exactly (in range)");
        }
        wk_fini(&k);
        return;
    }
    sym_check(ret == 0, "no trap");
    uint64_t got = kind == K_S64 ? r.u.i64 : r.u.i32;
    uint64_t want = 0;
    switch (kind) {
    case K_S32: want = (uint32_t)v; break;
    case K_S64: want = v; break;
    case K_LOCAL: want = 100 + v; break;
    case K_CALL: want = 40 + v; break;
    case K_BR: want = 3; break;
    case K_BLOCK: want = 5; break;
    case K_GLOBAL: want = v == 0 ? 11 : 22; break;
    case K_SECSIZE:
    case K_TYPEIDX: want = got; break;
    case K_LOCALS: want = 9; break;
    }
    sym_observe(got);
    sym_check(got == want, "integer immediate has the encoded value");
    wk_fini(&k);
}
