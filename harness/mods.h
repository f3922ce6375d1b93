/* small modules which together use every section */
#pragma once
#include "wk.h"

static void
compact(struct wb *w, uint8_t id, const uint8_t *p, uint32_t n)
{
    wb_u8(w, id);
    wb_uleb(w, n);
    wb_raw(w, p, n);
}
#define SEC(id, ...)                                                         \
    do {                                                                     \
        static const uint8_t sec_[] = {__VA_ARGS__};                         \
        compact(w, id, sec_, sizeof(sec_));                                  \
    } while (0)

static struct wb codes;
#define BODY(...)                                                            \
    do {                                                                     \
        static const uint8_t body_[] = {__VA_ARGS__};                        \
        wb_uleb(&codes, sizeof(body_));                                      \
        wb_raw(&codes, body_, sizeof(body_));                                \
        codes.b[0]++;                                                        \
    } while (0)
static void
code_section(struct wb *w)
{
    compact(w, 10, codes.b, codes.n);
}

static void
build(struct wb *w, unsigned which)
{
    wb_init(w, 512);
    wb_init(&codes, 256);
    wb_u8(&codes, 0);
    wb_header(w);
    switch (which) {
    case 0:
        /* types, imports of all kinds, tables, memories, tags, globals */
        SEC(1, 4, 0x60, 0, 0, 0x60, 1, T_I32, 1, T_I32, 0x60, 2, T_I64,
            T_FUNCREF, 0, 0x60, 1, T_I32, 0);
        SEC(2, 5, 1, 'm', 1, 'f', 0, 1, 1, 'm', 1, 't', 1, T_FUNCREF, 1, 1, 2,
            1, 'm', 2, 0xc3, 0xa9, 2, 1, 1, 3, 1, 'm', 1, 'g', 3, T_I32, 0, 1,
            'm', 1, 'x', 4, 0, 3);
        SEC(3, 2, 0, 1);
        SEC(4, 1, T_EXTERNREF, 0, 3);
        SEC(5, 2, 3, 1, 2, 9, 4, 7, 0);
        SEC(13, 1, 0, 3);
        SEC(6, 3, T_I32, 1, 0x23, 0, 0x41, 1, 0x6a, 0x0b, T_F32, 0, 0x43, 0, 0,
            0, 0, 0x0b, T_FUNCREF, 0, 0xd2, 1, 0x0b);
        SEC(7, 3, 1, 'a', 0, 2, 1, 'b', 3, 1, 2, 'a', 'b', 4, 1);
        SEC(8, 1);
        BODY(0, 0xd2, 1, 0x1a, 0x0b);
        BODY(1, 2, T_I32, 0x20, 0, 0x22, 2, 0x0b);
        code_section(w);
        break;
    case 1:
        /* segments */
        SEC(1, 1, 0x60, 0, 0);
        SEC(3, 2, 0, 0);
        SEC(4, 2, T_FUNCREF, 0, 9, T_EXTERNREF, 1, 2, 3);
        SEC(5, 1, 0, 1);
        SEC(9, 4, 0, 0x41, 1, 0x0b, 2, 0, 1, 6, 1, 0x41, 0, 0x0b, T_EXTERNREF,
            1, 0xd0, T_EXTERNREF, 0x0b, 3, 0, 1, 0, 5, T_FUNCREF, 2, 0xd2, 1,
            0x0b, 0xd0, T_FUNCREF, 0x0b);
        SEC(12, 3);
        BODY(0, 0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 8, 2, 0, 0x0b);
        BODY(0, 0x01, 0x0b);
        code_section(w);
        SEC(11, 3, 0, 0x41, 3, 0x0b, 2, 1, 2, 2, 0, 0x41, 0x7f, 0x0b, 0, 1, 1,
            9);
        break;
    case 2:
        /* names and custom sections */
        SEC(0, 2, 'x', 'y', 0xc2, 0x80);
        SEC(1, 1, 0x60, 0, 0);
        SEC(0, 3, 0xe2, 0x82, 0xac, 1, 2, 3);
        SEC(2, 1, 4, 0xf0, 0x9f, 0x98, 0x80, 2, 0xc2, 0x80, 0, 0);
        SEC(7, 2, 2, 0xdf, 0xbf, 0, 0, 3, 0xed, 0x9f, 0xbf, 0, 0);
        SEC(0, 4, 'n', 'a', 'm', 'e', 0, 2, 1, 'm');
        break;
    case 3:
        /* function bodies with locals and blocks */
        SEC(1, 2, 0x60, 1, T_I32, 1, T_I32, 0x60, 0, 0);
        SEC(3, 2, 0, 1);
        BODY(2, 1, T_I64, 0, T_F32, 0x20, 0, 0x02, 0, 0x20, 0, 0x04, 0x40,
             0x41, 1, 0x0c, 1, 0x0b, 0x0b, 0x0b);
        BODY(1, 1, T_V128, 0x0b);
        code_section(w);
        break;
    case 4:
        /* functions which are referred to, start */
        SEC(1, 3, 0x60, 0, 0, 0x60, 1, T_I32, 0, 0x60, 0, 1, T_I32);
        SEC(2, 1, 0, 0, 0, 0);
        SEC(3, 4, 0, 1, 2, 0);
        SEC(4, 1, T_FUNCREF, 0, 9);
        SEC(7, 1, 1, 'a', 0, 3);
        SEC(8, 4);
        SEC(9, 3, 3, 0, 1, 0, 7, T_FUNCREF, 1, 0xd2, 1, 0x0b, 4, 0x41, 0, 0x0b,
            1, 0xd2, 0, 0x0b);
        BODY(0, 0xd2, 0, 0x1a, 0xd2, 1, 0x1a, 0x0b);
        BODY(0, 0xd2, 3, 0x1a, 0x0b);
        BODY(0, 0x41, 0, 0x0b);
        BODY(0, 0x0b);
        code_section(w);
        break;
    case 5:
        SEC(1, 1, 0x60, 0, 0);
        SEC(2, 1, 0, 0, 2, 0, 0);
        SEC(3, 5, 0, 0, 0, 0, 0);
        SEC(4, 1, T_FUNCREF, 0, 9);
        SEC(6, 1, T_FUNCREF, 0, 0xd2, 4, 0x0b);
        SEC(9, 4, 1, 0, 1, 0, 5, T_FUNCREF, 1, 0xd2, 1, 0x0b, 2, 0, 0x41, 0,
            0x0b, 0, 1, 2, 6, 0, 0x41, 0, 0x0b, T_FUNCREF, 1, 0xd2, 3, 0x0b);
        BODY(0, 0xd2, 0, 0x1a, 0xd2, 1, 0x1a, 0xd2, 2, 0x1a, 0x0b);
        BODY(0, 0xd2, 3, 0x1a, 0xd2, 4, 0x1a, 0x0b);
        BODY(0, 0x0b);
        BODY(0, 0x0b);
        BODY(0, 0x0b);
        code_section(w);
        SEC(11, 1, 0, 0x41, 0, 0x0b, 0);
        break;
    }
    wb_fini(&codes);
}
