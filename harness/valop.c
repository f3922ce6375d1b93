/*
 * Every instruction with fixed signature: operands of the right types, of
 * other types and missing, results used at any type, arbitrary immediates.
 *
 * params: 0 first instruction, 1 number of instructions
 */
#include "valctx.h"

void
harness_main(void)
{
    unsigned first = (unsigned)sym_param(0, 0);
    unsigned num = (unsigned)sym_param(1, 8);
    if (first + num > NOPTAB)
        num = NOPTAB - first;
    const struct ins *d = &optab[first + sym_choice(num)];
    uint8_t b[80];
    uint32_t n = 0;
    unsigned nin = (unsigned)strlen(d->in), nout = (unsigned)strlen(d->out);
    /* 0: right, 1..nin: operand changed, nin + 1: operand missing,
     * nin + 2: one too many, nin + 3: after unreachable, last only */
    unsigned var = sym_choice(nin + 4);
    unsigned tab = 0;
    bool usestab = strchr(d->in, '?') || strchr(d->out, '?');
    if (usestab)
        tab = sym_choice(2);
    if (var == nin + 2) {
        b[n++] = 0x20;
        b[n++] = 0;
    }
    if (var == nin + 3)
        b[n++] = 0x00;
    for (unsigned i = 0; i < nin; i++) {
        static const char loc[] = "iIfFvre";
        unsigned l = 0;
        char t = d->in[i];
        if (t == '?')
            t = tab ? 'e' : 'r';
        while (loc[l] != t)
            l++;
        if (var == i + 1)
            l = (l + 1 + sym_choice(6)) % 7;
        if (var == nin + 1 && i == 0)
            continue;
        if (var == nin + 3 && i + 1 < nin)
            continue;
        b[n++] = 0x20;
        b[n++] = (uint8_t)l;
    }
    if (d->prefix) {
        b[n++] = d->prefix;
        if (d->op >= 0x80) {
            b[n++] = d->op;
            b[n++] = 1;
        } else
            b[n++] = d->op;
    } else
        b[n++] = d->op;
    unsigned nsym = 0;
    switch (d->imm) {
    case IMM_NONE: break;
    case IMM_MEMARG:
    case IMM_MEMARGA:
    case IMM_MEM2:
    case IMM_TAB2:
    case IMM_DATAMEM:
    case IMM_ELEMTAB: nsym = 2; break;
    case IMM_MEMLANE: nsym = 3; break;
    case IMM_F32: nsym = 4; break;
    case IMM_F64: nsym = 8; break;
    case IMM_V128: nsym = 16; break;
    case IMM_SHUFFLE:
        memset(b + n, 31, 16);
        sym_code(b + n + sym_choice(16), 1);
        n += 16;
        break;
    default: nsym = 1; break;
    }
    sym_code(b + n, nsym);
    if (usestab)
        b[n] = (uint8_t)tab;
    n += nsym;
    for (unsigned i = 0; i < nout; i++) {
        b[n++] = 0x21;
        sym_code(b + n, 1);
        n++;
    }
    b[n++] = 0x0b;
    valcheck(0, b, n);
}
