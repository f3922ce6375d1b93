/*
 * Reference validator for function bodies, after the algorithm in the
 * appendix of the WebAssembly specification.  Opcode bytes are made concrete
 * as they are met, immediates stay symbolic as long as possible.
 */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <string.h>

#include "optab.h"
#include "sym.h"

struct rctx {
    unsigned ntypes;
    struct {
        const char *p, *r;
    } types[16];
    unsigned nfuncs;
    unsigned functy[16];
    bool declared[16];
    unsigned ntables;
    char tabty[4];
    unsigned nmems;
    unsigned nglobals;
    char globty[8];
    bool globmut[8];
    unsigned nelems;
    char elemty[12];
    bool datacount;
    unsigned ndatas;
    unsigned ntags;
    unsigned tagty[4];
    const char *locals; /* parameters and locals */
    const char *result;
};

#define RV_STACK 40
#define RV_CTRL 12
struct rv {
    const struct rctx *c;
    const uint8_t *p, *e;
    char st[RV_STACK]; /* '*' unknown */
    unsigned n;
    struct {
        const char *start, *end;
        unsigned height;
        bool unreach;
        uint8_t op;
    } ct[RV_CTRL];
    unsigned nct;
    bool bad;
    unsigned nins;
};

static inline uint8_t
rv_u8(struct rv *v)
{
    if (v->p == v->e) {
        v->bad = true;
        return 0;
    }
    return *v->p++;
}
static inline uint8_t
rv_op(struct rv *v)
{
    uint8_t x = rv_u8(v);
    return (uint8_t)sym_concretize(x);
}
/* unsigned LEB128 of 32 bits */
static inline uint32_t
rv_u32(struct rv *v)
{
    uint32_t r = 0;
    for (unsigned i = 0; i < 5 && !v->bad; i++) {
        uint8_t b = rv_u8(v);
        if (i == 4 && (b & 0xf0)) {
            v->bad = true;
            return 0;
        }
        r |= (uint32_t)(b & 0x7f) << (7 * i);
        if (!(b & 0x80))
            return r;
    }
    v->bad = true;
    return 0;
}
/* signed LEB128 of n bits; value only needed for n == 33 */
static inline int64_t
rv_sn(struct rv *v, unsigned n)
{
    uint64_t r = 0;
    unsigned max = (n + 6) / 7;
    for (unsigned i = 0; i < max && !v->bad; i++) {
        uint8_t b = rv_u8(v);
        unsigned used = n - 7 * i;
        if (used < 7) {
            /* the unused bits repeat the sign */
            uint8_t top = (uint8_t)((b & 0x7f) >> (used - 1));
            uint8_t all = (uint8_t)(0x7f >> (used - 1));
            if ((b & 0x80) || (top != 0 && top != all)) {
                v->bad = true;
                return 0;
            }
        }
        r |= (uint64_t)(b & 0x7f) << (7 * i);
        if (!(b & 0x80)) {
            unsigned sh = 7 * (i + 1);
            if (sh < 64 && (b & 0x40))
                r |= ~(uint64_t)0 << sh;
            return (int64_t)r;
        }
    }
    v->bad = true;
    return 0;
}
static inline char
rv_valtype(uint8_t b)
{
    switch (b) {
    case 0x7f: return 'i';
    case 0x7e: return 'I';
    case 0x7d: return 'f';
    case 0x7c: return 'F';
    case 0x7b: return 'v';
    case 0x70: return 'r';
    case 0x6f: return 'e';
    case 0x69: return 'x';
    }
    return 0;
}
static inline bool
rv_isref(char t)
{
    return t == 'r' || t == 'e' || t == 'x' || t == '*';
}
/* index below n, or bad */
static inline uint32_t
rv_idx(struct rv *v, uint32_t n)
{
    uint32_t i = rv_u32(v);
    if (v->bad)
        return 0;
    if (i >= n) {
        v->bad = true;
        return 0;
    }
    return (uint32_t)sym_concretize(i);
}
static inline void
rv_push(struct rv *v, char t)
{
    if (v->n == RV_STACK)
        sym_fail_("internal: validator stack");
    v->st[v->n++] = t;
}
static inline char
rv_popany(struct rv *v)
{
    if (v->bad)
        return '*';
    if (v->n == v->ct[v->nct - 1].height) {
        if (!v->ct[v->nct - 1].unreach)
            v->bad = true;
        return '*';
    }
    return v->st[--v->n];
}
static inline char
rv_pop(struct rv *v, char t)
{
    char x = rv_popany(v);
    if (x != t && x != '*' && t != '*')
        v->bad = true;
    return x;
}
static inline void
rv_pops(struct rv *v, const char *t)
{
    for (unsigned i = (unsigned)strlen(t); i > 0; i--)
        rv_pop(v, t[i - 1]);
}
static inline void
rv_pushs(struct rv *v, const char *t)
{
    for (; *t; t++)
        rv_push(v, *t);
}
static inline void
rv_pushctl(struct rv *v, uint8_t op, const char *s, const char *e)
{
    if (v->nct == RV_CTRL)
        sym_fail_("internal: validator control stack");
    v->ct[v->nct].op = op;
    v->ct[v->nct].start = s;
    v->ct[v->nct].end = e;
    v->ct[v->nct].height = v->n;
    v->ct[v->nct].unreach = false;
    v->nct++;
    rv_pushs(v, s);
}
static inline void
rv_popctl(struct rv *v)
{
    rv_pops(v, v->ct[v->nct - 1].end);
    if (v->n != v->ct[v->nct - 1].height)
        v->bad = true;
    if (!v->bad)
        v->nct--;
}
static inline void
rv_dead(struct rv *v)
{
    v->n = v->ct[v->nct - 1].height;
    v->ct[v->nct - 1].unreach = true;
}
static inline const char *
rv_label(struct rv *v, uint32_t l)
{
    unsigned i = v->nct - 1 - l;
    return v->ct[i].op == 0x03 ? v->ct[i].start : v->ct[i].end;
}
static inline void
rv_blocktype(struct rv *v, const char **p, const char **r)
{
    static const char *const one[] = {"i", "I", "f", "F", "v", "r", "e", "x"};
    *p = *r = "";
    int64_t t = rv_sn(v, 33);
    if (v->bad)
        return;
    if (t >= 0) {
        if (t >= (int64_t)v->c->ntypes)
            v->bad = true;
        else {
            t = (int64_t)sym_concretize((uint64_t)t);
            *p = v->c->types[t].p;
            *r = v->c->types[t].r;
        }
        return;
    }
    if (t < -64) {
        v->bad = true;
        return;
    }
    if (t == -64)
        return;
    t = (int64_t)sym_concretize((uint64_t)t);
    char c = rv_valtype((uint8_t)(t & 0x7f));
    if (!c) {
        v->bad = true;
        return;
    }
    for (unsigned i = 0; i < 8; i++)
        if (one[i][0] == c)
            *r = one[i];
}
static inline void
rv_memarg(struct rv *v, unsigned nat, bool exact)
{
    uint32_t a = rv_u32(v);
    if (v->bad)
        return;
    uint32_t m = 0;
    if (a & 0x40) {
        a &= ~(uint32_t)0x40;
        m = rv_u32(v);
    }
    rv_u32(v);
    if (v->bad)
        return;
    if (m >= v->c->nmems || a > nat || (exact && a != nat))
        v->bad = true;
}

/* one instruction; false at the end of the function */
static inline bool
rv_step(struct rv *v)
{
    const struct rctx *c = v->c;
    const char *p, *r;
    char t, t2;
    uint32_t i, j, n;
    uint8_t op = rv_op(v);
    if (v->bad)
        return false;
    v->nins++;
    switch (op) {
    case 0x00: rv_dead(v); return true;
    case 0x01: return true;
    case 0x02:
    case 0x03:
    case 0x04:
        rv_blocktype(v, &p, &r);
        if (v->bad)
            return false;
        if (op == 0x04)
            rv_pop(v, 'i');
        rv_pops(v, p);
        if (!v->bad)
            rv_pushctl(v, op, p, r);
        return true;
    case 0x05: {
        if (v->ct[v->nct - 1].op != 0x04) {
            v->bad = true;
            return false;
        }
        p = v->ct[v->nct - 1].start;
        r = v->ct[v->nct - 1].end;
        rv_popctl(v);
        if (!v->bad)
            rv_pushctl(v, 0x05, p, r);
        return true;
    }
    case 0x08:
        i = rv_idx(v, c->ntags);
        if (v->bad)
            return false;
        rv_pops(v, c->types[c->tagty[i]].p);
        rv_dead(v);
        return true;
    case 0x0a:
        rv_pop(v, 'x');
        rv_dead(v);
        return true;
    case 0x0b: {
        /* an if without else: the missing branch is empty */
        uint8_t o = v->ct[v->nct - 1].op;
        p = v->ct[v->nct - 1].start;
        r = v->ct[v->nct - 1].end;
        rv_popctl(v);
        if (v->bad)
            return false;
        if (o == 0x04 && strcmp(p, r)) {
            v->bad = true;
            return false;
        }
        rv_pushs(v, r);
        return v->nct != 0;
    }
    case 0x0c:
        i = rv_idx(v, v->nct);
        if (v->bad)
            return false;
        rv_pops(v, rv_label(v, i));
        rv_dead(v);
        return true;
    case 0x0d:
        i = rv_idx(v, v->nct);
        if (v->bad)
            return false;
        rv_pop(v, 'i');
        p = rv_label(v, i);
        rv_pops(v, p);
        rv_pushs(v, p);
        return true;
    case 0x0e: {
        uint32_t l[128];
        n = rv_u32(v);
        if (v->bad)
            return false;
        if (n >= (uint32_t)(v->e - v->p)) {
            v->bad = true; /* there are not enough bytes for the labels */
            return false;
        }
        n = (uint32_t)sym_concretize(n);
        if (n >= 128)
            sym_fail_("internal: validator br_table");
        for (i = 0; i <= n; i++)
            l[i] = rv_idx(v, v->nct);
        if (v->bad)
            return false;
        rv_pop(v, 'i');
        unsigned ar = (unsigned)strlen(rv_label(v, l[n]));
        for (i = 0; i < n; i++) {
            char tmp[8];
            p = rv_label(v, l[i]);
            if (strlen(p) != ar) {
                v->bad = true;
                return false;
            }
            for (j = ar; j > 0; j--)
                tmp[j - 1] = rv_pop(v, p[j - 1]);
            for (j = 0; j < ar; j++)
                rv_push(v, tmp[j]);
        }
        rv_pops(v, rv_label(v, l[n]));
        rv_dead(v);
        return true;
    }
    case 0x0f:
        rv_pops(v, c->result);
        rv_dead(v);
        return true;
    case 0x10:
    case 0x12:
        i = rv_idx(v, c->nfuncs);
        if (v->bad)
            return false;
        i = c->functy[i];
        goto call;
    case 0x11:
    case 0x13:
        i = rv_idx(v, c->ntypes);
        j = rv_idx(v, c->ntables);
        if (v->bad)
            return false;
        if (c->tabty[j] != 'r') {
            v->bad = true;
            return false;
        }
        rv_pop(v, 'i');
    call:
        rv_pops(v, c->types[i].p);
        if (op == 0x12 || op == 0x13) {
            if (strcmp(c->types[i].r, c->result))
                v->bad = true;
            rv_dead(v);
        } else
            rv_pushs(v, c->types[i].r);
        return true;
    case 0x1a: rv_popany(v); return true;
    case 0x1b:
        rv_pop(v, 'i');
        t = rv_popany(v);
        t2 = rv_popany(v);
        if (v->bad)
            return false;
        if ((t != '*' && rv_isref(t)) || (t2 != '*' && rv_isref(t2)) ||
            (t != t2 && t != '*' && t2 != '*')) {
            v->bad = true;
            return false;
        }
        rv_push(v, t == '*' ? t2 : t);
        return true;
    case 0x1c:
        n = rv_u32(v);
        if (v->bad)
            return false;
        if (n != 1) {
            v->bad = true;
            return false;
        }
        t = rv_valtype(rv_op(v));
        if (!t)
            v->bad = true;
        if (v->bad)
            return false;
        rv_pop(v, 'i');
        rv_pop(v, t);
        rv_pop(v, t);
        rv_push(v, t);
        return true;
    case 0x1f: {
        rv_blocktype(v, &p, &r);
        n = rv_u32(v);
        if (v->bad)
            return false;
        if (n > (uint32_t)(v->e - v->p) / 2) {
            v->bad = true;
            return false;
        }
        n = (uint32_t)sym_concretize(n);
        for (i = 0; i < n; i++) {
            uint8_t k = rv_op(v);
            if (v->bad || k > 3) {
                v->bad = true;
                return false;
            }
            char want[16];
            unsigned wn = 0;
            if (k < 2) {
                j = rv_idx(v, c->ntags);
                if (v->bad)
                    return false;
                for (const char *q = c->types[c->tagty[j]].p; *q; q++)
                    want[wn++] = *q;
            }
            if (k & 1)
                want[wn++] = 'x';
            want[wn] = 0;
            j = rv_idx(v, v->nct);
            if (v->bad)
                return false;
            if (strcmp(want, rv_label(v, j))) {
                v->bad = true;
                return false;
            }
        }
        rv_pops(v, p);
        if (!v->bad)
            rv_pushctl(v, op, p, r);
        return true;
    }
    case 0x20:
    case 0x21:
    case 0x22:
        i = rv_idx(v, (uint32_t)strlen(c->locals));
        if (v->bad)
            return false;
        if (op != 0x20)
            rv_pop(v, c->locals[i]);
        if (op != 0x21)
            rv_push(v, c->locals[i]);
        return true;
    case 0x23:
    case 0x24:
        i = rv_idx(v, c->nglobals);
        if (v->bad)
            return false;
        if (op == 0x23)
            rv_push(v, c->globty[i]);
        else {
            rv_pop(v, c->globty[i]);
            if (!c->globmut[i])
                v->bad = true;
        }
        return true;
    case 0xd0:
        t = rv_valtype(rv_op(v));
        if (!t || !rv_isref(t)) {
            v->bad = true;
            return false;
        }
        rv_push(v, t);
        return true;
    case 0xd1:
        t = rv_popany(v);
        if (!rv_isref(t))
            v->bad = true;
        rv_push(v, 'i');
        return true;
    }
    uint32_t sub = op;
    uint8_t pre = 0;
    if (op == 0xfc || op == 0xfd || op == 0xfe) {
        pre = op;
        sub = rv_u32(v);
        if (v->bad)
            return false;
        if (sub > 255) {
            v->bad = true;
            return false;
        }
        sub = (uint32_t)sym_concretize(sub);
    }
    const struct ins *d = NULL;
    for (i = 0; i < NOPTAB; i++)
        if (optab[i].prefix == pre && optab[i].op == sub) {
            d = &optab[i];
            break;
        }
    if (!d) {
        v->bad = true;
        return false;
    }
    char q = 0; /* table element type */
    switch (d->imm) {
    case IMM_NONE: break;
    case IMM_MEMARG: rv_memarg(v, d->x, false); break;
    case IMM_MEMARGA: rv_memarg(v, d->x, true); break;
    case IMM_MEMLANE: {
        rv_memarg(v, d->x, false);
        uint8_t l = rv_u8(v);
        if (l >= (16 >> d->x))
            v->bad = true;
        break;
    }
    case IMM_LANE: {
        uint8_t l = rv_u8(v);
        if (l >= d->x)
            v->bad = true;
        break;
    }
    case IMM_SHUFFLE:
        for (i = 0; i < 16; i++) {
            uint8_t l = rv_u8(v);
            if (l >= 32)
                v->bad = true;
        }
        break;
    case IMM_V128:
        for (i = 0; i < 16; i++)
            rv_u8(v);
        break;
    case IMM_F64:
        for (i = 0; i < 8; i++)
            rv_u8(v);
        break;
    case IMM_F32:
        for (i = 0; i < 4; i++)
            rv_u8(v);
        break;
    case IMM_I32: rv_sn(v, 32); break;
    case IMM_I64: rv_sn(v, 64); break;
    case IMM_ZERO:
        if (rv_u8(v) != 0)
            v->bad = true;
        break;
    case IMM_MEM: rv_idx(v, c->nmems); break;
    case IMM_MEM2:
        rv_idx(v, c->nmems);
        rv_idx(v, c->nmems);
        break;
    case IMM_DATAMEM:
        rv_idx(v, c->datacount ? c->ndatas : 0);
        rv_idx(v, c->nmems);
        break;
    case IMM_DATA: rv_idx(v, c->datacount ? c->ndatas : 0); break;
    case IMM_ELEM: rv_idx(v, c->nelems); break;
    case IMM_ELEMTAB:
        i = rv_idx(v, c->nelems);
        j = rv_idx(v, c->ntables);
        if (!v->bad && c->elemty[i] != c->tabty[j])
            v->bad = true;
        break;
    case IMM_TAB:
        i = rv_idx(v, c->ntables);
        if (!v->bad)
            q = c->tabty[i];
        break;
    case IMM_TAB2:
        i = rv_idx(v, c->ntables);
        j = rv_idx(v, c->ntables);
        if (!v->bad && c->tabty[i] != c->tabty[j])
            v->bad = true;
        break;
    case IMM_FUNCREF:
        i = rv_idx(v, c->nfuncs);
        if (!v->bad && !c->declared[i])
            v->bad = true;
        break;
    }
    if (v->bad)
        return false;
    for (i = (uint32_t)strlen(d->in); i > 0; i--)
        rv_pop(v, d->in[i - 1] == '?' ? q : d->in[i - 1]);
    for (i = 0; d->out[i]; i++)
        rv_push(v, d->out[i] == '?' ? q : d->out[i]);
    return !v->bad;
}

/* does the body (with its final end) validate? */
static inline bool
refval(const struct rctx *c, const uint8_t *p, uint32_t n)
{
    struct rv v;
    memset(&v, 0, sizeof(v));
    v.c = c;
    v.p = p;
    v.e = p + n;
    rv_pushctl(&v, 0x02, "", c->result);
    while (rv_step(&v) && !v.bad)
        ;
    return !v.bad && v.nct == 0 && v.p == v.e;
}
