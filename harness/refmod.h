/*
 * Reference decoder and validator for whole modules, after the WebAssembly
 * specification (with the extensions the runtime is configured for: SIMD,
 * exception handling, extended constant expressions, multiple memories, tail
 * calls, threads, custom page sizes).
 */
#pragma once
#include "refval.h"

#define RM_MAXTYPES 16
struct rmod {
    struct rctx c;
    char tystr[RM_MAXTYPES][2][12];
    unsigned nimpfunc, nimpglob;
    bool has_datacount;
    uint32_t datacount;
    unsigned ndatas;
    unsigned nfuncsec; /* functions defined */
    struct {
        const uint8_t *p;
        uint32_t n;
    } exp[16];
    unsigned nexp;
    char loc[64];
};

/* a count of items of at least one byte each */
static inline uint32_t
rm_count(struct rv *v)
{
    uint32_t n = rv_u32(v);
    if (v->bad)
        return 0;
    if (n > (uint32_t)(v->e - v->p)) {
        v->bad = true;
        return 0;
    }
    return (uint32_t)sym_concretize(n);
}
static inline bool
rm_utf8(const uint8_t *p, uint32_t n)
{
    uint32_t i = 0;
    while (i < n) {
        uint8_t b = p[i++];
        unsigned more;
        uint8_t lo = 0x80, hi = 0xbf;
        if (b < 0x80)
            continue;
        if (b >= 0xc2 && b <= 0xdf)
            more = 1;
        else if (b >= 0xe0 && b <= 0xef) {
            more = 2;
            if (b == 0xe0)
                lo = 0xa0;
            if (b == 0xed)
                hi = 0x9f;
        } else if (b >= 0xf0 && b <= 0xf4) {
            more = 3;
            if (b == 0xf0)
                lo = 0x90;
            if (b == 0xf4)
                hi = 0x8f;
        } else
            return false;
        for (unsigned j = 0; j < more; j++) {
            if (i == n)
                return false;
            uint8_t x = p[i++];
            if (x < lo || x > hi)
                return false;
            lo = 0x80;
            hi = 0xbf;
        }
    }
    return true;
}
static inline void
rm_name(struct rv *v, const uint8_t **pp, uint32_t *np)
{
    uint32_t n = rm_count(v);
    if (v->bad)
        return;
    if (!rm_utf8(v->p, n)) {
        v->bad = true;
        return;
    }
    *pp = v->p;
    *np = n;
    v->p += n;
}
static inline char
rm_valtype(struct rv *v)
{
    char t = rv_valtype(rv_op(v));
    if (!t)
        v->bad = true;
    return t;
}
static inline char
rm_reftype(struct rv *v)
{
    char t = rm_valtype(v);
    if (t != 'r' && t != 'e' && t != 'x')
        v->bad = true;
    return t;
}
static inline void
rm_tabletype(struct rv *v, char *t)
{
    *t = rm_reftype(v);
    uint8_t f = rv_op(v);
    if (v->bad || f > 1) {
        v->bad = true;
        return;
    }
    uint32_t min = rv_u32(v), max = UINT32_MAX;
    if (f)
        max = rv_u32(v);
    if (min > max)
        v->bad = true;
}
static inline void
rm_memtype(struct rv *v)
{
    uint8_t f = rv_op(v);
    /* bit 0 maximum, bit 1 shared, bit 3 page size */
    if (v->bad || (f & ~(uint8_t)0x0b) || ((f & 2) && !(f & 1))) {
        v->bad = true;
        return;
    }
    uint32_t min = rv_u32(v), max = UINT32_MAX;
    bool has = f & 1;
    if (has)
        max = rv_u32(v);
    uint64_t limit = 65536;
    if (f & 8) {
        uint32_t sh = rv_u32(v);
        if (v->bad || (sh != 0 && sh != 16)) {
            v->bad = true;
            return;
        }
        if (sh == 0)
            limit = (uint64_t)1 << 32;
    }
    if (v->bad)
        return;
    if (min > limit || (has && (max > limit || min > max)))
        v->bad = true;
}
static inline void
rm_globaltype(struct rv *v, char *t, bool *mut)
{
    *t = rm_valtype(v);
    uint8_t m = rv_op(v);
    if (m > 1)
        v->bad = true;
    *mut = m == 1;
}
static inline void
rm_tagtype(struct rv *v, struct rmod *m)
{
    uint32_t z = rv_u32(v);
    uint32_t t = rv_u32(v);
    if (v->bad || z != 0 || t >= m->c.ntypes) {
        v->bad = true;
        return;
    }
    t = (uint32_t)sym_concretize(t);
    if (m->c.types[t].r[0])
        v->bad = true;
    /* implementation limit: four cells */
    unsigned cells = 0;
    for (const char *s = m->c.types[t].p; *s; s++)
        cells += *s == 'i' || *s == 'f'   ? 1
                 : *s == 'v'              ? 4
                 : *s == 'x'              ? 6
                                          : 2;
    if (cells > 4)
        v->bad = true;
    m->c.tagty[m->c.ntags++] = t;
}
/* constant expression of type t */
static inline void
rm_const(struct rv *v, struct rmod *m, char t)
{
    char st[8];
    unsigned n = 0;
    for (;;) {
        uint8_t op = rv_op(v);
        if (v->bad)
            return;
        char r = 0;
        uint32_t i;
        switch (op) {
        case 0x0b:
            if (n != 1 || st[0] != t)
                v->bad = true;
            return;
        case 0x23:
            i = rv_u32(v);
            if (v->bad || i >= m->nimpglob) {
                v->bad = true;
                return;
            }
            i = (uint32_t)sym_concretize(i);
            if (m->c.globmut[i])
                v->bad = true;
            r = m->c.globty[i];
            break;
        case 0x41:
            rv_sn(v, 32);
            r = 'i';
            break;
        case 0x42:
            rv_sn(v, 64);
            r = 'I';
            break;
        case 0x43:
            for (i = 0; i < 4; i++)
                rv_u8(v);
            r = 'f';
            break;
        case 0x44:
            for (i = 0; i < 8; i++)
                rv_u8(v);
            r = 'F';
            break;
        case 0x6a:
        case 0x6b:
        case 0x6c:
        case 0x7c:
        case 0x7d:
        case 0x7e:
            r = op < 0x70 ? 'i' : 'I';
            if (n < 2 || st[n - 1] != r || st[n - 2] != r) {
                v->bad = true;
                return;
            }
            n -= 2;
            break;
        case 0xd0: r = rm_reftype(v); break;
        case 0xd2:
            i = rv_u32(v);
            if (v->bad || i >= m->c.nfuncs) {
                v->bad = true;
                return;
            }
            i = (uint32_t)sym_concretize(i);
            m->c.declared[i] = true;
            r = 'r';
            break;
        case 0xfd:
            i = rv_u32(v);
            if (v->bad || i != 12) {
                v->bad = true;
                return;
            }
            for (i = 0; i < 16; i++)
                rv_u8(v);
            r = 'v';
            break;
        default: v->bad = true; return;
        }
        if (v->bad)
            return;
        if (n == 8)
            sym_fail_("internal: constant expression");
        st[n++] = r;
    }
}
static inline void
rm_type(struct rv *v, struct rmod *m)
{
    unsigned k = m->c.ntypes;
    if (k == RM_MAXTYPES)
        sym_fail_("internal: types");
    if (rv_op(v) != 0x60)
        v->bad = true;
    for (unsigned j = 0; j < 2 && !v->bad; j++) {
        uint32_t n = rm_count(v);
        for (uint32_t i = 0; i < n && !v->bad; i++) {
            char t = rm_valtype(v);
            if (v->bad)
                return;
            if (i + 1 >= sizeof(m->tystr[k][j]))
                sym_fail_("internal: long type");
            m->tystr[k][j][i] = t;
        }
    }
    m->c.types[k].p = m->tystr[k][0];
    m->c.types[k].r = m->tystr[k][1];
    m->c.ntypes++;
}
static inline void
rm_func(struct rv *v, struct rmod *m)
{
    uint32_t t = rv_u32(v);
    if (v->bad || t >= m->c.ntypes) {
        v->bad = true;
        return;
    }
    if (m->c.nfuncs == 16)
        sym_fail_("internal: functions");
    m->c.functy[m->c.nfuncs++] = (unsigned)sym_concretize(t);
}
static inline void
rm_import(struct rv *v, struct rmod *m)
{
    const uint8_t *p;
    uint32_t n;
    rm_name(v, &p, &n);
    if (!v->bad)
        rm_name(v, &p, &n);
    uint8_t k = rv_op(v);
    if (v->bad)
        return;
    switch (k) {
    case 0:
        rm_func(v, m);
        m->nimpfunc++;
        break;
    case 1: rm_tabletype(v, &m->c.tabty[m->c.ntables++]); break;
    case 2:
        rm_memtype(v);
        m->c.nmems++;
        break;
    case 3:
        rm_globaltype(v, &m->c.globty[m->c.nglobals],
                      &m->c.globmut[m->c.nglobals]);
        m->c.nglobals++;
        m->nimpglob++;
        break;
    case 4: rm_tagtype(v, m); break;
    default: v->bad = true;
    }
}
static inline void
rm_export(struct rv *v, struct rmod *m)
{
    const uint8_t *p = NULL;
    uint32_t n = 0;
    rm_name(v, &p, &n);
    uint8_t k = rv_op(v);
    uint32_t i = rv_u32(v);
    if (v->bad)
        return;
    uint32_t max;
    switch (k) {
    case 0: max = m->c.nfuncs; break;
    case 1: max = m->c.ntables; break;
    case 2: max = m->c.nmems; break;
    case 3: max = m->c.nglobals; break;
    case 4: max = m->c.ntags; break;
    default: v->bad = true; return;
    }
    if (i >= max) {
        v->bad = true;
        return;
    }
    if (k == 0)
        m->c.declared[sym_concretize(i)] = true;
    for (unsigned j = 0; j < m->nexp; j++)
        if (m->exp[j].n == n && !memcmp(m->exp[j].p, p, n)) {
            v->bad = true;
            return;
        }
    if (m->nexp == 16)
        sym_fail_("internal: exports");
    m->exp[m->nexp].p = p;
    m->exp[m->nexp++].n = n;
}
static inline void
rm_elem(struct rv *v, struct rmod *m)
{
    uint32_t f = rv_u32(v);
    if (v->bad || f > 7) {
        v->bad = true;
        return;
    }
    f = (uint32_t)sym_concretize(f);
    uint32_t tab = 0;
    if (!(f & 1)) {
        if (f & 2)
            tab = rv_u32(v);
        rm_const(v, m, 'i');
    }
    char t = 'r';
    if (f & 3) {
        if (f & 4)
            t = rm_reftype(v);
        else if (rv_u8(v) != 0)
            v->bad = true;
    }
    if (v->bad)
        return;
    uint32_t n = rm_count(v);
    for (uint32_t i = 0; i < n && !v->bad; i++) {
        if (f & 4)
            rm_const(v, m, t);
        else {
            uint32_t x = rv_u32(v);
            if (v->bad || x >= m->c.nfuncs) {
                v->bad = true;
                return;
            }
            m->c.declared[sym_concretize(x)] = true;
        }
    }
    if (v->bad)
        return;
    if (!(f & 1)) {
        if (tab >= m->c.ntables) {
            v->bad = true;
            return;
        }
        if (m->c.tabty[sym_concretize(tab)] != t)
            v->bad = true;
    }
    if (m->c.nelems == 12)
        sym_fail_("internal: segments");
    m->c.elemty[m->c.nelems++] = t;
}
static inline void
rm_code(struct rv *v, struct rmod *m, unsigned idx)
{
    uint32_t n = rm_count(v);
    if (v->bad)
        return;
    if (idx >= m->nfuncsec) {
        v->bad = true;
        return;
    }
    struct rv b = *v;
    b.e = v->p + n;
    v->p += n;
    unsigned ty = m->c.functy[m->nimpfunc + idx];
    unsigned nl = 0;
    uint64_t total = 0;
    for (const char *s = m->c.types[ty].p; *s; s++)
        m->loc[nl++] = *s;
    total = nl;
    uint32_t groups = rm_count(&b);
    for (uint32_t i = 0; i < groups && !b.bad; i++) {
        uint32_t k = rv_u32(&b);
        char t = rm_valtype(&b);
        if (b.bad)
            break;
        total += k;
        if (total > UINT32_MAX) {
            b.bad = true;
            break;
        }
        /* the bodies used here do not look at locals beyond these */
        for (unsigned j = 0; j < 8 && j < k; j++) {
            if (nl + 1 >= sizeof(m->loc))
                sym_fail_("internal: locals");
            m->loc[nl++] = t;
        }
    }
    m->loc[nl] = 0;
    if (b.bad) {
        v->bad = true;
        return;
    }
    m->c.locals = m->loc;
    m->c.result = m->c.types[ty].r;
    m->c.datacount = m->has_datacount;
    m->c.ndatas = m->datacount;
    if (!refval(&m->c, b.p, (uint32_t)(b.e - b.p)))
        v->bad = true;
}
static inline void
rm_data(struct rv *v, struct rmod *m)
{
    uint32_t f = rv_u32(v);
    if (v->bad || f > 2) {
        v->bad = true;
        return;
    }
    f = (uint32_t)sym_concretize(f);
    if (f != 1) {
        uint32_t mem = 0;
        if (f == 2)
            mem = rv_u32(v);
        if (v->bad || mem >= m->c.nmems) {
            v->bad = true;
            return;
        }
        rm_const(v, m, 'i');
    }
    if (v->bad)
        return;
    uint32_t n = rm_count(v);
    if (v->bad)
        return;
    v->p += n;
    m->ndatas++;
}

/* 1: valid, 0: not; custom sections are only checked for their name */
static bool
refmodule(const uint8_t *p, uint32_t size)
{
    static const uint8_t hdr[8] = {0, 'a', 's', 'm', 1, 0, 0, 0};
    /* position of the section ids in the required order */
    static const uint8_t order[14] = {0, 1, 2, 3, 4,  5,  7,
                                      8, 9, 10, 12, 13, 11, 6};
    struct rmod *m = malloc(sizeof(*m));
    struct rv top, *t = &top;
    bool ok = false;
    memset(m, 0, sizeof(*m));
    memset(t, 0, sizeof(*t));
    t->p = p;
    t->e = p + size;
    for (unsigned i = 0; i < 8; i++)
        if (rv_u8(t) != hdr[i] || t->bad)
            goto out;
    unsigned last = 0, ncode = 0;
    while (t->p < t->e) {
        uint8_t id = rv_op(t);
        uint32_t n = rm_count(t);
        if (t->bad || id > 13)
            goto out;
        struct rv sec, *v = &sec;
        memset(v, 0, sizeof(*v));
        v->p = t->p;
        v->e = t->p + n;
        t->p += n;
        if (id == 0) {
            const uint8_t *np;
            uint32_t nn;
            rm_name(v, &np, &nn);
            if (v->bad)
                goto out;
            continue;
        }
        if (order[id] <= last)
            goto out;
        last = order[id];
        if (id == 8) {
            uint32_t s = rv_u32(v);
            if (v->bad || s >= m->c.nfuncs || v->p != v->e)
                goto out;
            s = m->c.functy[sym_concretize(s)];
            if (m->c.types[s].p[0] || m->c.types[s].r[0])
                goto out;
            continue;
        }
        if (id == 12) {
            m->datacount = rv_u32(v);
            m->has_datacount = true;
            if (v->bad || v->p != v->e)
                goto out;
            continue;
        }
        uint32_t cnt = rm_count(v);
        for (uint32_t i = 0; i < cnt && !v->bad; i++)
            switch (id) {
            case 1: rm_type(v, m); break;
            case 2: rm_import(v, m); break;
            case 3:
                rm_func(v, m);
                m->nfuncsec++;
                break;
            case 4:
                if (m->c.ntables == 4)
                    sym_fail_("internal: tables");
                rm_tabletype(v, &m->c.tabty[m->c.ntables++]);
                break;
            case 5:
                rm_memtype(v);
                m->c.nmems++;
                break;
            case 13:
                if (m->c.ntags == 4)
                    sym_fail_("internal: tags");
                rm_tagtype(v, m);
                break;
            case 6: {
                char ty;
                bool mut;
                rm_globaltype(v, &ty, &mut);
                if (v->bad)
                    break;
                rm_const(v, m, ty);
                if (m->c.nglobals == 8)
                    sym_fail_("internal: globals");
                m->c.globty[m->c.nglobals] = ty;
                m->c.globmut[m->c.nglobals++] = mut;
                break;
            }
            case 7: rm_export(v, m); break;
            case 9: rm_elem(v, m); break;
            case 10:
                rm_code(v, m, i);
                ncode++;
                break;
            case 11: rm_data(v, m); break;
            }
        if (v->bad || v->p != v->e)
            goto out;
    }
    if (ncode != m->nfuncsec)
        goto out;
    if (m->has_datacount && m->datacount != m->ndatas)
        goto out;
    ok = true;
out:
    free(m);
    return ok;
}
