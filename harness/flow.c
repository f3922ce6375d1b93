/*
 * Structured control flow: nested blocks, loops and ifs with every kind of
 * branch, against a structured reference interpreter.
 *
 * params: 0 kind of the innermost instruction, 1 nesting depth,
 *         2 load options, 3 kind of the outermost block
 *         4 1: all block types on both levels, 0: fewer
 */
#include "wk.h"

enum { FALL, BR, BRIF, BRTABLE, RETURN, UNREACH };
enum { BLOCK, LOOP, IF, IFNOELSE };
enum { PA, PB, PV, PF, C0, C1, C2, C3, C4, CNT, VTMP };

static const struct {
    const char *p, *r;
} types[] = {{"", ""}, {"", "i"}, {"", "Iv"}, {"i", "i"}, {"fI", ""}};

struct lvl {
    unsigned kind, ty, junk;
};
static struct lvl lv[3];
static unsigned depth, inner, extra;
static unsigned tgt[3]; /* absolute level, depth == function */
static unsigned ft;     /* function type */
static const char *ftr[] = {"I", "ivI"};

/* symbolic arguments */
static uint32_t va, vf, vc[5];
static uint64_t vb, vv[2];

struct v {
    uint64_t lo, hi;
};
struct vals {
    char t[4];
    struct v v[4];
};

/* ---- code ---- */
static struct wb *o;
static unsigned tyidx[5];

static void
lget(unsigned i)
{
    wb_u8(o, 0x20);
    wb_uleb(o, i);
}
static void
lset(unsigned i)
{
    wb_u8(o, 0x21);
    wb_uleb(o, i);
}
static void
emit_push(char t, unsigned salt)
{
    switch (t) {
    case 'i':
        lget(PA);
        wb_u8(o, 0x41);
        wb_sleb(o, salt);
        wb_u8(o, 0x6a);
        break;
    case 'I':
        lget(PB);
        wb_u8(o, 0x42);
        wb_sleb(o, salt);
        wb_u8(o, 0x7c);
        break;
    case 'v': lget(PV); break;
    case 'f': lget(PF); break;
    }
}
static void
emit_acc(void)
{
    WB(o, 0x10, 0);
}
static void
emit_fold(char t)
{
    switch (t) {
    case 'f': wb_u8(o, 0xbc); /* i32.reinterpret_f32 */
    /* fallthrough */
    case 'i': wb_u8(o, 0xad); break;
    case 'v':
        WB(o, 0x22, VTMP, 0xfd, 29, 0);
        emit_acc();
        WB(o, 0x20, VTMP, 0xfd, 29, 1);
        break;
    }
    emit_acc();
}
static void
emit_foldall(const char *t)
{
    for (unsigned i = (unsigned)strlen(t); i > 0; i--)
        emit_fold(t[i - 1]);
}
static void
emit_pushall(const char *t, unsigned salt)
{
    for (unsigned i = 0; t[i]; i++)
        emit_push(t[i], salt + i);
}
static void
emit_mark(unsigned m)
{
    wb_u8(o, 0x42);
    wb_sleb(o, m);
    emit_acc();
}
static void
emit_fres(unsigned salt)
{
    for (const char *p = ftr[ft]; *p; p++)
        emit_push(*p, salt);
}
static const char *
labeltypes(unsigned l)
{
    if (l == depth)
        return ftr[ft];
    return lv[l].kind == LOOP ? types[lv[l].ty].p : types[lv[l].ty].r;
}
static void
emit_target_vals(unsigned l)
{
    if (l == depth)
        emit_fres(70);
    else
        emit_pushall(labeltypes(l), 50);
}
/* relative depth of an absolute level seen from the innermost position */
static unsigned
rel(unsigned l)
{
    return l == depth ? depth : depth - 1 - l;
}
static void
emit_inner(void)
{
    emit_mark(5);
    if (extra)
        emit_push('I', 33);
    switch (inner) {
    case FALL: break;
    case BR:
        emit_target_vals(tgt[0]);
        wb_u8(o, 0x0c);
        wb_uleb(o, rel(tgt[0]));
        break;
    case BRIF:
        emit_target_vals(tgt[0]);
        lget(C0);
        wb_u8(o, 0x0d);
        wb_uleb(o, rel(tgt[0]));
        emit_mark(6);
        emit_foldall(labeltypes(tgt[0]));
        break;
    case BRTABLE:
        emit_target_vals(tgt[2]);
        lget(C1);
        WB(o, 0x0e, 2);
        wb_uleb(o, rel(tgt[0]));
        wb_uleb(o, rel(tgt[1]));
        wb_uleb(o, rel(tgt[2]));
        break;
    case RETURN:
        emit_fres(60);
        wb_u8(o, 0x0f);
        break;
    case UNREACH: wb_u8(o, 0x00); break;
    }
    if (extra)
        emit_fold('I');
    emit_mark(7);
}
static void
emit_bt(unsigned ty)
{
    if (ty == 0)
        wb_u8(o, 0x40);
    else if (ty == 1)
        wb_u8(o, T_I32);
    else
        wb_sleb(o, tyidx[ty]);
}
static void
emit_level(unsigned k)
{
    if (k == depth) {
        emit_inner();
        return;
    }
    struct lvl *l = &lv[k];
    const char *p = types[l->ty].p, *r = types[l->ty].r;
    emit_mark(10 + k);
    if (l->junk)
        emit_push('v', 0);
    emit_pushall(p, 20 + k);
    switch (l->kind) {
    case BLOCK: wb_u8(o, 0x02); break;
    case LOOP: wb_u8(o, 0x03); break;
    case IF:
    case IFNOELSE:
        lget(C2 + k);
        wb_u8(o, 0x04);
        break;
    }
    emit_bt(l->ty);
    if (l->kind == LOOP) {
        lget(CNT);
        WB(o, 0x41, 1, 0x6a);
        wb_u8(o, 0x22);
        wb_uleb(o, CNT);
        WB(o, 0x41, 3, 0x4b, 0x04, 0x40);
        emit_fres(80);
        WB(o, 0x0f, 0x0b);
    }
    emit_foldall(p);
    emit_mark(12 + k);
    emit_level(k + 1);
    emit_mark(14 + k);
    emit_pushall(r, 30 + k);
    if (l->kind == IF) {
        wb_u8(o, 0x05);
        emit_foldall(p);
        emit_mark(16 + k);
        emit_pushall(r, 40 + k);
    }
    wb_u8(o, 0x0b);
    emit_foldall(r);
    if (l->junk)
        emit_fold('v');
    emit_mark(18 + k);
}

/* ---- reference ---- */
#define NTRACE 256
static uint64_t trace[NTRACE];
static unsigned ntrace;
static unsigned cnt;
static bool trapped;
static struct vals bv; /* values carried by a branch or return */

static struct v
rpush(char t, unsigned salt)
{
    struct v v = {0, 0};
    switch (t) {
    case 'i': v.lo = (uint32_t)(va + salt); break;
    case 'I': v.lo = vb + salt; break;
    case 'v':
        v.lo = vv[0];
        v.hi = vv[1];
        break;
    case 'f': v.lo = vf; break;
    }
    return v;
}
static void
racc(uint64_t x)
{
    if (ntrace == NTRACE)
        sym_fail_("internal: trace too long");
    trace[ntrace++] = x;
}
static void
rfold(char t, struct v v)
{
    racc(v.lo);
    if (t == 'v')
        racc(v.hi);
}
static void
rfoldall(const char *t, const struct vals *v)
{
    for (unsigned i = (unsigned)strlen(t); i > 0; i--)
        rfold(t[i - 1], v->v[i - 1]);
}
static void
rpushall(const char *t, unsigned salt, struct vals *v)
{
    for (unsigned i = 0; t[i]; i++)
        v->v[i] = rpush(t[i], salt + i);
}
static void
rfres(unsigned salt)
{
    const char *p = ftr[ft];
    for (unsigned i = 0; p[i]; i++)
        bv.v[i] = rpush(p[i], salt);
}
static void
rtarget(unsigned l)
{
    if (l == depth)
        rfres(70);
    else
        rpushall(labeltypes(l), 50, &bv);
}
/* -1: falls through; otherwise the level branched to; depth: return */
static int
rlevel(unsigned k)
{
    if (k == depth) {
        racc(5);
        switch (inner) {
        case FALL: break;
        case BR: rtarget(tgt[0]); return (int)tgt[0];
        case BRIF:
            rtarget(tgt[0]);
            if (vc[0] != 0)
                return (int)tgt[0];
            racc(6);
            rfoldall(labeltypes(tgt[0]), &bv);
            break;
        case BRTABLE:
            rtarget(tgt[2]);
            return (int)(vc[1] == 0 ? tgt[0] : vc[1] == 1 ? tgt[1] : tgt[2]);
        case RETURN: rfres(60); return (int)depth;
        case UNREACH: trapped = true; return (int)depth;
        }
        if (extra)
            rfold('I', rpush('I', 33));
        racc(7);
        return -1;
    }
    struct lvl *l = &lv[k];
    const char *p = types[l->ty].p, *r = types[l->ty].r;
    struct vals pv, rv;
    racc(10 + k);
    rpushall(p, 20 + k, &pv);
    if ((l->kind == IF || l->kind == IFNOELSE) && vc[2 + k] == 0) {
        if (l->kind == IF) {
            rfoldall(p, &pv);
            racc(16 + k);
            rpushall(r, 40 + k, &rv);
        } else
            rv = pv;
    } else {
        for (;;) {
            if (l->kind == LOOP) {
                cnt++;
                if (cnt > 3) {
                    rfres(80);
                    return (int)depth;
                }
            }
            rfoldall(p, &pv);
            racc(12 + k);
            int d = rlevel(k + 1);
            if (d == -1) {
                racc(14 + k);
                rpushall(r, 30 + k, &rv);
                break;
            }
            if (d != (int)k)
                return d;
            if (l->kind != LOOP) {
                rv = bv;
                break;
            }
            pv = bv;
        }
    }
    rfoldall(r, &rv);
    if (l->junk)
        rfold('v', rpush('v', 0));
    racc(18 + k);
    return -1;
}

void
harness_main(void)
{
    inner = (unsigned)sym_param(0, 0);
    depth = (unsigned)sym_param(1, 2);
    wk_opts = (unsigned)sym_param(2, 0);
    bool all = sym_param(4, 0);
    ft = sym_choice(2);
    for (unsigned i = 0; i < depth; i++) {
        lv[i].kind = i == 0 ? (unsigned)sym_param(3, 0) : sym_choice(4);
        if (all || i == depth - 1)
            lv[i].ty = sym_choice(5);
        else
            lv[i].ty = (unsigned)(2 + sym_choice(2));
        lv[i].junk = all ? sym_choice(2) : (i & 1);
        if (lv[i].kind == IFNOELSE &&
            strcmp(types[lv[i].ty].p, types[lv[i].ty].r))
            sym_end();
    }
    extra = inner == FALL ? 0 : sym_choice(2);
    unsigned nt = inner == BRTABLE ? 3 : inner == BR || inner == BRIF ? 1 : 0;
    for (unsigned i = 0; i < nt; i++)
        tgt[i] = sym_choice(depth + 1);
    for (unsigned i = 1; i < nt; i++)
        if (strcmp(labeltypes(tgt[i]), labeltypes(tgt[0])))
            sym_end();
    va = sym_u32();
    vf = sym_u32();
    for (unsigned i = 0; i < 5; i++)
        vc[i] = sym_u32();
    vb = sym_u64();
    vv[0] = sym_u64();
    vv[1] = sym_u64();

    struct wm m;
    struct wk k;
    wm_init(&m);
    for (unsigned i = 0; i < 5; i++)
        tyidx[i] = wm_type(&m, types[i].p, types[i].r);
    /* appends its argument to the trace in memory */
    WMF(&m, "I", "", "", 0x23, 0, 0x20, 0, 0x37, 3, 0, 0x23, 0, 0x41, 8, 0x6a,
        0x24, 0);
    unsigned f = wm_fn(&m, "iIvfiiiii", ftr[ft], "iv", "", 0);
    o = wm_code(&m, f);
    emit_level(0);
    emit_fres(90);
    /* twice in the same execution */
    unsigned g = wm_fn(&m, "iIvfiiiii", "i", "iv", "", 0);
    o = wm_code(&m, g);
    for (unsigned i = 0; i < 2; i++) {
        for (unsigned j = 0; j < 9; j++)
            lget(j);
        wb_u8(o, 0x10);
        wb_uleb(o, f);
        emit_foldall(ftr[ft]);
    }
    WB(o, 0x23, 0);
    WB(&m.mem, 1, 0, 1);
    WB(&m.glob, 1, T_I32, 1, 0x41, 0, 0x0b);
    wm_must(&m, &k);
    struct val a[9], res;
    memset(a, 0, sizeof(a));
    memset(&res, 0, sizeof(res));
    a[0].u.i32 = va;
    a[1].u.i64 = vb;
    memcpy(&a[2].u.v128, vv, 16);
    a[3].u.i32 = vf;
    for (unsigned i = 0; i < 5; i++)
        a[4 + i].u.i32 = vc[i];
    void *p;
    if (memory_instance_getptr2(k.inst->mems.p[0], NTRACE * 8 - 8, 0, 8, &p, NULL))
        sym_fail_("internal: memory");
    int ret = wk_call(&k, g, a, &res);
    /* reference */
    for (unsigned i = 0; i < 2; i++) {
        cnt = 0;
        int d = rlevel(0);
        if (trapped)
            break;
        if (d == -1)
            rfres(90);
        rfoldall(ftr[ft], &bv);
    }
    if (trapped) {
        sym_check(ret == ETOYWASMTRAP && k.trap == TRAP_UNREACHABLE,
                  "unreachable traps");
    } else {
        sym_check(ret == 0, "control flow ends without trap");
        sym_check(res.u.i32 == ntrace * 8,
                  "control flow visits the right number of places");
        sym_reach("ok");
    }
    if (memory_instance_getptr2(k.inst->mems.p[0], 0, 0, NTRACE * 8, &p, NULL))
        sym_fail_("internal: memory");
    for (unsigned i = 0; i < ntrace; i++) {
        uint64_t x;
        memcpy(&x, (char *)p + i * 8, 8);
        sym_check(x == trace[i],
                  "control flow visits the right places with the right "
                  "operands");
        if (i == ntrace - 1)
            sym_observe(x);
    }
    wk_fini(&k);
}
