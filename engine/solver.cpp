#include "solver.h"

#include <bitset>
#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

SolverStats g_ss;
unsigned g_query_timeout_ms = 120000;
double g_deadline_s = 1e18;

static Z3_context C;
static Z3_tactic g_bv, g_fp;
static std::unordered_map<E, Z3_ast> g_fpcache;

static void
errh(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    exit(3);
}

void
solver_init()
{
    Z3_config cfg = Z3_mk_config();
    /* every AST lives as long as the context */
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, errh);
    g_bv = Z3_mk_tactic(C, "qfbv");
    Z3_tactic_inc_ref(C, g_bv);
    g_fp = Z3_mk_tactic(C, "qffpbv");
    Z3_tactic_inc_ref(C, g_fp);
}

static Z3_ast
keep(Z3_ast a)
{
    Z3_inc_ref(C, a);
    return a;
}

static Z3_sort
bvs(unsigned w)
{
    return Z3_mk_bv_sort(C, w);
}
static Z3_ast
num(u128 v, unsigned w)
{
    char b[64];
    if (w <= 64) {
        snprintf(b, sizeof b, "%llu", (unsigned long long)v);
        return Z3_mk_numeral(C, b, bvs(w));
    }
    /* decimal conversion of a 128 bit number */
    char t[64];
    int i = 63;
    t[i] = 0;
    if (v == 0)
        t[--i] = '0';
    while (v) {
        t[--i] = '0' + (int)(v % 10);
        v /= 10;
    }
    return Z3_mk_numeral(C, t + i, bvs(w));
}

static Z3_ast tobv(E e);
static Z3_ast tobool(E e);

static Z3_sort
fps(unsigned w)
{
    return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C);
}

static bool
isfpop(E e)
{
    switch (e->op) {
    case O_FADD:
    case O_FSUB:
    case O_FMUL:
    case O_FDIV:
    case O_FSQRT:
    case O_FRND:
    case O_FCVT:
    case O_S2F:
    case O_U2F: return true;
    default: return false;
    }
}

static Z3_ast
tofp(E e)
{
    auto it = g_fpcache.find(e);
    if (it != g_fpcache.end())
        return it->second;
    Z3_ast r;
    Z3_ast rne = Z3_mk_fpa_rne(C);
    switch (e->op) {
    case O_FADD: r = Z3_mk_fpa_add(C, rne, tofp(e->k[0]), tofp(e->k[1])); break;
    case O_FSUB: r = Z3_mk_fpa_sub(C, rne, tofp(e->k[0]), tofp(e->k[1])); break;
    case O_FMUL: r = Z3_mk_fpa_mul(C, rne, tofp(e->k[0]), tofp(e->k[1])); break;
    case O_FDIV: r = Z3_mk_fpa_div(C, rne, tofp(e->k[0]), tofp(e->k[1])); break;
    case O_FSQRT: r = Z3_mk_fpa_sqrt(C, rne, tofp(e->k[0])); break;
    case O_FRND: {
        Z3_ast m = e->a == 0   ? Z3_mk_fpa_rtn(C)
                   : e->a == 1 ? Z3_mk_fpa_rtp(C)
                   : e->a == 2 ? Z3_mk_fpa_rtz(C)
                               : rne;
        r = Z3_mk_fpa_round_to_integral(C, m, tofp(e->k[0]));
        break;
    }
    case O_FCVT:
        r = Z3_mk_fpa_to_fp_float(C, rne, tofp(e->k[0]), fps(e->w));
        break;
    case O_S2F:
        r = Z3_mk_fpa_to_fp_signed(C, rne, tobv(e->k[0]), fps(e->w));
        break;
    case O_U2F:
        r = Z3_mk_fpa_to_fp_unsigned(C, rne, tobv(e->k[0]), fps(e->w));
        break;
    case O_ITE:
        if (isfpop(e->k[1]) || isfpop(e->k[2])) {
            r = Z3_mk_ite(C, tobool(e->k[0]), tofp(e->k[1]), tofp(e->k[2]));
            break;
        }
        /* fallthrough */
    default: r = Z3_mk_fpa_to_fp_bv(C, tobv(e), fps(e->w)); break;
    }
    keep(r);
    g_fpcache[e] = r;
    return r;
}

static Z3_ast
varast(E e)
{
    char b[32];
    snprintf(b, sizeof b, "v%u", e->a);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, b), bvs(e->w));
}

static Z3_ast
bool2bv(Z3_ast b)
{
    return Z3_mk_ite(C, b, num(1, 1), num(0, 1));
}

/*
 * Division by a constant: quotient and remainder are variables with a
 * defining constraint, which is much easier than a division circuit.
 */
static bool
constdiv(E e)
{
    if (!isc(e->k[1]) || e->k[1]->c == 0 || e->w <= 8)
        return false;
    if (e->op == O_UDIV || e->op == O_UREM)
        return true;
    return !(e->k[1]->c >> (e->w - 1));
}
static bool
isdiv(E e)
{
    return e->op == O_UDIV || e->op == O_UREM || e->op == O_SDIV ||
           e->op == O_SREM;
}
static Z3_ast
divvar(E e)
{
    char b[80];
    snprintf(b, sizeof b, "%s%u_%u",
             e->op == O_UDIV   ? "q"
             : e->op == O_UREM ? "r"
             : e->op == O_SDIV ? "sq"
                               : "sr",
             e->k[0]->id, e->k[1]->id);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, b), bvs(e->w));
}
static std::unordered_map<E, Z3_ast> g_divdef;
static Z3_ast
divdef(E e)
{
    auto it = g_divdef.find(e);
    if (it != g_divdef.end())
        return it->second;
    bool sg = e->op == O_SDIV || e->op == O_SREM;
    Expr q = *e, r = *e;
    q.op = sg ? O_SDIV : O_UDIV;
    r.op = sg ? O_SREM : O_UREM;
    Z3_ast x = tobv(e->k[0]), d = tobv(e->k[1]);
    Z3_ast zq = divvar(&q), zr = divvar(&r);
    if (sg) {
        /* toward zero: the remainder has the sign of x */
        u128 half = (u128)1 << (e->w - 1);
        Z3_ast zero = num(0, e->w);
        Z3_ast p[4] = {
                Z3_mk_bvsge(C, zq, zero), Z3_mk_bvsge(C, zr, zero),
                Z3_mk_bvsle(C, zq, num((half - 1) / e->k[1]->c, e->w)),
                Z3_mk_bvslt(C, zr, d)};
        Z3_ast n[4] = {
                Z3_mk_bvsle(C, zq, zero), Z3_mk_bvsle(C, zr, zero),
                Z3_mk_bvsge(C, zq, num(-(half / e->k[1]->c) & maskw(e->w),
                                       e->w)),
                Z3_mk_bvsgt(C, zr, Z3_mk_bvneg(C, d))};
        Z3_ast a[2] = {
                Z3_mk_ite(C, Z3_mk_bvsge(C, x, zero), Z3_mk_and(C, 4, p),
                          Z3_mk_and(C, 4, n)),
                Z3_mk_eq(C, Z3_mk_bvadd(C, Z3_mk_bvmul(C, zq, d), zr), x)};
        Z3_ast v = Z3_mk_and(C, 2, a);
        keep(v);
        g_divdef[e] = v;
        return v;
    }
    Z3_ast a[3] = {
            Z3_mk_bvule(C, zq, num(maskw(e->w) / e->k[1]->c, e->w)),
            Z3_mk_bvult(C, zr, d),
            Z3_mk_eq(C, Z3_mk_bvadd(C, Z3_mk_bvmul(C, zq, d), zr), x)};
    /* no wrap around: q * d <= x */
    Z3_ast b[2] = {Z3_mk_and(C, 3, a),
                   Z3_mk_bvule(C, Z3_mk_bvmul(C, zq, d), x)};
    Z3_ast v = Z3_mk_and(C, 2, b);
    keep(v);
    g_divdef[e] = v;
    return v;
}
static std::unordered_map<E, std::vector<E>> g_divs;
/* the divisions in an expression */
static const std::vector<E> &
divs(E e)
{
    static const std::vector<E> none;
    if (isc(e) || e->op == O_VAR)
        return none;
    auto it = g_divs.find(e);
    if (it != g_divs.end())
        return it->second;
    std::vector<E> v;
    if (isdiv(e) && constdiv(e))
        v.push_back(e);
    for (int i = 0; i < 3; i++)
        if (e->k[i])
            for (E d : divs(e->k[i]))
                v.push_back(d);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return g_divs[e] = v;
}

/* cached: Bool sort for width 1, BV sort otherwise */
static Z3_ast
trans(E e)
{
    if (e->z3)
        return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    if (e->w == 1) {
        switch (e->op) {
        case O_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case O_VAR: r = Z3_mk_eq(C, varast(e), num(1, 1)); break;
        case O_AND: {
            Z3_ast a[2] = {tobool(e->k[0]), tobool(e->k[1])};
            r = Z3_mk_and(C, 2, a);
            break;
        }
        case O_OR: {
            Z3_ast a[2] = {tobool(e->k[0]), tobool(e->k[1])};
            r = Z3_mk_or(C, 2, a);
            break;
        }
        case O_XOR:
            if (isc(e->k[1]))
                r = Z3_mk_not(C, tobool(e->k[0]));
            else
                r = Z3_mk_xor(C, tobool(e->k[0]), tobool(e->k[1]));
            break;
        case O_EQ:
            if (e->k[0]->w == 1)
                r = Z3_mk_iff(C, tobool(e->k[0]), tobool(e->k[1]));
            else
                r = Z3_mk_eq(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_ULT: r = Z3_mk_bvult(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_SLT: r = Z3_mk_bvslt(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_ITE:
            r = Z3_mk_ite(C, tobool(e->k[0]), tobool(e->k[1]),
                          tobool(e->k[2]));
            break;
        case O_EXTRACT:
            r = Z3_mk_eq(C, Z3_mk_extract(C, e->a, e->a, tobv(e->k[0])),
                         num(1, 1));
            break;
        default: break;
        }
        if (!r) {
            /* arithmetic on one bit: rare */
            Z3_ast x = tobv(e->k[0]), y = tobv(e->k[1]);
            Z3_ast v = nullptr;
            switch (e->op) {
            case O_ADD: v = Z3_mk_bvadd(C, x, y); break;
            case O_MUL: v = Z3_mk_bvmul(C, x, y); break;
            case O_UDIV: v = Z3_mk_bvudiv(C, x, y); break;
            case O_SDIV: v = Z3_mk_bvsdiv(C, x, y); break;
            case O_UREM: v = Z3_mk_bvurem(C, x, y); break;
            case O_SREM: v = Z3_mk_bvsrem(C, x, y); break;
            case O_SHL: v = Z3_mk_bvshl(C, x, y); break;
            case O_LSHR: v = Z3_mk_bvlshr(C, x, y); break;
            case O_ASHR: v = Z3_mk_bvashr(C, x, y); break;
            default:
                fprintf(stderr, "trans: op %d at width 1\n", e->op);
                exit(3);
            }
            r = Z3_mk_eq(C, v, num(1, 1));
        }
    } else {
        switch (e->op) {
        case O_CONST: r = num(e->c, e->w); break;
        case O_VAR: r = varast(e); break;
        case O_ADD:
            if (e->k[1]->op == O_MUL && isc(e->k[1]->k[1]) &&
                e->k[1]->k[1]->c == maskw(e->w))
                r = Z3_mk_bvsub(C, tobv(e->k[0]), tobv(e->k[1]->k[0]));
            else if (e->k[0]->op == O_MUL && isc(e->k[0]->k[1]) &&
                     e->k[0]->k[1]->c == maskw(e->w))
                r = Z3_mk_bvsub(C, tobv(e->k[1]), tobv(e->k[0]->k[0]));
            else
                r = Z3_mk_bvadd(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_MUL:
            if (isc(e->k[1]) && e->k[1]->c == maskw(e->w))
                r = Z3_mk_bvneg(C, tobv(e->k[0]));
            else
                r = Z3_mk_bvmul(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_UDIV:
            r = constdiv(e) ? divvar(e)
                            : Z3_mk_bvudiv(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_SDIV:
            r = constdiv(e) ? divvar(e)
                            : Z3_mk_bvsdiv(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_UREM:
            r = constdiv(e) ? divvar(e)
                            : Z3_mk_bvurem(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_SREM:
            r = constdiv(e) ? divvar(e)
                            : Z3_mk_bvsrem(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_AND: r = Z3_mk_bvand(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_OR: r = Z3_mk_bvor(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_XOR:
            if (isc(e->k[1]) && e->k[1]->c == maskw(e->w))
                r = Z3_mk_bvnot(C, tobv(e->k[0]));
            else
                r = Z3_mk_bvxor(C, tobv(e->k[0]), tobv(e->k[1]));
            break;
        case O_SHL: r = Z3_mk_bvshl(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_LSHR: r = Z3_mk_bvlshr(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_ASHR: r = Z3_mk_bvashr(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_CONCAT: r = Z3_mk_concat(C, tobv(e->k[0]), tobv(e->k[1])); break;
        case O_EXTRACT:
            r = Z3_mk_extract(C, e->a + e->w - 1, e->a, tobv(e->k[0]));
            break;
        case O_ZEXT:
            r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, tobv(e->k[0]));
            break;
        case O_SEXT:
            r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, tobv(e->k[0]));
            break;
        case O_ITE:
            r = Z3_mk_ite(C, tobool(e->k[0]), tobv(e->k[1]), tobv(e->k[2]));
            break;
        case O_F2S:
            r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), tofp(e->k[0]), e->w);
            break;
        case O_F2U:
            r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), tofp(e->k[0]), e->w);
            break;
        default:
            if (isfpop(e)) {
                Z3_ast f = tofp(e);
                Z3_ast canon = num(e->w == 32 ? (u128)0x7fc00000u
                                              : (u128)0x7ff8000000000000ull,
                                   e->w);
                r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), canon,
                              Z3_mk_fpa_to_ieee_bv(C, f));
                break;
            }
            fprintf(stderr, "trans: op %d\n", e->op);
            exit(3);
        }
    }
    keep(r);
    e->z3 = r;
    return r;
}

static Z3_ast
tobv(E e)
{
    Z3_ast r = trans(e);
    return e->w == 1 ? bool2bv(r) : r;
}
static Z3_ast
tobool(E e)
{
    return trans(e);
}

/* does the expression contain floating point operations */
static std::unordered_map<E, bool> g_hasfp;
static bool
hasfp(E e)
{
    if (isc(e) || e->op == O_VAR)
        return false;
    auto it = g_hasfp.find(e);
    if (it != g_hasfp.end())
        return it->second;
    bool r = e->op >= O_FADD;
    for (int i = 0; i < 3 && !r; i++)
        if (e->k[i])
            r = hasfp(e->k[i]);
    g_hasfp[e] = r;
    return r;
}

struct CacheEnt {
    std::vector<uint32_t> key;
    Res res;
    std::vector<std::pair<uint32_t, u128>> model;
};
static std::unordered_multimap<uint64_t, CacheEnt> g_cache;

static u128
parse_num(const char *s)
{
    u128 v = 0;
    while (*s >= '0' && *s <= '9')
        v = v * 10 + (*s++ - '0');
    return v;
}

static Z3_lbool
z3check(const std::vector<E> &cs, bool fp, unsigned ms, Z3_solver *sp)
{
    Z3_solver s = Z3_mk_solver_from_tactic(C, fp ? g_fp : g_bv);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (E c : cs) {
        Z3_solver_assert(C, s, tobool(c));
        for (E d : divs(c))
            Z3_solver_assert(C, s, divdef(d));
    }
    *sp = s;
    return Z3_solver_check(C, s);
}

/*
 * Look for a model of a conjunction by local changes to the known one.
 * Finding one settles the query; not finding one says nothing.
 */
static bool
search(const std::vector<E> &cs, const std::vector<uint32_t> &vars,
       const Model &base, Model *out)
{
    static uint64_t rng = 88172645463325252ull;
    auto rnd = [&]() {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng;
    };
    static const u128 sp[] = {
            0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff,
            0x80000000u, 0xffffffffu, 0x7fffffffffffffffull,
            0x8000000000000000ull, ~0ull, 0x3f800000, 0xbf800000, 0x3f000000,
            0xbf000000, 0x7f800000, 0xff800000u, 0x7fc00000, 0x4b800001,
            0x4f000000, 0xcf000000u, 0x5f000000, 0x3ff0000000000000ull,
            0xbff0000000000000ull, 0x3fe0000000000000ull,
            0xbfe0000000000000ull, 0x7ff0000000000000ull,
            0xfff0000000000000ull, 0x41e0000000000000ull,
            0xc1e0000000000000ull, 0x43e0000000000000ull,
            0x4340000000000001ull, 0x36a0000000000001ull};
    Model m = base;
    if (m.size() < g_varwidth.size())
        m.resize(g_varwidth.size(), 0);
    for (int n = 0; n < 3000; n++) {
        Model t = m;
        for (uint32_t v : vars) {
            uint64_t k = rnd();
            u128 x;
            switch (k & 3) {
            case 0: continue;
            case 1:
                x = sp[(k >> 8) % (sizeof sp / sizeof sp[0])];
                if (k & 64)
                    x += (k >> 32) % 3 - 1;
                break;
            case 2: x = ((u128)rnd() << 64) | rnd(); break;
            default: x = t[v] ^ ((u128)1 << ((k >> 8) % g_varwidth[v])); break;
            }
            t[v] = x & maskw(g_varwidth[v]);
        }
        bool ok = true;
        for (E c : cs)
            if (!evalexpr(c, t)) {
                ok = false;
                break;
            }
        if (ok) {
            *out = t;
            return true;
        }
    }
    return false;
}

/* values of the variable v for which a condition on v alone holds */
static const std::bitset<256> &
truth(E c, uint32_t v)
{
    static std::unordered_map<E, std::bitset<256>> memo;
    auto it = memo.find(c);
    if (it != memo.end())
        return it->second;
    std::bitset<256> b;
    Model m(g_varwidth.size(), 0);
    for (unsigned x = 0; x >> g_varwidth[v] == 0; x++) {
        m[v] = x;
        if (evalexpr(c, m))
            b[x] = true;
    }
    return memo[c] = b;
}

Res
solve(const std::vector<E> &pc, E extra, const Model &base, Model *out)
{
    if (isc(extra)) {
        if (extra->c && out)
            *out = base;
        return extra->c ? R_SAT : R_UNSAT;
    }
    if (evalexpr(extra, base)) {
        g_ss.bymodel++;
        if (out)
            *out = base;
        return R_SAT;
    }
    /* slice */
    std::vector<bool> in(g_varwidth.size(), false);
    std::vector<uint32_t> vars = exprvars(extra);
    for (uint32_t v : vars)
        in[v] = true;
    std::vector<char> used(pc.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i])
                continue;
            const auto &cv = exprvars(pc[i]);
            bool hit = false;
            for (uint32_t v : cv)
                if (in[v]) {
                    hit = true;
                    break;
                }
            if (!hit)
                continue;
            used[i] = 1;
            changed = true;
            for (uint32_t v : cv)
                if (!in[v]) {
                    in[v] = true;
                    vars.push_back(v);
                }
        }
    }
    std::vector<uint32_t> key;
    if (vars.size() == 1 && g_varwidth[vars[0]] <= 8) {
        uint32_t v = vars[0];
        Model m = base;
        if (m.size() < g_varwidth.size())
            m.resize(g_varwidth.size(), 0);
        g_ss.small++;
        std::bitset<256> b = truth(extra, v);
        for (size_t i = 0; i < pc.size(); i++)
            if (used[i])
                b &= truth(pc[i], v);
        if (b.any()) {
            m[v] = b._Find_first();
            if (out)
                *out = m;
            return R_SAT;
        }
        return R_UNSAT;
    }
    bool fp = hasfp(extra);
    for (size_t i = 0; i < pc.size(); i++)
        if (used[i]) {
            key.push_back(pc[i]->id);
            fp = fp || hasfp(pc[i]);
        }
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(extra->id);
    uint64_t h = 1469598103934665603ull;
    for (uint32_t v : key) {
        h ^= v;
        h *= 1099511628211ull;
    }
    auto rg = g_cache.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it)
        if (it->second.key == key) {
            g_ss.cached++;
            if (it->second.res == R_SAT && out) {
                *out = base;
                if (out->size() < g_varwidth.size())
                    out->resize(g_varwidth.size(), 0);
                for (auto &p : it->second.model)
                    (*out)[p.first] = p.second;
            }
            return it->second.res;
        }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<E> cs;
    for (size_t i = 0; i < pc.size(); i++)
        if (used[i])
            cs.push_back(pc[i]);
    cs.push_back(extra);
    double left =
            (g_deadline_s -
             std::chrono::duration<double>(t0.time_since_epoch()).count()) *
            1000;
    unsigned limit = left > g_query_timeout_ms ? g_query_timeout_ms
                     : left < 300              ? 300
                                               : (unsigned)left;
    unsigned first = limit < 4000 ? limit : 4000;
    Z3_solver s;
    Z3_lbool r = z3check(cs, fp, first, &s);
    Model guess;
    bool guessed = false;
    if (r == Z3_L_UNDEF) {
        /* a hard query: try the values that matter at boundaries before
         * giving it to the solver for longer */
        guessed = search(cs, vars, base, &guess);
        if (!guessed && limit > first) {
            Z3_solver_dec_ref(C, s);
            r = z3check(cs, fp, limit - first, &s);
        }
    }
    CacheEnt ent;
    ent.key = key;
    if (guessed) {
        ent.res = R_SAT;
        for (uint32_t v : vars)
            ent.model.push_back({v, guess[v]});
        if (out)
            *out = guess;
    } else if (r == Z3_L_TRUE) {
        ent.res = R_SAT;
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        for (uint32_t v : vars) {
            E ve = mkvar(v, g_varwidth[v]);
            Z3_ast a = varast(ve);
            Z3_inc_ref(C, a);
            Z3_ast val = nullptr;
            u128 x = 0;
            if (Z3_model_eval(C, m, a, true, &val) &&
                Z3_is_numeral_ast(C, val))
                x = parse_num(Z3_get_numeral_string(C, val));
            Z3_dec_ref(C, a);
            ent.model.push_back({v, x});
        }
        Z3_model_dec_ref(C, m);
        Model nm = base;
        if (nm.size() < g_varwidth.size())
            nm.resize(g_varwidth.size(), 0);
        for (auto &pr : ent.model)
            nm[pr.first] = pr.second;
        /* the model must satisfy the query under our own evaluator */
        bool ok = evalexpr(extra, nm) != 0;
        for (size_t i = 0; ok && i < pc.size(); i++)
            if (used[i] && !evalexpr(pc[i], nm))
                ok = false;
        if (!ok) {
            fprintf(stderr, "warning: model does not evaluate to true\n");
            if (getenv("SYM_DEBUG"))
                fprintf(stderr, "%s\n", expr_str(extra, 8).c_str());
            ent.res = R_UNKNOWN;
        } else if (out)
            *out = nm;
    } else
        ent.res = r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    double dt = std::chrono::duration<double>(
                        std::chrono::steady_clock::now() - t0)
                        .count();
    g_ss.time += dt;
    if (dt > g_ss.maxtime)
        g_ss.maxtime = dt;
    static const char *slow = getenv("SYM_SLOW");
    if (slow && dt > atof(slow))
        fprintf(stderr, "slow query %.1fs res=%d fp=%d %s\n", dt, ent.res, fp,
                expr_str(extra, 6).c_str());
    g_ss.queries++;
    if (ent.res == R_SAT)
        g_ss.sat++;
    else if (ent.res == R_UNSAT)
        g_ss.unsat++;
    else
        g_ss.unknown++;
    Z3_solver_dec_ref(C, s);
    Res res = ent.res;
    g_cache.emplace(h, std::move(ent));
    return res;
}

bool
domain(const std::vector<E> &pc, E e, const Model &base,
       std::vector<std::pair<u128, Model>> *out)
{
    const std::vector<uint32_t> &vars = exprvars(e);
    if (vars.size() != 1 || g_varwidth[vars[0]] > 8)
        return false;
    uint32_t v = vars[0];
    std::bitset<256> b;
    b.set();
    for (E c : pc) {
        const auto &cv = exprvars(c);
        bool hit = false;
        for (uint32_t x : cv)
            hit = hit || x == v;
        if (!hit)
            continue;
        if (cv.size() != 1)
            return false;
        b &= truth(c, v);
    }
    Model m = base;
    if (m.size() < g_varwidth.size())
        m.resize(g_varwidth.size(), 0);
    g_ss.small++;
    std::vector<u128> seen;
    for (unsigned x = 0; x >> g_varwidth[v] == 0; x++) {
        if (!b[x])
            continue;
        m[v] = x;
        u128 r = evalexpr(e, m);
        if (std::find(seen.begin(), seen.end(), r) != seen.end())
            continue;
        seen.push_back(r);
        out->push_back({r, m});
    }
    return true;
}
