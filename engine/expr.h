/*
 * Hash-consed bit-vector / floating point expression DAG with a light
 * simplifier, a concrete evaluator and a translation to Z3.
 *
 * Every value is a bit vector of 1..128 bits.  Floating point values are
 * carried as their IEEE bit patterns; floating point operations are separate
 * node kinds which are translated to the SMT FloatingPoint theory.
 */
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
    O_CONST,
    O_VAR,
    O_ADD,
    O_MUL,
    O_UDIV,
    O_SDIV,
    O_UREM,
    O_SREM,
    O_AND,
    O_OR,
    O_XOR,
    O_SHL,
    O_LSHR,
    O_ASHR,
    O_EQ,
    O_ULT,
    O_SLT,
    O_CONCAT, /* k0 = high, k1 = low */
    O_EXTRACT, /* a = offset */
    O_ZEXT,
    O_SEXT,
    O_ITE,
    /* floating point; operands and results are bit patterns */
    O_FADD,
    O_FSUB,
    O_FMUL,
    O_FDIV,
    O_FSQRT,
    O_FRND,  /* round to integral; a = 0 floor 1 ceil 2 trunc 3 nearest-even */
    O_FCVT,  /* fp to fp */
    O_S2F,   /* signed bv to fp */
    O_U2F,
    O_F2S,   /* fp to signed bv, truncating */
    O_F2U,
};

struct Expr {
    Op op;
    uint16_t w;
    uint32_t a;  /* extra: extract offset, var index, rounding mode */
    uint32_t id;
    uint64_t hash;
    const Expr *k[3];
    u128 c;
    mutable uint64_t stamp;
    mutable u128 ev;
    mutable std::vector<uint32_t> *vars; /* sorted list of variables */
    mutable void *z3;
};

typedef const Expr *E;

static inline u128
maskw(unsigned w)
{
    return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
static inline bool
isc(E e)
{
    return e->op == O_CONST;
}

E mkc(u128 v, unsigned w);
E mkvar(uint32_t idx, unsigned w);
E mkbin(Op op, E a, E b);
E mknot(E a);  /* bitwise not */
E mkneg(E a);
E mksub(E a, E b);
E mkconcat(E hi, E lo);
E mkextract(E a, unsigned off, unsigned w);
E mkzext(E a, unsigned w);
E mksext(E a, unsigned w);
E mkite(E c, E a, E b);
E mkeq(E a, E b);
E mkne(E a, E b);
E mkult(E a, E b);
E mkule(E a, E b);
E mkslt(E a, E b);
E mksle(E a, E b);
E mkf(Op op, unsigned w, uint32_t a, E x, E y = nullptr);
E mkand1(E a, E b); /* boolean and on width 1 */
E mkor1(E a, E b);

/* floating point predicates on bit patterns (pure bit vector encodings) */
E mkfnan(E a);
E mkfeq(E a, E b);
E mkflt(E a, E b);
E mkfle(E a, E b);

u128 umax(E e, int depth = 6);

const std::vector<uint32_t> &exprvars(E e);

typedef std::vector<u128> Model; /* indexed by variable */
u128 evalexpr(E e, const Model &m);

extern std::vector<unsigned> g_varwidth;
size_t expr_count();
std::string expr_str(E e, int depth = 4);

/* concrete float helpers, shared with the interpreter */
u128 foldf(Op op, unsigned w, uint32_t a, u128 x, unsigned xw, u128 y);
