/*
 * symex: a path-exploring symbolic executor for LLVM bitcode.
 *
 * It executes the real code (compiled by clang from the current sources)
 * together with a harness.  Inputs introduced by sym_bytes() are symbolic;
 * every branch, address, size and assertion that depends on them is decided
 * by the SMT solver, so a completed exploration covers every value of the
 * inputs which satisfies the harness's assumptions.
 */
#include "solver.h"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cmath>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/time.h>

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>

using namespace llvm;

struct Val {
    uint64_t c = 0;
    E e = nullptr;
    const std::vector<Val> *agg = nullptr;
};

static Val
cv(uint64_t c)
{
    Val v;
    v.c = c;
    return v;
}

static Val
ev(E e)
{
    Val v;
    if (isc(e) && e->w <= 64)
        v.c = (uint64_t)e->c;
    else
        v.e = e;
    return v;
}

static E
toE(const Val &v, unsigned w)
{
    return v.e ? v.e : mkc(v.c, w);
}

static Val
aggv(std::vector<Val> x)
{
    Val v;
    v.agg = new std::vector<Val>(std::move(x));
    return v;
}

/* ------------------------------------------------------------------ */
/* decoded program */

struct Opnd {
    int reg = -1;
    Val cst;
};

struct Fn;

struct DI {
    unsigned opc;
    unsigned w = 0;   /* result width (0: void or aggregate) */
    unsigned ow = 0;  /* operand width */
    int dst = -1;
    std::vector<Opnd> ops;
    const Instruction *I = nullptr;
    unsigned pred = 0;
    int64_t off = 0;             /* gep */
    std::vector<int64_t> scale;  /* gep, per operand 1.. */
    std::vector<unsigned> ow2;   /* gep, operand widths */
    std::vector<unsigned> succ;  /* block indices */
    std::vector<unsigned> idx;   /* extractvalue/insertvalue */
    std::vector<std::pair<u128, unsigned>> cases;
    uint64_t size = 0; /* load/store/alloca byte size */
    const Function *callee = nullptr;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
    bool musttail = false;
};

struct Phi {
    int dst;
    std::vector<std::pair<unsigned, Opnd>> in;
};

struct Blk {
    unsigned start;
    std::vector<Phi> phis;
};

struct Fn {
    const Function *F;
    std::string name;
    std::vector<DI> code;
    std::vector<Blk> blks;
    std::vector<unsigned> blkof; /* per instruction */
    unsigned nregs = 0;
    uint64_t count = 0;
    bool user = false; /* defined in the code under test */
};

enum { K_GLOBAL, K_HEAP, K_STACK };

struct Obj {
    uint64_t base, size;
    uint8_t kind;
    bool ro = false;
    bool freed = false;
    std::vector<uint8_t> b;
    std::unordered_map<uint64_t, E> s;
};
typedef std::shared_ptr<Obj> OP;

struct Frame {
    Fn *f;
    unsigned pc;
    unsigned blk;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> va; /* variable arguments */
    int retdst;
};

struct Thread {
    std::vector<Frame> st;
};

struct Input {
    uint64_t n;
    std::vector<Val> bytes;
};

struct State {
    std::vector<Thread> th;
    unsigned cur = 0;
    std::map<uint64_t, OP> mem;
    OP last;
    uint64_t next;
    uint32_t nvars = 0;
    std::vector<E> pc;
    Model model;
    std::vector<Input> in;
    std::vector<Val> obs;
    std::vector<int> labels;
    uint64_t steps = 0;
    uint64_t depth = 0;
    /* variables with a value fixed by the path condition */
    std::unordered_map<uint32_t, u128> fix;
    uint64_t fixver = 0;
    uint64_t sizelimit = 1ull << 28;
};

static LLVMContext LC;
static std::unique_ptr<llvm::Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> g_fns;
static std::unordered_map<const GlobalValue *, uint64_t> g_addr;
static std::unordered_map<uint64_t, const Function *> g_faddr;
static std::map<uint64_t, OP> g_ro; /* constant globals, shared by all states */

static std::vector<State *> g_work;
static uint64_t g_paths, g_pruned, g_forks, g_steps, g_checks, g_assumes;
static double g_timelimit = 600;
static uint64_t g_maxsteps = 20000000;
static unsigned g_maxviol = 4;
static size_t g_maxpaths_out = 200;
static std::vector<std::string> g_incomplete;
static std::map<std::string, uint64_t> g_labelcount;
static std::vector<std::string> g_labelname;
static std::set<std::string> g_expect;
static std::vector<uint64_t> g_params;
static FILE *g_out;
static std::chrono::steady_clock::time_point g_t0;

struct Viol {
    std::string kind, msg, loc, trace;
    std::string inputs;
};
static std::vector<Viol> g_viol;
static std::set<std::string> g_violkeys;
static uint64_t g_violtotal;

static double
elapsed()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                         g_t0)
            .count();
}

static void
incomplete(const std::string &s)
{
    if (g_incomplete.size() < 20 &&
        std::find(g_incomplete.begin(), g_incomplete.end(), s) ==
                g_incomplete.end())
        g_incomplete.push_back(s);
}

static std::string
fmt(const char *f, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

/* thrown to stop the current state */
struct Kill {};
/* the current instruction has to be re-executed */
struct Retry {};

static unsigned
tw(Type *t)
{
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isPointerTy())
        return 64;
    if (t->isFloatTy())
        return 32;
    if (t->isDoubleTy())
        return 64;
    return 0;
}

static std::string
tystr(Type *t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return os.str();
}
static std::string
valstr(const Value *v)
{
    std::string s;
    raw_string_ostream os(s);
    v->print(os);
    return os.str();
}

[[noreturn]] static void
unsupported(const std::string &s)
{
    fprintf(stderr, "symex: unsupported: %s\n", s.c_str());
    fflush(stderr);
    _exit(3);
}

static const Function *
route(const Function *f)
{
    if (f->isDeclaration() && !f->isIntrinsic()) {
        if (auto *g = M->getFunction("rt_" + f->getName().str()))
            if (!g->isDeclaration())
                return g;
    }
    return f;
}

static Val evalconst(const Constant *c);

static Val
evalconstexpr(const ConstantExpr *ce)
{
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off))
            unsupported("constant gep");
        return cv(evalconst(cast<Constant>(gep->getPointerOperand())).c +
                  off.getSExtValue());
    }
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::Trunc:
    case Instruction::ZExt: {
        Val v = evalconst(ce->getOperand(0));
        unsigned w = tw(ce->getType());
        v.c &= (uint64_t)maskw(w);
        return v;
    }
    case Instruction::Sub:
    case Instruction::Add:
    case Instruction::Xor: {
        Val a = evalconst(ce->getOperand(0)), b = evalconst(ce->getOperand(1));
        unsigned w = tw(ce->getType());
        uint64_t r = ce->getOpcode() == Instruction::Sub   ? a.c - b.c
                     : ce->getOpcode() == Instruction::Add ? a.c + b.c
                                                           : a.c ^ b.c;
        return cv(r & (uint64_t)maskw(w));
    }
    case Instruction::ICmp: {
        Val a = evalconst(ce->getOperand(0)), b = evalconst(ce->getOperand(1));
        switch (ce->getPredicate()) {
        case CmpInst::ICMP_EQ: return cv(a.c == b.c);
        case CmpInst::ICMP_NE: return cv(a.c != b.c);
        case CmpInst::ICMP_ULT: return cv(a.c < b.c);
        case CmpInst::ICMP_UGT: return cv(a.c > b.c);
        default: break;
        }
        break;
    }
    default: break;
    }
    unsupported("constant expression " + valstr(ce));
}

static Val
zeroof(Type *t)
{
    if (unsigned w = tw(t)) {
        if (w > 64)
            return ev(mkc(0, w));
        return cv(0);
    }
    std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(t)) {
        for (auto *x : st->elements())
            v.push_back(zeroof(x));
        return aggv(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        for (uint64_t i = 0; i < at->getNumElements(); i++)
            v.push_back(zeroof(at->getElementType()));
        return aggv(v);
    }
    unsupported("zero of " + tystr(t));
}

static Val
evalconst(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64)
            return cv(ci->getZExtValue());
        if (w > 128)
            unsupported("wide constant");
        u128 v = ci->getValue().getRawData()[0];
        v |= (u128)ci->getValue().getRawData()[1] << 64;
        return ev(mkc(v, w));
    }
    if (isa<ConstantPointerNull>(c))
        return cv(0);
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (!tw(c->getType()))
            unsupported("fp constant type");
        return cv(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    }
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(gv))
            return evalconst(ga->getAliasee());
        if (auto *f = dyn_cast<Function>(gv))
            gv = route(f);
        auto it = g_addr.find(gv);
        if (it == g_addr.end())
            unsupported("address of " + gv->getName().str());
        return cv(it->second);
    }
    if (isa<UndefValue>(c)) /* includes poison */
        return zeroof(c->getType());
    if (isa<ConstantAggregateZero>(c))
        return zeroof(c->getType());
    if (auto *ce = dyn_cast<ConstantExpr>(c))
        return evalconstexpr(ce);
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        std::vector<Val> v;
        for (auto &op : c->operands())
            v.push_back(evalconst(cast<Constant>(op)));
        return aggv(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++)
            v.push_back(evalconst(cd->getElementAsConstant(i)));
        return aggv(v);
    }
    unsupported("constant " + valstr(c));
}

/* write a constant initializer into an object's bytes */
static void
initbytes(std::vector<uint8_t> &b, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) ||
        isa<ConstantPointerNull>(c))
        return;
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++)
            initbytes(b, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++)
            initbytes(b, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cd->getElementByteSize();
        StringRef raw = cd->getRawDataValues();
        (void)es;
        memcpy(&b[off], raw.data(), raw.size());
        return;
    }
    uint64_t n = DL->getTypeStoreSize(t);
    Val v = evalconst(c);
    u128 x = v.e ? v.e->c : v.c;
    for (uint64_t i = 0; i < n; i++)
        b[off + i] = (uint8_t)(x >> (8 * i));
}

static Fn *
getfn(const Function *F)
{
    auto it = g_fns.find(F);
    if (it != g_fns.end())
        return it->second;
    Fn *fn = new Fn();
    fn->F = F;
    fn->name = F->getName().str();
    if (auto *sp = F->getSubprogram()) {
        std::string d = sp->getDirectory().str() + "/" +
                        sp->getFilename().str();
        std::string f = sp->getFilename().str();
        fn->user = (f.find("/repo/") == 0) || (d.find("/repo/") == 0);
    }
    std::unordered_map<const Value *, int> reg;
    std::unordered_map<const BasicBlock *, unsigned> blk;
    unsigned n = 0;
    for (auto &a : F->args())
        reg[&a] = n++;
    unsigned nb = 0;
    for (auto &B : *F) {
        blk[&B] = nb++;
        for (auto &I : B)
            if (!I.getType()->isVoidTy())
                reg[&I] = n++;
    }
    fn->nregs = n;
    auto opnd = [&](const Value *v) {
        Opnd o;
        if (auto *c = dyn_cast<Constant>(v))
            o.cst = evalconst(c);
        else {
            auto r = reg.find(v);
            if (r == reg.end())
                o.cst = cv(0); /* metadata and such */
            else
                o.reg = r->second;
        }
        return o;
    };
    for (auto &B : *F) {
        Blk bk;
        bk.start = fn->code.size();
        for (auto &I : B) {
            if (auto *ph = dyn_cast<PHINode>(&I)) {
                Phi p;
                p.dst = reg[ph];
                for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
                    p.in.push_back({blk[ph->getIncomingBlock(i)],
                                    opnd(ph->getIncomingValue(i))});
                bk.phis.push_back(std::move(p));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I))
                continue;
            DI d;
            d.I = &I;
            d.opc = I.getOpcode();
            if (!I.getType()->isVoidTy()) {
                d.dst = reg[&I];
                d.w = tw(I.getType());
            }
            if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::assume:
                case Intrinsic::donothing:
                case Intrinsic::sideeffect:
                case Intrinsic::invariant_start:
                case Intrinsic::invariant_end:
                case Intrinsic::prefetch: continue;
                default: break;
                }
                d.iid = ii->getIntrinsicID();
            }
            if (auto *cb = dyn_cast<CallInst>(&I)) {
                d.musttail = cb->isMustTailCall();
                if (cb->isInlineAsm()) {
                    d.ops.clear();
                    d.iid = Intrinsic::not_intrinsic;
                    unsupported("inline asm in " + fn->name);
                }
                Value *cal = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cal))
                    cal = ga->getAliaseeObject();
                d.callee = dyn_cast<Function>(cal);
                if (d.callee)
                    d.callee = route(d.callee);
                if (d.iid == Intrinsic::not_intrinsic ||
                    d.iid == Intrinsic::memcpy ||
                    d.iid == Intrinsic::memset || d.iid == Intrinsic::memmove ||
                    d.iid) {
                    for (auto &a : cb->args())
                        d.ops.push_back(opnd(a.get()));
                }
                if (!d.callee)
                    d.ops.push_back(opnd(cal)); /* last: function pointer */
                if (cb->arg_size())
                    d.ow = tw(cb->getArgOperand(0)->getType());
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional())
                    d.ops.push_back(opnd(br->getCondition()));
                for (unsigned i = 0; i < br->getNumSuccessors(); i++)
                    d.succ.push_back(blk[br->getSuccessor(i)]);
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                d.ops.push_back(opnd(sw->getCondition()));
                d.ow = tw(sw->getCondition()->getType());
                d.succ.push_back(blk[sw->getDefaultDest()]);
                for (auto &c : sw->cases())
                    d.cases.push_back({c.getCaseValue()->getZExtValue(),
                                       blk[c.getCaseSuccessor()]});
            } else {
                for (auto &o : I.operands())
                    d.ops.push_back(opnd(o.get()));
                if (I.getNumOperands())
                    d.ow = tw(I.getOperand(0)->getType());
            }
            if (auto *c = dyn_cast<CmpInst>(&I))
                d.pred = c->getPredicate();
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                d.off = 0;
                d.scale.assign(d.ops.size(), 0);
                d.ow2.assign(d.ops.size(), 64);
                unsigned k = 1;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g);
                     gi != ge; ++gi, ++k) {
                    Value *ix = gi.getOperand();
                    if (auto *st = gi.getStructTypeOrNull()) {
                        d.off += DL->getStructLayout(st)->getElementOffset(
                                cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        uint64_t es =
                                DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix))
                            d.off += (int64_t)es * ci->getSExtValue();
                        else {
                            d.scale[k] = es;
                            d.ow2[k] = tw(ix->getType());
                        }
                    }
                }
            }
            if (auto *l = dyn_cast<LoadInst>(&I))
                d.size = DL->getTypeStoreSize(l->getType());
            if (auto *s = dyn_cast<StoreInst>(&I)) {
                d.size = DL->getTypeStoreSize(s->getValueOperand()->getType());
                d.ow = tw(s->getValueOperand()->getType());
            }
            if (auto *a = dyn_cast<AllocaInst>(&I)) {
                d.size = DL->getTypeAllocSize(a->getAllocatedType());
            }
            if (auto *x = dyn_cast<ExtractValueInst>(&I))
                d.idx.assign(x->idx_begin(), x->idx_end());
            if (auto *x = dyn_cast<InsertValueInst>(&I))
                d.idx.assign(x->idx_begin(), x->idx_end());
            if (isa<AtomicCmpXchgInst>(&I)) {
                d.ow = tw(I.getOperand(1)->getType());
                d.size = DL->getTypeStoreSize(I.getOperand(1)->getType());
            }
            if (isa<AtomicRMWInst>(&I)) {
                d.ow = tw(I.getOperand(1)->getType());
                d.size = DL->getTypeStoreSize(I.getOperand(1)->getType());
            }
            fn->code.push_back(std::move(d));
            fn->blkof.push_back(fn->blks.size());
        }
        fn->blks.push_back(std::move(bk));
    }
    g_fns[F] = fn;
    return fn;
}

/* ------------------------------------------------------------------ */

static State *S; /* current state */
static Frame *FR;

static std::string
locof(const Frame &f)
{
    if (f.pc < f.f->code.size())
        if (auto &dl = f.f->code[f.pc].I->getDebugLoc()) {
            const DILocation *l = dl.get();
            std::string fn = l->getFilename().str();
            size_t p = fn.rfind('/');
            if (p != std::string::npos)
                fn = fn.substr(p + 1);
            return fmt("%s:%u (%s)", fn.c_str(), l->getLine(),
                       f.f->name.c_str());
        }
    return "(" + f.f->name + ")";
}

static std::string
backtrace()
{
    std::string s;
    auto &st = S->th[S->cur].st;
    for (size_t i = st.size(); i-- > 0;) {
        if (!s.empty())
            s += " < ";
        s += locof(st[i]);
        if (st.size() - i > 12)
            break;
    }
    return s;
}

static std::string
inputhex(const State &s, const Model &m)
{
    std::string h;
    for (auto &in : s.in)
        for (auto &b : in.bytes) {
            unsigned x = b.e ? (unsigned)evalexpr(b.e, m) : (unsigned)b.c;
            h += fmt("%02x", x & 0xff);
        }
    return h.empty() ? "-" : h;
}

static std::string
clean(std::string s)
{
    for (auto &c : s)
        if (c == '\n' || c == '\t' || c == '"' || c == '\\')
            c = ' ';
    return s;
}

static void
violation(const char *kind, const std::string &msg, const Model &m)
{
    g_violtotal++;
    std::string loc = locof(*FR);
    std::string key = std::string(kind) + "|" + msg;
    if (!g_violkeys.insert(key).second)
        return;
    Viol v;
    v.kind = kind;
    v.msg = clean(msg);
    v.loc = clean(loc);
    v.trace = clean(backtrace());
    v.inputs = inputhex(*S, m);
    g_viol.push_back(v);
    if (g_out) {
        fprintf(g_out, "V\t%s\t%s\t%s\t%s\t%s\n", kind, v.msg.c_str(),
                v.loc.c_str(), v.trace.c_str(), v.inputs.c_str());
        fflush(g_out);
    }
}

[[noreturn]] static void
fatal(const char *kind, const std::string &msg)
{
    violation(kind, msg, S->model);
    throw Kill();
}

/* replace the variables which have only one possible value */
static std::unordered_map<E, E> g_subst;
static uint64_t g_substver, g_fixver;
static E
rewrite(E e)
{
    if (isc(e))
        return e;
    if (e->op == O_VAR) {
        auto it = S->fix.find(e->a);
        return it == S->fix.end() ? e : mkc(it->second, e->w);
    }
    auto it = g_subst.find(e);
    if (it != g_subst.end())
        return it->second;
    bool hit = false;
    for (uint32_t v : exprvars(e))
        if (S->fix.count(v)) {
            hit = true;
            break;
        }
    E r = e;
    if (hit) {
        E a = e->k[0] ? rewrite(e->k[0]) : nullptr;
        E b = e->k[1] ? rewrite(e->k[1]) : nullptr;
        switch (e->op) {
        case O_CONCAT: r = mkconcat(a, b); break;
        case O_EXTRACT: r = mkextract(a, e->a, e->w); break;
        case O_ZEXT: r = mkzext(a, e->w); break;
        case O_SEXT: r = mksext(a, e->w); break;
        case O_ITE:
            r = isc(a) ? (a->c ? b : rewrite(e->k[2]))
                       : mkite(a, b, rewrite(e->k[2]));
            break;
        default:
            if (e->op >= O_FADD)
                r = mkf(e->op, e->w, e->a, a, b);
            else
                r = mkbin(e->op, a, b);
            break;
        }
    }
    g_subst[e] = r;
    return r;
}
static E
sub(E e)
{
    if (S->fix.empty() || isc(e))
        return e;
    if (g_substver != S->fixver) {
        g_subst.clear();
        g_substver = S->fixver;
    }
    return rewrite(e);
}

/* e == c holds: find variables this determines */
static bool
bind(E e, u128 c)
{
    switch (e->op) {
    case O_VAR: return S->fix.emplace(e->a, c & maskw(e->w)).second;
    case O_CONCAT: {
        bool x = bind(e->k[0], c >> e->k[1]->w);
        bool y = bind(e->k[1], c & maskw(e->k[1]->w));
        return x || y;
    }
    case O_ZEXT:
    case O_SEXT: return bind(e->k[0], c & maskw(e->k[0]->w));
    case O_ADD:
        if (isc(e->k[1]))
            return bind(e->k[0], (c - e->k[1]->c) & maskw(e->w));
        return false;
    case O_XOR:
        if (isc(e->k[1]))
            return bind(e->k[0], c ^ e->k[1]->c);
        return false;
    default: return false;
    }
}

/* add a condition known to be satisfied by S->model */
static void
addpc(E c)
{
    if (isc(c))
        return;
    if (c->op == O_EQ && isc(c->k[1]) && bind(c->k[0], c->k[1]->c)) {
        S->fixver = ++g_fixver;
        std::vector<E> old;
        old.swap(S->pc);
        old.push_back(c);
        for (E x : old) {
            E y = sub(x);
            if (!isc(y))
                S->pc.push_back(y);
        }
        return;
    }
    /* split conjunctions: better slicing */
    if (c->op == O_AND && c->w == 1) {
        addpc(c->k[0]);
        addpc(c->k[1]);
        return;
    }
    S->pc.push_back(c);
}

static State *
forkstate(E c, const Model &m)
{
    State *n = new State(*S);
    n->depth++;
    n->model = m;
    State *sv = S;
    S = n;
    addpc(c);
    S = sv;
    g_forks++;
    return n;
}

/*
 * Decide a condition.  Returns the branch taken by the current state; the
 * other one, if feasible, is queued as a new state that re-executes the
 * current instruction (its path condition then implies the result).
 */
static bool
decide(E c)
{
    c = sub(c);
    if (isc(c))
        return c->c != 0;
    bool v = evalexpr(c, S->model) != 0;
    E other = v ? mknot(c) : c;
    Model m;
    Res r = solve(S->pc, other, S->model, &m);
    if (r == R_UNKNOWN)
        incomplete("solver could not decide a branch at " + locof(*FR));
    if (r == R_SAT) {
        g_work.push_back(forkstate(other, m));
        addpc(v ? c : mknot(c));
    }
    /* when the other side is infeasible c is implied: nothing to add */
    return v;
}

/* make a value concrete by forking over all its feasible values */
static uint64_t
concretize(const Val &v, unsigned w, const char *what)
{
    if (!v.e)
        return v.c;
    E e = sub(v.e);
    if (isc(e))
        return (uint64_t)e->c;
    std::vector<std::pair<u128, Model>> dom;
    if (domain(S->pc, e, S->model, &dom) && !dom.empty()) {
        for (size_t i = dom.size() - 1; i > 0; i--)
            g_work.push_back(
                    forkstate(mkeq(e, mkc(dom[i].first, w)), dom[i].second));
        S->model = dom[0].second;
        if (dom.size() > 1)
            addpc(mkeq(e, mkc(dom[0].first, w)));
        return (uint64_t)dom[0].first;
    }
    static const bool dbg = getenv("SYM_CONC") != nullptr;
    if (dbg)
        fprintf(stderr, "concretize %s at %s\n", what, locof(*FR).c_str());
    uint64_t x = (uint64_t)evalexpr(e, S->model);
    E eq = mkeq(e, mkc(x, w));
    Model m;
    Res r = solve(S->pc, mknot(eq), S->model, &m);
    if (r == R_UNKNOWN)
        incomplete(std::string("solver could not enumerate ") + what + " at " +
                   locof(*FR));
    if (r == R_SAT) {
        g_work.push_back(forkstate(mknot(eq), m));
        addpc(eq);
    }
    return x;
}

static OP
findobj(uint64_t a)
{
    if (S->last && a - S->last->base < S->last->size)
        return S->last;
    auto it = S->mem.upper_bound(a);
    if (it != S->mem.begin()) {
        --it;
        Obj *o = it->second.get();
        if (a - o->base < o->size || (o->size == 0 && a == o->base)) {
            return it->second;
        }
    }
    auto jt = g_ro.upper_bound(a);
    if (jt != g_ro.begin()) {
        --jt;
        Obj *o = jt->second.get();
        if (a - o->base < o->size)
            return jt->second;
    }
    return nullptr;
}

static Obj *
wobj(OP &o)
{
    if (o->ro)
        fatal("memory", "write to read-only memory");
    auto it = S->mem.find(o->base);
    /* references: map entry, o, possibly S->last */
    S->last = nullptr;
    if (o.use_count() > 2) {
        OP n = std::make_shared<Obj>(*o);
        it->second = n;
        o = n;
    }
    return o.get();
}

static OP
newobj(uint64_t size, int kind, int fill)
{
    OP o = std::make_shared<Obj>();
    o->base = S->next;
    o->size = size;
    o->kind = kind;
    o->b.assign(size, (uint8_t)fill);
    S->next += (((size + 15) >> 4) << 4) + (1ull << 34);
    S->mem[o->base] = o;
    return o;
}

struct Ref {
    OP o;
    uint64_t off;
    E soff = nullptr;
};

static std::string
wherebad(uint64_t a)
{
    auto it = S->mem.upper_bound(a);
    if (a < 4096)
        return fmt("null pointer dereference (address %#llx)",
                   (unsigned long long)a);
    if (it != S->mem.begin()) {
        --it;
        Obj *o = it->second.get();
        const char *k = o->kind == K_HEAP    ? "heap"
                        : o->kind == K_STACK ? "stack"
                                             : "global";
        return fmt("%s object of %llu bytes accessed at offset %lld", k,
                   (unsigned long long)o->size, (long long)(a - o->base));
    }
    return "wild pointer";
}

/*
 * A large object in which almost all bytes have the same value: positions
 * of the others.
 */
static std::vector<uint64_t> g_exc;
static uint8_t g_excdef;
static bool
sparse(const Obj *o, uint64_t n)
{
    g_exc.clear();
    if (o->s.size() > 64)
        return false;
    uint64_t cnt[256] = {0};
    for (uint8_t c : o->b)
        cnt[c]++;
    int d = 0;
    for (int i = 1; i < 256; i++)
        if (cnt[i] > cnt[d])
            d = i;
    if (o->size - cnt[d] > 64)
        return false;
    for (uint64_t i = 0; i < o->size; i++)
        if (o->b[i] != d || o->s.count(i))
            g_exc.push_back(i);
    g_excdef = (uint8_t)d;
    return n <= 16;
}

static Ref
resolve(const Val &addr0, uint64_t n, bool wr, bool keepsym = false)
{
    Ref r;
    Val addr = addr0;
    if (addr.e)
        addr = ev(sub(addr.e));
    if (!addr.e) {
        OP o = findobj(addr.c);
        if (!o || addr.c - o->base > o->size - std::min(n, o->size) ||
            o->size < n) {
            if (n == 0) {
                return r;
            }
            fatal("memory", fmt("out of bounds %s: ", wr ? "write" : "read") +
                                    wherebad(addr.c));
        }
        if (o->freed)
            fatal("memory", wr ? "write to freed memory"
                               : "read of freed memory");
        r.o = o;
        r.off = addr.c - o->base;
        return r;
    }
    E A = addr.e;
    uint64_t v = (uint64_t)evalexpr(A, S->model);
    OP o = findobj(v);
    if (!o || o->size < n || v - o->base > o->size - n) {
        fatal("memory", fmt("out of bounds %s: ", wr ? "write" : "read") +
                                wherebad(v));
    }
    E off = mksub(A, mkc(o->base, 64));
    E inb = mkule(off, mkc(o->size - n, 64));
    if (!isc(inb)) {
        Model m;
        Res q = solve(S->pc, mknot(inb), S->model, &m);
        if (q == R_UNKNOWN)
            incomplete("solver could not bound an address at " + locof(*FR));
        if (q == R_SAT) {
            g_work.push_back(forkstate(mknot(inb), m));
            addpc(inb);
        }
    }
    if (o->freed)
        fatal("memory", "access to freed memory");
    r.o = o;
    r.off = v - o->base;
    r.soff = off;
    if (o->size > 2048 && !(keepsym && sparse(o.get(), n))) {
        /* large object: enumerate the feasible offsets */
        r.off = concretize(ev(off), 64, "an offset into a large object");
        r.soff = nullptr;
    }
    return r;
}

static inline E
byteE(const Obj *o, uint64_t off)
{
    if (!o->s.empty()) {
        auto it = o->s.find(off);
        if (it != o->s.end())
            return it->second;
    }
    return mkc(o->b[off], 8);
}

static Val
readobj(const Obj *o, uint64_t off, uint64_t n, unsigned w)
{
    bool sym = false;
    if (!o->s.empty())
        for (uint64_t i = 0; i < n; i++)
            if (o->s.count(off + i)) {
                sym = true;
                break;
            }
    if (!sym && n <= 8) {
        uint64_t v = 0;
        memcpy(&v, &o->b[off], n);
        if (w < 64)
            v &= (uint64_t)maskw(w);
        return cv(v);
    }
    E e = byteE(o, off);
    for (uint64_t i = 1; i < n; i++)
        e = mkconcat(byteE(o, off + i), e);
    if (e->w != w)
        e = mkextract(e, 0, w);
    else if (e->op == O_EXTRACT)
        e = mkextract(e->k[0], e->a, w);
    return ev(e);
}

static E
muxread(const Obj *o, E off, uint64_t n, unsigned w, uint64_t base, int bit,
        uint64_t hi)
{
    if (base > hi)
        return nullptr;
    if (bit < 0)
        return toE(readobj(o, base, n, w), w);
    E c = mkextract(off, bit, 1);
    if (isc(c))
        return muxread(o, off, n, w,
                       c->c ? base + (1ull << bit) : base, bit - 1, hi);
    E l = muxread(o, off, n, w, base, bit - 1, hi);
    E h = muxread(o, off, n, w, base + (1ull << bit), bit - 1, hi);
    if (!l)
        return h;
    if (!h)
        return l;
    return mkite(c, h, l);
}

static Val
memread(const Val &addr, uint64_t n, unsigned w)
{
    Ref r = resolve(addr, n, false, true);
    if (!r.soff) {
        S->last = r.o->ro ? S->last : r.o;
        return readobj(r.o.get(), r.off, n, w);
    }
    uint64_t hi = r.o->size - n;
    if (r.o->size > 2048) {
        std::set<uint64_t> pos;
        for (uint64_t p : g_exc)
            for (uint64_t j = 0; j < n && j <= p; j++)
                if (p - j <= hi)
                    pos.insert(p - j);
        u128 d = 0;
        for (uint64_t i = 0; i < n; i++)
            d = d << 8 | g_excdef;
        E e = mkc(d & maskw(w), w);
        for (uint64_t p : pos)
            e = mkite(mkeq(r.soff, mkc(p, 64)),
                      toE(readobj(r.o.get(), p, n, w), w), e);
        return ev(e);
    }
    int bits = 0;
    while ((1ull << bits) <= hi)
        bits++;
    E e = muxread(r.o.get(), r.soff, n, w, 0, bits - 1, hi);
    return ev(e);
}

static void
writebytes(Obj *o, uint64_t off, const Val &v, uint64_t n, unsigned w)
{
    if (!v.e) {
        for (uint64_t i = 0; i < n; i++)
            o->b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
        if (!o->s.empty())
            for (uint64_t i = 0; i < n; i++)
                o->s.erase(off + i);
        return;
    }
    E e = v.e;
    if (n * 8 != w)
        e = mkzext(e, n * 8);
    for (uint64_t i = 0; i < n; i++) {
        E b = mkextract(e, i * 8, 8);
        if (isc(b)) {
            o->b[off + i] = (uint8_t)b->c;
            if (!o->s.empty())
                o->s.erase(off + i);
        } else
            o->s[off + i] = b;
    }
}

static void
setbyte(Obj *o, uint64_t off, E b)
{
    if (isc(b)) {
        o->b[off] = (uint8_t)b->c;
        if (!o->s.empty())
            o->s.erase(off);
    } else
        o->s[off] = b;
}

static void
memwrite(const Val &addr, const Val &v, uint64_t n, unsigned w)
{
    Ref r = resolve(addr, n, true);
    Obj *o = wobj(r.o);
    if (!r.soff) {
        writebytes(o, r.off, v, n, w);
        return;
    }
    uint64_t hi = o->size - n;
    E e = toE(v, w);
    if (n * 8 != w)
        e = mkzext(e, n * 8);
    for (uint64_t i = 0; i < o->size; i++) {
        E old = byteE(o, i);
        E nw = old;
        for (uint64_t j = 0; j < n; j++) {
            if (i < j || i - j > hi)
                continue;
            E c = mkeq(r.soff, mkc(i - j, 64));
            nw = mkite(c, mkextract(e, 8 * j, 8), nw);
        }
        if (nw != old)
            setbyte(o, i, nw);
    }
}

/* blocks of at most this many bytes at symbolic addresses are not split */
static uint64_t g_blockmux;

/* the byte at soff + d; soff <= hi */
static E
muxbyte(const Obj *o, E off, uint64_t d, uint64_t base, int bit, uint64_t hi)
{
    if (base > hi)
        return nullptr;
    if (bit < 0)
        return byteE(o, base + d);
    E c = mkextract(off, bit, 1);
    if (isc(c))
        return muxbyte(o, off, d, c->c ? base + (1ull << bit) : base, bit - 1,
                       hi);
    E l = muxbyte(o, off, d, base, bit - 1, hi);
    E h = muxbyte(o, off, d, base + (1ull << bit), bit - 1, hi);
    if (!l)
        return h;
    if (!h || l == h)
        return l;
    return mkite(c, h, l);
}

/* bytes as expressions, with bounds check */
static std::vector<E>
readbytes(const Val &addr, uint64_t n)
{
    std::vector<E> out(n);
    if (n == 0)
        return out;
    if (addr.e && n <= g_blockmux) {
        Ref r = resolve(addr, n, false);
        uint64_t hi = r.o->size - n;
        int bits = 0;
        while ((1ull << bits) <= hi)
            bits++;
        for (uint64_t i = 0; i < n; i++)
            out[i] = r.soff ? muxbyte(r.o.get(), r.soff, i, 0, bits - 1, hi)
                            : byteE(r.o.get(), r.off + i);
        return out;
    }
    if (addr.e) {
        Val a = cv(concretize(addr, 64, "a block address"));
        return readbytes(a, n);
    }
    Ref r = resolve(addr, n, false);
    for (uint64_t i = 0; i < n; i++)
        out[i] = byteE(r.o.get(), r.off + i);
    return out;
}

static std::string
cstr(const Val &addr)
{
    std::string s;
    if (addr.e)
        return "?";
    OP o = findobj(addr.c);
    if (!o)
        return "?";
    for (uint64_t i = addr.c - o->base; i < o->size; i++) {
        if (!o->b[i])
            break;
        s += (char)o->b[i];
    }
    return s;
}

static inline Val
get(const Opnd &o)
{
    return o.reg >= 0 ? FR->regs[o.reg] : o.cst;
}

static inline void
setreg(const DI &d, Val v)
{
    if (d.dst >= 0)
        FR->regs[d.dst] = v;
}

static E
cond1(const Val &v)
{
    return toE(v, 1);
}

static void
jumpto(unsigned b)
{
    Fn *f = FR->f;
    Blk &bk = f->blks[b];
    if (!bk.phis.empty()) {
        unsigned from = FR->blk;
        Val tmp[64];
        std::vector<Val> big;
        Val *t = tmp;
        if (bk.phis.size() > 64) {
            big.resize(bk.phis.size());
            t = big.data();
        }
        unsigned n = 0;
        for (auto &p : bk.phis) {
            for (auto &in : p.in)
                if (in.first == from) {
                    t[n] = get(in.second);
                    break;
                }
            n++;
        }
        n = 0;
        for (auto &p : bk.phis)
            FR->regs[p.dst] = t[n++];
    }
    FR->blk = b;
    FR->pc = bk.start;
}

static void
popframe()
{
    auto &st = S->th[S->cur].st;
    for (uint64_t a : st.back().allocas)
        S->mem.erase(a);
    S->last = nullptr;
    st.pop_back();
    FR = st.empty() ? nullptr : &st.back();
}

static void
pushframe(Fn *f, std::vector<Val> &&args, int retdst)
{
    auto &st = S->th[S->cur].st;
    if (st.size() > 4000)
        fatal("stack", "native stack overflow (call depth > 4000)");
    st.emplace_back();
    Frame &n = st.back();
    n.f = f;
    n.pc = 0;
    n.blk = 0;
    n.regs.resize(f->nregs);
    for (size_t i = 0; i < args.size() && i < f->F->arg_size(); i++)
        n.regs[i] = args[i];
    if (f->F->isVarArg())
        for (size_t i = f->F->arg_size(); i < args.size(); i++)
            n.va.push_back(args[i]);
    n.retdst = retdst;
    f->count++;
    FR = &n;
}

static Val
binop(unsigned opc, const Val &a, const Val &b, unsigned w)
{
    if (!a.e && !b.e && w <= 64) {
        uint64_t m = (uint64_t)maskw(w);
        uint64_t x = a.c, y = b.c;
        switch (opc) {
        case Instruction::Add: return cv((x + y) & m);
        case Instruction::Sub: return cv((x - y) & m);
        case Instruction::Mul: return cv((x * y) & m);
        case Instruction::And: return cv(x & y);
        case Instruction::Or: return cv(x | y);
        case Instruction::Xor: return cv(x ^ y);
        default: break;
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (opc) {
    case Instruction::Add: return ev(mkbin(O_ADD, x, y));
    case Instruction::Sub: return ev(mksub(x, y));
    case Instruction::Mul: return ev(mkbin(O_MUL, x, y));
    case Instruction::And: return ev(mkbin(O_AND, x, y));
    case Instruction::Or: return ev(mkbin(O_OR, x, y));
    case Instruction::Xor: return ev(mkbin(O_XOR, x, y));
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: {
        /* x86 masks the count of 32 and 64 bit shifts */
        if ((w == 32 || w == 64))
            y = mkbin(O_AND, y, mkc(w - 1, w));
        Op op = opc == Instruction::Shl    ? O_SHL
                : opc == Instruction::LShr ? O_LSHR
                                           : O_ASHR;
        return ev(mkbin(op, x, y));
    }
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem: {
        E z = mkeq(y, mkc(0, w));
        if (decide(z))
            fatal("arith", "division by zero");
        if (opc == Instruction::SDiv || opc == Instruction::SRem) {
            E ov = mkand1(mkeq(x, mkc((u128)1 << (w - 1), w)),
                          mkeq(y, mkc(maskw(w), w)));
            if (decide(ov))
                fatal("arith", "signed division overflow");
        }
        Op op = opc == Instruction::UDiv   ? O_UDIV
                : opc == Instruction::SDiv ? O_SDIV
                : opc == Instruction::URem ? O_UREM
                                           : O_SREM;
        return ev(mkbin(op, x, y));
    }
    default: unsupported("binop");
    }
}

static E
icmp(unsigned pred, E x, E y)
{
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkeq(x, y);
    case CmpInst::ICMP_NE: return mkne(x, y);
    case CmpInst::ICMP_ULT: return mkult(x, y);
    case CmpInst::ICMP_ULE: return mkule(x, y);
    case CmpInst::ICMP_UGT: return mkult(y, x);
    case CmpInst::ICMP_UGE: return mkule(y, x);
    case CmpInst::ICMP_SLT: return mkslt(x, y);
    case CmpInst::ICMP_SLE: return mksle(x, y);
    case CmpInst::ICMP_SGT: return mkslt(y, x);
    case CmpInst::ICMP_SGE: return mksle(y, x);
    default: unsupported("icmp");
    }
}

static E
fcmp(unsigned pred, E x, E y)
{
    E uno = mkor1(mkfnan(x), mkfnan(y));
    switch (pred) {
    case CmpInst::FCMP_FALSE: return mkc(0, 1);
    case CmpInst::FCMP_TRUE: return mkc(1, 1);
    case CmpInst::FCMP_OEQ: return mkfeq(x, y);
    case CmpInst::FCMP_OGT: return mkflt(y, x);
    case CmpInst::FCMP_OGE: return mkfle(y, x);
    case CmpInst::FCMP_OLT: return mkflt(x, y);
    case CmpInst::FCMP_OLE: return mkfle(x, y);
    case CmpInst::FCMP_ONE:
        return mkand1(mknot(uno), mknot(mkfeq(x, y)));
    case CmpInst::FCMP_ORD: return mknot(uno);
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return mkor1(uno, mkfeq(x, y));
    case CmpInst::FCMP_UGT: return mkor1(uno, mkflt(y, x));
    case CmpInst::FCMP_UGE: return mkor1(uno, mkfle(y, x));
    case CmpInst::FCMP_ULT: return mkor1(uno, mkflt(x, y));
    case CmpInst::FCMP_ULE: return mkor1(uno, mkfle(x, y));
    case CmpInst::FCMP_UNE: return mknot(mkfeq(x, y));
    default: unsupported("fcmp");
    }
}

static E
freshvar(unsigned w)
{
    /* variable identity: (ordinal within the path, width) */
    static std::map<std::pair<uint32_t, unsigned>, uint32_t> ids;
    uint32_t ord = S->nvars++;
    auto k = std::make_pair(ord, w);
    auto it = ids.find(k);
    uint32_t id;
    if (it == ids.end()) {
        id = g_varwidth.size();
        ids[k] = id;
    } else
        id = it->second;
    E e = mkvar(id, w);
    if (S->model.size() <= id)
        S->model.resize(id + 1, 0);
    S->model[id] = 0;
    return e;
}

static void
sym_check(const Val &c, unsigned w, const std::string &msg)
{
    g_checks++;
    E z = sub(mkeq(toE(c, w), mkc(0, w))); /* violated */
    if (isc(z)) {
        if (z->c)
            fatal("check", msg);
        return;
    }
    if (evalexpr(z, S->model)) {
        violation("check", msg, S->model);
        Model m;
        Res r = solve(S->pc, mknot(z), S->model, &m);
        if (r == R_UNKNOWN)
            incomplete("solver could not decide check: " + msg);
        if (r != R_SAT)
            throw Kill();
        S->model = m;
        addpc(mknot(z));
        return;
    }
    Model m;
    Res r = solve(S->pc, z, S->model, &m);
    if (r == R_UNKNOWN)
        incomplete("solver could not decide check: " + msg);
    if (r == R_SAT) {
        violation("check", msg, m);
        addpc(mknot(z));
    }
}

static void
sym_assume(const Val &c, unsigned w)
{
    g_assumes++;
    E nz = sub(mkne(toE(c, w), mkc(0, w)));
    if (isc(nz)) {
        if (!nz->c) {
            g_pruned++;
            throw Kill();
        }
        return;
    }
    if (!evalexpr(nz, S->model)) {
        Model m;
        Res r = solve(S->pc, nz, S->model, &m);
        if (r == R_UNKNOWN)
            incomplete("solver could not decide an assumption");
        if (r != R_SAT) {
            g_pruned++;
            throw Kill();
        }
        S->model = m;
    }
    addpc(nz);
}

static void
endpath()
{
    g_paths++;
    if (g_out && g_paths <= g_maxpaths_out) {
        std::string o;
        for (auto &v : S->obs) {
            uint64_t x = v.e ? (uint64_t)evalexpr(v.e, S->model) : v.c;
            o += fmt("%s%llx", o.empty() ? "" : ",", (unsigned long long)x);
        }
        fprintf(g_out, "P\t%s\t%s\n", inputhex(*S, S->model).c_str(),
                o.empty() ? "-" : o.c_str());
    }
    throw Kill();
}

static void
memcopy(const Val &dst, const Val &src, const Val &len, bool overlap_ok)
{
    uint64_t n = concretize(len, 64, "a copy length");
    if (n == 0)
        return;
    if (n > 1ull << 28)
        fatal("memory", "block copy with a huge length");
    std::vector<E> b = readbytes(src, n);
    Val d = dst;
    if (d.e && n <= g_blockmux && !src.e) {
        Ref r = resolve(d, n, true);
        OP so = findobj(src.c);
        if (r.soff && (overlap_ok || so != r.o)) {
            Obj *o = wobj(r.o);
            uint64_t hi = o->size - n;
            for (uint64_t i = o->size; i-- > 0;) {
                E old = byteE(o, i);
                E nw = old;
                for (uint64_t j = 0; j < n; j++) {
                    if (i < j || i - j > hi)
                        continue;
                    E c = mkeq(r.soff, mkc(i - j, 64));
                    nw = mkite(c, b[j], nw);
                }
                if (nw != old)
                    setbyte(o, i, nw);
            }
            return;
        }
    }
    if (d.e)
        d = cv(concretize(d, 64, "a block address"));
    Ref r = resolve(d, n, true);
    if (!overlap_ok && !src.e && d.c != src.c) {
        uint64_t a = d.c, c = src.c;
        if ((a < c && a + n > c) || (c < a && c + n > a))
            fatal("memory", "memcpy with overlapping regions");
    }
    Obj *o = wobj(r.o);
    for (uint64_t i = 0; i < n; i++)
        setbyte(o, r.off + i, b[i]);
}

static void
memfill(const Val &dst, const Val &val, const Val &len)
{
    uint64_t n = concretize(len, 64, "a fill length");
    if (n == 0)
        return;
    if (n > 1ull << 28)
        fatal("memory", "block fill with a huge length");
    Val d = dst;
    if (d.e)
        d = cv(concretize(d, 64, "a block address"));
    Ref r = resolve(d, n, true);
    Obj *o = wobj(r.o);
    E b = val.e ? mkextract(val.e, 0, 8) : mkc(val.c, 8);
    if (isc(b) && o->s.empty())
        memset(&o->b[r.off], (int)b->c, n);
    else
        for (uint64_t i = 0; i < n; i++)
            setbyte(o, r.off + i, b);
}

static Val
dofree(const Val &p)
{
    uint64_t a = concretize(p, 64, "a freed pointer");
    if (a == 0)
        return cv(0);
    auto it = S->mem.find(a);
    if (it == S->mem.end() || it->second->kind != K_HEAP)
        fatal("memory", "free of an invalid pointer");
    if (it->second->freed)
        fatal("memory", "double free");
    OP n = std::make_shared<Obj>();
    n->base = it->second->base;
    n->size = it->second->size;
    n->kind = K_HEAP;
    n->freed = true;
    it->second = n;
    S->last = nullptr;
    return cv(0);
}

static Val
doalloc(const Val &size, int fill)
{
    /* allocations beyond the limit fail, like on a small machine */
    if (size.e) {
        if (decide(mkult(mkc(S->sizelimit, 64), size.e)))
            return cv(0);
    } else if (size.c > S->sizelimit)
        return cv(0);
    uint64_t n = concretize(size, 64, "an allocation size");
    OP o = newobj(n, K_HEAP, fill);
    return cv(o->base);
}

static Val
ctpop(const Val &v, unsigned w)
{
    E x = toE(v, w);
    unsigned rw = w;
    E r = mkc(0, rw);
    if (isc(x)) {
        unsigned n = 0;
        for (unsigned i = 0; i < w; i++)
            n += (unsigned)(x->c >> i) & 1;
        return cv(n);
    }
    for (unsigned i = 0; i < w; i++)
        r = mkbin(O_ADD, r, mkzext(mkextract(x, i, 1), rw));
    return ev(r);
}

static Val
ctlz(const Val &v, unsigned w)
{
    E x = toE(v, w);
    E r = mkc(w, w);
    for (unsigned i = 0; i < w; i++)
        r = mkite(mkextract(x, i, 1), mkc(w - 1 - i, w), r);
    return ev(r);
}

static Val
cttz(const Val &v, unsigned w)
{
    E x = toE(v, w);
    E r = mkc(w, w);
    for (unsigned i = w; i-- > 0;)
        r = mkite(mkextract(x, i, 1), mkc(i, w), r);
    return ev(r);
}

static E
minmaxnum(E a, E b, bool ismin)
{
    unsigned w = a->w;
    E pick = ismin ? mkflt(a, b) : mkflt(b, a);
    E z = mkc(0, w - 1);
    E bz = mkand1(mkeq(mkextract(a, 0, w - 1), z),
                  mkeq(mkextract(b, 0, w - 1), z));
    /* the sign of the result for zeros of different sign is unspecified */
    if (!isc(bz) || bz->c) {
        if (a != b) {
            E f = freshvar(1);
            pick = mkite(bz, f, pick);
        }
    }
    E r = mkite(pick, a, b);
    r = mkite(mkfnan(b), a, r);
    r = mkite(mkfnan(a), b, r);
    return r;
}

static Val
intrinsic(const DI &d, const std::vector<Val> &a)
{
    unsigned w = d.w, ow = d.ow;
    auto X = [&](unsigned i, unsigned ww) { return toE(a[i], ww); };
    switch (d.iid) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
        memcopy(a[0], a[1],
                a[2].e ? ev(mkzext(a[2].e, 64)) : a[2], false);
        return Val();
    case Intrinsic::memmove:
        memcopy(a[0], a[1], a[2].e ? ev(mkzext(a[2].e, 64)) : a[2], true);
        return Val();
    case Intrinsic::memset:
    case Intrinsic::memset_inline:
        memfill(a[0], a[1], a[2].e ? ev(mkzext(a[2].e, 64)) : a[2]);
        return Val();
    case Intrinsic::vastart: {
        /* x86-64: everything is in the overflow area */
        size_t nv = FR->va.size();
        OP o = newobj(nv ? nv * 8 : 8, K_STACK, 0xaa);
        FR->allocas.push_back(o->base);
        uint64_t area = o->base;
        for (size_t i = 0; i < nv; i++) {
            Val v = FR->va[i];
            if (v.e && v.e->w < 64)
                v = ev(mkzext(v.e, 64));
            memwrite(cv(area + i * 8), v, 8, 64);
        }
        uint64_t ap = concretize(a[0], 64, "va_list");
        memwrite(cv(ap), cv(48), 4, 32);
        memwrite(cv(ap + 4), cv(176), 4, 32);
        memwrite(cv(ap + 8), cv(area), 8, 64);
        memwrite(cv(ap + 16), cv(0), 8, 64);
        return Val();
    }
    case Intrinsic::vaend: return Val();
    case Intrinsic::vacopy:
        memcopy(a[0], a[1], cv(24), true);
        return Val();
    case Intrinsic::trap:
    case Intrinsic::debugtrap:
    case Intrinsic::ubsantrap: fatal("ub", "undefined behaviour trap");
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability: return a[0];
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_constant: return cv(0);
    case Intrinsic::objectsize: return cv(~0ull);
    case Intrinsic::floor: return ev(mkf(O_FRND, w, 0, X(0, w)));
    case Intrinsic::ceil: return ev(mkf(O_FRND, w, 1, X(0, w)));
    case Intrinsic::trunc: return ev(mkf(O_FRND, w, 2, X(0, w)));
    case Intrinsic::rint:
    case Intrinsic::nearbyint:
    case Intrinsic::roundeven: return ev(mkf(O_FRND, w, 3, X(0, w)));
    case Intrinsic::sqrt: return ev(mkf(O_FSQRT, w, 0, X(0, w)));
    case Intrinsic::fabs:
        return ev(mkconcat(mkc(0, 1), mkextract(X(0, w), 0, w - 1)));
    case Intrinsic::copysign:
        return ev(mkconcat(mkextract(X(1, w), w - 1, 1),
                           mkextract(X(0, w), 0, w - 1)));
    case Intrinsic::minnum: return ev(minmaxnum(X(0, w), X(1, w), true));
    case Intrinsic::maxnum: return ev(minmaxnum(X(0, w), X(1, w), false));
    case Intrinsic::umin: {
        E x = X(0, w), y = X(1, w);
        return ev(mkite(mkult(x, y), x, y));
    }
    case Intrinsic::umax: {
        E x = X(0, w), y = X(1, w);
        return ev(mkite(mkult(x, y), y, x));
    }
    case Intrinsic::smin: {
        E x = X(0, w), y = X(1, w);
        return ev(mkite(mkslt(x, y), x, y));
    }
    case Intrinsic::smax: {
        E x = X(0, w), y = X(1, w);
        return ev(mkite(mkslt(x, y), y, x));
    }
    case Intrinsic::abs: {
        E x = X(0, w);
        return ev(mkite(mkslt(x, mkc(0, w)), mkneg(x), x));
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
        E x = X(0, w), y = X(1, w), s = X(2, w);
        s = mkbin(O_UREM, s, mkc(w, w));
        E inv = mksub(mkc(w, w), s);
        E z = mkeq(s, mkc(0, w));
        if (d.iid == Intrinsic::fshl)
            return ev(mkite(z, x,
                            mkbin(O_OR, mkbin(O_SHL, x, s),
                                  mkbin(O_LSHR, y, inv))));
        return ev(mkite(z, y,
                        mkbin(O_OR, mkbin(O_SHL, x, inv),
                              mkbin(O_LSHR, y, s))));
    }
    case Intrinsic::ctpop: return ctpop(a[0], w);
    case Intrinsic::ctlz: return ctlz(a[0], w);
    case Intrinsic::cttz: return cttz(a[0], w);
    case Intrinsic::bswap: {
        E x = X(0, w);
        E r = mkextract(x, 0, 8);
        for (unsigned i = 8; i < w; i += 8)
            r = mkconcat(r, mkextract(x, i, 8));
        return ev(r);
    }
    case Intrinsic::bitreverse: {
        E x = X(0, w);
        E r = mkextract(x, 0, 1);
        for (unsigned i = 1; i < w; i++)
            r = mkconcat(r, mkextract(x, i, 1));
        return ev(r);
    }
    case Intrinsic::uadd_with_overflow: {
        E x = X(0, ow), y = X(1, ow), r = mkbin(O_ADD, x, y);
        return aggv({ev(r), ev(mkult(r, x))});
    }
    case Intrinsic::usub_with_overflow: {
        E x = X(0, ow), y = X(1, ow);
        return aggv({ev(mksub(x, y)), ev(mkult(x, y))});
    }
    case Intrinsic::umul_with_overflow: {
        E x = X(0, ow), y = X(1, ow);
        if (ow > 64)
            unsupported("wide umul overflow");
        E p = mkbin(O_MUL, mkzext(x, 2 * ow), mkzext(y, 2 * ow));
        return aggv({ev(mkbin(O_MUL, x, y)),
                     ev(mkne(mkextract(p, ow, ow), mkc(0, ow)))});
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: {
        E x = mksext(X(0, ow), ow + 1), y = mksext(X(1, ow), ow + 1);
        E r = d.iid == Intrinsic::sadd_with_overflow ? mkbin(O_ADD, x, y)
                                                     : mksub(x, y);
        return aggv({ev(mkextract(r, 0, ow)),
                     ev(mkne(mkextract(r, ow, 1), mkextract(r, ow - 1, 1)))});
    }
    case Intrinsic::smul_with_overflow: {
        if (ow > 64)
            unsupported("wide smul overflow");
        E p = mkbin(O_MUL, mksext(X(0, ow), 2 * ow), mksext(X(1, ow), 2 * ow));
        E lo = mkextract(p, 0, ow);
        return aggv({ev(lo), ev(mkne(p, mksext(lo, 2 * ow)))});
    }
    case Intrinsic::uadd_sat: {
        E x = X(0, w), y = X(1, w), r = mkbin(O_ADD, x, y);
        return ev(mkite(mkult(r, x), mkc(maskw(w), w), r));
    }
    case Intrinsic::usub_sat: {
        E x = X(0, w), y = X(1, w);
        return ev(mkite(mkult(x, y), mkc(0, w), mksub(x, y)));
    }
    case Intrinsic::sadd_sat:
    case Intrinsic::ssub_sat: {
        E x = mksext(X(0, w), w + 1), y = mksext(X(1, w), w + 1);
        E r = d.iid == Intrinsic::sadd_sat ? mkbin(O_ADD, x, y)
                                           : mksub(x, y);
        E hi = mkc(maskw(w - 1), w + 1),
          lo = mkc(~maskw(w - 1), w + 1);
        r = mkite(mkslt(hi, r), hi, mkite(mkslt(r, lo), lo, r));
        return ev(mkextract(r, 0, w));
    }
    case Intrinsic::is_fpclass: {
        E x = X(0, ow);
        uint64_t mask = a[1].c;
        unsigned mb = ow == 32 ? 23 : 52;
        E ex = mkextract(x, mb, ow - 1 - mb), man = mkextract(x, 0, mb);
        E sg = mkextract(x, ow - 1, 1);
        E e1 = mkeq(ex, mkc(maskw(ow - 1 - mb), ow - 1 - mb)),
          e0 = mkeq(ex, mkc(0, ow - 1 - mb)), m0 = mkeq(man, mkc(0, mb));
        E q = mkextract(man, mb - 1, 1);
        E r = mkc(0, 1);
        auto add = [&](unsigned bit, E c) {
            if (mask & (1u << bit))
                r = mkor1(r, c);
        };
        E nan = mkand1(e1, mknot(m0));
        E norm = mkand1(mknot(e1), mknot(e0));
        E sub = mkand1(e0, mknot(m0));
        add(0, mkand1(nan, mknot(q)));
        add(1, mkand1(nan, q));
        add(2, mkand1(sg, mkand1(e1, m0)));
        add(3, mkand1(sg, norm));
        add(4, mkand1(sg, sub));
        add(5, mkand1(sg, mkand1(e0, m0)));
        add(6, mkand1(mknot(sg), mkand1(e0, m0)));
        add(7, mkand1(mknot(sg), sub));
        add(8, mkand1(mknot(sg), norm));
        add(9, mkand1(mknot(sg), mkand1(e1, m0)));
        return ev(r);
    }
    default:
        unsupported("intrinsic " + d.callee->getName().str() + " at " +
                    locof(*FR));
    }
}

static bool builtin(const DI &d, const std::string &n, std::vector<Val> &a,
                    Val &ret);

static void
docall(const DI &d)
{
    std::vector<Val> args;
    args.reserve(d.ops.size());
    unsigned na = d.ops.size() - (d.callee ? 0 : 1);
    for (unsigned i = 0; i < na; i++)
        args.push_back(get(d.ops[i]));
    if (d.iid != Intrinsic::not_intrinsic) {
        Val r = intrinsic(d, args);
        setreg(d, r);
        FR->pc++;
        return;
    }
    const Function *cal = d.callee;
    if (!cal) {
        Val fp = get(d.ops.back());
        uint64_t a = concretize(fp, 64, "a function pointer");
        auto it = g_faddr.find(a);
        if (it == g_faddr.end())
            fatal("memory", "call through an invalid function pointer");
        cal = it->second;
    }
    if (cal->isDeclaration()) {
        Val r;
        if (!builtin(d, cal->getName().str(), args, r))
            unsupported("external function " + cal->getName().str() +
                        " called at " + locof(*FR));
        setreg(d, r);
        FR->pc++;
        return;
    }
    Fn *f = getfn(cal);
    if (d.musttail) {
        int rd = FR->retdst;
        popframe();
        /* FR may be null only for thread entry functions */
        pushframe(f, std::move(args), rd);
        return;
    }
    FR->pc++;
    pushframe(f, std::move(args), d.dst);
}

static bool
builtin(const DI &d, const std::string &n, std::vector<Val> &a, Val &ret)
{
    static std::unordered_map<std::string, int> tab;
    enum {
        B_BYTES = 1, B_ASSUME, B_CHECK, B_OBSERVE, B_REACH, B_EXPECT, B_PARAM,
        B_CONC, B_END, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ABORT,
        B_ASSERT, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_SQRT,
        B_ISSYM, B_TCREATE, B_TSWITCH, B_TSELF, B_FAIL, B_OBJSIZE, B_NANPAY,
        B_MAXALLOC,
        B_BLOCKMUX,
    };
    if (tab.empty()) {
        tab["sym_bytes"] = B_BYTES;
        tab["sym_assume"] = B_ASSUME;
        tab["sym_check_"] = B_CHECK;
        tab["sym_fail_"] = B_FAIL;
        tab["sym_observe"] = B_OBSERVE;
        tab["sym_reach"] = B_REACH;
        tab["sym_expect"] = B_EXPECT;
        tab["sym_param"] = B_PARAM;
        tab["sym_concretize"] = B_CONC;
        tab["sym_end"] = B_END;
        tab["sym_malloc"] = B_MALLOC;
        tab["sym_calloc"] = B_CALLOC;
        tab["sym_realloc"] = B_REALLOC;
        tab["sym_free"] = B_FREE;
        tab["malloc"] = B_MALLOC;
        tab["calloc"] = B_CALLOC;
        tab["realloc"] = B_REALLOC;
        tab["free"] = B_FREE;
        tab["abort"] = B_ABORT;
        tab["__assert_fail"] = B_ASSERT;
        tab["memcpy"] = B_MEMCPY;
        tab["memmove"] = B_MEMMOVE;
        tab["memset"] = B_MEMSET;
        tab["memcmp"] = B_MEMCMP;
        tab["bcmp"] = B_BCMP;
        tab["sqrt"] = B_SQRT;
        tab["sqrtf"] = B_SQRT;
        tab["sym_is_symbolic"] = B_ISSYM;
        tab["sym_thread_create"] = B_TCREATE;
        tab["sym_thread_switch"] = B_TSWITCH;
        tab["sym_thread_self"] = B_TSELF;
        tab["sym_object_size"] = B_OBJSIZE;
        tab["sym_max_alloc"] = B_MAXALLOC;
        tab["sym_block_mux"] = B_BLOCKMUX;
    }
    auto it = tab.find(n);
    if (it == tab.end())
        return false;
    switch (it->second) {
    case B_BYTES: {
        uint64_t nb = concretize(a[1], 64, "a symbolic input size");
        if (nb == 0)
            return true;
        Ref r = resolve(a[0], nb, true);
        Obj *o = wobj(r.o);
        Input in;
        in.n = nb;
        if (nb == 1 || nb == 2 || nb == 4 || nb == 8) {
            E v = freshvar(nb * 8);
            for (uint64_t i = 0; i < nb; i++) {
                E b = mkextract(v, i * 8, 8);
                setbyte(o, r.off + i, b);
                in.bytes.push_back(ev(b));
            }
        } else
            for (uint64_t i = 0; i < nb; i++) {
                E v = freshvar(8);
                setbyte(o, r.off + i, v);
                in.bytes.push_back(ev(v));
            }
        S->in.push_back(std::move(in));
        return true;
    }
    case B_ASSUME: sym_assume(a[0], 32); return true;
    case B_CHECK: sym_check(a[0], 32, cstr(a[1])); return true;
    case B_FAIL: fatal("check", cstr(a[0]));
    case B_OBSERVE: S->obs.push_back(a[0]); return true;
    case B_REACH: {
        g_labelcount[cstr(a[0])]++;
        return true;
    }
    case B_EXPECT: g_expect.insert(cstr(a[0])); return true;
    case B_PARAM: {
        uint64_t i = a[0].c;
        ret = cv(i < g_params.size() ? g_params[i] : a[1].c);
        return true;
    }
    case B_CONC: ret = cv(concretize(a[0], 64, "a value")); return true;
    case B_END: endpath(); return true;
    case B_MALLOC: ret = doalloc(a[0], 0xbe); return true;
    case B_CALLOC: {
        Val sz;
        if (a[0].e || a[1].e) {
            E x = toE(a[0], 64), y = toE(a[1], 64);
            E p = mkbin(O_MUL, mkzext(x, 128), mkzext(y, 128));
            if (decide(mkne(mkextract(p, 64, 64), mkc(0, 64)))) {
                ret = cv(0);
                return true;
            }
            sz = ev(mkbin(O_MUL, x, y));
        } else {
            u128 p = (u128)a[0].c * a[1].c;
            if (p >> 64) {
                ret = cv(0);
                return true;
            }
            sz = cv((uint64_t)p);
        }
        ret = doalloc(sz, 0);
        return true;
    }
    case B_REALLOC: {
        uint64_t p = concretize(a[0], 64, "a reallocated pointer");
        if (p) {
            auto mi = S->mem.find(p);
            if (mi == S->mem.end() || mi->second->kind != K_HEAP)
                fatal("memory", "realloc of an invalid pointer");
            if (mi->second->freed)
                fatal("memory", "realloc of freed memory");
        }
        Val np = doalloc(a[1], 0xbe);
        if (p && np.c) {
            OP old = S->mem.find(p)->second;
            OP nw = S->mem.find(np.c)->second;
            uint64_t k = std::min(old->size, nw->size);
            for (uint64_t i = 0; i < k; i++)
                nw->b[i] = old->b[i];
            for (auto &x : old->s)
                if (x.first < k)
                    nw->s[x.first] = x.second;
            dofree(cv(p));
        }
        ret = np;
        return true;
    }
    case B_FREE: dofree(a[0]); return true;
    case B_ABORT: fatal("abort", "abort() called");
    case B_ASSERT:
        fatal("assert", "assertion failed: " + cstr(a[0]));
    case B_MEMCPY:
        memcopy(a[0], a[1], a[2], false);
        ret = a[0];
        return true;
    case B_MEMMOVE:
        memcopy(a[0], a[1], a[2], true);
        ret = a[0];
        return true;
    case B_MEMSET:
        memfill(a[0], a[1], a[2]);
        ret = a[0];
        return true;
    case B_MEMCMP:
    case B_BCMP: {
        uint64_t len = concretize(a[2], 64, "a comparison length");
        std::vector<E> x = readbytes(a[0], len), y = readbytes(a[1], len);
        E r = mkc(0, 32);
        for (uint64_t i = len; i-- > 0;) {
            E lt = mkite(mkult(x[i], y[i]), mkc(0xffffffff, 32), mkc(1, 32));
            r = mkite(mkeq(x[i], y[i]), r, lt);
        }
        ret = ev(r);
        return true;
    }
    case B_SQRT: ret = ev(mkf(O_FSQRT, d.w, 0, toE(a[0], d.w))); return true;
    case B_ISSYM: ret = cv(a[0].e != nullptr); return true;
    case B_TCREATE: {
        auto fi = g_faddr.find(a[0].c);
        if (fi == g_faddr.end())
            unsupported("thread entry");
        Fn *f = getfn(fi->second);
        Thread t;
        t.st.emplace_back();
        Frame &fr = t.st.back();
        fr.f = f;
        fr.pc = 0;
        fr.blk = 0;
        fr.regs.resize(f->nregs);
        fr.regs[0] = a[1];
        fr.retdst = -1;
        f->count++;
        S->th.push_back(std::move(t));
        FR = &S->th[S->cur].st.back();
        ret = cv(S->th.size() - 1);
        return true;
    }
    case B_TSELF: ret = cv(S->cur); return true;
    case B_TSWITCH: {
        uint64_t t = concretize(a[0], 32, "a thread id");
        if (t >= S->th.size())
            unsupported("thread switch");
        /* advance past this call in the old thread by the caller of builtin:
         * done here because FR changes */
        S->cur = (unsigned)t;
        return true;
    }
    case B_OBJSIZE: {
        OP o = a[0].e ? nullptr : findobj(a[0].c);
        ret = cv(o ? o->size - (a[0].c - o->base) : 0);
        return true;
    }
    case B_MAXALLOC: S->sizelimit = a[0].c; return true;
    case B_BLOCKMUX: g_blockmux = a[0].c; return true;
    }
    return false;
}

static void
step()
{
    const DI &d = FR->f->code[FR->pc];
    switch (d.opc) {
    case Instruction::Br: {
        if (d.ops.empty()) {
            jumpto(d.succ[0]);
            return;
        }
        Val c = get(d.ops[0]);
        bool t = c.e ? decide(c.e) : (c.c != 0);
        jumpto(t ? d.succ[0] : d.succ[1]);
        return;
    }
    case Instruction::Switch: {
        Val c = get(d.ops[0]);
        if (!c.e) {
            for (auto &k : d.cases)
                if ((uint64_t)k.first == c.c) {
                    jumpto(k.second);
                    return;
                }
            jumpto(d.succ[0]);
            return;
        }
        /* group by target */
        uint64_t v = (uint64_t)evalexpr(c.e, S->model);
        unsigned tgt = d.succ[0];
        for (auto &k : d.cases)
            if ((uint64_t)k.first == v)
                tgt = k.second;
        E cond = mkc(0, 1), any = mkc(0, 1);
        for (auto &k : d.cases) {
            E q = mkeq(c.e, mkc(k.first, d.ow));
            any = mkor1(any, q);
            if (k.second == tgt)
                cond = mkor1(cond, q);
        }
        if (tgt == d.succ[0])
            cond = mkor1(cond, mknot(any));
        decide(cond); /* the model satisfies cond */
        jumpto(tgt);
        return;
    }
    case Instruction::Ret: {
        Val v;
        if (!d.ops.empty())
            v = get(d.ops[0]);
        int rd = FR->retdst;
        popframe();
        if (!FR) {
            if (S->cur == 0)
                endpath();
            unsupported("thread entry returned");
        }
        if (rd >= 0)
            FR->regs[rd] = v;
        return;
    }
    case Instruction::Call: {
        if (d.callee && d.callee->isDeclaration() &&
            d.callee->getName() == "sym_thread_switch") {
            /* step over the call before switching */
            Val a = get(d.ops[0]);
            uint64_t t = concretize(a, 32, "a thread id");
            if (t >= S->th.size())
                unsupported("thread switch");
            FR->pc++;
            S->cur = (unsigned)t;
            FR = &S->th[S->cur].st.back();
            return;
        }
        docall(d);
        return;
    }
    case Instruction::Unreachable:
        fatal("ub", "unreachable code executed");
    case Instruction::Alloca: {
        uint64_t cnt = concretize(get(d.ops[0]), d.ow ? d.ow : 32, "alloca");
        OP o = newobj(d.size * cnt, K_STACK, 0xaa);
        FR->allocas.push_back(o->base);
        setreg(d, cv(o->base));
        break;
    }
    case Instruction::Load: {
        if (!d.w)
            unsupported("load of " + tystr(d.I->getType()) + " at " +
                        locof(*FR));
        setreg(d, memread(get(d.ops[0]), d.size, d.w));
        break;
    }
    case Instruction::Store: {
        if (!d.ow)
            unsupported("store of aggregate at " + locof(*FR));
        memwrite(get(d.ops[1]), get(d.ops[0]), d.size, d.ow);
        break;
    }
    case Instruction::GetElementPtr: {
        Val b = get(d.ops[0]);
        bool sym = b.e != nullptr;
        for (size_t i = 1; i < d.ops.size() && !sym; i++)
            if (d.scale[i] && d.ops[i].reg >= 0 && FR->regs[d.ops[i].reg].e)
                sym = true;
        if (!sym) {
            uint64_t r = b.c + d.off;
            for (size_t i = 1; i < d.ops.size(); i++)
                if (d.scale[i]) {
                    Val x = get(d.ops[i]);
                    int64_t s = (int64_t)x.c;
                    unsigned w = d.ow2[i];
                    if (w < 64)
                        s = (int64_t)(x.c << (64 - w)) >> (64 - w);
                    r += (uint64_t)(s * d.scale[i]);
                }
            setreg(d, cv(r));
        } else {
            E r = mkbin(O_ADD, toE(b, 64), mkc((uint64_t)d.off, 64));
            for (size_t i = 1; i < d.ops.size(); i++)
                if (d.scale[i]) {
                    E x = mksext(toE(get(d.ops[i]), d.ow2[i]), 64);
                    r = mkbin(O_ADD, r,
                              mkbin(O_MUL, x, mkc((uint64_t)d.scale[i], 64)));
                }
            setreg(d, ev(r));
        }
        break;
    }
    case Instruction::ICmp: {
        if (!d.ow)
            unsupported("icmp type");
        Val a = get(d.ops[0]), b = get(d.ops[1]);
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c;
            unsigned sh = 64 - d.ow;
            int64_t sx = (int64_t)(x << sh), sy = (int64_t)(y << sh);
            bool r;
            switch (d.pred) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            default: r = sx >= sy; break;
            }
            setreg(d, cv(r));
        } else
            setreg(d, ev(icmp(d.pred, toE(a, d.ow), toE(b, d.ow))));
        break;
    }
    case Instruction::FCmp:
        setreg(d, ev(fcmp(d.pred, toE(get(d.ops[0]), d.ow),
                          toE(get(d.ops[1]), d.ow))));
        break;
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
        if (!d.w)
            unsupported("vector arithmetic at " + locof(*FR));
        setreg(d, binop(d.opc, get(d.ops[0]), get(d.ops[1]), d.w));
        break;
    case Instruction::Trunc: {
        Val a = get(d.ops[0]);
        if (!a.e)
            setreg(d, cv(a.c & (uint64_t)maskw(d.w)));
        else
            setreg(d, ev(mkextract(a.e, 0, d.w)));
        break;
    }
    case Instruction::ZExt: {
        Val a = get(d.ops[0]);
        if (!a.e && d.w <= 64)
            setreg(d, a);
        else
            setreg(d, ev(mkzext(toE(a, d.ow), d.w)));
        break;
    }
    case Instruction::SExt: {
        Val a = get(d.ops[0]);
        setreg(d, ev(mksext(toE(a, d.ow), d.w)));
        break;
    }
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
        Val a = get(d.ops[0]);
        if (d.w < d.ow)
            setreg(d, ev(mkextract(toE(a, d.ow), 0, d.w)));
        else
            setreg(d, ev(mkzext(toE(a, d.ow), d.w)));
        break;
    }
    case Instruction::BitCast: {
        if (!d.w || !d.ow)
            unsupported("vector bitcast at " + locof(*FR));
        setreg(d, get(d.ops[0]));
        break;
    }
    case Instruction::Freeze: setreg(d, get(d.ops[0])); break;
    case Instruction::Select: {
        Val c = get(d.ops[0]);
        if (!c.e)
            setreg(d, get(d.ops[c.c ? 1 : 2]));
        else if (d.w)
            setreg(d, ev(mkite(c.e, toE(get(d.ops[1]), d.w),
                               toE(get(d.ops[2]), d.w))));
        else
            setreg(d, get(d.ops[decide(c.e) ? 1 : 2]));
        break;
    }
    case Instruction::ExtractValue: {
        Val a = get(d.ops[0]);
        for (unsigned i : d.idx) {
            if (!a.agg)
                unsupported("extractvalue");
            a = (*a.agg)[i];
        }
        setreg(d, a);
        break;
    }
    case Instruction::InsertValue: {
        Val a = get(d.ops[0]);
        if (d.idx.size() != 1 || !a.agg)
            unsupported("insertvalue");
        std::vector<Val> v = *a.agg;
        v[d.idx[0]] = get(d.ops[1]);
        setreg(d, aggv(v));
        break;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv: {
        Op op = d.opc == Instruction::FAdd   ? O_FADD
                : d.opc == Instruction::FSub ? O_FSUB
                : d.opc == Instruction::FMul ? O_FMUL
                                             : O_FDIV;
        setreg(d, ev(mkf(op, d.w, 0, toE(get(d.ops[0]), d.w),
                         toE(get(d.ops[1]), d.w))));
        break;
    }
    case Instruction::FNeg:
        setreg(d, ev(mkbin(O_XOR, toE(get(d.ops[0]), d.w),
                           mkc((u128)1 << (d.w - 1), d.w))));
        break;
    case Instruction::FPExt:
    case Instruction::FPTrunc:
        setreg(d, ev(mkf(O_FCVT, d.w, 0, toE(get(d.ops[0]), d.ow))));
        break;
    case Instruction::SIToFP:
        setreg(d, ev(mkf(O_S2F, d.w, 0, toE(get(d.ops[0]), d.ow))));
        break;
    case Instruction::UIToFP:
        setreg(d, ev(mkf(O_U2F, d.w, 0, toE(get(d.ops[0]), d.ow))));
        break;
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
        E x = toE(get(d.ops[0]), d.ow);
        bool sg = d.opc == Instruction::FPToSI;
        /* out of range conversions are undefined */
        double lo, hi; /* lo < x < hi (or lo <= x) */
        hi = std::ldexp(1.0, sg ? (int)d.w - 1 : (int)d.w);
        E bad;
        auto fc = [&](double v) -> E {
            if (d.ow == 32) {
                float f = (float)v;
                uint32_t u;
                memcpy(&u, &f, 4);
                return mkc(u, 32);
            }
            uint64_t u;
            memcpy(&u, &v, 8);
            return mkc(u, 64);
        };
        E toobig = mknot(mkflt(x, fc(hi)));
        E toosmall;
        if (!sg)
            toosmall = mknot(mkflt(fc(-1.0), x));
        else {
            lo = -hi;
            double lm1 = lo - 1.0;
            bool exact = d.ow == 64 ? d.w <= 32 : false;
            if (exact)
                toosmall = mknot(mkflt(fc(lm1), x));
            else
                toosmall = mknot(mkfle(fc(lo), x));
        }
        bad = mkor1(toobig, toosmall);
        if (decide(bad))
            fatal("ub", "float to integer conversion out of range");
        setreg(d, ev(mkf(sg ? O_F2S : O_F2U, d.w, 0, x)));
        break;
    }
    case Instruction::AtomicCmpXchg: {
        Val p = get(d.ops[0]);
        if (p.e)
            p = cv(concretize(p, 64, "an atomic address"));
        Val old = memread(p, d.size, d.ow);
        E eq = mkeq(toE(old, d.ow), toE(get(d.ops[1]), d.ow));
        bool ok = decide(eq);
        if (ok)
            memwrite(p, get(d.ops[2]), d.size, d.ow);
        setreg(d, aggv({old, cv(ok)}));
        break;
    }
    case Instruction::AtomicRMW: {
        auto *rmw = cast<AtomicRMWInst>(d.I);
        Val p = get(d.ops[0]);
        if (p.e)
            p = cv(concretize(p, 64, "an atomic address"));
        Val old = memread(p, d.size, d.ow);
        E o = toE(old, d.ow), v = toE(get(d.ops[1]), d.ow), r;
        switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Add: r = mkbin(O_ADD, o, v); break;
        case AtomicRMWInst::Sub: r = mksub(o, v); break;
        case AtomicRMWInst::And: r = mkbin(O_AND, o, v); break;
        case AtomicRMWInst::Or: r = mkbin(O_OR, o, v); break;
        case AtomicRMWInst::Xor: r = mkbin(O_XOR, o, v); break;
        case AtomicRMWInst::Nand: r = mknot(mkbin(O_AND, o, v)); break;
        case AtomicRMWInst::UMax: r = mkite(mkult(o, v), v, o); break;
        case AtomicRMWInst::UMin: r = mkite(mkult(o, v), o, v); break;
        case AtomicRMWInst::Max: r = mkite(mkslt(o, v), v, o); break;
        case AtomicRMWInst::Min: r = mkite(mkslt(o, v), o, v); break;
        default: unsupported("atomicrmw");
        }
        memwrite(p, ev(r), d.size, d.ow);
        setreg(d, old);
        break;
    }
    case Instruction::Fence: break;
    default:
        unsupported(std::string("instruction ") + d.I->getOpcodeName() +
                    " at " + locof(*FR));
    }
    FR->pc++;
}

static void
jsonstr(FILE *f, const std::string &s)
{
    fputc('"', f);
    for (char c : s) {
        if (c == '"' || c == '\\')
            fputc('\\', f);
        if ((unsigned char)c < 0x20)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static int
run(const char *entry, const char *jsonpath)
{
    const Function *F = M->getFunction(entry);
    if (!F || F->isDeclaration())
        unsupported(std::string("no entry function ") + entry);
    State *s0 = new State();
    S = s0;
    s0->next = 0x100000000ull;
    /* functions */
    uint64_t fa = 0x10000;
    for (auto &f : *M) {
        g_addr[&f] = fa;
        g_faddr[fa] = &f;
        fa += 16;
    }
    for (auto &g : M->globals()) {
        if (g.getName().starts_with("llvm."))
            continue;
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        OP o = newobj(sz, K_GLOBAL, 0);
        g_addr[&g] = o->base;
    }
    /* external variables are those of the model, like functions */
    for (auto &g : M->globals())
        if (g.isDeclaration())
            if (auto *r = M->getNamedGlobal("rt_" + g.getName().str()))
                if (!r->isDeclaration())
                    g_addr[&g] = g_addr[r];
    for (auto &g : M->globals()) {
        if (g.isDeclaration())
            continue;
        auto it = g_addr.find(&g);
        if (it == g_addr.end())
            continue;
        OP o = s0->mem[it->second];
        if (g.hasInitializer())
            initbytes(o->b, 0, g.getInitializer());
        if (g.isConstant()) {
            o->ro = true;
            g_ro[o->base] = o;
            s0->mem.erase(o->base);
        }
    }
    s0->last = nullptr;
    s0->th.emplace_back();
    pushframe(getfn(F), {}, -1);
    g_work.push_back(s0);
    g_deadline_s = std::chrono::duration<double>(g_t0.time_since_epoch()).count() +
                   g_timelimit;
    bool timeout = false;
    while (!g_work.empty()) {
        S = g_work.back();
        g_work.pop_back();
        S->last = nullptr;
        FR = &S->th[S->cur].st.back();
        try {
            for (;;) {
                step();
                g_steps++;
                if (++S->steps > g_maxsteps)
                    fatal("hang", fmt("no end after %llu instructions",
                                      (unsigned long long)g_maxsteps));
                if ((g_steps & 0x3ff) == 0 && elapsed() > g_timelimit) {
                    timeout = true;
                    throw Kill();
                }
            }
        } catch (Kill &) {
        }
        delete S;
        if (elapsed() > g_timelimit)
            timeout = timeout || !g_work.empty();
        if (timeout) {
            incomplete(fmt("time limit of %.0f s reached, %zu states left",
                           g_timelimit, g_work.size()));
            break;
        }
        if (g_viol.size() >= g_maxviol)
            break;
    }
    for (auto &l : g_expect)
        if (!g_labelcount.count(l) && g_viol.empty())
            incomplete("expected point never reached: " + l);
    FILE *f = jsonpath ? fopen(jsonpath, "w") : stdout;
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "{\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,"
               "\"instructions\":%llu,\"checks\":%llu,\"queries\":%llu,"
               "\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,"
               "\"bymodel\":%llu,\"small\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,"
               "\"wall_s\":%.3f,\"maxrss_mb\":%ld,\"exprs\":%zu,",
            (unsigned long long)g_paths, (unsigned long long)g_pruned,
            (unsigned long long)g_forks, (unsigned long long)g_steps,
            (unsigned long long)g_checks, (unsigned long long)g_ss.queries,
            (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat,
            (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cached,
            (unsigned long long)g_ss.bymodel, (unsigned long long)g_ss.small, g_ss.time, g_ss.maxtime,
            elapsed(), ru.ru_maxrss / 1024, expr_count());
    fprintf(f, "\"labels\":{");
    bool first = true;
    for (auto &l : g_labelcount) {
        fprintf(f, "%s", first ? "" : ",");
        jsonstr(f, l.first);
        fprintf(f, ":%llu", (unsigned long long)l.second);
        first = false;
    }
    fprintf(f, "},\"functions\":[");
    first = true;
    for (auto &p : g_fns)
        if (p.second->count && p.second->user) {
            fprintf(f, "%s", first ? "" : ",");
            jsonstr(f, p.second->name);
            first = false;
        }
    fprintf(f, "],\"incomplete\":[");
    first = true;
    for (auto &x : g_incomplete) {
        fprintf(f, "%s", first ? "" : ",");
        jsonstr(f, x);
        first = false;
    }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto &v : g_viol) {
        fprintf(f, "%s{\"kind\":", first ? "" : ",");
        jsonstr(f, v.kind);
        fprintf(f, ",\"msg\":");
        jsonstr(f, v.msg);
        fprintf(f, ",\"loc\":");
        jsonstr(f, v.loc);
        fprintf(f, ",\"trace\":");
        jsonstr(f, v.trace);
        fprintf(f, ",\"inputs\":\"%s\"}", v.inputs.c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    if (f != stdout)
        fclose(f);
    if (g_out)
        fclose(g_out);
    return !g_viol.empty() ? 1 : !g_incomplete.empty() ? 2 : 0;
}

static int g_argc;
static char **g_argv;
static int g_rc;

static void *
mainthread(void *)
{
    const char *bc = nullptr, *entry = "harness_main", *json = nullptr;
    for (int i = 1; i < g_argc; i++) {
        std::string a = g_argv[i];
        if (a == "--entry")
            entry = g_argv[++i];
        else if (a == "--json")
            json = g_argv[++i];
        else if (a == "--out")
            g_out = fopen(g_argv[++i], "w");
        else if (a == "--time")
            g_timelimit = atof(g_argv[++i]);
        else if (a == "--query-timeout")
            g_query_timeout_ms = atoi(g_argv[++i]) * 1000;
        else if (a == "--max-steps")
            g_maxsteps = strtoull(g_argv[++i], NULL, 0);
        else if (a == "--max-violations")
            g_maxviol = atoi(g_argv[++i]);
        else if (a == "--paths-out")
            g_maxpaths_out = atoi(g_argv[++i]);
        else if (a == "--param")
            g_params.push_back(strtoull(g_argv[++i], nullptr, 0));
        else
            bc = g_argv[i];
    }
    g_t0 = std::chrono::steady_clock::now();
    SMDiagnostic err;
    M = parseIRFile(bc, err, LC);
    if (!M) {
        err.print("symex", errs());
        g_rc = 3;
        return nullptr;
    }
    DL = &M->getDataLayout();
    solver_init();
    g_rc = run(entry, json);
    return nullptr;
}

int
main(int argc, char **argv)
{
    g_argc = argc;
    g_argv = argv;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    if (pthread_create(&t, &at, mainthread, nullptr))
        return 3;
    pthread_join(t, nullptr);
    fflush(stdout);
    _exit(g_rc);
}
