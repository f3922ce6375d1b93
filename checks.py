"""Which explorations decide which property."""
from driver import Run

CHECKS = {}


def add(pid, runs, bounds, outside="", assumptions=()):
    CHECKS[pid] = dict(runs=runs, bounds=bounds, outside=outside,
                       assumptions=list(assumptions))


# ---- C02: integer instructions
def groups(h, first, last, n, **kw):
    return [Run(h, (a, min(n, last - a + 1)), **kw)
            for a in range(first, last + 1, n)]


add("C02",
    groups("int.c", 0x45, 0x5a, 6) + groups("int.c", 0x67, 0x8a, 3) +
    groups("int.c", 0xa7, 0xad, 7) + groups("int.c", 0xc0, 0xc4, 5),
    bounds="every i32/i64 numeric instruction; all 2^32/2^64 operand values")

add("C01",
    [Run("leb.c", (k,)) for k in range(11)],
    bounds="i32.const, i64.const, local, function, label, block type, "
    "global, type indexes, memory offsets, local counts and section sizes; "
    "all byte values of all encodings of 1 to max+1 bytes, complete and "
    "truncated",
    outside="multi-byte encodings of negative block types")

add("C05",
    [Run("mem.c", (c, l), weight=c) for c in range(5) for l in range(4)] +
    [Run("mem.c", (c, l, 1), weight=c) for c in range(5) for l in (0, 2)] +
    [Run("many.c", p) for p in ((4,),)],
    bounds="any of 140 indices of each kind; all scalar, SIMD and atomic "
    "loads and stores; all 2^64 "
    "address/offset pairs on a 20 byte memory (byte sized pages, arbitrary "
    "contents, fresh, lazily allocated or grown); 64KB pages: all addresses "
    "for scalar loads of a touched page, addresses around 0, the page end "
    "and 2^32 otherwise; memory 0 and memory 1 of two",
    outside="memories larger than one 64KB page; concurrent access")

NOT_APPLICABLE = {}

add("C03",
    groups("float.c", 0x5b, 0x66, 4) + groups("float.c", 0x8b, 0xa6, 3) +
    groups("float.c", 0xa8, 0xab, 1) + groups("float.c", 0xae, 0xbf, 3) +
    groups("float.c", 0xfc00, 0xfc07, 1),
    bounds="every scalar floating point comparison, arithmetic, rounding, "
    "min/max, copysign, conversion, reinterpretation and saturating "
    "truncation opcode; every operand bit symbolic, including NaNs, "
    "infinities, zeros of both signs and subnormals; results compared with "
    "bit level definitions (IEEE add/sub/mul/div/sqrt with the solver's "
    "floating point theory)",
    outside="payload and sign of NaN results of arithmetic (the standard "
    "leaves them open); evaluation under other rounding modes; compilers "
    "other than the installed one")

add("C04",
    groups("simd.c", 12, 12, 1) + groups("simd.c", 13, 13, 1) +
    groups("simd.c", 14, 83, 6) + groups("simd.c", 94, 255, 8),
    bounds="every v128 opcode other than memory access (those are in C05): "
    "shuffles, splats, lane access, comparisons, bitwise, integer and "
    "floating point lane arithmetic, narrowing, extension, dot product, "
    "conversions. Integer lane-wise operations: two arbitrary neighbouring "
    "lanes fully symbolic, the others fixed; floating point: one arbitrary "
    "lane; bitwise, tests and masks: all 16 bytes. Lane immediates: all "
    "legal values",
    outside="i16x8.q15mulr_sat_s: one factor arbitrary, the other from 8 "
    "boundary values; NaN payloads; relaxed SIMD (not implemented by the "
    "runtime)")

add("C06",
    [Run("bulk.c", (k, 1, l)) for l in (0, 1) for k in range(8)] +
    [Run("bulk.c", (5, 2, 0)), Run("bulk.c", (6, 2, 0, 1), weight=3),
     Run("bulk.c", (7, 2, 0, 1), weight=3), Run("bulk.c", (6, 2, 1, 1),
                                               weight=3),
     Run("bulk.c", (0, 1, 2), weight=3), Run("bulk.c", (0, 1, 3))] +
    [Run("bulk.c", (k, 2, 0), tier="thorough", time=600, weight=5)
     for k in range(8)] +
    [Run("many.c", p) for p in ((8,),)],
    bounds="any of 140 indices of each kind; two byte-paged memories of 7 "
    "(maximum 10) and 5 bytes with "
    "arbitrary contents and one passive segment of 4 arbitrary bytes; every "
    "single fill/copy (within and across memories)/init/drop/grow with "
    "arbitrary 32-bit operands, on written and on untouched memory; "
    "histories of two operations beginning with drop or growth (thorough: "
    "any first operation); 64KB pages: two growths of 0..4 pages or a number "
    "that must fail, initial sizes 0..2",
    outside="memories larger than 16 bytes in combination with bulk "
    "operations; 64-bit memories (not implemented by the runtime)")

add("C07",
    [Run("table.c", (o, 1, e)) for e in (0, 1) for o in range(10)] +
    [Run("table.c", (6, 2)), Run("table.c", (6, 2, 1))] +
    [Run("table.c", (o, 2, 1), tier="thorough", time=600, weight=4)
     for o in range(9)] +
    [Run("callind.c", (0,)), Run("callind.c", (1,))] +
    [Run("many.c", p) for p in ((3,), (9,))],
    bounds="any of 140 indices of each kind; two tables of 4 (maximum 7) and "
    "3 entries, of funcref and of "
    "externref (arbitrary 64-bit references), one passive segment of three "
    "element expressions; every single get/set/fill/copy/init/drop/grow with "
    "arbitrary 32-bit operands and histories drop+any (thorough: any two "
    "externref operations); indirect and indirect tail calls: every 32-bit "
    "index, seven types (equal, structurally equal, different parameters, "
    "results), two tables, from the defining and from an importing instance",
    outside="tables of more than 16 entries; growth by 5 to 2^32-17 entries")

add("C08",
    [Run("flow.c", (i, 1, o, k, 1)) for i in range(6) for k in range(4)
     for o in (0, 1)] +
    [Run("flow.c", (i, 2, o, k, 0), weight=3) for i in range(6)
     for k in range(4) for o in (0, 1)] +
    [Run("skip.c", (0, 600, 0)), Run("skip.c", (0, 600, 1))] +
    [Run("skip.c", (0, 1, o, 5)) for o in (0, 1)] +
    [Run("skip.c", (0, 1, o, 6), tier="thorough", time=600)
     for o in (0, 1)] +
    [Run("rep.c", (0, o, p, 2), weight=2) for p in range(4)
     for o in ((0, 1) if p == 0 else (0,))] +
    [Run("rep.c", (1, o, 0, 2), weight=3) for o in (0, 1)] +
    [Run("rep.c", (2, 0, 0, n), weight=n) for n in (2, 3)] +
    [Run("rep.c", (0, o, 0, 3), tier="thorough", time=900, weight=9)
     for o in (0, 1)] +
    [Run("flow.c", (i, 2, o, k, 1), tier="thorough", time=300, weight=9)
     for i in range(6) for k in range(4) for o in (0, 1)] +
    [Run("flow.c", (i, 3, o, k, 0), tier="thorough", time=400, weight=12)
     for i in range(6) for k in range(4) for o in (0, 1)] +
    [Run("many.c", p) for p in ((5,), (6,), (6, 1), (7,), (7, 1))],
    bounds="any of 140 indices of each kind; jumps over every nest of "
    "blocks, loops, ifs with and without else "
    "and try_tables made in 5 steps (thorough: 6); block, loop and if nested one level deep with every parameter and "
    "result arrangement of the set, two levels deep with fewer (thorough: two "
    "with all, three with fewer); in the innermost one fall through, br, "
    "br_if, br_table, return or unreachable to every label; all operand, "
    "condition and selector values; with and without jump tables; each body "
    "executed twice; every instruction of the set inside code that is jumped "
    "over; loops around three branches with any outcome in each of two "
    "(thorough: three) iterations, also interleaved with calls of another "
    "module whose branches lie at the same offsets",
    outside="nesting deeper than three; br_table with more than four labels")

add("C09",
    groups("valop.c", 0, 419, 60) + groups("valop.c", 420, 480, 15) +
    [Run("val.c", (p, 2, s, r)) for p, s, r in
     [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 2), (2, 0, 1), (3, 2, 1),
      (4, 2, 0), (4, 0, 1), (5, 2, 0), (6, 2, 0), (7, 12, 0), (8, 2, 0),
      (9, 2, 0), (9, 0, 3), (10, 0, 2), (11, 2, 0), (12, 2, 1), (13, 2, 2),
      (14, 1, 1), (15, 1, 2), (15, 4, 0), (16, 1, 1), (17, 1, 1), (18, 1, 0),
      (19, 1, 0), (19, 10, 0), (20, 1, 0), (22, 12, 0), (23, 2, 0),
      (24, 2, 0), (25, 2, 0), (26, 2, 0), (27, 2, 0), (28, 2, 0), (29, 2, 0),
      (30, 2, 0), (31, 2, 0), (32, 6, 0), (32, 1, 1), (33, 13, 0),
      (33, 13, 1), (34, 0, 0), (35, 0, 0), (36, 0, 0), (37, 12, 0)]] +
    [Run("val.c", (21, 3, 11), weight=2), Run("val.c", (21, 4, 11), weight=4),
     Run("val.c", (34, 3, 0), weight=3), Run("val.c", (36, 3, 2), weight=4)] +
    [Run("valseq.c", (p, 2, r, 0, 62, 1), weight=3)
     for p, r in ((0, 0), (1, 1), (2, 1), (3, 2), (4, 2), (5, 1), (6, 1),
                  (7, 3), (8, 0), (9, 1))] +
    [Run("valseq.c", (p, 2, r, 0, 62, 1, 1), weight=3)
     for p, r in ((0, 0), (2, 1), (9, 1))] +
    [Run("valseq.c", (p, 3, r, f, 16, 0), tier="thorough", time=600, weight=9)
     for p, r in ((0, 0), (1, 1), (2, 1), (3, 2), (4, 2), (5, 1), (6, 1),
                  (7, 3), (8, 0), (9, 1)) for f in (0, 16, 32, 48)] +
    [Run("mut.c", (m, 0, 200, 1, mode)) for m in range(6)
     for mode in range(4)] +
    [Run("val.c", (p, 3, s, r), tier="thorough", time=600, weight=9)
     for p, s, r in
     [(0, 0, 0), (1, 0, 0), (2, 0, 1), (3, 2, 1), (4, 2, 0), (5, 2, 0),
      (6, 2, 0), (10, 0, 2), (14, 1, 1), (16, 1, 1), (19, 1, 0), (32, 6, 0),
      (33, 13, 0), (35, 0, 0), (36, 0, 0)]] +
    [Run("mut.c", (m, o, 20, 2, 0), tier="thorough", time=600, weight=9)
     for m, a, b in ((0, 40, 160), (1, 0, 120), (3, 0, 60))
     for o in range(a, b, 20)] +
    [Run("many.c", p) for p in ((10,),)],
    bounds="any of 140 indices of each kind; every instruction with operands "
    "of its own types and with each "
    "operand replaced by each other type or missing; bodies with two "
    "(thorough: three) arbitrary bytes between 38 prefixes and 14 suffixes; "
    "any two (thorough: three) of 62 instructions in ten contexts; "
    "six modules covering every section with every byte replaced by every "
    "value, truncated everywhere, an arbitrary byte inserted into or removed "
    "from every section (thorough: two adjacent arbitrary bytes)",
    outside="br_table counts in more than one byte")

add("C10",
    [Run("load.c", (0, 0, 0, n)) for n in (0, 1, 2, 3, 8, 9, 10)] +
    [Run("load.c", (1, 0, 0, n)) for n in (1, 2, 3, 4)] +
    [Run("load.c", (4,)), Run("load.c", (7,)), Run("load.c", (8, 4))] +
    [Run("load.c", (5, 0, s, n), weight=2) for s, n in
     ((0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 4), (1, 5))] +
    [Run("load.c", (6, m, s, n), weight=2)
     for m, s, n in ((1, 4, 4), (2, 2, 2), (3, 1, 1))] +
    [Run("load.c", (2, m, s, 2)) for m in range(4) for s in range(10)] +
    [Run("load.c", (3, m, s)) for m in range(4) for s in range(10)] +
    [Run("load.c", (2, m, s, 3), tier="thorough", time=300, weight=3)
     for m in range(4) for s in range(10)] +
    [Run("load.c", (2, m, s, 4), tier="thorough", time=400, weight=6)
     for m in range(4) for s in range(10)
     if (m, s) not in ((0, 1), (0, 7), (1, 4))],
    bounds="files of up to three, and of eight to ten, arbitrary bytes; the "
    "header followed by up to four arbitrary bytes; each section of four "
    "modules replaced by two (thorough: four) arbitrary bytes below 0x80, or "
    "each number in it by each of the boundary values of 32 bits; vectors of "
    "locals with counts up to 2^32-1; name and dylink.0 custom sections with "
    "up to five arbitrary bytes; any two sections of a module exchanged or "
    "repeated",
    outside="inputs which differ from a well formed module in more places")

add("C11",
    [Run("call.c", p) for p in
     [(0, 0), (0, 1), (0, 2), (0, 3), (0, 2, 2, 2), (0, 4, 0, 0)] +
     [(w, 2) for w in range(1, 7)]] +
    [Run("locals.c", (k, o)) for k in range(11) for o in (0, 2)] +
    [Run("many.c", p) for p in ((0,), (1,), (2,), (2, 2))],
    bounds="any of 140 indices of each kind; calls, indirect calls and tail "
    "calls of each kind between "
    "functions of up to four parameters and results of every type with "
    "arbitrary values; local.get/set/tee on every local of functions with "
    "up to 300 locals of every size, with and without index tables; "
    "recursion up to the configured frame and cell limits for every limit in "
    "the range",
    outside="more than four parameters per call")

add("C12",
    [Run("eh.c", (1, 1, w, 0)) for w in range(6)] +
    [Run("eh.c", p) for p in
     [(1, 1, 0, 1), (1, 1, 0, 2), (1, 1, 0, 0, 0, 1), (1, 1, 0, 0, 0, 0, 1),
      (0, 1), (0, 2), (1, 0)]] +
    [Run("eh.c", (2, 1, 0, 0, c)) for c in range(1, 13)] +
    [Run("cb.c", p) for p in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2))] +
    [Run("eh.c", (2, 2, w, 0, c), tier="thorough", time=300, weight=5)
     for c in range(1, 13) for w in range(3)] +
    [Run("many.c", p) for p in ((11,),)],
    bounds="any of 140 indices of each kind; two nested try_tables with one "
    "or two clauses each, of every "
    "kind (catch, catch_ref, catch_all, catch_all_ref) and for every tag; "
    "throw, throw_ref and rethrow directly, through one or two calls, "
    "indirectly, from a tail call and in callbacks from host functions; tags with up to "
    "the maximum number of cells; arbitrary payloads",
    outside="exceptions with more than 4 cells (rejected by the runtime's "
    "configuration)")

add("C14",
    [Run("link.c", (k,)) for k in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10)] +
    [Run("link.c", (5, n)) for n in range(5)],
    bounds="one import against one export of every kind with every type of a "
    "set of types (functions, element types, limits 0..3 with and without a "
    "maximum, page sizes, sharing, mutability, tags); names of up to four "
    "arbitrary bytes; three imports in any order from two modules; two "
    "operations on a shared memory, table or global by either side",
    outside="longer names; chains of more than two modules")

add("C15",
    [Run("inst.c", p) for p in
     ((0, 0), (0, 1), (1,), (2, 1), (2, 2), (3, 1), (3, 2), (3, 1, 1),
      (3, 2, 1), (4,), (5,), (6,), (7,))],
    bounds="integer constant expressions of up to five operations over two "
    "arbitrary imported values, constants of the other types with arbitrary "
    "bits; one or two data or element segments of every mode, up to three "
    "bytes or two entries, on own and imported memories of 6 bytes and "
    "tables of 4 entries, one of the offsets an arbitrary 32-bit value; a "
    "module with all of these and a start function which may trap",
    outside="more than two segments; larger tables and memories")

add("C16",
    [Run("atom.c", (0, g * 7, 7, sh)) for g in range(9) for sh in (0, 1)] +
    [Run("atom.c", (1, op, 2, 2, 3), tsan=True) for op in range(63)] +
    [Run("atom.c", (1, op, 1, 3, 2), tsan=True, tier="thorough", time=300,
         weight=5) for op in (0, 8, 14, 16, 18, 24, 51, 57, 58)],
    bounds="every atomic load, store, read-modify-write and compare-exchange "
    "with an arbitrary 32-bit address, six static offsets, arbitrary operands "
    "and memory contents, on shared and unshared memories of 16 bytes; two "
    "threads, one executing any of these instructions followed by a load, "
    "the other one instruction of each kind and width on the same cell, with "
    "arbitrary operands, under every schedule with at most three preemptions "
    "(thorough: three threads, two preemptions)",
    outside="the memory model of the host: interleavings are sequentially "
    "consistent; mixed atomic and plain accesses")

add("C17",
    [Run("wait.c", p, tsan=True) for p in
     ((0, 1, 3), (0, 1, 3, 0), (0, 1, 3, 1, 1, 1), (0, 1, 3, 0, 1, 1),
      (0, 2, 2), (0, 2, 2, 0), (0, 2, 1, 0, 0, 0, 2), (0, 2, 1, 1, 1), (1,),
      (2, 1), (3,), (4, 3))] +
    [Run("wait.c", p, tsan=True, tier="thorough", time=400, weight=5)
     for p in ((0, 2, 3), (0, 2, 3, 0), (0, 2, 2, 0, 1, 0, 2), (2, 2),
               (4, 5), (0, 1, 5), (0, 1, 5, 0, 1))],
    bounds="one or two waiters and one thread which stores and notifies once "
    "or twice, with arbitrary cell contents, expected values and counts, "
    "under every schedule with at most three preemptions and one spurious "
    "wakeup of the host's condition variables; eleven timeouts around the "
    "internal polling interval; two waiters on any two of three cells of two "
    "memories; traps for every address",
    outside="more than two waiters; the order in which waiters are woken",
    assumptions=["the host's mutexes and condition variables behave as POSIX "
                 "specifies (rt_thr.c), the clock advances when all threads "
                 "block"])

add("C18",
    [Run("grow.c", p, tsan=True) for p in
     ((1, 1), (1, 3), (1, 6), (1, 5), (1, 9), (2, 4, 0, 1), (10, 1),
      (8, 7, 0, 1), (1, 8, 7, 1), (1, 11), (1, 1, 1, 1), (1, 1, 3, 1),
      (2, 2), (8, 5, 7, 1), (5, 5, 1, 1), (1, 10, 3, 1),
      (5, 1, 0, 1, 0, 1), (1, 1, 0, 1, 0, 1))] +
    [Run("grow.c", p, tsan=True, tier="thorough", time=400, weight=5)
     for p in ((1, 1, 0, 3), (1, 3, 0, 3), (1, 9, 0, 3), (1, 5, 0, 3),
               (2, 2, 0, 3), (1, 1, 0, 2, 0, 1), (5, 1, 0, 2, 0, 1),
               (1, 1, 1, 2), (1, 1, 3, 2), (1, 8, 7, 2), (2, 4), (8, 7))],
    bounds="two threads under every schedule with at most two preemptions "
    "(three in the thorough tier), three threads with one (two), at the lock "
    "and condition operations, accesses to the cluster's and the memory's "
    "state and to the memory's contents; growing once, twice or beyond the "
    "maximum, atomic and plain accesses and bulk operations, waiting, "
    "returning at once, endless loops and termination of the cluster",
    outside="more than three threads; weaker memory models of the host",
    assumptions=["the host's mutexes and condition variables behave as POSIX "
                 "specifies (rt_thr.c)"])

add("C13",
    [Run("intr.c", p) for p in
     ((0, 4), (1, 3), (2, 4), (3, 3), (4, 4), (5, 4), (6, 2), (7, 2), (10, 2),
      (11,))] +
    [Run("intr.c", (p, 2, 1)) for p in (0, 1, 2, 3, 4, 5, 6)] +
    [Run("intr.c", (p, 3, 0, o)) for p in (0, 1, 3) for o in (1, 2)] +
    [Run("intr.c", p, tier="thorough", time=400, weight=4) for p in
     ((0, 8), (1, 5), (2, 8), (3, 5), (5, 6), (6, 3), (10, 3), (0, 4, 1),
      (1, 4, 1), (2, 4, 1), (3, 4, 1), (6, 3, 1))],
    bounds="programs with loops, branches, calls (direct, indirect, across "
    "instances, tail), exceptions, memory and table instructions, traps, "
    "restarting host functions and callbacks from host functions with "
    "arbitrary operands and up to three rounds, interrupted at every choice "
    "of up to four check points (two as start function or for callbacks) "
    "while host functions restart up to twice; waits with six timeouts; nine "
    "shapes of endless loops",
    outside="longer programs; the user-level scheduler (not built)")

add("C28",
    [Run("wr.c", p) for p in
     ((0,), (0, 1), (1, 1), (1, 2), (2,), (3, 0), (3, 1), (4, 1), (4, 2),
      (5,), (6,), (7,), (8,), (9, 3), (10, 0, 200), (10, 200, 200),
      (10, 400, 200), (11,))] +
    [Run("wr.c", p, tier="thorough", time=400, weight=4) for p in
     ((4, 3),)],
    bounds="up to two functions with arbitrary constants, locals of every "
    "type and bodies up to 160 bytes, up to two element and data segments of "
    "every kind, one import and one export of every kind with names of up to "
    "two arbitrary ASCII characters, limits of 13 sizes with every flag, "
    "inputs with padded integers and custom sections in any place, tables of "
    "every reference type, up to three groups of locals incl. empty ones, "
    "modules with up to 200 of everything, 65536 locals and names of up to "
    "400 bytes, bodies with each instruction and any immediates of it; an output failure at every write",
    outside="larger modules; outputs beyond 4 GB")

add("C29",
    [Run("names.c", p) for p in
     ((0, 6), (0, 6, 14), (0, 6, 15), (0, 6, 17), (0, 7, 16, 1), (0, 5, 0, 1),
      (1, 3), (1, 2, 3), (1, 1), (2, 3), (2, 4, 1), (2, 3, 2), (2, 3, 3),
      (2, 3, 4), (2, 3, 5), (2, 1, 6), (3, 0), (3, 1), (3, 2, 1),
      (4, 0), (4, 1), (4, 2), (4, 3))] +
    [Run("names.c", p, tier="thorough", time=400, weight=4) for p in
     ((0, 9), (0, 9, 20, 1), (2, 5, 1), (2, 4, 4), (2, 4, 5), (3, 1, 1, 4))],
    bounds="escaping: every text of up to 7 bytes with several limits and a "
    "failing allocation; name sections with up to three named functions of "
    "arbitrary index and text, module, global and data names and other "
    "subsections in between, looked up with an arbitrary index; any name "
    "section of 3 bytes, or of 3 or 4 bytes behind six prefixes; sections with "
    "repeated or descending indexes and subsections, invalid or overlong "
    "names; up to three "
    "lookups in four modules with failing allocations",
    outside="longer names and sections; printing of stack traces",
    assumptions=["formatted output itself (printf) is not modelled"])

add("C30",
    [Run("host.c", p) for p in
     ((0,), (0, 1), (0, 2), (0, 3), (0, 4), (1, 0), (1, 1), (1, 3, 1, 0),
      (1, 4, 1, 1), (1, 5, 5, 0), (1, 6, 2, 2), (2, 0), (2, 1), (2, 2), (3,),
      (4,), (5,))] +
    [Run("cb.c", (0, n)) for n in range(4)] +
    [Run("cb.c", (1, n)) for n in (1, 2)] +
    [Run("host.c", p, tier="thorough", time=400, weight=4) for p in
     ((1, 7, 5, 1), (1, 8, 5, 5))],
    bounds="ten parameter and eight result lists with arbitrary values, called "
    "by direct, indirect and tail calls, as exported imports and from other "
    "host functions; every signature string of up to 6 bytes against several "
    "imports; every guest address and size, with memories which are extended "
    "meanwhile; every error and trap number; C calling conventions of "
    "function tables; up to three callbacks with six parameter and six result "
    "lists from one host function, exceptions and traps in callbacks of "
    "callbacks",
    outside="longer signatures")

W = ("lib", "wasi")
add("C20",
    [Run("wfd.c", p, parts=W) for p in
     ((0, 1, 255, 1), (1, 0), (1, 1), (1, 2), (1, 0, 1), (1, 1, 1), (2,),
      (3, 0), (3, 1), (3, 2), (5,))] +
    [Run("wfd.c", (0, 2, i), parts=W, weight=5) for i in (0, 1, 2)] +
    [Run("wfd.c", (4, i), parts=W) for i in range(31)] +
    [Run("wpath.c", (2,), parts=W)] +
    [Run("wfd.c", (0, 3, i, 0, 1), parts=W, tier="thorough", time=600,
         weight=5) for i in (0, 1, 2)] +
    [Run("wfd.c", (0, 2, i, 1), parts=W, tier="thorough", time=600,
         weight=5) for i in (0, 1, 2)] +
    [Run("wconc.c", p, parts=W) for p in
     ((1, 1), (1, 5), (1, 6), (2, 6), (2, 7), (3, 1), (3, 4), (3, 5), (3, 2),
      (3, 6), (8, 1), (8, 8), (10, 10), (13, 13), (13, 1), (13, 3), (9, 3),
      (11, 1), (12, 1), (12, 12), (14, 15), (15, 16), (1, 1, 1), (2, 6, 7),
      (3, 4, 6), (1, 3, 6))] +
    [Run("wconc.c", p, parts=W, tier="thorough", time=600) for p in
     ((10, 1, 3), (6, 7, 3), (8, 8, 15), (1, 5, 0, 4), (3, 4, 0, 4),
      (2, 6, 0, 4), (13, 13, 0, 4))],
    bounds="every sequence of 2 operations out of open, close and renumber "
    "with any numbers on a table of 6 open descriptors (3 operations on "
    "numbers 3-6 in the thorough tier), after each of which every number is "
    "probed; one failing host call or allocation at every point of creation; "
    "directories with an open stream; every descriptor argument which is not "
    "open for 31 functions; numbers given by the embedder; two or three "
    "threads with one call each (26 combinations of close, renumber, open, "
    "read, write, poll, directory reads) under every schedule with up to 2 "
    "preemptions at locks and host calls",
    outside="longer histories",
    assumptions=["the host kernel is modelled (harness/rt_os.c)"])

add("C21",
    [Run("wmem.c", (0, f), parts=W) for f in
     (2, 3, 10, 13, 18, 23, 25, 28, 31, 41)] +
    [Run("wmem.c", (1, f, n, k), parts=W) for f in (16, 19, 20, 26, 42, 43)
     for n, k in ((1, 0), (2, 0), (1, 1))] +
    [Run("wmem.c", (2, f), parts=W) for f in (16, 19, 20, 26, 42, 43)] +
    [Run("wmem.c", (2, f, 1), parts=W) for f in (16, 19, 20, 26, 42, 43)] +
    [Run("wmem.c", (3, f), parts=W) for f in (16, 19, 20, 26, 42, 43)] +
    [Run("wmem.c", (4,) + p, parts=W) for p in
     ((27,), (28,), (29,), (30,), (30, 1), (31,), (32,), (33,), (34,),
      (34, 1), (35,), (35, 1), (36,))] +
    [Run("wmem.c", p, parts=W) for p in
     ((5, 0), (6,), (7,), (8, 0), (8, 1), (8, 2), (9, 0), (9, 1), (9, 2))] +
    [Run("wlazy.c", (f,), parts=W) for f in
     (0, 1, 13, 16, 17, 19, 20, 21, 26, 28, 31, 32, 34, 37, 39, 42, 43)] +
    [Run("wmem.c", (5, i), parts=W, tier="thorough") for i in (1, 2, 3)] +
    [Run("wmem.c", (1, f, n, k), parts=W, tier="thorough", time=600)
     for f in (16, 19, 20, 26, 42, 43) for n, k in ((3, 0), (2, 1))],
    bounds="a guest memory of 192 bytes; for every WASI function with "
    "pointers, every 32-bit address, length and count (vectors of up to 2 "
    "buffers with arbitrary contents, 3 in the thorough tier; vectors of any "
    "count with equal contents; paths of up to 20 bytes or outside of the "
    "memory), partial and failing host transfers; for 17 functions a memory "
    "which the host enlarges and moves during the call, arguments and results "
    "in each order",
    outside="larger memories; lengths for which host allocations of more "
    "than 1 KB (vectors) or 300 bytes (paths) are needed are assumed to fail "
    "with an allocation error",
    assumptions=["the host kernel is modelled (harness/rt_os.c)"])

PATHS = ((27, 0), (28, 0), (29, 0), (30, 0), (30, 1), (31, 0), (32, 0),
         (33, 0), (34, 0), (34, 1), (35, 1), (36, 0))
add("C22",
    [Run("wpath.c", (0, f, w, n), parts=W) for f, w in PATHS + ((35, 0),)
     for n in (0, 1, 2, 3, 4, 8)] +
    [Run("wpath.c", (1, f, w), parts=W) for f, w in PATHS] +
    [Run("wpath.c", (2,), parts=W)] +
    [Run("wpath.c", (3, f), parts=W) for f in (15, 28, 29, 30)] +
    [Run("wpath.c", (0, f, w, n), parts=W, tier="thorough")
     for f, w in PATHS + ((35, 0),) for n in (5, 6, 12, 20)],
    bounds="for each of the 10 path functions: every path of 0-4 and 8 bytes "
    "(also 5, 6, 12 and 20 in the thorough tier), every 32-bit directory descriptor on a "
    "table with stdio, two preopens (one with a mapped name), an opened "
    "directory and an opened file; every open, lookup and time flag, right "
    "and time value",
    outside="longer paths; what the host makes of the name: '..' and "
    "symbolic links are resolved by the host (the repository documents that "
    "it does not contain them)",
    assumptions=["the host kernel is modelled (harness/rt_os.c)"])

WERR = ((2, 30), (7, 20), (8, 2), (9, 22), (24, 21), (10, 8), (13, 8),
        (25, 5), (14, 19), (15, 18), (16, 3), (19, 4), (20, 3), (26, 4),
        (21, 24), (21, 25), (23, 5), (23, 8), (27, 9), (33, 10), (36, 11),
        (28, 6), (28, 7), (29, 16), (29, 17), (31, 1), (31, 8), (32, 15),
        (30, 13), (34, 12), (35, 14), (39, 29), (41, 27), (42, 3), (43, 4),
        (44, 28))
add("C23",
    [Run("wrec.c", (0,) + p, parts=W) for p in WERR] +
    [Run("wrec.c", p, parts=W) for p in
     ((1, 13, 0), (1, 28, 0), (1, 13, 1), (1, 28, 1), (2,), (3,), (4, 0),
      (4, 1), (5,), (6,))] +
    [Run("wpath.c", p, parts=W) for p in ((2,), (3, 15), (3, 29))] +
    [Run("wmem.c", (5, 0), parts=W)],
    bounds="every host error number 1-133 of each of 36 pairs of a WASI "
    "function and a host call; every file status (device, inode, link count, "
    "mode, size; times of 33 bits of seconds), host open flags, three "
    "directory entries with any inode, type, cookie and name bytes; every "
    "seek offset, whence, position and size; every size, offset and socket "
    "flag; every open, lookup and time flag and time stamp; directory "
    "entries into buffers of every size; both the preview1 and the unstable "
    "variants",
    outside="interrupted and would-block results of calls which wait (C24)",
    assumptions=["the host kernel is modelled (harness/rt_os.c)"])

add("C24",
    [Run("wpoll.c", (0, t), parts=W) for t in range(8)] +
    [Run("wpoll.c", p, parts=W) for p in
     ((1,), (2, 1), (2, 2), (3, 0), (3, 1), (4,), (5, 0), (5, 1), (6,))],
    bounds="every pair of time stamps of 63 bits of seconds (comparison, sum, "
    "difference), every nanosecond count, conversion between clocks and to "
    "milliseconds for every time and some current times; every clock id; "
    "poll_oneoff with one or two subscriptions of any type, user data, "
    "descriptor state; timers of both clocks, relative and absolute, near the "
    "present in steps of 1 ns, 7919 ns and 500 us and at the extremes, with "
    "any of three oversleeping times per host poll and an interruption "
    "before, during or between the host polls; overlapping buffers; "
    "blocking and non-blocking reads and writes",
    outside="more than two subscriptions; more than three host polls in a "
    "wait",
    assumptions=["the host kernel is modelled (harness/rt_os.c)",
                 "the host's poll does not return early"])

add("C25",
    [Run("warg.c", (0, e) + p, parts=W) for e in (0, 1) for p in
     ((0, 0, 0, 0), (4, 0, 0, 1), (3, 0, 2, 3), (0, 5, 1, 3))] +
    [Run("warg.c", (1, e) + p, parts=W) for e, p in ((0, (2, 1)), (1, (0, 3)))] +
    [Run("warg.c", (2, n), parts=W) for n in range(7)] +
    [Run("warg.c", (3,), parts=W), Run("warg.c", (4,), parts=W)],
    bounds="up to three strings of up to five bytes of any value; any guest "
    "pointers with two strings; preopen specifications of up to six bytes of "
    "any value; three preopened directories, any descriptor, guest pointer "
    "and buffer size; every exit code",
    outside="longer strings; the command line parser of the toywasm program",
    assumptions=["the host kernel is modelled (harness/rt_os.c)"])

WT = ("lib", "wasi", "wasi_threads")
add("C26",
    [Run("wthr.c", p, parts=WT, tsan=True) for p in
     ((1, 1), (1, 1, 0, 1), (1, 1, 0, 2), (2, 1), (3, 1, 0, 2), (4, 2, 3),
      (1, 1, 1), (5, 2), (5, 3), (5, 6, 0, 2), (1, 7), (1, 2, 4), (3, 3),
      (1, 1, 1, 0, 1, 2), (1, 1, 1, 2, 1, 2), (1, 1, 1, 0, 0, 0, 1),
      (1, 1, 1, 0, 1, 0, 0, 1), (1, 1, 0, 2, 1, 0, 0, 1))] +
    [Run("wthr.c", p, parts=WT, tsan=True, weight=5) for p in
     ((5, 3, 6, 2), (1, 5, 5, 1), (3, 8, 5), (5, 4, 2), (1, 8), (1, 1, 1, 0, 2))] +
    [Run("wthr.c", p, parts=WT, tsan=True, tier="thorough", time=800)
     for p in ((5, 2, 3, 0, 2), (5, 2, 0, 0, 3), (1, 1, 1, 2, 3),
               (2, 3, 6, 0, 2), (1, 1, 1, 0, 1, 0, 1))] +
    [Run("ida.c", p) for p in ((5, 3), (6, 2), (6, 4, 2), (7, 3))],
    bounds="a main thread which spawns one or two threads by any of the three "
    "thread-spawn variants, each of which then returns, traps, exits the "
    "process or itself, loops, waits or spawns; every schedule with one "
    "preemption (two in one case; more in the thorough tier) at locks, thread "
    "creation and accesses to the shared state; failing thread creation, "
    "allocation or instantiation; every history of up to 7 operations of the "
    "id allocator",
    outside="more threads; id exhaustion beyond ranges of 4 ids",
    assumptions=["threads interleave at the instrumented accesses "
                 "(sequential consistency)"])

D = ("lib", "dyld")
add("C19",
    [Run("alloc.c", p) for p in
     [(0, b, w) for b in (1, 2) for w in range(4)] +
     [(1, 1), (1, 2), (1, 3), (2,), (3, 1, 3), (4, 1, 0), (4, 1, 1), (5,)]] +
    [Run("memthr.c", p, tsan=True) for p in ((1, 0, 2), (1, 1, 2), (2, 1, 2))] +
    [Run("allocw.c", p, parts=W) for p in
     [(0, 1), (0, 2)] + [(1, 1, o) for o in range(18)]] +
    [Run("allocd.c", p, parts=D) for p in ((0, 1), (1, 1), (2, 1), (0, 2),
                                           (1, 2))] +
    [Run("names.c", p) for p in ((3, 1), (0, 5, 0, 1))] +
    [Run("host.c", (5,))] +
    [Run("alloc.c", p, tier="thorough", time=700, weight=4) for p in
     ((0, 4, 0), (0, 4, 1), (1, 4), (1, 5))] +
    [Run("allocd.c", p, parts=D, tier="thorough", time=700) for p in
     ((0, 3), (1, 3))] +
    [Run("memthr.c", p, tsan=True, tier="thorough", time=700, weight=4)
     for p in ((2, 0, 2), (1, 1, 3))],
    bounds="every single failing allocation and every pair (also triples for "
    "the whole life of a module) while modules with all sections are loaded, "
    "a module with memory and table growth, recursion, exceptions, indirect "
    "and host calls and a start function is instantiated and run and then "
    "used again, WASI is set up and 18 WASI functions are called, a program "
    "with libraries is linked and objects are loaded at run time; any heap "
    "limit of these; every history of three operations of the accounting in "
    "two contexts below a common one with arbitrary limits; two threads with "
    "two operations each below an arbitrary limit",
    outside="failing allocations of the toywasm program itself; failures of "
    "four or more allocations in one run")

add("C27",
    [Run("dyl.c", p, parts=D) for p in
     ((2, 1), (3, 1), (1, 2), (1, 3), (1, 0, 1), (1, 0, 2), (2, 2, 2),
      (1, 1, 0, 1), (1, 2, 0, 1), (1, 3, 0, 1))] +
    [Run("dyl.c", p, parts=D, weight=5) for p in ((1, 4), (1, 4, 0, 1))] +
    [Run("dyl.c", p, parts=D, tier="thorough", time=800)
     for p in ((2, 3), (3, 2), (2, 4))] +
    [Run("dyb.c", p, parts=D) for p in
     ((2, 0), (2, 0, 1), (2, 1), (2, 2), (2, 2, 1), (2, 3), (2, 3, 1),
      (2, 0, 0, 1), (2, 3, 0, 1), (3, 0))] +
    [Run("dyb.c", p, parts=D, tier="thorough", time=800)
     for p in ((3, 3), (3, 3, 1), (3, 0, 0, 1))] +
    [Run("dyi.c", p, parts=D) for p in
     ((2, 0), (2, 1), (2, 0, 1), (2, 1, 0, 0), (2, 1, 0, 1), (2, 1, 0, 2),
      (3, 0), (3, 1), (3, 1, 0, 1))] +
    [Run("dyi.c", (2, 1, 1), parts=D, tier="thorough")] +
    [Run("dyn.c", p, parts=D) for p in
     ((0, 1), (1, 1), (2, 2), (3, 1), (4, 2), (2, 2, 1), (2, 3, 2), (3, 3, 3),
      (4096, 2, 0, 1), (4094, 1, 0, 1))] +
    [Run("dyn.c", p, parts=D, tier="thorough") for p in ((6, 1), (5, 3, 2))] +
    [Run("dyf.c", p, parts=D) for p in
     ((0, 1), (0, 2), (0, 3, -1, 1), (0, 3, -1, 5), (1, 0), (1, 1), (1, 2),
      (1, 3), (1, 4), (1, 5), (1, 0, 1), (1, 1, 2), (2, 0), (2, 1), (2, 2),
      (2, 3), (2, 4), (3, 0, 1), (3, 1, 0), (3, 3, 5))] +
    [Run("dyf.c", (0, 3), parts=D, tier="thorough")] +
    [Run("dyx.c", (k,), parts=D) for k in range(4)] +
    [Run("dyd.c", p, parts=D) for p in
     ((0,), (1,), (2,), (3,), (4,), (2, 1), (3, 1))] +
    [Run("dyd.c", p, parts=D, tier="thorough", time=800)
     for p in ((5,), (4, 1))],
    bounds="a main module (position independent or not, with any one of its "
    "exports missing or of another type) with up to three "
    "libraries; any sizes and alignments; every choice of who defines a "
    "symbol, of what kind and with which flags; every dependency graph of "
    "two libraries and those of three in which main needs one; library "
    "names of up to four bytes; histories of up to three run time loads of "
    "nine kinds of libraries; any arguments of a load or lookup; dylink.0 "
    "sections of up to four free bytes",
    outside="more libraries; thread local storage; allocations beyond 256 KB "
    "fail in these explorations",
    assumptions=["files are served from memory (harness/rt_os.c)"])

CLI = ("lib", "wasi", "wasi_threads", "dyld", "cli")
add("C31",
    [Run("cli.c", (0, t, p, n), parts=CLI, time=300) for t, p, n in
     ((0, 0, 2), (1, 0, 3), (2, 0, 2), (3, 0, 2), (0, 1, 2), (3, 1, 2),
      (0, 2, 2), (2, 2, 2), (0, 3, 1), (2, 3, 1), (0, 3, 2),
      (1, 4, 2), (3, 4, 2), (1, 5, 1), (3, 5, 1), (0, 6, 2), (1, 7, 1),
      (0, 8, 2), (3, 8, 2), (0, 9, 2), (1, 9, 1), (1, 10, 2), (0, 4, 2))] +
    [Run("cli.c", (1, n), parts=CLI, time=300, weight=3)
     for n in (31, 32, 33)] +
    [Run("cli.c", p, parts=CLI) for p in
     ((2,), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (4, 3), (4, 4),
      (5,), (7,))] +
    [Run("cli.c", (6, 3), parts=CLI, time=300, weight=4)] +
    [Run("cli.c", (6, 7, c), parts=CLI, time=300, weight=6)
     for c in (100, 101, 102)] +
    [Run("cli.c", (8, n), parts=CLI) for n in range(11)] +
    [Run("cli.c", (8, n, 1), parts=CLI) for n in (0, 1, 2, 5, 6, 7, 9)] +
    [Run("cli.c", (9, n), parts=CLI) for n in range(3)] +
    [Run("cli.c", (0, t, 0, 4), parts=CLI, tier="thorough", time=600)
     for t in range(4)] +
    [Run("cli.c", (6, 4, c), parts=CLI, tier="thorough", time=800, weight=4)
     for c in (0, 1, 5, 6, 10, 11, 14)],
    bounds="numbers of up to three arbitrary characters, alone or after "
    "prefixes which reach every boundary of 32 and 64 bits in decimal, octal "
    "and hexadecimal; vector texts of 31 to 33 characters with two arbitrary "
    "ones; names of up to two arbitrary bytes, plain or escaped, and 23 forms "
    "of quoting; arbitrary result values of each type; every sequence of three "
    "repl commands out of 22 with four modules, also after three beginnings of four commands (any four "
    "commands in the thorough tier for seven first commands); hexadecimal modules with an "
    "arbitrary byte; every exit code, limits of up to three digits, time "
    "limits of up to 9 ms, one or two dynamically linked modules; any one "
    "allocation failing in three sessions and seven command lines; number formats which C accepts beyond those "
    "(signs, leading white space, binary) may be accepted or not",
    outside="messages on the standard error output, abbreviated options, "
    "printed statistics and traces, --dyld and --wasi-dir options (their "
    "effects are C27 and C22)")
