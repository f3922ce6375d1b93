#!/usr/bin/env python3
"""Writes DESIGN.md (run by hand): the fixed parts below, the bounds of
checks.py, and the cost found in the evidence of the last run here."""
import glob, json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.path.insert(0, ".")
import checks

ORACLE = {
"C01": "A decoder written from the binary format's definition (`leb.c`): value, length and validity of every byte string are computed independently and compared with what the module does with the immediate (constants, local, label and type indexes, section sizes, limits).",
"C02": "For each instruction the specification's definition written in C with other operators than the implementation's (`int.c`); results compared as bit-vectors for all operands at once.",
"C03": "The solver's IEEE 754 theory for arithmetic (the executor maps the IR's float operations to it); min, max, rounding, sign operations, conversions and their traps are written out from the specification on the bit pattern (`float.c`).",
"C04": "Lane-wise definitions in C over arrays of lanes (`simd.c`). Floating point lanes: one arbitrary lane at an arbitrary position is symbolic.",
"C05": "A byte array with the specification's address rule in 64 bits (`mem.c`); after each access every byte of the memory is compared.",
"C06": "A model of both memories (size, bytes, dropped segments) run beside the guest over histories of operations (`bulk.c`).",
"C07": "A model of the tables (entries as tagged numbers) run beside the guest over histories (`table.c`); for indirect calls a table of which entry has which type (`callind.c`).",
"C08": "A structured reference interpreter over the same little program (`flow.c`): the path taken is traced by pushed markers and compared with results. `rep.c` runs branches repeatedly (jump cache), `skip.c` jumps over every instruction and over every nest of blocks, with and without the jump table.",
"C09": "A validator written from the specification's appendix algorithm (`refval.h`), sharing nothing with the repository: acceptance must agree in both directions on symbolic opcodes, immediates and types.",
"C10": "A reference decoder for whole modules, and the executor's memory checks; allocations still alive after an error are a leak.",
"C11": "Values are symbolic, so that any mixing of slots shows as a difference; limits are compared with the configured numbers (`call.c`, `locals.c`).",
"C12": "A reference that walks the nest of handlers (`eh.c`), `cb.c` for exceptions around host functions which call back.",
"C13": "The same program without interruption, run in the same path; any check point may be the interrupted one (`intr.c`).",
"C14": "The import matching rules written out (`link.c`), identity shown by writing through one side and reading through the other.",
"C15": "A model which evaluates initialisers and applies segments in order (`inst.c`).",
"C16": "Single threaded: the value and memory by definition. Threads: the final memory and every returned value must be those of some order of the operations (`atom.c`).",
"C17": "A list of waiters kept by the harness from what the calls report (`wait.c`): who waits where, who was woken; deadlock is a lost wake-up. The clock is virtual.",
"C18": "Sizes observed by other threads must be old or new in order, data intact; accesses to released memory are found by the executor (`grow.c`).",
"C19": "No oracle beyond memory safety, result codes and the number of live allocations: any one (thorough: two) allocations fail, at any place.",
"C20": "A model of the guest's descriptor table, run beside histories (`wfd.c`); threads: every outcome must be one of some order, each host descriptor closed exactly once (`wconc.c`).",
"C21": "Guest memory before and after; a model of the transfer (`wmem.c`). `wlazy.c` makes the host move the guest memory in the middle of the call.",
"C22": "The recorded host calls: number, kind, path bytes, flags (`wpath.c`). No file is touched, the host is the model in `rt_os.c`.",
"C23": "WASI's witx layouts and error names written out (`wrec.c`).",
"C24": "Times as seconds and nanoseconds computed without overflow in the harness; a clock which the harness moves; readiness sets (`wpoll.c`).",
"C25": "The strings as given (`warg.c`).",
"C26": "The set of live thread ids kept by the harness, outcomes recorded per thread (`wthr.c`); the id allocator alone for all its states (`ida.c`).",
"C27": "Regions are compared pairwise for overlap and alignment (`dyl.c`); a symbol resolver by load order (`dyb.c`); load and constructor order (`dyi.c`); names and search paths (`dyn.c`); run-time loads (`dyf.c`); a decoder of dylink.0 (`dyd.c`).",
"C28": "The canonical encoding is built by the harness together with the (non-canonical) input; output must equal it (`wr.c`).",
"C29": "A decoder of the name section and an independent escape function (`names.c`).",
"C30": "Symbolic values through every signature of the set; pointers checked against the memory's size (`host.c`).",
"C31": "A reference parser for numbers and vectors, a model of the loaded modules for sessions, expected output and exit status for command lines; formatted output, `getopt_long`, `sscanf`, `strtok`, `getline` and `exit` are models (`cli.c`, `rt_cli.c`).",
}

HEAD = open("tools/design_head.md").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
out = [HEAD, "\n## Properties\n\n"
       "Cost is that of the quick tier on 8 cores when this file was written;\n"
       "the evidence of each run has the current numbers, the functions encoded\n"
       "and the bounds. Property texts are in `properties.jsonl`.\n"]
for pid in sorted(props):
    p = props[pid]
    c = checks.CHECKS[pid]
    out.append("\n### %s %s\n\n" % (pid, p["title"]))
    hs = []
    for r in c["runs"]:
        if r.harness not in hs:
            hs.append(r.harness)
    nq = sum(r.tier != "thorough" for r in c["runs"])
    nt = len(c["runs"])
    out.append("- Decided by: %s; %d explorations (%d in the thorough tier)\n"
               % (", ".join("`harness/%s`" % h for h in hs), nq, nt))
    out.append("- Oracle: %s\n" % ORACLE[pid])
    out.append("- Bounds: %s\n" % c["bounds"])
    if c.get("outside"):
        out.append("- Outside: %s\n" % c["outside"])
    if c.get("assumptions"):
        out.append("- Assumes: %s\n" % "; ".join(c["assumptions"]))
    e = "evidence/%s.json" % pid
    if os.path.exists(e):
        d = json.load(open(e))
        cv = d["coverage"]
        out.append("- Cost: %d s, %d states, %d instructions, %d traces "
                   "replayed natively\n" % (
                       d["wall_s"], cv["states"], cv["transitions"],
                       cv["traces_validated_against_impl"]))
    out.append("- Beyond tests: %s\n" % p["why_tests_cant"])
out.append(open("tools/design_tail.md").read())
rows = []
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |\n" % (
        os.path.basename(os.path.dirname(m)), d["property"],
        d["what_it_breaks"].replace("|", "/"), d["property"]))
out.append("\n| change | property | what it breaks | caught by |\n"
           "|---|---|---|---|\n" + "".join(rows))
open("DESIGN.md", "w").write("".join(out))
