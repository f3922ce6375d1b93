#!/usr/bin/env python3
"""Driver of the solver-based checks.

  driver.py setup              build the engine, fill the object cache
  driver.py check ID           run the check of one property
  driver.py replay FILE        replay a stored counterexample natively

A check compiles /repo's current working tree to LLVM bitcode, links it with
the harnesses of the property, explores every path with engine/symex (all
verdicts by Z3), replays the models of completed paths and of violations
against a native (AddressSanitizer) build of the same sources, and writes
evidence/<ID>.json.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
HARN = os.path.join(VERIF, "harness")
CC = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
LLVM = "/usr/lib/llvm-18/bin/"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

CONFIG_ON = """USE_SEPARATE_EXECUTE PROCESS_INSN_WITH_SWITCH USE_TAILCALL
USE_SHORT_ENUMS SORT_EXPORTS USE_JUMP_BINARY_SEARCH USE_LOCALS_FAST_PATH
USE_LOCALS_CACHE USE_SEPARATE_LOCALS USE_SMALL_CELLS USE_RESULTTYPE_CELLIDX
USE_LOCALTYPE_CELLIDX ENABLE_HEAP_TRACKING ENABLE_HEAP_TRACKING_PEAK
ENABLE_WRITER ENABLE_WASM_SIMD ENABLE_WASM_EXCEPTION_HANDLING
ENABLE_WASM_EXTENDED_CONST ENABLE_WASM_MULTI_MEMORY ENABLE_WASM_TAILCALL
ENABLE_WASM_THREADS ENABLE_WASM_CUSTOM_PAGE_SIZES ENABLE_WASM_NAME_SECTION
ENABLE_WASI ENABLE_WASI_THREADS ENABLE_DYLD ENABLE_DYLD_DLFCN""".split()
CONFIG_VAL = {"TOYWASM_JUMP_CACHE2_SIZE": "4",
              "TOYWASM_EXCEPTION_MAX_CELLS": "4",
              "TOYWASM_VERSION": "verif"}

PARTS = {
    "lib": ("lib", {"usched.c"}),
    "wasi": ("libwasi", set()),
    "wasi_threads": ("libwasi_threads", set()),
    "dyld": ("libdyld", set()),
    "cli": ("cli", set()),
}
PART_ORDER = ["lib", "wasi", "wasi_threads", "dyld", "cli"]

BC_FLAGS = ("-O1 -gline-tables-only -std=gnu11 -fno-vectorize "
            "-fno-slp-vectorize -ffp-contract=off -fshort-enums "
            "-fno-pic -fno-pie -fno-builtin-printf -w -emit-llvm").split()
NAT_FLAGS = ("-O1 -gline-tables-only -std=gnu11 -ffp-contract=off "
             "-fshort-enums -fsanitize=address,float-cast-overflow "
             "-fno-sanitize-recover=float-cast-overflow "
             "-fno-omit-frame-pointer -w").split()


TSAN_FLAGS = ["-fsanitize=thread", "-mllvm",
              "-tsan-instrument-func-entry-exit=0", "-mllvm",
              "-tsan-instrument-memintrinsics=0"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", **kw)
    if r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd),
                                                     r.stdout[-4000:]))
    return r.stdout


# ---------------------------------------------------------------- engine
def engine_path():
    """Build the engine when its sources changed or it is missing."""
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*"))):
        h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    exe = os.path.join(d, "symex")
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(dir=BUILD, prefix="eng")
        sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"),
            "OUT=" + t])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
        for o in glob.glob(os.path.join(BUILD, "engine-*")):
            if o != d:
                shutil.rmtree(o, ignore_errors=True)
    return exe


# ---------------------------------------------------------------- build
class Build:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, "inc")
        os.makedirs(self.inc)
        os.makedirs(CACHE, exist_ok=True)
        self.gen_config()
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()
        self.libs = {}
        self.nat = {}

    def gen_config(self):
        def subst(name, out):
            src = os.path.join(REPO, "lib", name)
            if not os.path.exists(src):
                return
            s = open(src).read()
            s = re.sub(r"#cmakedefine (\w+)(.*)", lambda m: (
                "#define %s%s" % (m[1], m[2])
                if m[1].replace("TOYWASM_", "", 1) in CONFIG_ON
                or m[1] in CONFIG_VAL
                else "/* #undef %s */" % m[1]), s)
            s = re.sub(r"@(\w+)@", lambda m: CONFIG_VAL.get(m[1], ""), s)
            open(os.path.join(self.inc, out), "w").write(s)
        subst("toywasm_config.h.in", "toywasm_config.h")
        subst("toywasm_version.h.in", "toywasm_version.h")

    def incs(self):
        r = ["-I" + self.inc, "-I" + HARN]
        for p in PART_ORDER:
            r.append("-I" + os.path.join(REPO, PARTS[p][0]))
        return r

    def defs(self, src):
        if src.startswith(HARN):
            return ["-D_GNU_SOURCE"]
        r = ["-D_POSIX_C_SOURCE=199506L"]
        if src.endswith("/cli/main.c"):
            r.append("-Dmain=toywasm_main")
        return r

    def compile(self, src, native, extra=()):
        """Compile one file, cached on its preprocessed text and flags."""
        flags = (NAT_FLAGS if native else BC_FLAGS) + list(extra)
        base = self.defs(src) + self.incs()
        tsan = "-fsanitize=thread" in extra
        r = subprocess.run([CC, "-E"] + flags[:3] + list(extra) +
                           (["-fsanitize=address"] if native and not tsan
                            else []) +
                           base + [src], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if r.returncode:
            raise CheckError("cannot preprocess %s\n%s" % (
                src, r.stderr.decode(errors="replace")[-3000:]))
        text = r.stdout.replace(self.inc.encode(), b"INC")
        key = hashlib.sha256(b"v1\0" + " ".join(flags).encode() + b"\0" +
                             text).hexdigest()[:32]
        out = os.path.join(CACHE, key + (".o" if native else ".bc"))
        if not os.path.exists(out):
            tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
            if native and tsan:
                # instrument for the yield points, then for memory errors
                bc = tmp + ".ll"
                pie = ("-fno-pic", "-fno-pie")
                sh([CC] + [f for f in BC_FLAGS if f not in pie] +
                   list(extra) + base + ["-S", src, "-o", bc])
                t = open(bc).read().replace("sanitize_thread",
                                            "sanitize_address")
                open(bc, "w").write(t)
                sh([CC, "-x", "ir", "-O1", "-w", "-fsanitize=address", "-c",
                    bc, "-o", tmp])
                os.unlink(bc)
            else:
                sh([CC] + flags + base + ["-c", src, "-o", tmp])
            os.rename(tmp, out)
        else:
            os.utime(out)
        return out

    def part_sources(self, parts):
        r = []
        for p in PART_ORDER:
            if p in parts:
                d, skip = PARTS[p]
                for f in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
                    if os.path.basename(f) not in skip:
                        r.append(f)
        return r

    SUPPORT = ["wk.c", "rt.c", "rt_thr.c", "rt_os.c", "rt_cli.c"]

    def support_flags(self, f):
        if f.startswith("rt"):
            return ["-fno-builtin"]
        return []

    def lib_objs(self, parts, native, tsan):
        key = (tuple(parts), native, tsan)
        with self.lock:
            if key in self.libs:
                return self.libs[key].result()
            fut = self.libs[key] = cf.Future()
        try:
            ex = TSAN_FLAGS if tsan else []
            todo = [(s, ex) for s in self.part_sources(parts)]
            with cf.ThreadPoolExecutor(JOBS) as p:
                # the largest file first
                todo.sort(key=lambda x: not x[0].endswith("/insn.c"))
                objs = list(p.map(
                    lambda t: self.compile(t[0], native, t[1]), todo))
                sup = list(p.map(
                    lambda f: self.compile(os.path.join(HARN, f), native,
                                           self.support_flags(f)),
                    [f for f in self.SUPPORT
                     if os.path.exists(os.path.join(HARN, f))]))
            fut.set_result((objs, sup))
        except BaseException as e:
            fut.set_exception(e)
            raise
        return fut.result()

    def bitcode(self, harness, parts, tsan=False, defs=()):
        src = os.path.join(HARN, harness)
        h = self.compile(src, False, list(defs))
        objs, sup = self.lib_objs(parts, False, tsan)
        name = "%s-%s%s%s" % (harness[:-2], "_".join(parts),
                              "-tsan" if tsan else "",
                              re.sub(r"\W", "_", "".join(defs)))
        out = os.path.join(self.work, name + ".bc")
        sh([LLVM + "llvm-link"] + objs + sup + [h, "-o", out + ".t"])
        os.rename(out + ".t", out)
        return out

    def native(self, harness, parts, tsan=False, defs=()):
        key = (harness, tuple(parts), tsan, tuple(defs))
        with self.lock:
            fut = self.nat.get(key)
            if fut is None:
                fut = self.nat[key] = self.pool.submit(self.native_, *key)
        return fut

    def native_(self, harness, parts, tsan, defs):
        h = self.compile(os.path.join(HARN, harness), True, list(defs))
        objs, sup = self.lib_objs(parts, True, tsan)
        nat = self.compile(os.path.join(HARN, "native.c"), True)
        d = tempfile.mkdtemp(dir=self.work, prefix="nat")
        # external functions are routed to their models in rt*.c
        rts = [o for o in sup if self.is_rt(o)]
        syms = set()
        for o in rts:
            for l in sh([LLVM + "llvm-nm", "--defined-only", o]).split("\n"):
                f = l.split()
                if len(f) == 3 and f[1] in "TDBWVR" and f[2].startswith("rt_"):
                    syms.add(f[2][3:])
        redef = os.path.join(d, "redef")
        with open(redef, "w") as f:
            for s in sorted(syms):
                f.write("%s rt_%s\n" % (s, s))
        ro = []
        for i, o in enumerate([h] + objs + [x for x in sup if x not in rts]):
            n = os.path.join(d, "%d.o" % i)
            sh(["objcopy", "--redefine-syms=" + redef, o, n])
            ro.append(n)
        exe = os.path.join(d, "replay")
        sh([CC, "-fsanitize=address,float-cast-overflow"] + ro + rts +
           [nat, "-lm", "-lpthread", "-o", exe])
        for o in ro:
            os.unlink(o)
        return exe

    def is_rt(self, o):
        out = sh([LLVM + "llvm-nm", "--defined-only", o])
        return " rt_" in out


# ---------------------------------------------------------------- running
NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:"
              "allocator_may_return_null=1:detect_stack_use_after_return=0",
              UBSAN_OPTIONS="print_stacktrace=0")


def replay_lines(exe, lines, params, work, timeout=300):
    """Replay lines natively; returns list of (tag, text)."""
    fd, f = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, "w") as fh:
        fh.write("".join(l + "\n" for l in lines))
    sd = tempfile.mkdtemp(dir=work, prefix="cwd")
    r = subprocess.run([exe, f] + [str(p) for p in params], env=NATENV,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, errors="replace", cwd=sd, timeout=timeout)
    os.unlink(f)
    shutil.rmtree(sd, ignore_errors=True)
    res = []
    for l in r.stdout.split("\n"):
        t = l.split("\t")
        if t[0] in ("PATH-OK", "PATH-DIFF", "REPRODUCED", "NOT-REPRODUCED"):
            res.append((t[0], l))
    return res


class Run:
    """One exploration: a harness with parameters."""

    def __init__(self, harness, params=(), parts=("lib",), tsan=False,
                 time=200, thorough_time=None, qt=60, paths=None, tier="both",
                 note="", defs=(), weight=1):
        self.harness, self.params, self.parts = harness, params, parts
        self.tsan, self.time, self.qt, self.tier = tsan, time, qt, tier
        self.thorough_time = thorough_time
        self.paths, self.note, self.defs = paths, note, defs
        self.weight = weight

    def name(self):
        return "%s(%s)" % (self.harness[:-2],
                           ",".join(str(p) for p in self.params))


def known_findings(pid):
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) "
                         r"loc=(\S+) msg=\"([^\"]*)\" (.*)", l)
            if m and m[1] == pid:
                r.append(m.groups()[1:])
    return r


def match_known(kf, run, v):
    for k in kf:
        harness, loc, msg, text = k
        if harness == run.harness and msg in v["msg"] and (
                loc == "-" or loc in v["loc"]):
            return text
    return None


def check(pid, only=None):
    import checks
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    spec = checks.CHECKS[pid]
    runs = [r for r in spec["runs"] if r.tier in ("both", tier)]
    if only:
        runs = [r for r in runs if only in r.name()]
    runs.sort(key=lambda r: -r.weight)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    results = []
    stop = threading.Event()
    procs = set()
    rc = 2
    try:
        exe = engine_path()
        b = Build(work)
        combos = {}
        for r in runs:
            combos.setdefault((r.harness, tuple(r.parts), r.tsan,
                               tuple(r.defs)), None)
        # bitcode first, the native build proceeds meanwhile
        with cf.ThreadPoolExecutor(JOBS) as p:
            futs = {k: p.submit(b.bitcode, *k) for k in combos}
            for k, f in futs.items():
                combos[k] = f.result()
        for k in combos:
            b.native(*k)
        kf = known_findings(pid)
        t_built = time.time() - t0

        def one(i, r):
            if stop.is_set():
                return None
            k = (r.harness, tuple(r.parts), r.tsan, tuple(r.defs))
            js = os.path.join(work, "r%d.json" % i)
            out = os.path.join(work, "r%d.out" % i)
            tl = r.time if tier == "quick" else (r.thorough_time or r.time)
            npaths = r.paths if r.paths is not None else 200
            cmd = [exe, combos[k], "--json", js, "--out", out,
                   "--time", str(tl), "--query-timeout", str(r.qt),
                   "--paths-out", str(npaths)]
            for x in r.params:
                cmd += ["--param", str(x)]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True,
                                 errors="replace")
            procs.add(p)
            try:
                so, _ = p.communicate(timeout=tl + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                so, _ = p.communicate()
            procs.discard(p)
            if stop.is_set():
                return None
            if not os.path.exists(js):
                return dict(run=r, error="engine failed (%s): %s" % (
                    p.returncode, so[-2000:]))
            try:
                j = json.load(open(js))
            except ValueError:
                return dict(run=r, error="bad engine output: " + so[-2000:])
            lines = []
            if os.path.exists(out):
                lines = open(out, errors="replace").read().split("\n")
            plines = [l for l in lines if l.startswith("P\t")]
            vlines = [l for l in lines if l.startswith("V\t")]
            nat = b.native(*k).result()
            res = dict(run=r, j=j, validated=0, diffs=[], confirmed=[],
                       unconfirmed=[], known=[], rc=p.returncode, so=so)
            if plines:
                for tag, l in replay_lines(nat, plines, r.params, work):
                    if tag == "PATH-OK":
                        res["validated"] += 1
                    else:
                        res["diffs"].append(l)
                if res["validated"] + len(res["diffs"]) != len(plines):
                    res["diffs"].append("replay incomplete")
            for l in vlines:
                f = l.split("\t")
                v = dict(kind=f[1], msg=f[2], loc=f[3], trace=f[4], line=l)
                t = replay_lines(nat, [l], r.params, work)
                ok = bool(t) and t[0][0] == "REPRODUCED"
                v["native"] = t[0][1] if t else "no outcome"
                if not ok:
                    res["unconfirmed"].append(v)
                    continue
                k2 = match_known(kf, r, v)
                if k2:
                    res["known"].append((k2, v))
                else:
                    res["confirmed"].append(v)
                    stop.set()
                    for q in list(procs):
                        try:
                            q.kill()
                        except OSError:
                            pass
            return res

        with cf.ThreadPoolExecutor(JOBS) as p:
            fs = [p.submit(one, i, r) for i, r in enumerate(runs)]
            for f in cf.as_completed(fs):
                x = f.result()
                if x:
                    results.append(x)
        rc = report(pid, spec, tier, seed, results, t0, t_built,
                    len(runs))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def report(pid, spec, tier, seed, results, t0, t_built, nruns):
    tot = dict.fromkeys("paths pruned forks instructions checks queries sat "
                        "unsat unknown cached bymodel small".split(), 0)
    solver_s = 0.0
    maxq = 0.0
    funcs = set()
    problems = []
    confirmed = []
    known = {}
    validated = 0
    samples = []
    runs_ev = []
    for x in results:
        r = x["run"]
        if "error" in x:
            problems.append("%s: %s" % (r.name(), x["error"]))
            continue
        j = x["j"]
        for k in tot:
            tot[k] += j.get(k, 0)
        solver_s += j.get("solver_s", 0)
        maxq = max(maxq, j.get("max_query_s", 0))
        funcs.update(j.get("functions", []))
        validated += x["validated"]
        for d in x["diffs"][:3]:
            problems.append("%s: native replay disagrees: %s" % (r.name(), d))
        for v in x["confirmed"]:
            confirmed.append((r, v))
        for v in x["unconfirmed"]:
            problems.append("%s: not reproduced natively: %s %s at %s [%s]" % (
                r.name(), v["kind"], v["msg"], v["loc"], v["native"]))
        for t, v in x["known"]:
            known.setdefault(t, 0)
            known[t] += 1
        for s in j.get("incomplete", []):
            problems.append("%s: incomplete: %s" % (r.name(), s))
        if x["rc"] not in (0, 1, 2):
            problems.append("%s: engine exit %d: %s" % (
                r.name(), x["rc"], x["so"][-500:]))
        runs_ev.append(dict(run=r.name(), paths=j["paths"],
                            instructions=j["instructions"],
                            queries=j["queries"], solver_s=j["solver_s"],
                            wall_s=j["wall_s"], validated=x["validated"],
                            labels=j.get("labels", {})))
        if len(samples) < 5:
            samples.append(dict(harness=r.name(), note=r.note,
                                paths=j["paths"],
                                labels=j.get("labels", {})))
    runs_ev.sort(key=lambda x: -x["wall_s"])
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"] + tot["forks"],
            transitions=tot["instructions"],
            traces_validated_against_impl=validated,
            samples=samples,
            explorations=len(results),
            paths_completed=tot["paths"],
            paths_pruned_by_assumption=tot["pruned"],
            assertions_decided=tot["checks"],
            solver_queries=tot["queries"],
            queries_sat=tot["sat"], queries_unsat=tot["unsat"],
            queries_unknown=tot["unknown"],
            queries_answered_from_cache=tot["cached"],
            branches_decided_by_known_model=tot["bymodel"],
            decided_over_one_byte_domain=tot["small"],
            solver_seconds=round(solver_s, 2),
            slowest_query_seconds=round(maxq, 2),
            functions_encoded_count=len(funcs),
            functions_encoded=sorted(funcs),
            build_seconds=round(t_built, 1),
            bounds=spec["bounds"],
            outside_bounds=spec.get("outside", ""),
            runs=runs_ev[:40],
            explanation="states: completed paths plus fork points of the "
            "symbolic execution; transitions: LLVM instructions of the real "
            "code executed symbolically; traces_validated_against_impl: "
            "solver models of completed paths replayed on a native build of "
            "the same sources with identical observations."),
        assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        violations=len(confirmed),
        wall_s=round(time.time() - t0, 1))
    rc = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for t in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    if confirmed:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r, v in confirmed:
            if (v["msg"], v["loc"]) in seen:
                continue
            seen.add((v["msg"], v["loc"]))
            f = os.path.join(rdir, "%s-%d.json" % (pid, len(seen)))
            json.dump(dict(property=pid, harness=r.harness,
                           params=list(r.params), parts=list(r.parts),
                           tsan=r.tsan, defs=list(r.defs), kind=v["kind"],
                           message=v["msg"],
                           location=v["loc"], trace=v["trace"],
                           native=v["native"], line=v["line"],
                           how="python3 %s replay %s" % (
                               os.path.join(VERIF, "driver.py"), f)),
                      open(f, "w"), indent=1)
            print("%s: %s: %s at %s" % (r.name(), v["kind"], v["msg"],
                                        v["loc"]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
            if len(seen) >= 5:
                break
        rc = 1
    elif problems or len(results) != nruns:
        rc = 2
    for p in problems[:20]:
        print("PROBLEM: " + p)
    if problems:
        ev["coverage"]["problems"] = problems[:50]
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"),
              indent=1)
    print("%s %s: %d explorations, %d paths, %d instructions, %d queries "
          "(%.1fs solver), %d traces validated natively, build %.0fs, "
          "wall %.0fs: %s" % (
              pid, tier, len(results), tot["paths"], tot["instructions"],
              tot["queries"], solver_s, validated, t_built,
              time.time() - t0,
              {0: "held", 1: "VIOLATED", 2: "UNDECIDED"}[rc]))
    return rc


COMMON_ASSUMPTIONS = [
    "clang-18 -O1 translates /repo's C faithfully to LLVM IR and to the "
    "native code used for replay",
    "the executor's IR semantics (validated on this run by native replay of "
    "path models) and Z3 are correct",
    "libc is as modelled in harness/rt*.c; heap objects never overlap",
    "build configuration as in /opt/vp/build.sh (see driver.py CONFIG_ON), "
    "assertions enabled, x86-64",
]


def setup():
    engine_path()
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        b = Build(work)
        combos = set()
        import checks
        for c in checks.CHECKS.values():
            for r in c["runs"]:
                combos.add((tuple(r.parts), r.tsan))
        for parts, tsan in sorted(combos):
            for native in (False, True):
                b.lib_objs(parts, native, tsan)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("setup done")
    return 0


def replay(f):
    j = json.load(open(f))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = Build(work)
        exe = b.native(j["harness"], tuple(j["parts"]), j["tsan"],
                       tuple(j["defs"])).result()
        res = replay_lines(exe, [j["line"]], j["params"], work)
        for t in res:
            print(t[1])
        return 1 if res and res[0][0] == "REPRODUCED" else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    sys.path.insert(0, VERIF)
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            return setup()
        if a[0] == "check":
            return check(a[1], a[2] if len(a) > 2 else None)
        if a[0] == "replay":
            return replay(a[1])
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
