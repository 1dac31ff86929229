"""C25: observes executions of the constant-time calls and has TLC check the observations against the specification."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import subprocess
import time

import vlib
from gens import off_curve, some_triple, some_point, scalar_any, fpair, partner, near, gcd
from refmath import *
from values import Values
from vlib import ENV, REPO, VERIF, sh, BuildError, ToolError, log

COV = ["-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores,trace-div"]


# ---------------------------------------------------------------------------------------------- building

def build(work, jobs_wanted):
    """jobs_wanted: of cov-pure, cov-x86, step-pure, step-x86. Returns {name: command prefix}."""
    jobs, links, cmds = [], {}, {}
    for name in jobs_wanted:
        kind, impl = name.split("-")
        d = work.path("ct", name)
        os.makedirs(d)
        if impl == "java":
            continue
        define = ["-DUSE_X8664_ASM_IMPL=1"] if impl == "x86" else []
        asm = sorted(glob.glob(os.path.join(REPO, "cpp", "*.s"))) if impl == "x86" else []
        if kind == "cov":
            base, lib, link = ["clang++", "-std=c++11", "-w", "-O1"], COV + ["-fno-builtin-" + x for x in ("memcmp", "bcmp", "memchr", "strcmp", "strncmp")], []
        elif kind == "count":
            base, lib, link = ["g++", "-std=c++11", "-w", "-O1", "-DCOUNT_OPS", "-DNDEBUG"], [], []
        else:      # only the assembly code is observed
            base, lib, link = ["g++", "-std=c++11", "-w", "-O1", "-fno-pie", "-DNDEBUG"], [], ["-static", "-no-pie", "-Wl,-z,noexecstack"]
        base = base + define + ["-I" + os.path.join(REPO, "cpp")]
        objs = []
        mine = [os.path.join(VERIF, "drivers", x) for x in (("ctdriver.cpp", "ctlibc.cpp") if kind == "cov" else ("ctdriver.cpp",))]
        for s in vlib.cpp_sources() + asm + mine:
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(base + (lib if s not in mine and s.endswith(".cpp") else []) + (["-fno-builtin"] if s.endswith("ctlibc.cpp") else []) + ["-c", s, "-o", o])
        links[name] = base[:1] + objs + link + ["-o", os.path.join(d, "ct")]
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for r in list(ex.map(sh, jobs)) + list(ex.map(sh, links.values())):
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    for name in jobs_wanted:
        if name.endswith("java"):
            cmds[name] = (["java", "-da", "-Xmx3g", "-XX:+UseSerialGC", "-cp", build_java(work, work.path("ct", name)), "CtDriver"], [])
            continue
        exe = work.path("ct", name, "ct")
        table = []
        if name.startswith("step"):
            spans = [asm_span(os.path.join(work.path("ct", name), os.path.basename(a) + ".o"), exe) for a in glob.glob(os.path.join(REPO, "cpp", "*.s"))]
            table = [operand_table(exe, min(a for a, _ in spans), max(b for _, b in spans))]
        cmds[name] = ([exe], table)
    return cmds


def build_java(work, d):
    """The library's classes, rewritten to report what they do, and the driver."""
    lib, here = os.path.join(d, "lib"), os.path.join(VERIF, "drivers", "ctjava")
    tool_, out = os.path.join(d, "tool"), os.path.join(d, "out")
    for x in (lib, tool_, out):
        os.makedirs(x)
    asm = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
    srcs = [f for f in glob.glob(os.path.join(REPO, "java", "**", "*.java"), recursive=True) if not f.endswith("Test.java")]
    for cmd in (["javac", "-nowarn", "-encoding", "UTF-8", "-d", lib] + srcs,
                ["javac", "-nowarn", *asm, "-d", tool_, os.path.join(here, "Instrument.java")],
                ["java", *asm, "-cp", tool_, "Instrument", lib, out],
                ["javac", "-nowarn", "-cp", out, "-d", out, os.path.join(here, "Obs.java"), os.path.join(here, "CtDriver.java")]):
        r = sh(cmd)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    return out


INSN = re.compile(r"^\s+([0-9a-f]+):\t(.*)$")
MEM = re.compile(r"(%\w+:)?(-?0x[0-9a-f]+|-?\d+)?\((%\w+)?(?:,(%\w+),(\d))?\)")


def tool(*cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, env=ENV, check=True).stdout.decode()


def asm_span(obj, exe):
    """Where the code of an object file lies in the executable."""
    size = [int(l.split()[1]) for l in tool("size", "-A", obj).split("\n") if l.startswith(".text ")][0]
    syms = {l.split()[2]: int(l.split()[0], 16) for l in tool("nm", "-g", "--defined-only", obj).split("\n") if len(l.split()) == 3 and l.split()[1] == "T"}
    for l in tool("nm", exe).split("\n"):
        x = l.split()
        if len(x) == 3 and x[1] == "T" and x[2] in syms:
            start = int(x[0], 16) - syms[x[2]]
            return start, start + size
    raise BuildError("no code of %s in the executable" % obj)


def operand_table(exe, lo, hi):
    """The memory operands of the instructions between lo and hi, as ctdriver reads them."""
    out = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, env=ENV, check=True).stdout.decode()
    rows = []
    for line in out.split("\n"):
        m = INSN.match(line)
        if not m:
            continue
        ip = int(m.group(1), 16)
        if not lo <= ip < hi:
            continue
        text = m.group(2)
        if "(" not in text:
            continue
        op = text.split(None, 1)[0]
        if op.startswith("lea") or op.startswith("nop") or " nop" in text.split("(")[0]:
            continue
        for seg, disp, base, index, scale in MEM.findall(text.split("<")[0]):
            b, i = base.lstrip("%") or "-", index.lstrip("%") or "-"
            if b == "rip" or (seg and seg != "%es:" and seg != "%ds:"):
                continue
            if i == "riz":
                i = "-"
            rows.append("%x %s %s %s %d" % (ip, b, i, scale or "1", int(disp, 0) if disp else 0))
    path = exe + ".table"
    with open(path, "w") as f:
        f.write("%x %x\n" % (lo, hi) + "\n".join(rows) + "\n")
    return path


# ---------------------------------------------------------------------------------------------- inputs

def inputs(rng, V, op, mods):
    """(public part of the class, arguments)"""
    u, f = V.u, V.fe
    e = "e=%d" % rng.randrange(2)

    def two():
        x = u()
        return x, rng.choice((partner(rng, V, x), near(rng, x), x, u()))

    def ftwo():
        x, y = fpair(rng, V)
        return (x, x) if rng.randrange(8) == 0 else (x, y)

    def U(*a):
        return ["u=" + h32(x) for x in a]

    def F(*a):
        return ["f=" + h32(x) for x in a]

    def T(t, names="xyz"):
        return ["%s=%s" % (n, h32(x)) for n, x in zip(names, t)]

    def pt():
        return None if rng.randrange(8) == 0 else some_point(rng, V)

    if op in ("UAdd", "USub", "UReplace", "USwap"):
        return "", [e] + U(*two())
    if op in ("UEq", "UNe", "ULt", "ULe", "UGt", "UGe"):
        return "", U(*two())
    if op == "UShr1":
        return "", [e] + U(u())
    if op in ("UShl1", "UToBytes", "FFromU"):
        return "", U(u())
    if op == "UFromBytes" or op == "DFromBytes":
        return "", ["b=" + h32(u())]
    if op == "UInv":
        m = rng.choice(mods)
        while True:
            x = rng.choice((0, 1, m - 1, u() % m, u() % m, u() % m))
            if x == 0 or gcd(x, m) == 1:
                return "/%x" % m, U(x, m)
    if op in ("UFromF", "FDblA", "FSqrA", "FInvA", "FToBytes"):
        return "", F(rng.choice((0, 1, P - 1, f(), f())))
    if op in ("FAddA", "FSubA", "FMulA", "FEq", "FLt", "PFromXY"):
        return "", F(*ftwo())
    if op == "FReplace":
        return "", [e] + F(*ftwo())
    if op == "PAdd":
        q = pt()
        o = rng.choice((q, neg(q), pt(), None, pt()))
        return "", T(some_triple(rng, V, q)) + T(some_triple(rng, V, o), "XYZ")
    if op == "PTwice" or op == "PNormalize":
        return "", T(some_triple(rng, V, pt()))
    if op == "PMul":
        return "", T(some_triple(rng, V, pt())) + U(scalar_any(rng, V))
    if op == "PPublic":
        return "", U(V.scalar())
    if op == "PReplace":
        return "", [e] + T((f(), f(), f())) + T((f(), f(), f()), "XYZ")
    if op == "POnCurve":
        k = rng.randrange(4)
        q = some_point(rng, V)
        if k == 0:
            return "", T((0, 1, 0))
        if k == 1:
            return "", T(off_curve(rng, V, q) + (1,))
        return "", T(q + (1,))
    if op == "PIsZero":
        return "", T(some_triple(rng, V, pt()))
    if op in ("PEq", "PNe"):
        t = list(some_triple(rng, V, pt()))
        t2 = list(t)
        for _ in range(rng.randrange(3)):
            t2[rng.randrange(3)] = rng.choice((f(), 0, 1))
        return "", T(t) + T(t2, "XYZ")
    if op == "PCompress":
        return "", T(some_point(rng, V) + (1,))
    if op == "ESign":
        return "", U(V.scalar(), V.scalar()) + ["d=" + h32(rng.choice((u(), rng.getrandbits(256), M256 - 1, 0, N)))]
    if op == "ESignHmac":
        return "", U(V.scalar()) + ["d=" + h32(rng.choice((u(), rng.getrandbits(256), M256 - 1, 0, N)))]
    if op in ("DToBytes", "DHashCode"):
        return "", ["d=" + h32(u())]
    if op in ("DEq", "DNe"):
        x, y = two()
        return "", ["d=" + h32(x), "d=" + h32(y)]
    raise ValueError(op)


LIGHT = ("UAdd USub UShl1 UShr1 UReplace USwap UEq UNe ULt ULe UGt UGe UToBytes UFromBytes UFromF FAddA FSubA FDblA FSqrA FMulA "
         "FReplace FFromU FEq FLt FToBytes PReplace PIsZero PEq PNe PCompress PFromXY DFromBytes DEq DNe DToBytes DHashCode").split()
CPP_MISSING = {"DToBytes", "DHashCode"}
MEDIUM = "PAdd PTwice POnCurve".split()
HEAVY = "UInv FInvA PNormalize".split()
HUGE = "PMul PPublic ESign ESignHmac".split()
# Executions per call: in coverage mode, and single-stepped
COUNTS = {"cov": (400, 300, 150, 60), "step": (120, 40, 6, 0), "java": (300, 200, 100, 40), "count": (300, 200, 100, 40)}
JAVA_OPS = set("UAdd USub UShl1 UShr1 UReplace USwap UEq ULt FAddA FSubA FDblA FSqrA FMulA FReplace FEq FLt PReplace PIsZero DFromBytes DToBytes DHashCode "
               "PAdd PTwice POnCurve UInv PNormalize PMul ESign ESignHmac".split())


def make_script(rng, V, kind, scale):
    mods = [N, P, M256 - 1, 3, (1 << 255) + 95 | 1, 65537]
    lines = []
    for ops, n in zip((LIGHT, MEDIUM, HEAVY, HUGE), COUNTS[kind]):
        for op in ops:
            if op not in JAVA_OPS if kind == "java" else op in CPP_MISSING:
                continue
            cnt = n * scale
            if op == "UInv":
                cnt *= 2
                mods_here = mods if kind != "step" else mods[:2]
            else:
                mods_here = mods
            for _ in range(cnt):
                pub, args = inputs(rng, V, op, mods_here)
                lines.append((op, pub, args))
    return lines


def observe(work, name, cmd, lines, parts, timeout):
    """Runs the script in `parts` processes; returns one trace per configuration (observations compare within a process only)."""
    exe, table = cmd
    groups = [[] for _ in range(parts)]      # a call stays together with the others of its kind
    for i, op in enumerate(sorted({l[0] for l in lines}, key=lambda o: (o not in HEAVY, o))):
        groups[i % parts] += [l for l in lines if l[0] == op]
    res = []

    def one(k):
        sp = work.path("ct", name, "script%d" % k)
        with open(sp, "w") as f:
            for op, pub, args in groups[k]:
                f.write("%s%s %s %s\n" % (op, pub, op, " ".join(args)))
        try:
            p = subprocess.run(exe + [sp] + table, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            return {"id": "%s.%d" % (name, k), "cfg": name, "init": dict(vlib.NO_STATE, O=vlib.OUT0), "ev": [{"op": "Hang", "a": [str(x)[:200]], "r": 0, "guard": True}]}, 0
        out = [json.loads(x) for x in p.stdout.decode().split("\n") if x.endswith("}")]
        ev = []
        for (op, pub, args), o in zip(groups[k], out):
            if o["r"] != 1:      # only successful signing is meant to be constant-time
                continue
            ev.append({"op": "Observe", "a": [o["c"], " ".join([op] + args)], "r": o["o"], "guard": True})
        if p.returncode != 0 or len(out) != len(groups[k]):
            ev.append({"op": "Crash", "a": [p.stderr.decode(errors="replace")[-500:]], "r": 0, "guard": True})
        return {"id": "%s.%d" % (name, k), "cfg": name, "init": dict(vlib.NO_STATE, O=vlib.OUT0), "ev": ev}, sum(o["n"] for o in out)
    with cf.ThreadPoolExecutor(parts) as ex:
        for t, n in ex.map(one, [k for k in range(len(groups)) if groups[k]]):
            res.append((t, n))
    return res




def operation_counts(work, pid, tier, seed, cov):
    return constant_time(work, pid, tier, seed, cov, ("count-pure", "count-x86"))


def constant_time(work, pid, tier, seed, cov, names=("cov-pure", "cov-x86", "step-x86", "java-java")):
    """Returns the path of a replay file if some class of calls has two different observations."""
    t0 = time.time()
    names = list(names)
    cmds = build(work, names)
    log("built", ", ".join(names))
    cov["configurations"] = names
    rnd = 0
    while True:
        rng = random.Random("%d/%s/%d" % (seed, pid, rnd))
        V = Values(rng, REPO)
        V.rng = rng

        scripts = {n: make_script(rng, V, n.split("-")[0], 1 if tier == "quick" else 3) for n in names}

        def job(n):
            return observe(work, n, cmds[n], scripts[n], 4 if n.startswith("step") else 1, 300 if tier == "quick" else 900)
        with cf.ThreadPoolExecutor(len(names)) as ex:
            res = [r for x in ex.map(job, names) for r in x]
        traces = [t for t, _ in res]
        for t in traces:
            for e in t["ev"]:
                cov["operations"][e["op"]] = cov["operations"].get(e["op"], 0) + 1
        cov["observed_steps"] = cov.get("observed_steps", 0) + sum(n for _, n in res)
        cov["classes"] = len({(t["cfg"], e["a"][0]) for t in traces for e in t["ev"]})
        v, st = vlib.judge(work, traces)
        log("judged", st)
        for k, x in (("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "traces"), ("distinct_traces", "unique"), ("events", "events")):
            cov[k] += st[x]
        if not cov["samples"]:
            cov["samples"] = [{"id": t["id"], "cfg": t["cfg"], "events": [{"op": e["op"], "a": e["a"], "r": e["r"]} for e in t["ev"][:4]]} for t in traces[:3]]
        if v:
            t, k = v["trace"], v["position"]
            e = v["event"]
            other = next((x for x in t["ev"][: k - 1] if x["op"] == e["op"] and x["a"][0] == e["a"][0] and x["r"] != e["r"]), None)
            return {"configuration": t["cfg"], "reason": v["reason"], "observation": e, "differs_from": other,
                    "how": "ctdriver.cpp (or ctjava/CtDriver.java) run on these two calls, built as harness/ct.py does, sees different executions"}
        rnd += 1
        if tier == "quick" or time.time() - t0 > float(os.environ.get("VERIF_THOROUGH_S", "1500")) * (0.7 if "java-java" in names else 0.3):
            return None
