"""Builds the drivers from /repo's working tree, replays scripts in them, and has TLC judge the recorded logs."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
ENV = dict(os.environ, LC_ALL="C.UTF-8")
for k in ("JAVA_TOOL_OPTIONS", "CLASSPATH", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "UBSAN_OPTIONS", "ASAN_OPTIONS"):
    ENV.pop(k, None)


class ToolError(Exception):
    pass


class BuildError(Exception):
    pass


T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Work:
    """A scratch directory that disappears at the end."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self._ov = None

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- building

PURE, X86 = "pure", "x86"
CPP_CONFIGS = {
    # name: (implementation, compiler, flags)
    "pure-san":  (PURE, "g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "x86-san":   (X86, "g++", ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"]),
    "pure-opt":  (PURE, "g++", ["-O2", "-DNDEBUG", "-funsigned-char"]),
    "x86-opt":   (X86, "clang++", ["-O3", "-DNDEBUG"]),
    "x86-abi":   (X86, "g++", ["-O1", "-DPROBE_ASM"]),
    "pure-count": (PURE, "g++", ["-O1", "-DCOUNT_OPS"]),
    "x86-count": (X86, "clang++", ["-O2", "-DCOUNT_OPS", "-DNDEBUG"]),
    "pure-tsan": (PURE, "g++", ["-O1", "-g1", "-fsanitize=thread"]),
    "x86-tsan":  (X86, "g++", ["-O1", "-g1", "-fsanitize=thread"]),
}
JAVA_CONFIGS = {
    # The library's results do not depend on the place and the encoding that a system is set to.
    "java-ea": ["-ea", "-Duser.language=ar", "-Duser.country=EG"],
    "java-da": ["-da", "-Duser.language=tr", "-Duser.country=TR", "-Dfile.encoding=UTF-16BE"],
}
# The order in which object files are linked is the order in which their static variables are initialized.
REVERSED = ("x86-san", "pure-opt")
MAIN_RE = re.compile(r"\bint\s+main\s*\(")


def cpp_sources():
    res = []
    for f in sorted(glob.glob(os.path.join(REPO, "cpp", "*.cpp"))):
        with open(f, errors="replace") as h:
            if not MAIN_RE.search(h.read()):
                res.append(f)
    if not res:
        raise ToolError("no C++ sources in " + REPO)
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def build(work, configs):
    """Returns {config: command prefix}. Everything is compiled afresh from the working tree."""
    jobs, links = [], {}
    for c in configs:
        if c not in CPP_CONFIGS:
            continue
        impl, cxx, flags = CPP_CONFIGS[c]
        d = work.path("build", c)
        os.makedirs(d, exist_ok=True)
        base = [cxx, "-std=c++11", "-w", "-I" + os.path.join(REPO, "cpp")] + flags
        if impl == X86:
            base.append("-DUSE_X8664_ASM_IMPL=1")
        objs = []
        srcs = cpp_sources() + [os.path.join(VERIF, "drivers", "driver.cpp")]
        if impl == X86:
            srcs += sorted(glob.glob(os.path.join(REPO, "cpp", "*.s")))
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(base + ["-c", s, "-o", o])
        if c in REVERSED:
            objs.reverse()
        links[c] = base + objs + ["-o", os.path.join(d, "driver"), "-lpthread"]
    cmds = {}
    # The driver takes longest; start with it.
    jobs.sort(key=lambda j: 0 if "driver.cpp" in j[-3] else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(sh, j) for j in jobs]
        jf = ex.submit(build_java, work) if any(c in JAVA_CONFIGS for c in configs) else None
        for f in futs:
            r = f.result()
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors="replace")[-3000:])
        for r in ex.map(sh, links.values()):
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors="replace")[-3000:])
        cls = jf.result() if jf else None
    for c in configs:
        if c.endswith("-tsan"):
            exe = work.path("build", c, "driver")
            # ThreadSanitizer needs an address space layout that not every system gives it
            for cmd in (["setarch", "-R", exe], [exe]):
                if sh(cmd + ["/dev/null", "2"]).returncode == 0:
                    cmds[c] = cmd
                    break
            else:
                log("ThreadSanitizer does not run here: no", c)
            continue
        cmds[c] = [work.path("build", c, "driver")] if c in CPP_CONFIGS else \
            ["java", "-Xmx3g", "-XX:+UseSerialGC", "-Xshare:auto"] + JAVA_CONFIGS[c] + ["-cp", cls, "Driver"]
    return cmds


def build_java(work):
    d = work.path("build", "java")
    os.makedirs(d, exist_ok=True)
    srcs = [f for f in glob.glob(os.path.join(REPO, "java", "**", "*.java"), recursive=True) if not f.endswith("Test.java")]
    r = sh(["javac", "-nowarn", "-encoding", "UTF-8", "-d", d] + srcs + [os.path.join(VERIF, "drivers", "Driver.java")])
    if r.returncode != 0:
        raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    return d


def overrides(work):
    if work._ov is None:
        d = work.path("ov")
        os.makedirs(d)
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", d] + glob.glob(os.path.join(VERIF, "override", "vx", "*.java")))
        if r.returncode != 0:
            raise ToolError("javac overrides: " + r.stdout.decode(errors="replace"))
        work._ov = d
    return work._ov


# ---------------------------------------------------------------------------------------------- scripts

def is_java(cfg):
    return cfg in JAVA_CONFIGS


class Tr:
    """One script: a session's registers and a list of calls. Arguments are kept for the specification, and rendered
    for a driver by script_line()."""
    def __init__(self, tid, nu=0, nf=0, np=0, nd=0, nw=0, align=0, temp_first=0):
        self.id = tid
        self.n = (nu, nf, np, nd, nw)
        self.align = align
        self.temp_first = temp_first
        self.only = None   # the configurations that replay it; None for all
        self.ops = []      # (op, [args for the specification], [extra tokens for the C++ driver])

    def op(self, name, *args, extra=()):
        self.ops.append((name, list(args), list(extra)))
        return self

    def header(self, java):
        return "T %s %d %d %d %d %d %d" % ((self.id,) + self.n + (self.temp_first if java else self.align,))

    def lines(self, java):
        yield self.header(java)
        for name, args, extra in self.ops:
            yield " ".join([name] + [token(name, i, a, java) for i, a in enumerate(args)] + ([] if java else extra))


# Arguments which are texts (character codes).
TEXT_ARGS = {"AddrDec": {0}, "WifDec": {0}, "XprvDec": {1}, "DFromHex": {1}, "JB58Dec": {0}, "B32Enc": {0}, "B32Dec": {0},
             "SegEnc": {0}, "SegDec": {0}, "JUFromHex": {1}}


def token(name, i, a, java):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, int):
        return str(a)
    if isinstance(a, str):
        return a if a != "" else "-"
    if i in TEXT_ARGS.get(name, ()):
        return ("".join("%04x" % c for c in a) if java else "".join("%02x" % c for c in a)) or "-"
    return "".join("%02x" % (c & 0xFF) for c in a) or "-"     # small signed integers


NO_STATE = {"U": [], "F": [], "P": [], "D": [], "W": []}
OUT0 = {"r": "aa" * 32, "s": "bb" * 32, "key": "cc" * 32, "hash": "dd" * 20, "version": 165, "compressed": 0}
KEEP_P = {"PAdd", "PTwice", "PMul"}
HEXRE = re.compile(r"^([0-9a-f]{2})*$")


def _ints(r):
    return isinstance(r, list) and all(type(x) is int for x in r)


def _int(r):
    return type(r) is int


def _hex(r):
    return isinstance(r, str) and bool(HEXRE.match(r))


def _word(r):
    return isinstance(r, str)


def _rel(k):
    return lambda r: isinstance(r, list) and len(r) == k and all(type(x) is bool for x in r)


def _rec(**f):
    return lambda r: isinstance(r, dict) and set(r) == set(f) and all(p(r[k]) for k, p in f.items())


# The shape of every operation's result; the default is an integer.
SHAPES = {"UCompare": _rel(6), "FCompare": _rel(6), "PEqual": _rel(2), "UToBytes": _hex, "FToBytes": _hex, "PCompress": _hex,
          "HashOf": _hex, "MacOf": _hex, "Compress256": _hex, "HFinish": _hex, "HugeHash": _hex, "DToBytes": _hex,
          "UToHex": _ints, "DToHex": _ints, "AddrEnc": _ints, "WifEnc": _ints, "XprvEnc": _ints, "JB58Enc": _ints,
          "DFromHex": _word, "DFromBadBytes": _word, "DEqual": lambda r: type(r) is bool,
          "DHashCodes": lambda r: isinstance(r, list) and len(r) == 2 and all(isinstance(x, str) for x in r),
          "JB58Dec": _rec(st=_word, data=_hex), "B32Enc": _rec(st=_word, text=_ints),
          "B32Dec": _rec(st=_word, human=_ints, groups=_ints), "SegEnc": _rec(st=_word, text=_ints),
          "SegDec": _rec(st=_word, human=_ints, ver=_int, prog=_hex),
          "KConsts": lambda r: isinstance(r, dict), "KConstsJava": lambda r: isinstance(r, dict), "KCopy": _hex, "KStore": _hex,
          "JRefuse": _rec(st=_word, intact=lambda r: type(r) is bool), "AsmCall": _rec(ret=_int, z=_hex, y=_hex, abi=lambda r: type(r) is bool),
          "JUInv": _word, "JUFromHex": _word, "JUFromBytes": _word, "Observe": _word, "RawRoundTrip": _word}


def shape_ok(op, r):
    return SHAPES.get(op, _int)(r)


class Runner:
    """Runs one driver configuration over scripts and merges what it logged with what it was asked."""
    def __init__(self, work, cfg, cmd):
        self.work, self.cfg, self.cmd = work, cfg, cmd
        self.crashes = []

    def run(self, traces, threads=0, timeout=240, env=None, part=0):
        res, todo, attempt = [], list(traces), 0
        deadline = time.time() + timeout
        while todo:
            attempt += 1
            got, rc, err, timed_out = self._once(todo, threads, max(5.0, deadline - time.time()), env, "%d-%d" % (part, attempt))
            done = {g[0].id for g in got}
            for tr, init, evs, tail in got:
                self._merge(res, tr, init, evs, tail, err, timed_out)
            rest = [t for t in todo if t.id not in done]
            if not rest and rc == 0:
                break
            if rc == 0 and rest:
                raise ToolError("driver %s lost %d traces" % (self.cfg, len(rest)))
            if rc != 0:
                self.crashes.append((self.cfg, rc, err[-1500:], timed_out))
                if not got or (threads and rest == todo):
                    # It never got as far as logging anything: the trace is the first one.
                    tr = todo[0]
                    res.append(trace_record(tr, self.cfg, None, [{"op": "Crash", "a": [], "r": 0, "guard": True}]))
                    rest = [t for t in todo if t.id not in done and t.id != tr.id]
                if threads and not any(e["op"] in ("Crash", "Hang") for t in res for e in t["ev"][-1:]):
                    res.append({"id": "threads", "cfg": self.cfg, "init": dict(NO_STATE, O=OUT0),
                                "ev": [{"op": "Hang" if timed_out else "Crash", "a": [], "r": 0, "guard": True}]})
                if attempt >= 3 or timed_out or threads:
                    break
            todo = rest
        return res

    def _once(self, traces, threads, timeout, env, tag):
        java = is_java(self.cfg)
        sp = self.work.path("script-%s-%s" % (self.cfg, tag))
        with open(sp, "w") as f:
            for t in traces:
                f.write("\n".join(t.lines(java)) + "\n")
        op, ep = sp + ".out", sp + ".err"
        timed_out = False
        with open(op, "wb") as fo, open(ep, "wb") as fe:
            p = subprocess.Popen(self.cmd + [sp] + ([str(threads)] if threads else []), stdout=fo, stderr=fe,
                                 env=dict(ENV, **(env or {})), cwd=self.work.dir)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, timed_out = -9, True
        byid = {t.id: t for t in traces}
        got, cur = [], None
        with open(op, "rb") as f:
            for raw in f:
                if not raw.endswith(b"\n"):
                    break
                m = json.loads(raw)
                if "T" in m:
                    cur = [byid[m["T"]], None, [], None]
                    got.append(cur)
                elif "i" in m:
                    cur[1] = m
                elif "E" in m:
                    cur[3] = "end"
                elif "X" in m:
                    cur[3] = m["X"]
                else:
                    cur[2].append(m)
        with open(ep, errors="replace") as f:
            err = f.read()
        for x in (sp, op, ep):
            os.unlink(x)
        return got, rc, err, timed_out

    def _merge(self, res, tr, init, evs, tail, err, timed_out):
        if tail == "end" and len(evs) != len(tr.ops):
            raise ToolError("driver %s: trace %s has %d of %d events" % (self.cfg, tr.id, len(evs), len(tr.ops)))
        out = []
        prev = state_of(init) if init is not None else None
        for (name, args, _), e in zip(tr.ops, evs):
            st = state_of(e)
            ev = {"op": name, "a": args, "r": e["r"], "guard": e["guard"]}
            if not shape_ok(name, e["r"]):
                ev = {"op": "BadResult", "a": [name, json.dumps(e["r"])[:200]], "r": 0, "guard": True}
            for k, v in st.items():
                if v != prev[k] or (k == "P" and name in KEEP_P):
                    ev[k] = v
            prev = st
            out.append(ev)
            if ev["op"] == "BadResult":
                break
        else:
            if tail != "end":
                k = len(evs)
                what = tr.ops[k] if k < len(tr.ops) else ("at the end", [], [])
                why = tail if tail else ("timeout" if timed_out else "process died: " + summary(err))
                out.append({"op": "Hang" if timed_out and not tail else "Crash", "a": [what[0], json.dumps(what[1])[:300], why[:600]], "r": 0, "guard": True})
        res.append(trace_record(tr, self.cfg, init, out))


def summary(err):
    lines = [x for x in err.splitlines() if x.strip()]
    key = [x for x in lines if re.search(r"runtime error|ERROR: |SUMMARY|Assertion|WARNING: ThreadSanitizer", x)]
    return " | ".join((key or lines)[:4])


def state_of(m):
    st = {k: m.get(k, []) for k in NO_STATE}
    st["O"] = dict(OUT0, **m["O"])
    return st


def trace_record(tr, cfg, init, ev):
    return {"id": tr.id, "cfg": cfg, "init": state_of(init) if init is not None else dict(NO_STATE, O=OUT0), "ev": ev}


def replay(work, cmds, per_lang, timeout=240, split=3, threads=0):
    """per_lang: {'cpp': [Tr], 'java': [Tr]}. Replays them in every configuration; the C++ ones in up to `split` processes.
    With threads, once more in one process with so many threads (and only that with ThreadSanitizer)."""
    jobs, late = [], []
    for cfg, cmd in cmds.items():
        trs = [t for t in per_lang["java" if is_java(cfg) else "cpp"] if t.only is None or cfg in t.only]
        if not trs:
            continue
        n = 1 if is_java(cfg) else split
        if not cfg.endswith("-tsan"):
            jobs += [(Runner(work, cfg, cmd), trs[k::n], k, 0) for k in range(n)]
        if threads:
            late.append((Runner(work, cfg, cmd), trs, n, threads))
    res = []
    crashes = []
    for group, width in ((jobs, JOBS), (late, 1)):
        with cf.ThreadPoolExecutor(width) as ex:
            futs = [ex.submit(r.run, trs, th, timeout, None, k) for r, trs, k, th in group]
            for (r, _, _, _), f in zip(group, futs):
                res += f.result()
                crashes += r.crashes
    return res, crashes


# ---------------------------------------------------------------------------------------------- TLC

def tlc(work, module, cfg=None, extra=(), env=None, timeout=600, workers=JOBS, mem="10g", jvm=()):
    """Runs TLC; returns (exit code, output)."""
    ov = overrides(work)
    md = tempfile.mkdtemp(prefix="tlc-", dir=work.dir)
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", *jvm, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vx.Ov:vx.HugeOv",
           "-cp", ov + ":" + JARS, "tlc2.TLC", "-metadir", md, "-cleanup", "-noGenerateSpecTE", "-workers", str(workers)]
    cmd += list(extra) + ["-config", cfg or module + ".cfg", module + ".tla"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, **(env or {})), cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tid_of(out):
    """The trace and the position in it of the last state that TLC printed."""
    t = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    l = re.findall(r"^/\\ l = (\d+)", out, re.M)
    return (int(t[-1]), int(l[-1])) if t and l else None


REJECTED = re.compile(r"Error: (Deadlock reached|Invariant \w+ is violated)|Invariant \w+ is violated")
EVAL = re.compile(r"Attempted to|was not in the domain|Error: Evaluating|evaluating the (nested )?expression|CHOOSE", re.I)


def check_file(work, traces, timeout=600, mem="10g"):
    """Has TLC check the traces; returns (None, counts) if it accepts all of them, or (index, position, reason), counts."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work.dir)
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    try:
        rc, out = tlc(work, "Trace", env={"TRACE_FILE": path}, timeout=timeout, mem=mem)
    finally:
        os.unlink(path)
    counts = tlc_counts(out)
    if rc == 0 and "No error has been found" in out:
        return None, counts
    if rc is None:
        raise ToolError("TLC timed out")
    pos = tid_of(out)
    if pos and "OutOfMemory" not in out and "StackOverflow" not in out and (REJECTED.search(out) or EVAL.search(out)):
        m = REJECTED.search(out)
        return (pos[0] - 1, pos[1], m.group(0) if m else "evaluation failed"), counts
    raise ToolError("TLC failed (%s):\n%s" % (rc, out[-4000:]))


def dedupe(traces):
    """Identical behaviours (from different configurations) need one check."""
    seen = {}
    for t in traces:
        key = json.dumps([t["init"], t["ev"]], sort_keys=True)
        seen.setdefault(key, []).append(t)
    return [v[0] for v in seen.values()], seen


def judge(work, traces, timeout=600):
    """Returns (violation or None, stats)."""
    uniq, seen = dedupe(traces)
    # Long ones first, so that the workers finish together.
    uniq.sort(key=lambda t: -len(t["ev"]))
    bad, (gen, dist) = check_file(work, uniq, timeout) if uniq else (None, (0, 0))
    stats = {"traces": len(traces), "unique": len(uniq), "events": sum(len(t["ev"]) for t in traces), "states": dist, "transitions": gen}
    if bad is None:
        return None, stats
    t = uniq[bad[0]]
    again, _ = check_file(work, [t], timeout)
    if again is None:
        raise ToolError("a rejection of trace %s was not repeated" % t["id"])
    k = again[1]
    ev = t["ev"][k - 1] if k <= len(t["ev"]) else {"op": "end"}
    return {"trace": t, "position": k, "reason": again[2], "event": ev}, stats
