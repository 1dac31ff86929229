"""check ID: decides one property on /repo's working tree. Exit 0 if it held on everything explored, 1 if not."""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gens
import gens2
import gens3
import gens4
import models
import vlib
from props import CHECKS, MODELS
from values import Values
from vlib import log

KNOWN = os.path.join(vlib.VERIF, "known-findings.txt")
EVID = os.path.join(vlib.VERIF, "evidence")
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S", "1500"))


def known(pid):
    """The findings of this property that were recorded and not repaired: [(operation, substring of its arguments)]."""
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    res.append(line.strip())
    return res


def script_of(tr, lang_java, upto):
    """The prefix of the script up to the rejected call, for the replay file."""
    return list(tr.lines(lang_java))[: upto + 1]


def violation(pid, v, scripts, seed, tier):
    t = v["trace"]
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "%s.violation.json" % pid)
    tr = scripts.get((vlib.is_java(t["cfg"]), t["id"]))
    rec = {"property": pid, "seed": seed, "tier": tier, "configuration": t["cfg"], "trace": t["id"], "position": v["position"], "reason": v["reason"],
           "rejected_event": v["event"],
           "script": script_of(tr, vlib.is_java(t["cfg"]), v["position"]) if tr else None,
           "how": "build a driver as harness/vlib.py does for this configuration and run it on the script; spec/Trace.tla rejects the log at this position",
           "log": dict(t, ev=t["ev"][: v["position"]])}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    print("rejected: %s in %s, trace %s, event %d: %s" % (v["reason"], t["cfg"], t["id"], v["position"], json.dumps(v["event"])[:1500]))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def generate(spec, rng, V, scale, fraction, rnd):
    per = {"cpp": [], "java": []}
    for gname, langs, amount in spec["gens"]:
        if rnd and gname.startswith(("g_huge", "g_model")):
            continue
        g = next(getattr(m, gname) for m in (gens, gens2, gens3, gens4) if hasattr(m, gname))
        for lang in langs:
            r = random.Random("%s/%s/%s" % (rng, gname, lang))
            n = max(1, int(amount * scale))
            for t in g(r, V, lang, n):
                t.id = "r%d.%s.%s" % (rnd, gname[2:], t.id)
                per[lang].append(t)
    return per


def sample(traces, seed):
    r = random.Random(seed)
    out = []
    for t in r.sample(traces, min(2, len(traces))):
        out.append({"id": t["id"], "cfg": t["cfg"], "events": [{"op": e["op"], "a": e["a"], "r": e["r"]} for e in t["ev"][:6]]})
    return out


def run(pid, tier, seed):
    spec = CHECKS[pid]
    t0 = time.time()
    work = vlib.Work()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "distinct_traces": 0, "events": 0, "samples": [], "configurations": [], "operations": {},
           "models": []}
    nviol = 0
    try:
        if "special" in spec:
            v = spec["special"](work, pid, tier, seed, cov)
            if v:
                nviol = 1
                os.makedirs(EVID, exist_ok=True)
                path = os.path.join(EVID, "%s.violation.json" % pid)
                with open(path, "w") as f:
                    json.dump(dict(v, property=pid, seed=seed, tier=tier), f, indent=1)
                    f.write("\n")
                print("rejected:", json.dumps(v)[:1500])
                print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            if v or "gens" not in spec:
                for line in known(pid):
                    print(line)
                return nviol
        def chosen():
            langs = {l for _, ls, _ in spec["gens"] for l in ls}
            cs = spec.get("configs", ("pure-san", "x86-san", "pure-opt", "x86-opt", "java-ea", "java-da"))
            return [c for c in cs if ("java" if vlib.is_java(c) else "cpp") in langs]
        configs = chosen()
        try:
            cmds = vlib.build(work, configs)
        except vlib.BuildError as e:
            if "otherwise" not in spec:
                raise
            # Internal interfaces may change: then what rests on them is seen through the public ones.
            log("does not build with the internal interface:", str(e)[-300:])
            spec = spec["otherwise"]
            configs = chosen()
            cmds = vlib.build(work, configs)
        cov["configurations"] = cov["configurations"] + configs
        log("built", ", ".join(configs))
        models.WORK = work
        for m in MODELS.get(pid, {}).get("quick", ()) + (MODELS.get(pid, {}).get("thorough", ()) if tier != "quick" else ()):
            models.run(work, *m)
        V = Values(random.Random("values/%d" % seed), vlib.REPO)
        rnd = 0
        while True:
            V.rng = random.Random("%d/%s/%d" % (seed, pid, rnd))
            scale = 1.0 if tier == "quick" else 2.0
            per = generate(spec, "%d/%s/%d" % (seed, pid, rnd), V, scale, 1.0, rnd)
            scripts = {(l == "java", t.id): t for l in per for t in per[l]}
            traces, crashes = vlib.replay(work, cmds, per, timeout=300 if tier == "quick" else 900, threads=spec.get("threads", 0))
            log("replayed", len(traces), "traces", "%d crashes" % len(crashes) if crashes else "")
            v, st = vlib.judge(work, traces)
            log("judged", st)
            for k, x in (("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "traces"), ("distinct_traces", "unique"), ("events", "events")):
                cov[k] += st[x]
            for t in traces:
                for e in t["ev"]:
                    cov["operations"][e["op"]] = cov["operations"].get(e["op"], 0) + 1
            if len(cov["samples"]) < 4:
                cov["samples"] += sample(traces, seed)
            if v:
                nviol = 1
                violation(pid, v, scripts, seed, tier)
                return 1
            rnd += 1
            if tier == "quick" or time.time() - t0 > THOROUGH_S * 0.8:
                break
        for line in known(pid):
            print(line)
        return 0
    finally:
        work.close()
        for m in models.RUNS:
            cov["models"].append(m)
            cov["states"] += m["states"]
            cov["transitions"] += m["transitions"]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumes", []),
                       "wall_s": round(time.time() - t0, 2), "violations": nviol}, f, indent=1)
            f.write("\n")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = run(pid, tier, seed)
    except vlib.BuildError as e:
        print("the working tree does not build:\n%s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    print("%s: %s (%.1f s)" % (pid, "violated" if rc else "held on everything explored", time.time() - vlib.T0))
    sys.exit(rc)


main()
