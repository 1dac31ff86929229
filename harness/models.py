"""Runs of TLC on the models in spec/: those that print behaviours to replay, and those that check a design."""
import json
import shutil
import subprocess
import tempfile
import time

import vlib

WORK = None
_cache = {}
RUNS = []          # what was run: for the evidence


class ModelError(Exception):
    pass


def run_model(work, module, cfg=None, timeout=800, workers=vlib.JOBS):
    """TLC must explore the model without finding an error; returns its output."""
    t = time.time()
    rc, out = vlib.tlc(work, module, cfg, timeout=timeout, workers=workers)
    gen, dist = vlib.tlc_counts(out)
    if rc != 0 or "No error has been found" not in out:
        raise ModelError("TLC on %s %s (%s):\n%s" % (module, cfg or "", rc, out[-3000:]))
    RUNS.append({"model": module, "cfg": cfg or module + ".cfg", "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
    vlib.log("model", module, cfg or "", gen, dist)
    return out


def expect_violation(work, module, cfg):
    """The model of something that goes wrong: TLC must find it."""
    t = time.time()
    rc, out = vlib.tlc(work, module, cfg, timeout=300)
    if rc not in (12, 13):
        raise ModelError("TLC on %s %s (%s) should find a violation:\n%s" % (module, cfg, rc, out[-3000:]))
    RUNS.append({"model": module, "cfg": cfg, "states": 0, "transitions": 0, "violation_found_as_expected": True, "wall_s": round(time.time() - t, 1)})
    vlib.log("model", module, cfg, "violated, as it should be")


def run_wide(work, module, invariants, timeout=850):
    """Apalache must prove the statements for all values of the symbolic words."""
    t = time.time()
    out = tempfile.mkdtemp(prefix="apalache-", dir=work.dir)
    cmd = ["apalache-mc", "check", "--length=0", "--inv=" + ",".join(invariants), "--out-dir=" + out, module + ".tla"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=vlib.SPEC, timeout=timeout)
    shutil.rmtree(out, ignore_errors=True)
    text = r.stdout.decode(errors="replace")
    if r.returncode != 0 or "The outcome is: NoError" not in text:
        raise ModelError("Apalache on %s %s (%s):\n%s" % (module, invariants, r.returncode, text[-3000:]))
    RUNS.append({"model": module, "proved_for_all_values": list(invariants), "states": 0, "transitions": 0, "wall_s": round(time.time() - t, 1)})
    vlib.log("proved", module, ", ".join(invariants))


def run(work, kind, *args):
    {"tlc": run_model, "violated": expect_violation, "wide": run_wide}[kind](work, *args)


def behaviours(module, cfg=None):
    """What the model printed, in a fixed order."""
    key = (module, cfg)
    if key not in _cache:
        out = run_model(WORK, module, cfg)
        lines = sorted({l for l in out.splitlines() if l.startswith('"[') and l.endswith(']"')})
        _cache[key] = [json.loads(json.loads(l)) for l in lines]
    return _cache[key]
