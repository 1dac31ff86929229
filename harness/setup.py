"""Run once: the Java overrides must agree with the TLA+ definitions that they stand for."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    work = vlib.Work()
    try:
        cfg = work.path("SelfTest.cfg")
        with open(os.path.join(vlib.SPEC, "SelfTest.cfg")) as f, open(cfg, "w") as g:
            g.write(re.sub(r"Samples = \d+", "Samples = %d" % int(os.environ.get("VERIF_SELFTEST", "40")), f.read()))
        for module, c in (("SelfTest", cfg), ("HugeTest", None)):
            rc, out = vlib.tlc(work, module, c, timeout=900)
            print(module, "ok" if rc == 0 else "FAILED", vlib.tlc_counts(out), flush=True)
            if rc != 0:
                print(out[-4000:])
                return 1
    finally:
        work.close()
    return 0


sys.exit(main())
