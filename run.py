#!/usr/bin/env python3
"""python3 run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib
import spec


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        return replay(pid, a[a.index("--replay") + 1])
    try:
        c = vlib.Check(pid, spec.SPECS[pid], tier)
        return c.run()
    except vlib.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2


def replay(pid, f):
    lines = open(f).read().splitlines()
    h = [l.split()[1] for l in lines if l.startswith("harness ")][0]
    for j in spec.SPECS[pid]["quick"] + spec.SPECS[pid].get("thorough", []):
        if j.name == h and isinstance(j, vlib.Job):
            b = vlib.Builder()
            rc, out, txt = vlib.run_native(b.nat_bin(j.file, "asan").result(), f, "/tmp/replay.%d.res" % os.getpid())
            print(out[-3000:]); print(txt)
            os.remove("/tmp/replay.%d.res" % os.getpid())
            return 1 if "FAIL" in txt or "AddressSanitizer" in out else 0
        if j.name == h:
            import subprocess
            r = "/tmp/replay.%d.res" % os.getpid()
            subprocess.run([vlib.VENV_PY, HERE + "/pysym/run.py", j.file, j.name, "--replay", f, r] + ["%s=%s" % kv for kv in sorted(j.cfg.items())])
            txt = open(r).read(); os.remove(r)
            print(txt)
            return 1 if "FAIL" in txt else 0
    print("no such harness")
    return 3


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
