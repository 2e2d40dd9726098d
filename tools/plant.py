#!/usr/bin/env python3
"""plant.py BUGFILE...  : checks planted bugs in scratch copies of /repo and keeps them as /verif/seeded/<id>/.
A BUGFILE is Python defining id, property, needs, breaks, edits=[(path, old, new)...], and demo (C++ text) or pydemo.
plant.py --eval [ID...] [--prop P] : runs the property's quick check against each kept bug (in a scratch copy)."""
import os, re, shutil, subprocess, sys, json, tempfile
import concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"
SH = '''#!/bin/bash
# run in the repository after its build: exit 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
'''
CPP = SH + '''g++ -std=c++11 -O1 -fopenmp -w %s -DVERSION='"demo"' -Iinclude -Ipython/arcticpy/include "$d/demo.cpp" $(ls src/*.cpp | grep -v main.cpp) python/arcticpy/src/interface.cpp -o "$t/demo" -lgsl -lgslcblas || exit 9
OMP_NUM_THREADS=%d timeout 200 "$t/demo"
'''
PY = SH + '''cd "$PWD"; R=$PWD
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LD_LIBRARY_PATH=$R PYTHONPATH=$R/python OMP_NUM_THREADS=1 timeout 200 /opt/vp/venv/bin/python "$d/demo.py"
'''


def edit(root, edits):
    for path, a, c in edits:
        p = root + "/" + path
        b = open(p, "rb").read()
        crlf = b"\r\n" in b
        a, c = a.encode(), c.encode()
        if crlf:
            a, c = a.replace(b"\n", b"\r\n"), c.replace(b"\n", b"\r\n")
        assert b.count(a) == 1, (path, b.count(a), a)
        open(p, "wb").write(b.replace(a, c))


def run(cmd, cwd, timeout=900, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return r.returncode, r.stdout.decode(errors="replace")


def scratch():
    d = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    r = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    os.makedirs(d + "/vp")
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + "/vp/build.sh")
        s = re.sub(r"/repo\b", r, s)
        open(d + "/vp/" + f, "w").write(s)
    return d, r


def plant(f):
    g = {}
    exec(open(f).read(), g)
    i = g["id"]
    d, r = scratch()
    try:
        dd = d + "/demo"; os.makedirs(dd)
        if "demo" in g:
            open(dd + "/demo.cpp", "w").write(g["demo"])
            open(dd + "/demo.sh", "w").write(CPP % (g.get("flags", ""), g.get("threads", 1)))
        else:
            open(dd + "/demo.py", "w").write(g["pydemo"])
            open(dd + "/demo.sh", "w").write(PY)
        os.chmod(dd + "/demo.sh", 0o755)
        rc0, o0 = run(["bash", dd + "/demo.sh"], r)
        if rc0 != 0: return i, "DEMO FAILS ON CLEAN", o0[-1500:]
        edit(r, g["edits"])
        diff = subprocess.check_output(["git", "-C", r, "diff", "--binary"])
        rc, o = run(["bash", d + "/vp/test.sh", d + "/t.json"], r)
        t = json.load(open(d + "/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"]
        lost = [x for x in base if x not in t["passed"]]
        if lost: return i, "TESTS FAIL", str(lost[:6])
        rc1, o1 = run(["bash", dd + "/demo.sh"], r)
        if rc1 == 0: return i, "DEMO PASSES WITH BUG", o1[-800:]
        if rc1 == 9: return i, "DEMO DOES NOT COMPILE", o1[-800:]
        out = SEED + "/" + i
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return i, "KEPT", o1.strip()[-200:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def evaluate(i, props=None):
    m = json.load(open(SEED + "/" + i + "/meta.json"))
    d, r = scratch()
    res = []
    try:
        rc, o = run(["git", "-C", r, "apply", SEED + "/" + i + "/patch.diff"], r)
        if rc: return i, "PATCH FAILS " + o
        v = d + "/verif"
        subprocess.check_call(["cp", "-a", HERE, v])
        shutil.rmtree(v + "/build", ignore_errors=True)
        env = dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED="1", VERIF_JOBS="4")
        for p in props or [m["property"]]:
            rc, o = run(["python3", v + "/run.py", p], v, env=env)
            l = [x for x in o.splitlines() if x.startswith("  violated")]
            res.append("%s rc=%d %s" % (p, rc, (l[0][:170] if l else o.strip()[-250:] if rc else "MISSED " + o.strip()[-160:])))
        return i, " || ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--eval":
        props = None
        if "--prop" in a:
            k = a.index("--prop"); props = a[k + 1].split(","); del a[k:k + 2]
        ids = a[1:] or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(2) as ex:
            for x in ex.map(lambda i: evaluate(i, props), ids): print(*x, flush=True)
    else:
        with cf.ThreadPoolExecutor(3) as ex:
            for x in ex.map(plant, a): print(*x, flush=True)
