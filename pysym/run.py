"""run.py FILE NAME --out OUT.json --dir D --wall S --traces N k=v...
   run.py FILE NAME --replay ASSIGNMENT RESULT k=v..."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pysym import core
import importlib

a = sys.argv[1:]
file, name = a[0], a[1]
opt, cfg, i = {}, {}, 2
while i < len(a):
    if a[i] == "--replay":
        opt["replay"] = (a[i + 1], a[i + 2]); i += 3
    elif a[i].startswith("--"):
        opt[a[i][2:]] = a[i + 1]; i += 2
    else:
        k, v = a[i].split("=", 1); cfg[k] = v; i += 1
mod = importlib.import_module("pysym.h_" + file)
fn = getattr(mod, name)
if "replay" in opt:
    values = {}
    for l in open(opt["replay"][0]):
        p = l.split()
        if p and p[0] in ("real", "int"):
            values[p[1]] = float(p[2])
    c = core.Concrete(cfg, values)
    core.set_ctx(c)
    c.run(fn)
    open(opt["replay"][1], "w").write("\n".join(c.out) + "\n")
else:
    c = core.Symbolic(cfg, name, float(opt.get("wall", 60)), opt["dir"], int(opt.get("traces", 8)))
    core.set_ctx(c)
    r = c.result(*c.run(fn))
    json.dump(r, open(opt["out"] + ".tmp", "w"))
    os.rename(opt["out"] + ".tmp", opt["out"])
