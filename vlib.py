"""Driver: builds the symbolic and native binaries from /repo's current tree,
runs exploration jobs in parallel, replays counterexamples natively, validates
explored paths against the real code and writes the evidence file."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
VENV_PY = "/opt/vp/venv/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CLANG = ["clang++", "-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes",
         "-ffp-contract=off", "-ftrivial-auto-var-init=pattern", "-w", '-DVERSION="verif"']
GXX = ["g++", "-std=c++11", "-O1", "-g", "-w", "-fopenmp", "-ffp-contract=off", '-DVERSION="verif"']


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def fallback(src, compile):
    """harness files that include sources of the repository with a symbolic integer type
    fall back to plain integers (enumerated path by path) where those sources do not allow it"""
    try:
        compile([])
    except BuildError:
        if not (src.startswith(HERE) and "NOSYMINT" in open(src).read()):
            raise
        compile(["-DNOSYMINT"])


def repo_sources():
    src = sorted(f for f in glob.glob(REPO + "/src/*.cpp") if os.path.basename(f) != "main.cpp")
    return src + [REPO + "/python/arcticpy/src/interface.cpp"]


def fingerprint():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*") + glob.glob(REPO + "/include/*") + glob.glob(REPO + "/python/arcticpy/**/*", recursive=True)
                    + glob.glob(HERE + "/engine/**/*", recursive=True) + glob.glob(HERE + "/harness/*") + [HERE + "/vlib.py"]):
        if os.path.isfile(f) and not f.endswith((".pyc", ".so", ".o")):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


GSLWRAP = ["-Wl,--wrap=gsl_" + f for f in ("integration_qag", "root_fsolver_set", "root_fsolver_iterate", "root_fsolver_root", "root_fsolver_x_lower",
                                           "root_fsolver_x_upper", "root_test_interval", "root_test_residual", "root_test_delta")]


class Builder:
    def __init__(self):
        self.dir = os.path.join(HERE, "build", fingerprint())
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = cf.ThreadPoolExecutor(max_workers=NPROC)
        self.linkpool = cf.ThreadPoolExecutor(max_workers=NPROC)
        self.ops = {}

    def once(self, key, fn, pool):
        with self.lock:
            if key not in self.futs:
                self.futs[key] = pool.submit(fn)
            return self.futs[key]

    def inc(self):
        return ["-I" + REPO + "/include", "-I" + REPO + "/python/arcticpy/include", "-I" + REPO + "/python/arcticpy/src", "-I" + HERE]

    def out(self, name):
        return os.path.join(self.dir, name)

    @staticmethod
    def done(path):
        return os.path.exists(path)

    def sym_obj(self, src, tag="", extra=(), track=True, san="address"):
        san = ["-fsanitize=" + san] if san else []
        base = os.path.splitext(os.path.basename(src))[0] + tag

        def go():
            o = self.out("sym_" + base + ".o")
            if self.done(o):
                self.ops[base] = json.load(open(o + ".json"))
                return o
            ll, rw = o + ".ll", o + ".rw.ll"
            fallback(src, lambda fl: sh(CLANG + san + list(extra) + fl + self.inc() + ["-I" + HERE + "/engine/include", "-S", "-emit-llvm", src, "-o", ll]))
            from engine import rewrite
            txt, counts, left = rewrite.rewrite(open(ll).read(), track)
            open(rw, "w").write(txt)
            if left:
                print("note: operations left concrete in %s: %s" % (base, left[:3]))
            self.ops[base] = {"ops": sum(counts.values()), "left": len(left)}
            sh(["clang++", "-O0" if "-fsanitize=thread" in san else "-O1"] + san + ["-c", rw, "-o", o + ".tmp"])
            json.dump(self.ops[base], open(o + ".json", "w"))
            os.rename(o + ".tmp", o)
            os.remove(ll); os.remove(rw)
            return o
        return self.once("s:" + base, go, self.pool)

    def nat_obj(self, src, flavour):
        base = os.path.splitext(os.path.basename(src))[0] + ("_h" if src.startswith(HERE) else "")

        def go():
            o = self.out("nat_%s_%s.o" % (flavour, base))
            if self.done(o):
                return o
            fl = {"plain": [], "asan": ["-fsanitize=address"], "vg": [], "omp": ["-fsanitize=thread"]}[flavour]
            comp = list(GXX)
            if flavour == "omp":  # real code, simulated threads: a chosen interleaving is replayed exactly
                comp = ["clang++", "-std=c++11", "-O0", "-g", "-w", "-ffp-contract=off", '-DVERSION="verif"', "-I" + HERE + "/engine/include"]
                if src.startswith(HERE):
                    fl = ["-DVERIF_TSAN"]
                else:
                    fl = fl + ["-fopenmp"]
            fallback(src, lambda f: sh(comp + fl + f + self.inc() + ["-c", src, "-o", o + ".tmp"]))
            os.rename(o + ".tmp", o)
            return o
        return self.once("n:%s:%s" % (flavour, base), go, self.pool)

    def symrt(self, omp=False):
        def go():
            o = self.out("symrt_omp.o" if omp else "symrt.o")
            if not self.done(o):
                sh(["clang++", "-std=c++17", "-O1"] + (["-DVERIF_TSAN"] if omp else ["-fsanitize=address"]) + ["-I" + HERE + "/engine", "-I" + Z3 + "/include", "-c",
                    HERE + "/engine/symrt.cpp", "-o", o + ".tmp"])
                os.rename(o + ".tmp", o)
            return o
        return self.once("symrt%s" % omp, go, self.pool)

    def sym_bin(self, h, omp=False):
        """symbolic binary of harness file h; omp: with the parallel regions of the code kept and its
        memory accesses reported to the simulated threads (instead of checked by ASan)"""
        tag, extra, san = ("_omp", ["-fopenmp"], "thread") if omp else ("", [], "address")

        def go():
            b = self.out("bin_%s%s" % (h, tag))
            objs = [self.sym_obj(s, tag, extra, san=san) for s in repo_sources()]
            if self.done(b):
                [o.result() for o in objs]  # still load the op counts
                return b
            objs.append(self.sym_obj(HERE + "/harness/%s.cpp" % h, "_h" + tag, [], True, san="" if omp else san))
            # first, so that templates shared with the code under test are not reported to the simulated threads
            objs.insert(0, self.symrt(omp))
            objs = [o.result() for o in objs]
            sh(["clang++"] + ([] if omp else ["-fsanitize=address"]) + objs + ["-o", b + ".tmp", *GSLWRAP, "-L" + Z3 + "/lib", "-lz3",
               "-Wl,-rpath," + Z3 + "/lib", "-lgmp", "-lgsl", "-lgslcblas"])
            os.rename(b + ".tmp", b)
            return b
        return self.once("sb:%s:%s" % (h, omp), go, self.linkpool)

    def nat_bin(self, h, flavour="plain"):
        def go():
            b = self.out("natbin_%s_%s" % (flavour, h))
            if self.done(b):
                return b
            fl = {"plain": ["-fopenmp"], "asan": ["-fopenmp", "-fsanitize=address"], "vg": ["-fopenmp"], "omp": []}[flavour]
            objs = [self.nat_obj(s, flavour) for s in repo_sources()]
            objs = [self.nat_obj(HERE + "/engine/native.cpp", flavour)] + objs + [self.nat_obj(HERE + "/harness/%s.cpp" % h, flavour)]
            objs = [o.result() for o in objs]
            sh(["clang++" if flavour == "omp" else "g++"] + fl + objs + ["-o", b + ".tmp", "-Wl,--wrap=exit", *GSLWRAP, "-lgsl", "-lgslcblas"])
            os.rename(b + ".tmp", b)
            return b
        return self.once("nb:%s:%s" % (h, flavour), go, self.linkpool)


class Job:
    """One exploration: harness `name` of file `file` with concrete configuration cfg."""
    def __init__(self, file, name, wall=60, reach=(), omp=False, opts=None, reps=1, traces=8, **cfg):
        self.file, self.name, self.wall, self.reach, self.omp, self.cfg = file, name, wall, list(reach), omp, cfg
        self.opts = opts or {}
        self.reps = reps
        self.traces = traces

    def label(self):
        return self.name + "(" + ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())) + ")"


class PyJob:
    """One exploration of Python code by the Python symbolic executor (pysym/<file>.py, harness name)."""
    def __init__(self, file, name, wall=60, reach=(), traces=8, **cfg):
        self.file, self.name, self.wall, self.reach, self.cfg, self.traces = file, name, wall, list(reach), cfg, traces
        self.omp = False

    def label(self):
        return "py:" + self.name + "(" + ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())) + ")"


def known_findings():
    res = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)$", l.strip())
            if m:
                res.append(m.groups())
    return res


def run_native(binp, assign, res, timeout=60, env=None, prefix=()):
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:allocator_may_return_null=0", "OMP_NUM_THREADS": "1"})
    if env:
        e.update(env)
    if os.path.exists(res):
        os.remove(res)
    try:
        r = subprocess.run(list(prefix) + [binp, assign, res], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        rc, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out = -999, "timeout"
    txt = open(res).read() if os.path.exists(res) else ""
    return rc, out, txt


class Check:
    def __init__(self, pid, spec, tier):
        self.pid, self.spec, self.tier = pid, spec, tier
        self.b = Builder()
        self.t0 = time.time()
        self.work = os.path.join(self.b.dir, "work_%s_%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.rep = os.path.join(HERE, "replays", pid)
        self.results = []
        self.confirmed, self.unconfirmed, self.known_hit = [], [], {}
        self.traces_ok = self.traces_bad = 0
        self.trace_notes = []
        self.samples = []
        self.stop = False
        self.notes = []

    # -------------------------------------------------------------- one job
    def run_job(self, i, job):
        if self.stop:
            return None
        out = os.path.join(self.work, "job%d.json" % i)
        d = os.path.join(self.work, "job%d" % i)
        os.makedirs(d, exist_ok=True)
        if isinstance(job, PyJob):
            cmd = [VENV_PY, os.path.join(HERE, "pysym", "run.py"), job.file, job.name, "--out", out, "--dir", d, "--wall", str(job.wall),
                   "--traces", str(job.traces)] + ["%s=%s" % kv for kv in sorted(job.cfg.items())]
        else:
            b = self.b.sym_bin(job.file, job.omp).result()
            cmd = [b, job.name, "--out", out, "--dir", d, "--wall", str(job.wall), "--traces", str(job.traces)]
            for k, v in job.opts.items():
                cmd += ["--" + k, str(v)]
            cmd += ["%s=%s" % kv for kv in sorted(job.cfg.items())]
        t = time.time()
        env = dict(os.environ)
        env["VERIF_REPO"] = REPO
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        try:
            so, _ = p.communicate(timeout=job.wall * 1.5 + 60)
        except subprocess.TimeoutExpired:
            p.kill(); so, _ = p.communicate()
        if not os.path.exists(out):
            return {"job": job.label(), "crashed": True, "log": so.decode(errors="replace")[-1500:], "wall": time.time() - t}
        r = json.load(open(out))
        r["job"] = job.label()
        r["log"] = so.decode(errors="replace")[-400:]
        r["jobwall"] = time.time() - t
        # replay counterexamples
        for v in r.get("violations", []):
            self.replay(job, v)
        for tr in r.get("traces", []):
            self.validate(job, tr)
        return r

    def py_replay(self, job, path, mode):
        res = path + ".res"
        cmd = [VENV_PY, os.path.join(HERE, "pysym", "run.py"), job.file, job.name, "--replay", path, res] + ["%s=%s" % kv for kv in sorted(job.cfg.items())]
        env = dict(os.environ); env["VERIF_REPO"] = REPO
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=env)
            out = r.stdout.decode(errors="replace"); rc = r.returncode
        except subprocess.TimeoutExpired:
            rc, out = -999, "timeout"
        return rc, out, open(res).read() if os.path.exists(res) else ""

    def replay(self, job, v):
        path = v["file"]
        ok, how = False, ""
        if isinstance(job, PyJob):
            rc, out, txt = self.py_replay(job, path, "replay")
            fails = [l for l in txt.splitlines() if l.startswith("FAIL")]
            if fails:
                ok, how = True, fails[0]
            else:
                how = (txt + out)[-300:]
        else:
            fl = "omp" if job.omp else "asan" if v["kind"] == "memory" else "plain"
            b = self.b.nat_bin(job.file, fl).result()
            for k in range(job.reps):
                rc, out, txt = run_native(b, path, path + ".res")
                fails = [l for l in txt.splitlines() if l.startswith("FAIL")]
                if fails:
                    same = [l for l in fails if v["what"] in l]
                    ok, how = True, (same or fails)[0]
                elif "AddressSanitizer" in out:
                    m = re.search(r"AddressSanitizer: (\S+)", out)
                    fn = re.search(r"#[0-9]+ \S+ in (\S+) .*?(/\S+)", out)
                    ok, how = True, "memory error: " + (m.group(1) if m else "") + (" at " + fn.group(2) if fn else "")
                elif rc < 0 and rc != -999 or rc == 134:
                    ok, how = True, "crash (signal %d)" % -rc
                elif rc == -999:
                    ok, how = True, "does not terminate within 60 s"
                if ok:
                    break
            if not ok and v["kind"] == "memory":
                bb = self.b.nat_bin(job.file, "vg").result()
                rc, out, txt = run_native(bb, path, path + ".res", timeout=180, prefix=["valgrind", "-q", "--error-exitcode=77"])
                if rc == 77 and "harness_" in out:
                    m = re.search(r"== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid [^\n]*)", out)
                    ok, how = True, "valgrind: " + (m.group(1) if m else "error")
            if not ok:
                how = txt[-300:]
        v2 = dict(v); v2["job"] = job.label(); v2["native"] = how
        if not ok:
            self.unconfirmed.append(v2)
            return
        for pid, match, what in known_findings():
            if pid == self.pid and match in v["what"] + " | " + job.label() + " | " + how:
                self.known_hit[match] = what
                return
        os.makedirs(self.rep, exist_ok=True)
        dst = os.path.join(self.rep, "cex_%d.txt" % len(self.confirmed))
        shutil.copy(path, dst)
        with open(dst, "a") as f:
            f.write("# job %s\n# native: %s\n# replay: python3 %s/run.py %s --replay %s\n" % (job.label(), how, HERE, self.pid, dst))
        v2["replay"] = dst
        self.confirmed.append(v2)
        self.stop = True

    def validate(self, job, tr):
        lines = open(tr).read().splitlines()
        exp = {}
        inp = []
        for l in lines:
            p = l.split(" ")
            if p[0] == "obs":
                exp[p[1]] = float(p[2])
            elif p[0] in ("real", "int"):
                inp.append(" ".join(p[1:2]) + "=" + ("%.6g" % float(p[2])))
        if isinstance(job, PyJob):
            rc, out, txt = self.py_replay(job, tr, "trace")
        else:
            b = self.b.nat_bin(job.file, "omp" if job.omp else "plain").result()
            rc, out, txt = run_native(b, tr, tr + ".res", env={"VERIF_TRACE": "1"})
        got = {}
        for l in txt.splitlines():
            p = l.split(" ")
            if p[0] == "OBS":
                got[p[1]] = float(p[2])
        bad = None
        if any(l.startswith("FAIL") for l in txt.splitlines()):
            bad = [l for l in txt.splitlines() if l.startswith("FAIL")][0]
        if bad and any(pid == self.pid and match in bad[5:] + " | " + job.label() for pid, match, what in known_findings()):
            return      # the known finding itself
        for k, e in exp.items():
            g = got.get(k)
            if g is None or not (g == e or abs(g - e) <= 1e-6 * (1 + abs(e)) or (e != e and g != g)):
                bad = "%s: expected %r got %r" % (k, e, g)
                break
        if bad:
            self.traces_bad += 1
            if len(self.trace_notes) < 5:
                self.trace_notes.append({"job": job.label(), "why": bad, "inputs": inp[:40]})
        else:
            self.traces_ok += 1
            if len(self.samples) < 6 and (not self.samples or self.samples[-1]["job"] != job.label()):
                self.samples.append({"job": job.label(), "inputs": inp[:40], "outputs": {k: exp[k] for k in list(exp)[:12]}})

    # -------------------------------------------------------------- all jobs
    def run(self):
        jobs = self.spec["quick"] if self.tier == "quick" else self.spec.get("quick", []) + self.spec.get("thorough", [])
        cj = [j for j in jobs if isinstance(j, Job)]
        for f, o in sorted({(j.file, j.omp) for j in cj}):
            self.b.sym_bin(f, o)
        for f, o in sorted({(j.file, j.omp) for j in cj}):
            self.b.nat_bin(f, "omp" if o else "plain")
        # surface build errors before anything else
        for fu in list(self.b.futs.values()):
            fu.result()
        tb = time.time() - self.t0
        with cf.ThreadPoolExecutor(max_workers=NPROC) as ex:
            res = list(ex.map(lambda a: self.run_job(*a), enumerate(jobs)))
        self.results = [r for r in res if r]
        return self.finish(jobs, tb)

    def finish(self, jobs, tb):
        R = self.results
        crashed = [r for r in R if r.get("crashed")]
        good = [r for r in R if not r.get("crashed")]
        tot = lambda k: sum(r.get(k, 0) for r in good)
        missing = []
        if not self.stop:
            for j, r in zip(jobs, self.results):
                for w in j.reach:
                    if not r.get("reached", {}).get(w):
                        missing.append(j.label() + ": " + w)
        fns = sorted({f for r in good for f in r.get("functions", [])})
        if fns:
            try:
                fns = subprocess.run(["c++filt"], input="\n".join(fns), stdout=subprocess.PIPE, text=True).stdout.splitlines()
            except OSError:
                pass
        fns = sorted({re.sub(r"std::valarray<std::valarray<double> ?>", "Image", f) for f in fns})
        labels = {}
        for r in good:
            for k, n in r.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + n
        unk = {}
        for r in good:
            for k, n in r.get("unknown_labels", {}).items():
                unk[k] = unk.get(k, 0) + n
        for v in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v[1]))
        for v in self.confirmed[:3]:
            print("  violated: %s  [%s]  %s" % (v["what"], v["job"], v["native"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        if not self.samples:
            for r in good[:3]:
                self.samples.append({"job": r["job"], "paths": r.get("paths"), "obligations": r.get("obligations"), "reached": r.get("reached")})
        cov = {
            "states": tot("paths"), "transitions": tot("forks") + tot("forced"),
            "traces_validated_against_impl": self.traces_ok,
            "samples": self.samples,
            "paths_completed": tot("completed"), "paths_infeasible_or_cut": tot("killed"),
            "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in good), 2),
            "obligations_checked": tot("obligations"), "obligations_unsat_by_solver": tot("obl_unsat"),
            "obligations_closed_by_term_normalisation": tot("obl_normalised"), "obligations_concrete": tot("obl_concrete"),
            "obligations_undecided": tot("obl_unknown"), "undecided_by_label": unk,
            "obligation_labels": labels,
            "functions_encoded": fns[:200],
            "jobs": [{"job": r["job"], "complete": r.get("complete"), "truncated": r.get("truncated"), "paths": r.get("paths"),
                      "queries": r.get("queries"), "unknown": r.get("unknown"), "wall_s": round(r.get("wall_s", 0), 2)} for r in good],
            "jobs_explored_completely": sum(1 for r in good if r.get("complete")),
            "jobs_truncated": sum(1 for r in good if not r.get("complete")),
            "bounds": self.spec.get("bounds", ""), "outside_the_claim": self.spec.get("outside", ""),
            "trace_mismatches": self.trace_notes, "trace_mismatch_count": self.traces_bad,
            "counterexamples_not_reproduced_natively": [{k: v[k] for k in ("what", "job", "native", "kind")} for v in self.unconfirmed[:10]],
            "reachability_witnesses_missing": missing,
            "crashed_jobs": [{"job": r["job"], "log": r["log"][-300:]} for r in crashed],
            "exhaustive": False,
            "build_s": round(tb, 1),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": cov, "assumptions": self.spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.confirmed)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % self.pid, "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d jobs (%d complete), %d paths, %d obligations (%d undecided), %d queries, %d traces validated, %d mismatched, %d not reproduced, %.0f s" % (
            self.pid, self.tier, len(good), cov["jobs_explored_completely"], cov["states"], cov["obligations_checked"], cov["obligations_undecided"],
            cov["solver_queries"], self.traces_ok, self.traces_bad, len(self.unconfirmed), time.time() - self.t0))
        for x in cov["crashed_jobs"]:
            print("note: job died: %s %s" % (x["job"], x["log"]))
        for x in missing:
            print("note: witness not reached: " + x)
        if os.environ.get("VERIF_VERBOSE"):
            for r in good:
                print("  %-60s %s paths=%s q=%s unk=%s/%s obl=%s %.1fs %s" % (r["job"], "full" if r.get("complete") else "CUT:" + r.get("truncated", ""), r.get("paths"), r.get("queries"), r.get("unknown"), r.get("obl_unknown"), r.get("obligations"), r.get("wall_s", 0), r.get("log", "")[-100:]))
            for u in self.unconfirmed[:6]:
                print("  unconfirmed:", u)
            for u in self.trace_notes:
                print("  mismatch:", u)
        if self.confirmed:
            return 1
        if len(crashed) == len(R) and R:
            return 2
        return 0


COMMON_ASSUMPTIONS = [
    "floating-point operations are interpreted over the exact reals; rounding error is outside the claim",
    "standard output (print_v), timing calls and GSL quadrature on concrete arguments run as the real library or are stubbed; none of them feeds the asserted values",
]
