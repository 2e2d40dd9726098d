"""The verification test of trails into the overscan: /repo/python/arcticpy/vv_test.py"""
import math, types
from pysym import core
np = core.real_np


class Library:
    """stands for the compiled library and for the least-squares solver"""
    def __init__(self, c):
        self.c, self.hints, self.calls = c, [], []
        if c.symbolic:
            c.np.linalg = types.SimpleNamespace(lstsq=self.lstsq)

    def lstsq(self, A, b, rcond=None):
        """a solution without residual is the answer (the harness makes sure there is one only)"""
        c = self.c
        for h in self.hints:
            r = [A[i, 0] * h[0] + A[i, 1] * h[1] - b[i] for i in range(len(b))]
            if all(self.zero(x) for x in r):
                return np.array([h[0], h[1]], dtype=object).view(core.Arr), [], 2, []
        k = len(self.calls)
        self.calls.append("no exact solution")
        return np.array([c.real("fit%d_0" % k), c.real("fit%d_1" % k)], dtype=object).view(core.Arr), [], 2, []

    def zero(self, x):
        return self.c.always_zero(x)


def load(c):
    lib = Library(c)
    L = core.Loader(c.np, types.ModuleType("wrapper"))
    return L.module("vv_test"), L, lib


def models(c, L, d, start, prescan=0, traps=2, phases=1):
    """one direction; the well is linear so that the volume of a cloud is simple"""
    notch, full = (2.0, 66.0) if c.icfg("notch", 1) else (0.0, 64.0)
    ccd = L.module("ccd").CCD(full_well_depth=full, well_notch_depth=notch, well_fill_power=1.0, first_electron_fill=0.0)
    roe = L.module("roe").ROE(dwell_times=[1.0], overscan_start=start, prescan_length=prescan)
    ts = [L.module("traps").TrapInstantCapture(density=c.real("%s_density%d" % (d, k), 0.1, 50), release_timescale=(0.5, 2.0, 5.0)[k]) for k in range(traps)]

    def volume(x):
        if not bool(x > notch): return 0.0
        return 1.0 if bool(x > full) else (x - notch) / (full - notch)
    return ccd, roe, ts, volume


def scene(c, L, lib, d="p"):
    """an image whose overscan is exactly the trail of the model at some amplitude above some bias"""
    start, nover, ncol = c.icfg("start", 2), c.icfg("over", 2), c.icfg("cols", 3)
    pre, post = c.icfg("pre"), c.icfg("post")      # columns that have no trails
    nt = c.icfg("traps", 2)
    ccd, roe, ts, volume = models(c, L, d, start, c.icfg("prescan"), nt)
    ny, nx = start + nover, pre + ncol + post
    img = c.array("im", (ny, nx), -100, 1000)
    use = [i for i in range(ncol) if not (c.icfg("star") and i == 1)]      # columns without sources
    cols = [pre + i for i in use]
    valid = np.array([i in use for i in range(ncol)])
    mb = c.real("guess", -5, 10) if c.icfg("guess") else 0.0
    if c.icfg("guess") == 2: mb = 3
    fitbias = c.icfg("fitbias", 1)
    bias = c.real("bias", -5, 10) if fitbias else mb
    f = c.real("amplitude", 0.1, 5)
    last = None
    given = None
    if c.icfg("given"):
        given = c.array("pre", (start,), -100, 1000)
        last = given[start - 1]
    else:
        last = 0.0
        for x in cols: last = last + img[start - 1, x]
        last = last / len(cols)
    c.assume(last > (2.001 if c.icfg("notch", 1) else 0.001))
    vl, vm, vb = volume(last), volume(mb), volume(bias)
    c.assume(vl - vm >= 0.01); c.assume(vl - vb >= 0.01)
    shape = []
    for k in range(nover):
        s = 0.0
        for t in ts:
            tau = t.release_timescale
            s = s + t.density * math.exp(-k / tau) * (1 - math.exp(-1 / tau))
        shape.append(start * s)
    truth = []
    scatter = [1.0, -1.0, 0.0, 0.5, -0.5][:len(cols)]
    if len(cols) in (1, 4): scatter = [0.0] * len(cols) if len(cols) == 1 else [1.0, -1.0, 2.0, -2.0]
    for k in range(nover):
        o = c.bind("over%d" % k, bias + f * (vl - vm) * shape[k])
        truth.append(o)
        for x, e in zip(cols, scatter):
            img[start + k, x] = o + e * (1 + k)
    model = [mb + (vl - vm) * s for s in shape]
    dens = sum(t.density for t in ts)
    lib.hints.append((f, bias) if fitbias else (f, 0.0))
    lib.hints.append((f * (vl - vm) / (vl - vb), bias))
    want = dict(model=model, truth=truth, bias=bias, density=dens * f * (vl - vm) / (vl - vb), dens=dens, mb=mb)
    return img, ccd, roe, ts, valid, given, want


def compare(c, r, want, iterated=False):
    c.check_eq(r.best_fit_bias, want["bias"], "the bias of the overscan is found")
    c.check_eq(r.best_fit_trap_density, want["density"], "the density of traps is found from the trail and the volume it came from")
    c.check_eq(r.model_trap_density, want["dens"], "density of the model")
    c.check_eq_all(r.overscan, np.array(want["truth"], dtype=object), "mean of the overscan over columns without sources")
    if not iterated:
        c.check_eq_all(r.model_overscan, np.array(want["model"], dtype=object), "trail of the model")
        c.check_eq(r.model_bias, want["mb"], "bias of the model")
    c.check_eq_all(r.best_fit_overscan, np.array(want["truth"], dtype=object), "the fit goes through the overscan")
    c.obs("density", r.best_fit_trap_density)


def transverse(c, L):
    pre, post, ncol = c.icfg("pre"), c.icfg("post"), c.icfg("cols", 3)
    if not (pre or post): return None
    return L.module("roe").ROE(dwell_times=[1.0], prescan_length=pre, overscan_start=pre + ncol if post else -1)


def recovered(c):
    """exact trails give back their bias and density, whatever lies elsewhere in the image"""
    m, L, lib = load(c)
    img, ccd, roe, ts, valid, given, want = scene(c, L, lib)
    serial, alone = c.icfg("serial"), c.icfg("alone")
    d, o = ("serial", "parallel") if serial else ("parallel", "serial")
    if serial: img = img.T
    keep = img.copy()
    kw = {d + "_ccd": ccd, d + "_roe": roe, d + "_traps": ts}
    x = transverse(c, L)
    if x is not None: kw[o + "_roe"] = x
    tk = {d + "_valid_columns": valid, d + "_pixels_pre_cti": given}
    if c.icfg("guess"): tk[d + "_model_bias"] = want["mb"]
    if not c.icfg("fitbias", 1): tk[d + "_fit_bias"] = False
    if c.icfg("iterate"): tk[d + "_iterate_bias"] = True
    c.reach("tested")
    if alone:
        res = m.vv_test(img, **kw, **tk)
    else:
        v = m.VVTestBench(**kw)
        res = v.test(img, **tk)
        c.check(v.n_results() == 1 and v.results[0] is res, "results are kept")
    r, other = (res.serial, res.parallel) if serial else (res.parallel, res.serial)
    compare(c, r, want, c.icfg("iterate"))
    c.check(other.best_fit_trap_density is None and other.best_fit_bias is None, "no result in a direction without a model")
    c.check_eq_all(img, keep, "the image is not changed")


def both(c):
    """both directions at once give what each gives alone"""
    m, L, lib = load(c)
    img, ccd, roe, ts, valid, given, want = scene(c, L, lib)
    skip = c.scfg("skip", "none")
    other = dict(serial_ccd=ccd, serial_roe=L.module("roe").ROE(dwell_times=[1.0]), serial_traps=ts)     # no overscan
    if skip == "ccd": other["serial_ccd"] = None; other["serial_roe"] = None
    if skip == "traps": other["serial_traps"] = None
    v = m.VVTestBench(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=ts, **other)
    c.reach("tested")
    res = v.test(img, parallel_valid_columns=valid)
    compare(c, res.parallel, want)
    c.check(res.serial.best_fit_trap_density is None, "no result in a direction without a model")
    res2 = v.test(img, parallel_valid_columns=res.parallel.valid_columns, parallel_pixels_pre_cti=res.parallel.pixels_pre_cti)
    compare(c, res2.parallel, want)
    c.check(v.n_results() == 2 and v.results[1] is res2, "results are kept")


class Patient:
    """numpy for a limited number of sums"""
    def __init__(self, np): self.__dict__.update(np=np, n=0)

    def __getattr__(self, k):
        return getattr(self.np, k)

    def sum(self, *a, **k):
        self.__dict__["n"] += 1
        if self.n > 2000: raise TimeoutError("never ends")
        return self.np.sum(*a, **k)


def library(c):
    """with the trail of the library instead of the sum of exponentials"""
    m, L, lib = load(c)
    img, ccd, roe, ts, valid, given, want = scene(c, L, lib)
    start, nover = c.icfg("start", 2), c.icfg("over", 2)
    calls = []
    trail = min(start, 10)
    near = 0.0
    for y in range(start - trail, start):
        for x in range(3): near = near + img[y, x] / 3
    last = (img[start - 1, 0] + img[start - 1, 1] + img[start - 1, 2]) / 3
    c.assume((last <= 60 if c.icfg("notch", 1) else last <= 58))      # the volume of the last row is then (last - 2) / 64
    need = 3 * start * want["dens"] * (last - (2.0 if c.icfg("notch", 1) else 0.0)) / 64
    if c.icfg("poor"): c.assume(near < need - 1)      # fewer electrons near the overscan than traps they see
    else: c.assume(near > need + 1)
    post = c.array("trail", (start + nover, 1), -100, 1000)
    for k in range(nover):      # the trail of the library fits exactly
        post[start + k, 0] = c.bind("trailed%d" % k, want["model"][k])

    def add_cti(image, **k):
        calls.append((image.copy(), k))
        return post
    L.module("cti").add_cti = add_cti
    L.mods["vv_test"].arctic = types.SimpleNamespace(add_cti=add_cti)
    L.mods["vv_test"].np = Patient(L.mods["vv_test"].np)
    c.reach("tested")
    v = m.VVTestBench(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=ts, sum_of_exponentials=False)
    res = v.test(img, parallel_valid_columns=valid, parallel_model_bias=want["mb"]).parallel
    compare(c, res, want)
    c.check(len(calls) == 1, "the library is called once")
    im, k = calls[0]
    c.check(im.shape == (start + nover, 1), "the library trails the mean column")
    for y in range(start):
        c.check_eq(im[y, 0], res.pixels_pre_cti[y], "the library trails the mean column")
    for y in range(start, start + nover):
        c.check_eq(im[y, 0], want["mb"], "the library trails the mean column")
    c.check(k.get("parallel_roe") is roe and k.get("parallel_ccd") is ccd and k.get("parallel_traps") is ts, "the library uses the models")
    c.check(not any(x.startswith("serial") for x in k), "the library uses the models")
    w = k.get("parallel_window_start", 0)
    c.check(0 <= w <= start, "the library trails from a row of the image")


def sources(c):
    """columns with a source near the overscan are found and left out"""
    m, L, lib = load(c)
    ncol, start, rows = c.icfg("cols", 6), c.icfg("start", 3), c.icfg("rows", 2)
    ccd, roe, ts, volume = models(c, L, "p", start, c.icfg("prescan"), 1)
    img = c.array("im", (start + 2, ncol), -100, 1000)
    for y in range(max(start - rows, c.icfg("prescan")), start):
        for x in range(ncol):
            img[y, x] = 20.0 + ((x + y) % 2)
    for y in range(start, start + 2):
        for x in range(ncol):
            img[y, x] = 5.0 - (y - start) + (x % 2)
    bad = [int(x) for x in c.scfg("star", "2")] if c.scfg("star", "2") != "-" else []
    rows = min(rows, start - c.icfg("prescan"))
    for x in bad:
        img[start - 1 - (x % rows), x] = c.real("star%d" % x, 60, 100000)
    c.reach("tested")
    v = m.VVTestBench(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=ts, nrows_for_background=rows)
    try:
        res = v.test(img).parallel
    except Exception as e:
        if "Background" not in str(e): raise
        c.check(ncol - len(bad) < 4, "enough columns are left")
        return
    c.check(ncol - len(bad) >= 4, "too few columns are refused")
    c.check([bool(x) for x in res.valid_columns] == [x not in bad for x in range(ncol)], "columns with sources are left out")
    good = [x for x in range(ncol) if x not in bad]
    for y in range(2):
        c.check_eq(res.overscan[y], sum(5.0 - y + (x % 2) for x in good) / len(good), "mean of the overscan over columns without sources")


def refuse(c):
    """nothing to fit is an error rather than a wrong answer"""
    m, L, lib = load(c)
    why = c.choose("why", 3)
    img, ccd, roe, ts, valid, given, want = scene(c, L, lib)
    start = c.icfg("start", 2)
    if why == 0:
        ts = []
    elif why == 1:
        for t in ts: t.density = 0.0
    else:
        for x in range(img.shape[1]): img[start - 1, x] = c.real("low%d" % x, -100, 2.0 if c.icfg("notch", 1) else 0.0)
    v = m.VVTestBench(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=ts)
    try:
        v.test(img, parallel_valid_columns=valid)
        ok = False
    except Exception as e:
        ok = "No traps" in str(e) or "trailing" in str(e)
    c.reach("refused")
    c.check(ok, "a fit without trails is refused")


def around(c):
    """tests asked for around a calculation look at its input and its output; the header says what was done"""
    from pysym import h_cti
    L, cpp = h_cti.load(c)
    cti = L.module("cti")
    remove = c.icfg("remove")
    img = h_cti.image(c, 2, 2)
    keep = img.copy()
    log = []

    class Bench:
        def __init__(self, **k): self.kw, self.results = k, []

        def test(self, image, **k):
            log.append((self, list(np.asarray(image).reshape(-1)), k))
            r = types.SimpleNamespace(serial=None, parallel=types.SimpleNamespace(valid_columns=["columns"], pixels_pre_cti=["pixels"], best_fit_bias=c.real("bias", -5, 5)))
            self.results.append(r)
            return r
    cti.VVTestBench = Bench
    head = {}
    header = types.SimpleNamespace(set=lambda k, v, text: head.__setitem__(k, text))
    kw, w = h_cti.model(c, L, "parallel", "i", 0, 1)
    k2, w2 = h_cti.model(c, L, "serial", "s", 0, 1); kw.update(k2)
    vv = c.icfg("vv", 1)
    if remove: out = cti.remove_cti(img, remove, header=header, vv_test=bool(vv), verbosity=0, **kw)
    else: out = cti.add_cti(img, header=header, vv_test=bool(vv), verbosity=0, **kw)
    c.reach("tested")
    c.check(sorted(head) == ["cticor", "ctipar"], "the header is updated")
    for t in head.values():
        c.check(("correction" if remove else "addition") in t, "the header says what was done")
    if not vv:
        c.check(not log, "no test unless asked for")
        return
    c.check(len(log) == 2 and log[0][0] is log[1][0], "the image is tested before and after")
    for k in ("parallel", "serial"):
        for q in ("roe", "ccd", "traps"):
            c.check(log[0][0].kw.get(k + "_" + q) is kw[k + "_" + q], "the test uses the models of the calculation")
    for i in range(4):
        c.check_eq(log[0][1][i], keep.reshape(-1)[i], "the first test is of the input")
        c.check_eq(log[1][1][i], out.reshape(-1)[i], "the second test is of the output")
    first, k = log[0][0].results[0].parallel, log[1][2]
    c.check(k.get("parallel_valid_columns") is first.valid_columns and k.get("parallel_pixels_pre_cti") is first.pixels_pre_cti, "the second test looks at the same pixels as the first")
    c.check_eq(k.get("parallel_model_bias"), first.best_fit_bias, "the second test starts from the first")
    c.check(out.vv_test is log[0][0], "results of the tests come with the image")
