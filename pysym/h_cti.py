"""The Python functions add_cti / remove_cti and the presets: /repo/python/arcticpy/{cti,ccd,roe,traps}.py and wrapper.pyx"""
import itertools
from pysym import core, pyx
np = core.real_np

# what the C++ interface expects, in order (include/interface.hpp)
DIR = ["dwell_times", "n_steps", "prescan_offset", "overscan_start", "empty_traps_between_columns", "empty_traps_for_first_transfers",
       "force_release_away_from_readout", "use_integer_express_matrix", "n_pumps", "roe_type",
       "fraction_of_traps_per_phase", "n_phases", "full_well_depths", "well_notch_depths", "well_fill_powers", "first_electron_fills",
       "trap_densities", "trap_release_timescales", "trap_third_params", "trap_fourth_params", "n_traps_ic", "n_traps_sc", "n_traps_ic_co", "n_traps_sc_co",
       "express", "window_offset", "window_start", "window_stop", "time_start", "time_stop", "prune_n_electrons", "prune_frequency"]
ARGS = ["image", "n_rows", "n_columns"] + ["parallel_" + k for k in DIR] + ["serial_" + k for k in DIR] + ["allow_negative_pixels", "verbosity", "iteration"]


class Cpp:
    """stands for the compiled library: records what it is given, and returns arbitrary pixels in place"""
    def __init__(self, c):
        self.c, self.calls = c, []

    def funcs(self):
        return dict(add_cti=self.add_cti, print_version=lambda: None, version_arctic=lambda: b"7.0.0",
                    print_array=lambda *a: None, print_array_2D=lambda *a: None, determine_read_noise_model=self.noise)

    def add_cti(self, *a):
        if len(a) != len(ARGS):
            raise RuntimeError("the interface has changed")   # the harness does not apply
        d = dict(zip(ARGS, a))
        n = d["n_rows"] * d["n_columns"]
        d["pixels"] = [x for x in d["image"].read(n)]
        flat = d["image"].arr.reshape(-1)
        k = len(self.calls)
        d["out"] = [self.c.real("out%d_%d" % (k, i), -1000, 1000) for i in range(n)]
        for i in range(n):
            flat[i] = d["out"][i]
        self.calls.append(d)

    def noise(self, *a):
        raise RuntimeError("unexpected")


def load(c):
    cpp = Cpp(c)
    L = core.Loader(c.np, pyx.load(c.np, cpp.funcs()))
    return L, cpp


def image(c, ny, nx):
    """the same pixels in different layouts and types"""
    layout = c.icfg("layout")
    if layout == 4:  # integers
        a = c.np.copy(np.array([[c.choose("p_%d_%d" % (i, j), 2) + 3 * i + j for j in range(nx)] for i in range(ny)]))
        return a
    a = c.array("p", (ny, nx), -1000, 1000)
    if layout == 1:
        a = np.asfortranarray(a).view(type(a))
    if layout == 2:
        b = np.empty((2 * ny, 2 * nx), dtype=a.dtype).view(type(a)); b[...] = 0
        b[::2, ::2] = a; a = b[::2, ::2]
    if layout == 3:
        a = np.ascontiguousarray(a[::-1, ::-1]).view(type(a))[::-1, ::-1]
    return a


KINDS = "isco"


def trap(c, L, kind, k):
    t = L.module("traps")
    v = [c.real("%s_%d_%s" % (kind, k, n), 0.1, 50) for n in ("density", "release", "third", "fourth")]
    if kind == "i":
        return t.TrapInstantCapture(density=v[0], release_timescale=v[1], fractional_volume_none_exposed=v[2], fractional_volume_full_exposed=v[3]), (v[0], v[1], v[2], v[3])
    if kind == "s":
        return t.TrapSlowCapture(density=v[0], release_timescale=v[1], capture_timescale=v[2]), (v[0], v[1], v[2], None)
    if kind == "c":
        return t.TrapInstantCaptureContinuum(density=v[0], release_timescale=v[1], release_timescale_sigma=v[2]), (v[0], v[1], v[2], None)
    return t.TrapSlowCaptureContinuum(density=v[0], release_timescale=v[1], release_timescale_sigma=v[2], capture_timescale=v[3]), (v[0], v[1], v[2], v[3])


def model(c, L, d, order, roe_kind, phases):
    """every setting of one direction; returns keyword arguments and what the library must be given"""
    r, cc = L.module("roe"), L.module("ccd")
    want = {}
    steps = 2 if roe_kind == 2 else phases
    dwell = [c.real("%s_dwell%d" % (d, i), 0.1, 5) for i in range(steps)]
    scal = {k: c.real("%s_%s" % (d, k)) for k in ("prescan_offset", "overscan_start")}
    flags = {k: c.real("%s_%s" % (d, k)) for k in ("empty_traps_between_columns", "empty_traps_for_first_transfers",
                                                     "force_release_away_from_readout", "use_integer_express_matrix")}
    n_pumps = c.real("%s_n_pumps" % d)
    if roe_kind == 0:
        roe = r.ROE(dwell_times=dwell, **scal, **flags)
        want.update(scal, **flags)
    elif roe_kind == 1:
        del flags["empty_traps_for_first_transfers"]
        n = c.real("%s_between" % d) if c.icfg("convert") else 0
        if c.icfg("convert"):
            fl = dict(flags, empty_traps_for_first_transfers=c.real("%s_eft" % d))
            roe = r.ROEChargeInjection.from_normal_roe(r.ROE(dwell_times=dwell, **scal, **fl), n)
        else:
            roe = r.ROEChargeInjection(dwell_times=dwell, **scal, **flags)
        want.update(scal, **flags)
        want["prescan_offset"] = scal["prescan_offset"] + n
        want["empty_traps_for_first_transfers"] = False
    else:
        roe = r.ROETrapPumping(dwell_times=dwell, n_pumps=n_pumps, empty_traps_for_first_transfers=flags["empty_traps_for_first_transfers"],
                               use_integer_express_matrix=flags["use_integer_express_matrix"], **scal)
        want.update(scal, empty_traps_for_first_transfers=flags["empty_traps_for_first_transfers"],
                    use_integer_express_matrix=flags["use_integer_express_matrix"], n_pumps=n_pumps)
    want.update(dwell_times=dwell, n_steps=steps, roe_type=roe_kind)
    wells = [[c.real("%s_%s%d" % (d, k, i)) for k in ("full", "notch", "power", "first")] for i in range(phases)]
    frac = [c.real("%s_frac%d" % (d, i)) for i in range(phases)]
    if phases == 1 and c.icfg("shortccd"):
        ccd = cc.CCD(full_well_depth=wells[0][0], well_notch_depth=wells[0][1], well_fill_power=wells[0][2], first_electron_fill=wells[0][3])
        frac = [1.0]
    else:
        ccd = cc.CCD(phases=[cc.CCDPhase(full_well_depth=w[0], well_notch_depth=w[1], well_fill_power=w[2], first_electron_fill=w[3]) for w in wells],
                     fraction_of_traps_per_phase=frac)
    want.update(n_phases=phases, fraction_of_traps_per_phase=frac, full_well_depths=[w[0] for w in wells], well_notch_depths=[w[1] for w in wells],
                well_fill_powers=[w[2] for w in wells], first_electron_fills=[w[3] for w in wells])
    traps, pars = [], []
    for k, kind in enumerate(order):
        t, p = trap(c, L, kind, k if d == "parallel" else 10 + k)
        traps.append(t); pars.append((kind, p))
    so = [p for q in KINDS for kk, p in pars if kk == q]
    want.update(n_traps_ic=order.count("i"), n_traps_sc=order.count("s"), n_traps_ic_co=order.count("c"), n_traps_sc_co=order.count("o"),
                trap_densities=[p[0] for p in so], trap_release_timescales=[p[1] for p in so], trap_third_params=[p[2] for p in so],
                trap_fourth_params=[p[3] for p in so])
    opts = {k: c.real("%s_%s" % (d, k)) for k in ("express", "window_offset", "window_start", "window_stop", "time_start", "time_stop",
                                                    "prune_n_electrons", "prune_frequency")}
    want.update(opts)
    want["prune_n_electrons"] = [opts["prune_n_electrons"]]
    kw = {"%s_%s" % (d, k): v for k, v in dict(opts, roe=roe, ccd=ccd, traps=traps).items()}
    return kw, want


def match(c, d, want, call):
    for k, v in want.items():
        g = call[d + "_" + k]
        if isinstance(g, pyx.Ptr):
            try:
                g = g.read(len(v))
            except core.CodeError as e:
                c.fail("%s: %s" % (k, e))
                continue
            for a, b in zip(g, v):
                if b is not None:
                    c.check_eq(a, b, "setting reaches the library: " + k)
        else:
            c.check_eq(g, v, "setting reaches the library: " + k)


def orders(c):
    o = c.scfg("order", "")
    if o:
        return o
    perms = sorted(set(itertools.permutations(c.scfg("species", "isco"))))
    return "".join(perms[c.choose("perm", len(perms))])


def arguments(c):
    """every setting reaches the library, in its place and unchanged; results come back; inputs are untouched"""
    L, cpp = load(c)
    cti = L.module("cti")
    ny, nx = 2, 3
    img = image(c, ny, nx)
    keep = img.copy()
    par, ser = c.icfg("par", 1), c.icfg("ser", 1)
    kw, wants = {}, {}
    if par:
        k, w = model(c, L, "parallel", orders(c), c.icfg("proe"), c.icfg("pphases", 1)); kw.update(k); wants["parallel"] = w
    if ser:
        k, w = model(c, L, "serial", c.scfg("sorder", "sio"), c.icfg("sroe"), c.icfg("sphases", 1)); kw.update(k); wants["serial"] = w
    neg, it = c.real("neg"), c.real("it")
    before = {k: dict(v.__dict__) for k, v in kw.items() if hasattr(v, "__dict__")}
    out = cti.add_cti(img, allow_negative_pixels=neg, iteration=it, verbosity=0, **kw)
    c.reach("called")
    c.check(len(cpp.calls) == 1, "the library is called once")
    call = cpp.calls[0]
    c.check(call["n_rows"] == ny and call["n_columns"] == nx, "the shape of the image reaches the library")
    for i in range(ny):
        for j in range(nx):
            c.check_eq(call["pixels"][i * nx + j], keep[i, j], "the pixels reach the library in row order")
    for d in wants:
        match(c, d, wants[d], call)
    for d in ("parallel", "serial"):
        if d not in wants:
            for k in ("ic", "sc", "ic_co", "sc_co"):
                c.check_eq(call["%s_n_traps_%s" % (d, k)], 0, "a direction without traps is inert")
    c.check_eq(call["allow_negative_pixels"], neg, "setting reaches the library: allow_negative_pixels")
    c.check_eq(call["iteration"], it, "setting reaches the library: iteration")
    c.check(out.shape == (ny, nx), "shape of the result")
    for i in range(ny):
        for j in range(nx):
            c.check_eq(out[i, j], call["out"][i * nx + j], "what the library computes is returned")
    c.check_eq_all(img, keep, "input image unchanged")
    for k, v in before.items():
        for n, x in v.items():
            c.check(getattr(kw[k], n) is x or n.startswith("_"), "models are unchanged")


def correction(c):
    """each iteration adds the data minus the estimate with CTI added; negatives are kept when allowed"""
    L, cpp = load(c)
    cti = L.module("cti")
    ny, nx = c.icfg("ny", 1), c.icfg("nx", 2)
    img = image(c, ny, nx)
    keep = img.copy()
    kw, w = model(c, L, "parallel", c.scfg("order", "i"), c.icfg("proe"), 1)
    wants = {"parallel": w}
    if c.icfg("ser"):
        k2, w2 = model(c, L, "serial", "s", 0, 1); kw.update(k2); wants["serial"] = w2
    n = c.icfg("iter", 2)
    neg = c.icfg("neg", 1)
    bounce = []
    if c.icfg("bounce"):
        c.always_uf = ("exp", "cos")
        pb = L.module("pixel_bounce")
        bounce = [pb.PixelBounce(kA=c.real("kA", -1, 1), kv=c.real("kv", -1, 1), gamma=0.5, omega=0.25)]
        kw["pixel_bounce_list"] = bounce
        for k, v in (("window_start", 0), ("window_stop", -1)):
            kw["parallel_" + k] = w[k] = v
    out = cti.remove_cti(img, n, allow_negative_pixels=neg, verbosity=0, **kw)
    c.reach("corrected")
    c.check(len(cpp.calls) == n, "the model is run once per iteration")
    est = [keep[i, j] for i in range(ny) for j in range(nx)]
    for k, call in enumerate(cpp.calls[:n]):
        for i in range(ny * nx):
            c.check_eq(call["pixels"][i], est[i], "each iteration starts from the estimate so far")
        for d in wants:
            match(c, d, wants[d], call)
        c.check_eq(call["iteration"], k + 1, "iterations are counted from one")
        c.check_eq(call["allow_negative_pixels"], neg, "setting reaches the library: allow_negative_pixels")
        model_out = call["out"]
        if bounce:
            a = c.np.array(np.array(model_out, dtype=object if c.symbolic else float).reshape(ny, nx), dtype=c.np.double)
            b = bounce[0].add_pixel_bounce(a)
            model_out = [b[i, j] for i in range(ny) for j in range(nx)]
        est = [e + (keep.reshape(-1)[i] - model_out[i]) for i, e in enumerate(est)]
        if not neg and k == 0:
            est = [e if bool(e >= 0) else 0.0 for e in est]
    for i in range(ny):
        for j in range(nx):
            c.check_eq(out[i, j], est[i * nx + j], "the correction adds the data minus the estimate with CTI added")
    c.check_eq_all(img, keep, "input image unchanged")


def noise_correction(c):
    """with read noise separation the smooth image is corrected and the noise put back"""
    L, cpp = load(c)
    cti = L.module("cti")
    ny, nx = 1, 2
    img = image(c, ny, nx)
    keep = img.copy()
    S = [c.real("smooth%d" % i, -1000, 1000) for i in range(ny * nx)]
    sig = c.real("sigma", 0.5, 20)
    seen = []
    class Separate(L.module("read_noise").ReadNoise):
        def generate_SR_frames_from_image(self, image, *a, **k):
            seen.append((list(np.asarray(image).reshape(-1)), self.sigmaRN))
            s = c.np.array(np.array(S, dtype=object if c.symbolic else float).reshape(ny, nx), dtype=c.np.double)
            return s, image - s
    cti.ReadNoise = Separate
    kw, w = model(c, L, "parallel", "i", 0, 1)
    n, neg = c.icfg("iter", 2), c.icfg("neg", 1)
    out = cti.remove_cti(img, n, remove_read_noise=sig, allow_negative_pixels=neg, verbosity=0, **kw)
    c.reach("corrected")
    c.check(len(seen) == 1, "the noise is separated once")
    for i in range(ny * nx):
        c.check_eq(seen[0][0][i], keep.reshape(-1)[i], "the noise is separated from the image itself")
    c.check_eq(seen[0][1], sig, "the amplitude of the noise is as given")
    est = list(S)
    for k, call in enumerate(cpp.calls):
        for i in range(ny * nx):
            c.check_eq(call["pixels"][i], est[i], "the smooth image is what is corrected")
        est = [e + (S[i] - call["out"][i]) for i, e in enumerate(est)]
        if not neg and k == 0:
            est = [e if bool(e >= 0) else 0.0 for e in est]
    for i in range(ny * nx):
        c.check_eq(out.reshape(-1)[i], est[i] + (keep.reshape(-1)[i] - S[i]), "the noise is put back unchanged")
    c.check_eq_all(img, keep, "input image unchanged")


def added_bounce(c):
    """pixel bounce responds to the image with CTI added and is subtracted from it"""
    L, cpp = load(c)
    c.always_uf = ("exp", "cos")
    cti, pb = L.module("cti"), L.module("pixel_bounce")
    ny, nx = 2, 3
    img = image(c, ny, nx)
    kw, w = model(c, L, "parallel", "i", 0, 1)
    win = c.icfg("win")
    for k in ("window_start", "window_stop"):
        kw["parallel_" + k] = (0 if k.endswith("start") else -1) if not win else (0 if k.endswith("start") else 1)
    ks = dict(serial_window_start=1 if win else 0, serial_window_stop=3 if win else -1)
    b = [pb.PixelBounce(kA=c.real("kA%d" % i, -1, 1), kv=c.real("kv%d" % i, -1, 1), gamma=0.5 + i, omega=0.25) for i in range(2)]
    out = cti.add_cti(img, verbosity=0, pixel_bounce_list=b, **kw, **ks)
    c.reach("called")
    call = cpp.calls[0]
    a = c.np.array(np.array(call["out"], dtype=object if c.symbolic else float).reshape(ny, nx), dtype=c.np.double)
    want = pb.add_pixel_bounce(a, b, parallel_window_start=kw["parallel_window_start"], parallel_window_stop=kw["parallel_window_stop"], **ks)
    c.check_eq_all(out, want, "pixel bounce acts on the image with CTI added")


def refuse(c):
    """unknown kinds of traps are refused rather than dropped"""
    L, cpp = load(c)
    cti, t = L.module("cti"), L.module("traps")
    kw, w = model(c, L, "parallel", "i", 0, 1)
    class Other(t.TrapInstantCapture):
        pass
    bad = [Other(1.0, 1.0), object(), t.AbstractTrap(1.0, 1.0)][c.choose("bad", 3)]
    kw["parallel_traps"] = list(kw["parallel_traps"])
    kw["parallel_traps"].insert(c.choose("where", 2), bad)
    try:
        cti.add_cti(image(c, 2, 2), verbosity=0, **kw)
        ok = True
    except Exception:
        ok = False
    c.reach("called")
    if ok:
        n = sum(cpp.calls[0]["parallel_n_traps_" + k] for k in ("ic", "sc", "ic_co", "sc_co"))
        c.check(n == 2, "no trap is dropped silently")


def poisson(c):
    """a random realisation changes nothing but the density, which stays a whole number of traps"""
    L, _ = load(c)
    t = L.module("traps")
    n = c.real("drawn", 0, 100)
    seen = []
    class Rnd:
        @staticmethod
        def seed(s): seen.append(("seed", s))
        @staticmethod
        def randint(*a, **k): return 5
        @staticmethod
        def poisson(lam, *a):
            seen.append(("lam", lam)); return n
    m = t
    class NP:
        def __getattr__(self, k):
            return Rnd if k == "random" else getattr(c.np, k)
    m.np = NP()
    src, p = trap(c, L, "i", 0)
    pix = c.real("pixels", 1, 1000)
    r = src.poisson_density_from(pix, seed=3)
    c.reach("drawn")
    c.check_eq(r.density * pix, n, "the density is that of the traps drawn")
    c.check_eq([x for k, x in seen if k == "lam"][0], p[0] * pix, "as many traps as declared are expected")
    c.check_eq(r.release_timescale, p[1], "a random realisation keeps the other parameters")
    c.check_eq(r.fractional_volume_none_exposed, p[2], "a random realisation keeps the other parameters")
    c.check_eq(r.fractional_volume_full_exposed, p[3], "a random realisation keeps the other parameters")
    c.check_eq(src.density, p[0], "the original is unchanged")


def volume(c):
    """the Python copy of the well model agrees with the declared power law"""
    L, _ = load(c)
    cc = L.module("ccd")
    full, notch = c.real("full", 1, 1e5), c.real("notch", 0, 1e5)
    c.assume(notch < full)
    power, first, n = c.real("power", 0.1, 3), c.real("first", 0, 0.9), c.real("n", -1e5, 1e6)
    ph = cc.CCDPhase(full_well_depth=full, well_notch_depth=notch, well_fill_power=power, first_electron_fill=first)
    v = ph.volume(n)
    c.reach("volume")
    if bool(n <= notch):
        c.check_eq(v, first, "up to the notch a cloud occupies the first-electron volume")
    elif bool(n >= full):
        c.check_eq(v, 1.0, "a full well fills the pixel")
    else:
        x = (n - notch) / (full - notch)
        c.check_eq(v, first + (1 - first) * c.uf("pow", x, power), "between them the declared power law")
    ph2 = cc.CCD(full_well_depth=full, well_notch_depth=notch, well_fill_power=power, first_electron_fill=first).phases[0]
    c.check_eq(ph2.volume(n), v, "the abbreviated CCD is the same well")


def hst(c):
    """the preset for the Hubble Space Telescope, for every date"""
    L, _ = load(c)
    cti = L.module("cti")
    launch, tchange, sm4 = 2452334.5, 2453920.0, 2454968.0
    date = c.real("date", 2440000, 2500000)
    try:
        pr, pc, pt, sr, sc, st = cti.CTI_model_for_HST_ACS(date)
        ok = True
    except AssertionError:
        ok = False
    c.reach("preset" if ok else "refused")
    if not ok:
        c.check(bool(date < launch), "dates after the launch are accepted")
        return
    c.check_le(launch, date, "dates before the launch are refused")
    age = date - launch
    if bool(date < sm4):
        total = 0.017845 + 3.5488e-4 * age
    else:
        total = 1.011 * (-0.246591 + 0.000558980 * age)
    cool = bool(date >= tchange)
    c.check(len(pt) == 3, "three species")
    for t, f, r in zip(pt, (0.17, 0.45, 0.38), (0.74, 7.70, 37.0) if cool else (0.48, 4.86, 20.6)):
        c.check_eq(t.density, f * total, "the traps of each species grow linearly with time in fixed proportions")
        c.check_le(0, t.density, "densities are not negative")
        c.check_eq(t.release_timescale, r, "release times follow the temperature of the detectors")
    c.check(st is None, "there is no serial CTI")
    c.check_eq_all(pc.full_well_depths, [84700.0], "one phase with the well of the detector")
    c.check_eq_all(pc.well_fill_powers, [0.478], "one phase with the well of the detector")
    c.check_eq_all(pc.well_notch_depths, [0.0], "one phase with the well of the detector")
    c.check(pr.type == 0 and pr.overscan_start == 2048 and sr.prescan_length == 24, "readout of the detector")


def defaults(c):
    """what is left out has its documented default, and what is given is kept"""
    L, cpp = load(c)
    cti, r, cc, t = (L.module(k) for k in ("cti", "roe", "ccd", "traps"))
    kind = c.choose("kind", 3)
    base = dict(dwell_times=[1.0], prescan_offset=0, overscan_start=-1, empty_traps_between_columns=True, empty_traps_for_first_transfers=False,
                force_release_away_from_readout=True, use_integer_express_matrix=False)
    extra = {"prescan_length": 0, "pixel_bounce_kA": 0.0, "pixel_bounce_kv": 0.0, "pixel_bounce_omega": 1.0, "pixel_bounce_gamma": 1.0, "read_noise": 0.0}
    cls = [r.ROE, r.ROEChargeInjection, r.ROETrapPumping][kind]
    if kind == 2: base["dwell_times"] = [0.5, 0.5]
    roe = cls()
    c.reach("called")
    for k, v in extra.items():
        c.check_eq(getattr(roe, k), v, "default of " + k)
    if kind == 2: c.check_eq(roe.n_pumps, 1, "default of n_pumps")
    given = {k: c.real("roe_" + k) for k in extra}
    roe2 = cls(**given)
    for k, v in given.items():
        c.check_eq(getattr(roe2, k), v, "kept as given: " + k)
    if kind == 0:
        inj = r.ROEChargeInjection.from_normal_roe(roe2, 7)
        for k, v in given.items():
            c.check_eq(getattr(inj, k), v, "kept by the conversion to charge injection: " + k)
    traps = [t.TrapSlowCaptureContinuum(), t.TrapInstantCaptureContinuum(), t.TrapSlowCapture(), t.TrapInstantCapture()]
    img = image(c, 2, 2)
    side = ("parallel", "serial")[c.choose("side", 2)]
    w = c.choose("ccd", 3)
    keep = c.real("full", 1, 1e5) if w else 1e4
    ccd = [lambda: cc.CCD(), lambda: cc.CCD(full_well_depth=keep), lambda: cc.CCD(phases=[cc.CCDPhase(full_well_depth=keep)])][w]()
    fn = c.choose("remove", 2)
    kw = {side + "_roe": roe, side + "_ccd": ccd, side + "_traps": traps}
    out = cti.remove_cti(img, 1, verbosity=0, **kw) if fn else cti.add_cti(img, verbosity=0, **kw)
    call = cpp.calls[0]
    want = dict(base, n_steps=len(base["dwell_times"]), roe_type=kind, n_phases=1, fraction_of_traps_per_phase=[1.0], full_well_depths=[keep], well_notch_depths=[0.0],
                well_fill_powers=[1.0], first_electron_fills=[0.0], trap_densities=[1.0] * 4, trap_release_timescales=[1.0] * 4,
                trap_third_params=[0.0] * 4, trap_fourth_params=[0.0] * 4, n_traps_ic=1, n_traps_sc=1, n_traps_ic_co=1, n_traps_sc_co=1,
                express=0, window_offset=0, window_start=0, window_stop=-1, time_start=0, time_stop=-1, prune_n_electrons=[1e-10], prune_frequency=20)
    if kind == 2: want["n_pumps"] = 1
    for k in ("empty_traps_between_columns", "force_release_away_from_readout"):
        if kind == 2: want.pop(k)
    for k, v in want.items():
        x = call["%s_%s" % (side, k)]
        if isinstance(v, list):
            x = x.read(len(v)) if hasattr(x, "read") else x
            for a, b in zip(x, v):
                c.check_eq(a, b, "default of " + k)
        else:
            c.check_eq(x, v, "default of " + k)
    other = "serial" if side == "parallel" else "parallel"
    for k in ("n_traps_ic", "n_traps_sc", "n_traps_ic_co", "n_traps_sc_co"):
        c.check_eq(call["%s_%s" % (other, k)], 0, "a direction without traps is inert")
    c.check_eq(call["allow_negative_pixels"], 1, "negative pixels are allowed unless said otherwise")
    c.check_eq(call["iteration"], 1 if fn else 0, "iterations are counted from one")
