"""Read noise separation and covariances: /repo/python/arcticpy/read_noise.py"""
from pysym import core, pyx
np = core.real_np


class Cpp:
    """stands for the compiled noise model: any adjustment of any pixel"""
    def __init__(self, c):
        self.c, self.calls, self.base = c, [], 0

    def funcs(self):
        return dict(determine_read_noise_model=self.noise, add_cti=None, print_version=None, version_arctic=None, print_array=None, print_array_2D=None)

    def noise(self, a, b, rows, cols, amp, frac, smooth, out):
        n = rows * cols
        k = len(self.calls) - self.base
        self.calls.append(dict(a=list(a.read(n)), b=list(b.read(n)), rows=rows, cols=cols, amp=amp, frac=frac, smooth=smooth))
        o = out.arr.reshape(-1)
        out.read(n)
        for i in range(n):
            o[i] = self.c.real("adj%d_%d" % (k, i), -50, 50)
        self.calls[-1]["adj"] = [o[i] for i in range(n)]


def load(c):
    cpp = Cpp(c)
    L = core.Loader(c.np, pyx.load(c.np, cpp.funcs()))
    return L.module("read_noise"), cpp


def image(c, ny, nx, lo=-100, hi=1000):
    a = c.array("p", (ny, nx), lo, hi)
    layout = c.icfg("layout")
    if layout == 1:
        a = np.asfortranarray(a).view(type(a))
    if layout == 2:
        b = np.empty((2 * ny, 2 * nx), dtype=a.dtype).view(type(a)); b[...] = 0
        b[::2, ::2] = a; a = b[::2, ::2]
    return a


def split(c):
    """the smooth and the noise image always add up to the image, whatever the noise model says"""
    c.loose_sqrt = True
    m, cpp = load(c)
    ny, nx = c.icfg("ny", 1), c.icfg("nx", 2)
    img = image(c, ny, nx, -1000, 1000)
    c.assume(img[0, 0] >= 1)   # at least one pixel that counts towards the rms
    keep = img.copy()
    sigma = c.real("sigma", 0.5, 20)
    scale = c.real("ampscale", 0.01, 1)
    out = c.real("outscale", 0.1, 2)
    smooth = c.icfg("smooth", 1)
    rn = m.ReadNoise(sigma_readnoise=sigma, amplitude_scale=scale, noise_model_scaling=out, n_iter=c.icfg("iter", 1), serial=bool(smooth))
    S, R = rn.generate_SR_frames_from_image(img)
    c.reach("split")
    c.check_eq_all(S + R, keep, "smooth and noise images add up to the image")
    c.check_eq_all(img, keep, "input image unchanged")
    for k, call in enumerate(cpp.calls):
        c.check(call["rows"] == ny and call["cols"] == nx, "the shape reaches the noise model")
        c.check_eq(call["amp"], sigma, "the amplitude reaches the noise model")
        c.check_eq(call["frac"], scale, "the clipping fraction reaches the noise model")
        c.check(bool(call["smooth"]) == bool(smooth), "the serial option reaches the noise model")
        for i in range(ny * nx):
            c.check_eq(call["a"][i], keep[i // nx, i % nx], "the pixels of the image reach the noise model in place")
            if k == 0:
                c.check_eq(call["b"][i], keep[i // nx, i % nx], "the smooth image starts as the image itself")
    if c.icfg("steps", 1):
        est, rms, shrink = [keep[i // nx, i % nx] for i in range(ny * nx)], 0.0, 1
        first, done = list(est), False
        for k, call in enumerate(cpp.calls):
            c.check(not done, "the iterations end when the noise has the declared amplitude")
            for i in range(ny * nx):
                c.check_eq(call["b"][i], est[i], "each iteration starts from the smooth image so far")
            up = bool(sigma - rms > 0)
            est = [e + a * out / shrink if up else e - a * out / shrink for e, a in zip(est, call["adj"])]
            before = sigma - rms
            sq, n = 0.0, 0
            for a, e in zip(first, est):
                if bool(a > 0.1) or bool(e > 0.1):
                    sq, n = sq + (a - e) * (a - e), n + 1
            rms = c.np.sqrt(sq / n)
            after = sigma - rms
            if bool(after * before < 0):
                shrink += 1
            done = bool(abs(after) < 0.0001)
        c.check(done or len(cpp.calls) == c.icfg("iter", 1), "the iterations end when the noise has the declared amplitude, or when there were enough")
        for i in range(ny * nx):
            c.check_eq(S[i // nx, i % nx], est[i], "noise is moved until it has the declared amplitude")
    if c.icfg("frac", 1):
        f = c.real("fraction", -1, 2)
        cpp.base = len(cpp.calls)
        if c.icfg("stored"):
            rn.SRfrac_optimised = f
            S2, R2 = rn.generate_SR_frames_from_image(img)
        else:
            rn.SRfrac_optimised = 17.0
            S2, R2 = rn.generate_SR_frames_from_image(img, sr_fraction=f)
        c.check_eq_all(S2 + R2, keep, "smooth and noise images add up to the image")
        c.check_eq_all(R2, f * R, "a fraction separates that fraction of the noise")
        c.check_eq_all(img, keep, "input image unchanged")


def nosplit(c):
    """images without noise to remove stay as they are"""
    c.loose_sqrt = True
    m, cpp = load(c)
    img = image(c, 1, 2, -1000, 1000)
    c.assume(img[0, 0] >= 1)
    rn = m.ReadNoise(sigma_readnoise=c.real("sigma", 0, 20), n_iter=1)
    S, R = rn.generate_SR_frames_from_image(img, sr_fraction=0)
    c.reach("split")
    c.check_eq_all(S, img, "no fraction, no separation")
    for r in R.reshape(-1):
        c.check_eq(r, 0, "no fraction, no separation")


def sigma(c):
    """the amplitude of the noise cannot be negative"""
    m, cpp = load(c)
    rn = m.ReadNoise()
    v = c.real("v", -10, 10)
    rn.sigma = v
    c.reach("set")
    c.check_eq(rn.sigma, v if bool(v >= 0) else 0.0, "a negative amplitude counts as none")


# ------------------------------------------------------------------ covariance matrices
def matrix(c, m, ny, nx):
    v = c.array("m", (ny, nx), -100, 100)
    return m.CovarianceMatrix(matrix_size=(ny, nx), values=v), v


def merits(c):
    """figures of merit are the sums over the cells they name, without the variance itself"""
    m, _ = load(c)
    ny, nx = c.icfg("ny", 3), c.icfg("nx", 3)
    M, v = matrix(c, m, ny, nx)
    cy, cx = ny // 2, nx // 2
    c.check(tuple(M.middle) == (cy, cx), "the variance is in the middle")
    c.check_eq(M.autocorrelation, v[cy, cx], "the variance is in the middle")
    cells = [(i, j) for i in range(ny) for j in range(nx) if (i, j) != (cy, cx)]
    sets = {"column": [x for x in cells if x[1] == cx], "row": [x for x in cells if x[0] == cy], "box": cells,
            "ring": [x for x in cells if abs(x[0] - cy) <= 1 and abs(x[1] - cx) <= 1]}
    c.reach("merits")
    for k, s in sets.items():
        tot = 0.0
        for x in s:
            tot = tot + v[x]
        c.check_eq(getattr(M, k), tot, "figure of merit " + k)
    if c.icfg("abs", 1):
        for x in cells:
            c.branch_sign = bool(v[x] >= 0)
        c.assume(v[cy, cx] >= 0)   # a variance
        for k, s in sets.items():
            tot = 0.0
            for x in s:
                tot = tot + abs(v[x])
            c.check_eq(getattr(M, k + "abs"), tot, "figure of merit " + k + "abs")


def covariance(c):
    """cell (i, j) is the mean product of the deviations of pixels i rows and j columns apart"""
    m, _ = load(c)
    ny, nx, my, mx = c.icfg("ny", 5), c.icfg("nx", 5), c.icfg("my", 3), c.icfg("mx", 3)
    border = [int(x) for x in c.scfg("border", "0000")]
    img = c.array("p", (ny, nx), -100, 100)
    keep = img.copy()
    M = m.CovarianceMatrix().from_image(img, matrix_size=(my, mx), border=border)
    c.reach("covariance")
    c.check(M.shape == (my, mx), "size of the matrix")
    c.check_eq_all(img, keep, "input image unchanged")
    cy, cx = my // 2, mx // 2
    # the code takes border rows and columns off (bottom, left, top, right) plus one at the top and right
    y0, y1, x0, x1 = border[0], ny - border[2] - 1, border[1], nx - border[3] - 1
    ry, rx = max(cy, 1), max(cx, 1)
    ys, xs = range(y0 + ry, y1 - ry), range(x0 + rx, x1 - rx)
    n = len(ys) * len(xs)
    def mean(dy, dx):
        t = 0.0
        for y in ys:
            for x in xs:
                t = t + keep[y + dy, x + dx]
        return t / n
    m0 = mean(0, 0)
    for i in range(-cy, cy + 1):
        for j in range(-cx, cx + 1):
            mm = mean(i, j)
            t = 0.0
            for y in ys:
                for x in xs:
                    t = t + (keep[y, x] - m0) * (keep[y + i, x + j] - mm)
            c.check_eq(M[cy + i, cx + j], t / n, "covariance of pixels that far apart")
    c.obs("v", M[cy, cx])


def flatimage(c):
    """pixels that do not vary do not covary, and a constant added changes nothing"""
    m, _ = load(c)
    ny, nx, my, mx = c.icfg("ny", 5), c.icfg("nx", 5), c.icfg("my", 3), c.icfg("mx", 3)
    img = c.array("p", (ny, nx), -100, 100)
    s, a = c.real("s", -100, 100), c.real("a", -10, 10)
    kw = dict(matrix_size=(my, mx), border=[0, 0, 0, 0])
    M = m.CovarianceMatrix().from_image(img, **kw)
    M2 = m.CovarianceMatrix().from_image(img + s, **kw)
    M3 = m.CovarianceMatrix().from_image(img * a, **kw)
    M0 = m.CovarianceMatrix().from_image(img * 0 + s, **kw)
    c.reach("covariance")
    c.check_eq_all(M2, M, "a constant does not change covariances")
    c.check_eq_all(M3, a * a * M, "covariances scale with the square of the pixels")
    for x in np.asarray(M0).reshape(-1):
        c.check_eq(x, 0, "a flat image has no covariance")
    c.check_le(0, M[my // 2, mx // 2], "a variance is not negative")
