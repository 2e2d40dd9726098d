"""pixel bounce: /repo/python/arcticpy/pixel_bounce.py"""
import types
from pysym import core


def setup(c, wrapper=None):
    c.always_uf = ("exp", "cos")
    L = core.Loader(c.np, wrapper or types.ModuleType("wrapper"))
    return L.module("pixel_bounce")


def bouncer(c, m, k=""):
    kA, kv = c.real("kA" + k, -2, 2), c.real("kv" + k, -2, 2)
    gamma, omega = c.real("gamma" + k, 0, 3), c.real("omega" + k, 0, 3)
    return m.PixelBounce(kA=kA, kv=kv, gamma=gamma, omega=omega)


def coeffs(c, b):
    A = 2 * c.uf("exp", -1 * b.gamma) * c.uf("cos", b.omega * 1)
    B = c.uf("exp", -2 * b.gamma)
    return A, B


def ref_bias(c, b, row, x0, x1):
    """every step of the signal sets off a damped harmonic oscillation (Cieslinski & Ratkiewicz 2005, eqn 43) of
    initial amplitude kA and velocity kv, and the oscillations add up"""
    A, B = coeffs(c, b)
    h = [b.kA - 2 * b.kv, b.kA - b.kv]
    for _ in row:
        h.append(A * h[-1] - B * h[-2])
    h = h[2:]
    out = [0.0] * len(row)
    for i in range(x0 + 1, x1):
        for j in range(x0 + 1, i + 1):
            out[i] = out[i] + (row[j] - row[j - 1]) * h[i - j]
    return out


def shape(c):
    return c.icfg("ny", 2), c.icfg("nx", 4)


def window(c, ny, nx):
    if not c.icfg("win"):
        return {}, 0, ny, 0, nx
    y0 = c.choose("y0", ny); y1 = y0 + 1 + c.choose("dy", ny - y0)
    x0 = c.choose("x0", nx); x1 = x0 + 1 + c.choose("dx", nx - x0)
    kw = dict(parallel_window_start=y0, parallel_window_stop=y1, serial_window_start=x0, serial_window_stop=x1)
    if y1 == ny and c.choose("ydef", 2):
        kw["parallel_window_stop"] = -1
    if x1 == nx and c.choose("xdef", 2):
        kw["serial_window_stop"] = -1
    return kw, y0, y1, x0, x1


def reference(c):
    """adding pixel bounce subtracts the oscillator's response, inside the window only; the input is not changed"""
    m = setup(c)
    ny, nx = shape(c)
    b = bouncer(c, m)
    img = c.array("p", (ny, nx), -1000, 1000)
    if c.icfg("order"):
        img = c.np.array(img, order="F") if not c.symbolic else core.real_np.asfortranarray(img).view(core.Arr)
    keep = img.copy()
    kw, y0, y1, x0, x1 = window(c, ny, nx)
    out = b.add_pixel_bounce(img, **kw)
    c.reach("bounced")
    for y in range(ny):
        r = ref_bias(c, b, list(keep[y]), x0, x1) if y0 <= y < y1 else [0.0] * nx
        for x in range(nx):
            c.check_eq(out[y, x], keep[y, x] - r[x], "each row follows the damped oscillator, inside the window only")
            if not (y0 <= y < y1 and x0 <= x < x1):
                c.check_eq(out[y, x], keep[y, x], "pixels outside the window are untouched")
            c.obs("o%d_%d" % (y, x), out[y, x])
    c.check_eq_all(img, keep, "input image unchanged")
    c.check_eq_all(b.perturb_bias(img, **kw), keep - out, "the bias is what the image loses")
    if not c.icfg("win"):
        c.check_eq_all(b.add_pixel_bounce_slow(img), out, "the row-by-row version gives the same")
        c.check_eq_all(img, keep, "input image unchanged")


def flat(c):
    """no bounce where the signal does not change, or without coupling"""
    m = setup(c)
    ny, nx = shape(c)
    b = bouncer(c, m)
    if c.icfg("coupled", 1):
        r = c.array("r", (ny, 1), -1000, 1000)
        img = r * c.np.ones((ny, nx))
    else:
        img = c.array("p", (ny, nx), -1000, 1000)
        b.kA = b.kv = 0
    out = b.add_pixel_bounce(img)
    c.reach("bounced")
    c.check_eq_all(out, img, "without changes of the signal, or without coupling, nothing bounces")


def linear(c):
    """the response to a sum of images is the sum of the responses"""
    m = setup(c)
    ny, nx = shape(c)
    b = bouncer(c, m)
    s = c.real("s", -5, 5)
    p, q = c.array("p", (ny, nx), -1000, 1000), c.array("q", (ny, nx), -1000, 1000)
    out = b.add_pixel_bounce(s * p + q)
    c.reach("bounced")
    c.check_eq_all(out, s * b.add_pixel_bounce(p) + b.add_pixel_bounce(q), "response is linear in the image")


def lists(c):
    """several bounces add up, in any order, each responding to the image itself"""
    m = setup(c)
    ny, nx = shape(c)
    b1, b2 = bouncer(c, m, "1"), bouncer(c, m, "2")
    img = c.array("p", (ny, nx), -1000, 1000)
    keep = img.copy()
    kw, y0, y1, x0, x1 = window(c, ny, nx)
    out = m.add_pixel_bounce(img, [b1, b2], **kw)
    c.reach("bounced")
    c.check_eq_all(out, b1.add_pixel_bounce(img, **kw) + b2.add_pixel_bounce(img, **kw) - img, "several bounces add up")
    c.check_eq_all(m.add_pixel_bounce(img, [b2, b1], **kw), out, "the order of the bounces does not matter")
    c.check_eq_all(m.add_pixel_bounce(img, [b1], **kw), b1.add_pixel_bounce(img, **kw), "a list of one is that bounce")
    c.check_eq_all(img, keep, "input image unchanged")


def inverse(c):
    """one more iteration turns the error of the removal into the bounce of that error; the first column is exact"""
    m = setup(c)
    ny, nx = shape(c)
    kw, y0, y1, x0, x1 = window(c, ny, nx)
    two = c.icfg("list")
    bl = [bouncer(c, m)] + ([bouncer(c, m, "2")] if two == 2 else [])
    img = c.array("p", (ny, nx), -1000, 1000)
    dirty = m.add_pixel_bounce(img, bl, **kw)
    keep = dirty.copy()
    n = c.icfg("iter", 1)
    rem = (lambda k: m.remove_pixel_bounce(dirty, k, bl, verbosity=0, **kw)) if two else (lambda k: bl[0].remove_pixel_bounce(dirty, k, verbosity=0, **kw))
    err = img - dirty
    for k in range(n):
        err = err - m.add_pixel_bounce(err, bl, **kw)
    clean = rem(n)
    c.reach("removed")
    for y in range(ny):
        for x in range(nx):
            c.check_eq(img[y, x] - clean[y, x], err[y, x], "each iteration replaces the error by the bounce of the error")
            if x == x0 or x >= x1 or x < x0 or not y0 <= y < y1:
                c.check_eq(clean[y, x], img[y, x], "pixels that cannot bounce are exact")
    c.check_eq_all(dirty, keep, "input image unchanged")
    c.check_eq_all(rem(0), dirty, "no iterations, no correction")


def refuse(c):
    """negative damping or frequency is refused, and nothing else"""
    m = setup(c)
    g, o = c.real("gamma", -3, 3), c.real("omega", -3, 3)
    try:
        m.PixelBounce(kA=1.0, kv=0.0, gamma=g, omega=o)
        ok = True
    except Exception:
        ok = False
    c.reach("constructed")
    if ok:
        c.check_le(0, g, "negative damping is refused"); c.check_le(0, o, "negative frequency is refused")
    else:
        c.check(bool(g < 0) or bool(o < 0), "sensible oscillators are accepted")


def omega0(c):
    """the natural frequency satisfies omega0^2 = omega^2 + gamma^2"""
    m = setup(c)
    b = bouncer(c, m)
    w = b.omega0
    c.reach("frequency")
    c.check_eq(w * w, b.omega * b.omega + b.gamma * b.gamma, "natural frequency")
    c.check_le(0, w, "natural frequency is not negative")
