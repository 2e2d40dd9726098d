"""Symbolic execution of Python (numpy) code.

The functions of /repo's Python package are executed as they are, on numpy arrays of
objects whose elements are z3 terms over the reals.  A branch on a symbolic condition
asks the solver which outcomes are possible and explores every one of them (depth-first,
by running the harness again with the decisions of the path so far).  The same harness
run with plain floating-point numbers replays a counterexample.
"""
import functools, builtins, importlib.util, json, math, os, sys, time, types
from fractions import Fraction
import numpy as real_np

REPO = os.environ.get("VERIF_REPO", "/repo")
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
z3 = None


def load_z3():
    global z3
    if z3 is None:
        s = importlib.util.spec_from_file_location("z3", Z3DIR + "/__init__.py", submodule_search_locations=[Z3DIR])
        m = importlib.util.module_from_spec(s)
        sys.modules["z3"] = m
        s.loader.exec_module(m)
        z3 = m
    return z3


class Killed(Exception):
    """the path is infeasible or outside the assumptions"""


class Stop(Exception):
    """out of time"""


# ---------------------------------------------------------------- terms
def lift(x):
    if isinstance(x, real_np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, real_np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, real_np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, real_np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return None
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    return NotImplemented


def val(t):
    """python number of a numeral term"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class Sym:
    """a real number known as a term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, swap=False):
        if isinstance(o, real_np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is NotImplemented:
            return NotImplemented
        if b is None:
            CTX.note_concrete("arithmetic with an infinite or invalid number")
            return float("nan")
        return Sym(z3.simplify(f(b, self.t) if swap else f(self.t, b), som=False))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        d = Sym(b) if not isinstance(b, Sym) else b
        n = Sym(a) if not isinstance(a, Sym) else a
        if bool(d == 0):                       # as numpy does: 0/0 is not a number, x/0 infinite
            if bool(n == 0):
                return float("nan")
            return float("inf") if bool(n > 0) else float("-inf")
        return Sym(z3.simplify(n.t / d.t))

    def __truediv__(self, o):
        b = lift(o)
        if b is NotImplemented:
            return NotImplemented
        return Sym(z3.RealVal(0)) if b is None else Sym._div(self.t, b)

    def __rtruediv__(self, o):
        b = lift(o)
        return NotImplemented if b is NotImplemented else Sym._div(b, self.t)

    def __neg__(self): return Sym(z3.simplify(-self.t))
    def __pos__(self): return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __pow__(self, o):
        if isinstance(o, real_np.ndarray):
            return NotImplemented
        if isinstance(o, (int, float, real_np.number)) and float(o).is_integer() and 0 <= float(o) <= 8:
            r = Sym(z3.RealVal(1))
            for _ in range(int(o)):
                r = r * self
            return r
        return CTX.uf("pow", self, o)

    def __rpow__(self, o):
        return CTX.uf("pow", Sym(lift(o)), self)

    def exp(self): return CTX.uf("exp", self)
    def log(self): return CTX.uf("log", self)
    def log10(self): return CTX.uf("log10", self)
    def cos(self): return CTX.uf("cos", self)
    def arctan(self): return CTX.uf("arctan", self)
    def sqrt(self): return CTX.sqrt(self)
    def conjugate(self): return self
    def copy(self): return self

    def _cmp(self, o, f, special):
        if isinstance(o, real_np.ndarray):
            return NotImplemented
        if o is None:
            return special == "ne"
        b = lift(o)
        if b is NotImplemented:
            return NotImplemented
        if b is None:
            o = float(o)
            if o != o:
                return special == "ne"
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[special]
        return SymBool(z3.simplify(f(self.t, b)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, "lt")
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, "le")
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, "gt")
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, "ge")
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, "eq")
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, "ne")
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        v = val(z3.simplify(self.t))
        if v is not None:
            return float(v)
        raise TypeError("symbolic value converted to a concrete float")

    def __int__(self):
        v = val(z3.simplify(self.t))
        if v is not None:
            return int(v)
        raise TypeError("symbolic value converted to a concrete integer")

    def __repr__(self):
        return "<%s>" % str(self.t)[:60]

    def __format__(self, f):
        return "?"


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o): return SymBool(z3.And(self.t, as_bool(o)))
    def __or__(self, o): return SymBool(z3.Or(self.t, as_bool(o)))
    def __invert__(self): return SymBool(z3.Not(self.t))
    def __abs__(self): return bool(self)


def as_bool(o):
    if isinstance(o, SymBool):
        return o.t
    return z3.BoolVal(bool(o))


# ---------------------------------------------------------------- arrays
class Arr(real_np.ndarray):
    """array of objects (numbers or terms) standing for an array of doubles"""

    def astype(self, dtype, *a, **k):
        if is_float(dtype):
            return self.copy()
        return real_np.ndarray.astype(self, dtype, *a, **k)


class IArr(real_np.ndarray):
    """array of integers; converted to floating point it becomes an Arr"""

    def astype(self, dtype, *a, **k):
        if is_float(dtype):
            return obj(self)
        return real_np.ndarray.astype(self, dtype, *a, **k)


def is_float(dtype):
    try:
        return real_np.issubdtype(real_np.dtype(dtype), real_np.floating)
    except TypeError:
        return False


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def obj(a):
    a = real_np.array(a, dtype=object) if not isinstance(a, real_np.ndarray) else a.astype(object)
    return a.view(Arr)


class NumpyProxy(types.ModuleType):
    """numpy, except that arrays of floating-point numbers hold objects"""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, k):
        return getattr(real_np, k)

    @staticmethod
    def _mk(f):
        def g(*a, **k):
            dt = k.get("dtype", None)
            r = f(*a, **k)
            return obj(r) if isinstance(r, real_np.ndarray) and is_float(r.dtype) else r
        return g

    def zeros(self, *a, **k): return self._mk(real_np.zeros)(*a, **k)
    def ones(self, *a, **k): return self._mk(real_np.ones)(*a, **k)
    def empty(self, *a, **k): return self._mk(real_np.zeros)(*a, **k)

    def full(self, shape, v, dtype=None):
        if dtype is None and isinstance(v, (bool, int, real_np.integer)) or dtype is not None and not is_float(dtype):
            return real_np.full(shape, v, dtype)
        r = real_np.empty(shape, dtype=object); r[...] = v
        return r.view(Arr)

    def _like(self, f, x, dtype):
        if dtype is not None and not is_float(dtype):
            return f(x, dtype=dtype)
        order = "F" if isinstance(x, real_np.ndarray) and x.flags["F_CONTIGUOUS"] and not x.flags["C_CONTIGUOUS"] else "C"
        return obj(f(real_np.empty(real_np.shape(x), order=order), dtype=float))

    def zeros_like(self, x, dtype=None, **k): return self._like(real_np.zeros_like, x, dtype)
    def ones_like(self, x, dtype=None, **k): return self._like(real_np.ones_like, x, dtype)
    def empty_like(self, x, dtype=None, **k): return self._like(real_np.zeros_like, x, dtype)

    def array(self, x, dtype=None, **k):
        if dtype is not None and is_float(dtype) or dtype is None and has_sym(x):
            return obj(real_np.array(x, dtype=object, **k))
        return real_np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, real_np.ndarray) and (dtype is None or x.dtype == object):
            return x
        return self.array(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None):
        r = real_np.ascontiguousarray(x)
        return r.view(type(x)) if isinstance(x, Arr) else r

    def copy(self, x, order="K", **k):
        r = real_np.array(x, order=order, copy=True)
        return r.view(Arr) if r.dtype == object else r.view(IArr) if r.dtype.kind in "iub" else obj(r)

    def std(self, x, axis=None):
        if not has_sym(x):
            return real_np.std(real_np.asarray(x, dtype=float), axis=axis)
        m = real_np.mean(x, axis=axis, keepdims=True)
        v = real_np.mean((x - m) ** 2, axis=axis)
        return self.sqrt(v)

    def median(self, x, axis=None):
        if axis is not None or not has_sym(x):
            return real_np.median(real_np.asarray(x, dtype=float), axis=axis)
        v = sorted(real_np.asarray(x).reshape(-1), key=functools.cmp_to_key(lambda a, b: -1 if bool(a < b) else 1 if bool(b < a) else 0))
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2

    def isnan(self, x):
        return real_np.vectorize(lambda v: (not isinstance(v, Sym)) and v != v, otypes=[bool])(x)

    def clip(self, x, lo, hi):
        def one(v):
            if not has_sym(v) and not has_sym(lo) and not has_sym(hi):
                return real_np.clip(v, lo, hi)
            if bool(v < lo):
                return lo
            return hi if bool(v > hi) else v
        if isinstance(x, real_np.ndarray):
            r = real_np.empty(x.shape, dtype=object)
            for i in real_np.ndindex(x.shape):
                r[i] = one(x[i])
            return r.view(Arr)
        return one(x)


for _n in ("exp", "log", "log10", "cos", "arctan", "sqrt"):
    def _mkf(n):
        def g(self, x):
            if isinstance(x, Sym):
                return getattr(x, n)()
            if isinstance(x, real_np.ndarray) and x.dtype == object:
                r = real_np.empty(x.shape, dtype=object)
                for i in real_np.ndindex(x.shape):
                    r[i] = getattr(x[i], n)() if isinstance(x[i], Sym) else getattr(real_np, n)(float(x[i]))
                return r.view(Arr)
            if n in CTX.always_uf and not isinstance(x, real_np.ndarray):
                return getattr(Sym(lift(x)), n)()
            return getattr(real_np, n)(x)
        return g
    setattr(NumpyProxy, _n, _mkf(_n))


# ---------------------------------------------------------------- loading the code under test
class Loader:
    """loads modules of /repo's Python package afresh, with numpy and the compiled wrapper replaced"""

    def __init__(self, np, wrapper, extra=None):
        self.np, self.wrapper, self.mods = np, wrapper, {}
        self.extra = extra or {}

    def imp(self, name, glb=None, loc=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in self.extra:
            return self.extra[name]
        if top == "numpy":
            return self.np
        if top == "matplotlib":
            m = types.ModuleType("matplotlib"); m.pyplot = types.ModuleType("pyplot")
            return m.pyplot if fromlist else m
        if top == "scipy":
            m = types.ModuleType("scipy.optimize"); m.curve_fit = None
            return m
        if level and glb is not None:
            name = "arcticpy" + ("." + name if name else "")
            top = "arcticpy"
        if name in ("arcticpy.wrapper", "wrapper"):
            return self.wrapper
        if top == "arcticpy":
            if name == "arcticpy":
                pkg = types.ModuleType("arcticpy")
                pkg.wrapper = self.wrapper
                loader = self
                class Lazy(types.ModuleType):
                    def __getattr__(s, k):
                        for sub in ("cti", "ccd", "roe", "traps", "pixel_bounce", "read_noise", "vv_test"):
                            if k == sub:
                                return loader.module(sub)
                            m = loader.module(sub)
                            if k in m.__dict__ and not k.startswith("_"):
                                return m.__dict__[k]
                        raise AttributeError(k)
                if fromlist and "wrapper" in fromlist:
                    return pkg
                return Lazy("arcticpy")
            return self.module(name.split(".", 1)[1])
        return builtins.__import__(name, glb, loc, fromlist, level)

    def module(self, sub):
        if sub in self.mods:
            return self.mods[sub]
        path = "%s/python/arcticpy/%s.py" % (REPO, sub)
        m = types.ModuleType("arcticpy." + sub)
        m.__file__ = path
        self.mods[sub] = m
        b = dict(builtins.__dict__)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        if not CTX.verbose:
            m.__dict__["print"] = lambda *a, **k: None
        import ast
        tree = Format().visit(ast.parse(open(path, "rb").read(), path))
        ast.fix_missing_locations(tree)
        m.__dict__["_verif_format"] = formatted
        exec(compile(tree, path, "exec"), m.__dict__)
        return m


def formatted(f, args):
    """text % values, where symbolic values print as a question mark"""
    if has_sym(args):
        return "?"
    return f % args


def _formatter():
    import ast

    class F(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                return ast.Call(func=ast.Name(id="_verif_format", ctx=ast.Load()), args=[n.left, n.right], keywords=[])
            return n
    return F()


Format = _formatter


# ---------------------------------------------------------------- exploration
class Base:
    verbose = False
    always_uf = ()
    loose_sqrt = False

    def __init__(self, cfg):
        self.cfg = cfg

    def icfg(self, k, d=0):
        return int(self.cfg.get(k, d))

    def scfg(self, k, d=""):
        return str(self.cfg.get(k, d))

    def array(self, name, shape, lo=None, hi=None):
        r = real_np.empty(shape, dtype=object if self.symbolic else float)
        for i in real_np.ndindex(*shape):
            r[i] = self.real(name + "".join("_%d" % k for k in i), lo, hi)
        return r.view(Arr) if self.symbolic else r

    def check_eq_all(self, a, b, what):
        a, b = real_np.asarray(a), real_np.asarray(b)
        if a.shape != b.shape:
            self.fail("%s: shape %s instead of %s" % (what, a.shape, b.shape))
            return
        for i in real_np.ndindex(a.shape):
            self.check_eq(a[i], b[i], what)


class Symbolic(Base):
    symbolic = True

    def __init__(self, cfg, name, wall, outdir, ntraces, qtimeout=20000):
        super().__init__(cfg)
        load_z3()
        self.harness, self.wall, self.outdir, self.ntraces = name, wall, outdir, ntraces
        self.t0 = time.time()
        self.np = NumpyProxy()
        self.stack = [[]]
        self.qtimeout = qtimeout
        self.n = dict(paths=0, completed=0, killed=0, forks=0, forced=0, queries=0, sat=0, unsat=0, unknown=0, obligations=0,
                      obl_unsat=0, obl_normalised=0, obl_concrete=0, obl_unknown=0)
        self.solver_s = 0.0
        self.reached, self.labels, self.unknown_labels = {}, {}, {}
        self.violations, self.traces, self.notes = [], [], {}
        self.fnames = set()
        self.violated = set()

    # inputs
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self.pc.append(v >= lift(lo))
            if hi is not None:
                self.pc.append(v <= lift(hi))
            self.push(self.pc[self.pushed:])
        return Sym(v)

    def choose(self, name, n):
        """an integer 0..n-1, enumerated as a decision of the path"""
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.add(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if self.branch(v == k):
                return k
        return n - 1

    # solver
    def push(self, cs):
        for c in cs:
            self.solver.add(c)
        self.pushed = len(self.pc)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.pushed = len(self.pc)

    def query(self, *extra):
        left = self.wall - (time.time() - self.t0)
        if left <= 0:
            raise Stop()
        self.solver.set("timeout", int(min(self.qtimeout, left * 1000 + 100)))
        t = time.time()
        self.n["queries"] += 1
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        self.n[str(r)] += 1
        return str(r), m

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[0]
        d = self.decide(c)
        self.known[c.get_id()] = (d, c)
        n = z3.simplify(z3.Not(c))
        self.known[n.get_id()] = (not d, n)
        return d

    def decide(self, c):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(c if d else z3.Not(c))
            return d
        rt, _ = self.query(c)
        rf, _ = self.query(z3.Not(c))
        self.pos += 1
        if rt == "unsat" and rf == "unsat":
            raise Killed()
        if rt != "unsat" and rf != "unsat":
            self.n["forks"] += 1
            self.stack.append(self.taken + [False])
            d = True
        else:
            self.n["forced"] += 1
            d = rt != "unsat"
        self.taken.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def assume(self, c):
        if isinstance(c, SymBool):
            t = z3.simplify(c.t)
            if z3.is_true(t):
                return
            self.add(t)
            r, _ = self.query()
            if r == "unsat":
                raise Killed()
        elif not c:
            raise Killed()

    def uf(self, name, *args):
        ts = []
        for a in args:
            b = lift(a)
            ts.append(b)
        ts = [z3.simplify(t) for t in ts]
        f = z3.Function("f_" + name, *([z3.RealSort()] * (len(ts) + 1)))
        r = f(*ts)
        key = r.get_id()
        if key in self.ufs:
            return Sym(r)
        self.ufs[key] = r
        vs = [val(t) for t in ts]
        if name == "exp":
            self.add(r > 0)
            self.add((r > 1) == (ts[0] > 0)); self.add((r < 1) == (ts[0] < 0))
        elif name == "cos":
            self.add(r <= 1); self.add(r >= -1)
        elif name == "pow":
            x, p = ts
            self.add(z3.Implies(x >= 0, r >= 0))
            self.add(z3.Implies(z3.And(x == 0, p > 0), r == 0)); self.add(z3.Implies(x == 1, r == 1))
            self.add(z3.Implies(z3.And(x > 0, x < 1, p > 0), z3.And(r > 0, r < 1)))
            self.add(z3.Implies(p == 1, r == x))
        return Sym(r)

    def sqrt(self, x):
        v = val(z3.simplify(x.t))
        if v is not None and v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Sym(z3.RealVal("%d/%d" % (n, d)))
        if self.loose_sqrt:     # any number that is not negative (more behaviours than the real ones)
            r = self.uf("sqrt", x)
            self.add(r.t >= 0)
            return r
        if bool(x < 0):
            return float("nan")
        self.nsq += 1
        r = z3.Real("sqrt!%d" % self.nsq)
        self.add(r >= 0)
        self.add(r * r == x.t)
        return Sym(r)

    def bind(self, name, expr):
        """a name for an expression, to keep terms small"""
        if not isinstance(expr, Sym): return expr
        v = z3.Real(name)
        self.add(v == expr.t)
        self.subst.append((v, expr.t))
        return Sym(v)

    def unbind(self, d):
        return z3.simplify(z3.substitute(d, *self.subst), som=True, som_blowup=100000)

    def always_zero(self, x, tol=1e-7):
        """whether a term is zero (to rounding) on this path"""
        if not isinstance(x, Sym): return abs(x) <= tol
        d = self.unbind(x.t) if self.subst else z3.simplify(x.t, som=True)
        v = val(d)
        if v is not None: return abs(v) <= tol
        r, _ = self.query(z3.Or(d > tol, d < -tol))
        return r == "unsat"

    def note_concrete(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    # claims
    def reach(self, what):
        self.reached[what] = self.reached.get(what, 0) + 1

    def fail(self, what):
        self.check(False, what)

    def check_eq(self, a, b, what):
        self.claim(a, b, "eq", what)

    def check_le(self, a, b, what):
        self.claim(a, b, "le", what)

    def claim(self, a, b, op, what):
        a, b = [x.item() if isinstance(x, real_np.ndarray) and x.ndim == 0 else x for x in (a, b)]
        if not has_sym(a) and not has_sym(b):
            a, b = float(a), float(b)
            tol = 1e-9 * (1 + abs(b))
            self.check(abs(a - b) <= tol or a == b if op == "eq" else a <= b + tol, what)
            return
        for v in (a, b):
            if not has_sym(v) and not math.isfinite(float(v)):
                self.check(False, what + ": not a finite number")
                return
        d = z3.simplify(lift(a) - lift(b), som=True, som_blowup=100000)
        v = val(d)
        if v is None and self.subst:
            d = self.unbind(d)
            v = val(d)
        if v is not None:
            ok = v == 0 if op == "eq" else v <= 0
            self.n["obligations"] += 1
            self.labels[what] = self.labels.get(what, 0) + 1
            if ok:
                self.n["obl_normalised"] += 1
                return
            self.violation(what, self.query()[1])
            return
        self.check(SymBool(d == 0 if op == "eq" else d <= 0), what, d, op)

    def check(self, c, what, diff=None, op=None):
        self.n["obligations"] += 1
        self.labels[what] = self.labels.get(what, 0) + 1
        if not isinstance(c, SymBool):
            self.n["obl_concrete"] += 1
            if not c:
                self.violation(what, self.query()[1])
            return
        t = z3.simplify(c.t)
        if z3.is_true(t):
            self.n["obl_normalised"] += 1
            return
        if what in self.violated:
            return
        r, m = "unknown", None
        if diff is not None:  # a difference that shows in floating-point numbers
            r, m = self.query(z3.Or(diff > z3.RealVal("1/1000"), diff < z3.RealVal("-1/1000")) if op == "eq" else diff > z3.RealVal("1/1000"))
        if r != "sat":
            e = z3.RealVal("1/1000000000")  # constants of the code are rounded numbers
            r, m = self.query(z3.Not(t) if diff is None else z3.Or(diff > e, diff < -e) if op == "eq" else diff > e)
        if r == "unsat":
            self.n["obl_unsat"] += 1
        elif r == "sat":
            self.violation(what, m)
        else:
            self.n["obl_unknown"] += 1
            self.unknown_labels[what] = self.unknown_labels.get(what, 0) + 1

    def violation(self, what, m):
        if what in self.violated or m is None and not self.feasible():
            return
        self.violated.add(what)
        f = os.path.join(self.outdir, "v%d.txt" % len(self.violations))
        self.write(f, m)
        self.violations.append({"kind": "assert", "what": what, "detail": "", "file": f})

    def feasible(self):
        return self.query()[0] != "unsat"

    def obs(self, name, v):
        if isinstance(v, real_np.ndarray):
            v = v.item()
        self.observed.append((name, v))

    def value(self, m, t):
        v = m.eval(t, model_completion=True) if m is not None else z3.RealVal(0)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return val(v)

    def write(self, f, m):
        with open(f, "w") as o:
            o.write("harness %s\n" % self.harness)
            for k, v in sorted(self.cfg.items()):
                o.write("cfg %s %s\n" % (k, v))
            for k, t in self.inputs.items():
                v = self.value(m, t)
                o.write("%s %s %s\n" % ("int" if t.sort() == z3.IntSort() else "real", k, "%d" % v if t.sort() == z3.IntSort() else repr(float(v))))

    def trace(self):
        if len(self.traces) >= self.ntraces or self.ufs:
            return
        r, m = self.query()
        if m is None:
            return
        f = os.path.join(self.outdir, "t%d.txt" % len(self.traces))
        vals = []
        for k, v in self.observed:
            if isinstance(v, Sym):
                x = self.value(m, v.t)
                if x is None:
                    return
                vals.append((k, float(x)))
            else:
                vals.append((k, float(v)))
        self.write(f, m)
        with open(f, "a") as o:
            for k, v in vals:
                o.write("obs %s %r\n" % (k, v))
        self.traces.append(f)

    def run(self, fn):
        complete, why = True, ""
        while self.stack:
            if time.time() - self.t0 > self.wall:
                complete, why = False, "wall"
                break
            self.prefix = self.stack.pop()
            self.taken = list(self.prefix)
            self.pos = 0
            self.pc, self.pushed = [], 0
            self.solver = z3.Solver()
            self.inputs, self.ufs, self.observed, self.nsq, self.known, self.subst = {}, {}, [], 0, {}, []
            self.n["paths"] += 1
            try:
                with record(self.fnames) if self.n["paths"] == 1 else nothing():
                    fn(self)
                self.n["completed"] += 1
                self.trace()
            except Killed:
                self.n["killed"] += 1
            except Stop:
                complete, why = False, "wall"
                break
            except RecursionError:
                raise
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                if any(REPO in f.filename for f in tb) or isinstance(e, CodeError):
                    try:
                        self.check(False, "raises %s" % type(e).__name__)
                        self.notes["%s: %s" % (type(e).__name__, str(e)[:200])] = 1
                    except Stop:
                        complete, why = False, "wall"
                        break
                else:
                    raise
        return complete, why

    def result(self, complete, why):
        r = dict(self.n)
        r.update(complete=complete, truncated=why, solver_s=self.solver_s, wall_s=time.time() - self.t0, labels=self.labels,
                 unknown_labels=self.unknown_labels, reached=self.reached, violations=self.violations, traces=self.traces,
                 functions=sorted(self.fnames), notes=self.notes)
        return r


class CodeError(Exception):
    pass


class nothing:
    def __enter__(self): pass
    def __exit__(self, *a): return False


class record(nothing):
    """names of the functions of the repository that are executed"""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = sys.getprofile()
        root = REPO + "/python"
        def prof(frame, ev, arg):
            if ev == "call":
                c = frame.f_code
                if c.co_filename.startswith(root):
                    self.s.add(os.path.basename(c.co_filename) + ":" + c.co_name)
        sys.setprofile(prof)

    def __exit__(self, *a):
        sys.setprofile(self.old)
        return False


class Concrete(Base):
    """the same harness on floating-point numbers"""
    symbolic = False

    def __init__(self, cfg, values):
        super().__init__(cfg)
        self.values = values
        self.np = real_np
        self.out = []

    def real(self, name, lo=None, hi=None):
        return float(self.values.get(name, 0.0))

    def choose(self, name, n):
        return int(self.values.get(name, 0))

    def branch(self, c): return bool(c)
    def bind(self, name, expr): return expr

    def assume(self, c):
        if not c:
            raise Killed()

    def uf(self, name, *a):
        a = [float(x) for x in a]
        return {"exp": math.exp, "log": math.log, "log10": math.log10, "cos": math.cos, "arctan": math.atan, "pow": math.pow, "sqrt": math.sqrt}[name](*a)

    def sqrt(self, x): return math.sqrt(x)
    def note_concrete(self, what): pass
    def reach(self, what): self.out.append("REACH " + what)
    def fail(self, what): self.out.append("FAIL " + what)

    def check(self, c, what, *a):
        if not c:
            self.fail(what)

    def check_eq(self, a, b, what):
        a, b = float(a), float(b)
        if not (a == b or abs(a - b) <= 1e-7 * (1 + max(abs(a), abs(b)))):
            self.fail("%s (%r instead of %r)" % (what, a, b))

    def check_le(self, a, b, what):
        a, b = float(a), float(b)
        if not a <= b + 1e-7 * (1 + max(abs(a), abs(b))):
            self.fail("%s (%r > %r)" % (what, a, b))

    def obs(self, name, v):
        self.out.append("OBS %s %r" % (name, float(v)))

    def run(self, fn):
        try:
            with real_np.errstate(all="ignore"):
                fn(self)
        except Killed:
            self.out.append("KILLED")
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if any(REPO in f.filename for f in tb) or isinstance(e, CodeError):
                self.fail("raises %s: %s" % (type(e).__name__, str(e)[:300]))
            else:
                raise


CTX = Base({})


def set_ctx(c):
    global CTX
    CTX = c
