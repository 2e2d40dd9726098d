"""Runs the functions of wrapper.pyx: C types are turned into checks, & into pointer objects, and the
declarations of C functions are dropped; everything else is the source as it stands."""
import re, types
from pysym import core


class Ptr:
    """address of the first element of an array"""
    def __init__(self, arr):
        self.arr = arr
        self.contiguous = arr.flags["C_CONTIGUOUS"]

    def read(self, n):
        """n doubles from the address, as C sees them"""
        a = self.arr
        if not self.contiguous or a.size < n:
            raise core.CodeError("reads %d doubles from an array of %d%s" % (n, a.size, "" if self.contiguous else " that is not contiguous"))
        return a.reshape(-1)[:n]


def buf(x, ndim):
    if x is None or not isinstance(x, core.real_np.ndarray) or x.ndim != ndim or not (x.dtype == object or x.dtype == float):
        raise core.CodeError("Buffer has wrong number of dimensions or type")
    return x


def cint(x):
    if isinstance(x, core.Sym):
        return x
    if isinstance(x, (float, core.real_np.floating)) and core.CTX.symbolic is False and float(x).is_integer():
        return int(x)
    if isinstance(x, (float, core.real_np.floating, core.real_np.ndarray)) or x is None:
        raise core.CodeError("an integer is required")
    return int(x)


def translate(txt):
    out, skip = [], None
    for line in txt.replace("\r", "").split("\n"):
        ind = len(line) - len(line.lstrip())
        if skip is not None:
            if line.strip() == "" or ind > skip:
                continue
            skip = None
        if re.match(r"\s*cdef extern from", line):
            skip = ind
            continue
        if re.match(r"\s*(cimport\b|from \S+ cimport\b)", line):
            continue
        line = re.sub(r"^(\s*)cdef\s+(?:np\.ndarray\[[^\]]*\]|[\w.]+)\s+(\w+)\s*=", r"\1\2 =", line)
        line = re.sub(r"&(\w+)\[[0, ]+\]", r"_ptr(\1)", line)
        out.append(line)
    txt = "\n".join(out)

    def header(m):
        checks, params = [], []
        body = re.sub(r"#.*", "", m.group(2))
        depth, cur, parts = 0, "", []
        for ch in body:
            if ch == "," and depth == 0:
                parts.append(cur); cur = ""
            else:
                depth += ch in "[(" ; depth -= ch in "])"
                cur += ch
        parts.append(cur)
        for p in parts:
            p = p.strip()
            if not p:
                continue
            q = re.match(r"np\.ndarray\[[^\]]*ndim\s*=\s*(\d)[^\]]*\]\s+(.*)$", p, re.S)
            if q:
                params.append(q.group(2)); n = re.match(r"\w+", q.group(2)).group(0)
                checks.append("%s = _buf(%s, %s)" % (n, n, q.group(1)))
                continue
            q = re.match(r"(?:int|bint|long)\s+(\w+.*)$", p, re.S)
            if q:
                params.append(q.group(1)); n = re.match(r"\w+", q.group(1)).group(0)
                checks.append("%s = _int(%s)" % (n, n))
                continue
            q = re.match(r"double\s+(\w+.*)$", p, re.S)
            params.append(q.group(1) if q else p)
        return "def %s(%s):\n" % (m.group(1), ", ".join(params)) + "".join("    %s\n" % x for x in checks)
    txt = re.sub(r"^def (\w+)\(((?:[^()]|\([^()]*\))*)\):[ ]*\n", header, txt, flags=re.M)
    return txt


def load(np, cpp):
    path = core.REPO + "/python/arcticpy/wrapper.pyx"
    m = types.ModuleType("arcticpy.wrapper")
    src = translate(open(path).read())
    src = re.sub(r"^import numpy as np\s*$", "", src, flags=re.M)
    g = m.__dict__
    g.update(np=np, _ptr=Ptr, _buf=buf, _int=cint)
    g.update(cpp)
    exec(compile(src, path, "exec"), g)
    return m
