"""Load refellips (from /repo's current source) for symbolic execution.

The modules are executed from their source files with numpy, scipy, pandas and
math replaced by facades that understand symbolic values; the code itself is
not changed.
"""
import builtins
import io
import os
import re
import sys
import types
import warnings
from fractions import Fraction

import numpy as np

from . import expr as X
from . import arr as A
from .arr import Sym, SArr, Unsupported, lift, make_array, tosarr, kind_of_dtype, cast

TOK = re.compile(r"@x(\d+)@")
TOKENS = []  # index -> Sym


def reset_tokens():
    del TOKENS[:]


def token(s):
    """a text token standing for a symbolic number in a data file"""
    TOKENS.append(s)
    return "@x%d@" % (len(TOKENS) - 1)


def parse_num(txt, k="f"):
    t = txt.strip()
    m = TOK.fullmatch(t)
    if m:
        return TOKENS[int(m.group(1))]
    m = re.fullmatch(r"-\s*(@x\d+@)", t)
    if m:
        return -parse_num(m.group(1))
    if "@x" in t:
        raise Unsupported("partial use of a symbolic number's text: %r" % txt)
    v = builtins.float(t)
    return v


# ------------------------------------------------------------------ builtins
class _FMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.k == "f"
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_FMeta):
    _symkind = "f"
    fromhex = builtins.float.fromhex

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            if x.k == "c":
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return cast(x, "f")
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            return sfloat(lift(x.view(np.ndarray).ravel()[0]))
        if isinstance(x, str):
            r = parse_num(x)
            return r
        if hasattr(x, "value") and hasattr(x, "vary"):
            return sfloat(x.value)
        f = getattr(type(x), "__float__", None)
        if f is not None and not isinstance(x, (int, builtins.float, np.generic, np.ndarray)):
            r = f(x)
            return r
        return builtins.float(x)


class _CMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.k == "c"
        return isinstance(o, builtins.complex)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.complex)

    def __eq__(cls, o):
        return o is builtins.complex or o is cls

    def __hash__(cls):
        return hash(builtins.complex)


class scomplex(metaclass=_CMeta):
    _symkind = "c"

    def __new__(cls, re=0, im=None):
        if im is None:
            if isinstance(re, Sym):
                return cast(re, "c")
            if isinstance(re, SArr):
                if re.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                return scomplex(lift(re.view(np.ndarray).ravel()[0]))
            f = getattr(type(re), "__complex__", None)
            if f is not None and not isinstance(re, (builtins.complex, np.generic, np.ndarray)):
                return f(re)
            if hasattr(re, "value") and hasattr(re, "vary"):
                return scomplex(re.value)
            return builtins.complex(re)
        if isinstance(re, (Sym, SArr)) or isinstance(im, (Sym, SArr)) or hasattr(re, "vary") or hasattr(im, "vary"):
            a, b = sfloat(re) if not _isc(re) else re, sfloat(im) if not _isc(im) else im
            return cast(lift(a) + Sym(X.IM, "c") * lift(b), "c")
        return builtins.complex(re, im)


def _isc(v):
    return isinstance(v, Sym) and v.k == "c"


class _IMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.k == "i"
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_IMeta):
    _symkind = "i"

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return A._to_int(x)
        if isinstance(x, SArr):
            return A._to_int(lift(x.view(np.ndarray).ravel()[0]))
        return builtins.int(x, *a)


def ssum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sabs(x):
    return abs(x)


def smin(*a, **k):
    return _ext(builtins.min, A.s_lt, a, k)


def smax(*a, **k):
    return _ext(builtins.max, lambda x, y: A.s_lt(y, x), a, k)


def _ext(f, lt, a, k):
    seq = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, Sym) for x in seq):
        return f(seq, **k) if len(a) == 1 else f(*a, **k)
    best = seq[0]
    for x in seq[1:]:
        if bool(A.boolsym(lt(lift(x), lift(best)).n)):
            best = x
    return best


def spow(a, b, m=None):
    return a**b


# ------------------------------------------------------------------ numpy facade
class Facade(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(table)

    def __getattr__(self, nm):
        if nm.startswith("__") and nm != "__version__":
            raise AttributeError(nm)
        return getattr(self._real, nm)


def _k(dt):
    return kind_of_dtype(dt)


def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    k = _k(dtype)
    if k == "o" and dtype is not None and not issym_any(x):
        return np.array(x, dtype=dtype)
    r = make_array(x, None if k == "o" else k)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[None]
    return r


def issym_any(x):
    try:
        return A.issym(x)
    except Exception:
        return False


def f_asarray(x, dtype=None, order=None, copy=None, **kw):
    k = _k(dtype)
    if isinstance(x, SArr) and (k is None or k == x._k):
        return x
    if type(x) is np.ndarray and x.dtype == bool and k in (None, "b"):
        return x
    if type(x) is np.ndarray and x.dtype.kind in "iu" and k in (None,):
        return x
    return f_array(x, dtype)


def f_zeros(shape, dtype=None, order="C", **k):
    return A.f_full(shape, 0, _kk(dtype))


def _kk(dtype):
    k = _k(dtype)
    return "f" if k in (None, "o") else k


def f_ones(shape, dtype=None, order="C", **k):
    return A.f_full(shape, 1, _kk(dtype))


def f_full(shape, fill_value, dtype=None, order="C", **kw):
    k = _k(dtype)
    if k in (None, "o"):
        k = tosarr(fill_value)._k if isinstance(fill_value, np.ndarray) else lift(fill_value).k
    return A.f_full(shape, fill_value, k)


def f_arange(*a, dtype=None, **k):
    if all(isinstance(x, (int, np.integer)) for x in a):
        r = np.arange(*a)
        return r if _k(dtype) in (None, "i") else make_array(r, _k(dtype))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi, st = lift(lo), lift(hi), lift(st)
    if not all(s.n is not None and X.is_const(s.n) for s in (lo, hi, st)):
        raise Unsupported("arange with symbolic bounds")
    out = []
    v = X.cval(lo.n)
    while v < X.cval(hi.n):
        out.append(Sym(X.const(v), "f"))
        v += X.cval(st.n)
    return A.mk_arr(out, "f")


def f_eye(n, M=None, k=0, dtype=None):
    return make_array(np.eye(n, M, k), _kk(dtype))


def wrapf(name):
    """array functions: table entry on symbolic data, numpy otherwise lifted"""
    h = A.FT[name]

    def g(*a, **k):
        return h(*a, **k)

    g.__name__ = name
    return g


def u1(name):
    f = A.S1[name]

    def g(x, out=None, **kw):
        if _isparam(x):
            return getattr(np, name)(x)
        return A.ufunc_dispatch(getattr(np, name), "__call__", (x,), dict(kw, out=out) if out is not None else dict(kw))

    g.__name__ = name
    return g


def u2(name):
    def g(x, y, out=None, **kw):
        if _isparam(x) or _isparam(y):
            return getattr(np, name)(x, y)
        return A.ufunc_dispatch(getattr(np, name), "__call__", (x, y), dict(kw, out=out) if out is not None else dict(kw))

    g.__name__ = name
    g.outer = lambda a, b: A.ufunc_dispatch(getattr(np, name), "outer", (a, b), {})

    def red(a, axis=0, **kw):
        return A.ufunc_dispatch(getattr(np, name), "reduce", (a,), dict(kw, axis=axis))

    g.reduce = red
    g.accumulate = lambda a, axis=0: A.ufunc_dispatch(getattr(np, name), "accumulate", (a,), {"axis": axis})
    return g


def _isparam(x):
    return hasattr(x, "vary") and not isinstance(x, (Sym, np.ndarray))


def shapef(name):
    real = getattr(np, name)

    def conv(x):
        if isinstance(x, (Sym, np.ndarray)):
            return x
        if isinstance(x, (int, float, complex)) or hasattr(x, "vary"):
            return lift(x)
        if type(x).__module__.startswith("pandas"):
            return make_array(x)
        return x

    def g(*a, **k):
        a = list(a)
        if a:
            if name in A.SEQ_FUNCS and name not in ("append", "atleast_1d", "atleast_2d", "atleast_3d", "insert"):
                a[0] = [conv(e) if not isinstance(e, (list, tuple)) else make_array(e) for e in a[0]]
            elif name in ("append", "atleast_1d", "atleast_2d", "atleast_3d"):
                a = [conv(e) if not isinstance(e, (list, tuple)) else make_array(e) for e in a]
            elif isinstance(a[0], (list, tuple)):
                a[0] = make_array(a[0])
            elif not isinstance(a[0], np.ndarray):
                a[0] = conv(a[0])
        if not any(A.issym(x) or (isinstance(x, (list, tuple)) and any(isinstance(e, SArr) for e in x)) for x in a):
            return real(*a, **k)
        return A.func_dispatch(real, a, k)

    g.__name__ = name
    return g


class _CR:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for e in key:
            if isinstance(e, slice):
                st, sp, step = e.start or 0, e.stop, e.step
                if isinstance(step, complex):
                    parts.append(tosarr(A.f_linspace(st, sp, int(abs(step)))))
                else:
                    parts.append(tosarr(f_arange(st, sp, 1 if step is None else step)))
            elif isinstance(e, str):
                raise Unsupported("r_/c_ directive")
            else:
                p = tosarr(e if isinstance(e, (np.ndarray, Sym)) else make_array(e))
                if p.ndim == 0:
                    p = p.reshape(1)
                parts.append(p)
        if self.col:
            parts = [p.reshape(-1, 1) if p.ndim == 1 else p for p in parts]
            return A.func_dispatch(np.concatenate, (parts,), {"axis": -1})
        return A.func_dispatch(np.concatenate, (parts,), {})


class DtypeShim:
    """np.float64 and friends: callable like the scalar type, usable as dtype"""

    def __init__(self, real, k):
        self._real = real
        self._symkind = k
        self.__name__ = real.__name__

    def __call__(self, x=0):
        if isinstance(x, (Sym,)):
            return cast(x, self._symkind)
        if isinstance(x, SArr):
            return A.to_kind(x, self._symkind)
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            return make_array(x, self._symkind)
        if isinstance(x, str):
            return cast(lift(parse_num(x)), self._symkind)
        if hasattr(x, "vary"):
            return self(x.value)
        if hasattr(x, "__float__") and not isinstance(x, (int, float, np.generic)) and self._symkind == "f":
            return sfloat(x)
        return cast(lift(x), self._symkind) if not isinstance(x, complex) or self._symkind == "c" else self._real(x)

    def __eq__(self, o):
        return o is self or o is self._real or (isinstance(o, np.dtype) and o == self._real)

    def __hash__(self):
        return hash(self._real)

    def __getattr__(self, nm):
        return getattr(self._real, nm)


def f_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def f_size(a, axis=None):
    if isinstance(a, Sym):
        return 1
    if isinstance(a, np.ndarray):
        return a.size if axis is None else a.shape[axis]
    m = make_array(a)
    return m.size if axis is None else m.shape[axis]


def f_shape(a):
    if isinstance(a, (Sym, np.ndarray)):
        return a.shape
    return make_array(a).shape


def f_ndim(a):
    return len(f_shape(a))


def f_finfo(dt):
    k = _k(dt)
    r = np.finfo(np.float64 if k in ("f", "c", None) else dt)
    return r


def f_issubdtype(a, b):
    a = getattr(a, "_real", a)
    b = getattr(b, "_real", b)
    if getattr(a, "_symkind", None):
        a = A.DT[a._symkind]
    if getattr(b, "_symkind", None):
        b = A.DT[b._symkind].type
    return np.issubdtype(a, b)


def f_result_type(*a):
    ks = [tosarr(x)._k if not isinstance(x, (type, np.dtype)) else kind_of_dtype(x) for x in a]
    return A.DT[A.kmax(*ks)]


def read_text(f, encoding=None):
    if hasattr(f, "read"):
        t = f.read()
        if isinstance(t, bytes):
            t = t.decode(encoding or "utf8")
        return t
    with open(f, "r", encoding=encoding or "utf8") as h:
        return h.read()


def f_loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0,
              usecols=None, unpack=False, ndmin=0, encoding=None, max_rows=None, **kw):
    if hasattr(fname, "readline") or hasattr(fname, "read"):
        txt = read_text(fname)
    elif isinstance(fname, (list, tuple)):
        txt = "\n".join(s.rstrip("\n") for s in fname)
    elif hasattr(fname, "__next__"):
        txt = "\n".join(s.rstrip("\n") for s in fname)
    else:
        txt = read_text(fname)
    rows = []
    lines = txt.splitlines()
    for ln in lines[skiprows:]:
        if comments is not None:
            for c in [comments] if isinstance(comments, str) else comments:
                ln = ln.split(c)[0]
        if not ln.strip():
            continue
        cells = ln.split(delimiter) if delimiter is not None else ln.split()
        if usecols is not None:
            uc = [usecols] if isinstance(usecols, int) else usecols
            cells = [cells[c] for c in uc]
        rows.append([cast(lift(parse_num(c)), "f") for c in cells])
        if max_rows is not None and len(rows) >= max_rows:
            break
    w = {len(r) for r in rows}
    if len(w) > 1:
        raise ValueError("the number of columns changed")
    if not rows:
        r = tosarr(np.zeros((0,)))
    else:
        r = make_array(rows)
        if ndmin < 2:
            if r.shape[0] == 1 and r.shape[1] == 1 and ndmin == 0:
                r = r.reshape(())
            elif r.shape[0] == 1:
                r = r[0]
            elif r.shape[1] == 1:
                r = r[:, 0]
    return r.T if unpack else r


def f_savetxt(fname, Xa, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ",
              encoding=None, **kw):
    a = tosarr(Xa if isinstance(Xa, np.ndarray) else make_array(Xa))
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    out = []
    if header:
        out.append(comments + header.replace("\n", "\n" + comments))
    prec = 18
    if isinstance(fmt, str):
        m = re.fullmatch(r"%\.?(\d*)([efgEG]?)", fmt)
        if not m:
            raise Unsupported("savetxt fmt %r" % fmt)
        m2 = re.fullmatch(r"%\.(\d+)([efg])", fmt)
        prec = (m2.group(2), int(m2.group(1))) if m2 else ("f", 6)
    else:
        raise Unsupported("savetxt fmt list")
    for row in a.view(np.ndarray):
        cells = []
        for v in row:
            v = lift(v)
            # a format that keeps >= 17 significant digits is exact; a shorter
            # one stores a rounded value
            kind, p = prec
            if (kind == "e" and p >= 16) or (kind == "g" and p >= 17):
                cells.append(token(v))
            elif kind == "f":
                cells.append(token(A.s_round(v, p)))
            else:
                cells.append(token(Sym(X.fn("uf:fmt_%s%d" % (kind, p), v.n), "f")))
        out.append(delimiter.join(cells))
    if footer:
        out.append(comments + footer)
    txt = newline.join(out) + newline
    if hasattr(fname, "write"):
        try:
            fname.write(txt)
        except TypeError:
            fname.write(txt.encode("utf8"))
    else:
        with open(fname, "w", encoding=encoding or "utf8") as h:
            h.write(txt)


def f_genfromtxt(fname, dtype=float, comments="#", delimiter=None, skip_header=0, skip_footer=0, encoding=None,
                 usecols=None, unpack=False, **kw):
    return f_loadtxt(fname, comments=comments, delimiter=delimiter, skiprows=skip_header, usecols=usecols, unpack=unpack)


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def f_vectorize(pyfunc, otypes=None, **kw):
    def g(*args):
        return A.emap(lambda *e: lift(pyfunc(*e)), *args)

    return g


def f_apply(func1d, axis, arr, *a, **k):
    arr = tosarr(arr)
    m = np.moveaxis(arr, axis, -1)
    if m.ndim == 2:
        return make_array([func1d(m[i], *a, **k) for i in range(m.shape[0])])
    if m.ndim == 1:
        return func1d(m)
    raise Unsupported("apply_along_axis")


def f_ndenumerate(a):
    a = tosarr(a)
    for idx in np.ndindex(a.shape):
        yield idx, a[idx]


def f_sqrt_sci(x):
    return A.emap(A.s_sqrt_sci, x)


def f_arcsin_sci(x):
    """numpy.lib.scimath.arcsin: complex as soon as any |x| > 1"""
    a = tosarr(x) if not isinstance(x, SArr) else x
    if a._k != "c":
        out = (np.abs(a) > 1)
        anyout = out.any() if isinstance(out, np.ndarray) else out
        if bool(anyout):
            a = A.to_kind(a, "c")
    return A.emap(A.s_asin, a)


def f_arccos_sci(x):
    a = tosarr(x)
    if a._k != "c":
        out = (np.abs(a) > 1)
        anyout = out.any() if isinstance(out, np.ndarray) else out
        if bool(anyout):
            a = A.to_kind(a, "c")
    return A.emap(A.s_acos, a)


def f_log_sci(x):
    a = tosarr(x)
    if a._k != "c":
        neg = a < 0
        anyn = neg.any() if isinstance(neg, np.ndarray) else neg
        if bool(anyn):
            a = A.to_kind(a, "c")
    return A.emap(A.s_log, a)


def f_power_sci(x, p):
    return A.emap(A.s_pow, x, p)


def f_approx_derivative(fun, x0, method="3-point", rel_step=None, f0=None, args=(), kwargs=None, **k):
    """scipy.optimize._numdiff.approx_derivative: central differences (exact for
    functions that are at most quadratic along each axis)"""
    if k:
        raise Unsupported("approx_derivative options")
    x0 = tosarr(x0)
    if x0.ndim != 1:
        raise Unsupported("approx_derivative nd")
    h = Fraction(1, 4096)
    cols = []
    fun(x0)
    for i in range(len(x0)):
        v = []
        for sgn in (1, -1):
            x = [lift(e) for e in x0.view(np.ndarray)]
            x[i] = A.s_add(x[i], Sym(X.const(sgn * h), "f"))
            v.append(tosarr(fun(A.mk_arr(x, "f"), *args, **(kwargs or {}))))
        cols.append((v[0] - v[1]) / float(2 * h))
    J = np.stack([np.asarray(q, object).view(np.ndarray) if not isinstance(q, SArr) else q.view(np.ndarray) for q in cols], axis=-1)
    return make_array(J.tolist())


def f_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """factors with a == U diag(s) VT.  One column: the singular value
    decomposition.  Two columns: s = 1, VT the inverse of the Cholesky factor of
    a^T a (so VT^T s^-2 VT is (a^T a)^-1, as for the decomposition); a column of zeros: the decomposition."""
    a = tosarr(a)
    if a.ndim != 2 or full_matrices or not compute_uv or a.shape[1] > 2:
        raise Unsupported("svd")
    col = [[lift(e) for e in a.view(np.ndarray)[:, j]] for j in range(a.shape[1])]

    def dot(p, q):
        t = Sym(X.ZERO, "f")
        for x, y in zip(p, q):
            t = A.s_add(t, A.s_mul(x, y))
        return t

    one = Sym(X.ONE, "f")
    if a.shape[1] == 1:
        n = A.s_sqrt(dot(col[0], col[0]))
        U = [[A.s_div(e, n)] for e in col[0]]
        return make_array(U), A.mk_arr([n], "f"), make_array([[one]])
    z = Sym(X.ZERO, "f")
    zero = [all(X.is_const(e.n) and X.cval(e.n) == 0 if e.n is not None else e.sv == 0 for e in q) for q in col]
    if any(zero):  # a column of zeros: a singular value of zero along it
        j = zero.index(True)
        n = A.s_sqrt(dot(col[1 - j], col[1 - j]))
        VT = [[one, z], [z, one]] if j == 1 else [[z, one], [one, z]]
        return None, A.mk_arr([n, z], "f"), make_array(VT)
    g11, g12, g22 = dot(col[0], col[0]), dot(col[0], col[1]), dot(col[1], col[1])
    l11 = A.s_sqrt(g11)
    l21 = A.s_div(g12, l11)
    l22 = A.s_sqrt(A.s_sub(g22, A.s_div(A.s_mul(g12, g12), g11)))
    i11, i22 = A.s_div(one, l11), A.s_div(one, l22)
    i21 = A.s_sub(z, A.s_div(l21, A.s_mul(l11, l22)))
    return None, A.mk_arr([one, one], "f"), make_array([[i11, z], [i21, i22]])


def lincoef(n):
    """n as {product of symbolic factors: float coefficient}, None if there are
    sums inside products"""
    out = {}
    todo = [(n, 1)]
    if n.op == "add":
        todo = [(t, k) for t, k in n.a[1]]
        if n.a[0]:
            out[X.ONE] = float(n.a[0])
    for t, k in todo:
        const, var = float(k), []
        for f, e in ((t, 1),) if t.op != "mul" else t.a[1]:
            if any(m.op == "var" for m in X.walk([f])):
                var.append((f, e))
            else:
                const *= float(X.evaluate(f, {}, {})) ** e
        if t.op == "mul":
            const *= float(t.a[0])
        v = X.ONE
        for f, e in var:
            v = X.mul(v, X.powi(f, e))
        out[v] = out.get(v, 0.0) + const
    return out


def f_hilbert(x, _cache=None):
    """scipy.fftpack.hilbert.  Of a vector that is a combination of a few
    symbolic amplitudes with constant vectors: the combination of the transforms
    of the constant vectors (it is linear).  Otherwise an uninterpreted operator
    whose elements are functions of the whole input vector."""
    import scipy.fftpack

    a = tosarr(x)
    if a.ndim != 1:
        raise Unsupported("hilbert nd")
    nodes = tuple(lift(e).n for e in a.view(np.ndarray))
    vecs = {}
    for i, m in enumerate(nodes):
        for v, k in lincoef(m).items():
            if v not in vecs:
                if len(vecs) >= 8:
                    vecs = None
                    break
                vecs[v] = np.zeros(len(nodes))
            vecs[v][i] = k
        if vecs is None:
            break
    if vecs is not None:
        tot = [X.ZERO] * len(nodes)
        for v, w in vecs.items():
            h = scipy.fftpack.hilbert(w)
            tot = [X.add(t, X.mul(v, X.const(Fraction(float(k))))) for t, k in zip(tot, h)]
        return A.mk_arr([Sym(t, "f") for t in tot], "f")
    h = X._mk("fn", ("uf:vec%d" % len(nodes),) + nodes, True)
    out = [Sym(X.fn("uf:hilbert", h, X.const(i)), "f") for i in range(len(nodes))]
    return A.mk_arr(out, "f")


def build_numpy():
    t = {}
    for nm in A.S1:
        t[nm] = u1(nm)
    for nm in A.S2:
        t[nm] = u2(nm)
    t["abs"] = t["absolute"]
    t["conj"] = t["conjugate"]
    t["acos"], t["asin"], t["atan"], t["atan2"] = t["arccos"], t["arcsin"], t["arctan"], t["arctan2"]
    t["pow"] = t["power"]
    for nm in A.FT:
        t[nm] = wrapf(nm)
    for nm in A.SHAPE_FUNCS:
        if nm not in A.FT and hasattr(np, nm):
            t[nm] = shapef(nm)
    t.update(
        array=f_array, asarray=f_asarray, asanyarray=f_asarray, ascontiguousarray=f_asarray,
        asfarray=lambda x, dtype=None: f_array(x, "f8"), asarray_chkfinite=f_asarray,
        zeros=f_zeros, ones=f_ones, empty=f_zeros, full=f_full, arange=f_arange, eye=f_eye,
        identity=f_eye, linspace=A.f_linspace, loadtxt=f_loadtxt, savetxt=f_savetxt,
        genfromtxt=f_genfromtxt, isscalar=f_isscalar, size=f_size, shape=f_shape, ndim=f_ndim,
        finfo=f_finfo, issubdtype=f_issubdtype, result_type=f_result_type,
        r_=_CR(False), c_=_CR(True), pi=Sym(X.PI, "f"), errstate=ErrState,
        vectorize=f_vectorize, apply_along_axis=f_apply, ndenumerate=f_ndenumerate,
        float64=DtypeShim(np.float64, "f"), float32=DtypeShim(np.float32, "f"), double=DtypeShim(np.float64, "f"),
        complex128=DtypeShim(np.complex128, "c"), complex64=DtypeShim(np.complex64, "c"),
        cdouble=DtypeShim(np.complex128, "c"), longdouble=DtypeShim(np.longdouble, "f"),
        float16=DtypeShim(np.float16, "f"),
        e=Sym(X.fn("exp", X.ONE), "f"),
        fromiter=lambda it, dtype=None, count=-1: f_array(list(it), dtype),
        seterr=lambda **k: {}, asmatrix=lambda *a: (_ for _ in ()).throw(Unsupported("matrix")),
    )
    lin = Facade("numpy.linalg", np.linalg, {"norm": f_norm, "svd": f_svd})
    t["linalg"] = lin
    sci = {
        "arcsin": f_arcsin_sci, "arccos": f_arccos_sci, "sqrt": f_sqrt_sci, "log": f_log_sci, "power": f_power_sci,
        "arctanh": _uns("arctanh"), "logn": _uns("logn"), "log10": _uns("log10"), "log2": _uns("log2"),
    }
    emath = Facade("numpy.lib.scimath", np.emath, sci)
    t["emath"] = emath
    lib = Facade("numpy.lib", np.lib, {"scimath": emath})
    t["lib"] = lib
    return Facade("numpy", np, t), emath, lib, lin


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    a = tosarr(x)
    return np.sqrt((np.abs(a) * np.abs(a)).sum(axis=axis))


def _uns(nm):
    def g(*a, **k):
        raise Unsupported(nm)

    return g


def build_math(npf):
    import math

    t = {}
    for a, b in dict(sqrt="sqrt", exp="exp", log="log", sin="sin", cos="cos", tan="tan", atan="arctan", asin="arcsin",
                     acos="arccos", sinh="sinh", cosh="cosh", tanh="tanh", fabs="absolute", degrees="rad2deg",
                     radians="deg2rad", isnan="isnan", isinf="isinf", isfinite="isfinite").items():
        t[a] = (lambda f: lambda x, *r: A._unbool(f(lift(x))))(A.S1[b])
    t["floor"] = lambda x: A._to_int(A.s_floor(lift(x)))
    t["ceil"] = lambda x: A._to_int(A.s_ceil(lift(x)))
    t["atan2"] = lambda y, x: A.s_atan2(lift(y), lift(x))
    t["hypot"] = lambda x, y: A.s_hypot(lift(x), lift(y))
    t["pow"] = lambda x, y: A.s_pow(lift(x), lift(y))
    t["fmod"] = lambda x, y: A.s_fmod(lift(x), lift(y))
    t["pi"] = Sym(X.PI, "f")
    t["tau"] = Sym(X.mul(X.const(2), X.PI), "f")
    t["fsum"] = lambda it: A._sum([lift(x) for x in it])
    t["prod"] = lambda it, start=1: A.tosarr(list(it)).prod() * start
    t["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: A.boolsym(
        A.s_le(A.s_abs(lift(a) - lift(b)), A.s_max(A.s_mul(lift(rel_tol), A.s_max(A.s_abs(lift(a)), A.s_abs(lift(b)))), lift(abs_tol))).n)
    return Facade("math", math, t)


def build_cmath():
    import cmath

    def c(x):
        return cast(lift(x), "c")

    t = {
        "sqrt": lambda x: A.s_sqrt(c(x)), "exp": lambda x: A.s_exp(c(x)), "phase": lambda x: A.s_angle(lift(x)),
        "cos": lambda x: A.s_cos(c(x)), "sin": lambda x: A.s_sin(c(x)), "asin": lambda x: A.s_asin(c(x)),
        "pi": Sym(X.PI, "f"), "log": lambda x: A.s_log(c(x)),
        "polar": lambda x: (A.s_abs(c(x)), A.s_angle(c(x))),
        "rect": lambda r, p: c(r) * A.s_exp(Sym(X.IM, "c") * lift(p)),
        "isfinite": lambda x: A._unbool(A.s_isfinite(lift(x))), "isnan": lambda x: A._unbool(A.s_isnan(lift(x))),
    }
    return Facade("cmath", cmath, t)


# ------------------------------------------------------------------ pandas facade
def detok_frame(df):
    import pandas as pd

    def conv(v):
        if isinstance(v, str) and "@x" in v:
            return parse_num(v)
        return v

    new = {}
    for c in range(df.shape[1]):
        col = df.iloc[:, c]
        vals = list(col)
        if any(isinstance(v, str) and "@x" in v for v in vals):
            out = []
            for v in vals:
                if isinstance(v, str):
                    try:
                        out.append(parse_num(v))
                    except ValueError:
                        out.append(v)
                else:
                    out.append(v)
            new[c] = out
    if not new:
        return df
    cols = {}
    for c in range(df.shape[1]):
        cols[c] = pd.Series(obj_arr(new[c]), index=df.index, dtype=object) if c in new else df.iloc[:, c]
    r = pd.DataFrame(cols)
    r.columns = df.columns
    return r


def obj_arr(lst):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    return a


def build_pandas():
    import pandas as pd

    def read_csv(f, *a, **k):
        df = pd.read_csv(f, *a, **k)
        return detok_frame(df)

    def to_numeric(x, *a, **k):
        return x

    return Facade("pandas", pd, {"read_csv": read_csv, "read_table": lambda f, *a, **k: detok_frame(pd.read_table(f, *a, **k)),
                                 "to_numeric": to_numeric,
                                 "isna": lambda x: pd.isna(x) if not isinstance(x, Sym) else A._unbool(A.s_isnan(x))})


_patched = False


def patch_pandas():
    """object columns holding symbolic numbers: mean / groupby mean / astype"""
    global _patched
    if _patched:
        return
    _patched = True
    import pandas as pd
    from pandas.core.groupby.generic import DataFrameGroupBy, SeriesGroupBy

    def hassym(s):
        return s.dtype == object and any(isinstance(v, Sym) for v in s)

    def agg_fn(stat):
        def f(s):
            vals = [v for v in s]
            if stat == "median":
                return A.f_median(A.mk_arr(vals))
            if stat == "first":
                return vals[0]
            if stat == "last":
                return vals[-1]
            tot = vals[0]
            for v in vals[1:]:
                if stat in ("mean", "sum"):
                    tot = tot + v
                elif stat == "max":
                    tot = A.s_max(lift(tot), lift(v))
                elif stat == "min":
                    tot = A.s_min(lift(tot), lift(v))
            return tot / len(vals) if stat == "mean" else tot

        return f

    for stat in ("mean", "sum", "median", "max", "min", "first", "last"):
        orig = getattr(DataFrameGroupBy, stat)

        def m(self, *a, _orig=orig, _stat=stat, **k):
            obj = self.obj
            cols = [c for c in obj.columns if hassym(obj[c])]
            if not cols:
                return _orig(self, *a, **k)
            rows = []
            keys = []
            names = self.keys if isinstance(self.keys, list) else [self.keys]
            sel = self._selection
            use = [c for c in (sel if isinstance(sel, list) else ([sel] if sel is not None else obj.columns)) if c not in names]
            for key, idx in self.indices.items():
                sub = obj.iloc[idx]
                keys.append(key if isinstance(key, tuple) else (key,))
                rows.append([agg_fn(_stat)(list(sub[c])) for c in use])
            order = sorted(range(len(keys)), key=lambda i: keys[i]) if self.sort else range(len(keys))
            ix = pd.MultiIndex.from_tuples([keys[i] for i in order], names=names) if len(names) > 1 else pd.Index([keys[i][0] for i in order], name=names[0])
            data = {c: pd.Series(obj_arr([rows[i][j] for i in order]), index=ix, dtype=object) for j, c in enumerate(use)}
            r = pd.DataFrame(data, index=ix)
            if not self.as_index:
                r = r.reset_index()
            return r

        setattr(DataFrameGroupBy, stat, m)

    for stat in ("mean", "sum", "max", "min", "median"):
        orig = getattr(pd.Series, stat)

        def ms(self, *a, _orig=orig, _stat=stat, **k):
            if hassym(self):
                return agg_fn(_stat)(list(self))
            return _orig(self, *a, **k)

        setattr(pd.Series, stat, ms)

    orig_astype = pd.Series.astype

    def astype(self, dt, *a, **k):
        if hassym(self):
            return pd.Series(obj_arr([cast(lift(v), kind_of_dtype(dt)) for v in self]), index=self.index, dtype=object, name=self.name)
        if getattr(dt, "_symkind", None):
            dt = A.DT[dt._symkind]
        return orig_astype(self, dt, *a, **k)

    pd.Series.astype = astype

    orig_to_numpy = pd.Series.to_numpy

    def to_numpy(self, dtype=None, *a, **k):
        if hassym(self):
            arr = obj_arr(list(self))
            fr = sys._getframe(1).f_globals.get("__name__", "")
            if fr.startswith("refellips"):
                return make_array(arr, kind_of_dtype(dtype))
            return arr
        if getattr(dtype, "_symkind", None):
            dtype = A.DT[dtype._symkind]
        r = orig_to_numpy(self, dtype, *a, **k)
        return r

    pd.Series.to_numpy = to_numpy
    orig_vals = pd.Series.values.fget

    def values(self):
        fr = sys._getframe(1).f_globals.get("__name__", "")
        if fr.startswith("refellips"):
            r = orig_vals(self)
            if isinstance(r, np.ndarray) and r.dtype.kind in "fc" or hassym(self):
                return make_array(obj_arr(list(self)) if hassym(self) else r)
            return r
        return orig_vals(self)

    pd.Series.values = property(values)


# ------------------------------------------------------------------ loader
REPO = os.environ.get("REFELLIPS_REPO", "/repo")


class Loaded:
    pass


def load(repo=None):
    """returns a namespace with the symbolic refellips package"""
    repo = repo or REPO
    npf, emath, lib, lin = build_numpy()
    mathf = build_math(npf)
    cmathf = build_cmath()
    pdf = build_pandas()
    patch_pandas()
    import scipy
    import scipy.fftpack

    scif = Facade("scipy.fftpack", scipy.fftpack, {"hilbert": f_hilbert, "fft": _uns("fft"), "ifft": _uns("ifft")})
    import scipy.optimize._numdiff as nd
    import scipy.optimize

    ndf = Facade("scipy.optimize._numdiff", nd, {"approx_derivative": f_approx_derivative})
    fac = {
        "scipy.optimize._numdiff": ndf,
        "numpy": npf, "numpy.lib": lib, "numpy.lib.scimath": emath, "numpy.linalg": lin, "numpy.emath": emath,
        "math": mathf, "cmath": cmathf, "pandas": pdf, "scipy.fftpack": scif,
    }
    real_import = builtins.__import__
    sub = {}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] == "refellips":
            m = load_mod(name)
            return m if fromlist else sub["refellips"]
        if level > 0:
            pkg = globals["__package__"]
            base = pkg if level == 1 else pkg.rsplit(".", level - 1)[0]
            full = base + ("." + name if name else "")
            if full.split(".")[0] == "refellips":
                m = load_mod(full)
                for f in fromlist or ():
                    if not hasattr(m, f) and os.path.exists(modpath(full + "." + f)):
                        setattr(m, f, load_mod(full + "." + f))
                return m
        if level == 0 and name in fac:
            if fromlist:
                return fac[name]
            if name == "scipy.fftpack":
                return Facade("scipy", scipy, {"fftpack": scif})
            top = name.split(".")[0]
            return fac[top]
        if level == 0 and name == "scipy" and fromlist and "fftpack" in fromlist:
            return Facade("scipy", scipy, {"fftpack": scif})
        return real_import(name, globals, locals, fromlist, level)

    bi = dict(vars(builtins))
    bi.update(float=sfloat, complex=scomplex, int=sint, __import__=imp, print=lambda *a, **k: None,
              sum=ssum, min=smin, max=smax, pow=spow)

    def modpath(full):
        p = os.path.join(repo, *full.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load_mod(full):
        if full in sub:
            return sub[full]
        path = modpath(full)
        with open(path, encoding="utf8") as f:
            src = f.read()
        m = types.ModuleType(full)
        m.__file__ = path
        m.__builtins__ = bi
        if path.endswith("__init__.py"):
            m.__package__ = full
            m.__path__ = [os.path.dirname(path)]
        else:
            m.__package__ = full.rpartition(".")[0]
        sub[full] = m
        code = compile(src, path, "exec")
        exec(code, m.__dict__)
        if "." in full:
            par, _, leaf = full.rpartition(".")
            if par in sub:
                setattr(sub[par], leaf, m)
        return m

    patch_refnx(npf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pkg = load_mod("refellips")
        for leaf in ("dataSE", "dispersion", "structureSE", "reflect_modelSE", "objectiveSE"):
            load_mod("refellips." + leaf)
    ns = Loaded()
    ns.pkg = pkg
    ns.np = npf
    ns.mods = sub
    for leaf in ("dataSE", "dispersion", "structureSE", "reflect_modelSE", "objectiveSE"):
        setattr(ns, leaf, sub["refellips." + leaf])
    return ns


def patch_refnx(npf):
    import refnx.analysis.parameter as rp
    import refnx.analysis.bounds as rb
    import refnx.reflect.structure as rs
    import refnx.analysis.objective as ro

    for m in (rp, rb, rs, ro):
        m.np = npf
        m.float = sfloat
        m.complex = scomplex
        m.int = sint
        m.min = smin
        m.max = smax
    import refnx.reflect.interface as ri

    ri.np = npf

    class Norm:
        def __getattr__(self, nm):
            raise Unsupported("scipy.stats.norm." + nm)

        @staticmethod
        def cdf(z, loc=0, scale=1):
            z = npf.asarray(z)
            q = (z - loc) / scale
            s = Sym(X.sqrt(X.const(2)), "f") if hasattr(X, "sqrt") else A.lift(2.0) ** 0.5
            f = lambda x: (1 + Sym(X.fn("erf", lift(x / s).n), "f")) / 2
            if isinstance(q, np.ndarray) and q.ndim:
                out = np.empty(q.shape, dtype=object)
                for ix in np.ndindex(q.shape):
                    out[ix] = f(lift(q[ix]))
                return make_array(out)
            return f(lift(q if not isinstance(q, np.ndarray) else q.item()))

    ri.norm = Norm()
