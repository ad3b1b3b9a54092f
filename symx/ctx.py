"""The harness interface.

A harness is a function h(c).  It is written once and runs in two worlds:

SymCtx   symbolic inputs, the code of /repo executed over them, c.check* are
         obligations for the solver;
ConcCtx  plain floats, the ordinary refellips package imported from /repo, the
         same c.check* evaluated on what it returns.  Counterexamples are
         replayed here.
"""
import math
import os
import shutil
import tempfile

import numpy as np


class Abort(BaseException):
    """a concrete input violates an assumption of the harness"""


class Base:
    def __init__(self):
        self._tmp = None

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx_")
        return self._tmp

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def path(self, name):
        return os.path.join(self.tmp, name)

    def choose(self, name, options):
        """an arbitrary member of a finite list (forks)"""
        opts = list(options)
        for i, o in enumerate(opts[:-1]):
            if self.boolean("%s=%d" % (name, i)):
                return o
        return opts[-1]

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def raises(self, excs, f, *a, **k):
        try:
            f(*a, **k)
        except excs:
            return True
        return False

    def assume(self, x):
        raise NotImplementedError


class SymCtx(Base):
    conc = False

    def __init__(self, E, L):
        super().__init__()
        from . import arr as A
        from . import expr as X
        from . import load

        self.E, self.L = E, L
        self.A, self.X = A, X
        self.np = L.np
        self.R = L.pkg
        self._load = load
        load.reset_tokens()
        self.vals = []
        self.reached = 0

    def mod(self, leaf):
        return self.L.mods["refellips." + leaf]

    def plain(self):
        """the package as Python imports it, for stand-ins that only see concrete numbers"""
        import sys

        if "refellips" not in sys.modules:
            sys.path.insert(0, self._load.REPO)
            import refellips
        return sys.modules["refellips"]

    # inputs
    def real(self, name, lo=None, hi=None, **k):
        return self.E.real(name, lo, hi, **k)

    def boolean(self, name):
        return bool(self.E.boolean(name))

    def assume(self, x):
        if isinstance(x, np.ndarray):
            for e in np.asarray(x, object).ravel():
                self.E.assume(e)
            return
        self.E.assume(x)

    def pickled(self, x):
        """pickle and unpickle; symbolic numbers, and classes and functions
        (which pickle stores by name), go through as references"""
        import io
        import pickle
        import types

        A, refs = self.A, []

        class P(pickle.Pickler):
            def persistent_id(self, o):
                if isinstance(o, A.SArr):
                    refs.append(("arr", o))
                elif isinstance(o, (A.Sym, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
                    refs.append(("ref", o))
                else:
                    return None
                return len(refs) - 1

        class U(pickle.Unpickler):
            def persistent_load(self, i):
                k, o = refs[i]
                return o.copy() if k == "arr" else o

        f = io.BytesIO()
        P(f, 4).dump(x)
        f.seek(0)
        return U(f).load()

    def tok(self, x):
        return self._load.token(self.A.lift(x))

    def uf(self, name, *args):
        return self.A.Sym(self.X.fn("uf:" + name, *[self.A.lift(a).n for a in args]), "f")

    def array(self, x, dtype=None):
        return self.np.array(x, dtype=dtype) if dtype is not None else self.np.array(x)

    def hint(self, *ws):
        for w in ws:
            self.E.hint(w)

    # obligations
    def _flat(self, a):
        if isinstance(a, np.ndarray):
            return a.shape, list(np.asarray(a, object).ravel()) if not isinstance(a, self.A.SArr) else list(a.view(np.ndarray).ravel())
        if isinstance(a, (list, tuple)):
            a = self.np.array(list(a)) if len(a) else np.array([])
            return self._flat(a)
        return (), [a]

    def _evalnum(self, s):
        s = self.A.lift(s)
        if s.n is None:
            return s.sv
        return self.X.evaluate(s.n, self.E.env, self.E.cmemo)

    def _lift(self, x):
        if x is None or isinstance(x, str):
            return None
        return self.A.lift(x)

    def check(self, cond, label):
        self.reached += 1
        sh, fl = self._flat(cond)
        for e in fl:
            if isinstance(e, (bool, np.bool_)):
                node = self.X.bconst(bool(e))
            else:
                e = self.A.lift(e)
                node = self.X.bconst(bool(e.sv)) if e.n is None else self.A.asbool(e)
            if self.E.mode == "concolic":
                self.vals.append((label, [bool(self.X.evaluate(node, self.E.env, self.E.cmemo))]))
            self.E.prove(node, label)

    def check_eq(self, a, b, label, tol=1e-7):
        self.reached += 1
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb and not (sb == () and len(fb) == 1):
            if self.E.mode == "concolic":
                self.vals.append((label + " shape", [list(sa)]))
            self.E.prove(self.X.FALSE, "%s: shape %s instead of %s" % (label, sa, sb))
            return
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        la = [self._lift(x) for x in fa]
        lb = [self._lift(x) for x in fb]
        if self.E.mode == "concolic":
            self.vals.append((label, [None if x is None else jnum(self._evalnum(x)) for x in la]))
        for x, y, rx, ry in zip(la, lb, fa, fb):
            if x is None or y is None:
                self.E.prove(self.X.bconst(rx == ry), label)
                continue
            if x.n is None or y.n is None:
                ok = x.n is None and y.n is None and (x.sv == y.sv or (x.sv != x.sv and y.sv != y.sv))
                self.E.prove(self.X.bconst(ok), label)
                continue
            if x.k == "b" or y.k == "b":
                p, q = self.A.asbool(x), self.A.asbool(y)
                self.E.prove(self.X.bor(self.X.band(p, q), self.X.band(self.X.bnot(p), self.X.bnot(q))), label)
                continue
            self.E.prove_eq(x.n, y.n, label, tol)

    def note(self, x):
        self.E.notes.append(x)


def jnum(v):
    if isinstance(v, complex):
        return [float(v.real), float(v.imag)]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    try:
        return float(v)
    except (TypeError, ValueError, OverflowError):
        return None


class ConcCtx(Base):
    conc = True

    def __init__(self, env):
        super().__init__()
        import refellips

        self.env = env
        self.R = refellips
        self.np = np
        self.fails = []
        self.vals = []
        self.reached = 0

    def mod(self, leaf):
        import importlib

        return importlib.import_module("refellips." + leaf)

    def plain(self):
        return self.R

    def pickled(self, x):
        import pickle

        return pickle.loads(pickle.dumps(x))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        if name not in self.env:
            raise Abort("no value for %s|%s|%s" % (name, lo, hi))
        v = float(self.env[name])
        if lo is not None and (v < float(lo) or (lo_open and v == float(lo))):
            raise Abort(name)
        if hi is not None and (v > float(hi) or (hi_open and v == float(hi))):
            raise Abort(name)
        return v

    def boolean(self, name):
        if name not in self.env:
            raise Abort("no value for ?" + name)
        return bool(self.env[name])

    def assume(self, x):
        if not np.all(x):
            raise Abort("assumption")

    def tok(self, x):
        return repr(float(x))

    def hint(self, *ws):
        pass

    def uf(self, name, *args):
        from . import expr as X

        return X.default_uf(name, args)

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def check(self, cond, label):
        self.reached += 1
        for e in np.asarray(cond).ravel():
            self.vals.append((label, [bool(e)]))
            if not bool(e):
                self.fails.append((label, "condition is false"))

    def check_eq(self, a, b, label, tol=1e-7):
        self.reached += 1
        try:
            aa, bb = np.asarray(a), np.asarray(b)
        except Exception as e:
            self.fails.append((label, repr(e)))
            return
        if aa.shape != bb.shape and bb.shape != ():
            self.vals.append((label + " shape", [list(aa.shape)]))
            self.fails.append((label, "shape %s, expected %s" % (aa.shape, bb.shape)))
            return
        bb = np.broadcast_to(bb, aa.shape)
        self.vals.append((label, [jnum(x) for x in aa.ravel()]))
        for x, y in zip(aa.ravel(), bb.ravel()):
            if not close(x, y, tol):
                self.fails.append((label, "got %r, expected %r" % (x, y)))
                return

    def note(self, x):
        pass


def close(x, y, tol):
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return x == y
    try:
        cx, cy = complex(x), complex(y)
    except (TypeError, ValueError):
        return bool(x == y)
    nx, ny = cx != cx, cy != cy
    if nx or ny:
        return nx and ny
    if math.isinf(abs(cx)) or math.isinf(abs(cy)):
        return cx == cy
    return abs(cx - cy) <= tol * (1 + abs(cx) + abs(cy))
