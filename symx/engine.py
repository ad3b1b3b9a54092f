"""Path exploration and proof of obligations.

A harness is a function h(ctx).  The engine runs it in one of three modes:
  explore   symbolic inputs; every branch on symbolic data forks, paths are
            enumerated by re-execution; each ctx.check is an obligation decided
            by z3 for all values on that path
  concolic  same code, branches decided at one concrete point (used to compare
            the encoding with the real code)
  concrete  (see concrete.py) plain floats, unpatched code
"""
from fractions import Fraction
import math
import os
import random
import time
import traceback

import z3

from . import expr as X
from . import arr as A
from .lower import Lower, Field, has_var, mpf_eval, HV_MEMO


SLOW = float(os.environ.get("SYMX_SLOW", "0"))


class PathAbort(BaseException):
    """assumption false on this path."""


class Inconclusive(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.by_field = 0
        self.by_pair = 0
        self.feas = 0
        self.probed = 0

    def as_dict(self):
        return dict(self.__dict__)


def to_frac(v):
    if isinstance(v, (int, float)):
        return X.fl(float(v))
    return Fraction(v)


class Engine:
    def __init__(self, seed=1, npool=48, feas_ms=1500, prove_ms=20000, max_paths=4000,
                 deadline=None, def_probe=True):
        self.seed = seed
        self.npool = npool
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.def_probe = def_probe
        self.st = Stats()
        self.low = Lower()
        self.field = Field()
        self.mode = "explore"
        self.env = None
        self.memos = []
        self.points = []
        self.fixed = {}
        self.spec = {}
        self.feas_cache = {}
        self._vmemo = {}
        self.eqcache = {}
        self.atomcache = {}
        self.violations = []  # dicts
        self.undecided = []
        self.errors = []
        self.obl = 0
        self.obl_labels = {}
        self.paths = 0
        self.paths_cut = 0
        self.reduced = []
        self.def_excluded = {}
        self.nref = 0
        self.canon_map = {}
        self.hints = []
        self.reps = []
        A.ENGINE = self

    # ------------------------------------------------------------- run control
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.pc = []
        self.pcset = set()
        self.defs = []
        self.defset = set()
        self.decl = {}
        self.pool = list(range(len(self.points)))
        self.labels = {}
        self.log = []
        self.notes = []
        self.refilled = -1

    def point(self, i):
        return self.points[i]

    # ------------------------------------------------------------- declarations
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, pick=None, logscale=False):
        if name in self.decl:
            return A.Sym(X.var(name), "f")
        v = X.var(name)
        self.decl[name] = (lo, hi)
        self.spec[name] = (lo, hi, lo_open, hi_open, pick)
        if name in self.fixed:
            q = self.fixed[name]
            for p in self.points:
                p[name] = q
            if (lo is not None and (q < lo or (lo_open and q == lo))) or (
                    hi is not None and (q > hi or (hi_open and q == hi))):
                raise PathAbort()
            return A.Sym(X.const(to_frac(q)), "f")
        if self.mode == "explore":
            if not self.points:
                self.points = [dict() for _ in range(self.npool)]
                self.memos = [dict() for _ in range(self.npool)]
                self.pool = list(range(self.npool))
            for i, p in enumerate(self.points):
                if name not in p:
                    p[name] = draw(self.seed, i, name, lo, hi, lo_open, hi_open, pick)
        if lo is not None:
            c = X.lt(X.const(to_frac(lo)), v) if lo_open else X.le(X.const(to_frac(lo)), v)
            self._assume_node(c)
        if hi is not None:
            c = X.lt(v, X.const(to_frac(hi))) if hi_open else X.le(v, X.const(to_frac(hi)))
            self._assume_node(c)
        return A.Sym(v, "f")

    def boolean(self, name):
        b = X.bvar(name)
        self.decl[name] = ("bool",)
        if self.mode == "explore":
            if not self.points:
                self.points = [dict() for _ in range(self.npool)]
                self.memos = [dict() for _ in range(self.npool)]
                self.pool = list(range(self.npool))
            for i, p in enumerate(self.points):
                if name not in p:
                    p[name] = bool(random.Random("%s|%d|%s" % (self.seed, i, name)).getrandbits(1))
        return A.Sym(b, "b")

    # ------------------------------------------------------------- evaluation
    def ev(self, n, i):
        try:
            return X.evaluate(n, self.points[i], self.memos[i])
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return math.nan

    def evb(self, n, i):
        try:
            return bool(X.evaluate(n, self.points[i], self.memos[i]))
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return None

    def const_value(self, n):
        """value of a node that depends on no input, else None"""
        if has_var(n):
            return None
        try:
            import mpmath as mp

            v = mpf_eval(n)
            return float(mp.re(v)) if not isinstance(v, mp.mpc) or v.imag == 0 else complex(v)
        except KeyError:
            return None

    # ------------------------------------------------------------- path condition
    def _add(self, node):
        if node.op == "and":
            for c in node.a:
                self._add(c)
            return
        if node in self.pcset or node is X.TRUE:
            return
        self.pc.append(node)
        self.pcset.add(node)
        if self.mode == "explore":
            self.pool = [i for i in self.pool if self.evb(node, i) is True]

    def _assume_node(self, node):
        if node is X.FALSE:
            raise PathAbort()
        if self.mode == "concolic":
            self._add(node)
            return
        if X.bnot(node) in self.pcset:
            raise PathAbort()
        self._add(node)

    def assume(self, c):
        if isinstance(c, A.Sym):
            c = A.asbool(c)
            self._assume_node(c)
            if self.mode == "concolic":
                if not X.evaluate(c, self.env, self.cmemo):
                    raise PathAbort()
                return
            if not self.pool:
                # replay prefixes need no check: already known feasible
                if len(self.dec) >= len(self.prefix) and self.sat(X.TRUE) == "unsat":
                    raise PathAbort()
        elif not c:
            raise PathAbort()

    # definedness side conditions -----------------------------------------
    def _def(self, cond):
        if cond is X.TRUE:
            return True
        if cond is X.FALSE:
            return False
        if cond in self.pcset or cond in self.defset:
            return True
        if X.bnot(cond) in self.pcset:
            return False
        self.defs.append(cond)
        self.defset.add(cond)
        return True

    def nonzero(self, n):
        if not has_var(n):
            v = self.const_value(n)
            if v is not None:
                return abs(v) > 1e-25
        if not n.real:
            # complex denominators: zero only where both parts vanish; assumed away
            self.def_excluded["complex denominator = 0"] = 1
            return True
        return self._def(X.bnot(X.eq(n, X.ZERO)))

    def nonneg(self, n):
        if not has_var(n):
            v = self.const_value(n)
            if v is not None:
                return v >= 0
        return self._def(X.le(X.ZERO, n))

    def positive(self, n):
        if not has_var(n):
            v = self.const_value(n)
            if v is not None:
                return v > 0
        return self._def(X.lt(X.ZERO, n))

    def holds_def(self, cond):
        return self._def(cond)

    # ------------------------------------------------------------- decisions
    def decide(self, node):
        if node is X.TRUE:
            return True
        if node is X.FALSE:
            return False
        node = self.canon(node)
        if node is X.TRUE or node is X.FALSE:
            return node is X.TRUE
        if self.mode == "concolic":
            r = bool(X.evaluate(node, self.env, self.cmemo))
            self._add(node if r else X.bnot(node))
            return r
        neg = X.bnot(node)
        if self._known(node):
            return True
        if self._known(neg):
            return False
        if not has_var(node):
            r = self._const_bool(node)
            if r is not None:
                return r
        k = len(self.dec)
        if k < len(self.prefix):
            r = self.prefix[k]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time budget exhausted during exploration")
            t = f = False
            for i in self.pool:
                v = self.evb(node, i)
                if v is True:
                    t = True
                elif v is False:
                    f = True
                if t and f:
                    break
            if not t:
                t = self.feasible(node)
            if not f:
                f = self.feasible(neg) if t else True
            if t and f:
                self.todo.append(self.dec + [False])
                r = True
            else:
                r = t
        self.dec.append(r)
        self._add(node if r else neg)
        return r

    # complex square roots written in different ways are unified up front, so
    # that decisions taken on one form settle the same question on another
    ROOTS = ("csqrt", "cosasin", "fwdcos")

    def canon(self, n):
        if self.mode == "concolic":
            return n
        mp = {}
        for m in X.walk([n]):
            if m.op == "fn" and m.a[0] in self.ROOTS:
                r = self.canon_map.get(m)
                if r is None:
                    r = self.canon_map[m] = self._find_rep(m)
                if r is not m:
                    mp[m] = r
        if not mp:
            return n
        return X.rebuild(n, mp)

    def hint(self, w):
        """a number some complex square root may be + or - of; used only where
        the solver shows that the radicand is its square"""
        w = A.lift(w).n
        if w not in self.hints:
            self.hints.append(w)
            self.canon_map = {}

    def _find_rep(self, m):
        rm = radicand(m)
        if m.a[0] == "csqrt":
            for w in self.hints:
                d = X.sub(rm, X.powi(w, 2))
                try:
                    if self.field.probe(d) != 0:
                        continue
                except (ZeroDivisionError, ValueError):
                    continue
                if self._field_eq(d, X.ZERO) == "unsat":
                    # principal value
                    r, i = X.re(w), X.im(w)
                    up = X.bor(X.lt(X.ZERO, r), X.band(X.eq(r, X.ZERO), X.le(X.ZERO, i)))
                    return X.ite(up, w, X.neg(w))
        for p in self.reps:
            d = X.sub(radicand(p), rm)
            try:
                if self.field.probe(d) != 0:
                    continue
            except (ZeroDivisionError, ValueError):
                continue
            if self._field_eq(d, X.ZERO) != "unsat":
                continue
            for sg in (1, -1):
                q = m if sg == 1 else X.neg(m)
                extra = [self.low.pair(p)[0] == -self.low.pair(q)[0], self.low.pair(X.im(p))[0] == -self.low.pair(X.im(q))[0]]
                neg = X.bor(X.bnot(X.eq(X.re(p), X.re(q))), X.bnot(X.eq(X.im(p), X.im(q))))
                if self._check([neg] + self.box(neg), extra, 4000) == "unsat":
                    return p if sg == 1 else X.neg(p)
        self.reps.append(m)
        return m

    def _known(self, b):
        if b in self.pcset:
            return True
        if b.op == "and":
            return all(self._known(x) for x in b.a)
        if b.op == "or":
            return any(self._known(x) for x in b.a)
        if b.op == "le0":
            return X._mk("lt0", b.a, True) in self.pcset or X._cmp0("eq0", b.a[0]) in self.pcset
        return False

    def _const_bool(self, b):
        try:
            import mpmath as mp

            if b.op in ("lt0", "le0", "eq0"):
                v = mp.re(mpf_eval(b.a[0]))
                if abs(v) < mp.mpf(10) ** -30:
                    return b.op != "lt0"
                return v < 0 if b.op != "eq0" else False
            if b.op == "and":
                rs = [self._const_bool(x) for x in b.a]
                return None if None in rs else all(rs)
            if b.op == "or":
                rs = [self._const_bool(x) for x in b.a]
                return None if None in rs else any(rs)
            if b.op == "not":
                r = self._const_bool(b.a[0])
                return None if r is None else not r
        except Exception:
            return None
        return None

    def concretise_int(self, n):
        """fork over the integer values a (integer valued) node can take."""
        for i in range(64):
            if self.mode == "concolic":
                v = int(X.evaluate(n, self.env, self.cmemo))
                self._add(X.eq(n, X.const(v)))
                return v
            if self.pool:
                v = self.ev(n, self.pool[0])
            else:
                m = self.model(X.TRUE)
                if m is None:
                    raise A.Unsupported("integer value of a symbolic expression")
                v = X.evaluate(n, m)
            v = int(round(v))
            if self.decide(X.eq(n, X.const(v))):
                return v
        raise A.Unsupported("too many integer values")

    # ------------------------------------------------------------- solver
    COMPLEX_FNS = ("arg", "cabs", "cosarg", "sinarg", "cexp", "csqrt", "re", "im")

    def shallow(self, roots):
        """roots with the large arguments of complex functions replaced by
        arbitrary complex numbers (a generalisation: unsat carries over)"""
        seen, st, mp = set(), list(roots), {}
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.op == "fn" and n.a[0] in self.COMPLEX_FNS and big(n.a[1], 10):
                z = n.a[1]
                if z not in mp:
                    mp[z] = X.var("opq%d" % z.i) if z.real else X.cplx(X.var("opq%d_r" % z.i), X.var("opq%d_i" % z.i))
                continue
            st.extend(X.children(n))
        if not mp:
            return None
        memo = {}
        try:
            return [X.rebuild(r, mp, memo) for r in roots]
        except (ZeroDivisionError, NotImplementedError):
            return None

    def _check(self, roots, extra, ms, ints=False, want_model=False):
        """roots: boolean nodes to assert."""
        if not extra:
            sh = self.shallow(roots)
            if sh is not None:
                if X.FALSE in sh or self._check2([x for x in sh], None, min(ms, 2500)) == "unsat":
                    return ("unsat", None) if want_model else "unsat"
        return self._check2(roots, extra, ms, ints, want_model)

    def _check2(self, roots, extra, ms, ints=False, want_model=False):
        t0 = time.time()
        zs = [self.low.bool(b) for b in roots]
        ax, hasint = self.low.cone(roots)
        s = z3.Solver() if hasint else z3.SolverFor("QF_NRA")
        s.set("timeout", int(ms))
        s.add(*zs)
        s.add(*ax)
        if extra:
            s.add(*extra)
        self.st.queries += 1
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        m = None
        if r == "sat" and want_model:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        self.st.time += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("slow query %.1fs %s %s" % (time.time() - t0, r, X.show(roots[0], 5)[:300]), flush=True)
        setattr(self.st, r, getattr(self.st, r) + 1)
        return (r, m) if want_model else r

    def _def_nodes(self):
        return list(self.defs)

    def vars_of(self, n):
        r = self._vmemo.get(n)
        if r is None:
            r = frozenset(m for m in X.walk([n]) if m.op in ("var", "bvar") and m is not X.PI)
            self._vmemo[n] = r
        return r

    def relevant(self, node, depth=None):
        """path constraints connected to node through shared variables."""
        vs = set(self.vars_of(node))
        cand = self.pc + self._def_nodes()
        out = []
        changed = True
        left = list(cand)
        while changed:
            changed = False
            rest = []
            for c in left:
                if vs & self.vars_of(c):
                    out.append(c)
                    vs |= self.vars_of(c)
                    changed = True
                else:
                    rest.append(c)
            left = rest
        return out

    def box(self, node):
        vs = self.vars_of(node)
        return [c for c in self.pc if len(self.vars_of(c)) == 1 and self.vars_of(c) <= vs]

    def feasible(self, node):
        """could node be true on this path?  unknown counts as yes."""
        self.st.feas += 1
        key = (node, frozenset(self.pc))
        r = self.feas_cache.get(key)
        if r is None:
            # cheap: only the simple bounds
            r = self._check([node] + self.box(node), None, self.feas_ms / 2)
            if r != "unsat":
                r = self._check([node] + self.relevant(node), None, self.feas_ms)
            self.feas_cache[key] = r
        return r != "unsat"

    def sat(self, node):
        return self._check([node] + self.pc, None, self.feas_ms)

    def model(self, node, ms=None):
        r, m = self._check([node] + self.pc + self._def_nodes(), None, ms or self.feas_ms, want_model=True)
        if r != "sat" or m is None:
            return None
        return self.env_of(m)

    def env_of(self, m):
        env = {}
        for name, d in self.decl.items():
            if d and d[0] == "bool":
                v = m.eval(z3.Bool("b_" + name), model_completion=True)
                env[name] = bool(z3.is_true(v))
                continue
            if name in self.fixed:
                env[name] = self.fixed[name]
                continue
            v = m.eval(self.low.real("v_" + name), model_completion=True)
            env[name] = z3num(v)
        return env

    def refill(self, want=8, tries=300):
        """more sample points that satisfy the path condition (they only
        suggest candidates; the solver decides)."""
        if len(self.pool) >= want or self.mode != "explore" or len(self.points) > 600:
            return
        if self.refilled == len(self.pc):
            return
        self.refilled = len(self.pc)
        fix = {}
        for c in self.pc:
            if c.op == "bvar":
                fix[c.a[0]] = True
            elif c.op == "not" and c.a[0].op == "bvar":
                fix[c.a[0].a[0]] = False
        eqs = self.eq_map()
        cons = [c for c in self.pc if c.op != "eq0"]
        eq0s = [c for c in self.pc if c.op == "eq0"]

        def fresh(nm, d):
            if d and d[0] == "bool":
                return fix.get(nm, bool(random.Random("%s|r%d|%s" % (self.seed, self.nref, nm)).getrandbits(1)))
            if nm in self.fixed:
                return self.fixed[nm]
            lo, hi, a, b, pk = self.spec[nm]
            return draw(self.seed, 100000 + self.nref, nm, lo, hi, a, b, pk)

        def cost(p):
            try:
                for _ in range(1 + len(eqs)):
                    moved = False
                    for v, e in eqs.items():
                        q = float(X.evaluate(e, p, {}))
                        if q != p[v.a[0]]:
                            p[v.a[0]] = q
                            moved = True
                    if not moved:
                        break
                memo = {}
                for e in eq0s:
                    if abs(X.evaluate(e.a[0], p, memo)) > 1e-9:
                        return math.inf
                return sum(viol(c, p, memo) for c in cons)
            except Exception:
                return math.inf

        free = [nm for nm, d in self.decl.items() if nm not in self.fixed and not (d and d[0] == "bool" and nm in fix)]
        t1 = time.time() + 4.0
        if not self.pool:
            self._solved_points(fresh, cost, want)
            if len(self.pool) >= want:
                return
        while tries > 0 and time.time() < t1:
            self.nref += 1
            tries -= 1
            p = {nm: fresh(nm, d) for nm, d in self.decl.items()}
            best = cost(p)
            rng = random.Random("%s|h%d" % (self.seed, self.nref))
            stuck = 0
            while best > 0 and stuck < 12 * max(1, len(free)) and free and tries > 0 and time.time() < t1:
                nm = rng.choice(free)
                q = dict(p)
                self.nref += 1
                q[nm] = fresh(nm, self.decl[nm])
                if not isinstance(q[nm], bool) and rng.random() < 0.5:
                    q[nm] = p[nm] + (q[nm] - p[nm]) * rng.random() ** 3
                k = cost(q)
                if k < best:
                    p, best, stuck = q, k, 0
                else:
                    stuck += 1
            if best == 0:
                self.points.append(p)
                self.memos.append({})
                self.pool.append(len(self.points) - 1)
                if len(self.pool) >= want:
                    return
        if not self.pool:
            m = self.model(X.TRUE)
            if m:
                try:
                    memo = {}
                    if all(X.evaluate(c, m, memo) for c in self.pc if c.op != "eq0"):
                        self.points.append(m)
                        self.memos.append({})
                        self.pool.append(len(self.points) - 1)
                except Exception:
                    pass

    def _solved_points(self, fresh, cost, want):
        """narrow paths: points from solver models of the function-free part of
        the path condition, spread out by pulling each input towards a draw"""
        simple = [c for c in self.pc if not any(m.op == "fn" and m.a[0] != "abs" for m in X.walk([c]))]
        names = sorted({v.a[0] for c in simple for v in self.vars_of(c) if v.op == "var"})
        tight = [c for c in simple if len(self.vars_of(c)) > 1]
        if not tight:
            return
        names = [nm for nm in names if nm in self.spec and nm not in self.fixed and self.spec[nm][0] is not None
                 and self.spec[nm][1] is not None][:12]
        t1 = time.time() + 3.0
        for k in range(want):
            if time.time() > t1:
                break
            self.nref += 1
            p = {nm: fresh(nm, d) for nm, d in self.decl.items()}
            pulls = []
            order = list(names)
            random.Random("%s|s%d" % (self.seed, self.nref)).shuffle(order)
            m = None
            for nm in [None] + order:
                if nm is not None:
                    lo, hi = self.spec[nm][0], self.spec[nm][1]
                    w = to_frac((hi - lo) / 20)
                    q = to_frac(p[nm])
                    v = X.var(nm)
                    new = [X.le(X.const(q - w), v), X.le(v, X.const(q + w))]
                else:
                    new = []
                r, mm = self._check(simple + pulls + new, None, 300, want_model=True)
                if r == "sat" and mm is not None:
                    pulls += new
                    m = mm
                elif nm is None:
                    return
            env = self.env_of(m)
            p.update({nm: float(env[nm]) for nm in names})
            if cost(p) == 0:
                self.points.append(p)
                self.memos.append({})
                self.pool.append(len(self.points) - 1)

    # ------------------------------------------------------------- obligations
    def prove(self, node, label):
        """node: boolean expression that must hold."""
        self.obl += 1
        self.obl_labels[label] = self.obl_labels.get(label, 0) + 1
        if self.mode == "concolic":
            self.log.append((label, "b", node))
            return
        if node is X.TRUE:
            # still hand the query to the solver
            self._check([X.FALSE], None, 1000)
            return
        node = self.canon(node)
        neg = X.bnot(node)
        self.refill()
        bad = [i for i in self.pool if self.evb(neg, i) is True]
        if bad:
            # the solver is asked for its own witness; the pool point is kept too
            r, m = self._check([neg] + self.relevant(neg), None, self.feas_ms, want_model=True)
            pts = [dict(self.points[i]) for i in bad[:4]]
            if m is not None:
                pts.insert(0, self.env_of(m))
            self._candidate(label, pts)
            return
        r, m = self._check([neg] + self.box(neg), None, min(self.prove_ms, 4000), want_model=True)
        if r != "unsat":
            r, m = self._check([neg] + self.relevant(neg), None, self.prove_ms, want_model=True)
        if r == "unsat":
            self.st.by_pair += 1
            return
        res = self._split_prove(neg, label)
        if res == "proved":
            return
        pts = []
        if r == "sat":
            pts.append(self.env_of(m))
        self._candidate(label, pts, solver=r)

    def _split_prove(self, neg, label):
        c = first_ite(neg)
        if c is None:
            return "no"
        for val in (True, False):
            cc = c if val else X.bnot(c)
            nn = resolve_ite(neg, c, val)
            if nn is X.FALSE:
                continue
            if self._check([nn, cc] + self.relevant(X.band(nn, cc)), None, self.prove_ms // 2) == "unsat":
                continue
            if first_ite(nn) is None:
                return "no"
            saved = (list(self.pc), set(self.pcset), list(self.pool))
            self._add(cc)
            r = self._split_prove(nn, label)
            self.pc, self.pcset, self.pool = saved
            if r != "proved":
                return r
        return "proved"

    def prove_eq(self, a, b, label, tol=1e-7):
        """a, b: nodes."""
        self.obl += 1
        self.obl_labels[label] = self.obl_labels.get(label, 0) + 1
        if self.mode == "concolic":
            self.log.append((label, "e", a, b))
            return
        r, info = self._eq(self.canon(a), self.canon(b), tol, 0)
        if r == "proved":
            return
        self._candidate(label, info, solver=r)

    def numdiff(self, a, b, tol):
        """pool points where a and b clearly differ"""
        bad = []
        good = 0
        for i in self.pool:
            x, y = self.ev(a, i), self.ev(b, i)
            if bad_num(x) or bad_num(y):
                continue
            if abs(x - y) > tol * (1 + abs(x) + abs(y)):
                bad.append(i)
            else:
                good += 1
        return bad, good

    def _eq(self, a, b, tol, depth):
        """returns ('proved', None) | ('sat'|'unknown', [candidate points])"""
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted during proof")
        # path equalities first
        a0, b0 = a, b
        a, b = self.subst_eqs(a), self.subst_eqs(b)
        a, b = self.known_ites(a), self.known_ites(b)
        key = (a, b, frozenset(self.pc))
        if key in self.eqcache:
            return self.eqcache[key]
        self.refill()
        bad, good = self.numdiff(a0, b0, tol)
        r = self._field_eq(a, b)
        if r == "unsat":
            res = ("proved", None)
            self.st.by_field += 1
        elif bad:
            res = ("sat", [dict(self.points[i]) for i in bad[:6]])
        else:
            res = self._eq2(a, b, tol, depth)
        self.eqcache[key] = res
        return res

    def known_ites(self, n):
        """resolve conditionals whose condition is decided by the path"""
        for _ in range(20):
            hit = False
            for m in list(X.walk([n])):
                if m.op == "ite":
                    c = m.a[0]
                elif m.op == "fn" and m.a[0] == "abs":
                    c = X.le(X.ZERO, m.a[1])
                else:
                    continue
                if self._known(c):
                    n = resolve_ite(n, c, True)
                    hit = True
                    break
                if self._known(X.bnot(c)):
                    n = resolve_ite(n, c, False)
                    hit = True
                    break
            if not hit:
                return n
        return n

    def _eq2(self, a, b, tol, depth):
        has_ite = first_ite(a) is not None or first_ite(b) is not None
        # merge atoms that are equal on this path
        if depth < 3 and not has_ite:
            mp = self.sweep(a, b, depth)
            if mp:
                a2, b2 = subst_fix(a, mp), subst_fix(b, mp)
                if (a2, b2) != (a, b):
                    r = self._field_eq(a2, b2)
                    if r == "unsat":
                        self.st.by_field += 1
                        return ("proved", None)
                    a, b = a2, b2
        neg = X.bnot(X.eq(a, b)) if a.real and b.real else X.bor(
            X.bnot(X.eq(X.re(a), X.re(b))), X.bnot(X.eq(X.im(a), X.im(b))))
        if neg is X.FALSE:
            return ("proved", None)
        ms = self.prove_ms if depth == 0 else min(self.prove_ms, 6000)
        if has_ite:
            ms = min(ms, 1500)
        r, m = self._check([neg] + self.box(neg), None, min(ms, 5000), want_model=True)
        if r != "unsat":
            r, m = self._check([neg] + self.relevant(neg), None, ms, want_model=True)
        if r == "unsat":
            self.st.by_pair += 1
            return ("proved", None)
        if has_ite:
            c = first_ite(a) or first_ite(b)
            out = None
            for val in (True, False):
                cc = c if val else X.bnot(c)
                saved = (list(self.pc), set(self.pcset), list(self.pool))
                self._add(cc)
                if not self.pool and self._check([cc] + self.relevant(cc), None, self.feas_ms) == "unsat":
                    self.pc, self.pcset, self.pool = saved
                    continue
                rr = self._eq(resolve_ite(a, c, val), resolve_ite(b, c, val), tol, depth)
                self.pc, self.pcset, self.pool = saved
                if rr[0] != "proved":
                    return rr
            return ("proved", None)
        pts = [self.env_of(m)] if r == "sat" and m is not None else []
        return (r, pts)

    def _field_eq(self, a, b):
        t0 = time.time()
        d = X.sub(a, b)
        try:
            if self.field.probe(d) != 0:
                self.st.probed += 1
                return "unsat" if self._root_eq(d, 0) else "sat"
        except (ZeroDivisionError, ValueError):
            pass
        if self._split_eq(a, b):
            return "unsat"
        return self._field_query(d, a)

    def _root_eq(self, d, depth):
        """d == 0 using s**2 == r for one of its square roots s: write
        d = (u + v s)/w and show u == v == 0"""
        if depth > 2:
            return False
        if depth == 0:
            self._root_end = time.time() + 8
            roots = field_roots(d)
            if not roots or len(roots) > 8 or self.field.probe_roots(d, radicand) != 0:
                return False
        for s in sorted(field_roots(d), key=lambda m: -m.i)[:4]:
            try:
                u, v = split_root(d, s, radicand(s), self._root_end)
            except (ZeroDivisionError, NotImplementedError):
                continue
            if v is X.ZERO:
                continue
            ok = True
            for q in (v, u):
                if q is X.ZERO:
                    continue
                try:
                    z = self.field.probe(q)
                except (ZeroDivisionError, ValueError):
                    ok = False
                    break
                if z != 0:
                    if not self._root_eq(q, depth + 1):
                        ok = False
                        break
                elif self._field_query(q, q) != "unsat":
                    ok = False
                    break
            if ok:
                return True
        return False

    def _split_eq(self, a, b):
        """a == b as products: find groups of factors of a/b whose product is a
        rational constant (candidates from arithmetic modulo a prime), prove
        each group with the solver."""
        if a is X.ZERO or b is X.ZERO:
            return False
        try:
            q = X.mul(a, X.powi(b, -1))
        except ZeroDivisionError:
            return False
        if q.op != "mul":
            return False
        P = self.field.PRIME
        const = q.a[0]
        todo = [(f, e) for f, e in q.a[1]]
        if not 3 <= len(todo) <= 14 or sum(1 for f, e in todo if f.op == "add") < 3:
            return False
        val = {}
        try:
            for f, e in todo:
                val[f] = pow(self.field.probe(f), e, P)
        except (ZeroDivisionError, ValueError):
            return False
        groups = []
        size = 2
        import itertools

        while todo and size <= min(len(todo) - 1, 6):
            hit = None
            for S in itertools.combinations(todo, size):
                v = 1
                for f, e in S:
                    v = v * val[f] % P
                k = ratrec(v, P)
                if k is not None:
                    hit = (S, k)
                    break
            if hit is None:
                size += 1
                continue
            groups.append(hit)
            todo = [x for x in todo if x not in hit[0]]
        if not groups:
            return False
        if todo:
            v = 1
            for f, e in todo:
                v = v * val[f] % P
            k = ratrec(v, P)
            if k is None:
                return False
            groups.append((tuple(todo), k))
        for S, k in groups:
            const = const * k
        if const != 1:
            return False
        for S, k in groups:
            up = X.mul_factors([(f, e) for f, e in S if e > 0])
            dn = X.mul(X.const(k), X.mul_factors([(f, -e) for f, e in S if e < 0]))
            if self._field_query(X.sub(up, dn), up) != "unsat":
                return False
        return True

    def _field_query(self, d, a):
        t0 = time.time()
        (P, Q), den = self.field.rf(d)
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(self.prove_ms))
        conds = [P != 0]
        if Q is not None:
            conds.append(Q != 0)
        s.add(z3.Or(conds))
        self.st.queries += 1
        r = str(s.check())
        self.st.time += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("slow field query %.1fs %s %s" % (time.time() - t0, r, X.show(a, 3)[:200]), flush=True)
        setattr(self.st, r, getattr(self.st, r) + 1)
        return r

    def subst_eqs(self, n):
        mp = self.eq_map()
        if not mp:
            return n
        try:
            return X.rebuild(n, mp)
        except ZeroDivisionError:
            return n

    def eq_map(self):
        """var -> node, from the equalities of the path (triangular)"""
        mp = {}
        for c in self.pc:
            if c.op != "eq0":
                continue
            try:
                e = X.rebuild(c.a[0], mp) if mp else c.a[0]
            except ZeroDivisionError:
                continue
            t = rest = None
            if e.op == "var" and e is not X.PI:
                t, rest = e, X.ZERO
            elif e.op == "mul" and len(e.a[1]) == 1 and e.a[1][0][0].op == "var" and e.a[1][0][0] is not X.PI and e.a[1][0][1] > 0:
                t, rest = e.a[1][0][0], X.ZERO
            elif e.op == "add":
                for u, q in e.a[1]:
                    if u.op == "var" and u is not X.PI:
                        r = X.mul(X.const(-1 / q), X.sub(e, X.mul(X.const(q), u)))
                        if u not in self.vars_of(r):
                            t, rest = u, r
                            break
            if t is None:
                continue
            try:
                mp = {k: X.rebuild(v, {t: rest}) for k, v in mp.items()}
            except ZeroDivisionError:
                continue
            mp[t] = rest
        return mp

    def sweep(self, a, b, depth):
        """prove function atoms equal to each other (same values on the pool
        suggest the candidates, the solver decides)."""
        atoms = [n for n in X.walk([a, b]) if n.op == "fn" and n.a[0] not in ("re", "im", "conj")]
        if len(atoms) < 2:
            return {}
        pts = self.pool[:6]
        if len(pts) < 2:
            return self.sweep_blind(a, b, atoms, depth)
        sig = {}
        for n in sorted(atoms, key=lambda m: m.i):
            vals = [self.ev(n, i) for i in pts]
            if any(bad_num(v) for v in vals):
                continue
            sg = 1
            if n.real:
                for v in vals:
                    if abs(v) > 1e-11:
                        sg = 1 if v > 0 else -1
                        break
                vals = [v * sg for v in vals]
            key = (n.real,) + tuple(round_sig(v) for v in vals)
            sig.setdefault(key, []).append((n, sg))
        mp = {}
        groups = []
        for g in sig.values():
            if len(g) < 2:
                continue
            g = sorted(g, key=lambda m: node_depth(m[0]))
            groups.append(g)
        groups.sort(key=lambda g: node_depth(g[1][0]))
        for g in groups:
            rep, rs = g[0]
            for o, os_ in g[1:]:
                if self._atoms_equal(rep, o, depth, mp, rs * os_):
                    mp[o] = rep if rs == os_ else X.neg(rep)
        return mp

    def sweep_blind(self, a, b, atoms, depth):
        """no sample of this path: pair atoms of one side with atoms of the same
        function of the other side"""
        sa, sb = set(X.walk([a])), set(X.walk([b]))
        mp = {}
        left = sorted((n for n in atoms if n in sb and n not in sa), key=node_depth)
        right = [n for n in atoms if n in sa]
        for o in left:
            c = [r for r in right if r.a[0] == o.a[0] or (r.a[0], o.a[0]) in (("cosasin", "fwdcos"), ("fwdcos", "cosasin"))]
            for r in c[:6]:
                for sg in (1, -1) if o.a[0] in ("cosarg", "sinarg") else (1,):
                    if self._atoms_equal(r, o, depth, mp, sg):
                        mp[o] = r if sg == 1 else X.neg(r)
                        break
                if o in mp:
                    break
        return mp

    def _same_dir(self, p, q):
        """direction of q in terms of that of p: (sign of cosine, sign of sine)
        or None"""
        if self._field_eq(p, q) == "unsat":
            return (1, 1)
        pq = X.mul(p, q)
        if self._field_eq(pq, X.ONE) == "unsat":
            return (1, -1)
        if self._field_eq(p, X.neg(q)) == "unsat":
            return (-1, -1)
        if self._field_eq(pq, X.const(-1)) == "unsat":
            return (-1, 1)
        return None

    def _atoms_equal(self, p, q, depth, mp, sign=1):
        """p == sign * q ?"""
        key = (p, q, sign, frozenset(self.pc))
        if key in self.atomcache:
            return self.atomcache[key]
        r = self._atoms_equal2(p, q, depth, mp, sign)
        self.atomcache[key] = r
        return r

    def _atoms_equal2(self, p, q, depth, mp, sign):
        nm = p.a[0]
        if nm == q.a[0] and nm in ("cosarg", "sinarg", "cabs"):
            x, y = subst_fix(p.a[1], mp), subst_fix(q.a[1], mp)
            x, y = self.subst_eqs(x), self.subst_eqs(y)
            for _ in range(2):
                if nm == "cabs":
                    if sign == 1 and (self._field_eq(x, y) == "unsat" or self._field_eq(x, X.neg(y)) == "unsat"):
                        return True
                else:
                    d = self._same_dir(x, y)
                    if d is not None:
                        return d[0 if nm == "cosarg" else 1] == sign
                if depth >= 2:
                    break
                m2 = self.sweep(x, y, depth + 1)
                if not m2:
                    break
                x, y = subst_fix(x, m2), subst_fix(y, m2)
            if not (x.real and y.real):
                return False
        # congruence
        elif nm == q.a[0] and len(p.a) == len(q.a) and sign == 1:
            ok = True
            for x, y in zip(p.a[1:], q.a[1:]):
                if isinstance(x, X.N):
                    if self._eq(subst_fix(x, mp), subst_fix(y, mp), 1e-9, depth + 1)[0] != "proved":
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok:
                return True
        if depth >= 2:
            return False
        if sign < 0:
            q = X.neg(q)
        if p.real and q.real:
            neg = X.bnot(X.eq(p, q))
        else:
            neg = X.bor(X.bnot(X.eq(X.re(p), X.re(q))), X.bnot(X.eq(X.im(p), X.im(q))))
        if neg is X.FALSE:
            return True
        extra = None
        rp, rq = radicand(p), radicand(q)
        if rp is not None and rq is not None and self._field_eq(subst_fix(rp, mp), subst_fix(rq, mp)) == "unsat":
            # equal squares: q = p or q = -p, so only the second is left to refute
            extra = [self.low.pair(p)[0] == -self.low.pair(q)[0]]
            if not (p.real and q.real):
                extra.append(self.low.pair(X.im(p))[0] == -self.low.pair(X.im(q))[0])
        r = self._check([neg] + self.box(neg), extra, 3000)
        if r != "unsat":
            r = self._check([neg] + self.relevant(neg), extra, 5000)
        if r == "unsat":
            self.st.by_pair += 1
        return r == "unsat"

    # ------------------------------------------------------------- candidates
    def _candidate(self, label, pts, solver="sat"):
        cands = []
        for p in pts or []:
            cands.append({k: (bool(v) if isinstance(v, bool) else float(v)) for k, v in p.items() if k in self.decl or k == "uf"})
        for i in self.pool[:6]:
            cands.append({k: v for k, v in self.points[i].items() if k in self.decl})
        self.violations.append(dict(label=label, points=cands, solver=solver,
                                    nonpool=len(self.pool), path=list(self.dec)))

    # ------------------------------------------------------------- exploration
    def explore(self, run, stop_at=None):
        """run(): executes the harness once under the current prefix."""
        self.mode = "explore"
        self.todo = [[]]
        while self.todo:
            if self.deadline and time.time() > self.deadline:
                self.undecided.append("time budget exhausted after %d paths, %d prefixes left"
                                      % (self.paths, len(self.todo)))
                break
            if self.paths >= self.max_paths:
                self.undecided.append("path bound %d reached" % self.max_paths)
                break
            prefix = self.todo.pop()
            self.begin(prefix)
            try:
                run()
                self.paths += 1
                self._finish_path()
            except PathAbort:
                self.paths_cut += 1
            except Inconclusive as e:
                self.undecided.append(str(e))
                break
            except A.Unsupported as e:
                tb = traceback.format_exc(limit=-4)
                self.errors.append("unsupported: %s\n%s" % (e, tb))
                if len(self.errors) > 3:
                    break
            except RecursionError as e:
                self.errors.append("recursion: %s" % e)
            except Exception as e:
                # the code under test raised on this path
                self.paths += 1
                pts = [self.points[i] for i in self.pool[:4]]
                if not pts:
                    m = self.model(X.TRUE, 4000)
                    if m:
                        pts = [m]
                self.violations.append(dict(
                    label="raises %s: %s" % (type(e).__name__, str(e)[:200]),
                    points=[{k: v for k, v in p.items() if k in self.decl} for p in pts],
                    solver="path", exc=True, tb=traceback.format_exc(limit=-5),
                    path=list(self.dec)))
            if sum(1 for v in self.violations if not v.get("soft")) > 8:
                break

    def _finish_path(self):
        """where a division/sqrt/log might be undefined, look for such inputs."""
        if not self.def_probe:
            return
        for d in self.defs:
            if d in self.feas_cache:
                continue
            self.feas_cache[d] = 1
            neg = X.bnot(d)
            r, m = self._check([neg] + [c for c in self.pc], None, self.feas_ms, want_model=True)
            if r == "unsat":
                continue
            if r == "sat" and m is not None:
                self.violations.append(dict(label="undefined operation", points=[
                    {k: float(v) if not isinstance(v, bool) else v for k, v in self.env_of(m).items()}],
                    solver="sat", soft=True, path=list(self.dec)))
            k = "%s (%s)" % (X.show(d, 4)[:120], r)
            self.def_excluded[k] = self.def_excluded.get(k, 0) + 1

    def concolic(self, run, env):
        self.mode = "concolic"
        self.env = env
        self.cmemo = {}
        self.begin([])
        try:
            run()
        finally:
            self.mode = "explore"
        return self.log


# ------------------------------------------------------------------ helpers
def bad_num(v):
    try:
        return v != v or abs(v) == math.inf
    except OverflowError:
        return True


def round_sig(v):
    if isinstance(v, complex):
        return (round_sig(v.real), round_sig(v.imag))
    if abs(v) < 1e-11:
        return 0.0
    return float("%.7e" % v)


_depth_memo = {}


def big(n, limit):
    k = 0
    for _ in X.walk([n]):
        k += 1
        if k > limit:
            return True
    return False


def ratrec(v, p, bound=1 << 24):
    """the rational num/den congruent to v mod p with both below bound"""
    a, b = p, v % p
    s0, s1 = 0, 1
    while b > bound:
        q = a // b
        a, b = b, a - q * b
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound or b == 0:
        return None
    f = Fraction(b, s1)
    return f


def radicand(n):
    if n.op != "fn":
        return None
    if n.a[0] in ("sqrt", "csqrt"):
        return n.a[1]
    if n.a[0] == "cosasin":
        return X.sub(X.ONE, X.powi(n.a[1], 2))
    if n.a[0] == "fwdcos":
        return X.sub(X.ONE, X.powi(X.div(n.a[1], n.a[2]), 2))
    return None


def field_roots(n):
    """square roots that n contains outside of other functions"""
    out, seen, st = set(), set(), [n]
    while st:
        m = st.pop()
        if m in seen:
            continue
        seen.add(m)
        if m.op in ("add", "mul"):
            st.extend(X.children(m))
        elif radicand(m) is not None:
            out.add(m)
    return out


def split_root(n, s, r, end=None):
    """u, v with n == (u + v s) up to a common non-zero factor"""
    memo = {}

    def mulp(a, b):
        (u, v), (x, y) = a, b
        if v is X.ZERO and y is X.ZERO:
            return X.mul(u, x), X.ZERO
        return X.add(X.mul(u, x), X.mul(X.mul(v, y), r)), X.add(X.mul(u, y), X.mul(v, x))

    def rec(m):
        if m in memo:
            return memo[m]
        if end is not None and time.time() > end:
            raise NotImplementedError("slow")
        if m is s:
            res = (X.ZERO, X.ONE)
        elif m.op == "add":
            u, v = X.const(m.a[0]), X.ZERO
            for t, q in m.a[1]:
                x, y = rec(t)
                u, v = X.add(u, X.mul(X.const(q), x)), X.add(v, X.mul(X.const(q), y))
            res = (u, v)
        elif m.op == "mul":
            res = (X.const(m.a[0]), X.ZERO)
            for f, e in m.a[1]:
                x, y = rec(f)
                if y is X.ZERO:
                    res = mulp(res, (X.powi(x, e), X.ZERO))
                    continue
                if e < 0:
                    w = X.powi(X.sub(X.powi(x, 2), X.mul(X.powi(y, 2), r)), -1)
                    x, y = X.mul(x, w), X.neg(X.mul(y, w))
                for _ in range(abs(e)):
                    res = mulp(res, (x, y))
        else:
            res = (m, X.ZERO)
        memo[m] = res
        return res

    return rec(n)


def viol(c, p, memo):
    """how far the point p is from satisfying c (0: satisfied)"""
    if X.evaluate(c, p, memo):
        return 0.0
    if c.op in ("lt0", "le0"):
        v = X.evaluate(c.a[0], p, memo)
        return 1e-3 + math.log1p(abs(v)) if v == v else 50.0
    if c.op == "and":
        return sum(viol(x, p, memo) for x in c.a)
    if c.op == "or":
        return min(viol(x, p, memo) for x in c.a)
    return 1.0


def node_depth(n):
    r = _depth_memo.get(n)
    if r is None:
        r = _depth_memo[n] = 1 + max([node_depth(c) for c in X.children(n)], default=0)
    return r


def z3num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    try:
        return float(str(v))
    except ValueError:
        return 0.0


def first_ite(n):
    best = None
    for m in X.walk([n]):
        if m.op == "ite":
            inner = any(k.op == "ite" for k in X.walk([m.a[0]]))
            if not inner:
                if best is None or m.i < best.i:
                    best = m
        elif m.op == "fn" and m.a[0] == "abs":
            if not any(k.op == "ite" or (k.op == "fn" and k.a[0] == "abs") for k in X.walk([m.a[1]])):
                if best is None or m.i < best.i:
                    best = m
    if best is None:
        return None
    if best.op == "ite":
        return best.a[0]
    return X.le(X.ZERO, best.a[1])


def resolve_ite(n, c, val):
    neg = X.bnot(c)
    mp = {}
    for m in X.walk([n]):
        if m.op == "ite":
            if m.a[0] is c:
                mp[m] = m.a[1] if val else m.a[2]
            elif m.a[0] is neg:
                mp[m] = m.a[2] if val else m.a[1]
        elif m.op == "fn" and m.a[0] == "abs":
            if X.le(X.ZERO, m.a[1]) is c:
                mp[m] = m.a[1] if val else X.neg(m.a[1])
    r = X.rebuild(n, mp)
    return r


def subst_fix(n, mp, k=6):
    for _ in range(k):
        m = X.rebuild(n, mp)
        if m is n:
            break
        n = m
    return n


def draw(seed, i, name, lo, hi, lo_open, hi_open, pick):
    rng = random.Random("%s|%d|%s" % (seed, i, name))
    if pick is not None:
        if callable(pick):
            return float(pick(rng))
        r = rng.random()
        if r < 0.5:
            return float(rng.choice(list(pick)))
    a = -10.0 if lo is None else float(lo)
    b = (a + 20.0 if lo is not None else 10.0) if hi is None else float(hi)
    if a > b:
        a, b = b - 20.0, b
    r = rng.random()
    if r < 0.04 and lo is not None and not lo_open:
        return a
    if r > 0.96 and hi is not None and not hi_open:
        return b
    v = rng.uniform(a, b)
    if r < 0.3:
        # a short decimal, so that equalities between inputs can occur
        q = round(v, 1)
        if a < q < b:
            v = q
    return v


def reset_all():
    X.reset()
    HV_MEMO.clear()
    _depth_memo.clear()
