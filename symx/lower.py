"""Lowering of expression nodes to z3 real arithmetic.

A complex node becomes a pair (re, im).  Function atoms become fresh reals and
carry axioms that are true of the function they stand for, so `unsat` is sound;
`sat` models are only candidates and are confirmed on the real code.
"""
from fractions import Fraction
import math
import z3

from . import expr as X

_enc_cache = {}


def rat(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def has_var(n, memo={}):
    """does the node depend on an input variable (other than pi)?"""
    key = n
    if key in memo:
        return memo[key]
    st = [(n, False)]
    while st:
        m, done = st.pop()
        if m in memo:
            continue
        if m.op == "var":
            memo[m] = m is not X.PI
            continue
        if m.op == "bvar":
            memo[m] = True
            continue
        ch = X.children(m)
        if not ch:
            memo[m] = m.op == "fn" and m.a[0].startswith("uf:")
            continue
        if done:
            memo[m] = any(memo[c] for c in ch) or (m.op == "fn" and m.a[0].startswith("uf:"))
        else:
            st.append((m, True))
            st.extend((c, False) for c in ch)
    return memo[n]


HV_MEMO = has_var.__defaults__[0]


def mpf_eval(n, prec=40):
    """high precision value of a constant node (mpmath)."""
    import mpmath as mp

    mp.mp.dps = prec
    memo = {}

    def ev(m):
        if m in memo:
            return memo[m]
        if m.op == "const":
            r = mp.mpf(m.a[0].numerator) / m.a[0].denominator
        elif m.op == "I":
            r = mp.mpc(0, 1)
        elif m is X.PI:
            r = mp.pi + 0
        elif m.op == "add":
            r = mp.mpf(m.a[0].numerator) / m.a[0].denominator
            for t, q in m.a[1]:
                r = r + ev(t) * q.numerator / q.denominator
        elif m.op == "mul":
            r = mp.mpf(m.a[0].numerator) / m.a[0].denominator
            for f, e in m.a[1]:
                r = r * ev(f) ** e
        elif m.op == "fn":
            nm = m.a[0]
            a = [ev(x) if isinstance(x, X.N) else x for x in m.a[1:]]
            tab = {
                "sqrt": mp.sqrt, "csqrt": mp.sqrt, "exp": mp.exp, "cexp": mp.exp,
                "log": mp.log, "sin": mp.sin, "cos": mp.cos, "atan": mp.atan,
                "asin": mp.asin, "acos": mp.acos, "abs": abs, "cabs": abs,
                "arg": mp.arg, "floor": mp.floor, "re": mp.re, "im": mp.im,
                "conj": mp.conj, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
                "erf": mp.erf, "csin": mp.sin, "ccos": mp.cos,
            }
            if nm not in tab:
                raise KeyError(nm)
            r = tab[nm](*a)
        elif m.op == "ite":
            r = ev(m.a[1]) if evb(m.a[0]) else ev(m.a[2])
        else:
            raise KeyError(m.op)
        memo[m] = r
        return r

    def evb(b):
        v = {"lt0": lambda e: e < 0, "le0": lambda e: e <= 0, "eq0": lambda e: e == 0}
        if b.op in v:
            return v[b.op](mp.re(ev(b.a[0])))
        if b.op == "and":
            return all(evb(x) for x in b.a)
        if b.op == "or":
            return any(evb(x) for x in b.a)
        if b.op == "not":
            return not evb(b.a[0])
        return b.a[0]

    return ev(n)


class Lower:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.ax = {}  # atom node -> list of z3 axioms
        self.vars = {}
        self.nf = 0
        self.ints = set()  # atoms needing integers

    # ------------------------------------------------------------- variables
    def real(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Real(name)
        return v

    def fresh(self, base):
        self.nf += 1
        return z3.Real("_%s_%d" % (base, self.nf))

    # ------------------------------------------------------------- numbers
    def re(self, n):
        return self.pair(n)[0]

    def pair(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self._pair(n)
        return r

    def _pair(self, n):
        op = n.op
        if op == "const":
            return (rat(n.a[0]), None)
        if op == "I":
            return (z3.RealVal(0), z3.RealVal(1))
        if op == "var":
            return (self.real("pi" if n is X.PI else "v_" + n.a[0]), None)
        if op == "add":
            R, I = [], []
            if n.a[0] != 0:
                R.append(rat(n.a[0]))
            for t, q in n.a[1]:
                a, b = self.pair(t)
                R.append(a if q == 1 else rat(q) * a)
                if b is not None:
                    I.append(b if q == 1 else rat(q) * b)
            return (z3.Sum(R) if R else z3.RealVal(0), z3.Sum(I) if I else None)
        if op == "mul":
            acc = (rat(n.a[0]), None) if n.a[0] != 1 else None
            for f, e in n.a[1]:
                p = self.pair(f)
                if e < 0:
                    p = self._inv(p)
                for _ in range(abs(e)):
                    acc = p if acc is None else self._mul(acc, p)
            return acc
        if op == "ite":
            c = self.bool(n.a[0])
            a, b = self.pair(n.a[1]), self.pair(n.a[2])
            r = z3.If(c, a[0], b[0])
            if a[1] is None and b[1] is None:
                return (r, None)
            z = z3.RealVal(0)
            return (r, z3.If(c, z if a[1] is None else a[1], z if b[1] is None else b[1]))
        if op == "fn":
            return self._fn(n)
        raise NotImplementedError(op)

    def _mul(self, a, b):
        if a[1] is None and b[1] is None:
            return (a[0] * b[0], None)
        if a[1] is None:
            return (a[0] * b[0], a[0] * b[1])
        if b[1] is None:
            return (a[0] * b[0], a[1] * b[0])
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    def _inv(self, a):
        if a[1] is None:
            return (1 / a[0], None)
        d = a[0] * a[0] + a[1] * a[1]
        return (a[0] / d, -a[1] / d)

    def _fn(self, n):
        nm = n.a[0]
        A = []
        args = n.a[1:]
        if nm == "re":
            return (self.pair(args[0])[0], None)
        if nm == "im":
            p = self.pair(args[0])
            return (z3.RealVal(0) if p[1] is None else p[1], None)
        if nm == "conj":
            p = self.pair(args[0])
            return (p[0], None if p[1] is None else -p[1])
        if nm == "abs":
            p = self.pair(args[0])[0]
            return (z3.If(p >= 0, p, -p), None)
        if nm.startswith("uf:"):
            zs = [self.pair(a)[0] if isinstance(a, X.N) else z3.RealVal(a) for a in args]
            if not zs:
                return (self.real("u_" + nm[3:]), None)
            f = z3.Function("u_" + nm[3:], *([z3.RealSort()] * (len(zs) + 1)))
            self.ints.add(n)
            return (f(*zs), None)
        if n.real:
            v = self.fresh(nm)
            out = (v, None)
        else:
            v = self.fresh(nm + "_r")
            w = self.fresh(nm + "_i")
            out = (v, w)
        self.memo[n] = out
        self.ax[n] = None  # computed lazily
        return out

    # ------------------------------------------------------------- axioms
    def axioms_of(self, n):
        """axioms for a single atom (may lower further nodes)."""
        a = self.ax.get(n, 0)
        if a == 0:
            return []
        if a is None:
            a = self.ax[n] = self._axioms(n)
        return a

    def _axioms(self, n):
        nm = n.a[0]
        args = n.a[1:]
        v, w = self.memo[n]
        A = []
        if not has_var(n):
            try:
                val = mpf_eval(n)
                import mpmath as mp

                for zv, x in ((v, mp.re(val)), (w, mp.im(val))):
                    if zv is None:
                        continue
                    s = Fraction(mp.nstr(x, 25, strip_zeros=False).replace("e", "E")) if x != 0 else Fraction(0)
                    eps = abs(s) * Fraction(1, 10**22) + Fraction(1, 10**40)
                    if x == 0:
                        eps = Fraction(1, 10**30)
                    A += [zv > rat(s - eps), zv < rat(s + eps)]
            except Exception:
                pass
        if nm == "sqrt":
            x = self.re(args[0])
            A += [v >= 0, v * v == x]
        elif nm in ("csqrt", "cosasin"):
            if nm == "csqrt":
                z = args[0]
            else:
                z = X.sub(X.ONE, X.powi(args[0], 2))
            x, y = self.pair(z)
            y = z3.RealVal(0) if y is None else y
            A += [v * v - w * w == x, 2 * v * w == y, v >= 0]
            if nm == "csqrt":
                A += [z3.Implies(v == 0, w >= 0)]
        elif nm == "fwdcos":
            s, m = args
            z = X.sub(X.ONE, X.powi(X.div(s, m), 2))
            x, y = self.pair(z)
            y = z3.RealVal(0) if y is None else y
            A += [v * v - w * w == x, 2 * v * w == y]
            k = self._mul((v, w), self.pair(m))
            ki = k[1]
            A += [ki >= 0, z3.Implies(ki == 0, k[0] >= 0)]
        elif nm == "exp":
            x = self.re(args[0])
            A += [v > 0, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1),
                  z3.Implies(x == 0, v == 1), v >= 1 + x]
        elif nm == "cexp":
            z = args[0]
            m = X.fn("exp", X.re(z))
            mm = self.re(m)
            A += [v * v + w * w == mm * mm]
        elif nm in ("sin", "cos"):
            s = X.fn("sin", args[0])
            c = X.fn("cos", args[0])
            if s.op == "fn" and c.op == "fn" and s.a[1] is args[0] and c.a[1] is args[0]:
                zs, zc = self.re(s), self.re(c)
                A += [zs * zs + zc * zc == 1]
                t = X.div(args[0], X.PI)
                if not any(m is X.PI for m in X.walk([t])):
                    u = self.re(t)
                    A += [
                        z3.Implies(z3.And(u > 0, u < 1), zs > 0),
                        z3.Implies(z3.And(u > rat(Fraction(-1, 2)), u < rat(Fraction(1, 2))), zc > 0),
                        z3.Implies(z3.And(u > -1, u < 0), zs < 0),
                        z3.Implies(z3.And(u > rat(Fraction(1, 2)), u < rat(Fraction(3, 2))), zc < 0),
                    ]
        elif nm == "arg":
            x, y = self.pair(args[0])
            y = z3.RealVal(0) if y is None else y
            pi = self.real("pi")
            A += [
                v > -pi, v <= pi,
                z3.Implies(y > 0, z3.And(v > 0, v < pi)),
                z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                z3.Implies(z3.And(y == 0, x > 0), v == 0),
                z3.Implies(z3.And(y == 0, x < 0), v == pi),
                z3.Implies(x > 0, z3.And(2 * v < pi, 2 * v > -pi)),
                z3.Implies(z3.And(x < 0, y > 0), 2 * v > pi),
                z3.Implies(z3.And(x < 0, y < 0), 2 * v < -pi),
                z3.Implies(z3.And(x == 0, y > 0), 2 * v == pi),
                z3.Implies(z3.And(x == 0, y < 0), 2 * v == -pi),
            ]
        elif nm == "atan":
            x = self.re(args[0])
            pi = self.real("pi")
            A += [2 * v < pi, 2 * v > -pi, z3.Implies(x > 0, v > 0),
                  z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0),
                  z3.Implies(x >= 0, v <= x), z3.Implies(x > 1, 4 * v > pi),
                  z3.Implies(x < 1, 4 * v < pi)]
        elif nm == "erf":
            x = self.re(args[0])
            A += [v > -1, v < 1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
        elif nm in ("asin", "acos"):
            x = self.re(args[0])
            pi = self.real("pi")
            if nm == "asin":
                A += [2 * v <= pi, 2 * v >= -pi, z3.Implies(x > 0, v > 0),
                      z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
            else:
                A += [v >= 0, v <= pi, z3.Implies(x < 1, v > 0), z3.Implies(x > 0, 2 * v < pi),
                      z3.Implies(x < 0, 2 * v > pi)]
        elif nm in ("cosarg", "sinarg"):
            x, y = self.pair(args[0])
            y = z3.RealVal(0) if y is None else y
            m = self.re(X._mk("fn", ("cabs", args[0]), True))
            A += [v * m == (x if nm == "cosarg" else y), v <= 1, v >= -1]
        elif nm == "cabs":
            x, y = self.pair(args[0])
            y = z3.RealVal(0) if y is None else y
            A += [v >= 0, v * v == x * x + y * y]
        elif nm == "log":
            x = self.re(args[0])
            A += [z3.Implies(x > 1, v > 0), z3.Implies(x < 1, v < 0), z3.Implies(x == 1, v == 0), v <= x - 1]
        elif nm == "floor":
            x = self.re(args[0])
            k = z3.Int("_k_%d" % n.i)
            self.ints.add(n)
            A += [v == z3.ToReal(k), v <= x, x < v + 1]
        elif nm == "round":
            x = self.re(args[0])
            k = z3.Int("_k_%d" % n.i)
            j = z3.Int("_j_%d" % n.i)
            self.ints.add(n)
            A += [v == z3.ToReal(k), 2 * (x - v) <= 1, 2 * (x - v) >= -1,
                  z3.Implies(z3.Or(2 * (x - v) == 1, 2 * (x - v) == -1), k == 2 * j)]
        elif nm == "tanh":
            x = self.re(args[0])
            A += [v > -1, v < 1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
        return A

    MONO = {"erf": 1, "exp": 1, "log": 1, "atan": 1, "asin": 1, "acos": -1, "sqrt": 1}

    def cone(self, roots):
        """all axioms (transitively) needed for z3 terms lowered from roots."""
        seen = set()
        out = []
        work = list(roots)
        atoms = []
        seen_nodes = set()
        while work:
            r = work.pop()
            for n in X.walk([r]):
                if n in seen_nodes:
                    continue
                seen_nodes.add(n)
                if n.op == "fn" and n in self.ax and n not in seen:
                    seen.add(n)
                    atoms.append(n)
                    out.extend(self.axioms_of(n))
                    # axioms may mention atoms not below n
                    for extra in self._ax_nodes(n):
                        if extra not in seen_nodes:
                            work.append(extra)
        # pairwise monotonicity
        groups = {}
        for a in atoms:
            if a.a[0] in self.MONO and a.a[0] != "sqrt":
                groups.setdefault(a.a[0], []).append(a)
        for nm, g in groups.items():
            g = sorted(g, key=lambda m: m.i)[:8]
            for i in range(len(g)):
                for j in range(i):
                    x, y = self.re(g[i].a[1]), self.re(g[j].a[1])
                    vx, vy = self.memo[g[i]][0], self.memo[g[j]][0]
                    if self.MONO[nm] > 0:
                        out += [(x < y) == (vx < vy), (x == y) == (vx == vy)]
                    else:
                        out += [(x < y) == (vx > vy), (x == y) == (vx == vy)]
        # the argument of a complex number depends on its direction only
        g = sorted((a for a in atoms if a.a[0] == "arg"), key=lambda m: m.i)[:8]
        for i in range(len(g)):
            for j in range(i):
                x1, y1 = self.pair(g[i].a[1])
                x2, y2 = self.pair(g[j].a[1])
                y1 = z3.RealVal(0) if y1 is None else y1
                y2 = z3.RealVal(0) if y2 is None else y2
                out.append(z3.Implies(z3.And(x1 * y2 == x2 * y1, z3.Or(x1 * x2 > 0, y1 * y2 > 0)), self.memo[g[i]][0] == self.memo[g[j]][0]))
        ints = any(n in self.ints for n in seen_nodes)
        usespi = any(n is X.PI for n in seen_nodes) or any(
            a.a[0] in ("arg", "atan", "asin", "acos") for a in atoms
        )
        if usespi:
            pi = self.real("pi")
            out += [pi > rat(Fraction("3.14159265358979323")), pi < rat(Fraction("3.14159265358979324"))]
        return out, ints

    def _ax_nodes(self, n):
        nm = n.a[0]
        if nm in ("cosarg", "sinarg"):
            return [X._mk("fn", ("cabs", n.a[1]), True)]
        if nm == "cexp":
            return [X.fn("exp", X.re(n.a[1]))]
        if nm in ("sin", "cos"):
            return [X.fn("sin", n.a[1]), X.fn("cos", n.a[1])]
        return []

    # ------------------------------------------------------------- booleans
    def bool(self, b):
        r = self.bmemo.get(b)
        if r is None:
            r = self.bmemo[b] = self._bool(b)
        return r

    def _bool(self, b):
        op = b.op
        if op == "bconst":
            return z3.BoolVal(b.a[0])
        if op == "bvar":
            return z3.Bool("b_" + b.a[0])
        if op in ("lt0", "le0", "eq0"):
            e = b.a[0]
            l, r = self._sides(e)
            return l < r if op == "lt0" else (l <= r if op == "le0" else l == r)
        if op == "and":
            return z3.And([self.bool(x) for x in b.a])
        if op == "or":
            return z3.Or([self.bool(x) for x in b.a])
        if op == "not":
            return z3.Not(self.bool(b.a[0]))
        raise NotImplementedError(op)

    def _sides(self, e):
        return self.re(e), z3.RealVal(0)


# ------------------------------------------------------------------ field mode
class Field:
    """Rational functions over function atoms treated as independent
    indeterminates.  An identity proved here holds for every value of the atoms
    (real or complex), hence for the values they really take."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}

    def atom(self, n):
        v = self.atoms.get(n)
        if v is None:
            v = self.atoms[n] = z3.Real("a%d" % n.i)
        return v

    # value: (num pair (P, Q|None), den dict factor-node->exponent)
    def rf(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self._rf(n)
        return r

    def _rf(self, n):
        op = n.op
        if op == "const":
            return ((rat(n.a[0]), None), {})
        if op == "I":
            return ((z3.RealVal(0), z3.RealVal(1)), {})
        if op == "mul":
            acc = (rat(n.a[0]), None)
            den = {}
            for f, e in n.a[1]:
                if e > 0:
                    p, d = self.rf(f)
                    for _ in range(e):
                        acc = cmul(acc, p)
                    for k, x in d.items():
                        den[k] = den.get(k, 0) + x * e
                else:
                    p, d = self.rf(f)
                    # 1/f = d / p ; keep p as an opaque denominator factor keyed by node
                    for k, x in d.items():
                        for _ in range(x * -e):
                            acc = cmul(acc, self.denval(k))
                    den[f] = den.get(f, 0) - e
            return (acc, den)
        if op == "add":
            parts = [((rat(n.a[0]), None), {})] if n.a[0] != 0 else []
            for t, q in n.a[1]:
                p, d = self.rf(t)
                parts.append((cscale(rat(q), p) if q != 1 else p, d))
            den = {}
            for _, d in parts:
                for k, x in d.items():
                    den[k] = max(den.get(k, 0), x)
            R = None
            for p, d in parts:
                for k, x in den.items():
                    for _ in range(x - d.get(k, 0)):
                        p = cmul(p, self.denval(k))
                R = p if R is None else cadd(R, p)
            return (R, den)
        # atom
        return ((self.atom(n), None), {})

    PRIME = 2305843009213693921  # 2^61 - 31, congruent 1 mod 4

    def probe(self, n):
        """value of n in GF(p) with every atom replaced by a random element:
        non-zero shows that n is not identically zero (no solver needed)."""
        P = self.PRIME
        memo = self.__dict__.setdefault("pmemo", {})
        if "I" not in self.__dict__:
            import random as _r

            self.rng = _r.Random(5)
            g = 2
            while pow(g, (P - 1) // 2, P) != P - 1:
                g += 1
            self.I = pow(g, (P - 1) // 4, P)
        st = [(n, False)]
        while st:
            m, done = st.pop()
            if m in memo:
                continue
            op = m.op
            if op == "const":
                memo[m] = m.a[0].numerator % P * pow(m.a[0].denominator, -1, P) % P
            elif op == "I":
                memo[m] = self.I
            elif op in ("add", "mul"):
                if not done:
                    st.append((m, True))
                    st.extend((c, False) for c in X.children(m))
                    continue
                q = m.a[0].numerator % P * pow(m.a[0].denominator, -1, P) % P
                if op == "add":
                    for t, k in m.a[1]:
                        q += memo[t] * (k.numerator % P) * pow(k.denominator, -1, P)
                    memo[m] = q % P
                else:
                    for f, e in m.a[1]:
                        b = memo[f]
                        if b == 0 and e < 0:
                            raise ZeroDivisionError
                        q = q * pow(b, e, P) % P
                    memo[m] = q
            else:
                memo[m] = self.rng.randrange(1, P)
        return memo[n]

    def probe_roots(self, n, radicand, tries=160):
        """as probe, but with square roots s of r such that s**2 == r in GF(p).
        Returns None when no such point was found."""
        import random as _r

        self.probe(X.ONE)
        P = self.PRIME
        for t in range(tries):
            rng = _r.Random(1000 + t)
            memo = {}
            try:
                return self._probe_at(n, radicand, memo, rng, P)
            except ArithmeticError:
                continue
        return None

    def _probe_at(self, n, radicand, memo, rng, P):
        def rec(m):
            if m in memo:
                return memo[m]
            op = m.op
            if op == "const":
                v = m.a[0].numerator % P * pow(m.a[0].denominator, -1, P) % P
            elif op == "I":
                v = self.I
            elif op in ("add", "mul"):
                v = m.a[0].numerator % P * pow(m.a[0].denominator, -1, P) % P
                if op == "add":
                    for t, k in m.a[1]:
                        v += rec(t) * (k.numerator % P) * pow(k.denominator, -1, P)
                    v %= P
                else:
                    for f, e in m.a[1]:
                        b = rec(f)
                        if b == 0 and e < 0:
                            raise ZeroDivisionError
                        v = v * pow(b, e, P) % P
            else:
                r = radicand(m)
                v = rng.randrange(1, P) if r is None else modsqrt(rec(r), P)
            memo[m] = v
            return v

        return rec(n)

    def denval(self, f):
        """numerator of the rational function of denominator factor f."""
        return self.rf(f)[0]


def cmul(a, b):
    if a[1] is None and b[1] is None:
        return (a[0] * b[0], None)
    if a[1] is None:
        return (a[0] * b[0], a[0] * b[1])
    if b[1] is None:
        return (a[0] * b[0], a[1] * b[0])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    i = a[1] if b[1] is None else (b[1] if a[1] is None else a[1] + b[1])
    return (a[0] + b[0], i)


def cscale(q, a):
    return (q * a[0], None if a[1] is None else q * a[1])


def modsqrt(a, P):
    """a square root of a modulo the prime P (Tonelli, Shanks)"""
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        raise ArithmeticError
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (P - 1) // 2, P) != P - 1:
        z += 1
    m, c, t, r = s, pow(z, q, P), pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c = i, b * b % P
        t, r = t * c % P, r * b % P
    return r
