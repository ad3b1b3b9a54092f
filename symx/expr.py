"""Hash-consed symbolic expressions over the reals and complexes.

A node is one of
  const   a rational number
  I       the imaginary unit
  var     a real input variable (or the constant pi)
  add     rational-linear combination of non-add nodes (+ constant)
  mul     product of integer powers of nodes (coefficient kept apart)
  fn      function application (sqrt, exp, cos, ...; see lower.py for the
          axioms each function carries into the solver)
  ite     if-then-else on a boolean node
Boolean nodes: bconst, lt0 (e < 0), le0 (e <= 0), eq0 (e == 0), and, or, not,
bvar (a symbolic boolean input).

The constructors only flatten, sort and combine like terms / like factors; they
never expand products of sums and decide no identity beyond that: the solver
does.
"""
from fractions import Fraction
import math
import cmath

_tab = {}
_nodes = []
F0, F1 = Fraction(0), Fraction(1)


class N:
    __slots__ = ("op", "a", "i", "real", "sz")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.i

    def __eq__(self, o):
        return self is o


def reset():
    global PI, IM, ZERO, ONE, TRUE, FALSE
    _tab.clear()
    _nodes.clear()
    PI = _mk("var", ("pi",), True)
    IM = _mk("I", (), False)
    ZERO = const(0)
    ONE = const(1)
    TRUE = _mk("bconst", (True,), True)
    FALSE = _mk("bconst", (False,), True)


def _mk(op, a, real):
    key = (op,) + a
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.i = len(_nodes)
        n.real = real
        n.sz = 1
        _tab[key] = n
        _nodes.append(n)
    return n


def const(v):
    if isinstance(v, float):
        v = fl(v)
    return _mk("const", (Fraction(v),), True)


def fl(v):
    """float -> the rational it stands for: a fraction with a small denominator
    when one lies within a few ulp (1/3, 1 - 1/3), else its shortest decimal
    form.  Rounding is not modelled."""
    if v != v or v in (math.inf, -math.inf):
        raise OverflowError("non-finite constant")
    if v == int(v) and abs(v) < 2**53:
        return Fraction(int(v))
    r = Fraction(repr(float(v)))
    if r.denominator > 10**12:
        q = Fraction(float(v)).limit_denominator(360)
        if q != 0 and abs(q - r) <= abs(r) * Fraction(1, 2**51):
            return q
    return r


def var(name):
    return _mk("var", (name,), True)


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.a[0]


# ---------------------------------------------------------------- add / mul
def add_terms(items):
    """items: iterable of (node, Fraction)."""
    c = F0
    d = {}
    stack = list(items)
    while stack:
        n, k = stack.pop()
        if k == 0:
            continue
        if n.op == "const":
            c += k * n.a[0]
        elif n.op == "add":
            c += k * n.a[0]
            for t, q in n.a[1]:
                d[t] = d.get(t, F0) + k * q
        elif n.op == "mul" and n.a[0] != 1:
            core = _mul_core(n.a[1])
            if core.op in ("add", "const"):
                stack.append((core, k * n.a[0]))
            else:
                d[core] = d.get(core, F0) + k * n.a[0]
        else:
            d[n] = d.get(n, F0) + k
    for t in [t for t in d if t.op == "fn" and t.a[0] == "re"]:
        # re(z) + I im(z) = z
        z = t.a[1]
        w = _tab.get(("fn", "im", z))
        if w is None:
            continue
        w = mul_factors(((IM, 1), (w, 1)))
        q = d.get(t, F0)
        if q != 0 and d.get(w) == q:
            del d[t], d[w]
            d[z] = d.get(z, F0) + q
    its = tuple(
        sorted(((t, q) for t, q in d.items() if q != 0), key=lambda x: x[0].i)
    )
    if not its:
        return const(c)
    if c == 0 and len(its) == 1:
        t, q = its[0]
        if q == 1:
            return t
        return _scale(t, q)
    return _mk("add", (c, its), all(t.real for t, _ in its))


def _scale(t, q):
    """q * t for t not const/add, q != 1"""
    if t.op == "mul":
        return _mk("mul", (q * t.a[0], t.a[1]), t.real)
    return _mk("mul", (q, ((t, 1),)), t.real)


def _mul_core(fs):
    if len(fs) == 1 and fs[0][1] == 1:
        return fs[0][0]
    return _mk("mul", (F1, fs), _mul_real(fs))


def _mul_real(fs):
    return all(f.real for f, _ in fs)


def add(*ns):
    return add_terms((n, F1) for n in ns)


def sub(a, b):
    return add_terms(((a, F1), (b, -F1)))


def neg(a):
    return add_terms(((a, -F1),))


def mul_factors(items, coef=F1):
    """items: iterable of (node, int exponent)."""
    c = Fraction(coef)
    d = {}
    stack = list(items)
    while stack:
        n, e = stack.pop()
        if e == 0:
            continue
        if n.op == "const":
            if n.a[0] == 0:
                if e < 0:
                    raise ZeroDivisionError("symbolic division by zero")
                return ZERO
            c *= n.a[0] ** e
        elif n.op == "mul":
            c *= n.a[0] ** e
            for f, x in n.a[1]:
                stack.append((f, x * e))
        elif n.op == "add":
            # make primitive: leading coefficient one
            q = n.a[1][0][1]
            if q != 1:
                c *= q**e
                n = _mk(
                    "add",
                    (n.a[0] / q, tuple((t, k / q) for t, k in n.a[1])),
                    n.real,
                )
            d[n] = d.get(n, 0) + e
        else:
            d[n] = d.get(n, 0) + e
    # square roots squared, powers of I
    redo = []
    for n in list(d):
        e = d[n]
        if e == 0:
            del d[n]
        elif n.op == "I":
            e %= 4
            if e >= 2:
                c = -c
                e -= 2
            if e:
                d[n] = 1
            else:
                del d[n]
        elif n.op == "fn" and n.a[0] in ("sqrt", "csqrt") and abs(e) >= 2:
            h = int(e / 2)
            r = e - 2 * h
            if r:
                d[n] = r
            else:
                del d[n]
            redo.append((n.a[1], h))
    cb = [n for n in d if n.op == "fn" and n.a[0] == "cabs"]
    if cb and (len(cb) > 1 or d[cb[0]] != 1):
        inner = []
        for n in cb:
            inner.append((n.a[1], d.pop(n)))
        z = mul_factors(inner)
        m = fn("cabs", z)
        if m.op == "mul" or m.op == "const":
            return mul_factors(list(d.items()) + redo + [(m, 1)], c)
        d[m] = d.get(m, 0) + 1
    if redo:
        return mul_factors(list(d.items()) + redo, c)
    if not d:
        return const(c)
    fs = tuple(sorted(d.items(), key=lambda x: x[0].i))
    if len(fs) == 1 and fs[0][1] == 1:
        t = fs[0][0]
        if c == 1:
            return t
        if t.op == "add":
            return add_terms(((t, c),))
    real = True
    for f, e in fs:
        if not f.real:
            real = False
    return _mk("mul", (c, fs), real)


def mul(*ns):
    return mul_factors((n, 1) for n in ns)


def div(a, b):
    return mul_factors(((a, 1), (b, -1)))


def powi(a, k):
    return mul_factors(((a, k),))


# ---------------------------------------------------------------- complex parts
def cplx(re_, im_):
    return add(re_, mul(IM, im_))


def re(n):
    if n.real:
        return n
    if n.op == "I":
        return ZERO
    if n.op == "add":
        return add_terms([(const(n.a[0]), F1)] + [(re(t), q) for t, q in n.a[1]])
    if n.op == "mul":
        rs = [(f, e) for f, e in n.a[1] if f.real]
        zs = [(f, e) for f, e in n.a[1] if not f.real]
        hasI = any(f.op == "I" for f, _ in zs)
        zs = [(f, e) for f, e in zs if f.op != "I"]
        base = mul_factors(rs, n.a[0])
        if not zs:
            return ZERO if hasI else base
        z = mul_factors(zs)
        if z.op == "mul" and z.a[0] != 1:
            base = mul(base, const(z.a[0]))
            z = mul_factors(z.a[1])
        if hasI:
            return neg(mul(base, im(z)))
        return mul(base, _reim("re", z))
    return _reim("re", n)


def im(n):
    if n.real:
        return ZERO
    if n.op == "I":
        return ONE
    if n.op == "add":
        return add_terms([(im(t), q) for t, q in n.a[1]])
    if n.op == "mul":
        rs = [(f, e) for f, e in n.a[1] if f.real]
        zs = [(f, e) for f, e in n.a[1] if not f.real]
        hasI = any(f.op == "I" for f, _ in zs)
        zs = [(f, e) for f, e in zs if f.op != "I"]
        base = mul_factors(rs, n.a[0])
        if not zs:
            return base if hasI else ZERO
        z = mul_factors(zs)
        if z.op == "mul" and z.a[0] != 1:
            base = mul(base, const(z.a[0]))
            z = mul_factors(z.a[1])
        if hasI:
            return mul(base, re(z))
        return mul(base, _reim("im", z))
    return _reim("im", n)


def _reim(which, z):
    if z.real:
        return z if which == "re" else ZERO
    if z.op == "add":
        return re(z) if which == "re" else im(z)
    if z.op == "ite":
        c, a, b = z.a
        return ite(c, re(a), re(b)) if which == "re" else ite(c, im(a), im(b))
    if z.op == "mul" and len(z.a[1]) == 1 and z.a[1][0][1] == -1:
        # 1/w = conj(w)/|w|^2
        w = z.a[1][0][0]
        if w.op == "add":
            x, y = re(w), im(w)
            if not _has_part_atom(x) and not _has_part_atom(y):
                d = add(mul(x, x), mul(y, y))
                r = div(x, d) if which == "re" else neg(div(y, d))
                return mul(const(z.a[0]), r) if z.a[0] != 1 else r
    return _mk("fn", (which, z), True)


def _has_part_atom(n):
    return any(m.op == "fn" and m.a[0] in ("re", "im") for m in walk([n]))


def conj(n):
    if n.real:
        return n
    if n.op == "I":
        return neg(n)
    if n.op == "add":
        return add_terms([(const(n.a[0]), F1)] + [(conj(t), q) for t, q in n.a[1]])
    if n.op == "mul":
        return mul_factors([(conj(f), e) for f, e in n.a[1]], n.a[0])
    if n.op == "ite":
        return ite(n.a[0], conj(n.a[1]), conj(n.a[2]))
    if n.op == "fn" and n.a[0] == "cexp":
        return fn("cexp", conj(n.a[1]))
    if n.op == "fn" and n.a[0] == "conj":
        return n.a[1]
    return _mk("fn", ("conj", n), False)


# ---------------------------------------------------------------- functions
REAL_FNS = {
    "sqrt", "exp", "log", "sin", "cos", "atan", "asin", "acos", "abs", "cabs",
    "arg", "cosarg", "sinarg", "floor", "re", "im", "tanh", "sinh", "cosh", "round", "erf", "f32",
}


def _perfect(fr):
    p, q = fr.numerator, fr.denominator
    if p < 0:
        return None
    a, b = math.isqrt(p), math.isqrt(q)
    if a * a == p and b * b == q:
        return Fraction(a, b)
    return None


def _int_content(x):
    """largest common integer factor of the coefficients of a term"""
    if x.op == "mul":
        return abs(x.a[0].numerator)
    if x.op == "add":
        g = 0
        for q in [x.a[0]] + [q for _, q in x.a[1]]:
            g = math.gcd(g, q.numerator)
        return g
    return 1


def fn(name, *args):
    x = args[0] if args else None
    if name == "sqrt":
        if is_const(x):
            r = _perfect(cval(x))
            if r is not None:
                return const(r)
    elif name == "csqrt":
        if x.real and is_const(x) and cval(x) >= 0:
            return fn("sqrt", x)
    elif name == "exp":
        if x is ZERO:
            return ONE
        if x.op == "fn" and x.a[0] == "log":
            return x.a[1]
        c, core = _lead(x)
        if c < 0:
            return powi(fn("exp", neg(x)), -1)
        k = _int_content(x)
        if 1 < k <= 8:
            return powi(fn("exp", mul(x, const(Fraction(1, k)))), k)
    elif name == "cexp":
        if x.real:
            return fn("exp", x)
        if x is ZERO:
            return ONE
        c, core = _lead(x)
        if c < 0:
            return powi(fn("cexp", neg(x)), -1)
        if x.op == "add":
            # exp(real + complex) splits, so magnitudes become real exponentials
            rs = [(t, q) for t, q in x.a[1] if t.real]
            if rs or x.a[0] != 0:
                zs = [(t, q) for t, q in x.a[1] if not t.real]
                r = add_terms(rs + [(const(x.a[0]), F1)])
                return mul(fn("exp", r), fn("cexp", add_terms(zs)))
    elif name == "log":
        if x is ONE:
            return ZERO
        if x.op == "fn" and x.a[0] == "exp":
            return x.a[1]
        if x.op == "mul" and x.a[0] == 1 and len(x.a[1]) == 1 and x.a[1][0][0].op == "fn" and x.a[1][0][0].a[0] == "exp":
            return mul(const(x.a[1][0][1]), x.a[1][0][0].a[1])
    elif name in ("sin", "cos"):
        return _trig(name, x)
    elif name in ("atan", "asin", "tanh", "sinh", "erf"):
        if x is ZERO:
            return ZERO
        c, _ = _lead(x)
        if c < 0:
            return neg(fn(name, neg(x)))
    elif name == "abs":
        if is_const(x):
            return const(abs(cval(x)))
        if x.op == "fn" and x.a[0] in ("abs", "cabs", "sqrt", "exp"):
            return x
        c, _ = _lead(x)
        if c < 0:
            return fn("abs", neg(x))
        if x is PI:
            return x
    elif name == "cabs":
        if x.real:
            return fn("abs", x)
        if x.op == "mul":
            # real factors and exponentials leave; the other complex factors
            # stay together in one modulus
            out, zs = [], []
            for f, e in x.a[1]:
                if f.op == "I":
                    continue
                if f.real or (f.op == "fn" and f.a[0] == "cexp"):
                    out.append((fn("cabs", f), e))
                else:
                    zs.append((f, e))
            if out or abs(x.a[0]) != 1 or len(zs) != len(x.a[1]) or x.a[0] < 0:
                if zs:
                    out.append((fn("cabs", mul_factors(zs)), 1))
                return mul_factors(out, abs(x.a[0]))
        if x.op == "fn" and x.a[0] == "cexp":
            return fn("exp", re(x.a[1]))
        if x.op == "fn" and x.a[0] == "conj":
            return fn("cabs", x.a[1])
        c, _ = _lead(x)
        if c < 0:
            return fn("cabs", neg(x))
    elif name in ("cosarg", "sinarg"):
        return _dirn(name, x)
    elif name == "floor":
        if is_const(x):
            return const(math.floor(cval(x)))
    elif name == "round":
        if is_const(x):
            return const(round(cval(x)))
    elif name in ("cosasin", "fwdcos"):
        if x is ZERO:
            return ONE
    elif name == "arg":
        if is_const(x):
            if cval(x) > 0:
                return ZERO
            if cval(x) < 0:
                return PI
    real = name in REAL_FNS or name.startswith("uf:")
    return _mk("fn", (name,) + args, real)


def _dirn(name, z):
    """cos / sin of the argument of z: positive real factors drop out."""
    if z.real:
        if is_const(z):
            return const(1 if cval(z) > 0 else -1) if name == "cosarg" else ZERO
        return _mk("fn", (name, z), True)
    if z.op == "fn" and z.a[0] == "conj":
        r = _dirn(name, z.a[1])
        return r if name == "cosarg" else neg(r)
    c, _ = _lead(z)
    if z.op == "mul" and c != 1:
        return mul(const(1 if c > 0 else -1), _dirn(name, mul_factors(z.a[1])))
    if c < 0:
        return neg(_dirn(name, neg(z)))
    if z.op == "mul":
        fs = [(f, e) for f, e in z.a[1] if not (f.op == "fn" and f.a[0] in ("exp", "cabs", "sqrt"))]
        if len(fs) != len(z.a[1]):
            return _dirn(name, mul_factors(fs))
        if all(e < 0 for _, e in z.a[1]):
            r = _dirn(name, mul_factors([(f, -e) for f, e in z.a[1]]))
            return r if name == "cosarg" else neg(r)
    return _mk("fn", (name, z), True)


def _lead(x):
    """(leading coefficient, anything) used for sign normalisation."""
    if x.op == "const":
        return cval(x), None
    if x.op == "mul":
        return x.a[0], None
    if x.op == "add":
        return x.a[1][0][1], None
    return F1, None


def _trig(name, x):
    if x is ZERO:
        return ZERO if name == "sin" else ONE
    c, _ = _lead(x)
    if c < 0:
        r = _trig(name, neg(x))
        return neg(r) if name == "sin" else r
    # split off multiples of pi/2
    if x.op in ("add", "mul", "var"):
        items = x.a[1] if x.op == "add" else ((x, F1),)
        k = F0
        for t, q in items:
            if t is PI:
                k = q
            elif t.op == "mul" and t.a[1] == ((PI, 1),):
                k = q * t.a[0]
        h = Fraction(math.floor(2 * k), 1)  # number of quarter turns
        if h != 0:
            rest = sub(x, mul(const(h / 2), PI))
            h = int(h) % 4
            if name == "cos":
                r = [
                    lambda: _trig("cos", rest),
                    lambda: neg(_trig("sin", rest)),
                    lambda: neg(_trig("cos", rest)),
                    lambda: _trig("sin", rest),
                ][h]()
            else:
                r = [
                    lambda: _trig("sin", rest),
                    lambda: _trig("cos", rest),
                    lambda: neg(_trig("sin", rest)),
                    lambda: neg(_trig("cos", rest)),
                ][h]()
            return r
    if not x.real:
        # complex angle: only arcsine images are supported symbolically
        if x.op == "fn" and x.a[0] in ("casin", "casinp", "casinm"):
            z = x.a[1]
            if name == "sin":
                return z
            if x.a[0] == "casin":
                return fn("cosasin", z)
            # on the branch cuts, +0 imaginary part
            r = mul(IM, fn("sqrt", sub(powi(z, 2), ONE)))
            return neg(r) if x.a[0] == "casinp" else r
        if x.op == "ite":
            return ite(x.a[0], _trig(name, x.a[1]), _trig(name, x.a[2]))
        if x.op == "add":
            rs = [(t, q) for t, q in x.a[1] if t.real]
            zs = [(t, q) for t, q in x.a[1] if not t.real]
            if (rs or x.a[0] != 0) and zs:
                a = add_terms(rs + [(const(x.a[0]), F1)])
                b = add_terms(zs)
                ca, sa, cb, sb = (
                    _trig("cos", a), _trig("sin", a), _trig("cos", b), _trig("sin", b),
                )
                if name == "cos":
                    return sub(mul(ca, cb), mul(sa, sb))
                return add(mul(sa, cb), mul(ca, sb))
        return _mk("fn", ("c" + name, x), False)
    if x.op == "fn" and x.a[0] == "arg":
        return fn("cosarg" if name == "cos" else "sinarg", x.a[1])
    if x.op == "fn" and x.a[0] == "asin":
        if name == "sin":
            return x.a[1]
        return fn("sqrt", sub(ONE, powi(x.a[1], 2)))
    if x.op == "fn" and x.a[0] == "acos":
        if name == "cos":
            return x.a[1]
        return fn("sqrt", sub(ONE, powi(x.a[1], 2)))
    if x.op == "fn" and x.a[0] == "atan":
        h = fn("sqrt", add(ONE, powi(x.a[1], 2)))
        return div(x.a[1], h) if name == "sin" else powi(h, -1)
    if x.op == "ite":
        return ite(x.a[0], _trig(name, x.a[1]), _trig(name, x.a[2]))
    if x.op == "add" and any(
        t.op == "ite" or (t.op == "fn" and t.a[0] in ("arg", "atan", "asin", "acos"))
        for t, q in x.a[1]
        if abs(q) == 1
    ):
        for t, q in x.a[1]:
            if abs(q) == 1 and (
                t.op == "ite" or (t.op == "fn" and t.a[0] in ("arg", "atan", "asin", "acos"))
            ):
                a = mul(const(q), t)
                b = sub(x, a)
                ca, sa, cb, sb = (
                    _trig("cos", a), _trig("sin", a), _trig("cos", b), _trig("sin", b),
                )
                if name == "cos":
                    return sub(mul(ca, cb), mul(sa, sb))
                return add(mul(sa, cb), mul(ca, sb))
    return _mk("fn", (name, x), True)


# ---------------------------------------------------------------- booleans
def bconst(b):
    return TRUE if b else FALSE


def bvar(name):
    return _mk("bvar", (name,), True)


def _cmp0(op, e):
    if e.op == "const":
        v = cval(e)
        return bconst({"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[op])
    if not e.real:
        raise TypeError("ordering of complex values")
    # scale to leading coefficient +-1
    c, _ = _lead(e)
    if abs(c) != 1:
        e = mul(const(1 / abs(c)), e)
    if op == "eq0":
        c, _ = _lead(e)
        if c < 0:
            e = neg(e)
    return _mk(op, (e,), True)


def lt(a, b):
    return _cmp0("lt0", sub(a, b))


def le(a, b):
    return _cmp0("le0", sub(a, b))


def eq(a, b):
    d = sub(a, b)
    if d.real:
        return _cmp0("eq0", d)
    return band(_cmp0("eq0", re(d)), _cmp0("eq0", im(d)))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == "and":
            out.extend(b.a)
        else:
            out.append(b)
    out = tuple(sorted(set(out), key=lambda n: n.i))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    s = set(out)
    for b in out:
        if bnot(b) in s:
            return FALSE
    return _mk("and", out, True)


def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == "or":
            out.extend(b.a)
        else:
            out.append(b)
    out = tuple(sorted(set(out), key=lambda n: n.i))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    s = set(out)
    for b in out:
        if bnot(b) in s:
            return TRUE
    return _mk("or", out, True)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "lt0":
        return _cmp0("le0", neg(b.a[0]))
    if b.op == "le0":
        return _cmp0("lt0", neg(b.a[0]))
    return _mk("not", (b,), True)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.real and b.real)


BOOL_OPS = {"bconst", "lt0", "le0", "eq0", "and", "or", "not", "bvar"}


# ---------------------------------------------------------------- traversal
def children(n):
    if n.op == "add":
        return [t for t, _ in n.a[1]]
    if n.op == "mul":
        return [f for f, _ in n.a[1]]
    if n.op == "fn":
        return [x for x in n.a[1:] if isinstance(x, N)]
    if n.op in ("ite", "and", "or", "not", "lt0", "le0", "eq0"):
        return list(n.a)
    return []


def walk(roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        yield n
        stack.extend(children(n))


def rebuild(n, mp, memo=None):
    """Substitute nodes bottom-up by mapping mp (node -> node)."""
    if memo is None:
        memo = {}
    order = []
    seen = set()
    stack = [(n, False)]
    while stack:
        m, done = stack.pop()
        if m in memo:
            continue
        if done:
            order.append(m)
            continue
        if m in seen:
            continue
        seen.add(m)
        if m in mp:
            memo[m] = mp[m]
            continue
        stack.append((m, True))
        for c in children(m):
            if c not in memo:
                stack.append((c, False))
    for m in order:
        if m in memo:
            continue
        ch = children(m)
        if all(memo[c] is c for c in ch):
            memo[m] = m
            continue
        if m.op == "add":
            memo[m] = add_terms(
                [(const(m.a[0]), F1)] + [(memo[t], q) for t, q in m.a[1]]
            )
        elif m.op == "mul":
            memo[m] = mul_factors([(memo[f], e) for f, e in m.a[1]], m.a[0])
        elif m.op == "fn":
            args = [memo[x] if isinstance(x, N) else x for x in m.a[1:]]
            nm = m.a[0]
            if nm == "re":
                memo[m] = re(args[0])
            elif nm == "im":
                memo[m] = im(args[0])
            elif nm == "conj":
                memo[m] = conj(args[0])
            else:
                memo[m] = fn(nm, *args)
        elif m.op == "ite":
            memo[m] = ite(*[memo[x] for x in m.a])
        elif m.op == "and":
            memo[m] = band(*[memo[x] for x in m.a])
        elif m.op == "or":
            memo[m] = bor(*[memo[x] for x in m.a])
        elif m.op == "not":
            memo[m] = bnot(memo[m.a[0]])
        else:
            memo[m] = _cmp0(m.op, memo[m.a[0]])
    return memo[n]


# ---------------------------------------------------------------- numerics
def evaluate(n, env, memo=None):
    """Numeric value of a node; env: var/bvar/uf name -> value."""
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        m = stack[-1]
        if m in memo:
            stack.pop()
            continue
        if m.op == "ite":
            c = m.a[0]
            if c not in memo:
                stack.append(c)
                continue
            t = m.a[1] if memo[c] else m.a[2]
            if t not in memo:
                stack.append(t)
                continue
            memo[m] = memo[t]
            stack.pop()
            continue
        ch = [c for c in children(m) if c not in memo]
        if ch:
            stack.extend(ch)
            continue
        memo[m] = _ev(m, env, memo)
        stack.pop()
    return memo[n]


def _ev(m, env, memo):
    op = m.op
    if op == "const":
        return float(m.a[0])
    if op == "I":
        return 1j
    if op == "var":
        return math.pi if m is PI else env[m.a[0]]
    if op == "bvar":
        return bool(env[m.a[0]])
    if op == "bconst":
        return m.a[0]
    if op == "add":
        s = float(m.a[0])
        for t, q in m.a[1]:
            s = s + float(q) * memo[t]
        return s
    if op == "mul":
        s = float(m.a[0])
        try:
            ex = 0.0
            for f, e in m.a[1]:
                if f.op == "fn" and f.a[0] == "exp":
                    # one exponential for all the factors: their product
                    # is representable where the factors are not
                    ex = ex + e * memo[f.a[1]]
                    continue
                v = memo[f]
                s = s * (v**e if e > 0 else 1 / v ** (-e))
            if ex:
                s = s * (math.inf if ex >= 709 else math.exp(ex))
        except (ZeroDivisionError, OverflowError):
            return math.nan
        return s
    if op == "lt0":
        return memo[m.a[0]] < 0
    if op == "le0":
        return memo[m.a[0]] <= 0
    if op == "eq0":
        return memo[m.a[0]] == 0
    if op == "and":
        return all(memo[x] for x in m.a)
    if op == "or":
        return any(memo[x] for x in m.a)
    if op == "not":
        return not memo[m.a[0]]
    if op == "fn":
        args = [memo[x] if isinstance(x, N) else x for x in m.a[1:]]
        return ev_fn(m.a[0], args, env)
    raise NotImplementedError(op)


def default_uf(name, args):
    """stand-in used when an uninterpreted function has to be evaluated."""
    h = sum(ord(ch) * (i + 1) for i, ch in enumerate(name)) % 97
    return 0.5 + 0.45 * math.sin(h + sum((1.3 + 0.7 * i) * float(a) for i, a in enumerate(args)))


def ev_fn(name, args, env):
    x = args[0] if args else None
    try:
        if name.startswith("uf:"):
            nm = name[3:]
            if nm.startswith("vec"):
                return tuple(args)
            if nm == "hilbert":
                import numpy as _np
                import scipy.fftpack as _ft
                return float(_ft.hilbert(_np.array(args[0]))[int(args[1])])
            return default_uf(nm, args)
        if isinstance(x, complex) and (x != x):
            return complex(math.nan, math.nan)
        if name == "sqrt":
            return math.sqrt(x)
        if name == "csqrt":
            return cmath.sqrt(x)
        if name == "exp":
            return math.exp(x) if x < 709 else math.inf
        if name == "cexp":
            return cmath.exp(x)
        if name == "log":
            return math.log(x)
        if name == "clog":
            return cmath.log(x)
        if name == "sin":
            return math.sin(x)
        if name == "cos":
            return math.cos(x)
        if name == "csin":
            return cmath.sin(x)
        if name == "ccos":
            return cmath.cos(x)
        if name == "atan":
            return math.atan(x)
        if name == "asin":
            return math.asin(x)
        if name == "acos":
            return math.acos(x)
        if name == "tanh":
            return math.tanh(x)
        if name == "sinh":
            return math.sinh(x)
        if name == "cosh":
            return math.cosh(x)
        if name == "erf":
            return math.erf(x)
        if name in ("abs", "cabs"):
            return abs(x)
        if name == "arg":
            return cmath.phase(x)
        if name == "cosarg":
            return math.cos(cmath.phase(x))
        if name == "sinarg":
            return math.sin(cmath.phase(x))
        if name == "re":
            return complex(x).real
        if name == "im":
            return complex(x).imag
        if name == "conj":
            return complex(x).conjugate()
        if name == "floor":
            return float(math.floor(x))
        if name == "round":
            return float(round(x))
        if name in ("casin", "casinp", "casinm"):
            import numpy as _np
            z = complex(x)
            return complex(_np.arcsin(complex(z.real, z.imag if z.imag else 0.0)))
        if name == "cosasin":
            import numpy as _np
            z = complex(x)
            z = complex(z.real, z.imag if z.imag else 0.0)
            return complex(_np.cos(_np.arcsin(z)))
        if name == "f32":
            import numpy as _np
            return float(_np.float32(x))
        if name == "fwdcos":
            # args: transverse index n0*sin(th0), layer index n
            s, n = complex(args[0]), complex(args[1])
            c = cmath.sqrt(1 - (s / n) ** 2)
            k = n * c
            if k.imag < -1e-14 or (abs(k.imag) <= 1e-14 and k.real < 0):
                c = -c
            return c
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    raise NotImplementedError("eval " + name)


def show(n, depth=6):
    if depth == 0:
        return "..."
    d = depth - 1
    if n.op == "const":
        return str(n.a[0]) if n.a[0].denominator < 10**6 else repr(float(n.a[0]))
    if n.op == "I":
        return "I"
    if n.op in ("var", "bvar"):
        return str(n.a[0])
    if n.op == "bconst":
        return str(n.a[0])
    if n.op == "add":
        return (
            "("
            + " + ".join(
                ([str(float(n.a[0]))] if n.a[0] else [])
                + [(("%g*" % float(q)) if q != 1 else "") + show(t, d) for t, q in n.a[1]]
            )
            + ")"
        )
    if n.op == "mul":
        return "*".join(
            ([("%g" % float(n.a[0]))] if n.a[0] != 1 else [])
            + [show(f, d) + ("^%d" % e if e != 1 else "") for f, e in n.a[1]]
        )
    if n.op == "fn":
        return n.a[0] + "(" + ", ".join(show(x, d) if isinstance(x, N) else str(x) for x in n.a[1:]) + ")"
    return n.op + "(" + ", ".join(show(x, d) for x in n.a) + ")"


reset()
