"""C10: Gaussian oscillators: Gaussian absorption and its Kramers-Kronig partner."""
import math

from .c08 import HC, flat

ASSUMES = [
    "the discrete Hilbert transform (scipy.fftpack.hilbert) is applied numerically to the coefficient vectors of the symbolic amplitudes",
    "real part and values between grid energies: broadenings and centre energies from a finite list (see bounds); amplitudes, offset and energy are symbolic",
]
STEP = 40 / 2047
TOL = 0.03


def sig(B):
    return B / 2 / math.sqrt(math.log(2))


def gauss(B, En):
    """imaginary and real part of a unit oscillator, and their derivatives"""
    from scipy.special import dawsn

    s = sig(B)

    def im(E):
        a, b = (E - En) / s, (E + En) / s
        f = math.exp(-a * a) - math.exp(-b * b)
        return f, (-2 * a * math.exp(-a * a) + 2 * b * math.exp(-b * b)) / s

    def re(E):
        a, b = (E - En) / s, (E + En) / s
        q = 2 / math.sqrt(math.pi)
        da, db = float(dawsn(a)), float(dawsn(b))
        return q * (db - da), q * ((1 - 2 * b * db) - (1 - 2 * a * da)) / s

    # |second derivative| of either is below 6 / s**2, of which half a cell
    return im, re, 6 / s**2 * (STEP / 2) ** 2 / 2


def cells(c, pars, lo, hi, stride):
    """every energy within the chosen grid cells, every amplitude"""
    np, R = c.np, c.R
    n = len(pars)
    A = [c.real("A%d" % i, 0, 50) for i in range(n)]
    Einf = c.real("Einf", 0.5, 5)
    g = R.Gauss(list(A), [p[0] for p in pars], [p[1] for p in pars], Einf)
    first = int((lo + 20) / STEP)
    ks = list(range(first, int((hi + 20) / STEP), stride))
    Es = [c.real("E%d" % k, -20 + k * STEP + 1e-9, -20 + (k + 1) * STEP - 1e-9) for k in ks]
    got = g.epsilon(np.array(Es))
    c.check_eq(np.shape(got), (len(ks),), "one value per energy")
    fs = [gauss(*p) for p in pars]
    for j, k in enumerate(ks):
        m = -20 + (k + 0.5) * STEP
        wi = wr = tol = 0
        for a, (im, re, rem) in zip(A, fs):
            if c.conc:
                wi, wr, tol = wi + a * im(Es[j])[0], wr + a * re(Es[j])[0], tol + a * TOL
            else:
                (i0, i1), (r0, r1) = im(m), re(m)
                wi, wr = wi + a * (i0 + i1 * (Es[j] - m)), wr + a * (r0 + r1 * (Es[j] - m))
                tol = tol + a * (TOL - rem)
        e = 1e-9
        gi, gr = np.imag(got[j]), np.real(got[j])
        c.check(gi - wi <= tol + e, "imaginary part is the Gaussian (not above)")
        c.check(wi - gi <= tol + e, "imaginary part is the Gaussian (not below)")
        c.check(gr - wr - Einf <= tol + e, "real part is the Kramers-Kronig partner (not above)")
        c.check(wr + Einf - gr <= tol + e, "real part is the Kramers-Kronig partner (not below)")


def nodes(c, n, k):
    """every amplitude, broadening and centre energy, at one energy"""
    np, R = c.np, c.R
    A, B, En = (c.reals(x, n, *r) for x, r in (("A", (0, 50)), ("B", (0.3, 5)), ("En", (0.5, 12))))
    E = np.linspace(-20, 20, 2048)[k]
    got = R.Gauss(A, B, En, c.real("Einf", 0.5, 5)).epsilon(E)
    c.check_eq(np.shape(got), (), "a scalar energy gives a scalar")
    w = 0
    for a, b, e in zip(A, B, En):
        s = b / 2 / np.sqrt(np.log(2))
        w = w + a * (np.exp(-(((E - e) / s) ** 2)) - np.exp(-(((E + e) / s) ** 2)))
    c.check_eq(np.imag(got), w, "imaginary part is the Gaussian pair", 1e-3)


def index(c, how):
    np, R = c.np, c.R
    A = c.reals("A", 1, 0, 20)
    g = R.Gauss(A, [0.8], [3.0], c.real("Einf", 1, 3), wavelength=400.0)
    E = -20 + 1150 * STEP
    lam = c.real("lam", HC / (E + 0.019), HC / (E + 0.001))
    if how == "array":
        got = g.complex(np.array([lam, 500.0]))
        c.check_eq(np.shape(got), (2,), "one index per wavelength")
        got = got[0]
    elif how == "asked":
        got = g.complex(lam)
    else:
        g.wavelength = lam
        got = g.complex(None)
    c.check_eq(got * got, g.epsilon(HC / lam), "square of the complex index", 1e-6)


def live(c):
    R, np = c.R, c.np
    A = c.reals("A", 2, 0, 20)
    final = [A, [1.1, 0.9], [2.5, 4.5], c.real("Einf", 1, 3)]
    k = c.choose("which", [0, 1, 2, 3])
    old = list(final)
    old[k] = [[1.0, 2.0], [0.8, 1.4], [3.0, 4.0], 4.5][k]
    g = R.Gauss(*old)
    g.epsilon(2.2)
    q = (g.Am, g.Br, g.En, g.Einf)[k]
    if k < 3:
        for p, v in zip(q, final[k]):
            p.value = v
    else:
        q.value = final[k]
    c.check_eq(g.epsilon(2.2), R.Gauss(*final).epsilon(2.2), "parameters are live")
    mine = [id(p) for p in flat(g.parameters)]
    for q in list(g.Am) + list(g.Br) + list(g.En) + [g.Einf]:
        c.check(mine.count(id(q)) == 1, "every parameter is listed once")


def lengths(c):
    R = c.R
    v = c.real("v", 1, 2)
    c.check(c.raises(ValueError, R.Gauss, [v, v], [v], [v, v]), "lists of different lengths are refused")
    c.check(c.raises(ValueError, R.Gauss, [v], [v], [v, v]), "lists of different lengths are refused")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


SETS = [((0.5, 3.0),), ((1.0, 4.5),), ((2.0, 6.0),), ((0.8, 1.5),), ((0.6, 2.0), (1.5, 5.0)), ((1.2, 7.0),)]


def cases(tier):
    out = []
    stride = 14 if tier == "quick" else 1
    for i, p in enumerate(SETS):
        span = 0.6 if tier != "quick" else 6.2
        lo = 0.4
        while lo < 6.5:
            out.append(dict(name="cells %d %.1f" % (i, lo), fn=mk(cells, p, lo, lo + span, stride), budget=100,
                            bounds="(B, En) = %s, A 0-50, Einf 0.5-5, every energy in every %s grid cell of %.1f-%.1f eV; tolerance %g A" % (
                                list(p), "%dth" % stride if stride > 1 else "", lo, lo + span, TOL)))
            lo += span
    for n, k in ((1, 1100), (1, 1301), (2, 1177)):
        out.append(dict(name="nodes %d %d" % (n, k), fn=mk(nodes, n, k), budget=60, bounds="A 0-50, B 0.3-5, En 0.5-12, one energy; %d oscillators" % n))
    for how in ("asked", "own", "array"):
        out.append(dict(name="index " + how, fn=mk(index, how), budget=60, bounds="A 0-20, Einf 1-3"))
    out.append(dict(name="live", fn=live, budget=60, bounds="A 0-20, Einf 1-3"))
    out.append(dict(name="lengths", fn=lengths, budget=20, bounds=""))
    return out
