"""C08: Cauchy, Sellmeier and Lorentz dispersion curves."""
ASSUMES = []
HC = 1239.841984055


def lam_in(c, cls, pars, **k):
    """a scatterer, the wavelength to ask for and the wavelength that must be used"""
    own = c.real("own", 150, 3000)
    asked = c.real("lam", 150, 3000)
    obj = cls(*pars, wavelength=own, **k)
    how = c.choose("how", ["asked", "none", "complex()"])
    if how == "asked":
        return obj.complex(asked), asked
    if how == "none":
        return obj.complex(None), own
    return complex_of(c, obj), own


def complex_of(c, obj):
    return obj.__complex__()


def cauchy(c, npar):
    np, R = c.np, c.R
    A, B, C = c.real("A", -1, 5), c.real("B", -0.1, 0.1), c.real("C", -0.01, 0.01)
    pars = (A, B, C)[:npar]
    got, lam = lam_in(c, R.Cauchy, pars)
    um = lam / 1000
    want = A
    if npar > 1:
        want = want + B / um**2
    if npar > 2:
        want = want + C / um**4
    c.check_eq(np.real(got), want, "Cauchy index")
    c.check_eq(np.imag(got), 0, "a Cauchy material does not absorb")


def sellmeier(c, einf):
    np, R = c.np, c.R
    Am, En, P = c.real("Am", 0, 5), c.real("En", 0, 0.14), c.real("P", 0, 0.1)
    k = dict(Einf=c.real("Einf", 1, 5)) if einf else {}
    got, lam = lam_in(c, R.Sellmeier, (Am, En, P), **k)
    um = lam / 1000
    e = k.get("Einf", 1) + Am * um**2 / (um**2 - En**2) - P * um**2
    c.assume(e > 0.01)
    c.check_eq(got * got, e, "square of the Sellmeier index")
    c.check(np.real(got) > 0, "Sellmeier index is positive")
    c.check_eq(np.imag(got), 0, "a Sellmeier material does not absorb")


def sellmeier_eps(c):
    R = c.R
    Am, En, P, Einf = c.real("Am", 0, 5), c.real("En", 0, 0.14), c.real("P", 0, 0.1), c.real("Einf", 1, 5)
    s = R.Sellmeier(Am, En, P, Einf)
    lam = c.real("lam", 150, 3000)
    um = lam / 1000
    c.check_eq(s.epsilon(lam), Einf + Am * um**2 / (um**2 - En**2) - P * um**2, "Sellmeier dielectric function")


def osc(c, n, lo=0.05):
    Am = [c.real("Am%d" % i, 0, 100) for i in range(n)]
    Br = [c.real("Br%d" % i, lo, 10) for i in range(n)]
    En = [c.real("En%d" % i, 0.1, 20) for i in range(n)]
    return Am, Br, En


def lorentz_eps(Am, Br, En, Einf, E):
    e = Einf
    for a, b, e0 in zip(Am, Br, En):
        e = e + a / (e0**2 - E**2 - 1j * b * E)
    return e


def lorentz(c, n, scalar=False):
    np, R = c.np, c.R
    Am, Br, En = osc(c, n)
    Einf = c.real("Einf", 1, 5)
    a = (Am[0], Br[0], En[0]) if scalar else (Am, Br, En)
    L = R.Lorentz(*a, Einf)
    E = c.real("E", 0.1, 20)
    want = lorentz_eps(Am, Br, En, Einf, E)
    got = L.epsilon(E)
    c.check_eq(np.shape(got), (), "a scalar energy gives a scalar")
    c.check_eq(got, want, "Lorentz dielectric function")
    got = L.epsilon(np.array([E, 2.0]))
    c.check_eq(got, np.array([want, lorentz_eps(Am, Br, En, Einf, 2.0)]), "Lorentz dielectric function of an array")


def lorentz_index(c, n, einf):
    """complex index at a wavelength in nm: root of the dielectric function at hc/lambda"""
    np, R = c.np, c.R
    Am, Br, En = osc(c, n)
    k = dict(Einf=c.real("Einf", 1, 5)) if einf else {}
    got, lam = lam_in(c, R.Lorentz, (Am, Br, En), **k)
    want = lorentz_eps(Am, Br, En, k.get("Einf", 1), HC / lam)
    c.check_eq(got * got, want, "square of the complex index", 1e-6)
    c.check(np.real(got) >= 0, "index is not negative")


def lorentz_passive(c, n):
    np, R = c.np, c.R
    Am, Br, En = osc(c, n)
    got = R.Lorentz(Am, Br, En).complex(c.real("lam", 150, 3000))
    e = 1e-9 if c.conc else 0
    c.check(np.imag(got * got) >= -e, "positive oscillators absorb")
    c.check(np.real(got) >= -e, "index is not negative")


def live(c, kind):
    """changing one parameter after another changes the curve as if made anew"""
    np, R = c.np, c.R
    lam = c.real("lam", 150, 3000)
    if kind == "cauchy":
        rng = [(0, 3), (0, 0.1), (0, 0.01)]
        make = lambda v: R.Cauchy(*v)
    elif kind == "sellmeier":
        rng = [(0, 3), (0, 0.14), (0, 0.01), (1, 3)]
        make = lambda v: R.Sellmeier(*v)
    else:
        rng = [(0.1, 10)] * 7
        make = lambda v: R.Lorentz(v[:2], v[2:4], v[4:6], v[6])
    now = [c.real("o%d" % i, *r) for i, r in enumerate(rng)]
    m = make(now)
    ps = list(flat(m.parameters))
    c.check_eq(len(ps), len(now), "number of parameters")
    m.complex(lam)
    for i, p in enumerate(ps):
        now[i] = c.real("p%d" % i, *rng[i])
        p.value = now[i]
        if kind == "sellmeier":
            um = lam / 1000
            c.assume(now[3] + now[0] * um**2 / (um**2 - now[1] ** 2) - now[2] * um**2 > 0.01)
        c.check_eq(m.complex(lam), make(now).complex(lam), kind + ": parameters are live")
    m.complex(None)
    m.wavelength = lam
    c.check_eq(m.complex(None), make(now).complex(lam), kind + ": the own wavelength is live")


def flat(p):
    for x in p:
        if hasattr(x, "vary") and hasattr(x, "value"):
            yield x
        else:
            yield from flat(x)


def arrays(c, kind):
    """an array of wavelengths is the curve at each of them"""
    np, R = c.np, c.R
    lam = [c.real("lam%d" % i, 150, 3000) for i in range(2)]
    if kind == "cauchy":
        m = R.Cauchy(c.real("A", 1, 3), c.real("B", 0, 0.1), c.real("C", 0, 0.1))
    elif kind == "sellmeier":
        m = R.Sellmeier(c.real("Am", 0, 5), c.real("En", 0, 0.14), c.real("P", 0, 0.01), c.real("Einf", 1, 3))
    else:
        m = R.Lorentz(c.real("Am", 0, 5), c.real("Br", 0.1, 5), c.real("En", 0.1, 5), c.real("Einf", 1, 3))
    x = np.array(lam)
    got = m.complex(x)
    c.check_eq(np.shape(got), (2,), kind + ": one value per wavelength")
    c.check_eq(x, np.array(lam), kind + ": wavelengths not modified")
    for i in range(2):
        w = m.complex(lam[i])
        c.check_eq(np.shape(w), (), kind + ": scalar wavelength gives a scalar")
        c.check_eq(got[i], w, kind + ": element %d" % i)


def lengths(c):
    R = c.R
    v = c.real("v", 1, 2)
    c.check(c.raises(ValueError, R.Lorentz, [v, v], [v], [v, v]), "oscillator lists of different lengths are refused")
    c.check(c.raises(ValueError, R.Lorentz, [v], [v], [v, v]), "oscillator lists of different lengths are refused")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 150-3000 nm (given, or the material's own)"
    out = []
    for n in (1, 2, 3):
        out.append(dict(name="cauchy %d" % n, fn=mk(cauchy, n), budget=30, bounds=B + ", A -1..5, B -0.1..0.1, C -0.01..0.01"))
    for e in (0, 1):
        out.append(dict(name="sellmeier %d" % e, fn=mk(sellmeier, e), budget=30, bounds=B + ", Am 0-5, En 0-0.14 um, P 0-0.1, eps > 0.01"))
    out.append(dict(name="sellmeier epsilon", fn=sellmeier_eps, budget=30, bounds=B))
    OB = "Am 0-100, Br 0.05-10, En 0.1-20 eV, Einf 1-5"
    for n in (1, 2, 3, 6):
        out.append(dict(name="lorentz %d" % n, fn=mk(lorentz, n), budget=30, bounds=OB + ", E 0.1-20; %d oscillators" % n))
    out.append(dict(name="lorentz scalar", fn=mk(lorentz, 1, True), budget=30, bounds=OB))
    out.append(dict(name="lorentz index 1", fn=mk(lorentz_index, 1, 1), budget=30, bounds=OB + ", " + B))
    out.append(dict(name="lorentz index 2", fn=mk(lorentz_index, 2, 0), budget=30, bounds=OB + ", " + B))
    out.append(dict(name="lorentz passive", fn=mk(lorentz_passive, 1), budget=40, bounds=OB + ", " + B))
    out.append(dict(name="lorentz passive 2", fn=mk(lorentz_passive, 2), budget=40, bounds=OB + ", " + B))
    for kind in ("cauchy", "sellmeier", "lorentz"):
        out.append(dict(name="live " + kind, fn=mk(live, kind), budget=30, bounds=B))
        out.append(dict(name="arrays " + kind, fn=mk(arrays, kind), budget=30, bounds=B))
    out.append(dict(name="lengths", fn=lengths, budget=20, bounds=""))
    return out
