"""C09: Tauc-Lorentz dispersion (Jellison and Modine, 1996, with erratum)."""
from .c08 import HC, flat, lam_in

ASSUMES = []


def e1(c, A, C, E0, Eg, E):
    np = c.np
    al = np.sqrt(4 * E0**2 - C**2)
    g2 = E0**2 - C**2 / 2
    z4 = (E**2 - g2) ** 2 + al**2 * C**2 / 4
    aln = (Eg**2 - E0**2) * E**2 + Eg**2 * C**2 - E0**2 * (E0**2 + 3 * Eg**2)
    aat = (E**2 - E0**2) * (E0**2 + Eg**2) + Eg**2 * C**2
    P = np.pi * z4
    r = A * C / P * aln / (2 * al * E0) * np.log((E0**2 + Eg**2 + al * Eg) / (E0**2 + Eg**2 - al * Eg))
    r = r - A / P * aat / E0 * (np.pi - np.arctan((2 * Eg + al) / C) + np.arctan((al - 2 * Eg) / C))
    r = r + 2 * A * E0 / (P * al) * Eg * (E**2 - g2) * (np.pi + 2 * np.arctan(2 * (g2 - Eg**2) / (al * C)))
    r = r - A * E0 * C / P * (E**2 + Eg**2) / E * np.log(abs(E - Eg) / (E + Eg))
    r = r + 2 * A * E0 * C / P * Eg * np.log(abs(E - Eg) * (E + Eg) / np.sqrt((E0**2 - Eg**2) ** 2 + Eg**2 * C**2))
    return r


def e2(A, C, E0, Eg, E):
    return A * E0 * C * (E - Eg) ** 2 / ((E**2 - E0**2) ** 2 + C**2 * E**2) / E


def pars(c, n, wide=False):
    Eg = c.real("Eg", 0.2, 5)
    A, C, En = [], [], []
    for i in range(n):
        A.append(c.real("A%d" % i, 0, 300))
        En.append(c.real("En%d" % i, 0.3, 15))
        C.append(c.real("C%d" % i, 0.05, 20))
        c.assume(En[i] > Eg)
        c.assume(C[i] < 2 * En[i])
        if c.conc:
            c.assume(2 * En[i] - C[i] > 1e-6)
    return A, C, En, Eg


def energy(c, Eg, side):
    E = c.real("E", 0.1, 20)
    if side == "above":
        c.assume(E > Eg)
    elif side == "below":
        c.assume(E < Eg)
    else:
        c.assume(E == Eg)
        E = Eg
    if c.conc and side != "at":
        c.assume(abs(E - Eg) > 1e-8)
    return E


def eps(c, n, side, scalar=False):
    np, R = c.np, c.R
    A, C, En, Eg = pars(c, n)
    Einf = c.real("Einf", 0.5, 5)
    a = (A[0], C[0], En[0]) if scalar else (A, C, En)
    t = R.TaucLorentz(*a, Eg, Einf)
    E = energy(c, Eg, side)
    got = t.epsilon(E)
    c.check_eq(np.shape(got), (), "a scalar energy gives a scalar")
    i = 0
    for j in range(n):
        i = i + e2(A[j], C[j], En[j], Eg, E)
    if side == "above":
        c.check_eq(np.imag(got), i, "absorption above the gap")
        c.check(np.imag(got) >= 0, "absorption is not negative")
    else:
        c.check_eq(np.imag(got), 0, "no absorption up to the gap")
    if side != "at":
        r = Einf
        for j in range(n):
            r = r + e1(c, A[j], C[j], En[j], Eg, E)
        c.check_eq(np.real(got), r, "real part", 1e-6)
    else:
        c.check(np.isfinite(np.real(got)), "finite at the gap")
    g2 = t.epsilon(np.array([E]))
    c.check_eq(g2, np.array([got]), "an array of one energy")


def arrays(c, n):
    """energies on either side of the gap in one call: each as on its own"""
    np, R = c.np, c.R
    A, C, En, Eg = pars(c, n)
    t = R.TaucLorentz(A, C, En, Eg, c.real("Einf", 0.5, 5))
    E = [c.real("E%d" % i, 0.1, 20) for i in range(2)]
    if c.conc:
        c.assume(min(abs(e - Eg) for e in E) > 1e-8)
    x = np.array(E)
    got = t.epsilon(x)
    c.check_eq(np.shape(got), (2,), "one value per energy")
    c.check_eq(x, np.array(E), "energies not modified")
    for i in range(2):
        if E[i] == Eg:
            c.check_eq(np.imag(got[i]), 0, "no absorption at the gap")
            continue
        w = t.epsilon(E[i])
        c.check_eq(np.imag(got[i]), np.imag(w), "imaginary part as for one energy", 1e-6)
        c.check_eq(np.real(got[i]), np.real(w), "real part as for one energy", 1e-6)


def index(c, side):
    np, R = c.np, c.R
    A, C, En, Eg = pars(c, 1)
    lam = c.real("lam", 60, 6000)
    E = HC / lam
    c.assume(E > Eg if side == "above" else E < Eg)
    if c.conc:
        c.assume(abs(E - Eg) > 1e-7)
    t = R.TaucLorentz(A[0], C[0], En[0], Eg)
    got = t.complex(lam)
    c.check_eq(got * got, t.epsilon(E), "square of the complex index", 1e-6)
    if side == "above":
        e = 1e-12 if c.conc else 0
        c.check(np.imag(got * got) >= -e, "extinction is not negative")


def live(c, n):
    """one parameter (or list of parameters) changed after an evaluation"""
    R = c.R
    A, C, En, Eg = pars(c, n)
    final = [A, C, En, Eg, c.real("Einf", 0.5, 5)]
    E = energy(c, Eg, "above")
    k = c.choose("which", [0, 1, 2, 3, 4])
    old = list(final)
    old[k] = [[1.0] * n, [0.04] * n, [20.0] * n, 0.1, 0.2][k]
    t = R.TaucLorentz(*old)
    t.epsilon(E)
    q = (t.Am, t.C, t.En, t.Eg, t.Einf)[k]
    if k < 3:
        for p, v in zip(q, final[k]):
            p.value = v
    else:
        q.value = final[k]
    c.check_eq(t.epsilon(E), R.TaucLorentz(*final).epsilon(E), "parameters are live")
    mine = [id(p) for p in flat(t.parameters)]
    for q in list(t.Am) + list(t.C) + list(t.En) + [t.Eg, t.Einf]:
        c.check(mine.count(id(q)) == 1, "every parameter is listed once")


def lengths(c):
    R = c.R
    v = c.real("v", 1, 2)
    c.check(c.raises(ValueError, R.TaucLorentz, [v, v], [v], [v, v], 1.0), "lists of different lengths are refused")
    c.check(c.raises(ValueError, R.TaucLorentz, [v], [v], [v, v], 1.0), "lists of different lengths are refused")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "A 0-300, C 0.05-20 (C < 2 En), En 0.3-15 (> Eg), Eg 0.2-5, Einf 0.5-5, E 0.1-20"
    out = []
    for side in ("above", "below", "at"):
        out.append(dict(name="one " + side, fn=mk(eps, 1, side), budget=60, bounds=B + ", E %s the gap" % side, valtol=1e-5))
    out.append(dict(name="scalar", fn=mk(eps, 1, "above", True), budget=60, bounds=B, valtol=1e-5))
    out.append(dict(name="two above", fn=mk(eps, 2, "above"), budget=90, bounds=B, valtol=1e-5))
    out.append(dict(name="two below", fn=mk(eps, 2, "below"), budget=90, bounds=B, valtol=1e-5))
    if tier != "quick":
        out.append(dict(name="three above", fn=mk(eps, 3, "above"), budget=300, bounds=B, valtol=1e-5))
    for n in (1, 2):
        out.append(dict(name="array %d" % n, fn=mk(arrays, n), budget=60, bounds=B + ", two energies on any side", valtol=1e-5))
    for side in ("above", "below"):
        out.append(dict(name="index " + side, fn=mk(index, side), budget=60, bounds=B, valtol=1e-5))
    for n in (1, 2):
        out.append(dict(name="live %d" % n, fn=mk(live, n), budget=60, bounds=B, valtol=1e-5))
    out.append(dict(name="lengths", fn=lengths, budget=20, bounds=""))
    return out
