"""C06: effective medium approximations follow their defining equations."""
from .emaref import eps, csq, bruggeman_residual

ASSUMES = []


def med(c, nm, absorbing):
    n = c.real("n" + nm, 1, 5)
    k = c.real("k" + nm, 0, 8, lo_open=True) if absorbing else 0
    return n, k


def one(c, ema, ka, kb, L=None, default=False):
    np = c.np
    f = c.mod("structureSE").overall_ri
    (na, xa), (nb, xb) = med(c, "a", ka), med(c, "b", kb)
    vf = c.real("vf", 0, 1)
    if L is None and not default:
        L = c.real("L", 0, 1, hi_open=ema == "bruggeman")
    A = na + 1j * xa if ka else na + 0j
    B = nb + 1j * xb if kb else nb + 0j
    if default:
        got = f(A, B, vf_B=vf, ema=ema)
        L = 1 / 3
    else:
        got = f(A, B, vf_B=vf, ema=ema, depolarisation_factor=L)
    E_a, E_b = A * A, B * B
    if ema == "bruggeman":
        E = got * got
        res = bruggeman_residual(E, E_a, E_b, vf, L)
        c.check_eq(res, 0, "Bruggeman equation", 1e-4)
        if not ka and not kb:
            tol = 1e-6 if c.conc else 0
            c.check(np.imag(got) <= tol, "no extinction from transparent media")
            c.check(np.real(got) > 0, "positive index")
    else:
        if c.conc and ema == "maxwell-garnett":
            c.assume(abs(E_a + L * (1 - vf) * (E_b - E_a)) > 1e-6 and abs(E_a + L * (E_b - E_a)) > 1e-6)
        want = csq(c, eps(c, E_a, E_b, vf, ema, L))
        c.check_eq(got, want, ema + " mixing", 1e-6)


def arrays(c, ema):
    """element by element; inputs untouched"""
    np = c.np
    f = c.mod("structureSE").overall_ri
    A = [c.real("na%d" % i, 1, 5) + 1j * c.real("ka%d" % i, 0.01, 8) for i in range(2)]
    B = c.real("nb", 1, 5) + 1j * c.real("kb", 0.01, 8)
    vf = [c.real("vf%d" % i, 0, 1) for i in range(2)]
    a, v = np.array(A), np.array(vf)
    got = f(a, B, vf_B=v, ema=ema, depolarisation_factor=0.25)
    c.check_eq(np.shape(got), (2,), "shape")
    c.check_eq(a, np.array(A), "array of indices not modified")
    c.check_eq(v, np.array(vf), "array of fractions not modified")
    for i in range(2):
        c.check_eq(got[i], f(A[i], B, vf_B=vf[i], ema=ema, depolarisation_factor=0.25), "%s, element %d" % (ema, i))


def unknown(c):
    f = c.mod("structureSE").overall_ri
    ok = c.raises(Exception, f, c.real("n", 1, 2), 1.5, 0.5, "volume average")
    c.check(ok, "an unknown scheme is refused")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "n in [1,5], k in (0,8] or 0, vf in [0,1], depolarisation in [0,1]"
    out = []
    for ema in ("linear", "maxwell-garnett", "bruggeman"):
        for ka, kb in ((0, 0), (0, 1), (1, 0), (1, 1)):
            out.append(dict(name="%s %d%d" % (ema, ka, kb), fn=mk(one, ema, ka, kb), budget=60, bounds=B, valtol=1e-5))
        out.append(dict(name="%s default factor" % ema, fn=mk(one, ema, 1, 1, default=True), budget=60, bounds=B + ", default 1/3", valtol=1e-5))
        out.append(dict(name="%s arrays" % ema, fn=mk(arrays, ema), budget=60, bounds=B))
    out.append(dict(name="bruggeman factor 1", fn=mk(one, "bruggeman", 1, 1, L=1), budget=60, bounds=B, valtol=1e-5))
    out.append(dict(name="unknown scheme", fn=unknown, budget=20, bounds=""))
    return out
