"""C07: limits and physical sense of the effective media."""
ASSUMES = []


def med(c, nm, absorbing):
    n = c.real("n" + nm, 1, 5)
    return n + 1j * c.real("k" + nm, 0, 8, lo_open=True) if absorbing else n + 0j


def ends(c, ema, ka, kb):
    np = c.np
    f = c.mod("structureSE").overall_ri
    A, B = med(c, "a", ka), med(c, "b", kb)
    L = c.real("L", 0, 1)
    if ema == "maxwell-garnett" and c.conc:
        c.assume(abs(A * A + L * (B * B - A * A)) > 1e-6)
    if ema == "bruggeman":
        c.hint(A * A * (1 - L) + B * B * L, B * B * (1 - L) + A * A * L)
    c.check_eq(f(A, B, vf_B=0, ema=ema, depolarisation_factor=L), A, ema + ": nothing of B gives A", 1e-6)
    c.check_eq(f(A, B, vf_B=1, ema=ema, depolarisation_factor=L), B, ema + ": nothing of A gives B", 1e-6)


def nothing(c):
    """no fraction given"""
    f = c.mod("structureSE").overall_ri
    A, B = med(c, "a", True), med(c, "b", True)
    c.check_eq(f(A, B), A, "no fraction given: nothing of B", 1e-6)
    vf = c.real("vf", 0, 1)
    c.check_eq(f(A, B, vf), f(A, B, vf_B=vf, ema="linear"), "the rule left out: linear", 1e-6)


def alike(c, ema, ka):
    f = c.mod("structureSE").overall_ri
    A = med(c, "a", ka)
    L, vf = c.real("L", 0, 1), c.real("vf", 0, 1)
    c.hint(A * A)
    c.check_eq(f(A, A, vf_B=vf, ema=ema, depolarisation_factor=L), A, ema + ": a medium mixed with itself", 1e-6)


def between(c, ema, L):
    """transparent media: the mixture lies between its constituents"""
    np = c.np
    f = c.mod("structureSE").overall_ri
    a, b = c.real("na", 1, 5), c.real("nb", 1, 5)
    c.assume(a <= b)
    vf = c.real("vf", 0, 1)
    L = c.real("L", 0, 1) if L is None else L
    got = f(a + 0j, b + 0j, vf_B=vf, ema=ema, depolarisation_factor=L)
    r = np.real(got)
    e = 1e-9 if c.conc else 0
    c.check(r >= a - e, ema + ": not below the smaller index")
    c.check(r <= b + e, ema + ": not above the larger index")
    c.check_eq(np.imag(got), 0, ema + ": no extinction from transparent media")


def swap(c, ema, ka, kb, L=None):
    f = c.mod("structureSE").overall_ri
    A, B = med(c, "a", ka), med(c, "b", kb)
    vf = c.real("vf", 0, 1)
    L = c.real("L", 0, 1) if L is None else L
    c.check_eq(f(A, B, vf_B=vf, ema=ema, depolarisation_factor=L),
               f(B, A, vf_B=1 - vf, ema=ema, depolarisation_factor=L), ema + ": symmetric in its constituents", 1e-6)


def passive(c, ema, L=None, vf=None):
    """any two passive media, given by their dielectric functions"""
    np = c.np
    f = c.mod("structureSE").overall_ri
    N = []
    for nm in "ab":
        N.append(np.sqrt(c.real("e1" + nm, -50, 50) + 1j * c.real("e2" + nm, 0, 50, lo_open=True)))
    vf = c.real("vf", 0, 1) if vf is None else vf
    L = c.real("L", 0, 1, hi_open=True) if L is None else L
    got = f(N[0], N[1], vf_B=vf, ema=ema, depolarisation_factor=L)
    e = 1e-7 if c.conc else 0
    c.check(np.imag(got * got) >= -e, ema + ": passive media give no gain")
    c.check(np.real(got) >= -e, ema + ": index is not negative")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


EMAS = ("linear", "maxwell-garnett", "bruggeman")


def cases(tier):
    B = "n in [1,5], k in (0,8] or 0, vf in [0,1], depolarisation in [0,1]"
    out = [dict(name="left out", fn=nothing, budget=60, bounds=B)]
    for ema in EMAS:
        for ka, kb in ((0, 0), (0, 1), (1, 0), (1, 1)):
            out.append(dict(name="ends %s %d%d" % (ema, ka, kb), fn=mk(ends, ema, ka, kb), budget=60, bounds=B))
        for ka in (0, 1):
            out.append(dict(name="alike %s %d" % (ema, ka), fn=mk(alike, ema, ka), budget=60, bounds=B))
        out.append(dict(name="between %s" % ema, fn=mk(between, ema, None), budget=60, bounds=B))
        if ema != "maxwell-garnett":
            out.append(dict(name="swap %s" % ema, fn=mk(swap, ema, 1, 1), budget=60, bounds=B))
        PB = "dielectric functions with |real| <= 50, 0 < imag <= 50, vf in [0,1]"
        for L in {"linear": [None], "bruggeman": [0, 1 / 4, 1 / 3, 1 / 2], "maxwell-garnett": [0, 1 / 4, 1 / 3, 1 / 2]}[ema]:
            nm = "passive %s" % ema + (" L=%.2g" % L if L is not None else "")
            out.append(dict(name=nm, fn=mk(passive, ema, L), budget=60, bounds=PB + (", depolarisation %s" % ("of no effect" if L is None else "%.3g" % L))))
    return out
