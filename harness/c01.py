"""C01: psi and delta of any stack are those of Maxwell's equations."""
from .tmmref import amplitudes, check_psi_delta

ASSUMES = []


def stack(c, kinds, film_d=(0, 3000), nlo=0.02, nhi=10.0, khi=8.0, aoi=(0.01, 89.9), lam=(180, 2500), offset=True,
          fix=None):
    """kinds: one letter per medium, t transparent / a absorbing"""
    fix = fix or {}
    R, np = c.R, c.np
    media = []
    comps = []

    def val(nm, lo, hi, **k):
        if nm in fix:
            return fix[nm]
        return c.real(nm, lo, hi, **k)

    for j, ch in enumerate(kinds):
        n = val("n%d" % j, 1.0 if j == 0 else nlo, nhi)
        k = 0 if ch == "t" else val("k%d" % j, 0, khi, lo_open=True)
        first, last = j == 0, j == len(kinds) - 1
        d = 0 if first or last else val("d%d" % j, *film_d)
        m = R.RI([n, k])
        comps.append(m(d) if not (first or last) else m())
        media.append((n, 0 if first else k, d / 10))
    st = comps[0]
    for x in comps[1:]:
        st = st | x
    off = val("offset", -400, 400) if offset else 0
    th = val("aoi", *aoi)
    w = val("lam", *lam)
    model = R.ReflectModelSE(st, delta_offset=off)
    psi, delta = model(np.array([[w, th]]))
    rp, rs, tp, ts = amplitudes(c, media, th, w)
    c.check_eq(len(psi), 1, "one psi per point")
    check_psi_delta(c, psi[0], delta[0], rp, rs, off, "stack " + kinds)


def many(c, groups):
    """many films, of two materials at most (the interfaces inside a group reflect nothing)"""
    R, np = c.R, c.np
    st = R.RI([1.0, 0.0])()
    media = [(1.0, 0, 0)]
    for g, (count, absorbing) in enumerate(groups):
        n, k = c.real("n%d" % g, 1.01, 10), c.real("k%d" % g, 0, 8, lo_open=True) if absorbing else 0
        m = R.RI([n, k])
        d = [c.real("d%d_%d" % (g, i), 0, 300) for i in range(count)]
        for x in d:
            st = st | m(x)
            media.append((n, k, x / 10))
    nb, kb = c.real("nb", 0.02, 10), c.real("kb", 0, 8, lo_open=True)
    media.append((nb, kb, 0))
    st = st | R.RI([nb, kb])()
    off, th, w = c.real("offset", -400, 400), c.real("aoi", 0.01, 89.9), c.real("lam", 180, 2500)
    psi, delta = R.ReflectModelSE(st, delta_offset=off)(np.array([[w, th]]))
    rp, rs, tp, ts = amplitudes(c, media, th, w)
    check_psi_delta(c, psi[0], delta[0], rp, rs, off, "many films")


def mk(kinds, **kw):
    return lambda c: stack(c, kinds, **kw)


TWO = ("tt", "ta", "at", "ttt", "tta", "tat", "taa", "aat", "tttt", "taat", "ttat", "tata")


FIX = dict(n0=1, n1=1.5, n2=2, k2=0.25, n3=1.75, n4=4, k4=0.5, n5=3, k5=1)


def cases(tier):
    out = []
    for kinds in TWO:
        out.append(dict(name=kinds, fn=mk(kinds), budget=150,
                        bounds="media %s front to back (t: k=0, a: k in (0,8]); n in [0.02,10] (fronting [1,10]); d in [0,3000] A; aoi [0.01,89.9] deg; "
                               "lam [180,2500] nm; offset [-400,400]; all symbolic" % kinds))
    for kinds in ("ta", "tat", "tta"):
        out.append(dict(name="metal " + kinds, fn=mk(kinds, khi=30.0, film_d=(0, 800)), budget=100, bounds="as %s; k up to 30, d up to 800 A" % kinds))
        out.append(dict(name="infrared " + kinds, fn=mk(kinds, lam=(1200, 30000), film_d=(0, 20000)), budget=100,
                        bounds="as %s; lam [1200,30000] nm, d up to 20000 A" % kinds))
    fixed = [("3 films", "ttata")]
    for nm, g in (("8 films", ((8, False),)), ("4+4 films", ((4, False), (4, False)))):
        out.append(dict(name=nm, fn=lambda c, g=g: many(c, g), budget=100,
                        bounds="groups of films of one material each %s (count, absorbing); n, k, every thickness (0-300 A), aoi, lam symbolic" % (g,)))
    out.append(dict(name="normal incidence", fn=mk("tat", fix=dict(aoi=0)), budget=60, bounds="as tat, aoi 0"))
    if tier != "quick":
        fixed += [("4 films", "ttatta"), ("3 films TIR", "tttta")]
    for nm, kinds in fixed:
        fx = dict(FIX, n6=2, k6=1)
        if nm.endswith("TIR"):
            fx["n0"] = 2
        out.append(dict(name=nm, fn=mk(kinds, fix=fx), budget=300 if tier != "quick" else 120,
                        bounds="media %s with fixed n, k; d in [0,3000] A, aoi [0.01,89], lam [180,2500], offset symbolic" % kinds))
    return out
