"""C03: conventions of psi and delta."""
from .tmmref import amplitudes, check_psi_delta

ASSUMES = []


def layers(c, kinds):
    rows = []
    for j, ch in enumerate(kinds):
        n = c.real("n%d" % j, 1, 5)
        k = 0 if ch == "t" else c.real("k%d" % j, 0, 8, lo_open=True)
        d = 0 if j in (0, len(kinds) - 1) else c.real("d%d" % j, 0, 3000)
        rows.append([d, n, k, 0])
    return rows


def reflects(c, rows, th, lam):
    """in the concrete world, skip stacks without a defined ratio"""
    if c.conc:
        rp, rs, _, _ = amplitudes(c, [(r[1], 0 if i == 0 else r[2], r[0] / 10) for i, r in enumerate(rows)], th, lam)
        c.assume(abs(rp) > 1e-7 and abs(rs) > 1e-7)


def conv(c, kinds):
    np = c.np
    f = c.mod("reflect_modelSE").Delta_Psi_TMM
    rows = layers(c, kinds)
    th = c.real("aoi", 0.01, 89)
    lam = c.real("lam", 180, 2500)
    off = c.real("offset", -400, 400)
    reflects(c, rows, th, lam)
    arr = np.array(rows)
    psi, delta = f(np.array([th]), arr, lam, 0)
    psi_o, delta_o = f(np.array([th]), arr, lam, off, False)
    psi_r, delta_r = f(np.array([th]), arr, lam, off, True)
    p, d = psi[0], delta[0]
    eps = 1e-9 if c.conc else 0
    c.check((p >= -eps) & (p <= 90 + eps), "0 <= psi <= 90")
    c.check((d >= -eps) & (d <= 360 + eps), "0 <= delta <= 360")
    c.check_eq(psi_o[0], p, "the offset does not touch psi")
    c.check_eq(delta_o[0], d + off, "the offset is added to delta in degrees")
    c.check_eq(psi_r[0], p, "the delta convention does not touch psi")
    if d > 180:
        c.check_eq(delta_r[0], 360 - d + off, "delta above 180 is reflected to 360 - delta before the offset")
    else:
        c.check_eq(delta_r[0], d + off, "delta up to 180 is kept")


def model(c, kinds):
    """the same through the model, with the flag of reflected data"""
    np, R = c.np, c.R
    rows = layers(c, kinds)
    th = c.real("aoi", 0.01, 89)
    lam = c.real("lam", 180, 2500)
    off = c.real("offset", -400, 400)
    reflects(c, rows, th, lam)
    st = R.StructureSE()
    for d, n, k, _ in rows:
        st |= R.RI([n, k])(d)
    m0 = R.ReflectModelSE(st)
    m = R.ReflectModelSE(st, delta_offset=off)
    x = np.array([[lam, th]])
    p, d = m0(x)
    dat = R.DataSE(np.array([[lam], [th], [c.real("psi_d", 1, 89)], [c.real("delta_d", 0, 360)]]), reflect_delta=True)
    obj = R.ObjectiveSE(m, dat)
    p2, d2 = m(x)
    c.check_eq(p2, p, "psi")
    if d[0] > 180:
        c.check_eq(d2[0], 360 - d[0] + off, "model of reflected data: delta above 180")
    else:
        c.check_eq(d2[0], d[0] + off, "model of reflected data: delta up to 180")
    m.delta_offset.value = 0
    p3, d3 = R.ReflectModelSE(st)(x)
    c.check_eq(d3, d, "a new model has no reflection")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    out = []
    B = "n in [1,5], k in (0,8], d in [0,3000] A, aoi [0.01,89], lam [180,2500], offset [-400,400]"
    for kinds in ("tt", "ta", "taa", "tta", "ttt"):
        out.append(dict(name="convention " + kinds, fn=mk(conv, kinds), budget=120, bounds=B))
    out.append(dict(name="model ta", fn=mk(model, "ta"), budget=100, bounds=B))
    if tier != "quick":
        out.append(dict(name="convention tat", fn=mk(conv, "tat"), budget=300, bounds=B))
        out.append(dict(name="convention taat", fn=mk(conv, "taat"), budget=300, bounds=B))
    return out
