"""C04: the model is a pure function of each (wavelength, angle) row."""

ASSUMES = []


def structure(c, layers=1):
    R = c.R
    A, B = c.real("A", 1.2, 2), c.real("B", 0, 0.01)
    nb, kb = c.real("nb", 1, 5), c.real("kb", 0.01, 5)
    f = R.Cauchy(A, B, 0)
    st = R.RI([1.0, 0.0])() | f(c.real("d", 1, 3000)) | R.RI([nb, kb])()
    return st


def fresh(c):
    return c.R.ReflectModelSE(structure(c), delta_offset=c.real("off", -20, 20))


def rows(c, npts, prefix=""):
    return [[c.real("%slam%d" % (prefix, i), 180, 2500), c.real("%saoi%d" % (prefix, i), 1, 89)] for i in range(npts)]


def pointwise(c, npts):
    np = c.np
    x = rows(c, npts)
    arr = np.array(x)
    keep = np.array(x)
    m = fresh(c)
    psi, delta = m(arr)
    c.check_eq(np.shape(psi), (npts,), "one psi per row")
    c.check_eq(np.shape(delta), (npts,), "one delta per row")
    c.check_eq(arr, keep, "the array of the caller is not modified")
    for i in range(npts):
        p1, d1 = fresh(c)(np.array([x[i]]))
        c.check_eq(psi[i], p1[0], "psi of a row does not depend on the other rows")
        c.check_eq(delta[i], d1[0], "delta of a row does not depend on the other rows")


def long(c, npts):
    """many rows (given wavelengths, repeated and out of order; given angles), any film"""
    np = c.np
    x = [[400.0 + 50 * ((7 * i) % 5), 40.0 + 3.5 * ((5 * i) % npts)] for i in range(npts)]
    m = fresh(c)
    psi, delta = m(np.array(x))
    for i in range(npts):
        p1, d1 = fresh(c)(np.array([x[i]]))
        c.check_eq(psi[i], p1[0], "psi of a row does not depend on the other rows")
        c.check_eq(delta[i], d1[0], "delta of a row does not depend on the other rows")


def permute(c, npts):
    np = c.np
    x = rows(c, npts)
    m = fresh(c)
    psi, delta = m(np.array(x))
    psi2, delta2 = m(np.array(x[::-1]))
    c.check_eq(psi2, psi[::-1], "reversing the rows reverses psi")
    c.check_eq(delta2, delta[::-1], "reversing the rows reverses delta")


def history(c):
    """earlier calls, a wavelength left in the structure: no effect"""
    np = c.np
    x, y = rows(c, 2), rows(c, 1, "h")
    m, m0 = fresh(c), fresh(c)
    m.structure.wavelength = c.real("left", 180, 2500)
    m(np.array(y))
    m.structure.slabs(wavelength=c.real("left2", 180, 2500))
    a, b = m(np.array(x)), m0(np.array(x))
    c.check_eq(a[0], b[0], "psi does not depend on earlier calls")
    c.check_eq(a[1], b[1], "delta does not depend on earlier calls")
    d = m(np.array(x))
    c.check_eq(d[0], b[0], "psi is the same when asked again")
    c.check_eq(d[1], b[1], "delta is the same when asked again")


def shared(c):
    """two models on one structure"""
    np = c.np
    x, y = rows(c, 1), rows(c, 1, "h")
    st = structure(c)
    off = c.real("off", -20, 20)
    m1, m2 = c.R.ReflectModelSE(st, delta_offset=off), c.R.ReflectModelSE(st)
    m2(np.array(y))
    a = m1(np.array(x))
    b = fresh(c)(np.array(x))
    c.check_eq(a[0], b[0], "psi with a shared structure")
    c.check_eq(a[1], b[1], "delta with a shared structure")


def integers(c):
    """integer wavelengths and angles mean the same as floats, lists as arrays"""
    np = c.np
    lam, aoi = c.choose("lam", [500, 633]), c.choose("aoi", [60, 75])
    m = fresh(c)
    a = m(np.array([[lam, aoi]]))
    b = m(np.array([[float(lam), float(aoi)]]))
    d = m([[lam, aoi]])
    for u, v in ((a, b), (d, b)):
        c.check_eq(u[0], v[0], "psi of integer input")
        c.check_eq(u[1], v[1], "delta of integer input")


def setting(c):
    """model(x, p=values): the values are taken, the answer is that of a model made with them"""
    np, R = c.np, c.R
    x = rows(c, 1)
    m = fresh(c)
    par = list(R_flatten(m.parameters))
    vals = []
    for i, p in enumerate(par):
        if "cauchy A" in (p.name or ""):
            vals.append(c.real("A2", 1.2, 2))
        else:
            vals.append(p.value)
    a = m(np.array(x), p=vals)
    f = R.Cauchy(c.real("A2", 1.2, 2), c.real("B", 0, 0.01), 0)
    st = R.RI([1.0, 0.0])() | f(c.real("d", 1, 3000)) | R.RI([c.real("nb", 1, 5), c.real("kb", 0.01, 5)])()
    b = R.ReflectModelSE(st, delta_offset=c.real("off", -20, 20))(np.array(x))
    c.check_eq(a[0], b[0], "psi with given parameter values")
    c.check_eq(a[1], b[1], "delta with given parameter values")


def R_flatten(p):
    for x in p:
        if hasattr(x, "value") and hasattr(x, "vary"):
            yield x
        else:
            yield from R_flatten(x)


def caller(c):
    """the layers array of the caller is left alone, aoi as scalar or list"""
    np = c.np
    f = c.mod("reflect_modelSE").Delta_Psi_TMM
    r = [[0, 1.0, c.real("k0", 0, 1), 0], [c.real("d", 1, 3000), c.real("n", 1, 3), 0.0, c.real("rough", 0, 9)],
         [0, c.real("nb", 1, 5), c.real("kb", 0.01, 5), 0]]
    layers = np.array(r)
    lam, th = c.real("lam", 180, 2500), c.real("aoi", 1, 89)
    ang = np.array([th, 45.0])
    psi, delta = f(ang, layers, lam, 0)
    c.check_eq(layers, np.array(r), "layers array not modified")
    c.check_eq(ang, np.array([th, 45.0]), "angle array not modified")
    r2 = [list(q) for q in r]
    r2[0][2] = 0.0
    r2[1][3] = 0.0
    psi2, delta2 = f(ang, np.array(r2), lam, 0)
    c.check_eq(psi2, psi, "extinction of the fronting and roughness are ignored (psi)")
    c.check_eq(delta2, delta, "extinction of the fronting and roughness are ignored (delta)")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "Cauchy film (A 1.2-2, B 0-0.01), d 1-3000 A, absorbing substrate, lam 180-2500, aoi 1-89; wavelengths may coincide"
    out = [
        dict(name="2 rows", fn=mk(pointwise, 2), budget=60, bounds=B),
        dict(name="3 rows", fn=mk(pointwise, 3), budget=100, bounds=B + "; all orderings and coincidences of 3 rows"),
        dict(name="reversed", fn=mk(permute, 2 if tier == "quick" else 3), budget=100, bounds=B),
        dict(name="history", fn=mk(history), budget=60, bounds=B),
        dict(name="12 rows", fn=mk(long, 12), budget=100, bounds="film and substrate as above; 12 given rows at 5 wavelengths"),
        dict(name="shared structure", fn=mk(shared), budget=60, bounds=B),
        dict(name="integers", fn=mk(integers), budget=60, bounds=B),
        dict(name="given values", fn=mk(setting), budget=60, bounds=B),
        dict(name="caller's arrays", fn=mk(caller), budget=60, bounds=B),
    ]
    if tier != "quick":
        out.append(dict(name="4 rows", fn=mk(pointwise, 4), budget=600, bounds=B))
    return out
