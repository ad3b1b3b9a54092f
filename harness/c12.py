"""C12: residuals and chi squared."""
from .objs import circ, coefs, dataset, stub_model

ASSUMES = ["residuals with an arbitrary model: the model is a stand-in whose psi and delta are arbitrary numbers per row, affine in the parameter value"]


def par(c, v):
    from refnx.analysis import Parameter

    return Parameter(v, "p", vary=True, bounds=(-100, 100))


def distance(c, kind):
    np = c.np
    f = c.mod("objectiveSE").circular_distance
    P = c.real("period", 1, 720)
    a = c.real("a", -1000, 1000)
    turns = c.choose("turns", [0, 1, -1, 2, -2, 5])
    e = c.real("e", -1, 1)  # half turns
    b = a + turns * P + e * P / 2
    want = abs(e) * P / 2
    if kind == "scalar":
        c.check_eq(f(a, b, P), want, "shortest distance round the circle")
        c.check_eq(f(b, a, P), want, "in either direction")
    elif kind == "keyword":
        c.check_eq(f(a, b, period=P), want, "shortest distance round the circle")
    elif kind == "arrays":
        got = f(np.array([a, a, b]), np.array([b, a, a]), P)
        c.check_eq(got, np.array([want, 0, want]), "of arrays, element by element")
    else:
        b = a + turns * 360 + e * 180
        c.check_eq(f(a, b), abs(e) * 180, "the period is 360 degrees by default")


def residuals(c, n, masked, given, reflect=False, lo=0, hi=360, dhi=360):
    np, R = c.np, c.R
    cf = coefs(c, n, dhi=dhi)
    data, psi, delta = dataset(c, n, reflect, lo, hi)
    if reflect:
        delta = [360 - x if x > 180 else x for x in delta]
    keep = list(range(n))
    if masked:
        m = [c.boolean("mask%d" % i) for i in range(n)]
        data.mask = np.array(m)
        keep = [i for i in keep if m[i]]
    p0, p1 = c.real("p0", -10, 10), c.real("p1", -10, 10)
    model = stub_model(c, cf, [par(c, p0)])
    obj = R.ObjectiveSE(model, data)
    if given:
        got, p = obj.residuals([p1]), p1
    else:
        got, p = obj.residuals(), p0
    want = [cf[i][0] + cf[i][1] * p - psi[i] for i in keep]
    dd = [circ(cf[i][4] if reflect else cf[i][2], delta[i]) for i in keep]
    c.check_eq(np.shape(got), (2 * len(keep),), "two residuals per unmasked point")
    for i in range(len(keep)):
        c.check_eq(got[i], want[i], "psi residual")
        c.check_eq(got[len(keep) + i], dd[i], "delta residual")
    s = 0
    for x in got:
        s = s + x * x
    c.check_eq(obj.chisqr(), s, "chi squared is the sum of their squares", 1e-6)
    c.check_eq(obj.chisqr([p] if given else None), s, "chi squared, values given or not", 1e-6)
    c.check_eq(data.psi, np.array([psi[i] for i in keep]), "the data stay as they were")
    c.check_eq(data.delta, np.array([delta[i] for i in keep]), "the data stay as they were")


def long(c, n):
    """many points; the modelled and measured deltas are close enough that there is one way round"""
    np, R = c.np, c.R
    cf = [(c.real("a%d" % i, 0, 90), c.real("b%d" % i, -5, 5), c.real("d%d" % i, 90, 100), 0.0, 45.0) for i in range(n)]
    psi, delta = c.reals("psi", n, 0, 90), c.reals("delta", n, 101, 170)
    data = R.DataSE([np.array([500.0 + i for i in range(n)]), np.array([60.0 + i for i in range(n)]), np.array(psi), np.array(delta)])
    p = c.real("p", -10, 10)
    obj = R.ObjectiveSE(stub_model(c, cf, [par(c, p)]), data)
    for keep in (list(range(n)), [i for i in range(n) if i % 3 != 1], [n - 1]):
        data.mask = np.array([i in keep for i in range(n)])
        got = obj.residuals()
        want = [cf[i][0] + cf[i][1] * p - psi[i] for i in keep] + [delta[i] - cf[i][2] for i in keep]
        c.check_eq(np.shape(got), (2 * len(keep),), "two residuals per unmasked point")
        c.check_eq(got, np.array(want), "residuals of many points")
        c.check_eq(obj.chisqr(), sum(w * w for w in want), "chi squared of many points", 1e-6)


def sharing(c):
    """one model in two objectives whose data use different conventions"""
    np, R = c.np, c.R
    cf = coefs(c, 1)
    d1, psi, delta = dataset(c, 1)
    w = c.real("wrapped", 0, 180)
    d2 = R.DataSE([np.array([500.0]), np.array([60.0]), np.array([psi[0]]), np.array([w])], reflect_delta=True)
    model = stub_model(c, cf, [par(c, c.real("p0", -10, 10))])
    pair = [R.ObjectiveSE(model, d1), R.ObjectiveSE(model, d2)]
    want = [circ(cf[0][2], delta[0]), circ(cf[0][4], w)]
    for k in c.choose("order", [(0, 1), (1, 0), (0, 1, 0), (1, 0, 1)]):
        c.check_eq(pair[k].residuals()[1], want[k], "each objective uses the convention of its own data")
        c.check_eq(pair[1 - k].chisqr() - pair[1 - k].residuals()[0] ** 2, want[1 - k] ** 2, "chi squared too", 1e-6)


def rawdata(c):
    """data that is not a dataset"""
    np, R = c.np, c.R
    cf = coefs(c, 2)
    psi, delta = c.reals("psi", 2, 0, 90), c.reals("delta", 2, 0, 360)
    raw = [np.array([500.0, 501.0]), np.array([60.0, 61.0]), np.array(psi), np.array(delta)]
    p0 = c.real("p0", -10, 10)
    obj = R.ObjectiveSE(stub_model(c, cf, [par(c, p0)]), raw)
    got = obj.residuals()
    for i in range(2):
        c.check_eq(got[i], cf[i][0] + cf[i][1] * p0 - psi[i], "psi residual")
        c.check_eq(got[2 + i], circ(cf[i][2], delta[i]), "delta residual")


def real_model(c, reflect, n=2):
    """with the model of a film: the residuals compare its psi and delta with the data"""
    np, R = c.np, c.R
    from refnx.analysis import Parameter

    def build(d):
        return R.ReflectModelSE(R.RI([1.0, 0.0])() | R.Cauchy(A, B, 0)(d) | R.RI([nb, kb])(), delta_offset=off)

    A, B = c.real("A", 1.2, 2), c.real("B", 0, 0.01)
    nb, kb, off = c.real("nb", 2, 5), c.real("kb", 0.01, 5), c.real("off", -20, 20)
    lam = c.reals("lam", n, 200, 2000)
    aoi = c.reals("aoi", n, 5, 85)
    psi, delta = c.reals("psi", n, 0, 90), c.reals("delta", n, 0, 180)
    data = R.DataSE([np.array(lam), np.array(aoi), np.array(psi), np.array(delta)], reflect_delta=reflect)
    d0, d1 = c.real("d0", 1, 2000), c.real("d1", 1, 2000)
    p = Parameter(d0, "thick", vary=True, bounds=(0, 5000))
    obj = R.ObjectiveSE(build(p), data)
    obj.residuals()
    got = obj.residuals([d1])
    alone = []
    for i in range(n):
        m = build(d1)
        R.ObjectiveSE(m, data).residuals()  # the model takes on the convention of the data
        a, b = m(np.array([[lam[i], aoi[i]]]))
        alone.append((a[0], 0.0, b[0], 0.0, b[0]))
        c.check_eq(got[i], a[0] - psi[i], "psi residual of a film", 1e-6)
    # the distance itself: see the other cases
    data = R.DataSE([np.array([500.0 + i for i in range(n)]), np.array([60.0 + i for i in range(n)]), np.array(psi), np.array(delta)])
    want = R.ObjectiveSE(stub_model(c, alone, [par(c, 0.0)]), data).residuals()
    for i in range(n):
        c.check_eq(got[n + i], want[n + i], "delta residual of a film", 1e-5)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "model psi/delta arbitrary per row (0-90, 0-360), data psi 0-90, delta 0-360"
    out = []
    for k in ("scalar", "keyword", "arrays", "default"):
        out.append(dict(name="distance " + k, fn=mk(distance, k), budget=60, bounds="angles -1000-1000, period 1-720, up to 5 turns apart"))
    n = 2 if tier == "quick" else 3
    for masked in (False, True):
        for given in (False, True):
            out.append(dict(name="residuals %d%d" % (masked, given), fn=mk(residuals, n, masked, given), budget=90, bounds=B + "; %d rows, any mask" % n))
    out.append(dict(name="reflected", fn=mk(residuals, n, False, True, reflect=True), budget=90, bounds=B + ", reflected"))
    out.append(dict(name="any delta", fn=mk(residuals, 1, False, False, lo=-360, hi=720), budget=90, bounds=B + ", data delta -360-720"))
    out.append(dict(name="three points", fn=mk(residuals, 3, True, False, hi=180, dhi=180), budget=150, bounds=B + "; 3 rows, any mask"))
    out.append(dict(name="many points", fn=mk(long, 12), budget=60, bounds="12 points, model delta 90-100, data delta 101-170"))
    out.append(dict(name="sharing", fn=sharing, budget=60, bounds=B))
    out.append(dict(name="raw data", fn=rawdata, budget=60, bounds=B))
    for r in (False, True):
        out.append(dict(name="film %d" % r, fn=mk(real_model, r, 1 if r else 2), budget=200, bounds="film on absorbing substrate, 2 rows, all constants symbolic"))
    return out
