"""C14: parameter vectors: which parameters, in which order, and what state they leave."""
from .c13 import par
from .objs import Standin, coefs, dataset, stub_model

ASSUMES = ["covariance: models that are linear in one or two parameters (numerical differentiation is then exact); the singular value decomposition is replaced by factors with the same product VT^T s^-2 VT"]


def system(c, lnsigma=True):
    """a, fixed f, shared a, b (+ lnsigma): 3 varying of 5 listed"""
    R = c.R
    cf = coefs(c, 1, dhi=180)
    data, psi, delta = dataset(c, 1, hi=180)
    a, b, f = par(c, "a", c.real("a_", -10, 10)), par(c, "b", c.real("b_", -10, 10)), par(c, "f", c.real("f_", -10, 10), vary=False)
    ls = par(c, "ls", c.real("ls_", -4, 1)) if lnsigma else None
    model = stub_model(c, cf, [a, f, a, b])
    return R.ObjectiveSE(model, data, lnsigma=ls), a, b, f, ls, cf, psi


def listing(c, lnsigma):
    obj, a, b, f, ls, cf, psi = system(c, lnsigma)
    v = list(obj.varying_parameters())
    want = ([ls] if lnsigma else []) + [a, b]
    c.check([id(x) for x in v] == [id(x) for x in want], "the varying parameters, each once, in order")
    allp = [id(x) for x in obj.parameters.flattened()]
    want = ([ls] if lnsigma else []) + [a, f, a, b]
    c.check(allp == [id(x) for x in want], "all parameters, in order")
    f.vary = True
    b.vary = False
    v = list(obj.varying_parameters())
    want = ([ls] if lnsigma else []) + [a, f]
    c.check([id(x) for x in v] == [id(x) for x in want], "follows changes of what varies")


def setting(c, how, lnsigma):
    """each way of passing values"""
    np = c.np
    obj, a, b, f, ls, cf, psi = system(c, lnsigma)
    n = 2 + lnsigma
    full = 4 + lnsigma
    q = c.reals("q", full, -3, 1)
    form = c.choose("form", ["list", "tuple", "array"])
    start = [a.value, b.value, f.value] + ([ls.value] if lnsigma else [])

    def pack(x):
        return list(x) if form == "list" else tuple(x) if form == "tuple" else np.array(x)

    def now():
        return [a.value, b.value, f.value] + ([ls.value] if lnsigma else [])

    def apply(x):
        return dict(setp=obj.setp, residuals=obj.residuals, chisqr=obj.chisqr, logp=obj.logp, logl=obj.logl, logpost=obj.logpost)[how](x)

    if lnsigma:
        vary = (q[1], q[2], start[2], q[0])
        fullv = (q[3], q[4], q[2], q[0])
    else:
        vary = (q[0], q[1], start[2])
        fullv = (q[2], q[3], q[1])
    apply(None)
    c.check_eq(now(), start, "no values: nothing changes")
    got = apply(pack(q[:n]))
    c.check_eq(now(), list(vary), "as many values as vary: they are set, in order")
    if how not in ("setp", "logp"):
        c.check_eq(apply(None), got, "the answer is that of the new values", 1e-6)
    apply(pack(q))
    c.check_eq(now(), list(fullv), "as many values as there are: all are set, the last of a shared parameter stays")
    left = now()
    for k in (0, 1, n + 1, full + 1):
        if k in (n, full):
            continue
        c.check(c.raises(ValueError, apply, pack((q + q)[:k])), "a wrong number of values is refused")
        c.check_eq(now(), left, "and changes nothing")


def bounded(c):
    """values are taken as given, also outside the bounds, where the prior is zero"""
    import math

    R, np = c.R, c.np
    from refnx.analysis import Parameter

    cf = coefs(c, 1, dhi=180)
    data, psi, delta = dataset(c, 1, hi=180)
    a = Parameter(1.0, "a", vary=True, bounds=(0, 5))
    b = Parameter(2.0, "b", vary=True, bounds=(-3, None))
    k = Parameter(0.5, "k")
    k.constraint = 2 * a + b
    obj = R.ObjectiveSE(stub_model(c, cf, [a, b, k]), data)
    v = [c.real("v0", -10, 10), c.real("v1", -10, 10)]
    got = obj.logp(v)
    c.check_eq([a.value, b.value], v, "the values are set as given")
    c.check_eq(k.value, 2 * v[0] + v[1], "constraints follow")
    inside = (v[0] >= 0) & (v[0] <= 5) & (v[1] >= -3)
    lp = obj.logpost([v[0], v[1]])
    if inside:
        c.check_eq(got, math.log(1 / 5), "uniform prior inside the bounds")
        c.check_eq(lp, math.log(1 / 5) + obj.logl(), "posterior inside")
    else:
        c.check(got == -math.inf, "zero prior outside the bounds")
        c.check(lp == -math.inf, "zero posterior outside the bounds")
    c.check_eq([a.value, b.value], v, "the values stay set")
    w = [c.real("w0", -10, 10), c.real("w1", -10, 10)]
    r = obj.residuals(w)
    c.check_eq(r[0], cf[0][0] + cf[0][1] * (3 * w[0] + 2 * w[1]) - psi[0], "residuals for the values given")
    x = obj.chisqr(w)
    c.check_eq(x, np.dot(r, r), "chi squared for the values given", 1e-6)
    u = c.reals("u", 1, 0, 1)
    b.bounds = (-3, 7)
    c.check_eq(obj.prior_transform([u[0], u[0]]), np.array([5 * u[0], 10 * u[0] - 3]), "prior transform of uniform priors")
    c.check_eq([a.value, b.value], w, "the prior transform sets nothing")


def transform(c):
    obj, a, b, f, ls, cf, psi = system(c)
    u = c.reals("u", 3, 0, 1)
    start = [a.value, b.value, f.value, ls.value]
    got = obj.prior_transform(u)
    c.check_eq(got, c.np.array([c.uf("inv_ls", u[0]), c.uf("inv_a", u[1]), c.uf("inv_b", u[2])]), "each value from its own prior, in order")
    c.check_eq([a.value, b.value, f.value, ls.value], start, "the values stay as they were")


def covar(c, n, zero, weighted):
    """variance of the parameter of a linear model"""
    R, np = c.R, c.np
    cf = coefs(c, n, dhi=90)
    data, psi, delta = dataset(c, n, lo=90, hi=180)
    data.weighted = weighted
    v = 0.0 if zero else c.real("v", 0.5, 10)
    a = par(c, "a", v)
    obj = R.ObjectiveSE(stub_model(c, cf, [a]), data)
    j = 0
    for q in cf:
        j = j + q[1] * q[1]
    c.assume(j > 0.01)
    got = obj.covar()
    c.check_eq(a.value, v, "the parameter is as it was")
    want = 1 / j
    if not weighted:
        want = want * obj.chisqr() / (2 * n - 1)
    c.check_eq(np.shape(got), (1, 1), "one row and column per varying parameter")
    c.check_eq(got[0, 0], want, "variance", 1e-4)


def covar_singular(c, which):
    """a parameter without effect on the residuals has no variance: refused"""
    R, np = c.R, c.np
    from refnx.analysis import Parameters

    n = 2
    data, psi, delta = dataset(c, n, lo=90, hi=180)
    p, q = par(c, "a", c.real("va", 0.5, 10)), par(c, "b", c.real("vb", 0.5, 10))
    u = (p, q)[1 - which]
    g = [c.real("g%d" % i, 0.1, 5) for i in range(n)]
    v = [p.value, q.value]

    class Lin(Standin):
        def __call__(self, x, pv=None, **k):
            r = [int(y[0]) - 500 for y in x]
            return np.array([g[i] * u.value for i in r]), np.array([45.0 for i in r])

        model = __call__

    Lin.np = np
    obj = R.ObjectiveSE(Lin(c, Parameters(name="lin", data=[p, q])), data)
    c.check(c.raises((np.linalg.LinAlgError,), obj.covar), "no covariance with a parameter of no effect")
    c.check_eq([p.value, q.value], v, "the parameters are as they were")


def covar2(c, zero):
    """two parameters: the inverse of J^T J, scaled"""
    R, np = c.R, c.np
    from refnx.analysis import Parameters

    n = 2
    data, psi, delta = dataset(c, n, lo=90, hi=180)
    va, vb = (0.0 if zero else c.real("va", 0.5, 10)), c.real("vb", 0.5, 10)
    p, q = par(c, "a", va), par(c, "b", vb)
    g = [(c.real("g%d" % i, -5, 5), c.real("h%d" % i, -5, 5)) for i in range(n)]

    class Lin(Standin):
        def __call__(self, x, pv=None, **k):
            r = [int(y[0]) - 500 for y in x]
            return np.array([g[i][0] * p.value + g[i][1] * q.value for i in r]), np.array([45.0 for i in r])

        model = __call__

    Lin.np = np
    obj = R.ObjectiveSE(Lin(c, Parameters(name="lin", data=[p, q])), data)
    j11, j12, j22 = (sum(g[i][x] * g[i][y] for i in range(n)) for x, y in ((0, 0), (0, 1), (1, 1)))
    det = j11 * j22 - j12 * j12
    c.assume(j11 > 0.01)
    c.assume(det > 0.01)
    got = obj.covar()
    c.check_eq([p.value, q.value], [va, vb], "the parameters are as they were")
    k = obj.chisqr() / (2 * n - 2) / det
    c.check_eq(np.shape(got), (2, 2), "one row and column per varying parameter")
    for (i, j), w in (((0, 0), j22), ((0, 1), -j12), ((1, 0), -j12), ((1, 1), j11)):
        c.check_eq(got[i, j], w * k, "covariance", 1e-4)


def real_model(c):
    """parameters of a film model: listed, set and used"""
    R, np = c.R, c.np
    from refnx.analysis import Parameter

    A, d, r, vf = (Parameter(v, nm, vary=True, bounds=(-100, 9000)) for nm, v in (("A", 1.5), ("d", 100.0), ("r", 0.0), ("vf", 0.25)))
    film = R.Cauchy(A, 0.0, 0.0)(d, r, vf)
    sub = R.RI([3.0, 0.5])()
    off = Parameter(0.0, "off", vary=True, bounds=(-9, 9))
    m = R.ReflectModelSE(R.RI([1.0, 0.0])() | film | sub, delta_offset=off)
    x = np.array([[c.real("lam", 300, 900), c.real("aoi", 10, 80)]])
    obj = R.ObjectiveSE(m, R.DataSE([x[:, 0], x[:, 1], np.array([30.0]), np.array([90.0])]))
    ids = [id(p) for p in obj.varying_parameters()]
    c.check(sorted(ids) == sorted(id(p) for p in (A, d, r, vf, off)), "every parameter of the film is fitted")
    new = {id(A): c.real("A", 1.2, 2), id(d): c.real("d", 1, 900), id(r): 0.0, id(vf): 0.0, id(off): c.real("off", -9, 9)}
    got = obj.residuals([new[i] for i in ids])
    w = R.ReflectModelSE(R.RI([1.0, 0.0])() | R.RI([new[id(A)], 0.0])(new[id(d)]) | R.RI([3.0, 0.5])(), delta_offset=new[id(off)])(x)
    c.check_eq(got[0], w[0][0] - 30, "psi of the new values", 1e-6)
    # the distance itself: C12
    data = R.DataSE([np.array([500.0]), np.array([60.0]), np.array([30.0]), np.array([90.0])])
    want = R.ObjectiveSE(stub_model(c, [(w[0][0], 0.0, w[1][0], 0.0, 0.0)], [par(c, "q", 0.0)]), data).residuals()
    c.check_eq(got[1], want[1], "delta of the new values", 1e-5)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    out = []
    for ln in (False, True):
        out.append(dict(name="listing %d" % ln, fn=mk(listing, ln), budget=20, bounds="5 parameters, one fixed, one shared"))
        for how in ("setp", "residuals", "chisqr", "logp", "logl", "logpost"):
            out.append(dict(name="%s %d" % (how, ln), fn=mk(setting, how, ln), budget=60, bounds="all values -3-1, list, tuple or array"))
    out.append(dict(name="bounds", fn=bounded, budget=60, bounds="values -10-10, bounds (0,5) and (-3,inf), one constrained parameter"))
    out.append(dict(name="prior transform", fn=transform, budget=20, bounds="arbitrary priors"))
    for z in (False, True):
        for w in (False, True):
            out.append(dict(name="covar %d%d" % (z, w), fn=mk(covar, 2, z, w), budget=60, bounds="2 rows, one parameter", valtol=1e-3))
    for z in (False, True):
        out.append(dict(name="covar singular %d" % z, fn=mk(covar_singular, int(z)), budget=60, bounds="2 rows, two parameters, one of no effect"))
        out.append(dict(name="covar two %d" % z, fn=mk(covar2, z), budget=60, bounds="2 rows, two parameters", valtol=1e-3))
    out.append(dict(name="film", fn=real_model, budget=60, bounds="one film, one row"))
    return out
