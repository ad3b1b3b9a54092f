"""C13: log-likelihood, log-prior, log-posterior."""
from .objs import circ, coefs, dataset, stub_model

ASSUMES = ["priors: an arbitrary log-density per parameter (uninterpreted), or the uniform prior of refnx with concrete bounds"]
INF = float("inf")


def prior(c, nm):
    """an arbitrary prior distribution"""
    from refnx.analysis import Bounds

    class Any(Bounds):
        def logp(self, value):
            return c.uf("logp_" + nm, value)

        def valid(self, val):
            return val

        def invcdf(self, q):
            return c.uf("inv_" + nm, q)

    return Any()


def par(c, nm, v, vary=True, bounds=None):
    from refnx.analysis import Parameter

    return Parameter(v, nm, vary=vary, bounds=bounds or prior(c, nm))


def logl(c, n, weighted, use, sigma, given, masked=False, extra=True):
    np, R = c.np, c.R
    cf = coefs(c, n, dhi=180)
    data, psi, delta = dataset(c, n, hi=180)
    data.weighted = weighted
    keep = list(range(n))
    if masked:
        data.mask = np.array([True] * (n - 1) + [False])
        keep = keep[:-1]
    p0, p1 = c.real("p0", -10, 10), c.real("p1", -10, 10)
    ml, ex = c.real("modellogp", -50, 50), c.real("extra", -50, 50)
    model = stub_model(c, cf, [par(c, "p", p0)], logp=ml if extra else None)
    seen = []

    def le(m, d):
        seen.append((m, d, m.p()))
        return ex

    s0, s1 = c.real("s0", -4, 1), c.real("s1", -4, 1)
    ls = dict(none=None, fixed=s0, vary=par(c, "lnsigma", s0))[sigma] if sigma != "zero" else 0.0
    obj = R.ObjectiveSE(model, data, lnsigma=ls, use_weights=use, logp_extra=le if extra else None)
    p, s = (p0, s0) if not given else (p1, s1 if sigma == "vary" else s0)
    if sigma == "zero":
        s = 0
    got = obj.logl(None if not given else [s1, p1] if sigma == "vary" else [p1])
    mp = [cf[i][0] + cf[i][1] * p for i in keep]
    md = [cf[i][2] for i in keep]
    res = [mp[j] - psi[i] for j, i in enumerate(keep)] + [circ(md[j], delta[i]) for j, i in enumerate(keep)]
    tot = 0
    for y, r in zip(mp + md, res):
        var = 1 if sigma == "none" else 1 + np.exp(2 * s) * y * y
        tot = tot + r * r / var
        if weighted and use:
            tot = tot + np.log(2 * np.pi * var)
    want = -tot / 2
    if extra:
        want = want + ml + ex
    c.check_eq(got, want, "log-likelihood", 1e-6)
    if extra:
        c.check(len(seen) >= 1 and seen[0][0] is model and seen[0][1] is data, "the extra term is asked with model and data")
        c.check_eq(seen[0][2], p, "the extra term sees the values given")
    c.check_eq(obj.logl(), got, "asking again gives the same")


def long(c, n, sigma, weighted):
    """many points"""
    np, R = c.np, c.R
    cf = [(c.real("a%d" % i, 0, 90), c.real("b%d" % i, -5, 5), c.real("d%d" % i, 90, 100), 0.0, 45.0) for i in range(n)]
    psi, delta = c.reals("psi", n, 0, 90), c.reals("delta", n, 101, 170)
    data = R.DataSE([np.array([500.0 + i for i in range(n)]), np.array([60.0 + i for i in range(n)]), np.array(psi), np.array(delta)])
    data.weighted = weighted
    p, s = c.real("p", -10, 10), c.real("s", -4, 1)
    obj = R.ObjectiveSE(stub_model(c, cf, [par(c, "p", p)]), data, lnsigma=s if sigma else None)
    tot = 0
    for i in range(n):
        for y, r in ((cf[i][0] + cf[i][1] * p, cf[i][0] + cf[i][1] * p - psi[i]), (cf[i][2], delta[i] - cf[i][2])):
            var = 1 + np.exp(2 * s) * y * y if sigma else 1
            tot = tot + r * r / var + (np.log(2 * np.pi * var) if weighted else 0)
    c.check_eq(obj.logl(), -tot / 2, "log-likelihood of many points", 1e-6)


def logp(c, given):
    """sum over the varying parameters, each counted once"""
    R, np = c.R, c.np
    cf = coefs(c, 1, dhi=180)
    data, psi, delta = dataset(c, 1, hi=180)
    vals, new = c.reals("p", 3, -10, 10), c.reals("q", 3, -10, 10)
    a, b, f = par(c, "a", vals[0]), par(c, "b", vals[1]), par(c, "f", 3.0, vary=False)
    model = stub_model(c, cf, [a, f, b, a])
    obj = R.ObjectiveSE(model, data, lnsigma=par(c, "ls", vals[2]))
    if given:
        got = obj.logp([new[2], new[0], new[1]])
        v = new
    else:
        got = obj.logp()
        v = vals
    want = c.uf("logp_a", v[0]) + c.uf("logp_b", v[1]) + c.uf("logp_ls", v[2])
    c.check_eq(got, want, "log-prior is the sum over varying parameters")
    post = obj.logpost([new[2], new[0], new[1]] if given else None)
    c.check_eq(post, want + obj.logl(), "log-posterior is prior plus likelihood", 1e-6)
    c.check_eq([a.value, b.value, f.value, obj.lnsigma.value], [v[0], v[1], 3.0, v[2]], "values set")


def bounded(c):
    """outside its bounds: impossible, and the model is not asked"""
    import math

    R, np = c.R, c.np
    cf = coefs(c, 1, dhi=180)
    data, psi, delta = dataset(c, 1, hi=180)
    a, b = par(c, "a", 1.0, bounds=(0, 4)), par(c, "b", 2.5, bounds=(2, 3))
    model = stub_model(c, cf, [a, b])
    obj = R.ObjectiveSE(model, data)
    va, vb = c.real("va", -10, 10), c.real("vb", -10, 10)
    before = model.calls
    got = obj.logpost([va, vb])
    ok = bool(va >= 0) and bool(va <= 4) and bool(vb >= 2) and bool(vb <= 3)
    lp = obj.logp()
    if ok:
        c.check_eq(lp, math.log(1 / 4), "uniform prior", 1e-9)
        c.check_eq(got, lp + obj.logl(), "log-posterior within the bounds", 1e-6)
    else:
        c.check(np.isneginf(got), "impossible outside the bounds")
        c.check(np.isneginf(lp), "impossible prior outside the bounds")
        c.check(model.calls == before, "and the model is not asked")
    c.check_eq([a.value, b.value], [va, vb], "values set")


def nanprior(c):
    R, np = c.R, c.np
    from refnx.analysis import Bounds

    class Bad(Bounds):
        def logp(self, value):
            return float("nan")

        def valid(self, val):
            return val

    cf = coefs(c, 1, dhi=180)
    data, psi, delta = dataset(c, 1, hi=180)
    obj = R.ObjectiveSE(stub_model(c, cf, [par(c, "a", c.real("a", 0, 1), bounds=Bad())]), data)
    c.check(np.isneginf(obj.logp()), "an undefined prior counts as impossible")
    c.check(np.isneginf(obj.logpost()), "an undefined prior counts as impossible")


def nandata(c):
    """a model without an answer is reported, not averaged away"""
    R, np = c.R, c.np
    cf = coefs(c, 2, dhi=180)
    cf[1] = (float("nan"),) + cf[1][1:]
    data, psi, delta = dataset(c, 2, hi=180)
    obj = R.ObjectiveSE(stub_model(c, cf, [par(c, "a", 1.0)]), data)
    c.check(c.raises(RuntimeError, obj.logl), "NaN is refused")


def real_model(c):
    """model.logp is that of the structure: the film's own constraints"""
    R, np = c.R, c.np
    ex = c.real("lp", -9, 9)
    st = R.RI([1.0, 0.0])() | R.RI([c.real("n", 1.2, 2), 0.0])(c.real("d", 1, 900)) | R.RI([3.0, 0.5])()

    class Film(type(st)):
        def logp(self):
            return ex

    st.__class__ = Film
    m = R.ReflectModelSE(st)
    c.check_eq(m.logp(), ex, "log-probability of a model is that of its structure")
    psi, delta = c.real("psi", 0, 90), c.real("delta", 0, 360)
    x = np.array([[c.real("lam", 300, 900), c.real("aoi", 10, 80)]])
    obj = R.ObjectiveSE(m, R.DataSE([x[:, 0], x[:, 1], np.array([psi]), np.array([delta])]))
    c.check_eq(obj.logl(), ex - obj.chisqr() / 2, "log-likelihood of a film", 1e-6)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "model psi 0-90 + b p, delta 0-180, data psi 0-90, delta 0-180, lnsigma -4-1"
    out = []
    n = 2 if tier == "quick" else 4
    for weighted, use in ((False, True), (True, True), (True, False)):
        for sigma in ("none", "fixed", "vary", "zero"):
            for given in (False, True):
                out.append(dict(name="logl %d%d %s %d" % (weighted, use, sigma, given), fn=mk(logl, n, weighted, use, sigma, given), budget=60,
                                bounds=B + "; %d rows" % n))
    for sigma, w in ((False, False), (True, False), (True, True)):
        out.append(dict(name="many points %d%d" % (sigma, w), fn=mk(long, 10, sigma, w), budget=60, bounds="10 points, model delta 90-100, data delta 101-170"))
    out.append(dict(name="logl masked", fn=mk(logl, 3, True, True, "vary", True, True), budget=60, bounds=B + "; 3 rows, last masked"))
    out.append(dict(name="logl bare", fn=mk(logl, n, False, True, "none", False, extra=False), budget=60, bounds=B))
    for given in (False, True):
        out.append(dict(name="logp %d" % given, fn=mk(logp, given), budget=60, bounds="arbitrary priors, a shared and a fixed parameter"))
    out.append(dict(name="bounds", fn=bounded, budget=60, bounds="two uniform priors, values -10-10"))
    out.append(dict(name="nan prior", fn=nanprior, budget=30, bounds=""))
    out.append(dict(name="nan model", fn=nandata, budget=30, bounds=B))
    out.append(dict(name="film", fn=real_model, budget=60, bounds="one film, one row"))
    return out
