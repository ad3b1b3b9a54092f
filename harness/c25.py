"""C25: several objectives fitted together."""
from .c13 import par
from .objs import circ, coefs, dataset, stub_model

ASSUMES = ["the objectives are combined with refnx's GlobalObjective, executed as it is; models answer a + b * p per row"]


def pieces(c, n=2, reflect=(False, False), weighted=True, mask=False):
    """two objectives that share a parameter"""
    from refnx.analysis import GlobalObjective

    R, np = c.R, c.np
    s, a, b = par(c, "s", c.real("s_", -5, 5)), par(c, "a", c.real("a_", -5, 5)), par(c, "b", c.real("b_", -5, 5))
    objs, models, want = [], [], []
    for k, own in enumerate((a, b)[:n]):
        cf = [(c.real("ca%d" % k, 0, 90), c.real("cb%d" % k, -5, 5), c.real("cd%d" % k, 0, 180), 0.0, c.real("cf%d" % k, 0, 180)),
              (c.real("ga%d" % k, 0, 90), c.real("gb%d" % k, -5, 5), c.real("gd%d" % k, 0, 180), 0.0, c.real("gf%d" % k, 0, 180))]
        psi = [c.real("psi%d%d" % (k, i), 0, 90) for i in range(2)]
        delta = [c.real("delta%d%d" % (k, i), 0, 180) for i in range(2)]
        data = R.DataSE([np.array([500.0, 501.0]), np.array([60.0, 61.0]), np.array(psi), np.array(delta)], reflect_delta=reflect[k])
        data.weighted = weighted
        keep = [0, 1]
        if mask and k == 0:
            data.mask = np.array([False, True])
            keep = [1]
        m = stub_model(c, cf, [s, own])
        objs.append(R.ObjectiveSE(m, data))
        models.append(m)
        want.append((cf, psi, delta, own, keep, reflect[k]))
    return objs, want, s, a, b, GlobalObjective


def expect(want, s):
    """residuals of each objective"""
    out = []
    for cf, psi, delta, own, keep, fl in want:
        p = s.value + own.value
        r = [cf[i][0] + cf[i][1] * p - psi[i] for i in keep]
        d = []
        for i in keep:
            md = cf[i][4] if fl else cf[i][2]
            dd = md - delta[i]
            d.append(-dd if dd < 0 else dd)
        out.append(r + d)
    return out


def residuals(c, lam, mask, reflect):
    np = c.np
    objs, want, s, a, b, GO = pieces(c, reflect=reflect, mask=mask)
    ls = [c.real("l0", 0.1, 3), c.real("l1", 0.1, 3)] if lam else None
    g = GO(objs)
    if lam:
        g.lambdas = ls
    e = expect(want, s)
    f = ls or [1, 1]
    w = [f[k] * x for k in range(2) for x in e[k]]
    got = g.residuals()
    c.check_eq(np.shape(got), (len(w),), "the residuals of all objectives")
    c.check_eq(got, np.array(w), "one after the other, times the multiplier", 1e-6)
    c.check_eq(g.chisqr(), sum(x * x for x in w), "chi squared of all", 1e-6)
    v = c.reals("v", 3, -5, 5)
    got = g.residuals([v[0], v[1], v[2]])
    c.check_eq([s.value, a.value, b.value], v, "the values are set in the order of the list")
    e = expect(want, s)
    c.check_eq(got, np.array([f[k] * x for k in range(2) for x in e[k]]), "residuals for the values given", 1e-6)


def listing(c):
    objs, want, s, a, b, GO = pieces(c)
    g = GO(objs)
    c.check([id(p) for p in g.varying_parameters()] == [id(p) for p in (s, a, b)], "a shared parameter is listed once")
    s.vary = False
    c.check([id(p) for p in g.varying_parameters()] == [id(p) for p in (a, b)], "follows what varies")
    c.check([id(p) for p in g.parameters.flattened()] == [id(p) for p in (s, a, s, b)], "all parameters")


def loglike(c, weighted):
    objs, want, s, a, b, GO = pieces(c, weighted=weighted)
    g = GO(objs)
    g.lambdas = ls = [c.real("l0", 0.1, 3), c.real("l1", 0.1, 3)]
    e = expect(want, s)
    t = 0
    for k in range(2):
        x = sum(r * r for r in e[k])
        if weighted:
            x = x + 4 * c.np.log(2 * c.np.pi)
        t = t - ls[k] * x / 2
    c.check_eq(g.logl(), t, "the log-likelihoods add, times their multipliers", 1e-6)
    if weighted:
        c.check(bool(g.weighted), "weighted if all are")
    else:
        c.check(not bool(g.weighted), "not weighted if none is")


def shared(c):
    """one structure and one model for data in the two Delta conventions"""
    from refnx.analysis import GlobalObjective

    R, np = c.R, c.np
    nb, kb, off = c.real("nb", 1, 4), c.real("kb", 0.1, 4), c.real("off", -5, 5)
    lam, aoi = c.real("lam", 300, 900), c.real("aoi", 30, 80)

    def build():
        return R.ReflectModelSE(R.StructureSE(components=[R.RI([1.0, 0.0])(), R.RI([nb, kb])()]), delta_offset=off)

    def data(k, fl):
        return R.DataSE([np.array([lam]), np.array([aoi]), np.array([psi[k]]), np.array([delta[k]])], reflect_delta=fl)

    psi = [c.real("psi%d" % i, 0, 90) for i in range(2)]
    delta = [c.real("delta%d" % i, 0, 360) for i in range(2)]
    m = build()
    objs = [R.ObjectiveSE(m, data(k, fl)) for k, fl in enumerate((True, False))]
    g = GlobalObjective(objs)
    got = g.residuals()
    again = g.residuals()
    want = []
    for k, fl in enumerate((True, False)):
        want += list(R.ObjectiveSE(build(), data(k, fl)).residuals())
    c.check_eq(got, np.array(want), "as for objectives with models of their own", 1e-6)
    c.check_eq(again, np.array(want), "also when asked again", 1e-6)


def corefine(c):
    """an ellipsometry objective and one of another kind"""
    from refnx.analysis import GlobalObjective, Parameters

    R, np = c.R, c.np
    s = par(c, "s", c.real("s_", -5, 5))
    cf = coefs(c, 1, dhi=180)
    d, psi, delta = dataset(c, 1, hi=180)
    se = R.ObjectiveSE(stub_model(c, cf, [s]), d)
    y = c.real("y", -5, 5)

    class Other:
        weighted = False

        def __init__(self):
            self.parameters = Parameters(data=[s], name="other")

        def residuals(self, pvals=None):
            return np.array([s.value * 2 - y])

        def logl(self, pvals=None):
            return -0.5 * (s.value * 2 - y) ** 2

        def logp(self, pvals=None):
            return 0.0

        npoints = 1

    first = c.boolean("first")
    g = GlobalObjective([se, Other()] if first else [Other(), se])
    v = c.real("v", -5, 5)
    got = g.residuals([v])
    w = [cf[0][0] + cf[0][1] * v - psi[0], abs(cf[0][2] - delta[0])]
    o = [2 * v - y]
    c.check_eq(got, np.array(w + o if first else o + w), "residuals of both kinds", 1e-6)


def mk(f, *a, **k):
    return dict(name=" ".join([f.__name__] + [str(x) for x in a]), fn=lambda c: f(c, *a), bounds=k.pop("bounds", ""), budget=k.pop("budget", 100))


def cases(tier):
    b = "two objectives of two points"
    out = [mk(residuals, False, False, (False, False), bounds=b), mk(residuals, True, False, (False, True), bounds=b),
           mk(residuals, True, True, (False, False), bounds=b + ", one masked"), mk(listing), mk(loglike, True, bounds=b), mk(loglike, False, bounds=b),
           mk(shared, bounds="substrate, one point each, both conventions"), mk(corefine)]
    return out
