"""C26: deep copies and pickles of datasets, structures, models and objectives."""
import copy

from .objs import Standin

ASSUMES = ["pickling is executed with symbolic numbers and classes passed by reference (persistent ids); the replay uses plain pickle"]


def dup(c, x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    return c.pickled(x)


HOW = ["deepcopy", "pickle"]


def data_(c, reflect, n=2, pre=""):
    np, R = c.np, c.R
    v = [[c.real("%s%s%d" % (pre, k, i), lo, hi) for i in range(n)] for k, lo, hi in (("w", 300, 900), ("a", 40, 80), ("p", 0, 90), ("d", 0, 360))]
    d = R.DataSE([np.array(x) for x in v], name="mine", reflect_delta=reflect)
    return d, v


def same_data(c, a, b, what):
    for k in ("wavelength", "aoi", "psi", "delta"):
        c.check_eq(getattr(a, k), getattr(b, k), "%s: %s" % (what, k))


def dataset(c, how):
    np = c.np
    d, v = data_(c, c.boolean("reflect"))
    m = c.choose("mask", [None, [True, False], [False, True]])
    if m is not None:
        d.mask = m
    d.weighted = c.boolean("weighted")
    e = dup(c, d, how)
    same_data(c, e, d, "copy")
    c.check(len(e) == len(d), "as many points")
    c.check(e.weighted == d.weighted and e.name == d.name, "settings of the copy")
    before = [np.array(getattr(d, k)) for k in ("wavelength", "aoi", "psi", "delta")]
    e.mask = [True, False] if m != [True, False] else [False, True]
    for k in ("wavelength", "aoi", "psi", "delta"):  # the arrays themselves, where they are handed out
        x = getattr(e, k)
        x[...] = x + 1
    for k, x in zip(("wavelength", "aoi", "psi", "delta"), before):
        c.check_eq(getattr(d, k), x, "changing the copy leaves the original: " + k)


def material(c, kind):
    R, np = c.R, c.np
    if kind == "cauchy":
        return R.Cauchy(c.real("A", 1, 3), c.real("B", 0, 0.1))
    if kind == "lorentz":
        return R.Lorentz([c.real("Am", 0, 9)], [c.real("Br", 0.5, 3)], [c.real("En", 1, 9)])
    if kind == "taucl":
        return R.TaucLorentz([c.real("Am", 0, 9)], [c.real("C", 0.5, 1)], [c.real("En", 3, 9)], c.real("Eg", 1, 2))
    if kind == "table":
        return R.RI([np.array([0.4, 0.6]), np.array(c.reals("n", 2, 1, 3)), np.array(c.reals("k", 2, 0, 3))])
    return R.RI([c.real("n", 1, 3), c.real("k", 0, 3)])


def materials(c, kind, how):
    np = c.np
    m = material(c, kind)
    lam = c.real("lam", 300, 900)
    want = m.complex(lam)
    q = dup(c, m, how)
    c.check_eq(q.complex(lam), want, "index of the copy", 1e-9)
    c.check(q.name == m.name, "name of the copy")
    ps = list(q.parameters.flattened())
    old = list(m.parameters.flattened())
    c.check(len(ps) == len(old), "parameters of the copy")
    c.check(not {id(p) for p in ps} & {id(p) for p in old}, "the copy has parameters of its own")
    for p in ps:
        p.value = p.value * 1.5
    c.check_eq(m.complex(lam), want, "changing the copy leaves the original", 1e-9)
    if kind == "cauchy":
        c.check_eq(q.complex(lam), want * 1.5, "and the copy follows its own parameters", 1e-6)


def build(c, solv=False, settings=False):
    R = c.R
    film = R.Cauchy(c.real("A", 1, 3), c.real("B", 0, 0.05), name="film")
    back = R.RI([c.real("nb", 1, 4), c.real("kb", 0.1, 3)], name="back")
    l1 = film(c.real("d1", 0, 500), 0, c.real("v1", 0.1, 1) if solv else 0)
    l2 = film(c.real("d2", 0, 500))
    st = R.RI([1.0, 0.0])() | l1 | l2 | back()
    st.name = "stack"
    if settings:
        st.ema = c.choose("ema", ["linear", "bruggeman"])
        st.depolarisation_factor = c.real("dp", 0.1, 0.9)
        st.reverse_structure = c.boolean("rev")
        st.solvent = R.RI([c.real("ns", 1, 2), 0.0]) if c.boolean("solvent") else None
        st.wavelength = c.real("lam_", 300, 900)
    return st


def structure(c, how):
    st = build(c, True, True)
    want = st.slabs()
    q = copy.copy(st) if how == "copy" else dup(c, st, how)
    c.check_eq(q.slabs(), want, "slab table of the copy", 1e-9)
    c.check(q.name == st.name and len(q) == 4, "name and layers of the copy")
    if how == "copy":
        for a, b in zip(q, st):
            c.check(a is b, "a shallow copy shares the layers")
        q.pop(1)
        q.ema = "maxwell-garnett"
        q.reverse_structure = not st.reverse_structure
        q.solvent = None
        c.check(len(st) == 4, "but not their list")
        c.check_eq(st.slabs(), want, "nor the settings", 1e-9)
        return
    c.check(q[1].ri is q[2].ri, "a material used twice is still one material")
    q[1].ri.A.value = q[1].ri.A.value + 1
    q[1].thick.value = 1.0
    q.ema = "linear"
    q.depolarisation_factor = 0.5
    q.reverse_structure = False
    q.append(q[1])
    c.check_eq(st.slabs(), want, "changing the copy leaves the original", 1e-9)
    d1 = st[1].thick.value
    u = dup(c, st, how)
    st[1].thick.value = d1 + 7
    st[2].ri.B.value = 0.01
    c.check_eq(u.slabs(), want, "changing the original leaves the copy", 1e-9)


def model(c, how):
    np, R = c.np, c.R
    m = R.ReflectModelSE(build(c), delta_offset=c.real("off", -9, 9), name="model")
    seen, _ = data_(c, c.boolean("flip"), n=1, pre="x")
    R.ObjectiveSE(m, seen).residuals()  # the model takes on the convention of the data
    x = np.array([[c.real("lam", 300, 900), c.real("aoi", 30, 80)]])
    want = m(x)
    q = dup(c, m, how)
    got = q(x)
    c.check_eq(got[0], want[0], "psi of the copy", 1e-9)
    c.check_eq(got[1], want[1], "delta of the copy", 1e-9)
    c.check([p.name for p in q.parameters.flattened()] == [p.name for p in m.parameters.flattened()], "parameters of the copy")
    q.delta_offset.value = q.delta_offset.value + 1
    c.check_eq(q(x)[1], want[1] + 1, "the copy follows its own parameters", 1e-9)
    c.check_eq(m(x)[1], want[1], "changing the copy leaves the original", 1e-9)


class Linear(Standin):
    """psi = 30 + p, delta = 40 + p (50 + p in the reflected convention)"""
    np = None

    def __call__(self, x, p=None, **k):
        v = list(self.parameters.flattened())[0].value
        flip = self.reflected(**k)
        return self.np.array([30 + v for _ in x]), self.np.array([(50 if flip else 40) + v for _ in x])

    model = __call__


def objective(c, how, masked=True):
    np, R = c.np, c.R
    from refnx.analysis import Parameter, Parameters

    psi, delta = c.reals("p", 2, 0, 90), c.reals("d", 2, 20, 180)
    data = R.DataSE([np.array([500.0, 600.0]), np.array([60.0, 70.0]), np.array(psi), np.array(delta)], reflect_delta=c.boolean("reflect"))
    if masked:
        data.mask = [False, True]
    off = Parameter(c.real("off", -9, 9), "off", vary=True, bounds=(-20, 20))
    Linear.np = np
    m = Linear(c, Parameters(data=[off]))
    ls = c.real("ls", -3, 0) if c.boolean("lnsigma") else None
    obj = R.ObjectiveSE(m, data, lnsigma=ls, name="objective")
    want = obj.residuals()
    wl = obj.logpost()
    q = dup(c, obj, how)
    c.check_eq(q.residuals(), want, "residuals of the copy", 1e-9)
    c.check_eq(q.logpost(), wl, "log-posterior of the copy", 1e-9)
    c.check(len(q.varying_parameters()) == 1, "varying parameters of the copy")
    o = c.real("o", -9, 9)
    q.setp([o])
    c.check_eq(obj.residuals(), want, "setting the copy leaves the original", 1e-9)
    obj.setp([o])
    c.check_eq(q.residuals(), obj.residuals(), "the same values give the same residuals", 1e-9)


def mk(f, *a, **k):
    return dict(name=" ".join([f.__name__] + [str(x) for x in a]), fn=lambda c: f(c, *a), bounds=k.pop("bounds", ""), budget=k.pop("budget", 60))


def cases(tier):
    out = [mk(structure, "copy", bounds="4 layers, all settings")]
    for h in HOW:
        out += [mk(dataset, h, bounds="2 points, any mask")] + [mk(materials, k, h) for k in ("cauchy", "lorentz", "taucl", "table", "constant")]
        out += [mk(structure, h, bounds="4 layers, all settings"), mk(model, h, bounds="4 media", budget=100), mk(objective, h, bounds="2 points, one masked", budget=100)]
    return out
