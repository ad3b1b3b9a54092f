"""C23: the parameters of materials, layers, structures and models."""
from .c08 import flat as _flat

ASSUMES = ["the vector p of a model is checked on stacks of two or three transparent media"]


def flat(p):
    return list(_flat(p))


def num(c, nm, lo, hi, form):
    """a number, or a Parameter holding it"""
    from refnx.analysis import Parameter

    v = c.real(nm, lo, hi)
    if form == "number":
        return v, v
    return Parameter(v, "mine " + nm, vary=form == "varying"), v


def same(c, got, want, label):
    c.check([id(p) for p in got] == [id(p) for p in want], label)


def held(c, p, given, v, what):
    """p is the Parameter for what was given"""
    from refnx.analysis import Parameter

    c.check_eq(p.value, v, what + ": value")
    if isinstance(given, Parameter):
        c.check(p is given, what + ": the Parameter given is used itself")
    else:
        c.check(isinstance(p, Parameter) and not p.vary, what + ": a number becomes a parameter that does not vary")


FORMS = ["number", "fixed", "varying"]


def layer(c, via):
    R = c.R
    m = R.Cauchy(c.real("A", 1, 3), c.real("B", 0, 0.1))
    f = [c.choose("form%d" % i, FORMS) for i in range(3)]
    t, tv = num(c, "thick", 0, 1000, f[0])
    r, rv = num(c, "rough", 0, 50, f[1])
    s, sv = num(c, "vf", 0, 1, f[2])
    if via == "call":
        l = m(t, r, s)
    elif via == "keywords":
        l = m(vfsolv=s, rough=r, thick=t)
    else:
        l = R.SlabSE(t, m, r, name="film", vfsolv=s)
    held(c, l.thick, t, tv, "thickness")
    held(c, l.rough, r, rv, "roughness")
    held(c, l.vfsolv, s, sv, "solvent fraction")
    c.check(l.ri is m, "the material itself")
    same(c, flat(l.parameters), [l.thick] + flat(m.parameters) + [l.rough, l.vfsolv], "thickness, material, roughness, solvent fraction")
    if f[2] == "number":
        b = l.vfsolv.bounds
        c.check_eq([b.lb, b.ub], [0.0, 1.0], "a solvent fraction is bounded by 0 and 1")
    c.check(c.raises(ValueError, R.SlabSE, t, "silica", r), "a layer of something that is not a material is refused")


def mixed(c, kind):
    R = c.R
    a = R.Cauchy(c.real("A", 1, 3))
    if kind == "other":
        b = R.Lorentz([c.real("Am", 0, 9)], [c.real("Br", 0.1, 9)], [c.real("En", 1, 9)])
    else:
        b = R.Cauchy(c.real("A2", 1, 3)) if kind == "alike" else a
    f = [c.choose("form%d" % i, FORMS) for i in range(3)]
    t, tv = num(c, "thick", 0, 1000, f[0])
    r, rv = num(c, "rough", 0, 50, f[1])
    s, sv = num(c, "vf", 0, 1, f[2])
    l = R.MixedSlabSE(t, a, b, s, r, name="mix")
    held(c, l.thick, t, tv, "thickness")
    held(c, l.rough, r, rv, "roughness")
    held(c, l.vf_B, s, sv, "fraction")
    same(c, flat(l.parameters), [l.thick] + flat(a.parameters) + flat(b.parameters) + [l.vf_B, l.rough],
         "thickness, both materials, fraction, roughness")
    if f[2] == "number":
        d = l.vf_B.bounds
        c.check_eq([d.lb, d.ub], [0, 1], "a fraction is bounded by 0 and 1")


def material(c, kind):
    """numbers or Parameters given to a material"""
    R = c.R
    form = c.choose("form", FORMS)
    g = lambda nm, lo, hi: num(c, nm, lo, hi, form)
    if kind == "cauchy":
        x = [g("A", 1, 3), g("B", 0, 1), g("C", 0, 1)]
        m = R.Cauchy(*[v[0] for v in x])
        ps = [m.A, m.B, m.C]
    elif kind == "sellmeier":
        x = [g("Am", 0, 3), g("En", 0, 1), g("P", 0, 1), g("Einf", 1, 3)]
        m = R.Sellmeier(*[v[0] for v in x])
        ps = [m.Am, m.En, m.P, m.Einf]
    elif kind in ("lorentz", "gauss"):
        x = [g("Am%d" % i, 0, 3) for i in range(2)] + [g("Br%d" % i, 0, 3) for i in range(2)] + [g("En%d" % i, 0, 3) for i in range(2)] + [g("Einf", 1, 3)]
        v = [y[0] for y in x]
        m = (R.Lorentz if kind == "lorentz" else R.Gauss)(v[:2], v[2:4], v[4:6], v[6])
        ps = list(m.Am) + list(m.Br) + list(m.En) + [m.Einf]
    else:
        x = [g("Am%d" % i, 0, 3) for i in range(2)] + [g("C%d" % i, 0, 3) for i in range(2)] + [g("En%d" % i, 0, 3) for i in range(2)] + [
            g("Eg", 1, 3), g("Einf", 1, 3)]
        v = [y[0] for y in x]
        m = R.TaucLorentz(v[:2], v[2:4], v[4:6], v[6], v[7])
        ps = list(m.Am) + list(m.C) + list(m.En) + [m.Eg, m.Einf]
    for i, (p, (given, v)) in enumerate(zip(ps, x)):
        held(c, p, given, v, "coefficient %d" % i)
    mine = flat(m.parameters)
    c.check(len(mine) == len(ps) and sorted(map(id, mine)) == sorted(map(id, ps)), "exactly the coefficients, each once")
    same(c, flat(m.parameters), mine, "always in the same order")


def table(c):
    R, np = c.R, c.np
    n, k = c.real("n", 1, 3), c.real("k", 0, 3)
    c.check(flat(R.RI([n, k]).parameters) == [], "a constant index has no parameters")
    c.check(flat(R.RI([np.array([0.4, 0.8]), np.array([n, n]), np.array([k, k])]).parameters) == [], "a table has no parameters")


def defaults(c, kind):
    """coefficients that were left out"""
    R = c.R
    v = [c.real("v%d" % i, 0.5, 3) for i in range(4)]
    if kind == "cauchy":
        m, full = R.Cauchy(v[0]), [v[0], 0, 0]
        ps = [m.A, m.B, m.C]
    elif kind == "sellmeier":
        m, full = R.Sellmeier(*v[:3]), v[:3] + [1]
        ps = [m.Am, m.En, m.P, m.Einf]
    elif kind in ("lorentz", "gauss"):
        m, full = (R.Lorentz if kind == "lorentz" else R.Gauss)([v[0]], [v[1]], [v[2]]), v[:3] + [1]
        ps = list(m.Am) + list(m.Br) + list(m.En) + [m.Einf]
    elif kind == "taucl":
        m, full = R.TaucLorentz([v[0]], [v[1]], [v[2]], v[3]), v[:4] + [1]
        ps = list(m.Am) + list(m.C) + list(m.En) + [m.Eg, m.Einf]
    elif kind == "layer":
        m, full = R.Cauchy(v[0])(), [0, 0, 0]
        ps = [m.thick, m.rough, m.vfsolv]
    else:
        st, layers, sv = stack(c, 2)
        m, full = R.ReflectModelSE(st), [0]
        ps = [m.delta_offset]
    for i, (p, w) in enumerate(zip(ps, full)):
        held(c, p, None, w, "left out, coefficient %d" % i)


def stack(c, n, solvent=False):
    R = c.R
    mats = [R.Cauchy(c.real("n%d" % i, 1, 3)) for i in range(n)]
    layers = [m(c.real("d%d" % i, 0, 500), c.real("r%d" % i, 0, 5)) for i, m in enumerate(mats)]
    st = R.StructureSE(components=layers)
    sv = []
    if solvent:
        sm = R.Cauchy(c.real("ns", 1, 3), c.real("bs", 0, 0.1))
        st.solvent = sm
        sv = flat(sm.parameters)
    return st, layers, sv


def lp(layers):
    return [p for l in layers for p in flat(l.parameters)]


def structure(c, solvent):
    R = c.R
    st, layers, sv = stack(c, 3, solvent)
    same(c, flat(st.parameters), lp(layers) + sv, "the layers' parameters from front to back, then the solvent's")
    extra = R.Cauchy(c.real("nx", 1, 3))(c.real("dx", 0, 500))
    st.insert(1, extra)
    now = layers[:1] + [extra] + layers[1:]
    same(c, flat(st.parameters), lp(now) + sv, "follows the layers")
    st.reverse_structure = True
    same(c, flat(st.parameters), lp(now) + sv, "reversing the structure does not reorder the parameters")
    del st[2]
    del now[2]
    same(c, flat(st.parameters), lp(now) + sv, "follows deletions")
    st.append(now[1])
    same(c, flat(st.parameters), lp(now + [now[1]]) + sv, "a layer used twice is listed where it is used")


def model(c):
    R = c.R
    from refnx.analysis import Parameter

    st, layers, sv = stack(c, 2, c.boolean("solvent"))
    off, ov = num(c, "off", -10, 10, c.choose("form", FORMS))
    m = R.ReflectModelSE(st, delta_offset=off)
    held(c, m.delta_offset, off, ov, "delta offset")
    same(c, flat(m.parameters), [m.delta_offset] + lp(layers) + sv, "the offset, then the structure's parameters")
    extra = R.Cauchy(c.real("nx", 1, 3))(c.real("dx", 0, 500))
    st.insert(1, extra)
    now = [layers[0], extra, layers[1]]
    same(c, flat(m.parameters), [m.delta_offset] + lp(now) + sv, "follows the structure")
    c.check(m.structure is st, "the structure itself")
    other = R.Cauchy(c.real("ny", 1, 3))(c.real("dy", 0, 500))
    st[1] = other
    same(c, flat(m.parameters), [m.delta_offset] + lp([layers[0], other, layers[1]]) + sv, "follows an exchange of layers")
    for bad in (None, layers, layers[0], "structure"):
        def f():
            m.structure = bad

        c.check(c.raises(ValueError, f), "something that is not a structure is refused")
        c.check(c.raises(ValueError, R.ReflectModelSE, bad), "a model of something that is not a structure is refused")
        c.check(m.structure is st, "and the structure stays")
    back = R.RI([c.real("nb", 1, 4), c.real("kb", 0.1, 4)])()
    o = R.StructureSE(components=[layers[1], back])
    m.structure = o
    same(c, flat(m.parameters), [m.delta_offset] + lp([layers[1], back]), "follows a new structure")
    x = [[c.real("lam", 200, 2000), c.real("aoi", 1, 85)]]
    a, b = m(x), R.ReflectModelSE(o, delta_offset=off)(x)
    c.check_eq(a[0], b[0], "psi of the new structure")
    c.check_eq(a[1], b[1], "delta of the new structure")


def vector(c, n, form):
    """model(x, p): the values are set, in order, and answer"""
    R, np = c.R, c.np

    def build(v):
        off, v = v[0], v[1:]
        ls = []
        for i in range(n):
            t, A, B, C, r, s = v[6 * i:6 * i + 6]
            ls.append(R.Cauchy(A, B, C)(t, r, s))
        ls.append(R.RI([ns, ks])(*v[6 * n:]))
        return R.ReflectModelSE(R.StructureSE(components=ls), delta_offset=off)

    # an absorbing backing (its Delta is not on the seam of the angle)
    ns, ks = c.real("ns", 1, 4), c.real("ks", 0.1, 4)
    old, new = [c.real("oo", -5, 5)], [c.real("no", -5, 5)]
    for i in range(n):
        for q, k in ((old, "o"), (new, "n")):
            q += [c.real("%st%d" % (k, i), 0, 900), c.real("%sA%d" % (k, i), 1, 3), c.real("%sB%d" % (k, i), 0, 0.05), 0.0,
                  c.real("%sr%d" % (k, i), 0, 9), 0.0 if i == 0 else c.real("%ss%d" % (k, i), 0, 1)]
    old += [c.real("obt", 0, 9), c.real("obr", 0, 9), 0.0]
    new += [c.real("nbt", 0, 9), c.real("nbr", 0, 9), 0.0]
    x = np.array([[c.real("lam", 300, 2000), c.real("aoi", 1, 85)]])
    m = build(old)
    p = np.array(new) if form == "array" else list(new)
    got = m(x, p) if form != "model" else m.model(x, p=p)
    w = build(new)
    want = w(x)
    c.check_eq([q.value for q in flat(m.parameters)], new, "the values are set, in order")
    c.check_eq(got[0], want[0], "psi for the values given")
    c.check_eq(got[1], want[1], "delta for the values given")
    again = m(x)
    c.check_eq(again[0], want[0], "and they stay set")
    if form == "array":
        c.check_eq(p, np.array(new), "the caller's vector is as it was")


def logp(c):
    """extra log-probabilities of the layers"""
    R = c.R
    a, b = c.real("a", -9, 9), c.real("b", -9, 9)

    class L(R.SlabSE):
        extra = 0

        def logp(self):
            return self.extra

    st, layers, sv = stack(c, 2)
    q = [L(c.real("dl%d" % i, 0, 9), R.Cauchy(1.5), 0) for i in range(2)]
    q[0].extra, q[1].extra = a, b
    c.check_eq(R.ReflectModelSE(st).logp(), 0, "no extra terms")
    for l in q:
        st.insert(1, l)
    m = R.ReflectModelSE(st)
    c.check_eq(m.logp(), a + b, "the sum of the layers' extra terms")
    c.check_eq(st.logp(), a + b, "the sum of the layers' extra terms (structure)")
    q[1].extra = b + 1
    c.check_eq(m.logp(), a + b + 1, "follows changes")


def mk(f, *a, **k):
    b = k.pop("bounds", "")
    return dict(name=" ".join([f.__name__] + [str(x) for x in a]), fn=lambda c: f(c, *a), bounds=b, budget=k.pop("budget", 60))


def cases(tier):
    any_ = "all values; each argument a number, a fixed or a varying Parameter"
    out = [mk(layer, "call", bounds=any_), mk(layer, "keywords", bounds=any_), mk(layer, "class", bounds=any_)]
    out += [mk(mixed, k, bounds=any_) for k in ("other", "alike", "same")]
    out += [mk(material, k, bounds=any_) for k in ("cauchy", "sellmeier", "lorentz", "gauss", "taucl")]
    out += [mk(defaults, k, bounds="all values of the others") for k in ("cauchy", "sellmeier", "lorentz", "gauss", "taucl", "layer", "model")]
    out += [mk(table), mk(structure, False, bounds="3-5 layers"), mk(structure, True, bounds="3-5 layers and a solvent"), mk(model, bounds="2-3 layers"),
            mk(vector, 1, "array", bounds="2 media, 10 values"), mk(vector, 2, "list", bounds="3 media, 16 values"),
            mk(vector, 1, "model", bounds="2 media, 10 values"), mk(logp, bounds="4 layers")]
    if tier == "thorough":
        out += [mk(vector, 3, "array", bounds="4 media, 22 values", budget=300), mk(vector, 2, "model", bounds="3 media", budget=300)]
    return out
