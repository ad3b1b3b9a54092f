"""C24: materials and layers of the user's own."""
from .c08 import HC

ASSUMES = ["a user's material: an arbitrary (uninterpreted) dielectric function of the photon energy, absorbing; "
           "a user's index: an arbitrary function of the wavelength"]


def by_epsilon(c, nm="m", wavelength=None):
    """a material that defines only its dielectric function"""
    np, R = c.np, c.R
    from refnx.analysis import Parameter, Parameters

    class Mine(R.ScattererSE):
        def __init__(self):
            super().__init__(name=nm, wavelength=wavelength)
            self.a = Parameter(c.real("a" + nm, 1, 3), "a")
            self.seen = []

        @property
        def parameters(self):
            return Parameters(data=[self.a], name=self.name)

        def one(self, e):
            return 1 + self.a.value * c.uf("er" + nm, e) + 1j * (0.1 + c.uf("ei" + nm, e) ** 2)

        def epsilon(self, energies):
            self.seen.append(energies)
            if np.ndim(energies):
                return np.array([self.one(e) for e in energies])
            return self.one(energies)

    return Mine()


def by_complex(c, nm="m", wavelength=None):
    """a material that defines its index"""
    R = c.R
    from refnx.analysis import Parameters

    class Mine(R.ScattererSE):
        @property
        def parameters(self):
            return Parameters(name=self.name)

        def complex(self, wav):
            w = self.wavelength if wav is None else wav
            return 1.2 + c.uf("n" + nm, w) ** 2 + 1j * (0.1 + c.uf("k" + nm, w) ** 2)

    return Mine(name=nm, wavelength=wavelength)


def index(c, how):
    np = c.np
    lam, own = c.real("lam", 150, 3000), c.real("own", 150, 3000)
    m = by_epsilon(c, wavelength=own)
    if how == "asked":
        got, at = m.complex(lam), lam
    elif how == "own":
        got, at = m.complex(None), own
    elif how == "number":
        got, at = complex(m) if c.conc else m.__complex__(), own
    else:
        got = m.complex(np.array([lam, own]))
        c.check_eq(np.shape(got), (2,), "one value per wavelength")
        for g, w in zip(got, (lam, own)):
            c.check_eq(g * g, m.one(HC / w), "square of the index", 1e-6)
            c.check(np.real(g) >= 0, "the index of an absorbing medium")
            c.check(np.imag(g) >= 0, "the extinction of an absorbing medium")
        return
    c.check_eq(got * got, m.one(HC / at), "square of the index", 1e-6)
    c.check(np.real(got) >= 0, "the index of an absorbing medium")
    c.check(np.imag(got) >= 0, "the extinction of an absorbing medium")


def undefined(c):
    R = c.R

    class Bare(R.ScattererSE):
        pass

    c.check(c.raises(NotImplementedError, Bare(wavelength=500.0).complex, c.real("lam", 200, 900)), "a material without an index is refused")


def rows(c, kind):
    """a user's material in a slab table"""
    np, R = c.np, c.R
    lam, left = c.real("lam", 200, 2000), c.real("left", 200, 2000)
    m = (by_epsilon if kind == "epsilon" else by_complex)(c, wavelength=c.real("own", 200, 2000))
    d, r = c.real("d", 0, 900), c.real("r", 0, 9)
    back = R.RI([c.real("nb", 1, 4), c.real("kb", 0, 4)])
    st = R.StructureSE(components=[R.RI([1.0, 0.0])(), m(d, r), back()], wavelength=left)
    w = lam
    if c.boolean("given"):
        got = st.slabs(wavelength=lam)
    else:
        w = left
        got = st.slabs()
    n = m.complex(w)
    c.check_eq(got[1], np.array([d, np.real(n), np.imag(n), r, 0.0]), "the row of a user's material", 1e-6)
    c.check_eq(np.shape(got), (3, 5), "one row per layer")


def model(c, kind):
    """psi and delta: as for a constant material with the index at each wavelength"""
    np, R = c.np, c.R
    m = (by_epsilon if kind == "epsilon" else by_complex)(c)
    x = [[c.real("lam0", 300, 1000), c.real("aoi0", 30, 80)], [c.real("lam1", 300, 1000), c.real("aoi1", 30, 80)]]
    nf, d = c.real("nf", 1, 1.5), c.real("d", 0, 500)
    film = R.RI([nf, 0.0])

    def st(back):
        return R.ReflectModelSE(R.StructureSE(components=[R.RI([1.0, 0.0])(), film(d), back()]))

    psi, delta = st(m)(np.array(x))
    for i in range(2):
        n = m.complex(x[i][0])
        a, b = st(R.RI([np.real(n), np.imag(n)]))(np.array([x[i]]))
        c.check_eq(psi[i], a[0], "psi with a user's material", 1e-6)
        c.check_eq(delta[i], b[0], "delta with a user's material", 1e-6)




def component(c, none):
    """a layer that stands for several slabs, or none"""
    np, R = c.np, c.R
    from refnx.analysis import Parameters

    n, k = c.real("n", 1, 3), c.real("k", 0, 2)
    ds = [c.real("d%d" % i, 0, 500) for i in range(2)]
    rs = [c.real("r%d" % i, 0, 9) for i in range(2)]
    vf = [c.real("v%d" % i, 0, 1) for i in range(2)]

    class Nothing(R.ComponentSE):
        @property
        def parameters(self):
            return Parameters(name="nothing")

        def slabs(self, structure=None):
            return None

    class Many(R.ComponentSE):
        given = None

        @property
        def parameters(self):
            return Parameters(name="many")

        def slabs(self, structure=None):
            self.given = structure
            if none == "none":
                return None
            return np.array([[ds[i], n + i, k, rs[i], vf[i]] for i in range(2)])

    comp = Many(name="many")
    ns = c.real("ns", 1, 2)
    l = R.RI([1.5, 0.0])(c.real("dl", 0, 500), c.real("rl", 0, 9))
    front, back = R.RI([1.0, 0.0])(), R.RI([3.0, 0.5])(0, c.real("rb", 0, 9))
    st = R.StructureSE(components=[front, comp] + ([Nothing()] if none == "both" else []) + [l, back], solvent=R.RI([ns, 0.0]), wavelength=c.real("lam", 300, 900))
    rev = c.boolean("reversed")
    st.reverse_structure = rev
    got = st.slabs()
    c.check(comp.given is st, "the layer is told its structure")
    c.check_eq(np.shape(got), (3 if none == "none" else 5, 5), "the rows of all layers")
    want = []
    if none != "none":
        for i in range(2):
            e = (n + i + 1j * k) ** 2 * (1 - vf[i]) + ns**2 * vf[i]
            want.append((ds[i], e, rs[i], vf[i]))
    want.append((l.thick.value, 2.25, l.rough.value, 0))
    rough = [w[2] for w in want] + [back.rough.value]
    if rev:
        want = want[::-1]
        rough = rough[::-1]
    for i, w in enumerate(want):
        row = got[1 + i]
        c.check_eq(row[0], w[0], "thickness")
        z = row[1] + 1j * row[2]
        c.check_eq(z * z, w[1], "index", 1e-6)
        c.check_eq(row[3], rough[i], "roughness")
        c.check_eq(row[4], w[3], "solvent fraction")
    c.check_eq(got[-1][3], rough[-1], "roughness of the backing")
    c.check_eq([got[0][1], got[0][2], got[-1][1], got[-1][2]], [3, 0.5, 1, 0] if rev else [1, 0, 3, 0.5], "fronting and backing")


def ends(c):
    """structures have to start and end with plain slabs"""
    R = c.R
    from refnx.analysis import Parameters

    class Many(R.ComponentSE):
        @property
        def parameters(self):
            return Parameters(name="many")

        def slabs(self, structure=None):
            return c.np.array([[1.0, 2.0, 0.0, 0.0, 0.0]])

    n = c.real("n", 1, 3)
    s = R.RI([n, 0.0])
    for comps in ([Many(), s()], [s(), Many()], [Many()]):
        c.check(c.raises(ValueError, R.StructureSE(components=comps).slabs), "refused")


def solvent(c):
    """a user's material as the solvent"""
    np, R = c.np, c.R
    m = by_epsilon(c)
    lam = c.real("lam", 300, 900)
    n, vf, d = c.real("n", 1, 3), c.real("vf", 0.01, 1), c.real("d", 0, 500)
    st = R.StructureSE(components=[R.RI([1.0, 0.0])(), R.RI([n, 0.0])(d, 0, vf), R.RI([3.0, 0.5])()], solvent=m)
    row = st.slabs(wavelength=lam)[1]
    z = row[1] + 1j * row[2]
    c.check_eq(z * z, n**2 * (1 - vf) + m.one(HC / lam) * vf, "mixed with the solvent at the wavelength asked for", 1e-6)


def mixed(c):
    """users' materials in a mixed layer"""
    np, R = c.np, c.R
    a, b = by_epsilon(c, "a"), by_complex(c, "b")
    lam, vf = c.real("lam", 300, 900), c.real("vf", 0, 1)
    st = R.StructureSE(components=[R.RI([1.0, 0.0])(), R.MixedSlabSE(c.real("d", 0, 500), a, b, vf, 0), R.RI([3.0, 0.5])()])
    row = st.slabs(wavelength=lam)[1]
    z = row[1] + 1j * row[2]
    c.check_eq(z * z, a.one(HC / lam) * (1 - vf) + b.complex(lam) ** 2 * vf, "mixed at the wavelength asked for", 1e-6)


def positions(c):
    """users' materials as fronting, backing and in two layers, reversed or not"""
    np, R = c.np, c.R
    m, o = by_epsilon(c), by_complex(c, "o")
    lam = c.real("lam", 300, 900)
    d = c.reals("d", 2, 0, 500)
    rev = c.boolean("reversed")
    st = R.StructureSE(components=[o(), m(d[0]), m(d[1]), m()], reverse_structure=rev)
    got = st.slabs(wavelength=lam)
    n, p = m.complex(lam), o.complex(lam)
    want = [[0, p], [d[0], n], [d[1], n], [0, n]]
    for g, w in zip(got, want[::-1] if rev else want):
        c.check_eq([g[0], g[1], g[2]], [w[0], np.real(w[1]), np.imag(w[1])], "thickness and index", 1e-6)


def mk(f, *a, **k):
    return dict(name=" ".join([f.__name__] + [str(x) for x in a]), fn=lambda c: f(c, *a), bounds=k.pop("bounds", ""), budget=k.pop("budget", 60))


def cases(tier):
    out = [mk(index, k, bounds="any dielectric function, lam 150-3000") for k in ("asked", "own", "number", "array")]
    out += [mk(undefined), mk(rows, "epsilon"), mk(rows, "complex"), mk(model, "epsilon", bounds="2 rows, film and substrate", budget=100),
            mk(model, "complex", bounds="2 rows, film and substrate", budget=100), mk(component, "several", bounds="5 slabs"),
            mk(component, "none"), mk(component, "both", bounds="5 slabs"), mk(mixed), mk(positions), mk(ends), mk(solvent)]
    return out
