"""C21: building structures: order, sharing, copies, refusals."""
import copy

ASSUMES = ["default (Gaussian) interfaces and no profile contraction"]


class Kit:
    """materials and layers with symbolic values, and what each contributes to a table"""

    def __init__(self, c):
        self.c = c
        self.rows = {}

    def ri(self, nm):
        c = self.c
        n, k = c.real("n" + nm, 1, 5), c.real("k" + nm, 0, 8)
        m = c.R.RI([n, k], name=nm)
        self.rows[nm] = [0, n, k, 0]
        return m

    def slab(self, nm, how="call"):
        c = self.c
        m = self.ri(nm)
        d, r = c.real("d" + nm, 0, 3000), c.real("r" + nm, 0, 50)
        self.rows[nm] = [d, self.rows[nm][1], self.rows[nm][2], r]
        if how == "call":
            return m(d, r)
        return c.R.SlabSE(d, m, r, name=nm)

    def check(self, st, names, label):
        c = self.c
        c.check_eq(len(st), len(names), "number of components, " + label)
        if not names:
            c.check(st.slabs() is None, "an empty structure has no table, " + label)
            return
        t = st.slabs()
        c.check_eq(c.np.shape(t), (len(names), 5), "rows, " + label)
        for i, nm in enumerate(names):
            for j, what in enumerate(("thickness", "index", "extinction", "roughness")):
                c.check_eq(t[i, j], self.rows[nm][j], "%s of layer %d, %s" % (what, i, label))


def build(c, how):
    """every way to put layers together gives the same order"""
    R, K = c.R, Kit(c)
    a, f, g, b = K.ri("a"), K.slab("f"), K.slab("g", "SlabSE"), K.ri("b")
    names = ["a", "f", "g", "b"]
    if how == "or":
        st = a | f | g | b
    elif how == "slab first":
        st = a(0, 0) | f | g | b()
    elif how == "right":
        st = a() | (f | (g | b))
    elif how == "halves":
        st = (a | f) | (g | b)
    elif how == "ior":
        st = R.StructureSE()
        for x in (a, f, g, b):
            st |= x
    elif how == "append":
        st = R.StructureSE()
        for x in (a, f, g, b):
            st.append(x)
    elif how == "components":
        st = R.StructureSE([a(), f, g, b()])
    else:
        st = R.StructureSE(components=(a(), f))
        st |= R.StructureSE((g, b()))
    c.check(isinstance(st, R.StructureSE), "a structure")
    K.check(st, names, how)
    c.check(all(isinstance(x, R.SlabSE) for x in st), "of slabs")
    if how != "components":
        c.check(st[1] is f and st[2] is g, "the layers themselves, not copies")


def operands(c):
    """| makes a new structure and leaves its operands alone; |= changes the left one only"""
    R, K = c.R, Kit(c)
    a, f, g, b = K.ri("a"), K.slab("f"), K.slab("g"), K.ri("b")
    s, t = a | f, g | b
    u = s | t
    K.check(s, ["a", "f"], "left operand")
    K.check(t, ["g", "b"], "right operand")
    K.check(u, ["a", "f", "g", "b"], "result")
    u |= f
    K.check(s, ["a", "f"], "left operand after the result changed")
    K.check(t, ["g", "b"], "right operand after the result changed")
    v = s
    s |= t
    c.check(v is s, "|= keeps the object")
    K.check(v, ["a", "f", "g", "b"], "|=")
    K.check(t, ["g", "b"], "right operand of |=")
    t |= t
    K.check(t, ["g", "b", "g", "b"], "joined to itself")


def repeat(c):
    """n * layer"""
    R, K = c.R, Kit(c)
    a, f, b = K.ri("a"), K.slab("f"), K.ri("b")
    for n in (0, -1, 1, 2, 3, 5):
        r = f * n
        if n == 1:
            c.check(r is f, "once is itself")
        else:
            c.check(isinstance(r, R.StructureSE), "a structure")
            c.check_eq(len(r), max(n, 0), "number of repeats")
        st = a() | r | b
        K.check(st, ["a"] + ["f"] * max(n, 0) + ["b"], "%d repeats" % n)
    x = c.real("x", 0, 3000)
    st = a() | f * 3 | b
    f.thick.value = x
    K.rows["f"][0] = x
    K.check(st, ["a", "f", "f", "f", "b"], "the repeats share their parameters")
    for bad in (1.5, "2", None):
        c.check(c.raises(TypeError, lambda: f * bad), "%r repeats" % (bad,))


def live(c):
    """changing a parameter changes the table of every structure that uses it"""
    R, K = c.R, Kit(c)
    a, f, b = K.ri("a"), K.slab("f"), K.ri("b")
    s, t = a | f | b, b | f | a
    x, y, z, w = c.real("x", 0, 3000), c.real("y", 0, 50), c.real("z", 1, 5), c.real("w", 0, 8)
    f.thick.value, f.rough.value = x, y
    K.rows["f"] = [x, K.rows["f"][1], K.rows["f"][2], y]
    K.check(s, ["a", "f", "b"], "thickness and roughness")
    K.check(t, ["b", "f", "a"], "thickness and roughness, other structure")
    pars = list(s.parameters.flattened())
    for p in (f.thick, f.rough, f.vfsolv):
        c.check(any(p is q for q in pars), "the structure lists the parameters of its layers")
    f.ri = R.RI([z, w])
    K.rows["f"] = [x, z, w, y]
    K.check(s, ["a", "f", "b"], "another material")


def copies(c):
    """a copy has its own list of layers and its own settings"""
    R, K = c.R, Kit(c)
    a, f, g, b = K.ri("a"), K.slab("f"), K.slab("g"), K.ri("b")
    L, lam = c.real("L", 0, 1), c.real("lam", 200, 2000)
    solv = K.ri("s")
    rev = c.boolean("reverse")
    ema = c.choose("ema", ["linear", "maxwell-garnett", "bruggeman"])
    s = R.StructureSE(name="S", solvent=solv, reverse_structure=rev, contract=0, wavelength=lam, ema=ema, depolarisation_factor=L)
    for x in (a, f, b):
        s |= x
    t = copy.copy(s)
    c.check(t.name == "S" and t.solvent is solv and t.ema == ema and bool(t.reverse_structure) == bool(rev), "settings of the copy")
    c.check_eq(t.depolarisation_factor, L, "depolarisation factor of the copy")
    c.check_eq(t.wavelength, lam, "wavelength of the copy")
    c.check_eq(t.slabs(), s.slabs(), "table of the copy")
    t |= g
    t.ema = "linear"
    t.solvent = None
    t.depolarisation_factor = 0.25
    t.reverse_structure = not rev
    c.check_eq(len(s), 3, "layers of the original")
    c.check(s.solvent is solv and s.ema == ema and bool(s.reverse_structure) == bool(rev), "settings of the original")
    c.check_eq(s.depolarisation_factor, L, "depolarisation factor of the original")
    s.reverse_structure = False
    K.check(s, ["a", "f", "b"], "the original, upright")


def reverse(c):
    """turning a structure over twice changes nothing"""
    R, K = c.R, Kit(c)
    a, f, g, b = K.slab("a"), K.slab("f"), K.slab("g"), K.slab("b")
    s = a | f | g | b
    s.reverse_structure = True
    t = s.slabs()
    n = 4
    rows = [K.rows[x] for x in "bgfa"]
    for i in range(n):
        for j in (0, 1, 2):
            c.check_eq(t[i, j], rows[i][j], "turned over: layer %d, column %d" % (i, j))
        if i:
            c.check_eq(t[i, 3], rows[i - 1][3], "turned over: roughness %d" % i)
    s.reverse_structure = False
    K.check(s, ["a", "f", "g", "b"], "turned back")


def refuse(c):
    """things that are not layers are refused and change nothing"""
    from refnx.reflect import SLD, Slab

    R, K = c.R, Kit(c)
    a, f, b = K.ri("a"), K.slab("f"), K.ri("b")
    s = a | f | b
    for bad in (None, 1.5, "air", [a], SLD(2.07), Slab(0, SLD(2.07), 0), object()):
        c.check(c.raises(ValueError, s.append, bad), "append %r" % type(bad))
        c.check(c.raises((ValueError, TypeError), lambda: s.__ior__(bad)), "|= %r" % type(bad))
        c.check(c.raises((ValueError, TypeError), lambda: s | bad), "| %r" % type(bad))
        c.check(c.raises((ValueError, TypeError), lambda: f | bad), "layer | %r" % type(bad))
    for bad in (1.5, "water", f, 1 + 1j):
        c.check(c.raises(ValueError, setattr, s, "solvent", bad), "solvent %r" % type(bad))
        c.check(c.raises(ValueError, R.SlabSE, 1, bad, 1), "material %r" % type(bad))
    K.check(s, ["a", "f", "b"], "after the refusals")
    c.check(s.solvent is None, "no solvent")
    s.solvent = b
    c.check(s.solvent is b, "a solvent")
    s.solvent = None
    c.check(s.solvent is None, "no solvent again")


def factor(c):
    """the depolarisation factor is kept within 0 and 1"""
    R = c.R
    s = R.StructureSE()
    c.check_eq(s.depolarisation_factor, 1 / 3, "default factor")
    c.check(s.ema == "linear" and s.solvent is None and not s.reverse_structure, "other defaults")
    x = c.real("x", -3, 4)
    if 0 <= x <= 1:
        s.depolarisation_factor = x
        c.check_eq(s.depolarisation_factor, x, "factor set")
    else:
        c.check(c.raises(ValueError, setattr, s, "depolarisation_factor", x), "factor refused")
        c.check_eq(s.depolarisation_factor, 1 / 3, "factor unchanged")


def calling(c):
    """material(thick, rough, fraction) is a layer of that material"""
    R = c.R
    n, k = c.real("n", 1, 5), c.real("k", 0, 8)
    d, r, v = c.real("d", 0, 3000), c.real("r", 0, 50), c.real("v", 0, 1)
    m = R.RI([n, k], name="stuff")
    for sl, want in ((m(), (0, 0, 0)), (m(d), (d, 0, 0)), (m(d, r), (d, r, 0)), (m(d, r, v), (d, r, v)), (m(rough=r, thick=d), (d, r, 0)), (m(vfsolv=v), (0, 0, v))):
        c.check(isinstance(sl, R.SlabSE) and sl.ri is m and sl.name == "stuff", "a layer of the material")
        t = sl.slabs()
        for j, w in enumerate((want[0], n, k, want[1], want[2])):
            c.check_eq(t[0, j], w, "column %d of a layer" % j)


def mixed(c):
    """layers of two materials in a structure"""
    R, K = c.R, Kit(c)
    a, b = K.ri("a"), K.ri("b")
    p, q = K.ri("p"), K.ri("q")
    d, r, v = c.real("d", 0, 3000), c.real("r", 0, 50), c.real("v", 0, 1)
    m = R.MixedSlabSE(d, p, q, v, r, name="mix")
    st = a() | m | b
    t = st.slabs()
    c.check_eq(c.np.shape(t), (3, 5), "rows")
    c.check_eq(t[1, 0], d, "thickness of the mixture")
    c.check_eq(t[1, 3], r, "roughness of the mixture")
    c.check_eq(t[1, 4], 0, "no solvent in the mixture")
    N = t[1, 1] + 1j * t[1, 2]
    P = K.rows["p"][1] + 1j * K.rows["p"][2]
    Q = K.rows["q"][1] + 1j * K.rows["q"][2]
    c.check_eq(N * N, (1 - v) * P * P + v * Q * Q, "mixture by the rule of the structure", 1e-6)
    for s2 in (m | b, a() | m, R.StructureSE([m])):
        c.check(c.raises(ValueError, s2.slabs), "media of light must be plain slabs")
    pars = list(st.parameters.flattened())
    for x in (m.thick, m.rough, m.vf_B):
        c.check(any(x is y for y in pars), "parameters of the mixture are listed")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "n 1-5, k 0-8, thickness 0-3000, roughness 0-50"
    out = []
    for how in ("or", "slab first", "right", "halves", "ior", "append", "components", "structure"):
        out.append(dict(name="built by " + how, fn=mk(build, how), budget=30, bounds=B + "; 4 layers"))
    for f in (operands, repeat, live, copies, reverse, refuse, factor, calling, mixed):
        out.append(dict(name=f.__name__, fn=f, budget=60, bounds=B + "; up to 7 layers"))
    return out
