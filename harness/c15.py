"""C15: a dataset holds what it was given; masks select; nothing is shared."""
ASSUMES = []
NAMES = ("wavelength", "aoi", "psi", "delta")


def columns(c, n, pre="", ties=False):
    w = [c.real("%sw%d" % (pre, i), 200, 2000) for i in range(n)]
    return [w, c.reals(pre + "a", n, 0, 90), c.reals(pre + "p", n, 0, 90), c.reals(pre + "d", n, 0, 360)]


def same(c, data, cols, label):
    np = c.np
    for nm, w, t in zip(NAMES, cols, data.data):
        g = getattr(data, nm)
        c.check_eq(np.shape(g), (len(w),), "number of points: %s, %s" % (nm, label))
        if len(w):
            c.check_eq(g, np.array(w), "%s, %s" % (nm, label))
            c.check_eq(t, np.array(w), "%s in the tuple, %s" % (nm, label))
    c.check_eq(len(data), len(cols[0]), "length, " + label)


def pick(cols, keep):
    return [[q[i] for i in keep] for q in cols]


def reflected(cols):
    return cols[:3] + [[360 - x if x > 180 else x for x in cols[3]]]


def make(c, cols, form, **k):
    np, R = c.np, c.R
    if form == "lists":
        src = [list(q) for q in cols]
    elif form == "tuple":
        src = tuple(np.array(q) for q in cols)
    else:
        src = np.array(cols)
    return src, R.DataSE(src, **k)


def build(c, n, form):
    np, R = c.np, c.R
    cols = columns(c, n)
    refl = c.boolean("reflect")
    src, d = make(c, cols, form, name="spot", reflect_delta=refl, sample="S1", run=3)
    want = reflected(cols) if refl else cols
    same(c, d, want, "as given")
    c.check(d.name == "spot" and d.metadata["sample"] == "S1" and d.metadata["run"] == 3, "name and metadata are kept")
    for q, w in zip(src, cols):
        c.check_eq(list(q), w, "the caller's data stay as they were")
    x = c.real("x", 0, 90)
    for q in src:
        q[0] = x
    same(c, d, want, "after the caller changed its arrays")


def masks(c, n):
    """whatever the mask, it selects the same points of every column"""
    np, R = c.np, c.R
    cols = columns(c, n)
    src, d = make(c, cols, "tuple")
    for step in range(2):
        m = [c.boolean("m%d%d" % (step, i)) for i in range(n)]
        how = c.choose("how%d" % step, ["bools", "ints", "list"])
        d.mask = np.array(m) if how == "bools" else np.array([int(x) for x in m]) if how == "ints" else m
        same(c, d, pick(cols, [i for i in range(n) if m[i]]), "the points whose mask is true")
    d.mask = None
    same(c, d, cols, "without a mask")
    d.mask = False
    same(c, d, pick(cols, []), "all masked")


def maskone(c, n):
    """masking by a condition on the data, then replacing the data"""
    np, R = c.np, c.R
    cols = columns(c, n)
    src, d = make(c, cols, "tuple")
    lim = c.real("lim", 200, 2000)
    d.mask = d.wavelength > lim
    same(c, d, pick(cols, [i for i in range(n) if cols[0][i] > lim]), "the points beyond a wavelength")
    new = columns(c, n + 1, "n")
    d.data = tuple(np.array(q) for q in new)
    same(c, d, new, "new data clears the mask")
    x = c.real("x", 0, 90)
    arrs = [np.array(q) for q in new]
    d.data = arrs
    for q in arrs:
        q[0] = x
    same(c, d, new, "after the caller changed its arrays")


def copies(c, n, again):
    """a dataset made from another"""
    np, R = c.np, c.R
    cols = columns(c, n)
    refl = c.boolean("reflect")
    src, d = make(c, cols, "tuple", name="spot", reflect_delta=refl, sample="S1")
    m = [c.boolean("m%d" % i) for i in range(n)]
    d.mask = np.array(m)
    before = pick(reflected(cols) if refl else cols, [i for i in range(n) if m[i]])
    e = R.DataSE(d, reflect_delta=again)
    full = reflected(cols) if refl or again else cols
    same(c, e, pick(full, [i for i in range(n) if m[i]]), "copied with its mask")
    c.check(e.name == "spot" and e.metadata["sample"] == "S1", "name and metadata are copied")
    same(c, d, before, "the original stays as it was")
    flip = [not x for x in m]
    e.mask = np.array(flip)
    same(c, d, before, "the original keeps its own mask")
    same(c, e, pick(full, [i for i in range(n) if flip[i]]), "the copy has its own mask")
    if n > 0:
        new = columns(c, n, "n")
        e.data = tuple(np.array(q) for q in new)
        same(c, d, before, "new data for the copy do not reach the original")


def long(c, n):
    """many points at given wavelengths, masked by a given pattern"""
    np, R = c.np, c.R
    cols = columns(c, n)
    cols[0] = [500.0 + 10 * ((7 * i) % 5) for i in range(n)]
    src, d = make(c, cols, "tuple")
    same(c, d, cols, "many points")
    for keep in ([i for i in range(n) if i % 3 != 1], [n - 1], list(range(n))):
        d.mask = np.array([i in keep for i in range(n)])
        same(c, d, pick(cols, keep), "many points, masked")
        got = list(d.unique_wavelength_data())
        ws = sorted({cols[0][i] for i in keep})
        c.check_eq([g[0] for g in got], ws, "the wavelengths in order")
        for w, g in zip(ws, got):
            at = [i for i in keep if cols[0][i] == w]
            for q, x in zip(cols[1:], g[1:]):
                c.check_eq(x, np.array([q[i] for i in at]), "the points of a wavelength")


def unique(c, n, k):
    """every point once, grouped by wavelength; wavelengths from k values in any arrangement"""
    np, R = c.np, c.R
    base = [c.real("base", 200, 500)]
    for i in range(1, k):
        base.append(base[-1] + c.real("step%d" % i, 1, 200))
    idx = [c.choose("at%d" % i, list(range(k))) for i in range(n)]
    cols = columns(c, n)
    cols[0] = [base[i] for i in idx]
    src, d = make(c, cols, "tuple")
    m = [True] * (n - 1) + [c.boolean("last")]
    d.mask = np.array(m)
    keep = [i for i in range(n) if m[i]]
    want = sorted(set(idx[i] for i in keep))
    got = list(d.unique_wavelength_data())
    c.check(len(got) == len(want), "each wavelength once")
    for (w, a, p, e), b in zip(got, want):
        c.check_eq(w, base[b], "in ascending order")
        mine = [i for i in keep if idx[i] == b]
        for g, q, nm in zip((a, p, e), cols[1:], NAMES[1:]):
            c.check_eq(np.shape(g), (len(mine),), "all points of a wavelength")
            c.check_eq(g, np.array([q[i] for i in mine]), nm + " of the points of a wavelength")


def empty(c):
    R = c.R
    d = R.DataSE()
    c.check(len(d) == 0, "an empty dataset has no points")
    for q in [getattr(d, nm) for nm in NAMES] + list(d.data):
        c.check_eq(c.np.shape(q), (0,), "no points in any column")
    cols = columns(c, 2)
    d.data = tuple(c.np.array(q) for q in cols)
    same(c, d, cols, "filled later")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, angle 0-90, psi 0-90, delta 0-360"
    n = 3 if tier == "quick" else 5
    out = []
    for form in ("lists", "tuple", "array"):
        out.append(dict(name="build " + form, fn=mk(build, 2 if tier == "quick" else 4, form), budget=60, bounds=B))
    out.append(dict(name="masks", fn=mk(masks, 2 if tier == "quick" else 3), budget=100, bounds=B + ", any two masks in a row"))
    out.append(dict(name="masks 4", fn=mk(maskone, n), budget=60, bounds=B + "; %d points" % n))
    for again in (False, True):
        out.append(dict(name="copies %d" % again, fn=mk(copies, 2, again), budget=60, bounds=B + ", any mask"))
    out.append(dict(name="unique", fn=mk(unique, n, 2 if tier == "quick" else 3), budget=60, bounds=B + ", %d points" % n))
    out.append(dict(name="many points", fn=mk(long, 14), budget=60, bounds="14 points at 5 given wavelengths"))
    out.append(dict(name="empty", fn=empty, budget=20, bounds=B))
    return out
