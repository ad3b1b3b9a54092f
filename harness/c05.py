"""C05: the slab table of a structure: order, reversal, solvation, wavelength."""
from .emaref import eps, csq

ASSUMES = ["default (Gaussian) interfaces and no profile contraction: micro-slicing and contraction are outside"]


def nk(c, nm, absorbing=True):
    return [c.real("n" + nm, 1, 5), c.real("k" + nm, 0.001, 8) if absorbing else 0.0]


def expected(c, rows, ema, L, solvent, reverse):
    """rows: (thick, complex n, rough, vf) top to bottom as the user wrote them"""
    np = c.np
    rows = [list(r) for r in rows]
    if reverse:
        rough = [r[2] for r in rows]
        rows = rows[::-1]
        n = len(rows)
        for i in range(n):
            # interface between new i and i-1 = old n-i and n-1-i
            rows[i][2] = rough[n - i] if i else 0.0
    solv = solvent if solvent is not None else rows[-1][1]
    out = []
    for i, (d, N, r, vf) in enumerate(rows):
        if 0 < i < len(rows) - 1 and vf is not None:
            if ema == "bruggeman":
                N = c.mod("structureSE").overall_ri(N, solv, vf, "bruggeman", L)
            else:
                N = csq(c, eps(c, N * N, solv * solv, vf, ema, L))
        out.append([d, np.real(N), np.imag(N), r, 0 if vf is None else vf])
    return out


def table(c, films, ema="linear", solvent=False, solvated=True, first_rough=False):
    """films layers between two media, reversed or not"""
    np, R = c.np, c.R
    reverse = c.boolean("reverse")
    L = c.real("L", 0, 0.5)
    comps, rows = [], []
    for i in range(films + 2):
        s = str(i)
        q = nk(c, s)
        N = q[0] + 1j * q[1]
        inner = 0 < i <= films
        d = c.real("d" + s, 0.1, 3000) if inner else 0
        r = c.real("r" + s, 0, 50) if i or first_rough else 0
        vf = c.real("vf" + s, 0, 1, lo_open=i == 1) if inner and solvated else None
        sc = R.RI(q)
        comps.append(sc(d, r, vf) if vf is not None else sc(d, r))
        rows.append((d, N, r, vf))
    st = R.StructureSE(ema=ema, depolarisation_factor=L, reverse_structure=reverse)
    for x in comps:
        st |= x
    solv = None
    if solvent:
        q = nk(c, "solv")
        st.solvent = R.RI(q)
        solv = q[0] + 1j * q[1]
    want = expected(c, rows, ema, L, solv, reverse)
    if ema == "maxwell-garnett" and c.conc:
        for w in want:
            c.assume(abs(complex(w[1], w[2])) > 1e-4)
    got = st.slabs()
    c.check_eq(np.shape(got), (films + 2, 5), "one row of five numbers per layer")
    names = ("thickness", "index", "extinction", "roughness", "solvent fraction")
    for i in range(films + 2):
        for j in range(5):
            c.check_eq(got[i, j], want[i][j], "%s of layer %d" % (names[j], i), 1e-6)
    again = st.slabs()
    c.check_eq(again, got, "asking again gives the same table")


def dispersive(c, implicit):
    """dispersive media are evaluated at the wavelength asked for"""
    np, R = c.np, c.R
    lam = c.real("lam", 200, 2000)
    left = c.real("left", 200, 2000)
    vf = c.real("vf", 0, 1, lo_open=True)
    q = {}
    for nm in ("film", "sub", "solv"):
        q[nm] = (c.real("A" + nm, 1.1, 2), c.real("B" + nm, 0, 0.01))
    mk = {k: R.Cauchy(v[0], v[1], 0) for k, v in q.items()}
    val = {k: v[0] + v[1] * 1000**2 / lam**2 for k, v in q.items()}
    st = R.StructureSE([R.RI([1.0, 0.0])(), mk["film"](c.real("d", 1, 500), 0, vf), mk["sub"]()], wavelength=left)
    if not implicit:
        st.solvent = mk["solv"]
    got = st.slabs(wavelength=lam)
    s = val["sub" if implicit else "solv"]
    c.check_eq(got[1, 1] * got[1, 1], (1 - vf) * val["film"] ** 2 + vf * s**2, "solvated film at the wavelength asked for")
    c.check_eq(got[2, 1], val["sub"], "substrate at the wavelength asked for")
    c.check_eq(got[:, 2], np.array([0, 0, 0]), "no extinction")
    got2 = st.slabs()
    c.check_eq(got2, got, "the wavelength stays set")


def mixed(c, ema, solvated):
    """a two-material layer uses the mixing rule of its structure and is not solvated"""
    np, R = c.np, c.R
    a, b, s = nk(c, "a"), nk(c, "b"), nk(c, "s")
    vf, L, d, r = c.real("vf", 0, 1), c.real("L", 0, 0.5), c.real("d", 0.1, 3000), c.real("r", 0, 50)
    ms = c.mod("structureSE").MixedSlabSE(d, R.RI(a), R.RI(b), vf, r)
    comps = [R.RI([1.0, 0.0])(), ms]
    rev = c.boolean("reverse")
    if solvated:
        f = nk(c, "f")
        vs = c.real("vs", 0, 1, lo_open=True)
        comps.append(R.RI(f)(c.real("d2", 1, 300), c.real("r2", 0, 50), vs))
    comps.append(R.RI(s)(0, c.real("r3", 0, 50)))
    st = R.StructureSE(comps, ema=ema, depolarisation_factor=L, reverse_structure=rev)
    A, B = a[0] + 1j * a[1], b[0] + 1j * b[1]
    if ema == "bruggeman":
        N = c.mod("structureSE").overall_ri(A, B, vf, "bruggeman", L)
    else:
        N = csq(c, eps(c, A * A, B * B, vf, ema, L))
    got = st.slabs()
    n = len(comps)
    i = n - 2 if rev else 1
    c.check_eq(np.shape(got), (n, 5), "shape")
    c.check_eq(got[i, 0], d, "thickness of a mixed layer")
    c.check_eq(got[i, 4], 0, "solvent fraction of a mixed layer")
    c.check_eq(got[n - 1 if rev else 1, 3], r, "roughness of a mixed layer")
    if not solvated:
        c.check_eq(got[i, 1], np.real(N), "index of a mixed layer", 1e-6)
        c.check_eq(got[i, 2], np.imag(N), "extinction of a mixed layer", 1e-6)
    else:
        # nothing of the solvent in it: its dielectric function is that of the mixture
        G = got[i, 1] + 1j * got[i, 2]
        c.check_eq(G * G, N * N, "dielectric function of a mixed layer beside a solvated one", 1e-6)


def refuse(c):
    R, np = c.R, c.np
    S = R.StructureSE
    ms = c.mod("structureSE").MixedSlabSE(c.real("d", 1, 9), R.RI([1.5, 0]), R.RI([1.6, 0]), 0.5, 0)
    a = R.RI([1.0, 0.0])()
    c.check(S().slabs() is None, "an empty structure has no table")
    c.check(c.raises(ValueError, S([ms, a]).slabs), "the fronting has to be a slab")
    c.check(c.raises(ValueError, S([a, ms]).slabs), "the backing has to be a slab")
    st = S([a, a])
    v = c.real("v", -1, 2)
    st.depolarisation_factor = 0.25
    ok = not c.raises(ValueError, setattr, st, "depolarisation_factor", v)
    c.check_eq(st.depolarisation_factor, v if ok else 0.25, "depolarisation factor taken or refused")
    if ok:
        c.check(v >= 0, "negative depolarisation refused")
        c.check(v <= 1, "depolarisation above one refused")
    else:
        c.check(not bool(v >= 0) or not bool(v <= 1), "a depolarisation factor between 0 and 1 is accepted")


def model(c, absorbing_solvent):
    """psi and delta are those of the table, whatever the structure's direction"""
    np, R = c.np, c.R
    rows = [(0, 1.0, 0.0), (c.real("d1", 1, 2000), c.real("n1", 1.2, 2), 0.0), (c.real("d2", 1, 2000), c.real("n2", 1.2, 2), 0.0),
            (0, c.real("n3", 2, 5), c.real("k3", 0.01, 3))]
    mk = lambda q: R.RI([q[1], q[2]])(q[0])
    x = np.array([[c.real("lam", 200, 2000), c.real("aoi", 5, 85)]])
    a = R.ReflectModelSE(R.StructureSE([mk(q) for q in rows]))(x)
    b = R.ReflectModelSE(R.StructureSE([mk(q) for q in rows[::-1]], reverse_structure=True))(x)
    c.check_eq(a[0], b[0], "psi of the same stack written upside down and reversed")
    c.check_eq(a[1], b[1], "delta of the same stack written upside down and reversed")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "n in [1,5], k in [0.001,8], thickness 0.1-3000, roughness 0-50, vf in [0,1], depolarisation in [0,0.5], reversed or not"
    out = []
    for films in (1, 2, 3, 6) if tier == "quick" else (1, 2, 3, 5, 8):
        out.append(dict(name="bare %d" % films, fn=mk(table, films, solvated=False), budget=60, bounds=B + "; %d films" % films))
    for ema in ("linear", "maxwell-garnett", "bruggeman"):
        for films in (1, 2) if tier == "quick" else (1, 2, 3, 4):
            if films > 2 and ema == "bruggeman":
                continue
            if ema == "linear" and tier == "quick":
                films = 5 if films == 2 else 1
            for solvent in (False, True):
                out.append(dict(name="%s %d %s" % (ema, films, "solvent" if solvent else "backing"), fn=mk(table, films, ema, solvent),
                                budget=60, bounds=B + "; %d films" % films))
        out.append(dict(name="mixed " + ema, fn=mk(mixed, ema, False), budget=60, bounds=B))
        if ema == "bruggeman":
            continue
        out.append(dict(name="mixed+solvated " + ema, fn=mk(mixed, ema, True), budget=60, bounds=B))
    out.append(dict(name="dispersive backing", fn=mk(dispersive, True), budget=40, bounds="Cauchy media, lam 200-2000"))
    out.append(dict(name="dispersive solvent", fn=mk(dispersive, False), budget=40, bounds="Cauchy media, lam 200-2000"))
    out.append(dict(name="refusals", fn=refuse, budget=30, bounds="depolarisation in [-1,2]"))
    out.append(dict(name="upside down", fn=mk(model, False), budget=40, bounds="two films on an absorbing substrate"))
    out.append(dict(name="unused solvent", fn=mk(table, 2, "bruggeman", solvent=True, solvated=False), budget=30, bounds=B))
    out.append(dict(name="first roughness", fn=mk(table, 1, solvated=False, first_rough=True), budget=30, bounds=B))
    return out
