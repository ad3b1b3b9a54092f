"""C11: tabulated and constant refractive indices."""
import csv
import os
import pathlib

ASSUMES = ["tables in files: 2-4 rows with symbolic entries, and the bundled tables as they are"]


def lin(np, x, xs, ys):
    """piecewise linear through sorted xs, constant outside (forks on x)"""
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[-1]


def table(c, n):
    w = [c.real("w0", 0.2, 0.4)]
    for i in range(1, n):
        w.append(w[-1] + c.real("dw%d" % i, 0.01, 0.5))
    ri = [c.real("n%d" % i, 0.2, 5) for i in range(n)]
    ec = [c.real("k%d" % i, 0, 8) for i in range(n)]
    return w, ri, ec


def ask(c, r):
    """(index, the wavelength it is for), whichever way it is asked"""
    asked = c.real("asked", 150, 2500)
    how = c.choose("how", ["asked", "own", "complex()", "changed"])
    own = r.wavelength
    if how == "asked":
        return r.complex(asked), asked
    if how == "own":
        return r.complex(None), own
    if how == "complex()":
        return (complex(r) if c.conc else r.__complex__()), own
    r.wavelength = asked
    return r.complex(None), asked


def check_table(c, r, w, ri, ec, label):
    np = c.np
    got, lam = ask(c, r)
    nm = [1000 * x for x in w]
    c.check_eq(np.real(got), lin(np, lam, nm, ri), "index " + label)
    c.check_eq(np.imag(got), lin(np, lam, nm, ec), "extinction " + label)


def arrays(c, n, form):
    np, R = c.np, c.R
    w, ri, ec = table(c, n)
    own = c.real("own", 150, 2500)
    if form == "lists":
        src = (w, ri, ec)
    elif form == "array":
        src = np.array([w, ri, ec])
    else:
        src = [np.array(w), np.array(ri), np.array(ec)]
    r = R.RI(src, wavelength=own)
    check_table(c, r, w, ri, ec, "of a table")
    for a, b, nm in zip(src, (w, ri, ec), ("wavelengths", "indices", "extinctions")):
        c.check_eq(list(a), b, "the caller's %s stay as they were" % nm)
    r2 = R.RI(src, wavelength=own)
    c.check_eq(r2.complex(600.0), r.complex(600.0), "using the same table again")


def long(c, n):
    """many rows at given wavelengths"""
    np, R = c.np, c.R
    w = [0.25 + 0.0625 * i + 0.015625 * i * i for i in range(n)]  # exact in binary
    ri = [c.real("n%d" % i, 0.2, 5) for i in range(n)]
    ec = [c.real("k%d" % i, 0, 8) for i in range(n)]
    r = R.RI([w, ri, ec])
    lam = c.real("asked", 150, 2500)
    got = r.complex(lam)
    c.check_eq(np.real(got), lin(np, lam / 1000, w, ri), "index between two of many rows")
    c.check_eq(np.imag(got), lin(np, lam / 1000, w, ec), "extinction between two of many rows")


def vector(c):
    """an array of wavelengths"""
    np, R = c.np, c.R
    w, ri, ec = table(c, 2)
    r = R.RI([w, ri, ec])
    lam = np.array([c.real("l0", 150, 2500), c.real("l1", 150, 2500)])
    got = r.complex(lam)
    c.check_eq(np.shape(got), (2,), "one index per wavelength")
    for i in range(2):
        c.check_eq(got[i], r.complex(lam[i]), "each as if asked alone")


def constant(c):
    np, R = c.np, c.R
    n, k = c.real("n", 0.2, 5), c.real("k", 0, 8)
    form = c.choose("form", ["list", "tuple", "array"])
    src = [n, k] if form == "list" else (n, k) if form == "tuple" else np.array([n, k])
    r = R.RI(src, wavelength=c.real("own", 150, 2500))
    got, lam = ask(c, r)
    c.check_eq(np.real(got), n, "constant index")
    c.check_eq(np.imag(got), k, "constant extinction")
    c.check(len(list(r.parameters)) == 0, "a table has no parameters")


def infile(c, n, cols, as_path):
    R = c.R
    w, ri, ec = table(c, n)
    p = c.path("my glass.v2.csv")
    with open(p, "w", encoding="utf8") as f:
        f.write("wavelength (\u00b5m),n" + (",k" if cols == 3 else "") + "\n")
        for i in range(n):
            row = [w[i], ri[i], ec[i]][:cols]
            f.write(",".join(c.tok(x) for x in row) + "\n")
    if cols == 2:
        ec = [0] * n
    r = R.RI(pathlib.Path(p) if as_path else p, wavelength=c.real("own", 150, 2500))
    c.check(r.name == "my glass", "named after its file")
    check_table(c, r, w, ri, ec, "of a file")
    c.check(R.RI(p, name="other").name == "other", "a given name is kept")


def bundled(c, name, count):
    np, R = c.np, c.R
    d = os.path.join(os.path.dirname(c.mod("dispersion").__file__), "materials", name + ".csv")
    with open(d, encoding="utf8") as f:
        rows = [[float(x) for x in q if x.strip()] for q in list(csv.reader(f))[1:] if q]
    r = R.load_material(name)
    c.check(r.name == name, "named after the material")
    c.check(all(a[0] <= b[0] for a, b in zip(rows, rows[1:])), "wavelengths ascend")
    N = len(rows)
    rows = [list(np.array(q)) for q in rows]
    for j in range(count):
        i = min(N - 2, j * (N - 1) // count)
        a, b = rows[i], rows[i + 1]
        if len(a) < 3:
            a, b = a + [0.0], b + [0.0]
        t = c.real("t%d" % j, 0.001, 0.999)
        lam = 1000 * a[0] + (1000 * b[0] - 1000 * a[0]) * t
        got = r.complex(lam)
        c.check_eq(np.real(got), a[1] + (b[1] - a[1]) * t, "index between two rows of the table", 1e-6)
        c.check_eq(np.imag(got), a[2] + (b[2] - a[2]) * t, "extinction between two rows of the table", 1e-6)


def refuse(c):
    R = c.R
    n = c.real("n", 1, 2)
    c.check(c.raises(Exception, R.RI), "a refractive index needs a value")
    c.check(c.raises(Exception, R.RI, [n]), "one number is not enough")
    c.check(c.raises(Exception, R.RI, [n, n, n, n]), "four numbers are too many")
    c.check(c.raises(ValueError, R.load_material, "unobtainium"), "an unknown material is refused")
    c.check(c.raises(Exception, R.RI, c.path("nothing.csv")), "a missing file is refused")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def names():
    repo = os.environ.get("REFELLIPS_REPO", "/repo")
    return sorted(x[:-4] for x in os.listdir(os.path.join(repo, "refellips", "materials")) if x.endswith(".csv"))


def cases(tier):
    B = "wavelengths 0.2-2 um, n 0.2-5, k 0-8, asked 150-2500 nm or the default wavelength"
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4, 6):
        for form in ("lists", "array", "arrays"):
            out.append(dict(name="table %d %s" % (n, form), fn=mk(arrays, n, form), budget=60, bounds=B + "; %d rows" % n))
    out.append(dict(name="many rows", fn=mk(long, 10), budget=60, bounds=B + "; 10 rows at given wavelengths"))
    out.append(dict(name="vector", fn=vector, budget=60, bounds=B))
    out.append(dict(name="constant", fn=constant, budget=30, bounds=B))
    for cols in (2, 3):
        for as_path in (False, True):
            out.append(dict(name="file %d %d" % (cols, as_path), fn=mk(infile, 3, cols, as_path), budget=60, bounds=B + "; 3 rows"))
    for m in names():
        out.append(dict(name="material " + m, fn=mk(bundled, m, 3 if tier == "quick" else 30), budget=60, bounds="the bundled table, every wavelength between %d pairs of rows" % (3 if tier == "quick" else 30)))
    out.append(dict(name="refusals", fn=refuse, budget=20, bounds=""))
    return out
