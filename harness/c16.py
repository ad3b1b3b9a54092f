"""C16: saving, loading and refreshing datasets."""
import io
import pathlib

from .c15 import columns, make, pick, reflected, same

ASSUMES = ["numbers in text files are symbolic tokens: a format that keeps 17 significant digits is exact, a shorter one is a rounding",
           "files are written to and read from a scratch directory"]


def write(c, cols, name, delim="\t", header=("# wavelength\tAOI\tPsi\tDelta",), sep="\n"):
    p = c.path(name)
    with open(p, "w") as f:
        f.write(text(c, cols, delim, header, sep))
    return p


def text(c, cols, delim="\t", header=("# wavelength\tAOI\tPsi\tDelta",), sep="\n"):
    out = [h + "\n" for h in header]
    for row in zip(*cols):
        out.append(delim.join(c.tok(x) for x in row) + sep)
    return "".join(out)


def opened(c, p, how):
    if how == "str":
        return p
    if how == "path":
        return pathlib.Path(p)
    return open(p)


def roundtrip(c, n, how):
    np, R = c.np, c.R
    cols = columns(c, n)
    src, d = make(c, cols, "tuple")
    m = [c.boolean("m%d" % i) for i in range(n)]
    d.mask = np.array(m)
    p = c.path("out.txt")
    if how == "handle":
        with open(p, "w") as f:
            d.save(f)
    else:
        d.save(opened(c, p, how))
    same(c, d, pick(cols, [i for i in range(n) if m[i]]), "saving changes nothing")
    refl = c.boolean("reflect")
    f = opened(c, p, how)
    e = R.DataSE(f, reflect_delta=refl)
    same(c, e, reflected(cols) if refl else cols, "every point comes back from the file")
    if how == "handle":
        f.close()


def long(c, n, how):
    np, R = c.np, c.R
    cols = columns(c, n)
    src, d = make(c, cols, "array")
    d.mask = np.array([i % 3 != 1 for i in range(n)])
    p = c.path("out.txt")
    d.save(opened(c, p, how))
    e = R.DataSE(opened(c, p, how))
    same(c, e, cols, "every point comes back from the file")
    e.refresh()
    same(c, e, cols, "and again")


def reading(c, n, delim, header, how, refl):
    """files of other origin"""
    R = c.R
    cols = columns(c, n)
    p = write(c, cols, "in.txt", delim, header)
    f = opened(c, p, how)
    d = R.DataSE(f, delimiter=delim, reflect_delta=refl, name="mine", key=1)
    same(c, d, reflected(cols) if refl else cols, "read from a file")
    c.check(d.name == "mine" and d.metadata["key"] == 1, "name and metadata are kept")
    c.check(d.filename is f, "the file is remembered")
    if how == "handle":
        f.close()


def memory(c):
    """a stream that is not a file"""
    R = c.R
    cols = columns(c, 3)
    refl = c.boolean("reflect")
    d = R.DataSE(io.StringIO(text(c, cols)), reflect_delta=refl)
    same(c, d, reflected(cols) if refl else cols, "read from a stream")
    d.refresh()
    same(c, d, reflected(cols) if refl else cols, "refreshed from a stream")


def refresh(c, n, n2, how):
    """the file changes"""
    np, R = c.np, c.R
    cols, new = columns(c, n), columns(c, n2, "n")
    p = write(c, cols, "in.txt")
    refl = c.boolean("reflect")
    d = R.DataSE(opened(c, p, how), reflect_delta=refl)
    m = [c.boolean("m%d" % i) for i in range(n)]
    d.mask = np.array(m)
    keep = [i for i in range(n) if m[i]]
    d.refresh()
    same(c, d, pick(reflected(cols) if refl else cols, keep), "nothing changed: nothing changes")
    write(c, new, "in.txt")
    d.refresh()
    want = reflected(new) if refl else new
    same(c, d, pick(want, keep) if n2 == n else want, "the new contents, in the same convention")


def norefresh(c):
    R = c.R
    cols = columns(c, 2)
    src, d = make(c, cols, "tuple")
    d.refresh()
    same(c, d, cols, "refreshing data that are not from a file changes nothing")


def later(c):
    """load() into an existing dataset"""
    R = c.R
    cols = columns(c, 2)
    p = write(c, cols, "in.txt")
    src, d = make(c, columns(c, 2, "o"), "tuple")
    d.load(p)
    same(c, d, cols, "loaded over other data")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, angle 0-90, psi 0-90, delta 0-360"
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 4):
        for how in ("str", "path", "handle"):
            out.append(dict(name="round trip %d %s" % (n, how), fn=mk(roundtrip, n, how), budget=60, bounds=B + "; %d points, any mask" % n))
    hs = [("# one",), ("one\ttwo\tthree\tfour",), (), ("a", "b, c", "", "#d\te")]
    hs.append(tuple("line %d" % i for i in range(60)))
    for how in ("str", "path"):
        out.append(dict(name="many points " + how, fn=mk(long, 25, how), budget=60, bounds=B + "; 25 points"))
    for i, h in enumerate(hs):
        for how in ("str", "path", "handle"):
            for refl in (False, True):
                out.append(dict(name="reading %d %s %d" % (i, how, refl), fn=mk(reading, 2, "\t", h, how, refl), budget=30, bounds=B + "; %d header lines" % len(h)))
    out.append(dict(name="commas", fn=mk(reading, 3, ",", ("wav,aoi,psi,delta",), "str", False), budget=30, bounds=B))
    out.append(dict(name="one row", fn=mk(reading, 1, "\t", ("x",), "str", True), budget=30, bounds=B))
    out.append(dict(name="stream", fn=memory, budget=30, bounds=B))
    for a, b in ((2, 2), (2, 3), (3, 1)):
        for how in ("str", "path"):
            out.append(dict(name="refresh %d %d %s" % (a, b, how), fn=mk(refresh, a, b, how), budget=60, bounds=B + ", any mask"))
    out.append(dict(name="refresh nothing", fn=norefresh, budget=20, bounds=B))
    out.append(dict(name="load later", fn=later, budget=20, bounds=B))
    return out
