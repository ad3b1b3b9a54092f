"""C19: Film Sense files."""
import pathlib

from .c15 import NAMES

ASSUMES = ["numbers in the file are symbolic tokens and the arithmetic is exact: the rounding of N, C, S to single precision is not modelled",
           "N between -0.99 and 0.99 (single precision loses psi near 0 and 90), except for the ranges of psi and delta: N in (-1, 1]; times of a series differ"]


def optics(c, n, pre=""):
    """N, C, S of any light (the degree of polarisation need not be 1)"""
    N = [c.real("%sN%d" % (pre, i), -0.99, 0.99) for i in range(n)]
    C = c.reals(pre + "C", n, -1, 1)
    S = c.reals(pre + "S", n, -1, 1)
    return N, C, S


def lights(c, n):
    return c.reals("w", n, 200, 2000)


def expected(c, w, aoi, N, C, S):
    np = c.np
    psi, delta = [], []
    for a, b, s in zip(N, C, S):
        psi.append(np.degrees(np.arccos(a)) / 2)
        d = np.degrees(np.arctan2(s, b))
        delta.append(d + 360 if d < 0 else d)
    return [w, [aoi] * len(w), psi, delta]


def near(c, d, cols, label):
    for nm, w in zip(NAMES, cols):
        g = getattr(d, nm)
        c.check_eq(c.np.shape(g), (len(w),), "number of points: %s, %s" % (nm, label))
        c.check_eq(g, c.np.array(w), "%s, %s" % (nm, label), tol=3e-6)


def given(c, p, how):
    return p if how == "str" else pathlib.Path(p) if how == "path" else open(p)


def leds(c, w, f, wide):
    for x in w:
        f.write("\t".join([c.tok(x), "14.32", "3.39", "2.48"] + (["1.218", "1.363", "0.059"] if wide else [])) + "\n")


def meta(c, d, n, k, aoi, extra):
    m = d.metadata
    c.check(m["numwvls"] == n and m["numdatasets"] == k, "numbers of the header")
    c.check_eq(m["nomAOI"], aoi, "angle of the header")
    for key, v in extra.items():
        c.check_eq(m[key], v, "header: " + key)


def nonzero(c, C, S):
    for b, s in zip(C, S):
        c.assume(b * b + s * s > 0.0001)


def standard(c, n, how, wide):
    R = c.R
    w = lights(c, n)
    aoi = c.real("aoi", -90, 90)
    N, C, S = optics(c, n)
    nonzero(c, C, S)
    ax, ay, av = c.real("ax", -1, 1), c.real("ay", -1, 1), c.real("av", 0, 99)
    path = c.path("f.txt")
    with open(path, "w") as f:
        f.write("Film_Sense_Data\n")
        f.write("\t".join([str(n), "1", c.tok(aoi), c.tok(ax), c.tok(ay), c.tok(av)]) + "\n")
        leds(c, w, f, wide)
        for q in zip(N, C, S):
            f.write("\t".join([c.tok(x) for x in q] + ["0.99845", "16.5071"]) + "\n")
        f.write("1\nFit_Diff\t0.0046\nModel: (not saved)")
    f = given(c, path, how)
    d = c.mod("dataSE").open_FilmSenseFile(f)
    c.check(isinstance(d, R.DataSE), "one dataset")
    near(c, d, expected(c, w, aoi, N, C, S), "psi and delta of N, C, S")
    meta(c, d, n, 1, aoi, {"AlignX": ax, "AlignY": ay, "AvInten": av})
    if how == "handle":
        f.close()


def dynamic(c, n, k, how):
    R = c.R
    w = lights(c, n)
    aoi = c.real("aoi", -90, 90)
    t = c.reals("t", k, 0, 1000)
    for i in range(k):
        for j in range(i):
            c.assume(t[i] != t[j])
    sets = [optics(c, n, "s%d" % i) for i in range(k)]
    for N, C, S in sets:
        nonzero(c, C, S)
    q = c.real("q", 0, 9)
    path = c.path("f.txt")
    with open(path, "w") as f:
        f.write("Film_Sense_Dyn_Data\n")
        f.write("\t".join([str(n), str(k), c.tok(aoi), c.tok(q)]) + "\n")
        leds(c, w, f, True)
        f.write("Time\tUV_N\tand so on\n")
        for u, s in zip(t, sets):
            row = [c.tok(u)]
            for x in zip(*s):
                row += [c.tok(y) for y in x] + ["0.99839", "14.1911"]
            f.write("\t".join(row + ["-0.007", "30.72", "3.2528"]) + "\n")
    f = given(c, path, how)
    ds = c.mod("dataSE").open_FilmSenseFile(f)
    c.check(isinstance(ds, dict), "a dictionary")
    c.check_eq(len(ds), k, "number of datasets")
    for (key, d), u, s in zip(ds.items(), t, sets):
        c.check_eq(key, u, "the key is the time")
        near(c, d, expected(c, w, aoi, *s), "psi and delta of its N, C, S")
        meta(c, d, n, k, aoi, {})
    if how == "handle":
        f.close()


def signs(c):
    """the quadrant of delta, and both ends of psi"""
    np = c.np
    N = c.real("N", -1, 1, lo_open=True)
    r = c.real("r", 0.05, 1)
    C, S = c.real("C", -1, 1), c.real("S", -1, 1)
    nonzero(c, [C], [S])
    path = c.path("f.txt")
    with open(path, "w") as f:
        f.write("Film_Sense_Data\n1\t1\t65\t0\t0\t19\n")
        leds(c, [c.real("w", 200, 2000)], f, True)
        f.write("\t".join([c.tok(N), c.tok(C), c.tok(S), "1.0", "16.5071"]) + "\n")
    d = c.mod("dataSE").open_FilmSenseFile(path)
    psi, delta = d.psi[0], d.delta[0]
    e = 1e-4
    c.check(psi >= -e, "psi >= 0")
    c.check(psi <= 90 + e, "psi <= 90")
    c.check(delta >= -e, "delta >= 0")
    c.check(delta <= 360 + e, "delta <= 360")
    if S > 0.001:
        c.check(delta < 180 + e, "S > 0: the upper half")
    if S < -0.001:
        c.check(delta > 180 - e, "S < 0: the lower half")
    if C > 0.001:
        c.check(np.logical_or(delta < 90 + e, delta > 270 - e), "C > 0: the right half")
    if C < -0.001:
        c.check(np.logical_and(delta > 90 - e, delta < 270 + e), "C < 0: the left half")
    if N > 0.001:
        c.check(psi < 45 + e, "N > 0: psi below 45")
    if N < -0.001:
        c.check(psi > 45 - e, "N < 0: psi above 45")


def other(c):
    for kind in ("", "Film_Sense", "Something\n", "Film_Sense_Dat\n1\t1"):
        path = c.path("o.txt")
        with open(path, "w") as f:
            f.write(kind)
        c.check(c.raises(Exception, c.mod("dataSE").open_FilmSenseFile, path), "refused: " + kind)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, angle -90-90, N -0.99-0.99, C and S -1-1 not both 0; %d wavelengths"
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for how in ("str", "path", "handle"):
            out.append(dict(name="standard %d %s" % (n, how), fn=mk(standard, n, how, n != 2), budget=90, bounds=B % n, valtol=2e-3))
    for n, k in ((1, 1), (1, 2), (2, 1), (1, 3)) + (() if tier == "quick" else ((2, 2),)):
        out.append(dict(name="series %d %d" % (n, k), fn=mk(dynamic, n, k, "handle" if k == 1 else "str"), budget=90, bounds=B % n + ", %d times" % k, valtol=2e-3))
    out.append(dict(name="ranges", fn=signs, budget=90, bounds=B % 1, valtol=2e-3))
    out.append(dict(name="other files", fn=other, budget=20, bounds="four other kinds of file", novalidate=True))
    return out
