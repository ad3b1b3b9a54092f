"""C17: Accurion EP4 files."""
from .c15 import reflected, same

ASSUMES = ["numbers in the file are symbolic tokens; pandas groups symbolic keys by the equalities and the order the path condition fixes",
           "distances of 0.19-0.21 mm from the first row of a run are left out (the tolerance itself)"]
STAMP = "_20200929-083122.ds.dat"


def write(c, rows, columns, name="sample" + STAMP):
    """rows: list of dict column -> symbolic number, number or ''"""
    p = c.path(name)
    with open(p, "w") as f:
        f.write("\t".join(columns) + "\n")
        f.write("\t".join("#u" for _ in columns) + "\n")
        for r in rows:
            f.write("\t".join(txt(c, r.get(k, 1.5)) for k in columns) + "\n")
    return p


def txt(c, v):
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float)) and not hasattr(v, "n") and not c.conc:
        return repr(v)
    return c.tok(v)


COLS = ["#Lambda", "Bandwidth", "AOI", "Delta", "Psi", "Zone"]


def points(c, n, pre="", aoi=True):
    out = []
    for i in range(n):
        out.append({"#Lambda": c.real("%sw%d" % (pre, i), 200, 2000), "AOI": c.real("%sa%d" % (pre, i), 1, 89) if aoi else 60.0,
                    "Psi": c.real("%sp%d" % (pre, i), 0, 90), "Delta": c.real("%sd%d" % (pre, i), 0, 360)})
    return out


def average(rows):
    """one point for each pair of angle and wavelength, with the means"""
    groups = []
    for r in rows:
        for g in groups:
            if g[0]["AOI"] == r["AOI"] and g[0]["#Lambda"] == r["#Lambda"]:
                g.append(r)
                break
        else:
            k = 0
            while k < len(groups) and (groups[k][0]["AOI"] < r["AOI"] or (groups[k][0]["AOI"] == r["AOI"] and groups[k][0]["#Lambda"] < r["#Lambda"])):
                k += 1
            groups.insert(k, [r])
    mean = lambda g, k: sum(r[k] for r in g) / len(g)
    return [[g[0]["#Lambda"] for g in groups], [g[0]["AOI"] for g in groups], [mean(g, "Psi") for g in groups], [mean(g, "Delta") for g in groups]]


def opts(c, n=0):
    refl = c.boolean("reflect") if n < 3 else False
    return refl, (lambda cols: reflected(cols) if refl else cols)


def single(c, n, extra, order):
    """one measurement, wavelengths and angles in any order and repeated"""
    R = c.R
    rows = points(c, n)
    for r in rows:
        r.update(Time=12.5, X_pos=1.25, Y_pos=-3.5)
    cols = COLS + (["Time", "X_pos", "Y_pos"] if extra else [])
    if order:
        cols = [cols[i] for i in order if i < len(cols)]
    p = write(c, rows, cols)
    refl, conv = opts(c, n)
    d = c.mod("dataSE").open_EP4file(p, reflect_delta=refl)
    c.check(isinstance(d, R.DataSE), "one dataset")
    same(c, d, conv(average(rows)), "one point for each angle and wavelength, the mean of its rows")
    c.check(d.name == p[: -len(STAMP)], "named after the file")


def long(c, n, spots, series):
    """many rows at given wavelengths and angles, places and times; any psi and delta"""
    R = c.R
    groups, rows = [], []
    for t in range(series):
        for s in range(spots):
            g = points(c, n, "g%d_%d" % (t, s))
            for i, r in enumerate(g):
                r.update({"#Lambda": 450.0 + 50 * ((3 * i) % 4), "AOI": 50.0 + 5 * (i % 3), "Time": 1.5 + 2 * t, "X_pos": 1.0 + 0.5 * s, "Y_pos": 2.0 - 0.75 * s})
            groups.append(g)
            rows += g
    p = write(c, rows, COLS + ["Time", "X_pos", "Y_pos"])
    ds = c.mod("dataSE").open_EP4file(p)
    several(c, "of many rows", ds, [average(g) for g in groups],
            [(g[0]["Time"] if series > 1 else None, g[0]["X_pos"] if spots > 1 else None, g[0]["Y_pos"] if spots > 1 else None) for g in groups])


def gaps(c, n, where, col):
    """incomplete rows are dropped, wherever they are"""
    R = c.R
    rows = points(c, n)
    bad = points(c, 1, "bad")[0]
    bad[col] = ""
    allrows = rows[:where] + [bad] + rows[where:]
    for r in allrows:
        r.setdefault("Time", 3.0)
        r.setdefault("X_pos", 0.5)
        r.setdefault("Y_pos", 0.5)
    p = write(c, allrows, COLS + ["Time", "X_pos", "Y_pos"])
    refl, conv = opts(c)
    d = c.mod("dataSE").open_EP4file(p, reflect_delta=refl)
    same(c, d, conv(average(rows)), "an incomplete row counts for nothing")


def several(c, label, ds, want, meta):
    R = c.R
    if len(want) == 1:
        c.check(isinstance(ds, R.DataSE), "one dataset: " + label)
        ds = [ds]
    c.check_eq(len(ds), len(want), "number of datasets: " + label)
    for d, w, m in zip(ds, want, meta):
        same(c, d, w, label)
        t, x, y = m
        if t is None:
            c.check(d.metadata["time"] is None, "no time: " + label)
        else:
            c.check_eq(d.metadata["time"], t, "time: " + label)
        if x is None:
            c.check(d.metadata["X pos"] is None and d.metadata["Y pos"] is None, "no position: " + label)
        else:
            c.check(abs(d.metadata["X pos"] - x) < 0.08, "X position: " + label)
            c.check(abs(d.metadata["Y pos"] - y) < 0.08, "Y position: " + label)


def times(c, n, extra):
    """every time is its own dataset; rows of a time need not be together"""
    R = c.R
    rows = points(c, n, aoi=False)
    for i, r in enumerate(rows):
        r["Time"] = c.real("t%d" % i, 0, 1000)
        if extra:
            r.update(X_pos=1.25, Y_pos=-3.5)
    p = write(c, rows, COLS + ["Time"] + (["X_pos", "Y_pos"] if extra else []))
    refl, conv = opts(c, n)
    ds = c.mod("dataSE").open_EP4file(p, reflect_delta=refl)
    groups = []
    for r in rows:
        for g in groups:
            if g[0]["Time"] == r["Time"]:
                g.append(r)
                break
        else:
            groups.append([r])
    want = [conv(average(g)) for g in groups]
    meta = [(g[0]["Time"] if len(groups) > 1 else None, None, None) for g in groups]
    several(c, "of a time series", ds, want, meta)


def locate(c, r, i, x, y):
    r["X_pos"] = x + c.real("x%d" % i, -0.07, 0.07)
    r["Y_pos"] = y + c.real("y%d" % i, -0.07, 0.07)


def places(c, layout, time, two=False):
    """every location is its own dataset"""
    R = c.R
    n = len(layout)
    rows = points(c, n, aoi=False)
    at = {0: (1.0, 2.0), 1: (1.0, 2.6), 2: (1.6, 2.0), 3: (-14.0, -9.0)}
    for i, (r, l) in enumerate(zip(rows, layout)):
        locate(c, r, i, *at[l])
        if time:
            r["Time"] = 4.5
    if n == 1:
        raise AssertionError
    p = write(c, rows, COLS + (["Time"] if time else []) + ["X_pos", "Y_pos"])
    refl, conv = opts(c)
    moved = any(rows[0][k] != r[k] for r in rows[1:] for k in ("X_pos", "Y_pos"))
    ds = c.mod("dataSE").open_EP4file(p, reflect_delta=refl)
    groups = []
    for r, l in zip(rows, layout):
        if groups and groups[-1][0] == l:
            groups[-1][1].append(r)
        else:
            groups.append((l, [r]))
    want = [conv(average(g)) for l, g in groups]
    meta = [(None,) + (at[l] if moved else (None, None)) for l, g in groups]
    several(c, "of a set of locations", ds, want, meta)


def drift(c, n, axis):
    """a run ends at the first row more than 0.2 mm away from its first row"""
    rows = points(c, n, aoi=False)
    key, other = ("X_pos", "Y_pos") if axis == "x" else ("Y_pos", "X_pos")
    for i, r in enumerate(rows):
        r[key], r[other] = c.real("u%d" % i, 0, 1), 2.0
    groups = [[rows[0]]]
    moved = False
    for r in rows[1:]:
        d = abs(r[key] - groups[-1][0][key])
        c.assume((d <= 0.19) | (d >= 0.21))
        if d > 0.2:
            groups.append([r])
        else:
            groups[-1].append(r)
        if r[key] != rows[0][key]:
            moved = True
    p = write(c, rows, COLS + ["X_pos", "Y_pos"])
    ds = c.mod("dataSE").open_EP4file(p)
    ds = list(ds) if isinstance(ds, (list, tuple)) else [ds]
    c.check_eq(len(ds), len(groups), "number of runs")
    for d, g in zip(ds, groups):
        same(c, d, average(g), "of a drifting sample")
        if moved:
            c.check(abs(d.metadata[key[0] + " pos"] - g[0][key]) < 0.21, "position of a run")
            c.check(abs(d.metadata[other[0] + " pos"] - 2) < 0.01, "position of a run")


def both(c, plan):
    """locations measured at several times: plan is a list of (time, location)"""
    R = c.R
    rows = points(c, len(plan), aoi=False)
    at = {0: (1.0, 2.0), 1: (5.0, 2.0)}
    for i, (r, (t, l)) in enumerate(zip(rows, plan)):
        r.update(Time=t, X_pos=at[l][0], Y_pos=at[l][1])
    p = write(c, rows, COLS + ["Time", "X_pos", "Y_pos"])
    refl, conv = opts(c)
    ds = c.mod("dataSE").open_EP4file(p, reflect_delta=refl)
    groups = []
    for t in dict.fromkeys(t for t, l in plan):
        mine = [(l, r) for r, (u, l) in zip(rows, plan) if u == t]
        start = len(groups)
        for l, r in mine:
            if len(groups) > start and groups[-1][1] == l:
                groups[-1][2].append(r)
            else:
                groups.append((t, l, [r]))
        if len(groups) == start + 1:
            groups[-1] = (t, None, groups[-1][2])
    want = [conv(average(g)) for t, l, g in groups]
    meta = [(t,) + (at[l] if l is not None else (None, None)) for t, l, g in groups]
    several(c, "of locations over time", ds, want, meta)
    for d, (t, l, g) in zip(ds, groups):
        c.check(d.name.startswith(p[: -len(STAMP)]) and ("_t=%ss" % t) in d.name and (l is None or ("_x=%smm" % at[l][0]) in d.name), "name")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, angle 1-89, psi 0-90, delta 0-360, any order and repetition; %d rows"
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for extra in (False, True) if n < 3 else (False,):
            out.append(dict(name="single %d %d" % (n, extra), fn=mk(single, n, extra, None), budget=90, bounds=B % n))
    for n, s, t in ((14, 1, 1), (5, 5, 1), (5, 1, 4), (3, 3, 3)):
        out.append(dict(name="many rows %d %d %d" % (n, s, t), fn=mk(long, n, s, t), budget=60, bounds="%d rows at each of %d places and %d times, at given wavelengths and angles" % (n, s, t)))
    out.append(dict(name="columns in another order", fn=mk(single, 2, True, [7, 4, 0, 6, 3, 5, 8, 2, 1]), budget=60, bounds=B % 2))
    for where in (0, 1, 2):
        for col in ("Psi", "Delta", "#Lambda", "X_pos"):
            out.append(dict(name="gap %d %s" % (where, col), fn=mk(gaps, 2, where, col), budget=60, bounds=B % 3))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(dict(name="times %d" % n, fn=mk(times, n, n == 2), budget=90, bounds=B % n + ", times 0-1000"))
    for lay in ((0, 0), (0, 1), (0, 2), (0, 0, 1), (0, 1, 1), (0, 3, 2), (0, 1, 0)) + (() if tier == "quick" else ((0, 0, 3, 3), (0, 1, 2, 3))):
        out.append(dict(name="places %s" % "".join(map(str, lay)), fn=mk(places, lay, len(lay) == 2), budget=90, bounds=B % len(lay) + ", positions within 0.07 mm"))
    for n, ax in ((2, "x"), (3, "x"), (3, "y")):
        out.append(dict(name="drift %d %s" % (n, ax), fn=mk(drift, n, ax), budget=120, bounds=B % n + ", positions 0-1 mm, not within 0.01 of the limit of 0.2"))
    for i, plan in enumerate([[(1.5, 0), (1.5, 1), (2.5, 0), (2.5, 1)], [(1.5, 0), (1.5, 0), (2.5, 1)], [(1.5, 0), (2.5, 0), (2.5, 1)], [(1.5, 0), (2.5, 1), (1.5, 1)]]):
        out.append(dict(name="places and times %d" % i, fn=mk(both, plan), budget=90, bounds=B % len(plan)))
    return out
