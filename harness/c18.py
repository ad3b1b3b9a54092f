"""C18: Woollam M2000 (CompleteEASE) files."""
import pathlib

from .c15 import columns, same

ASSUMES = ["numbers in the file are symbolic tokens; pandas groups symbolic times by the equalities and the order the path condition fixes",
           "times of a series are equal or at least 0.2 s apart (they are reported to 0.1 s)"]
HEAD = "VASEmethod[EllipsometerType=4, CompleteEASE=3.65, AcqTime=%s]"


def given(c, p, how):
    return p if how == "str" else pathlib.Path(p) if how == "path" else open(p)


def static(c, n, drop, how, end, crlf=False):
    """three lines for each point; every drop-th point is kept"""
    R = c.R
    cols = columns(c, n)
    err = c.reals("e", 2, 0, 1)
    dep = c.reals("q", 2, -9, 9)
    nl = "\r\n" if crlf else "\n"
    lines = ["", HEAD % "30.013", "nm"]
    for w, a, p, d in zip(*cols):
        lines.append("\t".join([c.tok(w), c.tok(a), c.tok(p), c.tok(d), c.tok(err[0]), c.tok(err[1]), ""]))
        lines.append("\t".join(["dPolE", c.tok(w), "0.000", c.tok(dep[0]), "1.0000"]))
        lines.append("\t".join(["uR", c.tok(w), "0.000", c.tok(dep[1]), "1.0000"]))
    path = c.path("m.dat")
    with open(path, "w", newline="") as f:
        f.write(nl.join(lines) + (nl if end else ""))
    f = given(c, path, how)
    d = c.mod("dataSE").open_M2000file(f, dropdatapoints=drop) if drop != 1 else c.mod("dataSE").open_M2000file(f)
    c.check(isinstance(d, R.DataSE), "one dataset")
    same(c, d, [q[::drop] for q in cols], "every %d-th point" % drop)
    meta(c, d, "30.013")
    if how == "handle":
        f.close()


def meta(c, d, t):
    m = d.metadata
    c.check(m["EllipsometerType"] == "4" and m["CompleteEASE"] == "3.65" and m["AcqTime"] == t, "the header is kept")


def groups(rows):
    """rows by time, in the order of time"""
    out = []
    for t, r in rows:
        for g in out:
            if g[0] == t:
                g[1].append(r)
                break
        else:
            k = 0
            while k < len(out) and out[k][0] < t:
                k += 1
            out.insert(k, (t, [r]))
    return out


def dynamic(c, n, times, every, drop, how):
    """rows of the same time are one dataset"""
    R = c.R
    cols = columns(c, n)
    if times is None:
        ts = c.reals("t", n, 0, 100)
        for i in range(n):
            for j in range(i):
                if ts[i] != ts[j]:
                    c.assume(60 * abs(ts[i] - ts[j]) >= 0.2)
    else:
        t = [c.real("t0", 0, 100)]
        for i in range(max(times)):
            t.append(t[-1] + c.real("t%d" % (i + 1), 0.004, 20))
        ts = [t[i] for i in times]
    lines = ["", HEAD % "0.978", "Dynamic", "nm"]
    rows = list(zip(*cols))
    for (w, a, p, d), u in zip(rows, ts):
        lines.append("\t".join([c.tok(w), c.tok(a), c.tok(p), c.tok(d), "0.0988", "0.2195", "", c.tok(u)]))
    path = c.path("m.dat")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    f = given(c, path, how)
    ds = c.mod("dataSE").open_M2000file(f, take_every=every, dropdatapoints=drop)
    want = groups(list(zip(ts, rows)))[::every]
    c.check(isinstance(ds, dict), "a dictionary")
    c.check_eq(len(ds), len(want), "number of datasets")
    for (k, d), (t, rs) in zip(ds.items(), want):
        c.check(abs(k - 60 * t) <= 0.0501, "the key is the time in seconds")
        rs = rs[::drop]
        same(c, d, [[r[i] for r in rs] for i in range(4)], "of its time")
        meta(c, d, "0.978")
    if how == "handle":
        f.close()


def other(c):
    """other kinds of files are refused"""
    for kind in ("eV", "Mapping", "nm/eV", ""):
        path = c.path("o.dat")
        with open(path, "w") as f:
            f.write("\n".join(["", HEAD % "1", kind, "\t".join(["500", "70", "30", "100", "0.1", "0.1", ""])]))
        c.check(c.raises(ValueError, c.mod("dataSE").open_M2000file, path), "refused: " + kind)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, angle 0-90, psi 0-90, delta 0-360; %d rows"
    out = []
    N = (1, 2, 4, 11) if tier == "quick" else (1, 2, 4, 7, 16)
    for n in N:
        for how in ("str", "path", "handle"):
            for drop in (1, 2, 3):
                out.append(dict(name="static %d %s %d" % (n, how, drop), fn=mk(static, n, drop, how, drop != 2, drop == 3), budget=30, bounds=B % n))
    for n in (1, 2, 3):
        out.append(dict(name="series %d" % n, fn=mk(dynamic, n, None, 1, 1, "str"), budget=90, bounds=B % n + ", times 0-100 min in any order"))
    for times in ((0, 0, 1, 1), (0, 0, 0, 1, 1, 1, 2, 2, 2), (0, 1, 2, 3), (0, 1, 0, 1, 2), tuple(i // 3 for i in range(18))):
        for every, drop, how in ((1, 1, "handle"), (2, 1, "str"), (1, 2, "path"), (3, 2, "str")):
            out.append(dict(name="series %s %d %d" % ("".join(map(str, times)), every, drop), fn=mk(dynamic, len(times), times, every, drop, how),
                            budget=60, bounds=B % len(times) + ", times 0-100 min"))
    out.append(dict(name="other files", fn=other, budget=20, bounds="four other kinds of file", novalidate=True))
    return out
