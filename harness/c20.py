"""C20: Horiba .spe files."""
import pathlib

from .c15 import reflected, same

ASSUMES = ["numbers of the data section are symbolic tokens; the angle of the header is one of 65.25, 70.00, 65.5, 7.25, 60 (two decimals at most)"]


def given(c, p, how):
    return p if how == "str" else pathlib.Path(p) if how == "path" else open(p, encoding="latin1") if how == "handle" else open(p, "rb")


def spe(c, n, order, tail, aoi=None, extra=(), before=True, comment=False, waves=None):
    """contents of a file: sections, with the data in the middle or at the end"""
    angle = aoi or "65.25"
    aoi = float(angle)
    cols = [waves or c.reals("w", n, 200, 2000), c.reals("p", n, 0, 90), c.reals("d", n, 0, 360)]
    names = {"nm": 0, "Psi": 1, "Delta": 2}
    secs = [["# TITLE:", "a film", ""], ["# NOTES:", ""]]
    ang = ["# INCIDENCE ANGLE:", angle + ("   " if len(angle) < 4 else " ") + ("\xb0" if comment else "deg"), ""]
    data = ["# DATA:", " ".join(order)]
    for i in range(n):
        data.append(" ".join("%.1f" % waves[i] if waves and k == "nm" else c.tok(cols[names[k]][i]) if k in names else "1.5" for k in order))
    data.append("")
    more = [["# POLARIZER:", "first", "second", ""], ["# LAST:", "one", ""]]
    out = secs + ([ang] if before else []) + [data] + ([] if before else [ang]) + (more if tail else [])
    return aoi, cols, "\n".join("\n".join(s) for s in out) + "\n"


def write(c, text, crlf=False):
    p = c.path("film.spe")
    with open(p, "w", encoding="latin1", newline="\r\n" if crlf else "\n") as f:
        f.write(text)
    return p


def table(cols, aoi):
    return [cols[0], [aoi] * len(cols[0]), cols[1], cols[2]]


def plain(c, n, order, tail, how, before=True, comment=False, crlf=False):
    R = c.R
    aoi, cols, text = spe(c, n, order, tail, before=before, comment=comment)
    p = write(c, text, crlf)
    refl = c.boolean("reflect")
    f = given(c, p, how)
    d = c.mod("dataSE").open_HORIBAfile(f, reflect_delta=refl)
    c.check(isinstance(d, R.DataSE), "one dataset")
    w = table(cols, aoi)
    same(c, d, reflected(w) if refl else w, "the data section, at the angle of the header")
    m = d.metadata
    c.check(m["TITLE"] == "a film" and m["NOTES"] is None, "sections of the header")
    if tail:
        c.check(list(m["POLARIZER"]) == ["first", "second"], "a section of several lines")
        c.check(m["LAST"] in ("one", ["one"]), "the last section")
    if how in ("str", "path"):
        c.check(d.name == p[:-4], "named after the file")
    else:
        f.close()


def cut(c, n, order):
    """wavelengths between the cutoffs only"""
    aoi, cols, text = spe(c, n, order, True)
    p = write(c, text)
    lo, hi = c.real("lo", 200, 2000), c.real("hi", 200, 2000)
    which = c.choose("which", ["both", "low", "high"])
    inf = float("inf")
    cuts = [lo if which != "high" else -inf, hi if which != "low" else inf]
    for x in cols[0]:
        for q in (lo, hi):
            c.assume(abs(x - q) > 1e-9)
    keep = [i for i in range(n) if cuts[0] < cols[0][i] < cuts[1]]
    d = c.mod("dataSE").open_HORIBAfile(p, lambda_cutoffs=cuts)
    w = table(cols, aoi)
    same(c, d, [[q[i] for i in keep] for q in w], "the wavelengths between the cutoffs")


def long(c, n):
    """many rows, wavelengths in no order, cut at given wavelengths"""
    aoi, cols, text = spe(c, n, ["nm", "Psi", "Delta"], True, waves=[400.0 + 10 * ((7 * i) % n) for i in range(n)])
    p = write(c, text)
    O = c.mod("dataSE").open_HORIBAfile
    w = table(cols, aoi)
    same(c, O(p), w, "many rows")
    keep = [i for i in range(n) if 425 < cols[0][i] < 500]
    same(c, O(p, lambda_cutoffs=[425, 500]), [[q[i] for i in keep] for q in w], "many rows between the cutoffs")


def angles(c, text, value):
    """ways to write the angle"""
    aoi, cols, t = spe(c, 1, ["nm", "Psi", "Delta"], True, aoi=text)
    p = write(c, t)
    d = c.mod("dataSE").open_HORIBAfile(p)
    same(c, d, table(cols, value), "angle " + text)


def twice(c):
    """a file read with cutoffs, then without"""
    aoi, cols, text = spe(c, 2, ["nm", "Psi", "Delta"], True)
    p = write(c, text)
    lo = c.real("lo", 200, 2000)
    for x in cols[0]:
        c.assume(abs(x - lo) > 1e-9)
    O = c.mod("dataSE").open_HORIBAfile
    O(p, lambda_cutoffs=[lo, 5000])
    same(c, O(p), table(cols, aoi), "all data")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "wavelength 200-2000, psi 0-90, delta 0-360; %d rows"
    O = (["nm", "Psi", "Delta"], ["nm", "Is", "Ic", "Delta", "Psi", "Err"])
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
        for j, o in enumerate(O):
            for how in ("str", "path", "handle", "bytes"):
                tail = (n + j) % 2
                out.append(dict(name="plain %d %d %s" % (n, j, how), fn=mk(plain, n, o, tail, how, before=(j == 0), comment=(how != "path"), crlf=(how == "path")), budget=30, bounds=B % n))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(dict(name="cutoffs %d" % n, fn=mk(cut, n, O[n % 2]), budget=60, bounds=B % n + ", cutoffs 200-2000 or infinite, not at a wavelength"))
    for t, v in (("70.00", 70), ("65.5", 65.5), ("7.25", 7.25), ("60", 60)):
        out.append(dict(name="angle " + t, fn=mk(angles, t, v), budget=20, bounds=B % 1 + "; angle " + t))
    out.append(dict(name="many rows", fn=mk(long, 16), budget=60, bounds="16 rows, given wavelengths"))
    out.append(dict(name="twice", fn=twice, budget=30, bounds=B % 2))
    return out
