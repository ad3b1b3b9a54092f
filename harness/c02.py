"""C02: reflected and transmitted amplitudes for both polarisations; energy."""
from .tmmref import amplitudes, sin_aoi

ASSUMES = []


def media_of(c, kinds, fix=None, d=(0, 300)):
    fix = fix or {}

    def val(nm, lo, hi, **k):
        return fix[nm] if nm in fix else c.real(nm, lo, hi, **k)

    media = []
    for j, ch in enumerate(kinds):
        n = val("n%d" % j, 1, 5)
        k = 0 if ch == "t" else val("k%d" % j, 0, 8, lo_open=True)
        dd = 0 if j in (0, len(kinds) - 1) else val("d%d" % j, *d)
        media.append((n, k, dd))
    return media


def run(c, media, ths, lams):
    np = c.np
    f = c.mod("reflect_modelSE").coh_tmm
    inf = float("inf")
    nl = np.array([m[0] + 1j * m[1] for m in media])
    dl = np.array([inf] + [m[2] for m in media[1:-1]] + [inf])
    return f(nl, dl, np.array([t * (np.pi / 180) for t in ths]), lams)


def amp(c, kinds, fix=None, aoi=(0.01, 89), npts=1, d=(0, 300)):
    np = c.np
    media = media_of(c, kinds, fix, d)
    ths = [c.real("aoi%d" % i, *aoi) for i in range(npts)]
    lams = [c.real("lam%d" % i, 180, 2500) for i in range(npts)]
    res = run(c, media, ths, lams[0] if npts == 1 else np.array(lams))
    for i in range(npts):
        rp, rs, tp, ts = amplitudes(c, media, ths[i], lams[i])
        for k, v in (("r_p", rp), ("r_s", rs), ("t_p", tp), ("t_s", ts)):
            c.check_eq(res[k][i], v, "%s of %s, point %d" % (k, kinds, i), 1e-7)


def energy(c, kinds, fix=None):
    np = c.np
    media = media_of(c, kinds, fix)
    th, lam = c.real("aoi", 0.01, 89), c.real("lam", 180, 2500)
    s = media[0][0] * sin_aoi(c, th)
    for m in media[1:]:
        c.assume(s <= 0.999 * m[0])
    res = run(c, media, [th], lam)
    c0 = np.cos(th * (np.pi / 180))
    nf = media[-1][0]
    cf = np.sqrt(1 - (s / nf) ** 2)
    f = nf * cf / (media[0][0] * c0)

    def sq(z):
        return np.real(z) * np.real(z) + np.imag(z) * np.imag(z)

    for pol in "ps":
        c.check_eq(sq(res["r_" + pol][0]) + f * sq(res["t_" + pol][0]), 1,
                   "reflected and transmitted intensity add up (%s)" % pol, 1e-7)


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    out = []
    B = "n in [1,5], k in (0,8], d in [0,300] nm, aoi [0.01,89], lam [180,2500]"
    for kinds in ("tt", "ta", "ttt", "tat", "tta", "taa", "taat", "tttt"):
        out.append(dict(name="amplitudes " + kinds, fn=mk(amp, kinds), budget=90, bounds=B))
    out.append(dict(name="two angles", fn=mk(amp, "taa", npts=2, fix=dict(n0=1, n1=2, k1=3, n2=4, k2=0.5), d=(0, 3000)), budget=90,
                    bounds="fixed constants, symbolic angles, thickness (0..3000 nm), wavelength"))
    out.append(dict(name="energy tt", fn=mk(energy, "tt"), budget=60, bounds=B + ", no total reflection"))
    if tier != "quick":
        out.append(dict(name="amplitudes tatta", fn=mk(amp, "tatta", fix=dict(n0=1, n1=1.5, k1=0.25, n2=2, n3=1.75, n4=3, k4=1)), budget=300, bounds="fixed constants, symbolic d, aoi, lam"))
    return out
