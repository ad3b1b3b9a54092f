"""Independent statement of the optics of a stratified medium: Airy's recursion
on Fresnel coefficients (the code multiplies characteristic matrices)."""


def sin_aoi(c, aoi):
    return c.np.sin(aoi * (c.np.pi / 180))


def fwd_cos(c, s, n, k):
    """cosine of the angle in medium n + ik of the wave that travels away from
    the source (or decays); s = n0 sin(th0)"""
    np = c.np
    if isinstance(k, int) and k == 0 and not c.conc:
        if s <= n:
            return np.sqrt(1 - (s / n) ** 2) + 0j
        return 1j * np.sqrt((s / n) ** 2 - 1)
    z = n + 1j * k
    if c.conc:
        w = np.sqrt(1 - (s / z) ** 2 + 0j)
        q = z * w
        if q.imag < 0 or (q.imag == 0 and q.real < 0):
            w = -w
        return w
    X, A = c.X, c.A
    return A.Sym(X.fn("fwdcos", A.lift(s).n, A.lift(z).n), "c")


def saturate(c, phase, limit=35):
    """attenuation beyond `limit` nepers in one pass counts as `limit`"""
    np = c.np
    im = np.imag(phase)
    if im > limit:
        return np.real(phase) + 1j * limit
    return phase


def amplitudes(c, media, aoi, lam, sat=True):
    """media: [(n, k, d in nm), ...] front to back -> (rp, rs, tp, ts)"""
    np = c.np
    n0 = media[0][0]
    s = n0 * sin_aoi(c, aoi)
    N = [m[0] if (isinstance(m[1], int) and m[1] == 0) else m[0] + 1j * m[1] for m in media]
    C = [np.cos(aoi * (np.pi / 180))] + [fwd_cos(c, s, m[0], m[1]) for m in media[1:]]
    if c.conc:
        # exactly at a critical angle the code's matrices are singular
        c.assume(all(abs(x) > 1e-6 for x in C))
    E = [None]
    for j in range(1, len(media) - 1):
        ph = 2 * np.pi * N[j] * C[j] * media[j][2] / lam
        if sat:
            ph = saturate(c, ph)
        E.append(np.exp(1j * ph))
    out = []
    for pol in "ps":
        def rt(i, j):
            if pol == "s":
                a, b = N[i] * C[i], N[j] * C[j]
                return (a - b) / (a + b), 2 * a / (a + b)
            a, b = N[j] * C[i], N[i] * C[j]
            return (a - b) / (a + b), 2 * N[i] * C[i] / (a + b)

        R, T = rt(len(media) - 2, len(media) - 1)
        for j in range(len(media) - 2, 0, -1):
            r, t = rt(j - 1, j)
            e = E[j]
            den = 1 + r * R * e * e
            T = t * T * e / den
            R = (r + R * e * e) / den
        out.append((R, T))
    (rp, tp), (rs, ts) = out
    return rp, rs, tp, ts


def check_psi_delta(c, psi, delta, rp, rs, offset, label, reflect=False, tol=1e-6):
    """tan(psi) exp(-i delta) = rp / rs, psi as an angle, delta through its
    cosine and sine."""
    np = c.np
    if c.conc:
        # a stack that reflects (almost) nothing has no psi and delta
        c.assume(abs(rs) > 1e-7 and abs(rp) > 1e-7)
    rho = rp / rs
    c.check_eq(psi, np.arctan(np.abs(rho)) * (180 / np.pi), label + " psi", tol)
    m = np.abs(rho)
    a = (delta - offset) * (np.pi / 180)
    if c.conc:
        cr, sr = rho.real / m, -rho.imag / m
    else:
        X, A = c.X, c.A
        z = A.lift(rho).n
        cr, sr = A.Sym(X.fn("cosarg", z), "f"), -A.Sym(X.fn("sinarg", z), "f")
    c.check_eq(np.cos(a), cr, label + " cos(delta)", tol)
    if not reflect:
        c.check_eq(np.sin(a), sr, label + " sin(delta)", tol)
