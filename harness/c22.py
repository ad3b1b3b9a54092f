"""C22: the refractive index profile."""
ASSUMES = ["default (Gaussian) interfaces; refnx's error-function step is taken as (1 + erf(x / sqrt 2)) / 2 with erf uninterpreted but increasing, odd and between -1 and 1"]


def stack(c, films, rough, vf=False):
    np, R = c.np, c.R
    rows, st = [], R.StructureSE()
    for i in range(films + 2):
        inner = 0 < i <= films
        n, k = c.real("n%d" % i, 1, 5), c.real("k%d" % i, 0, 8)
        d = c.real("d%d" % i, 1, 3000) if inner else c.choose("outer%d" % i, [0, 100])
        r = c.real("r%d" % i, 0.5, 50) if rough and i else 0
        v = c.real("v%d" % i, 0, 1, lo_open=True) if vf and inner else 0
        st |= R.RI([n, k])(d, r, v)
        rows.append([d if inner else 0, n, r])
    return st, rows


def edges(c, rows):
    """distance of every interface from the first"""
    np = c.np
    out, t = [], np.array(0.0)
    for d, n, r in rows[:-1]:
        t = t + d
        out.append(t)
    return out


def reference(c, rows, z):
    from refnx.reflect.interface import Erf

    v = rows[0][1]
    for (d0, n0, r0), (d1, n1, r1), e in zip(rows, rows[1:], edges(c, rows)):
        if r1 == 0:
            s = 0 if z < e else 1
        else:
            s = Erf()(z, scale=r1, loc=e)
        v = v + (n1 - n0) * s
    return v


def profile(c, films, rough, npts):
    """the profile at given depths"""
    np = c.np
    st, rows = stack(c, films, rough)
    zs = c.reals("z", npts, -100, 9000)
    for z in zs:
        for e in edges(c, rows):
            c.assume(abs(z - e) > 1e-6)
    zed, n = st.ri_profile(z=np.array(zs))
    c.check_eq(np.shape(n), (npts,), "a value for each depth")
    c.check_eq(zed, np.array(zs), "the depths are kept")
    for i in range(npts):
        c.check_eq(n[i], reference(c, rows, zs[i]), "index at depth %d" % i)


def inside(c, films, reverse, vf):
    """sharp interfaces: the index of the layer the depth is in"""
    np = c.np
    st, rows = stack(c, films, False, vf)
    st.reverse_structure = reverse
    t = st.slabs()
    z = c.real("z", -100, 9000)
    _, n = st.ri_profile(z=np.array([z]))
    e = [np.array(0.0)]
    for i in range(1, films + 1):
        e.append(e[-1] + t[i, 0])
    for x in e:
        c.assume(abs(z - x) > 1e-6)
    j = sum(1 for x in e if x < z)
    c.check_eq(n[0], t[j, 1], "index of the layer at that depth")


def align(c, films, k, rough):
    """an interface is put at zero, the profile is otherwise the same"""
    np = c.np
    st, rows = stack(c, films, rough)
    z = c.real("z", -100, 9000)
    e = edges(c, rows)
    if not rough:
        for x in e:
            c.assume(abs(z - x) > 1e-6)
    z0, n0 = st.ri_profile(z=np.array([z]))
    z1, n1 = st.ri_profile(z=np.array([z]), align=k)
    c.check_eq(n1, n0, "same index")
    c.check_eq(z1[0], z - e[k], "interface %d at zero" % k)
    z2, n2 = st.ri_profile(z=np.array([z]))
    c.check_eq(z2[0], z, "aligning leaves nothing behind")


def grid(c, films):
    """without depths: the whole interface is covered, evenly"""
    np = c.np
    st, rows = stack(c, films, True)
    zed, n = st.ri_profile()
    end = edges(c, rows)[-1]
    c.check_eq(np.shape(zed), np.shape(n), "as many values as depths")
    N = len(zed)
    c.check(N >= 100, "enough depths")
    c.check(zed[0] <= -5 - 2 * rows[1][2], "from before the first interface")
    c.check(zed[N - 1] >= end + 5 + 2 * rows[-1][2], "to after the last")
    k = films - 1
    z1, n1 = st.ri_profile(align=-1)
    c.check_eq(z1[0], zed[0] - end, "first depth, backing at zero")
    c.check_eq(z1[N - 1], zed[N - 1] - end, "last depth, backing at zero")
    for i in (0, N // 2, N - 1):
        c.check_eq(n[i], reference(c, rows, zed[i]), "index at depth %d" % i)
        c.check_eq(n1[i], n[i], "same index with the backing at zero")


def refuse(c, films):
    """interfaces that do not exist"""
    np, R = c.np, c.R
    st, rows = stack(c, films, True)
    for k in (films + 1, films + 2, 99, -films - 3, -99):
        c.check(c.raises(RuntimeError, lambda: st.ri_profile(align=k)), "interface %d" % k)
    for s in (R.StructureSE(), R.StructureSE([R.RI([1.5, 0])()])):
        c.check(c.raises(ValueError, lambda: s.ri_profile()), "no interface at all")
    t = st.slabs()
    st.ri_profile(align=-1)
    c.check_eq(st.slabs(), t, "the structure is as it was")


def mk(f, *a, **k):
    return lambda c: f(c, *a, **k)


def cases(tier):
    B = "n 1-5, k 0-8, thickness 1-3000, depth -100-9000, roughness %s; %d films"
    out = []
    F = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4)
    for f in F:
        for rough in (False, True):
            rb = "0.5-50" if rough else "0"
            out.append(dict(name="profile %d %d" % (f, rough), fn=mk(profile, f, rough, 1 if not rough and f > 1 else 2), budget=90, bounds=B % (rb, f)))
            for k in range(-f - 1, f + 1):
                out.append(dict(name="align %d %d %d" % (f, k, rough), fn=mk(align, f, k, rough), budget=60, bounds=B % (rb, f)))
        for rev in (False, True):
            out.append(dict(name="layers %d %d" % (f, rev), fn=mk(inside, f, rev, f == 1), budget=60, bounds=B % ("0", f)))
        if f:
            out.append(dict(name="grid %d" % f, fn=mk(grid, f), budget=90, bounds=B % ("0.5-50", f)))
    out.append(dict(name="refused", fn=mk(refuse, 1), budget=60, bounds=B % ("0.5-50", 1)))
    return out
