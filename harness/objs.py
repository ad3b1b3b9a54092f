"""Stand-ins shared by the objective harnesses."""
import numpy


class Standin:
    """A model for the objectives to use in place of a film.  Whatever an objective
    sets on it, reads from it or calls it with besides the points goes to a real model
    of a film, whose answer then tells the convention for delta."""

    OWN = ("parameters", "probe", "plain", "calls")

    def __init__(self, c, parameters):
        R = c.plain()
        self.parameters = parameters
        self.probe = R.ReflectModelSE(R.RI([1.0, 0.0])() | R.RI([1.5, 0.0])(1200.0) | R.RI([2.0, 1.0])())  # delta 240
        self.plain = self.ask()
        self.calls = 0

    def ask(self, **k):
        return self.probe(numpy.array([[500.0, 60.0]]), **k)[1][0]

    def reflected(self, **k):
        return abs(self.ask(**k) - self.plain) > 1e-6

    def __setattr__(self, k, v):
        if k in self.OWN:
            object.__setattr__(self, k, v)
        else:
            setattr(self.probe, k, v)

    def __getattr__(self, k):
        if k.startswith("__") or k in self.OWN:
            raise AttributeError(k)
        return getattr(self.probe, k)

    def logp(self):
        return 0


def stub_model(c, coef, pars, logp=None):
    """A model whose psi and delta at a row are a + b * p (p: sum of its parameters), looked
    up by the row's wavelength (0, 1, 2 ... + 500) so that dropped, repeated or
    swapped rows show.  With reflected delta it answers with other numbers."""
    from refnx.analysis import Parameters

    mlogp = logp

    class Stub(Standin):
        np = c.np

        def p(self):
            t = 0
            for q in self.parameters.flattened():
                t = t + q.value
            return t

        def __call__(self, x, p=None, **k):
            self.calls += 1
            flip = self.reflected(**k)
            psi, delta = [], []
            for row in x:
                i = int(row[0]) - 500
                assert float(row[1]) == 60.0 + i
                a, b, d, e, f = coef[i]
                psi.append(a + b * self.p())
                delta.append(f if flip else d + e * self.p())
            return self.np.array(psi), self.np.array(delta)

        model = __call__

        def logp(self):
            return 0 if mlogp is None else mlogp

    return Stub(c, Parameters(name="stub", data=list(pars)))


def coefs(c, n, slope=True, dhi=360):
    out = []
    for i in range(n):
        out.append((c.real("a%d" % i, 0, 90), c.real("b%d" % i, -5, 5) if slope else 0.0, c.real("d%d" % i, 0, dhi, hi_open=True),
                    0.0, c.real("f%d" % i, 0, 180)))
    return out


def dataset(c, n, reflect=False, lo=0, hi=360):
    np, R = c.np, c.R
    psi = [c.real("psi%d" % i, 0, 90) for i in range(n)]
    delta = [c.real("delta%d" % i, lo, hi) for i in range(n)]
    w = [500.0 + i for i in range(n)]
    a = [60.0 + i for i in range(n)]
    d = R.DataSE([np.array(w), np.array(a), np.array(psi), np.array(delta)], reflect_delta=reflect)
    return d, psi, delta


def circ(a, b):
    """shortest angular distance in degrees of any two angles (forks)"""
    d = a - b
    if d < 0:
        d = -d
    while d >= 360:
        d = d - 360
    if d > 180:
        d = 360 - d
    return d
