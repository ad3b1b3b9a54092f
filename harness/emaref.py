"""effective media, written from their defining equations"""


def eps(c, E_a, E_b, f, ema, L):
    if ema == "linear":
        return (1 - f) * E_a + f * E_b
    if ema == "maxwell-garnett":
        # inclusions b in host a: (e - ea)/(ea + L (e - ea)) = f (eb - ea)/(ea + L (eb - ea))
        q = f * (E_b - E_a) / (E_a + L * (E_b - E_a))
        return E_a + q * E_a / (1 - L * q)
    raise ValueError(ema)


def csq(c, z):
    """principal square root"""
    return c.np.sqrt(z + 0j)


def bruggeman_residual(E, E_a, E_b, f, L):
    return (1 - f) * (E_a - E) * (E + L * (E_b - E)) + f * (E_b - E) * (E + L * (E_a - E))
