"""Shared by the dead-reckoning checks: the nine algorithms and their states."""
import math

from . import geo

# name -> (arguments in order, body axes, accelerates, rotates)
ALGORITHMS = {
    'drm_static': ('po', False, False, False),
    'drm_fpw': ('pvto', False, False, False),
    'drm_rpw': ('pvtow', False, False, True),
    'drm_rvw': ('pvatow', False, True, True),
    'drm_fvw': ('pvato', False, True, False),
    'drm_fpb': ('pvto', True, False, False),
    'drm_rpb': ('pvtow', True, False, True),
    'drm_rvb': ('pvatow', True, True, True),
    'drm_fvb': ('pvato', True, True, False),
}


class States:
    """Entity states: places on earth and elsewhere, still, slow, fast and
    spinning, level, upside down and nose up, forwards and back in time."""

    def __init__(self, rng):
        self.rng = rng
        self.lits = geo.literals('DeadReckoning.py')

    def number(self, lo, hi):
        r = self.rng
        c = r.random()
        if c < 0.12:
            return r.choice([0.0, -0.0, 1.0, -1.0])
        if c < 0.24 and self.lits:
            return geo.around(r.choice(self.lits), r)
        if c < 0.34:
            return float(r.randint(-20, 20))
        return r.choice([-1, 1]) * 10.0 ** r.uniform(lo, hi)

    def vector(self, lo, hi):
        r = self.rng
        c = r.random()
        if c < 0.1:
            return [0.0, 0.0, 0.0]
        if c < 0.35:  # along one axis: every term on its own
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = self.number(lo, hi)
            return v
        return [self.number(lo, hi) for _ in range(3)]

    def position(self):
        r = self.rng
        if r.random() < 0.6:
            return list(geo.lla2ecef(r.uniform(-1.57, 1.57),
                                     r.uniform(-3.14, 3.14),
                                     r.uniform(-1e4, 1e6)))
        return self.vector(-3, 8)

    def orientation(self):
        r = self.rng
        c = r.random()
        if c < 0.1:
            return [0.0, 0.0, 0.0]
        if c < 0.25:
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = geo.angle(r, self.lits)
            return v
        return [geo.angle(r, self.lits) for _ in range(3)]

    def dt(self):
        r = self.rng
        c = r.random()
        if c < 0.06:
            return 0.0
        if c < 0.12:
            return r.choice([1, 2, 5, -1, 60])
        if c < 0.2 and self.lits:
            return geo.around(r.choice(self.lits), r)
        if c < 0.35:
            return -(10.0 ** r.uniform(-4, 3))
        return 10.0 ** r.uniform(-6, 5)

    def state(self):
        return {'p': self.position(), 'v': self.vector(-4, 4),
                'a': self.vector(-4, 3), 't': self.dt(),
                'o': self.orientation(), 'w': self.vector(-5, 1.5)}

    def as_kind(self, v):
        """The same vector as users pass it: list, tuple or array."""
        import numpy as np
        c = self.rng.random()
        if c < 0.4:
            return list(v)
        if c < 0.6:
            return tuple(v)
        if c < 0.9:
            return np.array(v, dtype=float)
        if all(float(x).is_integer() and abs(x) < 2 ** 31 for x in v):
            return np.array([int(x) for x in v]) if c < 0.95 else \
                [int(x) for x in v]
        return np.array(v, dtype=object) if c > 0.97 else list(v)


def call(module, name, s, kind=None):
    args = [s[k] if k == 't' or kind is None else kind(s[k])
            for k in ALGORITHMS[name][0]]
    return getattr(module, name)(*args)


def expected_position(name, s):
    """(position, scale of the quantities involved)."""
    _, body, accel, _ = ALGORITHMS[name]
    if name == 'drm_static':
        return list(s['p']), [0.0] * 3
    t = s['t']
    d = [s['v'][i] * t for i in range(3)]
    if accel:
        d = [d[i] + s['a'][i] * t * t / 2 for i in range(3)]
    mag = [abs(s['v'][i] * t) + (abs(s['a'][i] * t * t / 2) if accel else 0)
           for i in range(3)]
    if body:
        d = geo.apply(geo.body_to_world(*s['o']), d)
        mag = [sum(mag)] * 3
    return ([s['p'][i] + d[i] for i in range(3)],
            [abs(s['p'][i]) + mag[i] for i in range(3)])


def euler_rates(o, w):
    """Rates of psi, theta, phi for body rates w, by solving the kinematic
    equation w = M(o) rates (not by its inverse formula)."""
    psi, theta, phi = o
    # body rates contributed by unit rates of psi, theta, phi
    back = geo.transpose(geo.rx(phi))
    col_phi = [1.0, 0.0, 0.0]
    col_theta = geo.apply(back, [0.0, 1.0, 0.0])
    col_psi = geo.apply(back, geo.apply(geo.transpose(geo.ry(theta)),
                                        [0.0, 0.0, 1.0]))
    m = [[col_psi[i], col_theta[i], col_phi[i]] for i in range(3)]
    return solve(m, list(w))


def solve(m, b):
    m = [r[:] + [b[i]] for i, r in enumerate(m)]
    for i in range(3):
        k = max(range(i, 3), key=lambda r: abs(m[r][i]))
        m[i], m[k] = m[k], m[i]
        for j in range(i + 1, 3):
            f = m[j][i] / m[i][i]
            for c in range(i, 4):
                m[j][c] -= f * m[i][c]
    x = [0.0] * 3
    for i in (2, 1, 0):
        x[i] = (m[i][3] - math.fsum(m[i][j] * x[j]
                                    for j in range(i + 1, 3))) / m[i][i]
    return x


def floats(v):
    return [float(x) for x in v]
