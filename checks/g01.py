"""G01: geodetic and earth-centred coordinates name the same point."""
import math

from lib import geo

RULE = ('a case is one point converted to or from earth-centred coordinates '
        'and compared with an independent computation; distinct by point and '
        'direction; non-trivial when it is not on an axis')


def latitude(rng, lits):
    c = rng.random()
    if c < 0.2:
        return rng.choice([-1, 1]) * rng.choice(
            [0.0, 90.0, 45.0, 30.0, 60.0, 89.0, 1.0])
    if c < 0.35:
        return rng.choice([-1, 1]) * (90 - 10.0 ** rng.uniform(-13, 1))
    if c < 0.45:
        return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, 1)
    if c < 0.6:
        v = rng.choice(lits)
        v = geo.around(rng.choice([v, math.degrees(v) if abs(v) < 2 else v]),
                       rng)
        if abs(v) <= 90:
            return v
    return rng.uniform(-90, 90)


def longitude(rng, lits):
    c = rng.random()
    if c < 0.2:
        return rng.choice([0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 45.0, -135.0])
    if c < 0.35:
        v = rng.choice([0.0, 90.0, -90.0, 180.0, -180.0]) + \
            rng.choice([-1, 1]) * 10.0 ** rng.uniform(-13, 0)
        if abs(v) <= 180:
            return v
    if c < 0.5:
        v = rng.choice(lits)
        v = geo.around(rng.choice([v, math.degrees(v) if abs(v) < 3.2 else v]),
                       rng)
        if abs(v) <= 180:
            return v
    return rng.uniform(-180, 180)


def altitude(rng, lits):
    c = rng.random()
    if c < 0.15:
        return 0.0
    if c < 0.4:
        return rng.uniform(-500, 12000)
    if c < 0.55:
        v = geo.around(rng.choice(lits), rng)
        if -6.2e6 < v < 1e9:
            return v
    if c < 0.65:
        return rng.uniform(-6.2e6, 0)
    return rng.choice([-1, 1, 1]) * 10.0 ** rng.uniform(-3, 6.7) if c < 0.85 \
        else 10.0 ** rng.uniform(5, 9)


def around_any(v, rng):
    return geo.around(v, rng) * (1 if abs(v) > 1e4 else
                                 10.0 ** rng.choice([0, 0, 3, 6]))


class Points:
    def __init__(self, rng):
        self.rng = rng
        self.lits = geo.literals('RangeCoordinates.py')

    def lla(self):
        r = self.rng
        return (latitude(r, self.lits), longitude(r, self.lits),
                altitude(r, self.lits))

    def surface(self):
        r = self.rng
        return (latitude(r, self.lits), longitude(r, self.lits),
                r.choice([0.0, r.uniform(-500, 20000), r.uniform(0, 1e6)]))

    def ecef(self):
        r = self.rng
        c = r.random()
        if r.random() < 0.2:
            la, lo, al = self.lla()
            return self.snapped(geo.lla2ecef(math.radians(la),
                                             math.radians(lo), al))
        if c < 0.5:
            la, lo, al = self.lla()
            return geo.lla2ecef(math.radians(la), math.radians(lo), al)
        if c < 0.7:  # beside the polar axis
            d = 10.0 ** r.uniform(-9, 5)
            t = r.uniform(-math.pi, math.pi)
            return (d * math.cos(t), d * math.sin(t), r.choice([-1, 1]) *
                    r.choice([r.uniform(1e5, 2e7), geo.B, 6356752.0]))
        v = [r.gauss(0, 1) for _ in range(3)]
        k = 10.0 ** r.uniform(5.1, 9) / geo.norm(v)
        v = [x * k for x in v]
        if r.random() < 0.3:
            v[r.randrange(3)] = 0.0
        return tuple(v)

    def snapped(self, v, low=1e5):
        """v with a component or two that is zero, whole, round or a number
        the code mentions."""
        r = self.rng
        v = list(v)
        if r.random() < 0.2:
            k = r.choice([0, 0, 0, -2, -4])
            w = [round(x, k) for x in v]
            return tuple(w if low < geo.norm(w) < 1e9 else v)
        for _ in range(r.choice([1, 1, 2, 3])):
            i, c = r.randrange(3), r.random()
            w = list(v)
            if c < 0.2:
                w[i] = 0.0
            elif c < 0.5:
                w[i] = float(round(w[i]))
            elif c < 0.8:
                w[i] = round(w[i], -r.randint(1, 6))
            elif self.lits:
                w[i] = around_any(r.choice(self.lits), r)
            if low < geo.norm(w) < 1e9:
                v = w
        return tuple(v)

    def origin(self):
        """A point of which somebody may look around, earth-centred and in
        radians and metres."""
        r = self.rng
        while True:
            if r.random() < 0.6:
                a = self.surface()
                lla = math.radians(a[0]), math.radians(a[1]), a[2]
                p = geo.lla2ecef(*lla)
            else:
                a = self.surface()
                p = self.snapped(geo.lla2ecef(math.radians(a[0]),
                                              math.radians(a[1]), a[2]), 5e6)
                lla = geo.ecef2lla(p)
            if abs(lla[0]) < math.pi / 2 - 2e-9:
                return p, lla

    own = None

    def kind(self, v, slot=None):
        """v as any kind of sequence; with a slot, perhaps written over the
        values of an earlier call in the same list or array."""
        import numpy as np
        if self.own is None:
            self.own = {}
        if slot and self.rng.random() < 0.4:
            k = (slot, len(v), self.rng.random() < 0.5)
            if k not in self.own:
                self.own[k] = list(v) if k[2] else np.array(v, dtype=float)
            self.own[k][:] = v
            return self.own[k]
        if self.rng.random() < 0.3 and all(x == int(x) for x in v):
            v = [int(x) for x in v]     # whole numbers as such
            fit = [t for t in (np.int64, np.int32, np.int16)
                   if all(np.iinfo(t).min <= x <= np.iinfo(t).max for x in v)]
            if fit and self.rng.random() < 0.5:
                return np.array(v, dtype=self.rng.choice(fit))
        return self.rng.choice([tuple, list, np.array])(v)


def check(run):
    from opendis.RangeCoordinates import GPS
    gps, pts = GPS(), Points(run.rng)
    for _ in range(run.scale(15000, 300000)):
        forward(run, gps, pts)
    for _ in range(run.scale(15000, 300000)):
        backward(run, gps, pts)
    axes(run, gps, pts)
    for _ in range(run.scale(3000, 60000)):
        relative(run, gps, pts)
    run.need('points seen from an origin', 2000)
    run.need('points to earth-centred', 10000)
    run.need('points to geodetic', 10000)
    run.need('points on the polar axis', 200)


def forward(run, gps, pts):
    rng = run.rng
    lla = pts.lla()
    if rng.random() < 0.1:  # longitudes of more than one turn
        lla = (lla[0], lla[1] + 360 * rng.choice([-1, 1]), lla[2])
    got = gps.lla2ecef(pts.kind(lla, 'lla'))
    want = geo.lla2ecef(math.radians(lla[0]), math.radians(lla[1]), lla[2])
    run.case(('f', lla), {'lla': lla, 'ecef': list(map(float, got))}
             if run.evaluations % 3001 == 3 else None)
    run.see('points to earth-centred')
    d = geo.norm([got[i] - want[i] for i in range(3)])
    if not d <= 2e-8 + 1e-14 * abs(lla[2]):
        run.violation('lla2ecef', f'lla {lla} is put at {tuple(got)}, {d} m '
                      f'from {want}')


def backward(run, gps, pts):
    rng = run.rng
    p = pts.ecef()
    r = geo.norm(p)
    if r < 1e5 or p[0] == 0 and p[1] == 0:
        return
    arg = pts.kind(p, 'p')
    lat, lon, alt = gps.ecef2lla(arg) if rng.random() < 0.8 else \
        gps.ecef2lla(arg, tolerance=10.0 ** rng.uniform(-13, -9))
    run.case(('b', p), {'ecef': p, 'lla': [lat, lon, alt]}
             if run.evaluations % 3001 == 3 else None)
    run.see('points to geodetic')
    if tuple(arg) != tuple(p):
        run.violation('ecef2lla:input', f'ecef2lla changed its argument {p}')
    if not (abs(lat) <= 90 and abs(lon) <= 180 and math.isfinite(alt)):
        run.violation('ecef2lla:range', f'{p} is at lla {lat, lon, alt}')
        return
    want = geo.lla2ecef(math.radians(lat), math.radians(lon), alt)
    d = geo.norm([p[i] - want[i] for i in range(3)])
    if not d <= 1e-4 + 1e-14 * r:
        run.violation('ecef2lla', f'{p} is said to be at lla {lat, lon, alt}, '
                      f'which is {d} m away')
        return
    t = math.degrees(math.atan2(p[1], p[0]))
    if geo.angdiff(lon, t, 360) > 1e-12 * 180 or lat * p[2] < 0 and \
            abs(p[2]) > 1e-3:
        run.violation('ecef2lla:side', f'{p}: latitude {lat}, longitude {lon}')
    if r > 2e5:  # outside the evolute the nearest surface point is unique:
        # the altitude is the distance to the ellipsoid, signed
        m = geo.norm([p[0] / geo.A, p[1] / geo.A, p[2] / geo.B])
        if abs(alt) > 1e-3 and (m - 1) * alt < 0:
            run.violation('ecef2lla:above', f'{p}: altitude {alt}')
    lo, hi = r - geo.A - 1e-3, r - geo.B + 1e-3
    if r > 5e4 and not lo - 1e-9 * r <= alt <= hi + 1e-9 * r:
        run.violation('ecef2lla:altitude', f'{p}: altitude {alt}')


def axes(run, gps, pts):
    rng = run.rng
    for _ in range(run.scale(300, 3000)):
        z = rng.choice([-1, 1]) * rng.choice(
            [geo.B, geo.B + rng.uniform(-1e6, 1e7), 6356752.0, 7e6,
             10.0 ** rng.uniform(5, 9)])
        lat, lon, alt = gps.ecef2lla((rng.choice([0.0, -0.0, 0]),
                                      rng.choice([0.0, -0.0, 0]), z))
        run.case(('axis', z))
        run.see('points on the polar axis')
        if lat != math.copysign(90, z) or abs(lon) > 180 or \
                abs(alt - (abs(z) - geo.B)) > 0.006:
            run.violation('pole', f'(0, 0, {z}) is at lla {lat, lon, alt}')
        for lat in (90, -90, 90.0):
            p = gps.lla2ecef((lat, rng.uniform(-180, 180), alt))
            if abs(p[2] - math.copysign(geo.B + alt, lat)) > 1e-8 + 1e-14 * \
                    abs(alt) or math.hypot(p[0], p[1]) > 1e-6:
                run.violation('pole:forward', f'the pole is put at {p}')
    for x, y, lon in ((1, 0, 0), (0, 1, 90), (-1, 0, 180), (0, -1, -90)):
        for h in (0, 100.0, 35786e3):
            p = gps.lla2ecef((0, lon, h))
            q = gps.ecef2lla((x * (geo.A + h), y * (geo.A + h), 0))
            run.case(('equator', lon, h))
            if geo.norm([p[0] - x * (geo.A + h), p[1] - y * (geo.A + h),
                         p[2]]) > 1e-7 or abs(q[0]) > 1e-10 or geo.angdiff(
                             q[1], lon, 360) > 1e-10 or abs(q[2] - h) > 1e-7:
                run.violation('equator', f'longitude {lon}, {h}: {p}, {q}')


def relative(run, gps, pts):
    """Geocentric positions, and the same seen from a georeferenced origin."""
    rng = run.rng
    a, o = pts.lla(), pts.surface()
    if rng.random() < 0.1:
        a = (a[0], a[1] + 360 * rng.choice([-1, 1]), a[2])
    if rng.random() < 0.1:
        o = (o[0], o[1] + 360 * rng.choice([-1, 1]), o[2])
    p = geo.lla2ecef(math.radians(a[0]), math.radians(a[1]), a[2])
    got = gps.lla2gcc(a)
    run.case(('gcc', a, o))
    tol = 4e-8 + 4e-14 * abs(a[2])
    if geo.norm([got[i] - p[i] for i in range(3)]) > tol:
        run.violation('lla2gcc', f'{a} is put at {got}, not {p}')
    q = geo.lla2ecef(math.radians(o[0]), math.radians(o[1]), o[2])
    sep = rng.choice([' ', ' ', '  ', '\t', '\n'])
    got = gps.lla2gcc(pts.kind(a, 'g'), sep.join(
        ('%.17g' if rng.random() < 0.3 else '%r') % x
        for x in (o[1], o[0], o[2])))
    run.see('points seen from an origin')
    if geo.norm([got[i] - p[i] + q[i] for i in range(3)]) > tol:
        run.violation('lla2gcc:origin', f'{a} from longitude, latitude, '
                      f'altitude {o[1], o[0], o[2]} is put at {got}')
