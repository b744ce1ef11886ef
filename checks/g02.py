"""G02: local tangent-plane coordinates are the same displacement, in axes of
north, east and down."""
import math

from lib import geo
from checks.g01 import Points

RULE = ('a case is one origin and one point, related through the local north, '
        'east and down axes and through range, azimuth and elevation by the '
        'real code and by an independent computation; distinct by origin and '
        'point; non-trivial when they differ')


def check(run):
    from opendis.RangeCoordinates import GPS
    gps, pts = GPS(), Points(run.rng)
    for _ in range(run.scale(8000, 150000)):
        tangent(run, gps, pts)
    for _ in range(run.scale(8000, 100000)):
        pae(run, gps, pts)
    poles(run, gps, pts)
    run.need('displacements compared', 6000)
    run.need('directions compared', 6000)
    run.need('origins on the polar axis', 100)


def displacement(rng, lits=()):
    c = rng.random()
    if rng.random() < 0.3:              # round numbers and the code's own
        v = displacement(rng)
        if lits and rng.random() < 0.5:
            v[rng.randrange(3)] = geo.around(rng.choice(lits), rng)
        if rng.random() < 0.7:
            k = rng.choice([0, 0, -1, -2, -3, -5, 2])
            v = [round(x, k) for x in v]
        if rng.random() < 0.2:
            k = rng.choice([1e2, 1e3])
            v = [x * k for x in v]
        return v
    if c < 0.05:
        return [0.0, 0.0, 0.0]
    if c < 0.3:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, 7)
        return v
    if c < 0.4:                         # nearly along one axis
        k = 10.0 ** rng.uniform(-1, 6.5)
        v = [k * 10.0 ** rng.uniform(-9, -3) * rng.choice([-1, 1])
             for _ in range(3)]
        v[rng.randrange(3)] = k * rng.choice([-1, 1])
        return v
    v = [rng.gauss(0, 1) for _ in range(3)]
    k = 10.0 ** rng.uniform(-2, 7.5) / geo.norm(v)
    return [x * k for x in v]


def tangent(run, gps, pts):
    rng = run.rng
    org, (lat, lon, alt) = pts.origin()
    lla = math.degrees(lat), math.degrees(lon), alt
    ned = displacement(rng, pts.lits)
    ax = geo.ned_axes(lat, lon)
    point = [org[i] + math.fsum(ax[k][i] * ned[k] for k in range(3))
             for i in range(3)]
    if rng.random() < 0.3:
        point = list(pts.snapped(point, 0.0))
        away = [point[i] - org[i] for i in range(3)]
        ned = [math.fsum(ax[k][i] * away[i] for i in range(3))
               for k in range(3)]
    size = geo.norm(ned)
    # near the poles east and north turn quickly with position
    tol = 1e-7 + size * (3e-11 + 3e-15 / max(math.cos(lat), 1e-12))
    tol = min(tol, 1e-6 + 1e-4 * size) if abs(lla[0]) < 89.999 else tol
    run.case((lla, tuple(ned)), {'origin lla': lla, 'ned': ned}
             if run.evaluations % 1999 == 3 else None)
    run.see('displacements compared')
    a, b = pts.kind(point, 'point'), pts.kind(org, 'org')
    got = gps.ecef2ned(a, b)
    d = geo.norm([got[i] - ned[i] for i in range(3)])
    if not d <= tol:
        run.violation('ecef2ned', f'from {lla}, {ned} north, east, down: given '
                      f'as {[float(x) for x in got]}, off by {d} m')
    back = gps.ned2ecef(pts.kind(ned, 'ned'), b)
    d = geo.norm([back[i] - point[i] for i in range(3)])
    if not d <= tol:
        run.violation('ned2ecef', f'from {lla}, {ned} north, east, down: put '
                      f'at {[float(x) for x in back]}, off by {d} m')
    back = gps.ned2ecef(got, b)
    d = geo.norm([back[i] - point[i] for i in range(3)])
    if not d <= 1e-7 + 1e-13 * size:
        run.violation('ned:there-and-back', f'from {lla}: {point} comes back '
                      f'as {[float(x) for x in back]}')
    if tuple(a) != tuple(point) or tuple(b) != tuple(org):
        run.violation('ned:input', 'an argument was changed')
    p, az, el = gps.ecef2pae(a, b)
    if size > 1e-2:
        direction(run, 'ecef2pae', ned, p, az, el, tol, str(lla))


def direction(run, what, ned, p, az, el, tol, where=''):
    size = geo.norm(ned)
    e, a = math.radians(el), math.radians(az)
    back = [p * math.cos(e) * math.cos(a), p * math.cos(e) * math.sin(a),
            -p * math.sin(e)]
    d = geo.norm([back[i] - ned[i] for i in range(3)])
    run.see('directions compared')
    if abs(p - size) > tol or d > tol + 1e-14 * size or abs(el) > 90 or \
            not -180 <= az <= 360:
        run.violation(what, f'{where} {ned} north, east, down: range {p}, '
                      f'azimuth {az}, elevation {el}')


def pae(run, gps, pts):
    rng = run.rng
    ned = displacement(rng, pts.lits)
    if rng.random() < 0.1:
        ned = [float(rng.randint(-3, 3)) for _ in range(3)]
    size = geo.norm(ned)
    arg = pts.kind(ned, 'pae')
    p, az, el = gps.ned2pae(arg)
    run.case(('pae', tuple(ned)), {'ned': ned, 'pae': [p, az, el]}
             if run.evaluations % 1999 == 3 else None)
    if tuple(arg) != tuple(ned):
        run.violation('pae:input', f'ned2pae changed its argument {ned}')
    direction(run, 'ned2pae', ned, p, az, el, 4e-14 * size + 1e-300)
    for v, want in (((1, 0, 0), (1, 0, 0)), ((0, 1, 0), (1, 90, 0)),
                    ((0, -1, 0), (1, -90, 0)), ((-1, 0, 0), (1, 180, 0)),
                    ((0, 0, -1), (1, 0, 90)), ((0, 0, 1), (1, 0, -90))):
        if rng.random() < 0.02:
            got = gps.ned2pae(v)
            if abs(got[0] - 1) > 1e-12 or geo.angdiff(
                    got[1], want[1], 360) > 1e-9 and want[2] == 0 or \
                    abs(got[2] - want[2]) > 1e-9:
                run.violation('ned2pae:axis', f'{v}: {got}, not {want}')


def poles(run, gps, pts):
    """On the polar axis north is anyone's; up and distances are not."""
    rng = run.rng
    for _ in range(run.scale(150, 2000)):
        z = rng.choice([-1, 1]) * (geo.B + rng.uniform(-100, 1e5))
        org = (0.0, 0.0, z)
        d = displacement(rng)
        point = [d[0], d[1], z + d[2]]
        size = geo.norm(d)
        ned = gps.ecef2ned(point, org)
        run.case(('pole', z, tuple(d)))
        run.see('origins on the polar axis')
        back = gps.ned2ecef(ned, org)
        if abs(ned[2] + math.copysign(1, z) * (point[2] - z)) > 1e-8 + \
                1e-13 * size or abs(geo.norm(ned) - geo.norm(
                    [d[0], d[1], point[2] - z])) > 1e-8 + 1e-13 * size or \
                geo.norm([back[i] - point[i] for i in range(3)]) > \
                1e-8 + 1e-13 * size:
            run.violation('ned:pole', f'from {org}: {point} is at '
                          f'{[float(x) for x in ned]}')
