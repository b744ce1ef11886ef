"""G05: rotations, angles and distances behave as in space."""
import math

from lib import geo
from checks.g01 import Points, relative

RULE = ('a case is one rotation, angle, distance or axis frame computed by '
        'the real code and compared with an independent computation; distinct '
        'by function and arguments; non-trivial when not all are zero')


def check(run):
    import numpy as np
    from opendis import DeadReckoning as DR
    from opendis import RangeCoordinates as RC
    gps, pts = RC.GPS(), Points(run.rng)
    pts.drlits = geo.literals('DeadReckoning.py')
    for _ in range(run.scale(4000, 60000)):
        about_axis(run, np, gps, pts)
        euler(run, DR, pts)
        skew(run, DR, pts)
        frame(run, gps, pts)
        plain(run, RC, pts)
        relative(run, gps, pts)
    constants(run, RC)
    run.need('rotations compared', 7000)
    run.need('axes in other forms', 1500)
    run.need('frames compared', 3000)
    run.need('angles and distances', 3000)


def mat(m):
    return [[float(m[i][j]) for j in range(3)] for i in range(3)]


def off(a, b):
    return max(abs(a[i][j] - b[i][j]) for i in range(3) for j in range(3))


def unit(rng):
    c = rng.random()
    if c < 0.3:
        v = [0.0] * 3
        v[rng.randrange(3)] = rng.choice([1.0, -1.0])
        return v
    while True:
        v = [rng.gauss(0, 1) * rng.choice([1, 1, 1e-6]) for _ in range(3)]
        n = geo.norm(v)
        if n > 1e-12:
            return [x / n for x in v]


def about_axis(run, np, gps, pts):
    rng = run.rng
    v, t = unit(rng), geo.angle(rng, pts.lits)
    got = mat(gps.rotate_3x3(t, np.array(v)))
    run.case(('axis', tuple(v), t), {'axis': v, 'angle': t}
             if run.evaluations % 4001 == 3 else None)
    run.see('rotations compared')
    d = off(got, geo.axis_angle(v, t))
    if not d <= 4e-14 * (1 + 0.05 * abs(t)) * 2:
        run.violation('rotate_3x3', f'rotation by {t} about {v} is off by {d}')
    if rng.random() < 0.2:  # the 3x1 column of the documentation, and a list
        for form in (np.array([[x] for x in v]), list(v), tuple(v)):
            d = off(mat(gps.rotate_3x3(t, form)), geo.axis_angle(v, t))
            run.see('axes in other forms')
            if not d <= 4e-14 * (1 + 0.05 * abs(t)) * 2:
                run.violation('rotate_3x3:form', f'rotation by {t} about '
                              f'{form!r} is off by {d}')
    if rng.random() < 0.1:  # the columns of a list or whole numbers
        w = [0, 0, 0]
        w[rng.randrange(3)] = rng.choice([1, -1])
        d = off(mat(gps.rotate_3x3(t, np.array(w))), geo.axis_angle(w, t))
        if d > 1e-13:
            run.violation('rotate_3x3', f'rotation by {t} about {w} is off by '
                          f'{d}')


def euler(run, DR, pts):
    rng = run.rng
    a = [geo.angle(rng, pts.drlits) for _ in range(3)]
    if rng.random() < 0.3:
        k = rng.randrange(3)
        a = [x if i == k else 0.0 for i, x in enumerate(a)]
    got = mat(DR.get_rotation_matrix(*a))
    run.case(('euler', tuple(a)) if any(a) else None)
    run.see('rotations compared')
    d = off(got, geo.body_to_world(*a))
    if not d <= 2e-14:
        run.violation('get_rotation_matrix', f'attitude {a}: off by {d}')
    d = off(geo.matmul(got, geo.transpose(got)),
            [[1.0 * (i == j) for j in range(3)] for i in range(3)])
    if d > 1e-13:
        run.violation('get_rotation_matrix:orthogonal', f'attitude {a}: {d}')


def skew(run, DR, pts):
    rng = run.rng
    w = [rng.choice([0.0, 1.0, -2.5, 10.0 ** rng.uniform(-9, 6),
                     -10.0 ** rng.uniform(-9, 6)]) for _ in range(3)]
    v = [rng.uniform(-1e3, 1e3) for _ in range(3)]
    m = mat(DR.get_angular_velocity_matrix(pts.kind(w, 'w')))
    run.case(('skew', tuple(w)) if any(w) else None)
    got = geo.apply(m, v)
    want = [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2],
            w[0] * v[1] - w[1] * v[0]]
    s = geo.norm(w) * geo.norm(v)
    if any(abs(got[i] - want[i]) > 1e-13 * s for i in range(3)) or \
            any(m[i][j] != -m[j][i] for i in range(3) for j in range(3)):
        run.violation('get_angular_velocity_matrix', f'{w} x {v} is {got}, not'
                      f' {want}')


def frame(run, gps, pts):
    rng = run.rng
    lat = geo.angle(rng, pts.lits, wide=False)
    lon = geo.angle(rng, pts.lits)
    lat = max(-math.pi / 2, min(math.pi / 2, lat))
    got = mat(gps.ecefvec2nedvec(lat, lon))
    run.case(('frame', lat, lon))
    run.see('frames compared')
    d = off(got, geo.ned_axes(lat, lon))
    if not d <= 4e-14:
        run.violation('ecefvec2nedvec', f'axes at {lat}, {lon} are off by {d}')


def plain(run, RC, pts):
    rng = run.rng
    v = rng.choice([rng.uniform(-720, 720), geo.around(rng.choice(pts.lits),
                                                       rng),
                    rng.choice([-1, 1]) * 10.0 ** rng.uniform(-15, 15)])
    run.case(('plain', v) if v else None)
    run.see('angles and distances')
    for f, w in ((RC.deg2rad, math.radians(v)), (RC.rad2deg, math.degrees(v))):
        if not abs(f(v) - w) <= 4e-15 * abs(w):
            run.violation(f.__name__, f'{f.__name__}({v}) is {f(v)}, not {w}')
    n = rng.choice([1, 2, 3, 3, 4, 7])
    a = [rng.choice([-1, 0, 1]) * 10.0 ** rng.uniform(-3, 8)
         for _ in range(n)]
    b = [rng.uniform(-1e7, 1e7) for _ in range(n)]
    for got, want in ((RC.euclideanDistance(pts.kind(a, 'c')), math.hypot(*a)),
                      (RC.euclideanDistance(pts.kind(a, 'a'), pts.kind(b, 'b')),
                       math.dist(a, b)),
                      (RC.euclideanDistance(b, b), 0.0)):
        if not abs(got - want) <= 2e-14 * want:
            run.violation('euclideanDistance', f'{a} {b}: {got}, not {want}')


def constants(run, RC):
    w = RC.WGS84()
    run.case(('wgs84',))
    for name, want, tol in (('a', 6378137.0, 0), ('b', 6356752.3142, 1e-4),
                            ('f', 1 / 298.257223563, 1e-11),
                            ('e', 0.0818191908426, 2e-10),
                            ('c', 299792458.0, 0),
                            ('mu', 3.986005e14, 0),
                            ('omega_ie', 7.2921151467e-5, 0)):
        if abs(getattr(w, name) - want) > tol:
            run.violation(f'WGS84.{name}', f'{getattr(w, name)}, not {want}')
    for d in range(-90, 91):
        s = math.sin(math.radians(d)) ** 2
        want = 9.7803253359 * (1 + 0.00193185265241 * s) / math.sqrt(
            1 - 0.00669437999013 * s)
        got = w.g0(math.radians(d))
        run.case(('g0', d))
        if abs(got - want) > 1e-4:
            run.violation('g0', f'gravity at {d} degrees is {got}, not {want}')
