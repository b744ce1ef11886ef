"""G03: an attitude means the same in local and in earth-centred terms."""
import math

from lib import geo
from checks.g01 import Points

RULE = ('a case is one position and attitude converted between local terms '
        '(latitude, longitude, altitude, roll, pitch, yaw) and earth-centred '
        'terms (x, y, z, psi, theta, phi), compared as rotation matrices with '
        'an independent computation; distinct by position and attitude; '
        'non-trivial when some angle is not zero')


def check(run):
    from opendis.RangeCoordinates import GPS
    gps, pts = GPS(), Points(run.rng)
    for _ in range(run.scale(3000, 60000)):
        there(run, gps, pts)
    for _ in range(run.scale(3000, 60000)):
        back(run, gps, pts)
    level(run, gps)
    run.need('attitudes to earth-centred', 1500)
    run.need('attitudes to local', 1500)
    run.need('level attitudes', 20)
    run.need('attitudes at the poles', 40)


def local_matrix(lat, lon, roll, pitch, yaw):
    """Body axes to earth-centred axes."""
    return geo.matmul(geo.transpose(geo.ned_axes(lat, lon)),
                      geo.body_to_world(yaw, pitch, roll))


def difference(a, b):
    return max(abs(a[i][j] - b[i][j]) for i in range(3) for j in range(3))


def angles(rng, lits):
    c = rng.random()
    if c < 0.25:
        v = [0.0] * 3
        v[rng.randrange(3)] = geo.angle(rng, lits)
        return v
    return [geo.angle(rng, lits) for _ in range(3)]


def there(run, gps, pts):
    rng = run.rng
    la, lo, al = pts.surface()
    lat, lon = math.radians(la), math.radians(lo)
    if rng.random() < 0.3:      # round numbers of radians, and metres
        lat, lon = (max(-1.5707, min(1.5707, geo.angle(rng, pts.lits, False))),
                    max(-math.pi, min(math.pi, geo.angle(rng, pts.lits,
                                                         False))))
        al = float(round(al, -rng.randint(0, 4)))
        la, lo = math.degrees(lat), math.degrees(lon)
    elif rng.random() < 0.1:    # longitudes from 0 to 360 degrees, say
        lon += math.tau * rng.choice([-1, 1])
        lo = math.degrees(lon)
    roll, pitch, yaw = angles(rng, pts.lits)
    x, y, z, psi, theta, phi = gps.llarpy2ecef(lat, lon, al, roll, pitch, yaw)
    what = f'lat {lat} lon {lon} alt {al} roll {roll} pitch {pitch} yaw {yaw}'
    run.case(('there', la, lo, roll, pitch, yaw)
             if roll or pitch or yaw else None, what
             if run.evaluations % 997 == 3 else None)
    run.see('attitudes to earth-centred')
    want = geo.lla2ecef(lat, lon, al)
    if geo.norm([x - want[0], y - want[1], z - want[2]]) > 1e-7:
        run.violation('llarpy2ecef:position', f'{what}: put at {x, y, z}, not '
                      f'{want}')
    d = difference(geo.body_to_world(psi, theta, phi),
                   local_matrix(lat, lon, roll, pitch, yaw))
    if not d <= 1e-12 or abs(theta) > math.pi / 2 + 1e-12:
        run.violation('llarpy2ecef', f'{what}: psi {psi} theta {theta} phi '
                      f'{phi} is off by {d}')
        return
    got = gps.ecef2llarpy(x, y, z, psi, theta, phi)
    roundtrip(run, gps, pts, what, (lat, lon, al, roll, pitch, yaw), got)


def roundtrip(run, gps, pts, what, sent, got):
    lat, lon, al, roll, pitch, yaw = sent
    if abs(lat) > math.pi / 2 - 1e-6:
        return
    if abs(got[0] - lat) > 1e-10 or abs(got[2] - al) > 1e-3 or \
            geo.angdiff(got[1], lon) > 1e-9:
        run.violation('roundtrip:position', f'{what} comes back as {got}')
    c = max(math.cos(lat), 1e-9)
    d = difference(geo.body_to_world(got[5], got[4], got[3]),
                   geo.body_to_world(yaw, pitch, roll))
    if not d <= 1e-10 + 1e-14 / c:
        run.violation('roundtrip:attitude', f'{what} comes back as {got}, off '
                      f'by {d}')


def back(run, gps, pts):
    rng = run.rng
    p, (lat, lon, al) = pts.origin()
    c = rng.random()
    if c < 0.03:        # the polar axis, and close to it
        r = 0.0 if c < 0.015 else 10 ** rng.uniform(-9, 1)
        a = geo.angle(rng, pts.lits)
        p = (r * math.cos(a), r * math.sin(a), math.copysign(
            rng.choice([6356752.3142, 6.4e6, rng.uniform(6.3e6, 5e7)]),
            rng.random() - 0.5))
    psi, theta, phi = angles(rng, pts.lits)
    what = f'{p} psi {psi} theta {theta} phi {phi}'
    glat, glon, galt, roll, pitch, yaw = gps.ecef2llarpy(*p, psi, theta, phi)
    run.case(('back', p, psi, theta, phi), what
             if run.evaluations % 997 == 3 else None)
    run.see('attitudes to local')
    if abs(lat) > math.pi / 2 - 2e-8 or c < 0.03:   # the place is G01's
        run.see('attitudes at the poles')
        if abs(glat - math.copysign(math.pi / 2, p[2])) > 1e-5:
            run.violation('ecef2llarpy:pole', f'{what}: at latitude {glat}')
            return
    elif abs(glat - lat) > 1e-10 or abs(galt - al) > 1e-3 or \
            geo.angdiff(glon, lon) > 1e-9:
        run.violation('ecef2llarpy:position', f'{what}: at {glat, glon, galt},'
                      f' not {lat, lon, al}')
        return
    # compare at the position reported: its own tolerance is G01's
    d = difference(local_matrix(glat, glon, roll, pitch, yaw),
                   geo.body_to_world(psi, theta, phi))
    if not d <= 1e-12 or abs(pitch) > math.pi / 2 + 1e-12:
        run.violation('ecef2llarpy', f'{what}: roll {roll} pitch {pitch} yaw '
                      f'{yaw} is off by {d}')


def level(run, gps):
    """What an observer sees: nose on the horizon towards the heading."""
    for la in (-80, -36.6, 0, 1e-9, 36.6, 51.5, 84):
        for lo in (-180, -121.9, 0, 45, 180):
            for hd in (0, 45, 90, 180, 270, -90):
                lat, lon, yaw = map(math.radians, (la, lo, hd))
                r = gps.llarpy2ecef(lat, lon, 10.0, 0, 0, yaw)
                m = geo.body_to_world(*r[3:])
                nose = [m[i][0] for i in range(3)]
                wing = [m[i][1] for i in range(3)]
                n, e, d = geo.ned_axes(lat, lon)
                dot = lambda u, v: math.fsum(a * b for a, b in zip(u, v))
                run.case(('level', la, lo, hd))
                run.see('level attitudes')
                if abs(dot(nose, n) - math.cos(yaw)) > 1e-9 or \
                        abs(dot(nose, e) - math.sin(yaw)) > 1e-9 or \
                        abs(dot(nose, d)) > 1e-9 or abs(dot(wing, d)) > 1e-9:
                    run.violation('level', f'level at {la}, {lo} heading {hd}:'
                                  f' {r[3:]}')
