"""G04: UTM coordinates, zones and scale are those of the projection."""
import math

from lib import geo
from checks.g01 import Points

RULE = ('a case is one geodetic point projected by the real code and by an '
        'independent series of higher order (Krueger), and its grid zone by an '
        'independent rule; distinct by point; non-trivial off the central '
        'meridian')


def check(run):
    from opendis.RangeCoordinates import GPS
    gps, pts = GPS(), Points(run.rng)
    for _ in range(run.scale(12000, 250000)):
        project(run, gps, pts, point(pts))
    edges(run, gps, pts)
    for _ in range(run.scale(4000, 60000)):
        from_ecef(run, gps, pts)
    letters(run, gps, pts)
    run.need('points projected', 8000)
    run.need('longitudes of more than one turn', 500)
    run.need('zones seen', 1)
    run.observed['zones seen'] = len(ZONES)
    run.need('zones seen', 1000)
    run.need('latitude bands', 2000)
    run.need('points from earth-centred', 2000)


ZONES = set()


def point(pts):
    r = pts.rng
    c = r.random()
    while True:
        la, lo, al = pts.lla()
        if c < 0.15:  # the irregular zones
            la, lo = r.choice([(56, 0), (63.99, 3), (72, 0), (84, 9), (64, 6),
                               (72, 21), (80, 33), (71.99, 42), (60, 12)])
            la = min(84, la + r.uniform(-2, 2))
            lo += r.uniform(-6, 6)
        elif c < 0.25:  # each side of a meridian between zones
            lo = r.randrange(-30, 30) * 6 + r.choice([-1, 1]) * 10.0 ** \
                r.uniform(-7, 0)
        elif c < 0.5:
            la, lo = r.uniform(-80, 84), r.uniform(-180, 180)
        if -80 <= la <= 84 and -180 <= lo <= 180:
            return la, lo, al
        c = 1 if r.random() < 0.5 else c


def border(v, n):
    """Not on a multiple of n, but too close to one to tell the side."""
    return 0 != abs(math.remainder(v, n)) < 1e-8


def project(run, gps, pts, lla):
    lat, lon, alt = lla
    if border(lon, 3) or border(lat, 8):
        return  # which side of a border rounding puts it is anyone's
    said = lla
    if pts.rng.random() < 0.15:     # the same meridian, turns away
        said = (lat, lon + 360 * pts.rng.choice([-2, -1, -1, 1, 1, 2]), alt)
        if border(said[1], 3) or (said[1] - lon) % 360 and \
                not math.remainder(said[1], 3):
            return
        run.see('longitudes of more than one turn')
    (x, y, up), (name, k) = gps.lla2utm(pts.kind(said, 'lla'))
    judge(run, 'lla2utm', lla, x, y, up, name, k)
    run.see('points projected')


def judge(run, what, lla, x, y, up, name, k, slack=0.0):
    lat, lon, alt = lla
    z = geo.zone(lat, lon)
    d = (-180 if lon == 180 else lon) - (6 * z - 183)
    ex, ny, sc = geo.transverse_mercator(math.radians(lat), math.radians(d))
    ex += 500000
    if lat < 0:
        ny += 10000000
    ZONES.add(name)
    run.case((what, lla) if d else None,
             {'lla': lla, 'utm': [float(x), float(y), name, float(k)]}
             if run.evaluations % 2999 == 3 else None)
    want = f'{z}{geo.band(lat)}'
    if name != want:
        run.violation(f'{what}:zone', f'{lla} is in zone {name}, not {want}')
        return
    # the series of the code is of the sixth order: millimetres
    tx = min(1e-3, 1e-7 + 3e-4 * (abs(d) / 3) ** 7) + slack
    ty = 1.2e-3 + slack
    if not abs(x - ex) <= tx or not abs(y - ny) <= ty:
        run.violation(f'{what}:position', f'{lla}: easting {x}, northing {y}, '
                      f'not {ex}, {ny}')
    if not abs(k - sc) <= 6e-10:
        run.violation(f'{what}:scale', f'{lla}: scale {k}, not {sc}')
    if not abs(up - alt) <= slack:
        run.violation(f'{what}:up', f'{lla}: up {up}')


def edges(run, gps, pts):
    """Borders of zones and bands, exactly on whole degrees."""
    lats = list(range(-80, 85, 4)) + [56, 63, 71, 73, 83, 84, -1, 1, 0.0,
                                      -0.5, 0.5, 83.9, 71.9, 55.9]
    for lat in lats:
        for lon in range(-180, 181, run.scale(3, 1)):
            project(run, gps, pts, (lat, lon, 0))


def from_ecef(run, gps, pts):
    lla = point(pts)
    lat, lon, alt = lla
    if abs(math.remainder(lon, 3)) < 1e-8 or \
            abs(math.remainder(lat, 8)) < 1e-8 or \
            alt < -3e6 or abs(lat) < 1e-6 or abs(lon) > 180 - 1e-8:
        return
    p = geo.lla2ecef(math.radians(lat), math.radians(lon), alt)
    if pts.rng.random() < 0.4:
        p = pts.snapped(p, 5e6)
        a, o, alt = geo.ecef2lla(p)
        lat, lon = math.degrees(a), math.degrees(o)
        lla = lat, lon, alt
        if not -80 < lat < 84 or abs(lon) > 180 - 1e-8 or \
                lon and abs(math.remainder(lon, 3)) < 1e-8 or \
                lat and abs(math.remainder(lat, 8)) < 1e-8:
            return
    (x, y, up), (name, k) = gps.ecef2utm(pts.kind(p, 'p'))
    if lat == 0 and name[-1:] == 'M':   # the last point of the south
        y, name = y - 1e7, name[:-1] + 'N'
    run.see('points from earth-centred')
    judge(run, 'ecef2utm', lla, x, y, up, name, k,
          slack=1e-3 + 1e-9 * abs(alt))


def letters(run, gps, pts):
    rng = run.rng
    lats = list(range(-90, 91)) + [rng.uniform(-90, 90) for _ in range(3000)]
    lats += [84.0001, -80.0001, 84.5, -85.25]
    for lat in lats:
        if border(lat, 8):
            continue
        got = gps.utmLetterDesignator(lat)
        run.see('latitude bands')
        run.case(('letter', lat))
        if got != geo.band(lat):
            run.violation('letter', f'latitude {lat} is in band {got}, not '
                          f'{geo.band(lat)}')
