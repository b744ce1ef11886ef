"""Independent references for the geodesy and dead-reckoning checks, in plain
double arithmetic by other formulas than the code under test uses."""
import ast
import math
import os

from . import core, work

A = 6378137.0
B = 6356752.3142
F = (A - B) / A
E2 = F * (2 - F)


def literals(module):
    """Numbers that occur in a module of the code under test (reach only)."""
    out = set()
    try:
        tree = ast.parse(open(os.path.join(core.REPO, 'opendis', module),
                              encoding='utf-8').read())
    except (OSError, SyntaxError, ValueError):
        return []
    for node in ast.walk(tree):
        for v in work._value(node):
            if v == v and abs(v) < 1e30:
                out.add(float(v))
                out.add(-float(v))
    return sorted(out)


def around(v, rng):
    """A number, or one just beside it."""
    c = rng.random()
    if c < 0.4:
        return v
    if c < 0.5:
        return math.nextafter(v, math.inf)
    if c < 0.6:
        return math.nextafter(v, -math.inf)
    return v + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-12, 0) * \
        max(1.0, abs(v) * 1e-3)


def angle(rng, lits=(), wide=True):
    """Radians, with the special directions and the code's own numbers."""
    c = rng.random()
    if c < 0.15:
        return rng.choice([0.0, -0.0, math.pi / 2, -math.pi / 2, math.pi,
                           -math.pi, math.pi / 4, 2 * math.pi, 3 * math.pi / 2,
                           -3 * math.pi / 4, 1.0, -1.0])
    if c < 0.3:
        return around(rng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi,
                                  -math.pi]), rng)
    if c < 0.42 and lits:
        v = rng.choice(lits)
        if abs(v) < 1000:
            return around(rng.choice([v, math.radians(v)]), rng)
    if c < 0.5:
        return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-12, -1)
    if c < 0.6 and wide:
        return rng.uniform(-50, 50)
    return rng.uniform(-math.pi, math.pi)


def matmul(p, q):
    return [[math.fsum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)]
            for i in range(3)]


def apply(m, v):
    return [math.fsum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def transpose(m):
    return [list(r) for r in zip(*m)]


def rz(t):
    c, s = math.cos(t), math.sin(t)
    return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]


def ry(t):
    c, s = math.cos(t), math.sin(t)
    return [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]


def rx(t):
    c, s = math.cos(t), math.sin(t)
    return [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]


def body_to_world(psi, theta, phi):
    return matmul(matmul(rz(psi), ry(theta)), rx(phi))


def axis_angle(axis, t):
    """Rodrigues, by quaternion."""
    n = math.sqrt(math.fsum(x * x for x in axis))
    x, y, z = (a / n for a in axis)
    w, s = math.cos(t / 2), math.sin(t / 2)
    x, y, z = x * s, y * s, z * s
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x),
             1 - 2 * (x * x + y * y)]]


def ned_axes(lat, lon):
    """North, east and down in ECEF axes, by rotations (radians)."""
    m = matmul(rz(lon), ry(-lat - math.pi / 2))
    return transpose(m)


def lla2ecef(lat, lon, alt):
    """Radians and metres; the prime vertical radius from a and b."""
    c, s = math.cos(lat), math.sin(lat)
    d = math.hypot(A * c, B * s)
    n = A * A / d
    z = B * B / d
    return ((n + alt) * c * math.cos(lon), (n + alt) * c * math.sin(lon),
            (z + alt) * s)


def ecef2lla(p):
    """Radians and metres, by Bowring's iteration on the reduced latitude."""
    x, y, z = p
    w = math.hypot(x, y)
    f = math.atan2(z * A, w * B)
    for _ in range(30):
        lat = math.atan2(z + (A * A - B * B) / B * math.sin(f) ** 3,
                         w - (A * A - B * B) / A * math.cos(f) ** 3)
        f = math.atan2(B * math.sin(lat), A * math.cos(lat))
    c, s = math.cos(lat), math.sin(lat)
    return lat, math.atan2(y, x), w * c + z * s - math.hypot(A * c, B * s)


def norm(v):
    return math.hypot(*v)


def angdiff(a, b, full=2 * math.pi):
    d = math.fmod(a - b, full)
    if d > full / 2:
        d -= full
    if d < -full / 2:
        d += full
    return abs(d)


# ------------------------------------------------------------- UTM, Krueger

N = F / (2 - F)
_n = N
ALPHA = [
    0,
    _n / 2 - 2 * _n**2 / 3 + 5 * _n**3 / 16 + 41 * _n**4 / 180
    - 127 * _n**5 / 288 + 7891 * _n**6 / 37800,
    13 * _n**2 / 48 - 3 * _n**3 / 5 + 557 * _n**4 / 1440 + 281 * _n**5 / 630
    - 1983433 * _n**6 / 1935360,
    61 * _n**3 / 240 - 103 * _n**4 / 140 + 15061 * _n**5 / 26880
    + 167603 * _n**6 / 181440,
    49561 * _n**4 / 161280 - 179 * _n**5 / 168 + 6601661 * _n**6 / 7257600,
    34729 * _n**5 / 80640 - 3418889 * _n**6 / 1995840,
    212378941 * _n**6 / 319334400,
]
RECT = A / (1 + _n) * (1 + _n**2 / 4 + _n**4 / 64 + _n**6 / 256)


def transverse_mercator(lat, dlon):
    """(easting, northing, scale) before false origin, k0 = 0.9996."""
    e = math.sqrt(E2)
    s = math.sin(lat)
    t = math.sinh(math.atanh(s) - e * math.atanh(e * s))
    xi = math.atan2(t, math.cos(dlon))
    eta = math.asinh(math.sin(dlon) / math.hypot(t, math.cos(dlon)))
    x, y = eta, xi
    p, q = 1.0, 0.0
    for j in range(1, 7):
        x += ALPHA[j] * math.cos(2 * j * xi) * math.sinh(2 * j * eta)
        y += ALPHA[j] * math.sin(2 * j * xi) * math.cosh(2 * j * eta)
        p += 2 * j * ALPHA[j] * math.cos(2 * j * xi) * math.cosh(2 * j * eta)
        q += 2 * j * ALPHA[j] * math.sin(2 * j * xi) * math.sinh(2 * j * eta)
    k = 0.9996 * RECT / A * math.hypot(p, q) * math.sqrt(
        1 + (((1 - _n) / (1 + _n)) * math.tan(lat)) ** 2) / \
        math.hypot(t, math.cos(dlon)) * 1.0
    return 0.9996 * RECT * x, 0.9996 * RECT * y, k


BANDS = 'CDEFGHJKLMNPQRSTUVWX'


def band(lat):
    if not -80 <= lat <= 84:
        return 'Z'
    return BANDS[min(19, int(math.floor((lat + 80) / 8)))]


def zone(lat, lon):
    if lon == 180:
        lon = -180.0
    z = int(math.floor((lon + 180) / 6)) + 1
    if 56 <= lat < 64 and 3 <= lon < 12:
        return 32
    if 72 <= lat <= 84 and 0 <= lon < 42:
        return 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return z
