"""E02: the example programs say what is true."""
import contextlib
import io
import math
import os
import re
import socket
import time

from lib import core, geo, wire, work

RULE = ('a case is one datagram handed to the example receiver, one datagram '
        'taken from the example sender, or one line of the example '
        'dead-reckoning demonstration, each run unmodified with a stand-in '
        'for the network and the clock, and judged on what it prints or '
        'sends; distinct by octets or line; non-trivial when something is '
        'reported')


class Stop(BaseException):
    """Ends an example's endless loop."""


class StubSocket:
    def __init__(self, *a, **k):
        self.incoming, self.outgoing, self.budget = [], [], 1

    def __getattr__(self, name):
        if name in ('setsockopt', 'bind', 'settimeout', 'close', 'connect'):
            return lambda *a: None
        raise AttributeError(name)

    def recv(self, n, *a):
        if not self.incoming:
            raise Stop
        self.asked = n
        return self.incoming.pop(0)[:n]

    def recvfrom(self, n, *a):
        return self.recv(n), ('127.0.0.1', 3001)

    def sendto(self, data, *a):
        self.outgoing.append(bytes(data))
        if len(self.outgoing) >= self.budget:
            raise Stop
        return len(data)

    def send(self, data, *a):
        return self.sendto(data)


@contextlib.contextmanager
def world():
    """The network and the clock, as the examples see them."""
    made = []

    def factory(*a, **k):
        made.append(StubSocket())
        return made[-1]
    saved = socket.socket, time.sleep
    socket.socket, time.sleep = factory, lambda s: None
    try:
        yield made
    finally:
        socket.socket, time.sleep = saved


def load(name, made):
    path = os.path.join(core.REPO, 'examples', name)
    space = {'__name__': 'example', '__file__': path}
    with open(path, encoding='utf-8') as f:
        exec(compile(f.read(), path, 'exec'), space)
    return space


def printed(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            f(*a)
        except Stop:
            pass
    return out.getvalue()


def received(run, space, rx, data):
    """What the receiver prints of a datagram, or None when it dies."""
    rx.incoming.append(data)
    try:
        return printed(space['recv'])
    except Exception as e:
        known = len(data) >= 3 and data[2] in wire.TYPE_OF_CLASS.values()
        cut = known and len(data) > 1024 and rx.asked == 1024
        run.violation('report:cut-at-1024' if cut else
                      'report:unknown-type-dies' if not known and
                      isinstance(e, AttributeError) else 'report:dies',
                      f'it dies of a datagram of type {data[2:3].hex()} and '
                      f'{len(data)} octets: {core.exc_text(e)}',
                      {'octets': data})
        return None


def check(run):
    b = wire.Bridge()
    with world() as made:
        space = {}
        printed(lambda: space.update(load('dis_receiver.py', made)))
        rx = made[-1]
        entities(run, b, space, rx)
        others(run, b, space, rx)
        sender(run, b, made, space, rx)
        demo(run, made)
    run.need('entities reported', 1000)
    run.need('other PDUs reported', 500)
    run.need('unknown PDUs tried', 50)
    run.need('PDUs of 1025 to 8192 octets', 10)
    run.need('datagrams sent', 3)
    run.need('extrapolations printed', 10)


LINE = {k: re.compile(rf'^\s*{k}\s*:\s*(-?[\d.]+(?:e[+-]?\d+)?)', re.M)
        for k in ('Id', 'Latitude', 'Longitude', 'Altitude', 'Yaw', 'Pitch',
                  'Roll')}


def entities(run, b, space, rx):
    from opendis.RangeCoordinates import GPS
    rng, gps = run.rng, GPS()
    w = work.Workload(run)
    w.setup('EntityStatePdu')
    for k in range(run.scale(2000, 20000)):
        m = w.one('EntityStatePdu')
        lat, lon = rng.uniform(-89, 89), rng.uniform(-179.9, 179.9)
        alt = rng.choice([1.0, rng.uniform(-400, 40000)])
        roll, pitch, yaw = (rng.uniform(-179, 179), rng.uniform(-80, 80),
                            rng.uniform(-179, 179))
        if rng.random() < 0.3:
            roll, pitch, yaw = rng.choice([(30.0, 0.0, 0.0), (0.0, 20.0, 0.0),
                                           (0.0, 0.0, 120.0), (1.0, 2.0, 3.0)])
        state = [math.radians(lat), math.radians(lon), alt,
                 math.radians(roll), math.radians(pitch), math.radians(yaw)]
        x, y, z, psi, theta, phi = gps.llarpy2ecef(*state)
        m['entityLocation'].update(x=x, y=y, z=z)
        m['entityOrientation'].update(psi=psi, theta=theta, phi=phi)
        data = wire.encode(m)
        text = received(run, space, rx, data)
        if text is None:
            continue
        run.case(data, {'printed': text} if k % 401 == 3 else None)
        run.see('entities reported')
        got = {}
        for name, rex in LINE.items():
            f = rex.search(text)
            if f is None:
                run.violation('report:missing', f'no {name} in {text!r}')
                return
            got[name] = float(f.group(1))
        if 'EntityStatePdu' not in text or \
                got['Id'] != m['entityID']['entityNumber']:
            run.violation('report:identity', f'entity '
                          f'{m["entityID"]["entityNumber"]}: {text!r}')
        yaw_, roll_ = yaw, roll
        if max(geo.angdiff(got['Yaw'], yaw, 360.0),
               geo.angdiff(got['Roll'], roll, 360.0)) > 0.007 and \
                max(geo.angdiff(got['Yaw'], roll, 360.0),
                    geo.angdiff(got['Roll'], yaw, 360.0)) < 0.007:
            run.violation('report:yaw-and-roll-swapped', f'yaw {yaw} and roll '
                          f'{roll}: {text!r}', {'octets': data})
            yaw_, roll_ = roll, yaw
        for name, want, tol in (('Latitude', lat, 0.0051),
                                ('Longitude', lon, 0.0051),
                                ('Altitude', alt, 0.51), ('Yaw', yaw_, 0.006),
                                ('Pitch', pitch, 0.006),
                                ('Roll', roll_, 0.006)):
            d = abs(got[name] - want)
            if name in ('Yaw', 'Roll', 'Longitude'):
                d = geo.angdiff(got[name], want, 360.0)
            # 32-bit attitude, amplified towards the nose-up singularity
            if d > tol + 3e-5:
                run.violation(f'report:{name}', f'{name} {want} is reported as'
                              f' {got[name]}: {text!r}', {'octets': data})


def others(run, b, space, rx):
    rng = run.rng
    w = work.Workload(run)
    for cls in wire.PDUS:
        if cls == 'EntityStatePdu':
            continue
        w.setup(cls)
        models = [w.one(cls) for _ in range(run.scale(12, 100))]
        models += list(w.with_lengths(cls, 70))
        for m in models:
            data = wire.encode(m)
            if len(data) > 8192:
                continue
            run.see('PDUs of 1025 to 8192 octets', len(data) > 1024)
            text = received(run, space, rx, data)
            run.case(data)
            run.see('other PDUs reported')
            if text is not None and len(data) > rx.asked == 1024:
                run.violation('report:cut-at-1024', f'a {cls} of {len(data)} '
                              f'octets is reported as {text!r}')
            elif text is not None and f'Received {cls}, {len(data)} bytes' not in text:
                run.violation('report:class', f'a {cls} of {len(data)} octets '
                              f'is reported as {text!r}', {'octets': data})
    for t in range(256):
        if t in wire.TYPE_OF_CLASS.values():
            continue
        data = bytes([7, 1, t, 1]) + rng.randbytes(rng.choice([8, 60, 2000]))
        text = received(run, space, rx, data)
        run.case(data)
        run.see('unknown PDUs tried')
        if text is not None and str(len(data)) not in text:
            run.violation('report:unknown', f'a PDU of unknown type {t} and '
                          f'{len(data)} octets is reported as {text!r}')


def sender(run, b, made, receiver, rx):
    """What the sender sends is what its text says, and so the receiver says."""
    n = len(made)
    space = load('dis_sender.py', made)
    tx = made[-1]
    if len(made) == n:
        raise RuntimeError('the sender opened no socket')
    tx.budget = 5
    text = printed(space['send'])
    for data in tx.outgoing:
        run.case(data)
        run.see('datagrams sent')
        p = b.factory.createPdu(data)
        i = p.entityID
        if type(p).__name__ != 'EntityStatePdu' or (
                i.simulationAddress.site, i.simulationAddress.application,
                i.entityNumber) != (17, 23, 42) or \
                p.marking.charactersString() != 'Igor3d':
            run.violation('sender', f'it sends {data.hex()}')
            return
        q = p.entityLocation
        want = geo.lla2ecef(math.radians(36.6), math.radians(-121.9), 1.0)
        if geo.norm([q.x - want[0], q.y - want[1], q.z - want[2]]) > 1e-3:
            run.violation('sender:position', f'Monterey is sent as '
                          f'{q.x, q.y, q.z}, not {want}')
        if f'{len(data)} bytes' not in text:
            run.violation('sender:report', f'{len(data)} octets: {text!r}')
        rx.incoming.append(data)
        said = printed(receiver['recv'])
        for line in ('Latitude  : 36.60', 'Longitude : -121.90',
                     'Altitude  : 1 ', 'Id        : 42'):
            if line not in said:
                run.violation('sender:received', f'{line} is not in {said!r}')
        for name in ('Yaw', 'Pitch', 'Roll'):
            f = LINE[name].search(said)
            if f is None or abs(float(f.group(1))) > 0.01:
                run.violation('sender:received', f'{name}: {said!r}')


def demo(run, made):
    text = printed(load('dis_dead_reckoning.py', made)['run_demo'])
    rows = re.findall(r'Time: ([\d.]+)s \| Extrapolated Pos: \[([^\]]*)\]',
                      text)
    for t, pos in rows:
        t, pos = float(t), [float(v) for v in pos.split()]
        run.case(('demo', t), f'{t} {pos}' if t == 2.0 else None)
        run.see('extrapolations printed')
        want = [10 * t + t * t / 2, 0.0, 0.0]
        if max(abs(pos[i] - want[i]) for i in range(3)) > 1e-4:
            run.violation('demo', f'at {t} s it prints {pos}, not {want}')
    f = re.search(r'Final ECEF: \(([^)]*)\)', text)
    g = re.search(r'Final LLA: \(([^)]*)\)', text)
    if f is None or g is None:
        run.violation('demo:end', f'it ends with {text[-200:]!r}')
        return
    p = [float(re.sub(r'np\.float64\(|\)', '', v)) for v in
         f.group(1).replace('np.float64(', '').split(',')]
    lat, lon, alt = (float(v) for v in g.group(1).split(','))
    run.case(('demo', 'end'))
    q = geo.lla2ecef(math.radians(lat), math.radians(lon), alt)
    run.sample_text = text[-300:]
    if geo.norm([p[i] - q[i] for i in range(3)]) > 0.5:
        run.violation('demo:end', f'{p} is printed as {lat, lon, alt}')
