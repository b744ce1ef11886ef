"""E01: a federation's picture of the world survives a real, faulty network."""
import copy
import io
import math
import socket
import struct
import threading
import time

from lib import dr, geo, wire, work

RULE = ('a case is one datagram received over a UDP socket from concurrent '
        'senders through injected faults (loss, duplication, reordering, '
        'truncation, unknown types), judged offline against the log of what '
        'was sent: the object decoded, the entity table kept from it, where '
        'the entity is and is extrapolated to, and the octets relayed; '
        'distinct by octets; non-trivial when a fault or another sender '
        'intervened')

MOVES = {1: 'drm_static', 2: 'drm_fpw', 3: 'drm_rpw', 4: 'drm_rvw',
         5: 'drm_fvw', 6: 'drm_fpb', 7: 'drm_rpb', 8: 'drm_rvb', 9: 'drm_fvb'}
SENDERS = 3
HEADER = ('protocolVersion', 'exerciseID', 'pduStatus', 'radioReferenceID',
          'radioNumber')


def check(run):
    b = wire.Bridge()
    for k in range(run.scale(3, 40)):
        federation(run, b, k, run.scale(350, 900))
    run.need('datagrams received', 1500)
    run.need('entity states received', 500)
    run.need('positions extrapolated', 500)
    run.need('truncated datagrams refused', 30)
    run.need('unknown types ignored', 20)
    run.need('duplicates', 30)
    run.need('reordered', 30)
    run.need('other PDU types received', 300)
    run.need('relayed twice', 500)
    run.need('sender switches', 100)


def pipe():
    """A real datagram channel: UDP over loopback."""
    try:
        rx = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        rx.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        rx.bind(('127.0.0.1', 0))
        tx = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        tx.connect(rx.getsockname())
    except OSError:
        rx, tx = socket.socketpair(socket.AF_UNIX, socket.SOCK_DGRAM)
    rx.settimeout(0.3)
    return rx, tx


class Sender(threading.Thread):
    """A simulation host with entities of its own, sending through faults."""

    def __init__(self, run, b, n, count, tx, lag, seed):
        super().__init__(daemon=True)
        import random
        self.rng = random.Random(seed)
        self.b, self.n, self.count, self.tx, self.lag = b, n, count, tx, lag
        self.sent = {}        # octets -> what they are
        self.error = None
        from opendis.RangeCoordinates import GPS
        self.gps = GPS()
        self.held, self.last = [], None

        class Quiet:          # its own generator: threads share none
            rng = self.rng
        self.w = work.Workload(Quiet(), maxlist=2)
        self.st = dr.States(self.rng)
        self.entities = [self.entity(i) for i in range(6)]

    def entity(self, i):
        r = self.rng
        return {'id': (self.n + 1, r.randrange(1, 65536), 100 * self.n + i),
                'algorithm': r.choice(list(MOVES)),
                'marking': f'E{self.n}-{i}', 'k': 0}

    def run(self):
        try:
            for k in range(self.count):
                self.step(k)
            for d in self.held:
                self.put(d)
        except BaseException as e:
            self.error = e

    def step(self, k):
        r = self.rng
        if r.random() < 0.5:
            data, what = self.entity_state()
        else:
            cls = r.choice(wire.PDUS)
            last = self.last
            if last and r.random() < 0.25:
                cls = last['_c']
            self.w.setup(cls)
            m = self.w.one(cls)
            if last and last['_c'] == cls:  # much like the one before
                for f in m:
                    if f in last and r.random() < 0.9 and \
                            type(m[f]) in (int, float, dict) and \
                            (cls != 'TransmitterPdu' or f in HEADER):
                        m[f] = copy.deepcopy(last[f])
            self.last = m
            if cls in ('EntityStatePdu', 'EntityStateUpdatePdu'):
                m['entityID']['simulationAddress']['site'] = 60000
            m['timestamp'] = k // 3     # a coarse clock
            data = work.encode(self.b, self.b.build(m, r))
            what = {'model': m}
        c = r.random()
        if c < 0.05:
            what['fault'] = 'lost'
            return
        if c < 0.12:
            cut = r.randrange(0, len(data))
            data, what = data[:cut], {'fault': 'truncated', 'of': data}
        elif c < 0.17:
            t = r.choice([x for x in range(128)
                          if x not in wire.TYPE_OF_CLASS.values()])
            data = data[:2] + bytes([t]) + data[3:]
            what = {'fault': 'unknown'}
        what['by'] = self.n
        what['order'] = k
        self.sent.setdefault(data, []).append(what)
        if c > 0.9:
            what['fault'] = 'duplicated'
            self.put(data)
        elif c > 0.75:
            what['fault'] = 'delayed'
            self.held.append(data)
            if len(self.held) > 4:
                self.put(self.held.pop(r.randrange(len(self.held))))
            return
        self.put(data)

    def put(self, data):
        while self.lag() > 60:
            time.sleep(0.0005)
        self.tx.send(data)
        self.lag(1)

    def entity_state(self):
        """An entity's true state, put in a PDU as the examples do it."""
        r, b = self.rng, self.b
        e = r.choice(self.entities)
        e['k'] += r.random() < 0.7      # a coarse clock
        lat = r.uniform(-1.5, 1.5)
        lon = r.uniform(-math.pi, math.pi)
        alt = r.uniform(-100, 20000)
        rpy = [r.uniform(-3, 3), r.uniform(-1.5, 1.5), r.uniform(-3, 3)]
        truth = {'e': e, 'lat': lat, 'lon': lon, 'alt': alt, 'rpy': rpy,
                 'v': [r.uniform(-300, 300) for _ in range(3)],
                 'a': [r.uniform(-9, 9) for _ in range(3)],
                 'w': [r.uniform(-1, 1) for _ in range(3)],
                 'seq': e['k'], 'force': r.randrange(4),
                 'kind': r.randrange(1, 10)}
        p = b.cls('EntityStatePdu')()
        p.timestamp = e['k']
        p.exerciseID = 1
        i = p.entityID
        i.simulationAddress.site, i.simulationAddress.application, \
            i.entityNumber = e['id']
        p.forceId = truth['force']
        p.entityType.entityKind = truth['kind']
        p.marking.setString(e['marking'])
        x, y, z, psi, theta, phi = self.gps.llarpy2ecef(lat, lon, alt, *rpy)
        q = p.entityLocation
        q.x, q.y, q.z = x, y, z
        q = p.entityOrientation
        q.psi, q.theta, q.phi = psi, theta, phi
        q = p.entityLinearVelocity
        q.x, q.y, q.z = truth['v']
        d = p.deadReckoningParameters
        d.deadReckoningAlgorithm = e['algorithm']
        q = d.entityLinearAcceleration
        q.x, q.y, q.z = truth['a']
        q = d.entityAngularVelocity
        q.x, q.y, q.z = truth['w']
        return work.encode(b, p), {'truth': truth}


class Lag:
    """Datagrams in flight, so that the kernel's buffer need not drop any."""

    def __init__(self):
        self.lock, self.n = threading.Lock(), 0

    def __call__(self, d=0):
        with self.lock:
            self.n += d
            return self.n


def federation(run, b, k, count):
    rx, tx = pipe()
    rx2, tx2 = pipe()
    lag, log, log2 = Lag(), [], []
    seed = f'{run.pid}/{run.seed}/{k}'
    senders = [Sender(run, b, n, count, tx, lag, f'{seed}/{n}')
               for n in range(SENDERS)]
    stop = threading.Event()
    table = {}

    def receive():
        """Decodes what comes, keeps the newest state of every entity, and
        relays every PDU to the next federation."""
        while not stop.is_set():
            try:
                data = rx.recv(65535)
            except (socket.timeout, TimeoutError):
                continue
            lag(-1)
            pdu = err = None
            try:
                pdu = b.factory.createPdu(data)
            except Exception as e:
                err = e
            again = None
            if pdu is not None:
                try:
                    again = work.encode(b, pdu)
                    tx2.send(again)
                except Exception as e:
                    err = e
                if type(pdu).__name__ == 'EntityStatePdu':
                    i = pdu.entityID
                    key = (i.simulationAddress.site,
                           i.simulationAddress.application, i.entityNumber)
                    old = table.get(key)
                    if old is None or pdu.timestamp > old.timestamp:
                        table[key] = pdu
            log.append((data, pdu, err, again))

    def relay():
        while not stop.is_set():
            try:
                data = rx2.recv(65535)
            except (socket.timeout, TimeoutError):
                continue
            try:
                log2.append((data, b.factory.createPdu(data), None))
            except Exception as e:
                log2.append((data, None, e))
    hosts = [threading.Thread(target=receive, daemon=True),
             threading.Thread(target=relay, daemon=True)]
    for t in hosts + senders:
        t.start()
    for s in senders:
        s.join(120)
    end = time.time() + 20
    while lag() > 0 and time.time() < end:
        time.sleep(0.01)
    time.sleep(0.05)
    stop.set()
    for t in hosts:
        t.join(5)
    for s in (rx, tx, rx2, tx2):
        s.close()
    for s in senders:
        if s.error:
            raise s.error
    judge(run, b, senders, log, table)
    second(run, b, log, log2)


def judge(run, b, senders, log, table):
    sent = {}
    for s in senders:
        for data, whats in s.sent.items():
            sent.setdefault(data, []).extend(whats)
    seen, newest, last_by, order = {}, {}, None, {}
    for data, pdu, err, again in log:
        whats = sent.get(data)
        if whats is None:
            raise RuntimeError('the network made a datagram up')
        what = whats[0]
        by = what['by']
        run.see('sender switches', by != last_by)
        run.see('duplicates', data in seen)
        run.see('reordered', order.get(by, -1) > what['order'])
        run.case(data if what.get('fault') or by != last_by else None,
                 {'octets': data[:24].hex(), 'fault': what.get('fault')}
                 if run.evaluations % 611 == 7 else None)
        last_by, order[by] = by, max(order.get(by, -1), what['order'])
        run.see('datagrams received')
        if what.get('fault') == 'truncated':
            if pdu is not None or err is None and len(data) > 2 and \
                    data[2] in wire.TYPE_OF_CLASS.values():
                run.violation('truncated', f'a datagram cut to {len(data)} '
                              f'octets was taken for {type(pdu).__name__}',
                              {'octets': data, 'of': what['of']})
            run.see('truncated datagrams refused')
            continue
        if what.get('fault') == 'unknown':
            if pdu is not None or err is not None:
                run.violation('unknown', f'a PDU of unknown type {data[2]} gave '
                              f'{err!r} or {type(pdu).__name__}',
                              {'octets': data})
            run.see('unknown types ignored')
            continue
        if err is not None or pdu is None:
            run.violation('refused', f'a whole datagram was not received: '
                          f'{err!r}', {'octets': data})
            continue
        if data in seen and again != seen[data]:
            run.violation('duplicate', 'a duplicate datagram was decoded '
                          'differently', {'octets': data})
        seen[data] = again
        if 'truth' in what:
            t = what['truth']
            entity(run, b, data, pdu, t)
            key = t['e']['id']
            if key not in newest or newest[key]['seq'] < t['seq']:
                newest[key] = t
        else:
            other(run, b, data, pdu, what['model'])
            m = what['model']
            if m['_c'] == 'EntityStatePdu':
                i = m['entityID']
                key = (60000, i['simulationAddress']['application'],
                       i['entityNumber'])
                if key not in newest or newest[key]['seq'] < m['timestamp']:
                    newest[key] = {'seq': m['timestamp'], 'model': m}
    # the table of entities is what the log of received states implies
    if set(table) != set(newest):
        run.violation('table', f'entities {set(table) ^ set(newest)} are '
                      'missing or never existed')
        return
    for key, t in newest.items():
        p = table[key]
        if p.timestamp != t['seq']:
            run.violation('table:state', f'entity {key} is held at state '
                          f'{p.timestamp}, the newest received is {t["seq"]}')
        elif 'model' not in t:
            entity(run, b, None, p, t)   # still unharmed by later traffic
        run.see('entities tracked')


def other(run, b, data, pdu, m):
    run.see('other PDU types received')
    if type(pdu) is not b.cls(m['_c']):
        run.violation('class', f'a {m["_c"]} was received as '
                      f'{type(pdu).__name__}', {'octets': data})
        return
    d = b.diff(m, pdu)
    if d:
        run.violation(f'{m["_c"]}:{d[0][0]}', f'{m["_c"]}: {d[0][0]} sent as '
                      f'{d[0][1]!r} is received as {d[0][2]!r}',
                      {'octets': data})


def entity(run, b, data, p, t):
    from opendis import DeadReckoning as DR
    from opendis.RangeCoordinates import GPS
    run.see('entity states received')
    e = t['e']
    bad = lambda sig, msg: run.violation(sig, msg, {'octets': data,
                                                    'truth': t})
    i = p.entityID
    got = (i.simulationAddress.site, i.simulationAddress.application,
           i.entityNumber)
    if got != e['id'] or p.marking.charactersString() != e['marking'] or \
            p.forceId != t['force'] or p.entityType.entityKind != t['kind'] \
            or p.timestamp != t['seq'] or p.exerciseID != 1 or \
            p.deadReckoningParameters.deadReckoningAlgorithm != e['algorithm']:
        bad('identity', f'entity {e["id"]} {e["marking"]} is received as {got}'
            f' {p.marking.charactersString()!r} or with other attributes')
        return
    q, o = p.entityLocation, p.entityOrientation
    lat, lon, alt, roll, pitch, yaw = GPS().ecef2llarpy(
        q.x, q.y, q.z, o.psi, o.theta, o.phi)
    if abs(lat - t['lat']) > 1e-9 or geo.angdiff(lon, t['lon']) > 1e-8 or \
            abs(alt - t['alt']) > 0.02:
        bad('position', f'an entity at {t["lat"], t["lon"], t["alt"]} is '
            f'received at {lat, lon, alt}')
    m = geo.body_to_world(yaw, pitch, roll)
    w = geo.body_to_world(t['rpy'][2], t['rpy'][1], t['rpy'][0])
    off = max(abs(m[r][c] - w[r][c]) for r in range(3) for c in range(3))
    if not off < 2e-6:
        bad('attitude', f'attitude (roll, pitch, yaw) {t["rpy"]} is received '
            f'as {roll, pitch, yaw}')
    d = p.deadReckoningParameters
    name = MOVES[d.deadReckoningAlgorithm]
    vec = lambda v: [v.x, v.y, v.z]
    for dt in (0.0, 0.5, 5.0):
        s = {'p': vec(q), 'v': vec(p.entityLinearVelocity),
             'a': vec(d.entityLinearAcceleration), 't': dt,
             'o': [o.psi, o.theta, o.phi],
             'w': vec(d.entityAngularVelocity)}
        pos, ori = dr.call(DR, name, s)
        # the sender's own truth: within the precision of its 32-bit fields
        r = {'p': list(geo.lla2ecef(t['lat'], t['lon'], t['alt'])),
             'v': t['v'], 'a': t['a'], 't': dt, 'o': list(s['o']),
             'w': t['w']}
        want, _ = dr.expected_position(name, r)
        run.see('positions extrapolated')
        if not max(abs(float(pos[j]) - want[j]) for j in range(3)) < 5e-3:
            bad('extrapolation', f'{name}: after {dt} s the entity is put at '
                f'{dr.floats(pos)}, not {want}')
            return


def second(run, b, log, log2):
    """What was relayed is what was received, in order, each exactly once."""
    want = [(again, pdu) for _, pdu, _, again in log if again is not None]
    got = [d for d, _, _ in log2]
    i = 0
    for data, pdu, err in log2:
        while i < len(want) and want[i][0] != data:
            i += 1           # lost on the way: allowed, but never made up
        if i == len(want):
            raise RuntimeError('the relay made a datagram up')
        run.see('relayed twice')
        if err is not None or type(pdu) is not type(want[i][1]):
            run.violation('relay', f'a relayed {type(want[i][1]).__name__} is '
                          f'received as {type(pdu).__name__}: {err!r}',
                          {'octets': data})
        elif work.encode(b, pdu) != data:
            run.violation('relay:octets', f'a relayed '
                          f'{type(pdu).__name__} changes on every hop',
                          {'octets': data})
        i += 1
    run.see('relayed datagrams lost', len(want) - len(got))
