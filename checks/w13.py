"""W13: decoding consumes exactly one PDU's octets."""
import io
import os
import tempfile

from lib import wire, work
from checks.w01 import strip

RULE = ('a case is one decode from a stream holding more than the PDU or '
        'record (trailing octets, or several concatenated), judged on the '
        'fields decoded and on the position of the stream afterwards; distinct '
        'by octets; non-trivial when octets follow')


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, pads=True)
    pool = []
    d = tempfile.TemporaryDirectory()
    run.dir = d.name
    for cls in wire.PDUS + wire.ENCODE_ONLY:
        n = 0
        for m in w.models(cls, sweep=16, rand=run.scale(60, 800),
                          lengths=run.scale((0, 1, 3, 30, 255),
                                            (0, 1, 2, 3, 30, 128, 255, 300)),
                          literal_budget=run.scale(60, 400)):
            ref = wire.encode_full(m)
            n += 1
            if n % 7 == 0 or len(pool) < 2000 and n % 3 == 0:
                pool.append((cls, m, ref))
            trailing(run, b, cls, m, ref)
        run.see('PDU classes')
    for _ in range(run.scale(600, 8000)):
        concatenated(run, b, rng.sample(pool, rng.randint(2, 7)))
    for cls in wire.RECORDS:
        for m in w.models(cls, sweep=4, rand=run.scale(25, 300),
                          lengths=(0, 1, 3, 20), literal_budget=40):
            record(run, b, cls, m)
    d.cleanup()
    run.need('PDU classes', len(wire.PDUS) + 2)
    run.need('decoded from buffered streams', 500)
    run.need('decoded from files', 300)
    run.need('reads watched', 5000)
    run.need('PDUs decoded from connections', 300)
    run.need('positions compared', 6000)
    run.need('misleading header lengths', 1000)
    run.need('PDUs decoded from one stream', 1000)


class Watch(io.BytesIO):
    """Remembers how far anyone has read."""
    far = 0

    def read(self, *n):
        out = super().read(*n)
        self.far = max(self.far, self.tell())
        return out

    read1 = read

    def readinto(self, b):
        n = super().readinto(b)
        self.far = max(self.far, self.tell())
        return n

    def readline(self, *n):
        out = super().readline(*n)
        self.far = max(self.far, self.tell())
        return out


class OneWay:
    """A stream that only ever goes on, as a connection does: asked for
    octets that are not there yet, it would wait for ever."""

    def __init__(self, data):
        self.data, self.at, self.end = data, 0, len(data)

    def read(self, n=-1):
        if n is None or n < 0 or self.at + n > self.end:
            raise Waits(f'asked for {n} octets at {self.at}, where the PDU '
                        f'ends at {self.end}')
        out = self.data[self.at:self.at + n]
        self.at += n
        return out

    def tell(self):
        raise OSError('not seekable')

    seek = None


class Waits(Exception):
    pass


def stream(run, data):
    """Octets come from memory, through a buffer, or from a file."""
    c = run.rng.random()
    if c < 0.6:
        return Watch(data)
    if c < 0.85:
        run.see('decoded from buffered streams')
        return io.BufferedReader(io.BytesIO(data), run.rng.choice(
            [1, 2, 3, 5, 8, 12, 13, 16, 31, 64, 100, 4096]))
    run.see('decoded from files')
    path = os.path.join(run.dir, 'pdus')
    with open(path, 'wb') as f:
        f.write(data)
    f = io.open(path, 'rb', buffering=run.rng.choice([-1, -1, 0, 7, 16, 512]))
    if run.rng.random() < 0.3:
        f = io.BufferedRandom(io.FileIO(path, 'r+'), 16) \
            if not f.close() else f
    run.open = f        # closed when the next takes its place
    return f


def junk(rng):
    c = rng.random()
    n = rng.choice([1, 2, 3, 4, 8, 15, 16, 64, 400])
    return bytes(n) if c < 0.3 else b'\xff' * n if c < 0.5 else \
        rng.randbytes(n)


def announced(rng, ref, tail):
    """A length the header may state: where some record or field begins, or
    somewhere in what follows the PDU."""
    c = rng.random()
    n = len(ref.b)
    if c < 0.2:
        return (n + rng.randint(0, len(tail))) & 0xffff
    heads = [p[:p.rfind(']') + 1] if c < 0.7 else p for p in ref.path]
    starts = [i for i in range(1, n) if heads[i] != heads[i - 1]]
    return rng.choice(starts or [n]) & 0xffff


def trailing(run, b, cls, m, ref):
    rng = run.rng
    tail = junk(rng)
    if 'length' in m and rng.random() < 0.4:
        # whatever the header says, the layout says where the PDU ends
        n = announced(rng, ref, tail)
        m = dict(m, length=n)
        ref = wire.encode_full(m)
        run.see('misleading header lengths', n != len(ref.b))
    data = wire.noisy(ref, rng) if rng.random() < 0.4 else bytes(ref.b)
    s = stream(run, data + tail)
    run.case(data + tail, {'class': cls, 'length': len(data),
                           'trailing': len(tail)}
             if run.evaluations % 3001 == 3 else None)
    try:
        if cls in wire.ENCODE_ONLY:
            p = b.cls(cls)()
            p.parse(b.In(s))
        else:
            p = b.factory.getPdu(b.In(s))
        d = b.diff(m, p)
        pos = s.tell()
    except Exception as e:
        run.violation(f'{cls}:raises', f'{cls} followed by {len(tail)} octets '
                      f'raised {e!r}', {'octets': data + tail})
        return
    run.see('positions compared')
    if isinstance(s, Watch):
        run.see('reads watched')
        if s.far > len(data):
            run.violation(f'{cls}:beyond', f'decoding a {cls} of {len(data)} '
                          f'octets read as far as {s.far}',
                          {'octets': data, 'tail': tail})
    if pos != len(data):
        run.violation(f'{cls}:position', f'decoding a {cls} of {len(data)} '
                      f'octets left the stream at {pos}',
                      {'octets': data, 'tail': tail})
    if d:
        run.violation(f'{cls}:{strip(d[0][0])}', f'{cls} followed by other '
                      f'octets: {d[0]}', {'octets': data, 'tail': tail})
    if rng.random() < 0.3:
        q = work.decode(b, cls, data + tail)
        if b.diff(m, q):
            run.violation(f'{cls}:createPdu', f'{cls} followed by other octets'
                          f': {b.diff(m, q)[0]}', {'octets': data + tail})


def concatenated(run, b, items):
    """Several PDUs on one stream, each decoded where the last one ended."""
    rng = run.rng
    if rng.random() < 0.3:
        return connection(run, b, items)
    prefix = rng.randbytes(rng.choice([0, 0, 1, 5, 12]))
    s = stream(run, prefix + b''.join(bytes(r.b) for _, _, r in items))
    s.read(len(prefix))
    at = len(prefix)
    inp = b.In(s)
    for cls, m, ref in items:
        p = b.cls(cls)()
        at += len(ref.b)
        try:
            p.parse(inp)
        except Exception as e:
            run.violation(f'{cls}:stream-raises', f'{cls} in a stream of '
                          f'{[c for c, _, _ in items]} raised {e!r}')
            return
        run.see('PDUs decoded from one stream')
        run.case(('s', at, bytes(ref.b)))
        d = b.diff(m, p)
        if s.tell() != at or d:
            run.violation(f'{cls}:stream', f'{cls} in a stream of '
                          f'{[c for c, _, _ in items]}: at {s.tell()}, not '
                          f'{at}; {d[:1]}', {'octets': bytes(ref.b)})
            return


def connection(run, b, items):
    """The same over a connection on which nothing follows the last PDU, or
    not yet."""
    s = OneWay(b''.join(bytes(r.b) for _, _, r in items))
    inp, at = b.In(s), 0
    for cls, m, ref in items:
        p = b.cls(cls)()
        at += len(ref.b)
        s.end = at
        run.case(('c', at, bytes(ref.b)))
        try:
            p.parse(inp)
            d = b.diff(m, p)
        except Exception as e:
            run.violation(f'{cls}:connection', f'{cls} from a connection '
                          f'raised {e!r}', {'octets': bytes(ref.b)})
            return
        run.see('PDUs decoded from one stream')
        run.see('PDUs decoded from connections')
        if s.at != at or d:
            run.violation(f'{cls}:connection', f'{cls} from a connection: at '
                          f'{s.at}, not {at}; {d[:1]}',
                          {'octets': bytes(ref.b)})
            return


def record(run, b, cls, m):
    rng = run.rng
    if cls in wire.SV_CODE or cls in ('UnknownRadio', 'UnknownAntennaPattern',
                                      'ChangeOptions'):
        return  # these are told their length by the PDU around them
    data = wire.encode(m)
    tail = junk(rng)
    s = stream(run, data + tail)
    p = b.cls(cls)()
    run.case((cls, data, tail))
    try:
        p.parse(b.In(s))
    except Exception as e:
        run.violation(f'{cls}:raises', f'{cls} followed by {len(tail)} octets '
                      f'raised {e!r}', {'octets': data + tail})
        return
    run.see('positions compared')
    d = b.diff(m, p)
    if s.tell() != len(data) or d:
        run.violation(f'{cls}:record', f'decoding a {cls} of {len(data)} '
                      f'octets left the stream at {s.tell()}; {d[:1]}',
                      {'octets': data + tail})
