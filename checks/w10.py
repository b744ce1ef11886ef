"""W10: encoding is a pure function of the object's fields."""
import copy
import io
import os
import subprocess
import sys
import tempfile

from lib import core, wire, work

RULE = ('a case is one object encoded several times and in several settings '
        '(again, at an offset, onto several kinds of stream, between other '
        'encodes, after being decoded from several kinds of stream): all '
        'octets must agree and the object must be unchanged; distinct by '
        'class and octets; non-trivial when octets after the header are '
        'non-zero')


def check(run):
    b = wire.Bridge(share=True)
    rng = run.rng
    w = work.Workload(run, pads=True, inexact=True)
    with tempfile.TemporaryDirectory() as d:
        for cls in wire.PDUS + wire.ENCODE_ONLY + wire.RECORDS:
            models = list(w.models(cls, sweep=8, rand=run.scale(25, 400),
                                   lengths=run.scale((1, 6, 40, 255),
                                                     (1, 2, 6, 40, 129, 255,
                                                      300)),
                                   literal_budget=run.scale(30, 300)))
            for m in models:
                if cls in wire.SV_CODE:
                    m['_type'] = wire.SV_CODE[cls]
                one(run, b, cls, m, d)
            for m in w.models(cls, rand=run.scale(100, 600), lengths=(1, 2),
                              literal_budget=run.scale(160, 1600)):
                if cls in wire.SV_CODE:
                    m['_type'] = wire.SV_CODE[cls]
                if not twice(run, b, cls, m):
                    break
            run.see('classes')
    processes(run)
    run.need('objects encoded repeatedly', 3000)
    run.need('snapshots compared', 3000)
    run.need('objects of every kind encoded twice', 10000)
    run.need('stream kinds compared', 5000)
    run.need('equal objects encoded', 3000)
    run.need('processes compared', 2)


def snapshot(o, depth=0):
    if isinstance(o, (int, float, str, bytes, type(None))):
        return (type(o).__name__, repr(o))
    if isinstance(o, (list, tuple)):
        if set(map(type, o)) == {int}:
            return (type(o).__name__, tuple(o))
        return (type(o).__name__, [snapshot(v, depth + 1) for v in o])
    if isinstance(o, dict):
        return {str(k): snapshot(v, depth + 1) for k, v in o.items()}
    # what a user can see: attributes and properties, not private caches
    seen = {k: v for k, v in core.attributes(o).items()
            if not k.startswith('_')}
    for c in type(o).__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith('_'):
                seen.setdefault(k, getattr(o, k))
    return (type(o).__name__, {k: snapshot(v, depth + 1)
                               for k, v in sorted(seen.items())})


class Sink:
    """A write-only stream, as a socket file would be."""

    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(bytes(data))
        return len(data)


def twice(run, b, cls, m):
    """Encoded and encoded again, whatever the fields say."""
    ref = wire.encode_full(m)
    if len(ref.b) > 2000:
        return True
    o = b.build(m)
    before = snapshot(o)
    first, second = work.encode(b, o), work.encode(b, o)
    run.case((cls, first) if any(first) else None)
    run.see('objects of every kind encoded twice')
    if second != first or snapshot(o) != before:
        run.violation(f'{cls}:twice', f'encoding a {cls} changed it',
                      {'first': first, 'second': second, 'model': m})
        return False
    return True


def one(run, b, cls, m, d):
    rng = run.rng
    o = b.build(m)
    before = snapshot(o)
    first = work.encode(b, o)
    run.case((cls, first) if any(first) else None,
             {'class': cls, 'octets': first[:32].hex()}
             if run.evaluations % 997 == 3 else None)
    run.see('objects encoded repeatedly')
    run.see('snapshots compared')
    after = snapshot(o)
    if after != before:
        bad = [k for k in before[1] if before[1][k] != after[1].get(k)]
        bad += [k for k in after[1] if k not in before[1]]
        run.violation(f'{cls}:mutates:{bad[:1]}', f'encoding a {cls} changed '
                      f'its {bad}', {'model': m})
    # again, several times, at an offset, after other objects
    n = rng.randint(1, 4)
    s = io.BytesIO()
    prefix = rng.randbytes(rng.choice([0, 1, 3, 7, 144, 1000]))
    s.write(prefix)
    out = b.Out(s)
    for _ in range(n):
        o.serialize(out)
    if s.getvalue() != prefix + first * n:
        run.violation(f'{cls}:repeat', f'{cls} encoded {n} times after '
                      f'{len(prefix)} octets gives other octets',
                      {'first': first, 'got': s.getvalue()})
    # other kinds of stream
    sink = Sink()
    o.serialize(b.Out(sink))
    run.see('stream kinds compared', 2)
    if b''.join(sink.parts) != first:
        run.violation(f'{cls}:sink', f'{cls} gives other octets on a '
                      'write-only stream', {'first': first})
    raw = io.BytesIO()
    buf = io.BufferedWriter(raw, 16)
    o.serialize(b.Out(buf))
    buf.flush()
    if raw.getvalue() != first:
        run.violation(f'{cls}:buffered', f'{cls} gives other octets on a '
                      'buffered stream', {'first': first})
    if rng.random() < 0.1:
        path = os.path.join(d, 'f')
        with open(path, 'wb') as f:
            o.serialize(b.Out(f))
        with open(path, 'rb') as f:
            run.see('stream kinds compared')
            if f.read() != first:
                run.violation(f'{cls}:file', f'{cls} gives other octets in a '
                              'file', {'first': first})
    equals(run, b, cls, o, first)
    if cls not in wire.PDUS:
        return
    # decoding is independent of the kind of stream too, and leaves it alone
    data = wire.encode(m)
    keep = bytearray(data)
    ways = [io.BytesIO(data), io.BufferedReader(io.BytesIO(data), 8),
            io.BytesIO(keep)]
    shots = []
    for stream in ways:
        p = b.factory.getPdu(b.In(stream))
        shots.append((snapshot(p), work.encode(b, p)))
        run.see('stream kinds compared')
    if shots[0] != shots[1] or shots[0] != shots[2]:
        run.violation(f'{cls}:decode-stream', f'{cls} is decoded differently '
                      'from different kinds of stream', {'octets': data})
    if bytes(keep) != data:
        run.violation(f'{cls}:decode-writes', f'decoding {cls} changed the '
                      'octets given', {'octets': data})
    p.serialize(b.Out(io.BytesIO()))
    if work.encode(b, p) != shots[0][1]:
        run.violation(f'{cls}:relay-repeat', f'a decoded {cls} encodes '
                      'differently the second time', {'octets': data})


def equals(run, b, cls, o, first):
    """Objects with the same fields: copies, and those of a subclass."""
    c = copy.deepcopy(o) if run.rng.random() < 0.7 else copy.copy(o)
    how = 'a copy'
    if run.rng.random() < 0.5:
        try:
            c.__class__ = type('Own' + cls, (type(o),), {'__slots__': ()})
            how = 'a copy of a subclass'
        except TypeError:
            pass
    try:
        got = work.encode(b, c)
    except Exception as e:
        got = repr(e).encode()
    run.see('equal objects encoded')
    if got != first:
        run.violation(f'{cls}:{how}', f'{how} of a {cls} encodes differently',
                      {'first': first, 'got': got})


SCRIPT = '''
import sys, hashlib, random
sys.path.insert(0, sys.argv[1])
from lib import core, wire, work
core.import_repo()
b = wire.Bridge()
rng = random.Random(int(sys.argv[2]))
gen = wire.Gen(rng, pads=True)
h = hashlib.sha256()
order = wire.PDUS[:]
models = [(c, gen.case(c)) for c in order for _ in range(6)]
if sys.argv[3] == 'r':
    models = models[::-1]
outs = {}
for i, (c, m) in enumerate(models):
    m['protocolFamily'] = 1
    j = i if sys.argv[3] != 'r' else len(models) - 1 - i
    outs[j] = work.encode(b, b.build(m)) + \\
        work.encode(b, b.factory.createPdu(wire.encode(m)))
for j in sorted(outs):
    h.update(outs[j])
print(len(outs), h.hexdigest())
'''


def processes(run):
    """Other processes, hash seeds, time zones and orders: the same octets."""
    outs = set()
    for hashseed, tz, order in (('0', 'UTC', 'f'), ('1', 'Asia/Tokyo', 'f'),
                                ('77', 'UTC', 'r')):
        env = dict(os.environ, PYTHONHASHSEED=hashseed, TZ=tz, LC_ALL='C',
                   VERIF_NO_LINES='1')
        r = subprocess.run([sys.executable, '-c', SCRIPT, core.VERIF,
                            str(run.seed), order], env=env, cwd='/',
                           capture_output=True, text=True, timeout=120)
        if r.returncode:
            run.violation('process', 'encoding in a fresh process failed: ' +
                          r.stderr[-400:])
            return
        run.see('processes compared')
        run.case(('process', hashseed, order))
        outs.add(r.stdout)
    if len(outs) != 1:
        run.violation('process-dependent', 'the same PDUs give other octets '
                      'in another process or order', sorted(outs))
