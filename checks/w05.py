"""W05: every way in gives the class the PDU type says, or None."""
import io
import os
import pathlib
import tempfile

from lib import wire, work

RULE = ('a case is one datagram decoded through one entry point (bytes, '
        'bytearray, stream, file by str, Path or other path object), judged on the class, the '
        'header fields and the fields decoded; distinct by octets and entry '
        'point; non-trivial when the type octet is a supported PDU type')


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, pads=True)
    with tempfile.TemporaryDirectory() as d:
        unknown(run, b, d)
        for cls in wire.PDUS:
            t = wire.TYPE_OF_CLASS[cls]
            fresh(run, b, cls, t)
            w.setup(cls)
            for i in range(run.scale(150, 2000)):
                m = w.one(cls)
                for k in ('protocolVersion', 'exerciseID', 'protocolFamily'):
                    if rng.random() < 0.7:
                        m[k] = rng.randrange(256)
                entry_points(run, b, d, cls, t, m, i)
            w2 = list(w.with_lengths(cls, 30))
            for i, m in enumerate(w2):
                entry_points(run, b, d, cls, t, m, i)
            for i, m in enumerate(big(run, w, cls)):
                run.see('datagrams beyond 8192 octets', wire.size(m) > 8192)
                entry_points(run, b, d, cls, t, m, 2 * i + 1)
            fresh(run, b, cls, t)
        for cls in wire.PDUS:       # and after all that was decoded
            fresh(run, b, cls, wire.TYPE_OF_CLASS[cls])
        descriptors(run, b, d)
    run.need('known types dispatched', 3000)
    run.need('unknown types refused', 190)
    run.need('classes constructed', len(wire.PDUS))
    run.need('files decoded', 500)
    run.need('datagrams beyond 8192 octets', 12)


def big(run, w, cls):
    """Nothing says a datagram ends with the first block read from a file."""
    lens = [255] if run.tier == 'quick' else [200, 255, 300, 600]
    for n in lens:
        yield from w.with_lengths(cls, n)
    yield from w.blobs(cls, w.lits.rare(cls), 6)


def entries(b, d, data, which):
    if which == 'bytes':
        return b.factory.createPdu(data)
    if which == 'bytearray':
        return b.factory.createPdu(bytearray(data))
    if which == 'memoryview':
        return b.factory.createPdu(memoryview(bytearray(data)))
    if which == 'stream':
        return b.factory.getPdu(b.In(io.BytesIO(data)))
    if which == 'buffered':
        return b.factory.getPdu(b.In(io.BufferedReader(
            io.BytesIO(data), 16)))
    if which == 'advanced stream':
        s = io.BytesIO(data)
        s.read(5)
        return b.factory.getPdu(b.In(s))
    path = os.path.join(d, NAMES[len(data) % len(NAMES)])
    with open(path, 'wb') as f:
        f.write(data)
    if which == 'path':
        return b.factory.createPduFromFilePath(pathlib.Path(path))
    if which == 'path-like':
        return b.factory.createPduFromFilePath(PathLike(path))
    if which == 'directory entry':
        with os.scandir(d) as found:
            entry = [e for e in found if e.path == path][0]
        return b.factory.createPduFromFilePath(entry)
    if which == 'relative':
        return b.factory.createPduFromFilePath(os.path.relpath(path))
    if which == 'link':
        link = os.path.join(d, 'link')
        if os.path.lexists(link):
            os.remove(link)
        os.symlink(path, link)
        return b.factory.createPduFromFilePath(link)
    return b.factory.createPduFromFilePath(path)


WAYS = ['bytes', 'stream', 'bytes', 'file', 'buffered', 'bytearray', 'path',
        'advanced stream', 'path-like', 'directory entry', 'file', 'memoryview',
        'relative', 'link']
NAMES = ['pdu.raw', 'pdu', 'a b.dis', '~', '\xfc.bin', 'x.gz', '%s', '.pdu']


class PathLike:
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def entry_points(run, b, d, cls, t, m, i):
    data = wire.encode(m)
    which = WAYS[i % len(WAYS)]
    try:
        p = entries(b, d, data, which)
    except Exception as e:
        run.case()
        run.violation(f'{cls}:{which}:raises', f'{cls} from {which}: {e!r}',
                      {'octets': data})
        return
    run.case((which, data), {'way': which, 'octets': data[:32].hex(),
                             'class': type(p).__name__}
             if run.evaluations % 1777 == 3 else None)
    run.see('known types dispatched')
    run.see('files decoded', which in ('file', 'path', 'path-like',
                                       'relative', 'link', 'directory entry'))
    run.see(f'decoded from {which}')
    if type(p) is not b.cls(cls):
        run.violation(f'{cls}:{which}:class', f'PDU type {t} from {which} gave '
                      f'{type(p).__name__}, not {cls}', {'octets': data})
        return
    d = b.diff(m, p)
    if d:
        run.violation(f'{cls}:{which}:{d[0][0]}', f'{cls} from {which}: '
                      f'{d[0][0]} is {d[0][2]!r}, not {d[0][1]!r}',
                      {'octets': data})
    if p.pduType != t:
        run.violation(f'{cls}:pduType', f'{cls}: decoded pduType is '
                      f'{p.pduType!r}, not {t}', {'octets': data})


def unknown(run, b, d):
    rng = run.rng
    for t in range(256):
        if t in wire.PDU_TYPES:
            continue
        for i in range(run.scale(12, 60)):
            n = rng.choice([3, 4, 12, 20, 144, 1500])
            data = bytearray(rng.randbytes(n))
            data[2] = t
            if rng.random() < .6:
                data[0] = rng.choice([6, 7])
            if n > 3 and rng.random() < .6:
                data[3] = rng.randrange(13)
            which = WAYS[i % len(WAYS)]
            try:
                p = entries(b, d, bytes(data), which)
            except Exception as e:
                run.violation(f'unknown-{t}:raises', f'PDU type {t} from '
                              f'{which} raised {e!r}', {'octets': data})
                continue
            run.case(('u', bytes(data)))
            run.see('unknown types refused')
            if p is not None:
                run.violation(f'unknown-{t}', f'PDU type {t} from {which} gave '
                              f'a {type(p).__name__}', {'octets': data})


def fresh(run, b, cls, t):
    """A blank object announces itself as what it is."""
    data = work.encode(b, b.cls(cls)())
    run.see('classes constructed')
    run.case(('fresh', cls))
    want = [7, 0, t, wire.family(cls)]
    if list(data[:4]) != want:
        run.violation(f'{cls}:header', f'a new {cls} announces '
                      f'{list(data[:4])}, not {want}')
    p = b.factory.createPdu(data)
    if type(p) is not b.cls(cls):
        run.violation(f'{cls}:fresh', f'a new {cls} is decoded as '
                      f'{type(p).__name__}')


def descriptors(run, b, d):
    """Decoding files, also broken ones, leaves none of them open."""
    import gc
    path = os.path.join(d, 'x.raw')
    gc.collect()
    gc.disable()
    try:
        before = len(os.listdir('/proc/self/fd'))
        keep = []
        for i in range(60):
            cls = wire.PDUS[i % len(wire.PDUS)]
            data = wire.encode(dict(wire.Gen(run.rng).case(cls),
                                    protocolFamily=1))
            if i % 2:
                data = data[:run.rng.randrange(3, len(data))]
            with open(path, 'wb') as f:
                f.write(data)
            try:
                b.factory.createPduFromFilePath(path)
            except Exception as e:
                keep.append(e)
        after = len(os.listdir('/proc/self/fd'))
    finally:
        gc.enable()
    run.see('descriptor checks', 60)
    if after > before + 1:
        run.violation('descriptors', f'{after - before} descriptors stay open '
                      'after decoding 60 files')
