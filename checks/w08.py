"""W08: hostile octets are rejected cleanly, within bounds, without traces."""
import io
import resource
import signal
import struct
import tempfile
import tracemalloc

from checks import w05, w07
from lib import core, wire, work

RULE = ('a case is one hostile or mutated datagram given to the factory on a '
        'monitored stream; judged on the outcome (None, a PDU of the declared '
        'type, or a data error), on the reads requested, on CPU time, and on '
        'whether well-formed traffic still decodes afterwards; distinct by '
        'octets; non-trivial when longer than a header')

DATA_ERRORS = (struct.error, ValueError, EOFError, OverflowError, OSError)
SV_TYPES = (25, 68, 69)


def rejected(e, pdutype):
    return isinstance(e, DATA_ERRORS) or \
        (isinstance(e, TypeError) and pdutype in SV_TYPES)


LARGEST = 48 << 20  # room for as many elements as a 16-bit count can name


class Alarm(BaseException):
    pass


class Enough(Exception):
    """Several datagrams took forever or all memory: the verdict is clear."""


def on_alarm(*_):
    raise Alarm()


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, pads=True)
    signal.signal(signal.SIGVTALRM, on_alarm)
    try:
        traffic(run, b, rng, w)
    except Enough:
        return
    run.need('rejected', 2000)
    run.need('decoded', 2000)
    run.need('canaries', 300)
    run.need('refused over and over', 50000)
    run.need('memory peaks watched', 1000)
    run.need('descriptor checks', 50)
    run.assumptions.append(core.DATA_ERRORS_NOTE + '; a TypeError also for a '
                           'standard variable record of another family')


def traffic(run, b, rng, w):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    seeds = []
    for cls in wire.PDUS:
        w.setup(cls)
        for _ in range(run.scale(8, 40)):
            m = w.one(cls)
            seeds.append((cls, m, wire.encode_full(m)))
    canaries = seeds[::7]
    shared = state(b)
    tracemalloc.start()
    for data in structured(rng, seeds, run.scale(2, 8)):
        judge(run, b, data)
    tracemalloc.stop()
    n = run.scale(50000, 800000)
    for i in range(n):
        judge(run, b, hostile(rng, seeds, w))
        if i % 500 == 499:
            canary(run, b, canaries)
    canary(run, b, canaries)
    after = state(b)
    for k in shared:
        if shared[k] != after.get(k):
            run.violation('shared-state', f'decoding changed {k}: '
                          f'{shared[k][:80]} -> {after.get(k, "")[:80]}')
    insistent(run, b, w)
    ua_shafts(run, b)
    with tempfile.TemporaryDirectory() as d:
        w05.descriptors(run, b, d)


def insistent(run, b, w):
    """The same damaged datagram over and over, then the whole one: wherever
    the damage is, having been refused often leaves no traces."""
    for cls in wire.PDUS:
        m = w.grown(cls)
        data = wire.encode(m)
        for _ in range(6):
            if len(data) < 700:
                break
            m = w.one(cls)
            data = wire.encode(m)
        s = w07.Reads(data)
        s.taken = []
        try:
            b.factory.getPdu(b.In(s))
        except Exception as e:
            run.violation(f'{cls}:insistent', f'a whole {cls} is refused: '
                          f'{e!r}', {'octets': data})
            continue
        taken = list({z: (a, z) for a, z in s.taken}.values())
        if len(taken) > 30:
            taken = run.rng.sample(taken, 30)
        for a, z in taken:
            part = data[:run.rng.randrange(a, z)]
            for _ in range(run.scale(110, 600)):
                try:
                    b.factory.createPdu(part)
                except Exception:
                    run.see('refused over and over')
            run.case(('again', part))
            try:
                p = b.factory.createPdu(data)
                d = b.diff(m, p)
            except Exception as e:
                d = [repr(e)]
            if d:
                run.violation(f'{cls}:insistent', f'after the first '
                              f'{len(part)} octets of a {cls} were refused '
                              f'over and over, the whole is wrong: {d[0]}',
                              {'octets': data, 'kept': len(part)})
                return


def ua_shafts(run, b):
    m = wire.Gen(run.rng).case('UaPdu')
    m['protocolFamily'] = 6
    e = wire.encode_full(m)
    for off, ty, path, n in e.counts:
        data = bytearray(e.b) + bytes(200)
        data[off] = 1
        judge(run, b, bytes(data))


def hostile(rng, seeds, w):
    c = rng.random()
    if c < 0.15:
        t = rng.choice(list(wire.PDU_TYPES)) if rng.random() < .9 else \
            rng.randrange(256)
        return bytes([7, 1, t, rng.randrange(12)]) + \
            rng.randbytes(rng.choice([0, 3, 8, 40, 200, 1400, 3000]))
    cls, m, e = rng.choice(seeds)
    data = bytearray(e.b)
    if c < 0.45:
        for _ in range(rng.choice([1, 1, 2, 4, 16])):
            i = rng.randrange(4, len(data))
            data[i] = rng.choice([0, 1, 127, 128, 254, 255, data[i] ^
                                  (1 << rng.randrange(8)), rng.randrange(256)])
    elif c < 0.7 and e.counts:
        off, ty, path, n = rng.choice(e.counts)
        width = wire.SIZE[ty]
        top = 2 ** (8 * width) - 1
        v = rng.choice([0, 1, n + 1, max(0, n - 1), n + 8, n * 8, top, top - 1,
                        top // 2 + 1, 5, 6, 7, 8, 9, 16,
                        rng.randint(0, top)]) & top
        data[off:off + width] = v.to_bytes(width, 'big')
        if rng.random() < 0.5:
            data += rng.randbytes(rng.choice([8, 64, 512, 4000]))
    elif c < 0.8:
        del data[rng.randrange(len(data)):]
    elif c < 0.88:
        i, j = sorted(rng.randrange(4, len(data)) for _ in 'ab')
        if rng.random() < 0.5:
            del data[i:j]
        else:
            data[i:i] = data[i:j] * rng.choice([1, 2, 20])
    elif c < 0.95:
        data[2] = rng.choice(list(wire.PDU_TYPES))
    else:
        data += rng.choice(seeds)[2].b
    return bytes(data[:70000])


def structured(rng, seeds, per):
    """Every count field of every class at its extremes."""
    seen = {}
    for cls, m, e in seeds:
        for off, ty, path, n in e.counts:
            key = (cls, path.split('[')[0] + path.split('.')[-1])
            if seen.get(key, 0) >= per:
                continue
            seen[key] = seen.get(key, 0) + 1
            width = wire.SIZE[ty]
            top = 2 ** (8 * width) - 1
            for v in {0, 1, n + 1, n + 1000, top, top - 6, top - 7,
                      top // 2 + 1, 3}:
                data = bytearray(e.b)
                data[off:off + width] = (v & top).to_bytes(width, 'big')
                yield bytes(data)
                yield bytes(data) + bytes(400)


def judge(run, b, data):
    t = data[2] if len(data) > 2 else None
    tape = work.Tape(data)
    run.case(data if len(data) > 12 else None,
             {'octets': data[:48].hex(), 'length': len(data)}
             if run.evaluations % 2999 == 3 else None)
    traced = tracemalloc.is_tracing()
    if traced:
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    name = wire.PDU_TYPES.get(t, 'unknown')
    try:
        p = b.factory.getPdu(b.In(tape))
    except Alarm:
        run.violation(f'{name}:unbounded-time', f'{name}: 20 s of CPU time for '
                      f'{len(data)} octets', {'octets': data})
        run.see('alarms')
        if run.observed['alarms'] >= 4:
            raise Enough
        return
    except Exception as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        run.see('rejected')
        run.see(f'rejected with {type(e).__name__}')
        if t == 29 and isinstance(e, NameError) and \
                str(e) == "name 'null' is not defined" and any(data[29:33]):
            run.violation('UaPdu:null-records', 'a UaPdu that declares records '
                          f'raised {core.exc_text(e)}')
        elif not rejected(e, t):
            run.violation(f'{name}:{type(e).__name__}',
                          f'{name}: {len(data)} hostile octets raised '
                          f'{core.exc_text(e)}', {'octets': data})
    else:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        run.see('decoded')
        if t in wire.PDU_TYPES:
            if p is None or type(p) is not b.cls(name):
                run.violation(f'{name}:type', f'{name}: decoded to '
                              f'{type(p).__name__}', {'octets': data})
            else:
                biggest = size(p)
                run.see('elements held', biggest)
                if biggest > 40 * len(data) + 4000:
                    run.violation(f'{name}:memory', f'{name}: {len(data)} '
                                  f'octets decoded to {biggest} elements',
                                  {'octets': data})
                if tape.short:
                    run.violation(f'{name}:short-read', f'{name} was decoded '
                                  'although a read came short',
                                  {'octets': data})
        elif p is not None:
            run.violation(f'type-{t}', f'PDU type {t} decoded to '
                          f'{type(p).__name__}', {'octets': data})
    if traced:
        run.see('memory peaks watched')
        p = tracemalloc.get_traced_memory()[1] - before
        run.observed['largest peak, octets'] = max(
            p, run.observed.get('largest peak, octets', 0))
        if p > LARGEST + 1000 * len(data):
            run.violation(f'{name}:memory-peak', f'{name}: {len(data)} octets '
                          f'took {p >> 20} MB of memory to decode',
                          {'octets': data})
            run.see('alarms')
            if run.observed['alarms'] >= 4:
                raise Enough
    if tape.unbounded:
        run.violation(f'{name}:unbounded-read', f'{name}: a read without a '
                      'length', {'octets': data})
    if tape.reads > 4 * len(data) + 200:
        run.violation(f'{name}:reads', f'{name}: {tape.reads} reads for '
                      f'{len(data)} octets', {'octets': data})


def size(o, depth=0):
    """Elements reachable from a decoded object."""
    if depth > 12 or isinstance(o, (int, float, str, type(None))):
        return 1
    if isinstance(o, (bytes, bytearray)):
        return len(o) // 8 + 1
    if isinstance(o, dict):
        return 1 + sum(size(v, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return 1 + sum(size(v, depth + 1) for v in o)
    return 1 + sum(size(v, depth + 1) for v in core.attributes(o).values())


def canary(run, b, canaries):
    """Well-formed traffic after hostile traffic."""
    for cls, m, e in run.rng.sample(canaries, min(20, len(canaries))):
        run.see('canaries')
        try:
            p = b.factory.createPdu(bytes(e.b))
            d = b.diff(m, p)
            x = wire.mask_diff(e, work.encode(b, p))
            q = work.encode(b, b.cls(cls)())
        except Exception as ex:
            d, x = [repr(ex)], None
            q = b''
        if d or x:
            run.violation(f'{cls}:after-hostile', f'after hostile traffic a '
                          f'well-formed {cls} is wrong: {d[:1] or x}',
                          {'octets': bytes(e.b)})
        if any(q[12:]) or not q:
            run.violation(f'{cls}:default-after-hostile', f'after hostile '
                          f'traffic a new {cls} is not blank', {'octets': q})


def state(b):
    """Mutable containers of the modules and classes of the package."""
    import sys
    out = {}
    for name, mod in list(sys.modules.items()):
        if not name.startswith('opendis') or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('_'):
                continue    # caches and the like are nobody's concern
            if isinstance(v, (list, dict, set, bytearray)):
                out[f'{name}.{k}'] = repr(v)
            elif isinstance(v, type) and v.__module__ == name:
                for a, x in list(vars(v).items()):
                    if a[0] != '_' and isinstance(
                            x, (list, set, dict, bytearray)):
                        out[f'{name}.{k}.{a}'] = repr(x)
    return out
