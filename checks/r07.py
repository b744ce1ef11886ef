"""R07: every record type is an exact codec on its own."""
import copy
import io

from lib import wire, work
from checks.w01 import strip

RULE = ('a case is one record built through public attributes, encoded and '
        'compared with the reference octets, and decoded from octets with '
        'arbitrary padding by a new and by a used object; distinct by class '
        'and octets; non-trivial when not all octets are zero')


def check(run):
    b = wire.Bridge()
    b.loose = True
    w = work.Workload(run, inexact=True)
    v = work.Workload(run, pads=True)
    for cls in wire.RECORDS:
        run.see('record classes')
        for m in w.models(cls, sweep=run.scale(64, 256),
                          rand=run.scale(60, 1500),
                          lengths=run.scale((0, 1, 2, 17, 255),
                                            (0, 1, 2, 3, 17, 255, 256, 700)),
                          literal_budget=run.scale(150, 1000),
                          small=run.scale(150, 4000)):
            w.gen.pads = run.rng.random() < 0.4
            encode(run, b, cls, m)
        for m in v.models(cls, sweep=run.scale(64, 256),
                          rand=run.scale(60, 1500),
                          lengths=run.scale((0, 1, 2, 17, 255),
                                            (0, 1, 2, 3, 17, 255, 256, 700)),
                          literal_budget=run.scale(150, 1000),
                          small=run.scale(150, 4000)):
            decode(run, b, v, cls, m)
    run.need('decoded by a used object', 4000)
    run.need('record classes', len(wire.RECORDS))
    run.need('records encoded', 8000)
    run.need('records decoded', 8000)


def reference(cls, m):
    if cls in wire.SV_CODE:
        m['_type'] = wire.SV_CODE[cls]
        return wire.encode_sv(m)
    return wire.encode_full(m)


def encode(run, b, cls, m):
    ref = reference(cls, m)
    o = b.build(m, run.rng)
    before = run.rng.choice((0, 0, 0, 3, 250, 1500, 9000))
    s = io.BytesIO(bytes(before))
    s.seek(before)
    try:
        o.serialize(b.Out(s))
        got = s.getvalue()[before:]
    except Exception as e:
        run.violation(f'{cls}:raises', f'encoding a {cls} raised {e!r}', m)
        return
    run.case((cls, got) if any(got) else None, {'class': cls,
             'octets': got[:64].hex()} if run.evaluations % 1999 == 3 else None)
    run.see('records encoded')
    d = wire.mask_diff(ref, got)
    if d:
        run.violation(f'{cls}:{strip(str(d[1]))}', f'{cls}: octet {d[0]} '
                      f'({d[1]}) is {d[3]}, not {d[2]}',
                      {'model': m, 'octets': got})
    size = getattr(o, 'marshalledSize', None)
    if size is not None and size() != len(ref.b):
        run.violation(f'{cls}:marshalledSize', f'{cls} of {len(ref.b)} octets '
                      f'says its size is {size()}')


def decode(run, b, w, cls, m):
    rng = run.rng
    ref = reference(cls, m)
    data = wire.noisy(ref, rng) if rng.random() < 0.4 else bytes(ref.b)
    p = b.cls(cls)()
    if rng.random() < 0.5:      # used before, and its lists emptied
        m0 = w.grown(cls) if rng.random() < 0.5 else w.one(cls)
        w.gen.mode = 'rand'
        if rng.random() < 0.2 and work.nonzero(data, 0):
            # the same one, blank in part
            m0, m = m, copy.deepcopy(m)
            work.blanks(m, rng)
            for o, key, ty in work.scalars(m):
                if ty in wire.INT and key not in work.FIXED and \
                        rng.random() < 0.2:
                    o[key] = 0
            ref = reference(cls, m)
            data = bytes(ref.b)
        old = bytes(reference(cls, m0).b)
        if rng.random() < 0.5:
            p = b.build({k: v for k, v in m0.items() if k != '_type'})
        else:
            p.parse(b.In(io.BytesIO(old[6 * (cls in wire.SV_CODE):])),
                    *args(cls, old))
        work.emptied(m0, p)
        run.see('decoded by a used object')
    before = rng.choice((0, 0, 1, 7, 64, 400, 1500, 9000))
    s = io.BytesIO(bytes(before) + data + b'\x44')
    s.seek(before)
    run.see('records decoded from within a stream', before > 0)
    if cls in wire.SV_CODE:
        s.read(6)
    run.case((cls, data) if any(data) else None)
    try:
        p.parse(b.In(s), *args(cls, data))
    except Exception as e:
        run.violation(f'{cls}:decode', f'decoding a {cls} raised {e!r}',
                      {'octets': data})
        return
    run.see('records decoded')
    d = b.diff({k: v for k, v in m.items() if k != '_type'}, p)
    if d:
        run.violation(f'{cls}:{strip(d[0][0])}', f'{cls}: {d[0]}',
                      {'octets': data})
    elif s.tell() - before != len(data):
        run.violation(f'{cls}:consumed', f'{cls} of {len(data)} octets '
                      f'consumed {s.tell() - before}', {'octets': data})
    else:
        back = work.encode(b, p)
        d = wire.mask_diff(ref, back)
        if d:
            run.violation(f'{cls}:relay:{strip(str(d[1]))}', f'{cls} is sent '
                          f'on with octet {d[0]} {d[3]}, not {d[2]}',
                          {'octets': data})


def args(cls, data):
    if cls in wire.SV_CODE or cls in wire.SIZED:
        return [len(data)]
    return []
