"""W02: decoding a well-formed datagram recovers every field."""
import copy
import io

from lib import wire, work
from checks.w01 import strip

RULE = ('a case is one well-formed datagram made by the independent reference '
        'encoder (paddings random), decoded through the factory and compared '
        'field by field with the values it was made from; distinct by octets; '
        'non-trivial when octets after the header are non-zero')


def used(run, b, w, cls):
    """A used object, its lists emptied, decodes as a new one does."""
    rng = run.rng
    for i in range(run.scale(30, 400)):
        m0, m = [w.grown(cls) if rng.random() < 0.5 else
                 w.one(cls, rng.randrange(9), 'sweep') if rng.random() < 0.6
                 else w.one(cls) for _ in 'ab']
        if i % 3 == 2:  # of the same shape, some of it blank
            m = copy.deepcopy(m0)
            work.blanks(m, rng)
            if not work.consistent(m):
                continue
        w.gen.mode = 'rand'
        if rng.random() < 0.5:
            o = b.build(m0)
        else:
            o = work.decode(b, cls, bytes(wire.encode_full(m0).b))
        work.emptied(m0, o)
        data = wire.noisy(wire.encode_full(m), rng)
        run.case(data if work.nonzero(data) else None)
        run.see('decoded by a used object')
        try:
            o.parse(b.In(io.BytesIO(data)))
        except Exception as e:
            run.violation(f'{cls}:used-raises', f'decoding a well-formed {cls} '
                          f'with a used object raised {e!r}', {'octets': data})
            continue
        d = b.diff(m, o)
        if d:
            p, want, have = d[0]
            run.violation(f'{cls}:used:{strip(p)}', f'{cls}.{p}: the datagram '
                          f'says {want!r}, a used object has {have!r}',
                          {'octets': data, 'differences': d})


def check(run):
    b = wire.Bridge(share=True)
    w = work.Workload(run, pads=True)
    for cls in wire.PDUS + wire.ENCODE_ONLY:
        for m in w.models(cls, sweep=run.scale(128, 256),
                          rand=run.scale(150, 3000),
                          lengths=run.scale((0, 1, 2, 5, 17, 128, 255),
                                            (0, 1, 2, 3, 5, 17, 127, 128, 254,
                                             255, 256, 1000)),
                          literal_budget=run.scale(400, 2000)):
            ref = wire.encode_full(m)
            data = wire.noisy(ref, run.rng) if run.rng.random() < 0.5 else \
                bytes(ref.b)
            run.case(data if work.nonzero(data) else None,
                     {'class': cls, 'octets': data[:64].hex()}
                     if run.evaluations % 4001 == 7 else None)
            try:
                o = work.decode(b, cls, data)
            except Exception as e:
                run.violation(f'{cls}:decode-raises',
                              f'decoding a well-formed {cls} raised {e!r}',
                              {'octets': data})
                continue
            if type(o) is not b.cls(cls):
                run.violation(f'{cls}:class', f'a {cls} datagram decoded to '
                              f'{type(o).__name__}', {'octets': data})
                continue
            d = b.diff(m, o)
            run.see('datagrams decoded')
            run.see('octets decoded', len(data))
            if d:
                p, want, have = d[0]
                run.violation(f'{cls}:{strip(p)}', f'{cls}.{p}: the datagram '
                              f'says {want!r}, decoded {have!r}',
                              {'octets': data, 'differences': d})
        used(run, b, w, cls)
        run.see('PDU classes decoded')
    run.need('decoded by a used object', 1000)
    run.need('PDU classes decoded', len(wire.PDUS) + 2)
    run.need('datagrams decoded', 5000)
    run.assumptions.append('wire.spec is the audited layout of the fields this '
                           'library declares')
