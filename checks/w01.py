"""W01: every PDU encodes to the octets its layout prescribes."""
import enum
import io

from lib import wire, work

RULE = ('a case is one PDU object built through public attributes from a '
        'generated field assignment, encoded by the real code and compared '
        'octet by octet with an independent reference encoder; distinct by '
        'its octets; non-trivial when octets after the header are non-zero')


def check(run):
    b = wire.Bridge(share=True)
    b.loose = True
    w = work.Workload(run, inexact=True)
    masks = {}
    for cls in wire.PDUS + wire.ENCODE_ONLY:
        for m in w.models(cls, sweep=run.scale(128, 256),
                          rand=run.scale(150, 3000),
                          lengths=run.scale((0, 1, 2, 5, 17, 128, 255),
                                            (0, 1, 2, 3, 5, 17, 127, 128, 254,
                                             255, 256, 1000)),
                          literal_budget=run.scale(400, 2000)):
            w.gen.pads = run.rng.random() < 0.4     # of the next model
            if run.rng.random() < 0.2:
                integral_floats(m, run.rng)
            if run.rng.random() < 0.1:
                kinds_of_int(m, run.rng)
            obj = b.build(m, run.rng)
            try:
                got = work.encode(b, obj)
            except Exception as e:
                run.case()
                run.violation(f'{cls}:encode-raises',
                              f'encoding a valid {cls} raised {e!r}', m)
                continue
            ref = wire.encode_full(m)
            d = wire.mask_diff(ref, got)
            run.case(got if work.nonzero(got) else None,
                     {'class': cls, 'octets': got[:64].hex(),
                      'length': len(got)} if run.evaluations % 4001 == 7
                     else None)
            run.see('octets compared', len(got))
            if d:
                run.violation(f'{cls}:{strip(d[1])}',
                              f'{cls} octet {d[0]} ({d[1]}): layout gives '
                              f'{d[2]:#x}, encoder gave {d[3]:#x}',
                              {'model': m, 'expected': bytes(ref.b),
                               'got': got})
            acc = masks.setdefault(cls, [0, 0])
            for x in got[12:80]:
                acc[0] |= x
                acc[1] |= ~x & 255
        run.see('PDU classes encoded')
    point_object(run, b)
    live_entity(run, b)
    run.need('PDU classes encoded', len(wire.PDUS) + 2)
    run.need('octets compared', 100000)
    run.assumptions.append('wire.spec is the audited layout of the fields this '
                           'library declares')


def integral_floats(m, rng):
    """Whole-numbered floats given as ints, as users write them."""
    for owner, key, ty in list(work.scalars(m)):
        v = owner[key]
        if ty in wire.FLT and v == v and abs(v) < 2 ** 24 and v and \
                v == int(v) and rng.random() < 0.5:
            owner[key] = int(v)


class Code(enum.IntEnum):
    """Users give enumerations their own names."""
    ZERO, ONE, TWO, THREE = range(4)
    SEVEN, HIGH, LAST = 7, 128, 255


def kinds_of_int(m, rng):
    """Truth values and members of enumerations in place of integers."""
    for owner, key, ty in list(work.scalars(m)):
        if ty in wire.INT and key not in ('radioSystem', 'antennaPatternType',
                                          'recordType', 'protocolFamily'):
            c = rng.random()
            if c < 0.2 and wire.INT[ty] != (1, True):
                owner[key] = rng.choice(list(Code))
            elif c < 0.3:
                owner[key] = rng.random() < 0.5


def strip(path):
    import re
    return re.sub(r'\[\d+\]', '[]', path)


def point_object(run, b):
    """The declared type of the appearance is a 32-bit structure, then 16 bits
    of padding after the modifications; the encoder sends a float64."""
    o = b.cls('PointObjectStatePdu')()
    o.objectAppearance = 1
    z = work.encode(b, b.cls('PointObjectStatePdu')())
    got = work.encode(b, o)
    at = [i for i in range(len(got)) if got[i] != z[i]]
    run.case(('point', got))
    if at and got[at[0]:at[0] + 2] == b'\x3f\xf0':
        run.violation('PointObjectStatePdu.objectAppearance-as-double',
                      'objectAppearance=1 is sent as the float64 1.0')
    elif [got[i] for i in at] != [1]:
        run.violation('PointObjectStatePdu.objectAppearance',
                      f'objectAppearance=1 changed octets {at}')


def live_entity(run, b):
    """The abstract header of the live entity PDUs, through a PDU of one's
    own: as long as the other headers."""
    rng = run.rng
    live = type('LivePdu', (b.cls('LiveEntityPdu'),),
                {'pduType': 70, 'protocolFamily': 11})
    p = live()
    for i in range(300):
        v = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
             for _ in range(3)]
        t, n = rng.getrandbits(32), rng.getrandbits(16)
        want = bytes([v[0], v[1], 70, 11]) + t.to_bytes(4, 'big') + \
            n.to_bytes(2, 'big') + bytes([v[2], 0])
        o = live()
        o.protocolVersion, o.exerciseID, o.subprotocolNumber = v
        o.timestamp, o.length = t, n
        got = work.encode(b, o)
        run.case(('live', want))
        p = live() if i % 2 else o if i % 4 else p  # new or used
        p.parse(b.In(io.BytesIO(want)))
        back = [p.protocolVersion, p.exerciseID, p.subprotocolNumber]
        if got != want or back != v or (p.timestamp, p.length) != (t, n):
            run.violation('LiveEntityPdu', f'a live entity header {want.hex()}'
                          f' is sent as {got.hex()} and read as {back}')
