"""R06: variable parameter records are sixteen octets and travel unharmed."""
import io

from lib import wire, work

RULE = ('a case is one variable parameter record, encoded on its own or in '
        'the list of a PDU, received generically, relayed and read back as its'
        ' own kind; distinct by octets; non-trivial when not all octets are '
        'zero')

KINDS = ['ArticulatedParts', 'AttachedParts', 'SeparationVP', 'EntityTypeVP',
         'EntityAssociation', 'VariableParameter']
HOSTS = [c for c in wire.PDUS + ['FastEntityStatePdu'] if any(
    f.kind == 'list' and f.type == 'VariableParameter'
    for f in wire.fields(c))]


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run)
    for kind in KINDS:
        for m in w.models(kind, sweep=256, rand=run.scale(600, 6000),
                          literal_budget=200):
            single(run, b, kind, m)
    for cls in HOSTS:
        w.setup(cls)
        for i in range(run.scale(300, 4000)):
            n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if i % 50 else 255
            hosted(run, b, w, cls, n)
        for _ in range(run.scale(300, 4000)):
            arbitrary(run, b, w, cls)
    run.need('records of sixteen octets', 5000)
    run.need('records relayed', 4000)
    run.need('records read as their own kind', 2500)
    run.need('arbitrary records relayed', 1500)


def single(run, b, kind, m):
    o = b.build(m)
    got = work.encode(b, o)
    ref = wire.encode_full(m)
    run.case(got if any(got) else None, {'kind': kind, 'octets': got.hex()}
             if run.evaluations % 997 == 3 else None)
    run.see('records of sixteen octets')
    if len(got) != 16:
        run.violation(f'{kind}:size', f'{kind} is {len(got)} octets')
        return
    d = wire.mask_diff(ref, got)
    if d:
        run.violation(f'{kind}:octets', f'{kind}: {d}', {'octets': got})
    s = io.BytesIO(bytes(ref.b) + b'\x99')
    p = b.cls(kind)()
    p.parse(b.In(s))
    d = b.diff(m, p)
    if d or s.tell() != 16:
        run.violation(f'{kind}:values', f'{kind}: {d[:1]}; stream at '
                      f'{s.tell()}', {'octets': got})


def hosted(run, b, w, cls, n):
    """The list of a PDU holds records of any kind."""
    rng = run.rng
    w.gen.maxlist = 1
    m = w.one(cls)
    m['variableParameters'] = []
    for _ in range(n):
        w.gen.mode = 'rand'
        m['variableParameters'].append(w.gen.record(rng.choice(KINDS)))
    o = b.build(m)
    if cls == 'FastEntityStatePdu':
        o.numberOfVariableParameters = n
    got = work.encode(b, o)
    ref = wire.encode_full(m)
    run.case(got)
    d = wire.mask_diff(ref, got)
    if d:
        run.violation(f'{cls}:octets', f'{cls} with {n} records: {d}',
                      {'octets': got})
        return
    if cls not in wire.PDUS:
        return
    p = b.factory.createPdu(got)
    if len(p.variableParameters) != n:
        run.violation(f'{cls}:count', f'{cls} with {n} records is received '
                      f'with {len(p.variableParameters)}')
        return
    back = work.encode(b, p)
    run.see('records relayed', n)
    if back[len(back) - 16 * n:] != got[len(got) - 16 * n:] or \
            len(back) != len(got):
        run.violation(f'{cls}:relay', f'{cls} with {n} records is sent on '
                      'changed', {'octets': got, 'relayed': back})
        return
    for i, e in enumerate(m['variableParameters']):
        x = work.encode(b, p.variableParameters[i])
        q = b.cls(e['_c'])()
        q.parse(b.In(io.BytesIO(x)))
        run.see('records read as their own kind')
        d = b.diff(e, q)
        if d:
            run.violation(f'{cls}:{e["_c"]}', f'{e["_c"]} sent in a {cls} '
                          f'arrives with {d[0]}', {'octets': got})


def arbitrary(run, b, w, cls):
    """Any sixteen octets at all are relayed as they are."""
    rng = run.rng
    if cls not in wire.PDUS:
        return
    m = w.one(cls)
    m['variableParameters'] = []
    head = wire.encode_full(m)
    n = rng.randint(1, 4)
    f = next(f for f in wire.fields(cls) if f.kind == 'count'
             and f.ref == 'variableParameters')
    at = [o for o, t, p, _ in head.counts if p == f'#{f.name}'][0]
    raw = b''.join(rng.choice([
        rng.randbytes(16), bytes(16), b'\xff' * 16,
        # NaNs, infinities and denormals where numbers are expected
        bytes([rng.randrange(256)]) + rng.choice(
            [b'\x7f\xf0\0\0\0\0\0\1', b'\xff\xf7' + b'\xff' * 6,
             b'\x7f\xf8\0\0\0\0\0\0', b'\0\0\0\0\0\0\0\1', b'\x80' + b'\0' * 7,
             b'\xff\xf0\0\0\0\0\0\0']) + rng.randbytes(7),
        bytes([0, 1]) + rng.randbytes(6) + b'\x7f\x80\0\1' + rng.randbytes(4),
    ]) for _ in range(n))
    data = bytearray(head.b) + raw
    data[at] = n
    data = bytes(data)
    run.case(data)
    p = b.factory.createPdu(data)
    back = work.encode(b, p)
    run.see('arbitrary records relayed', n)
    if len(back) != len(data) or back[len(back) - len(raw):] != raw:
        run.violation(f'{cls}:arbitrary', f'{cls}: records {raw.hex()} are '
                      f'sent on as {back[len(data) - len(raw):].hex()}',
                      {'octets': data})
