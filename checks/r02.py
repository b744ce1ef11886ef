"""R02: bit fields pack most significant first, exactly, and refuse misfits."""
from lib import wire, work

RULE = ('a case is one bit-field value packed or unpacked, compared with an '
        'independent shift-and-mask computation, or one value, layout or '
        'input that must be refused; distinct by layout and value; '
        'non-trivial when the value is not zero')


def layout(rng, total):
    out, left = [], total
    while left:
        w = rng.randint(1, min(left, rng.choice([1, 2, 3, 4, 8, 16, 32])))
        out.append(w)
        left -= w
    return out


def check(run):
    b = wire.Bridge()
    from opendis.record import bitfield
    factory(run, b, bitfield)
    layouts(run, bitfield)
    for rep in range(2):
        records(run, b)
    run.need('values packed and unpacked', 12000)
    run.need('layouts', 250)
    run.need('misfits refused', 2000)
    run.need('octet pairs through records', 3 * 65536)


def pack(widths, values):
    v = 0
    for w, x in zip(widths, values):
        v = v << w | x
    return v.to_bytes(sum(widths) // 8, 'big')


def unpack(widths, data):
    v = int.from_bytes(data, 'big')
    out = []
    for w in reversed(widths):
        out.append(v & (1 << w) - 1)
        v >>= w
    return out[::-1]


def factory(run, b, bitfield):
    rng = run.rng
    fixed = [[8], [16], [32], [1] * 8, [1] * 16, [1] * 32, [10, 2, 2, 2],
             [1, 1, 1, 13], [1, 1, 14], [4, 4], [3, 5], [5, 3], [31, 1],
             [1, 31], [17, 15], [12, 8, 12], [1, 30, 1], [7, 9], [9, 7],
             [24], [1] * 24, [23, 1], [1, 23], [8, 16], [16, 8], [9, 15],
             [12, 12], [7, 10, 7]]
    made = []
    for i in range(run.scale(260, 2500)):
        widths = fixed[i] if i < len(fixed) else layout(
            rng, rng.choice([8, 16, 24, 32]))
        total = sum(widths)
        names = [f'f{j}' for j in range(len(widths))]
        cls = bitfield.bitfield(rng.choice([f'B{i}', 'T', 'NetId']), [
            (n, bitfield.INTEGER, w) for n, w in zip(names, widths)])
        made.append((cls, names, widths))
        if rng.random() < 0.3:      # one made earlier is as it was
            cls, names, widths = rng.choice(made)
            total = sum(widths)
        run.see('layouts')
        if cls.marshalledSize() != total // 8:
            run.violation('size', f'{widths}: marshalledSize is '
                          f'{cls.marshalledSize()}')
        cases = [[0] * len(widths), [2 ** w - 1 for w in widths]]
        cases += [[(2 ** w - 1 if j == k else 0) for k, w in enumerate(widths)]
                  for j in range(len(widths))]
        cases += [[rng.getrandbits(w) for w in widths] for _ in range(60)]
        for vals in cases:
            want = pack(widths, vals)
            obj = cls(*vals) if rng.random() < 0.5 else cls(
                **dict(zip(names, vals)))
            got = work.encode(b, obj)
            run.see('values packed and unpacked')
            run.case((tuple(widths), want) if any(want) else None,
                     {'widths': widths, 'values': vals, 'octets': got.hex()}
                     if run.evaluations % 5003 == 3 else None)
            if got != want:
                run.violation('pack', f'{widths} {vals}: packs '
                              f'{got.hex()}, not {want.hex()}')
            obj = cls() if rng.random() < 0.5 else parse(
                b, cls, rng.randbytes(len(want)))[0]
            for j in rng.sample(range(len(widths)), len(widths)):
                setattr(obj, names[j], vals[j])
            got = work.encode(b, obj)
            run.see('fields assigned', len(widths))
            if got != want:
                run.violation('assign', f'{widths} set to {vals}: packs '
                              f'{got.hex()}, not {want.hex()}')
            back, pos = parse(b, cls, want + b'\xee')
            seen = [getattr(back, n, None) for n in names]
            if seen != vals or pos != len(want):
                run.violation('unpack', f'{widths} {want.hex()}: unpacks '
                              f'{seen}, not {vals}, and moves {pos}')
        for k, w in enumerate(widths):
            for bad in (2 ** w, 2 ** w + 1, -1, 2 ** 32, 2 ** 64,
                        2 ** (w + 1)):
                vals = [rng.getrandbits(x) for x in widths]
                vals[k] = bad
                refused(run, f'{widths} {vals}', 'misfit',
                        lambda: work.encode(b, cls(*vals)))
                refused(run, f'{names[k]} of {widths} set to {bad}',
                        'assigned misfit',
                        lambda: assign(b, cls(), names[k], bad))
        for n in range(total // 8):
            refused(run, f'{widths} of {n} octets', 'short',
                    lambda: parse(b, cls, b'\x55' * n))


def assign(b, obj, name, value):
    setattr(obj, name, value)
    return work.encode(b, obj)


def parse(b, cls, data):
    import io
    s = io.BytesIO(data)
    o = cls.parse(b.In(s))
    return o, s.tell()


def refused(run, what, sig, call):
    run.case(('refused', what))
    try:
        out = call()
    except Exception:
        run.see('misfits refused')
    else:
        run.violation(sig, f'{what} was accepted: {out!r}')


def layouts(run, bitfield):
    rng = run.rng
    mk = lambda ws: bitfield.bitfield('X', [
        (f'f{i}', bitfield.INTEGER, w) for i, w in enumerate(ws)])
    bad = [[], [0], [0, 8], [8, 0], [-1, 9], [33], [33, 7], [40], [7], [9],
           [12], [1, 2], [15], [31], [32, 8], [32, 32], [16, 16, 16], [8] * 5,
           [24, 24], [1.0, 7], ['8']]
    for _ in range(200):
        ws = [rng.randint(1, 12) for _ in range(rng.randint(1, 6))]
        if sum(ws) % 8 or sum(ws) > 32:
            bad.append(ws)
    for ws in bad:
        refused(run, f'layout {ws}', 'layout', lambda: mk(ws))
    for t in ('CHAR', 'FLOAT', '', None, 'integer'):
        refused(run, f'type {t}', 'type',
                lambda: bitfield.bitfield('X', [('a', t, 8)]))


# record, layout: (attribute, width, boolean)
RECORDS = {
    'NetId': [('netNumber', 10), ('frequencyTable', 2), ('mode', 2),
              ('padding', 2)],
    'SpreadSpectrum': [('frequencyHopping', 1), ('pseudoNoise', 1),
                       ('timeHopping', 1), ('padding', 13)],
    'DEFireFlags': [('weaponOn', 1), ('stateUpdateFlag', 1), ('padding', 14)],
}


def records(run, b):
    """Every 16-bit value through the records of the standard."""
    rng = run.rng
    for name, lay in RECORDS.items():
        cls = b.cls(name)
        widths = [w for _, w in lay]
        shared = cls()
        order = list(range(65536))
        rng.shuffle(order)
        for i, v in enumerate(order):
            data = v.to_bytes(2, 'big')
            o = shared if i % 2 else cls()
            import io
            s = io.BytesIO(data + b'zz')
            o.parse(b.In(s))
            run.see('octet pairs through records')
            run.case((name, v) if v else None)
            want = unpack(widths, data)
            got = [getattr(o, n) for n, _ in lay if n != 'padding']
            if got != want[:-1] or s.tell() != 2:
                run.violation(f'{name}:parse', f'{name} of {data.hex()} reads '
                              f'{got}, not {want[:-1]}')
            if o.marshalledSize() != 2:
                run.violation(f'{name}:size', f'{name} size '
                              f'{o.marshalledSize()}')
            out = work.encode(b, o)
            if out != data:
                run.violation(f'{name}:relay', f'{name} of {data.hex()} is '
                              f'sent on as {out.hex()}')
            if i % 4 == 0:  # a fresh object given the same values
                n = cls()
                for (a, w), x in zip(lay, want):
                    if a != 'padding':
                        setattr(n, a, x)
                keep = v >> widths[-1] << widths[-1]
                out = work.encode(b, n)
                if out != keep.to_bytes(2, 'big'):
                    run.violation(f'{name}:serialize', f'{name} {want[:-1]} '
                                  f'is sent as {out.hex()}')
        for a, w in lay[:-1]:
            for bad in (2 ** w, -1, 2 ** 16, 2 ** 20 + 1, 2 ** w + 1):
                if name == 'SpreadSpectrum':
                    continue  # flags: any true value is 1
                o = cls()
                setattr(o, a, bad)
                refused(run, f'{name}.{a}={bad}', f'{name}:misfit',
                        lambda: work.encode(b, o))
