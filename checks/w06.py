"""W06: counts and lengths always state what is really there."""
from lib import wire, work

RULE = ('a case is one object whose lists were brought to chosen lengths '
        '(0 to the largest the count field holds, directly or through '
        'appends, removals and a decode), encoded, and whose every count and '
        'length field on the wire is compared with the number of elements '
        'really following; distinct by octets; non-trivial when some list is '
        'not empty')

QUICK = tuple(range(36)) + (64, 100, 127, 128, 200, 255)
LARGE = (256, 257, 300, 511, 512, 1000, 1023, 1024, 4095, 8191)
VARYING = ('list', 'vardatum', 'iff', 'data', 'radio')
HUGE = (16383, 16384, 32767, 32768, 65534, 65535, 65536, 70000)


def check(run):
    b = wire.Bridge(share=True)
    own = wire.Bridge()  # what is edited is listed once
    rng = run.rng
    w = work.Workload(run)
    hosts = [c for c in wire.PDUS + wire.ENCODE_ONLY + wire.RECORDS
             if list(work.lists(w.grown(c))) or
             any(f.kind in ('count', 'special') for f in wire.fields(c))]
    for cls in hosts:
        for n in QUICK + (LARGE if run.thorough else
                          (256, 1000)):
            for m in w.with_lengths(cls, n):
                if rng.random() < 0.4:
                    work.twins(m, rng)
                one(run, b, cls, m, n)
        for n in HUGE if run.thorough else \
                (40000, 65536) if rng.random() < 0.12 else (5000,):
            for m in big(w, cls, n):
                one(run, b, cls, m, n)
        for _ in range(run.scale(40, 600)):
            w.setup(cls)
            m = w.one(cls)
            if rng.random() < 0.5:
                work.twins(m, rng)
            one(run, b, cls, m, -1)
        for m in w.models(cls, sweep=16, rand=run.scale(40, 400), lengths=(),
                          literal_budget=run.scale(120, 1000),
                          small=run.scale(60, 600)):
            one(run, b, cls, m, -1)
        run.see('classes with counts')
    for cls in hosts:
        for _ in range(run.scale(12, 200)):
            lifecycle(run, own, w, cls)
    run.need('counts compared', 5000)
    run.need('classes with counts', 30)
    run.need('life cycles', 300)


def big(w, cls, n):
    """Lists of small elements at 16 and 32-bit sizes."""
    for i, (owner, lf) in enumerate(list(work.lists(w.grown(cls)))):
        width = work.count_width(owner['_c'], lf)
        if width == 'u8' or lf.type == 'NONE':
            continue
        if n * lf.mul_total > 65535 and width == 'u16':
            continue
        if lf.type.startswith('SV.'):
            continue
        m = w.one(cls, mode='zeros')
        ls = list(work.lists(m))
        if i >= len(ls) or ls[i][1].name != lf.name:
            continue
        owner, lf = ls[i]
        e = w.element(lf)
        if isinstance(e, dict) and len(wire.encode(e)) > 16:
            continue
        owner[lf.name] = [e] * n
        yield m


def one(run, b, cls, m, n):
    if '_type' not in m and cls in wire.SV_CODE:
        m['_type'] = wire.SV_CODE[cls]
    o = b.build(m, run.rng if n < 400 else None)
    compare(run, b, cls, m, o, f'lists of {n}')


def compare(run, b, cls, m, o, how):
    try:
        ref = wire.encode_sv(m) if cls in wire.SV_CODE else wire.encode_full(m)
    except OverflowError:  # some length does not fit its field
        try:
            got = work.encode(b, o)
        except Exception:
            run.see('unrepresentable lengths refused')
        else:
            run.violation(f'{cls}:unrepresentable', f'{cls} with {how}: a '
                          'length that does not fit its field was sent',
                          {'got': got[:400]})
        return False
    try:
        got = work.encode(b, o)
    except Exception as e:
        run.violation(f'{cls}:raises', f'{cls} with {how} raised {e!r}')
        return False
    run.case(got if any(v for _, _, _, v in ref.counts) else None,
             {'class': cls, 'how': how, 'counts':
              [(p, v) for _, _, p, v in ref.counts[:4]]}
             if run.evaluations % 997 == 3 else None)
    for off, ty, path, value in ref.counts:
        run.see('counts compared')
        k = wire.SIZE[ty]
        have = int.from_bytes(got[off:off + k], 'big')
        if have != value:
            run.violation(f'{cls}:{path.split("[")[0]}:{path.split("#")[-1]}',
                          f'{cls} with {how}: {path} on the wire says {have}, '
                          f'there are {value}', {'got': got[:400]})
            return False
    if len(got) != len(ref.b):
        run.violation(f'{cls}:total', f'{cls} with {how}: {len(got)} octets '
                      f'for contents of {len(ref.b)}', {'got': got[:400]})
        return False
    for f in wire.fields(cls):
        if f.kind == 'count' and f.name and hasattr(o, f.name) and \
                cls != 'FastEntityStatePdu':  # a plain attribute there
            run.see('count attributes compared')
            if getattr(o, f.name) != wire.count_value(f, m):
                run.violation(f'{cls}.{f.name}', f'{cls}.{f.name} is '
                              f'{getattr(o, f.name)}, there are '
                              f'{wire.count_value(f, m)}')
                return False
    size = getattr(o, 'marshalledSize', None)
    if callable(size):
        run.see('sizes compared')
        if size() != len(got):
            run.violation(f'{cls}:marshalledSize', f'{cls} says it takes '
                          f'{size()} octets, it takes {len(got)}')
            return False
    return True


def lifecycle(run, b, w, cls):
    """Counts follow appends, removals and decoding."""
    from checks.w03 import list_edit, special_edit
    rng = run.rng
    w.setup(cls)
    m = w.one(cls)
    if cls in wire.SV_CODE:
        m['_type'] = wire.SV_CODE[cls]
    o = b.build(m, rng)
    run.see('life cycles')
    for _ in range(rng.randint(3, 12)):
        slots = [s for s in work.pairs(m, o) if s[0] in VARYING]
        if not slots:
            return
        s = rng.choice(slots)
        log = []
        w.gen.mode = 'rand'
        if s[0] == 'list':
            list_edit(b, w, s[1], s[2], s[3], log)
        else:
            special_edit(b, w, s, log)
        if rng.random() < 0.7 and not compare(run, b, cls, m, o, str(log)):
            return
        if rng.random() < 0.2 and cls in wire.PDUS:
            data = wire.encode(m)
            try:
                o = b.factory.createPdu(data)
            except Exception as e:
                run.violation(f'{cls}:decode', f'{cls} raised {e!r}')
                return
            d = [x for x in b.diff(m, o) if 'len' in x[0] or
                 'umber' in x[0] or 'ount' in x[0]]
            if d:
                run.violation(f'{cls}:decoded-count', f'{cls}: {d[0]}',
                              {'octets': data})
                return
