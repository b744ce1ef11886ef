"""R08: a Transmitter's variable sections are delimited by their lengths and
identified by its type fields."""
import io

from lib import wire, work

RULE = ('a case is one Transmitter PDU with chosen radio system, antenna '
        'pattern type, modulation parameters, antenna pattern and variable '
        'records, decoded from octets made independently, judged on which '
        'record each section became and on where every section starts and '
        'ends, then edited and encoded again; distinct by octets; non-trivial '
        'when a section is present')

KNOWN_MP = {2: 'BasicHaveQuickMP', 3: 'BasicHaveQuickMP',
            4: 'BasicHaveQuickMP', 6: 'CCTTSincgarsMP'}


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, pads=True)
    w.setup('TransmitterPdu')
    systems = list(range(0, 40)) + [255, 256, 257, 258, 260, 262, 512, 514,
                                    518, 32768 + 2, 65535, 1536]
    systems += [rng.randrange(65536) for _ in range(40)]
    pats = list(range(0, 12)) + [255, 256, 257, 513, 32769, 65535]
    for rep in range(run.scale(3, 30)):
        for rs in systems:
            for ap in rng.sample(pats, 5) + [1, 0]:
                one(run, b, w, rs, ap)
    if run.thorough:
        for rs in range(65536):
            one(run, b, w, rs, rng.choice(pats))
        for ap in range(65536):
            one(run, b, w, rng.choice(systems), ap)
    for n in range(1, 256):
        sizes(run, b, w, n, None)
    for n in list(range(1, 400)) + [1024, 1031, 4096, 32760, 32768, 65528]:
        sizes(run, b, w, None, n)
    for cls in ('GenericRadio', 'SimpleIntercomRadio'):
        empty(run, b, w, cls)
    too_long(run, b, w)
    run.need('modulation parameters decoded', 1000)
    run.need('antenna patterns decoded', 1000)
    run.need('unknown sections kept', 1000)
    run.need('sections edited', 1500)
    run.need('overlong sections refused', 5)


def model(w, rs, ap, mp_len=None, ap_len=None, mp=None, pat=None):
    r = w.run.rng
    m = w.one('TransmitterPdu')
    m['modulationType']['radioSystem'] = rs
    m['modulationType']['majorModulation'] = r.choice(
        [0, 1, 2, 6, r.randrange(65536)])
    m['antennaPatternType'] = ap
    m['modulationParameters'] = m['antennaPattern'] = None
    w.gen.mode = 'rand'
    has = r.random() < 0.75 if mp is None else mp
    other = r.random() < 0.2    # a length that is not the known record's
    if has and rs in KNOWN_MP and not other and mp_len in (None, 16):
        m['modulationParameters'] = w.gen.record(KNOWN_MP[rs])
    elif has:
        n = mp_len or r.choice([8, 16, 24, 40, 128, 248, r.randint(1, 255)])
        if rs in KNOWN_MP and n == 16:
            n = 24
        m['modulationParameters'] = {'_c': 'UnknownRadio',
                                     'data': r.randbytes(n)}
    has = r.random() < 0.75 if pat is None else pat
    if has and ap == 1 and not other and ap_len in (None, 40):
        m['antennaPattern'] = w.gen.record('BeamAntennaPattern')
    elif has:
        n = ap_len or r.choice([8, 16, 24, 40, 128, 320, r.randint(1, 999)])
        if ap == 1 and n == 40:
            n = 48
        m['antennaPattern'] = {'_c': 'UnknownAntennaPattern',
                               'data': r.randbytes(n)}
    return m


def one(run, b, w, rs, ap):
    judge(run, b, w, model(w, rs, ap))


def judge(run, b, w, m):
    rng = run.rng
    ref = wire.encode_full(m)
    data = bytes(ref.b)
    mp, ap = m['modulationParameters'], m['antennaPattern']
    what = (f"radio system {m['modulationType']['radioSystem']}, antenna type "
            f"{m['antennaPatternType']}, "
            f"{wire.size(mp)}+{wire.size(ap)} octets")
    run.case(data if mp or ap else None, what
             if run.evaluations % 499 == 3 else None)
    s = io.BytesIO(data + rng.randbytes(rng.choice([0, 3, 40])))
    try:
        p = b.factory.getPdu(b.In(s))
    except Exception as e:
        run.violation('decode', f'{what}: raised {e!r}', {'octets': data})
        return None
    for name, x in (('modulationParameters', mp), ('antennaPattern', ap)):
        got = getattr(p, name)
        if x is None:
            if got is not None and got.marshalledSize():
                run.violation(name, f'{what}: {name} of no octets became '
                              f'{type(got).__name__}', {'octets': data})
            continue
        run.see('modulation parameters decoded' if name[0] == 'm' else
                'antenna patterns decoded')
        if type(got).__name__ != x['_c']:
            run.violation(name, f'{what}: {name} became '
                          f'{type(got).__name__}, not {x["_c"]}',
                          {'octets': data})
            return None
        if 'data' in x:
            run.see('unknown sections kept')
            if bytes(got.data) != x['data']:
                run.violation(name + ':data', f'{what}: {name} lost octets',
                              {'octets': data})
    d = b.diff(m, p)
    if d or s.tell() != len(data):
        run.violation('values', f'{what}: {d[:1]}; ended at {s.tell()} of '
                      f'{len(data)}', {'octets': data})
        return None
    if p.modulationParametersLength != wire.size(mp) or \
            p.antennaPatternLength != wire.size(ap) or \
            p.variableTransmitterParameterCount != \
            len(m['variableTransmitterParameters']):
        run.violation('lengths', f'{what}: lengths read '
                      f'{p.modulationParametersLength}, '
                      f'{p.antennaPatternLength}', {'octets': data})
    d = wire.mask_diff(ref, work.encode(b, p))
    if d:
        run.violation('relay', f'{what}: sent on with {d}', {'octets': data})
        return None
    edit(run, b, w, m, p)
    return p


def edit(run, b, w, m, p):
    """Another radio, another antenna, or none: the lengths follow."""
    rng = run.rng
    for _ in range(rng.randint(0, 2)):
        n = model(w, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 40]),
                  rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.7:
            m['modulationType']['radioSystem'] = \
                n['modulationType']['radioSystem']
            m['modulationParameters'] = n['modulationParameters']
            p.modulationType.radioSystem = m['modulationType']['radioSystem']
            x = m['modulationParameters']
            p.modulationParameters = b.build(x) if x else None
        if rng.random() < 0.7:
            m['antennaPatternType'] = p.antennaPatternType = \
                n['antennaPatternType']
            m['antennaPattern'] = x = n['antennaPattern']
            p.antennaPattern = b.build(x) if x else None
        x = m['modulationParameters']
        if x and 'data' in x and rng.random() < 0.4:
            x['data'] = rng.randbytes(rng.randint(1, 255))
            p.modulationParameters.data = x['data']
        x = m['antennaPattern']
        if x and 'data' in x and rng.random() < 0.4:
            x['data'] = rng.randbytes(rng.randint(1, 600))
            p.antennaPattern.data = x['data']
        run.see('sections edited')
        ref = wire.encode_full(m)
        got = work.encode(b, p)
        run.case(got)
        d = wire.mask_diff(ref, got)
        if d:
            run.violation('edited', f'an edited Transmitter is sent with {d}',
                          {'octets': got})
            return


def sizes(run, b, w, mp_len, ap_len):
    rng = run.rng
    for _ in range(run.scale(2, 10)):
        judge(run, b, w, model(w, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 300]),
                               rng.choice([0, 1, 2, 3, 300]), mp_len, ap_len,
                               mp=mp_len is not None or None,
                               pat=ap_len is not None or None))


def empty(run, b, w, cls):
    """Radios without parameters occupy no octets."""
    for _ in range(30):
        m = model(w, 1, run.rng.choice([0, 1, 2]), mp=False)
        o = b.build(m)
        o.modulationParameters = b.cls(cls)()
        got = work.encode(b, o)
        run.case((cls, got))
        d = wire.mask_diff(wire.encode_full(m), got)
        if d:
            run.violation(cls, f'a {cls} is sent with {d}', {'octets': got})


def too_long(run, b, w):
    for n, attr, cls in ((256, 'modulationParameters', 'UnknownRadio'),
                         (264, 'modulationParameters', 'UnknownRadio'),
                         (512, 'modulationParameters', 'UnknownRadio'),
                         (65536, 'antennaPattern', 'UnknownAntennaPattern'),
                         (65544, 'antennaPattern', 'UnknownAntennaPattern')):
        m = model(w, 0, 0, mp=False, pat=False)
        o = b.build(m)
        x = b.cls(cls)()
        x.data = run.rng.randbytes(n)
        setattr(o, attr, x)
        run.case((attr, n))
        try:
            work.encode(b, o)
        except Exception:
            run.see('overlong sections refused')
        else:
            run.violation(f'{attr}:overlong', f'a {attr} of {n} octets was '
                          'sent')
