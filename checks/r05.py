"""R05: an entity's marking is its text, eleven ASCII characters at most."""
import io

from lib import wire, work

RULE = ('a case is one marking text set on a new, used or decoded marking, '
        'judged on the eleven octets sent, on the text read back by the '
        'receiver, and on the octets of the PDU around it; distinct by text '
        'and earlier text; non-trivial when the text is not empty')

HOSTS = [c for c in wire.PDUS if any(f.kind == 'rec' and
                                     f.type == 'EntityMarking'
                                     for f in wire.fields(c))]


def check(run):
    b = wire.Bridge()
    rng = run.rng
    texts = ['', 'A', 'Igor3d', 'x' * 10, 'x' * 11, 'x' * 12, 'y' * 200,
             ' ', ' ' * 11, ' lead', 'trail ', 'a b c d e f', '~' * 11,
             '\x7f', '\x01\x02', '\t\n\r', '0', '00000000000', '0' * 12]
    texts += [chr(c) for c in range(1, 128)]
    texts += [chr(c) * 11 for c in range(1, 128)]
    texts += ['Q' * i + chr(c) for i in (3, 9, 10, 11)
              for c in range(1, 128, 3)]
    for _ in range(run.scale(4000, 60000)):
        texts.append(text(rng))
    prev = ''
    used = b.cls('EntityMarking')()
    for t in texts:
        case(run, b, used, prev, t)
        prev = t
        if rng.random() < 0.2:
            case(run, b, b.cls('EntityMarking')(), '', t)
    w = work.Workload(run)
    for cls in HOSTS:
        for _ in range(run.scale(250, 3000)):
            hosted(run, b, w, cls)
    sharing(run, b)
    run.need('texts sent', 4000)
    run.need('texts received', 4000)
    run.need('PDUs marked', 200)


def text(rng):
    n = rng.choice([0, 1, 2, 5, 9, 10, 11, 12, 13, 30, rng.randrange(20)])
    return ''.join(chr(rng.choice([rng.randint(1, 127), rng.randint(32, 126)]))
                   for _ in range(n))


def octets(t):
    return t[:11].encode('ascii').ljust(11, b'\0')


def case(run, b, o, prev, t):
    rng = run.rng
    cs = rng.randrange(256)
    o.characterSet = cs
    o.setString(t)
    got = work.encode(b, o)
    run.case((prev, t) if t else None, {'before': prev, 'text': t,
             'octets': got.hex()} if run.evaluations % 701 == 3 else None)
    run.see('texts sent')
    want = bytes([cs]) + octets(t)
    if got != want:
        run.violation('send', f'marking {t!r} (after {prev!r}) is sent as '
                      f'{got.hex()}, not {want.hex()}')
    if o.charactersString() != t[:11]:
        run.violation('read-own', f'marking {t!r} reads '
                      f'{o.charactersString()!r}')
    p = b.cls('EntityMarking')()
    if rng.random() < 0.5:
        p.setString(text(rng))
    s = io.BytesIO(want + b'zz')
    p.parse(b.In(s))
    run.see('texts received')
    if p.charactersString() != t[:11] or p.characterSet != cs or \
            s.tell() != 12:
        run.violation('receive', f'a received marking {want.hex()} reads '
                      f'{p.charactersString()!r}, not {t[:11]!r}')
    if work.encode(b, p) != want:
        run.violation('relay', f'a received marking {want.hex()} is sent on as'
                      f' {work.encode(b, p).hex()}')
    if rng.random() < 0.3:  # change a received marking
        t2 = text(rng)
        p.setString(t2)
        if work.encode(b, p) != bytes([cs]) + octets(t2):
            run.violation('change', f'a received marking {t!r} changed to '
                          f'{t2!r} is sent as {work.encode(b, p).hex()}')


def hosted(run, b, w, cls):
    """Marking a PDU changes its eleven octets and nothing else."""
    rng = run.rng
    w.setup(cls)
    m = w.one(cls)
    o = b.build(m)
    t = text(rng)
    o.marking.setString(t)
    m['marking']['characters'] = list(octets(t))
    got = work.encode(b, o)
    d = wire.mask_diff(wire.encode_full(m), got)
    run.see('PDUs marked')
    run.case(got)
    if d:
        run.violation(f'{cls}:octets', f'{cls} marked {t!r}: {d}')
        return
    p = b.factory.createPdu(got)
    if p.marking.charactersString() != t[:11]:
        run.violation(f'{cls}:text', f'{cls} marked {t!r} is received as '
                      f'{p.marking.charactersString()!r}')


def sharing(run, b):
    """Markings are each entity's own."""
    rng = run.rng
    all_ = []
    for cls in HOSTS * run.scale(40, 300):
        o = b.cls(cls)()
        t = text(rng)
        o.marking.setString(t)
        all_.append((o, t))
        if rng.random() < 0.3:
            p = b.factory.createPdu(work.encode(b, o))
            u = text(rng)
            p.marking.setString(u)
            all_.append((p, u))
    for o, t in all_:
        run.case(('own', t))
        if o.marking.charactersString() != t[:11]:
            run.violation('sharing', f'marking {t!r} became '
                          f'{o.marking.charactersString()!r} when others were '
                          'set')
