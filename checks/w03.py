"""W03: every encode reflects the object's current state, in any history."""
import io

from lib import wire, work
from checks.w01 import strip

RULE = ('a case is one encode or decode step of a random history of edits '
        '(set, replace, append, insert, remove, reorder, encode broken off, '
        'encode, decode and continue) over several live PDUs, judged against '
        'a shadow model; distinct by the octets encoded; non-trivial when the '
        'object was edited since its last encode')

KINDS = ['scalar', 'list', 'rec', 'bit', 'vardatum', 'iff', 'data', 'radio',
         'beamstatus']


def check(run):
    b = wire.Bridge()
    w = work.Workload(run, inexact=False)
    rng = run.rng
    classes = wire.PDUS + wire.ENCODE_ONLY + [
        c for c in wire.RECORDS if c not in wire.SV_CODE]
    for h in range(run.scale(3400, 34000)):
        live = []
        for _ in range(3):
            # every class in turn, plus whatever else shares the process
            cls = classes[(h * 3 + len(live)) % len(classes)] \
                if rng.random() < 0.8 else rng.choice(classes)
            w.setup(cls)
            m = w.one(cls)
            if rng.random() < 0.2:
                work.twins(m, rng)
            live.append([cls, m, b.build(m, rng), 0, []])
        history(run, b, w, live, rng.randint(10, 80 if run.thorough else 40))
        run.see('histories')
    for cls in classes:
        for m in w.models(cls, rand=run.scale(30, 300),
                          lengths=(1, 2), literal_budget=run.scale(40, 800)):
            if not retouched(run, b, w, cls, m):
                break
    run.need('histories', 100)
    run.need('objects changed in places and encoded again', 3000)
    run.need('encodes compared', 2000)
    run.need('decoded objects continued', 300)
    run.need('list edits', 2000)
    run.need('encodes broken off by their stream', 500)
    run.need('changes among things alike', 2000)
    run.need('lists rearranged between two encodes', 500)


def apart(v):
    """The same model, no two parts of it one object."""
    if isinstance(v, dict):
        return {k: apart(x) for k, x in v.items()}
    return [apart(x) for x in v] if isinstance(v, list) else v


def retouched(run, b, w, cls, m):
    """Encode, change half of the fields and nothing else, encode: what the
    other half say, and how long the lists are, is as it was."""
    rng = run.rng
    m = apart(m)
    item = [cls, m, b.build(m, rng), 0, []]
    stream = io.BytesIO()
    if not encode(run, b, item, stream):
        return False
    slots = [s for s in work.pairs(m, item[2])
             if s[0] in ('scalar', 'bit', 'vardatum', 'iff')]
    w.gen.mode = 'rand'
    for s in (slots, slots):
        for kind, mo, oo, key, *more in rng.sample(s, (len(s) + 1) // 2):
            if kind == 'scalar':
                mo[key] = w.gen.scalar(more[0])
                work.put(oo, key, mo[key])
            elif kind == 'bit':
                v = rng.getrandbits(more[0])
                mo[key] = bool(v) if more[1] else v
                setattr(oo, key, mo[key])
            else:
                k = {'vardatum': 'variableDatumID', 'iff': 'recordType'}[kind]
                mo[k] = w.gen.integer('u32')
                setattr(oo, k, mo[k])
        item[3] += 1
        item[4].append('set half of the fields')
        run.see('objects changed in places and encoded again')
        if not encode(run, b, item, stream):
            return False
    return True


def history(run, b, w, live, steps):
    rng = run.rng
    shared = io.BytesIO()
    for _ in range(steps):
        item = rng.choice(live)
        cls, m, o = item[0], item[1], item[2]
        w.setup(cls)
        c = rng.random()
        if c < 0.72:
            if edit(run, b, w, item) == 'failed' and \
                    not encode(run, b, item, shared):
                return
            item[3] += 1
        elif c < 0.75:
            broken(run, b, item)
            if not encode(run, b, item, shared):
                return
        elif c < 0.91:
            if not encode(run, b, item, shared):
                return
            if rng.random() < 0.4 and rearrange(run, item):
                if not encode(run, b, item, shared):
                    return
        else:
            if not decode(run, b, w, item):
                return


class Full(io.BytesIO):
    """A stream that takes so many octets and then no more."""

    def __init__(self, room):
        super().__init__()
        self.room = room

    def write(self, data):
        if len(data) > self.room:
            raise OSError('no room')
        self.room -= len(data)
        return super().write(data)


def broken(run, b, item):
    """An encode the stream breaks off: the object stays what it is."""
    cls, m, o, edits, log = item
    size = len(wire.encode(m))
    if not size:
        return
    room = run.rng.randrange(size)
    if run.rng.random() < 0.3:
        room = max(0, size - run.rng.randint(1, 9))
    try:
        o.serialize(b.Out(Full(room)))
    except Exception:
        pass
    else:   # an octet it had no room for went elsewhere
        run.see('encodes that ignored a full stream')
    log.append(f'encode broken off after {room} octets')
    run.see('encodes broken off by their stream')


def encode(run, b, item, shared):
    cls, m, o, edits, log = item
    start = shared.tell()
    try:
        o.serialize(b.Out(shared))
    except Exception as e:
        run.violation(f'{cls}:encode-raises', f'{cls} after {log[-6:]}: '
                      f'encoding raised {e!r}', {'history': log, 'model': m})
        return False
    got = shared.getvalue()[start:]
    ref = wire.encode_full(m)
    d = wire.mask_diff(ref, got)
    run.case(got if edits else None,
             {'class': cls, 'history': log[-8:], 'octets': got[:48].hex()}
             if run.evaluations % 1009 == 5 else None)
    run.see('encodes compared')
    item[3] = 0
    log.append('encode')
    if d:
        run.violation(f'{cls}:{strip(d[1])}', f'{cls} after {log[-8:]}: octet '
                      f'{d[0]} ({d[1]}) should be {d[2]:#x}, is {d[3]:#x}',
                      {'history': log, 'model': m, 'expected': bytes(ref.b),
                       'got': got})
        return False
    return True


def decode(run, b, w, item):
    cls, m, o, edits, log = item
    alike = run.rng.random() < 0.3
    if alike:   # some fields and records of what is decoded are alike
        work.twins(m, run.rng)
    data = wire.encode(m)
    try:
        p = work.decode(b, cls, data)
        d = b.diff(m, p) if p is not None else [('', cls, None)]
    except Exception as e:
        run.violation(f'{cls}:decode-raises', f'decoding a {cls} raised {e!r}',
                      {'octets': data, 'history': log})
        return False
    run.case(('d', data) if edits else None)
    log.append('decode')
    if d:
        run.violation(f'{cls}:decode:{strip(d[0][0])}',
                      f'{cls}.{d[0][0]}: the datagram says {d[0][1]!r}, '
                      f'decoded {d[0][2]!r}', {'octets': data, 'history': log})
        return False
    if alike or run.rng.random() < 0.6:
        item[2] = p
        run.see('decoded objects continued')
        log.append('continue with the decoded object')
    return not alike or pokes(run, b, w, item)


def pokes(run, b, w, item):
    """Whatever is alike in a decoded object, a change of one place changes
    that one alone."""
    cls, m, o, edits, log = item
    slots = [s for s in work.pairs(m, o) if s[0] == 'scalar']
    for s in run.rng.sample(slots, min(len(slots), 14)):
        kind, mo, oo, key, ty = s
        v = mo[key] = w.gen.scalar(ty)
        work.put(oo, key, v)
        run.see('changes among things alike')
        d = b.diff(m, o)
        if d:
            run.violation(f'{cls}:shared:{strip(d[0][0])}', f'{cls}: setting '
                          f'{key} of a decoded object also changed {d[0]}',
                          {'history': log, 'model': m})
            return False
    item[3] += 1
    return True


def edit(run, b, w, item):
    cls, m, o, _, log = item
    rng = run.rng
    slots = list(work.pairs(m, o))
    by = {}
    for s in slots:
        by.setdefault(s[0], []).append(s)
    kinds = list(by)
    weights = [{'scalar': 4, 'list': 6, 'rec': 2}.get(k, 2) for k in kinds]
    if not kinds:
        return      # a record without fields
    s = rng.choice(by[rng.choices(kinds, weights)[0]])
    kind, mo, oo, key = s[:4]
    gen = w.gen
    gen.mode = 'rand'
    run.see(f'edits of kind {kind}')
    if kind == 'scalar':
        ty = s[4]
        if rng.random() < 0.1 and ty in wire.INT:
            # a value that does not fit is refused, then repaired
            n, signed = wire.INT[ty]
            put_back = mo[key]
            work.put(oo, key, 2 ** (8 * n))
            try:
                work.encode(b, o)
                failed = False
            except Exception:
                failed = True
            run.see('failed encodes' if failed else 'overflow accepted')
            work.put(oo, key, put_back)
            log.append(f'failed encode ({key})')
            return 'failed'
        v = gen.scalar(ty)
        mo[key] = v
        work.put(oo, key, v)
        log.append(f'set {key}')
    elif kind == 'bit':
        v = rng.getrandbits(s[4])
        mo[key] = bool(v) if s[5] else v
        setattr(oo, key, mo[key])
        log.append(f'set {key}')
    elif kind == 'rec':
        v = gen.record(s[4])
        if key == 'modulationType':  # its sections depend on it
            v['radioSystem'] = mo[key]['radioSystem']
        mo[key] = v
        setattr(oo, key, b.build(v, rng))
        log.append(f'replace {key}')
    elif kind == 'list':
        run.see('list edits')
        list_edit(b, w, mo, oo, key, log)
    else:
        special_edit(b, w, s, log)


def rearrange(run, item):
    """Right after an encode, move the elements of one list about in place:
    its identity, length and sum stay, only its order does not."""
    cls, m, o, _, log = item
    rng = run.rng
    found = {}
    for s in work.pairs(m, o):
        if s[0] == 'list':
            a, c = s[1][s[3].name], getattr(s[2], s[3].name)
        elif s[0] in ('vardatum', 'iff'):
            k = {'vardatum': 'variableData', 'iff': 'iffData'}[s[0]]
            a, c = s[1][k], getattr(s[2], k)
        elif s[0] == 'scalar' and isinstance(s[1], list):
            a, c = s[1], s[2]
        else:
            continue
        if len(a) > 1 and a[0] != a[-1]:
            found[id(c)] = a, c
    if not found:
        return False
    a, c = rng.choice(list(found.values()))
    order = list(range(len(a)))
    if rng.random() < 0.5:
        order.reverse()
    else:
        order[0], order[-1] = order[-1], order[0]
    a[:] = [a[i] for i in order]
    if rng.random() < 0.5:
        c[:] = [c[i] for i in order]
    else:
        for i, x in enumerate([c[i] for i in order]):
            c[i] = x
    item[3] += 1
    log.append('rearrange in place')
    run.see('lists rearranged between two encodes')
    return True


def octets_edit(rng, a, c):
    """One in-place change to a list of octets and its shadow."""
    i, j = rng.randrange(len(a)), rng.randrange(len(a))
    if rng.random() < 0.5:
        a[i], a[j] = a[j], a[i]
        c[i], c[j] = c[j], c[i]
    else:
        a[i] = c[i] = rng.randrange(256)


def special_edit(b, w, s, log):
    kind, mo, oo, key = s[:4]
    rng, gen = w.run.rng, w.gen
    inplace = rng.random() < 0.5
    if kind == 'vardatum' and inplace and mo['variableData']:
        octets_edit(rng, mo['variableData'], oo.variableData)
        log.append('edit datum in place')
    elif kind == 'vardatum':
        n = rng.choice([0, 1, 7, 8, 9, 16, 33])
        mo['variableData'] = list(rng.randbytes(n))
        mo['variableDatumLength'] = n * 8
        if rng.random() < 0.5:
            oo.variableData = list(mo['variableData'])
        else:
            oo.variableData[:] = mo['variableData']
        oo.variableDatumLength = n * 8
        mo['variableDatumID'] = oo.variableDatumID = gen.integer('u32')
        log.append('set datum')
    elif kind == 'iff' and inplace and mo['iffData']:
        octets_edit(rng, mo['iffData'], oo.iffData)
        log.append('edit IFF data in place')
    elif kind == 'iff':
        n = rng.choice([0, 1, 5, 10])
        mo['iffData'] = list(rng.randbytes(n))
        if rng.random() < 0.5:
            oo.iffData = list(mo['iffData'])
        else:
            oo.iffData[:] = mo['iffData']
        mo['recordType'] = oo.recordType = gen.integer('u32')
        log.append('set IFF data')
    elif kind == 'data':
        n = len(mo[key])
        if mo['_c'] in ('UnknownRadio', 'UnknownAntennaPattern') and inplace:
            n = rng.choice([1, 7, 8, 17, 41, 255])  # not a record's
        elif mo['_c'] == 'UnknownSV' and inplace:
            n = 2 + 8 * rng.choice([0, 1, 2, 5, 31])
        mo[key] = rng.randbytes(n)
        setattr(oo, key, mo[key])
        log.append(f'set data of {n} octets')
    elif kind == 'beamstatus':
        mo['beamState'] = oo.beamState = rng.randrange(2)
    elif kind == 'radio':
        mo['antennaPatternType'] = gen.integer('u16')
        gen.radio_reset(mo)
        oo.antennaPatternType = mo['antennaPatternType']
        oo.modulationType.radioSystem = mo['modulationType']['radioSystem']
        for n in ('modulationParameters', 'antennaPattern'):
            setattr(oo, n, None if mo[n] is None else b.build(mo[n], rng))
        log.append('change radio')


def list_edit(b, w, mo, oo, lf, log):
    rng = w.run.rng
    a, c = mo[lf.name], getattr(oo, lf.name)
    cap = 12
    ops = ['append', 'insert', 'assign', 'extend']
    if a:
        ops += ['pop', 'del', 'replace', 'clear', 'reverse', 'swap', 'slice']
    op = rng.choice(ops)
    if len(a) >= cap:
        op = rng.choice(['pop', 'clear', 'slice'])
    log.append(f'{op} {lf.name}')

    def new():
        e = w.element(lf)
        return e, (b.build(e, rng) if isinstance(e, dict) else e)
    if op == 'append':
        e, x = new()
        a.append(e)
        c.append(x)
    elif op == 'extend':
        es = [new() for _ in range(rng.randint(2, 4))]
        a.extend(e for e, _ in es)
        c.extend(x for _, x in es)
    elif op == 'insert':
        i = rng.randint(0, len(a))
        e, x = new()
        a.insert(i, e)
        c.insert(i, x)
    elif op == 'assign':
        es = [new() for _ in range(rng.randint(0, 4))]
        mo[lf.name] = [e for e, _ in es]
        try:
            setattr(oo, lf.name, [x for _, x in es])
        except AttributeError:  # a read-only property: change its list
            c[:] = [x for _, x in es]
    elif op == 'pop':
        a.pop()
        c.pop()
    elif op == 'del':
        i = rng.randrange(len(a))
        del a[i], c[i]
    elif op == 'replace':
        i = rng.randrange(len(a))
        a[i], c[i] = new()
    elif op == 'clear':
        a.clear()
        c.clear()
    elif op == 'reverse':
        a.reverse()
        c.reverse()
    elif op == 'swap':
        i, j = rng.randrange(len(a)), rng.randrange(len(a))
        a[i], a[j] = a[j], a[i]
        c[i], c[j] = c[j], c[i]
    elif op == 'slice':
        i = rng.randrange(len(a))
        del a[i:], c[i:]
