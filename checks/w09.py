"""W09: a value that does not fit its field is refused, never wrapped."""
from lib import wire, work
from checks import w12

RULE = ('a case is one encode of an object in which one field, element, bit '
        'field, list length or section length was set beyond what it can hold '
        '(or to a value of the wrong kind): the encode must raise, and after '
        'the value is restored the object must encode as before; distinct by '
        'class, field and value; all cases are non-trivial')


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run)
    order = w12.declared()
    for cls in wire.PDUS + wire.ENCODE_ONLY + wire.RECORDS:
        w.setup(cls)
        for rep in range(run.scale(6, 40)):
            m = w.grown(cls) if rep % 2 == 0 else w.one(cls)
            w.gen.mode = 'rand'
            if cls in wire.SV_CODE:
                m['_type'] = wire.SV_CODE[cls]
            o = b.build(m)
            before = work.encode(b, o)
            slots = list(work.pairs(m, o, pads=True))
            if len(slots) > 260:
                slots = rng.sample(slots, 260)
            for s in slots:
                for bad in bad_values(rng, s, run.thorough):
                    attempt(run, b, cls, m, o, s, bad, before)
            if rep == 0:
                overlong(run, b, w, cls)
            if rep < run.scale(2, 12):
                inlong(run, b, w, cls)
        states(run, b, w, cls)
        constructed(run, b, w, cls, order[cls])
        run.see('classes')
    transmitter(run, b)
    run.need('misfits given to constructors', 4000)
    run.need('misfits whatever the rest says', 20000)
    run.need('refused', 20000)
    run.need('overlong lists refused', 20)
    run.need('misfits in long lists', 5000)
    run.need('restored encodings compared', 1000)


def bad_values(rng, s, thorough):
    kind = s[0]
    if kind == 'scalar':
        ty = s[4]
        if ty in wire.INT:
            n, signed = wire.INT[ty]
            lo = -2 ** (8 * n - 1) if signed else 0
            hi = lo + 2 ** (8 * n) - 1
            out = [hi + 1, lo - 1, hi + 1 + rng.randrange(2 ** 8),
                   lo - rng.randrange(2, 2 ** 8), 2 * (hi + 1), 2 ** 70,
                   hi + 2 ** rng.randrange(1, 72),
                   lo - 2 ** rng.randrange(1, 72)]
            if not signed:  # what a signed or wider field would take
                out += [-2 ** (8 * n - 1), -128]
            return out + [None, 1.5, 'x']
        if ty == 'f32':
            return [3.4028235677973366e38, 1e39, -1e300, None, 'x']
        return [None, 'x']
    if kind == 'bit':
        return [2 ** s[4], -1, 2 ** s[4] + 1, 2 ** 16, -2 ** s[4]]
    if kind == 'vardatum':
        return ['id', 'octet256', 'octet-1', 'short', 'length']
    if kind == 'iff':
        return ['type', 'octet256', 'octet-1']
    return []


def attempt(run, b, cls, m, o, s, bad, before):
    kind, mo, oo, key = s[:4]
    saved = {}
    where = key if isinstance(key, str) else f'[{key}]'
    if kind in ('scalar', 'bit'):
        saved[key] = oo[key] if isinstance(key, int) else getattr(oo, key)
        work.put(oo, key, bad)
    elif kind == 'vardatum':
        for a in ('variableDatumID', 'variableDatumLength', 'variableData'):
            saved[a] = getattr(oo, a)
        if bad == 'id':
            oo.variableDatumID = 2 ** 32
        elif bad == 'length':
            oo.variableDatumLength = -8
        elif bad == 'short':
            oo.variableDatumLength = len(oo.variableData) * 8 + 8
        else:
            oo.variableData = list(oo.variableData) + [int(bad[5:])]
            oo.variableDatumLength = len(oo.variableData) * 8
    elif kind == 'iff':
        for a in ('recordType', 'iffData'):
            saved[a] = getattr(oo, a)
        if bad == 'type':
            oo.recordType = 2 ** 32
        else:
            oo.iffData = list(oo.iffData) + [int(bad[5:])]
    try:
        got = work.encode(b, o)
    except Exception as e:
        run.see('refused')
        run.see(f'refused with {type(e).__name__}')
    else:
        if bad is None and kind == 'scalar':
            pass
        run.violation(f'{cls}:{mo["_c"] + "." if isinstance(mo, dict) else ""}'
                      f'{where}', f'{cls}: {where} = {bad!r} does not fit '
                      f'({s[4] if len(s) > 4 else kind}) but was sent',
                      {'octets': got, 'before': before})
    run.case((cls, str(where), str(bad), id(mo)),
             {'class': cls, 'field': str(where), 'value': repr(bad)}
             if run.evaluations % 5003 == 3 else None)
    for a, v in saved.items():
        work.put(oo, a, v)
    if run.rng.random() < 0.1:
        run.see('restored encodings compared')
        after = work.encode(b, o)
        if after != before:
            run.violation(f'{cls}:restored', f'{cls}: after the refused value '
                          f'{bad!r} of {where} was replaced by the former '
                          'one, the encoding differs',
                          {'before': before, 'after': after})


def constructed(run, b, w, cls, order):
    """A misfit given to the constructor, alone or among arguments that fit;
    refused then or when it is sent."""
    rng, own = run.rng, w12.fields_of(cls)
    for n in order:
        name = w12.real(n, own)
        f = own.get(name)
        if f is None or f.kind == 'special' or f.kind == 'rec' or \
                f.type == 'NONE' or f.pad and cls in wire.PDUS:
            continue
        w.gen.mode = 'rand'
        if f.kind == 'bits':
            width = {x[0]: x[1] for x in f.bits}[name]
            bads = bad_values(rng, ('bit', 0, 0, name, width), False)
        elif f.type in wire.SPEC:
            continue
        else:
            bads = bad_values(rng, ('scalar', 0, 0, name, f.type), False)
            if f.kind != 'scalar':
                full = f.n if f.kind == 'array' else rng.choice([1, 2, 5])
            else:   # given nothing, a constructor takes its own default
                bads.remove(None)
        for bad in bads:
            m = w.one(cls)
            kw = {}
            if rng.random() < 0.5 and cls != 'TransmitterPdu':
                kw = {k: v for k in order if w12.real(k, own) in own
                      for v in [w12.value(b, cls, m, w12.real(k, own))]
                      if v is not Ellipsis and rng.random() < 0.7}
            if f.kind in ('array', 'list'):
                v = [rng.randrange(100) for _ in range(full)]
                v[rng.randrange(full)] = bad
                kw[n] = v
            else:
                kw[n] = bad
            run.see('misfits given to constructors')
            run.case((cls, 'made', n, str(bad), len(kw)))
            try:
                got = work.encode(b, b.cls(cls)(**kw))
            except Exception as e:
                run.see(f'refused with {type(e).__name__}')
                continue
            run.violation(f'{cls}:{name}:made', f'{cls}({n}={bad!r}) does not '
                          f'fit but was sent', {'octets': got})


def states(run, b, w, cls):
    """A misfit among fields of every kind: alike, small, blank, rare."""
    rng = run.rng
    for m in w.models(cls, sweep=4, rand=run.scale(60, 600), lengths=(1, 2),
                      literal_budget=run.scale(80, 800)):
        if len(list(work.scalars(m))) > 400:
            continue
        if cls in wire.SV_CODE:
            m['_type'] = wire.SV_CODE[cls]
        o = b.build(m)
        before = work.encode(b, o)
        slots = list(work.pairs(m, o, pads=True))
        for s in rng.sample(slots, min(len(slots), 8)):
            bads = bad_values(rng, s, False)
            for bad in rng.sample(bads, min(len(bads), 2)):
                run.see('misfits whatever the rest says')
                attempt(run, b, cls, m, o, s, bad, before)


def inlong(run, b, w, cls):
    """One misfit somewhere in a list of many elements."""
    rng = run.rng
    for i in range(len(list(work.lists(w.grown(cls))))):
        m = w.grown(cls)
        if cls in wire.SV_CODE:
            m['_type'] = wire.SV_CODE[cls]
        ls = list(work.lists(m))
        if i >= len(ls) or ls[i][1].type == 'NONE':
            continue
        owner, lf = ls[i]
        width = work.count_width(owner['_c'], lf)
        cap = {'u8': 255, 'u16': 65535}.get(width, 1 << 30) // lf.mul_total
        n = min(cap, rng.choice([4, 5, 8, 9, 16, 17, 33, 65, 129]))
        w.gen.mode, w.gen.maxlist = 'rand', 1
        mine = owner[lf.name] = [w.element(lf) for _ in range(n)]
        o = b.build(m)
        before = work.encode(b, o)
        inside, todo = {id(mine)}, [e for e in mine if isinstance(e, dict)]
        while todo:
            e = todo.pop()
            inside.add(id(e))
            for v in e.values():
                inside |= {id(v)} if isinstance(v, list) else set()
                todo += [x for x in (v if isinstance(v, list) else [v])
                         if isinstance(x, dict)]
        slots = [s for s in work.pairs(m, o, pads=True) if id(s[1]) in inside]
        if not slots:
            continue
        for s in [slots[0], slots[-1]] + rng.choices(slots, k=6):
            for bad in rng.sample(list(x := bad_values(rng, s, False)),
                                  min(len(x), 5)):
                run.see('misfits in long lists')
                attempt(run, b, cls, m, o, s, bad, before)


def overlong(run, b, w, cls):
    """Lists one element longer than their count can say."""
    rng = run.rng
    for i, (owner, lf) in enumerate(list(work.lists(w.grown(cls)))):
        if lf.type == 'NONE':
            continue
        width = work.count_width(owner['_c'], lf)
        if width not in ('u8', 'u16'):
            continue
        cap = (255 if width == 'u8' else 65535) // lf.mul_total
        if cap > 9000 and not run.thorough and rng.random() < 0.5:
            continue
        m = w.grown(cls)
        ls = list(work.lists(m))
        if i >= len(ls):
            continue
        owner, lf = ls[i]
        e = w.element(lf)
        for n in (cap + 1, cap + 2, 2 * (cap + 1)) if cap < 9000 else \
                (cap + 1,):
            owner[lf.name] = [e]
            o = b.build(m)
            oo = [s[2] for s in work.pairs(m, o) if s[0] == 'list' and
                  s[1] is owner and s[3].name == lf.name][0]
            lst = getattr(oo, lf.name)
            lst[:] = [lst[0]] * n
            run.case((cls, lf.name, n))
            try:
                got = work.encode(b, o)
            except Exception:
                run.see('overlong lists refused')
                continue
            run.violation(f'{cls}:{lf.name}:overlong', f'{cls}: {n} elements '
                          f'of {lf.name} were sent with a {width} count',
                          {'octets': got[:64]})


def transmitter(run, b):
    c = b.cls
    for n in (256, 264, 511, 512):
        p = c('TransmitterPdu')()
        p.modulationType.radioSystem = 9
        p.modulationParameters = c('UnknownRadio')(bytes(n))
        refuse(run, b, p, f'TransmitterPdu:modulationParameters:{n}')
    for n in (65536, 65544):
        p = c('TransmitterPdu')()
        p.antennaPatternType = 9
        p.antennaPattern = c('UnknownAntennaPattern')(bytes(n))
        refuse(run, b, p, f'TransmitterPdu:antennaPattern:{n}')


def refuse(run, b, p, what):
    run.case(what)
    try:
        work.encode(b, p)
    except Exception:
        run.see('refused')
    else:
        run.violation(what, f'{what} octets were sent')
