"""R03: standard variable records are framed so that anyone can step over
them, and unrecognised ones survive."""
import io

from lib import wire, work

RULE = ('a case is one list of standard variable records encoded by the real '
        'code and walked by an independent reader that knows only the type and'
        ' length fields, or one decoded from octets made independently, or one'
        ' with a bad length or a type of another family that must be refused; '
        'distinct by octets; non-trivial when the list is not empty')

HOSTS = {'TransmitterPdu': ('variableTransmitterParameters', 'vtp'),
         'DirectedEnergyFirePdu': ('dERecords', 'damage'),
         'EntityDamageStatusPdu': ('damageDescriptions', 'damage'),
         'StandardVariableSpecification': ('standardVariables', 'any')}
SIZE = {3000: 40, 4000: 96, 4500: 40}


def check(run):
    b = wire.Bridge()
    w = work.Workload(run, inexact=True)
    singles(run, b, w)
    for cls, (attr, fam) in HOSTS.items():
        w.setup(cls)
        for n in list(range(0, 9)) * run.scale(45, 400) + [17, 64, 200]:
            hosted(run, b, w, cls, attr, fam, n)
    lookup(run, b)
    direct(run, b, w)
    misaligned(run, b, w)
    run.need('contents of an odd size refused or filled up', 150)
    run.need('lengths refused by the records themselves', 500)
    run.need('records framed', 8000)
    run.need('unknown records kept', 1500)
    run.need('bad lengths refused', 1500)
    run.need('other families refused', 200)


def unknown(w, fam, t=None):
    r = w.run.rng
    t = t if t is not None else r.choice(
        [0, 1, 2999, 3001, 3999, 4002, 4499, 4501, 2 ** 16, 2 ** 31,
         2 ** 32 - 1, r.getrandbits(32), r.getrandbits(13)])
    if t in wire.SV_TYPES:
        t += 7
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 8, 16, 31, 64])
    return {'_c': 'UnknownSV', '_type': t, '_fam': fam,
            'data': r.randbytes(2 + 8 * n)}


def element(w, fam):
    r = w.run.rng
    if r.random() < 0.4:
        return unknown(w, fam)
    t = r.choice(wire.SV_KNOWN[fam])
    m = w.gen.record(wire.SV_TYPES[t])
    m['_type'] = t
    return m


def walk(data):
    """(type, length, octets) of each record, by type and length alone."""
    out, at = [], 0
    while at < len(data):
        t = int.from_bytes(data[at:at + 4], 'big')
        n = int.from_bytes(data[at + 4:at + 6], 'big')
        if n < 6 or at + n > len(data):
            return out, at
        out.append((t, n, data[at:at + n]))
        at += n
    return out, at


def singles(run, b, w):
    """Records on their own: size, length and contents agree."""
    rng = run.rng
    for fam in ('vtp', 'damage', 'any'):
        for _ in range(run.scale(500, 6000)):
            w.gen.mode = 'rand'
            w.gen.maxlist = rng.choice([1, 3, 6])
            m = element(w, fam)
            o = b.build(m)
            got = work.encode(b, o)
            run.case(got, m if run.evaluations % 977 == 3 else None)
            run.see('records framed')
            name = m['_c']
            n = int.from_bytes(got[4:6], 'big')
            if int.from_bytes(got[:4], 'big') != m['_type']:
                run.violation(f'{name}:type', f'{name} declares type '
                              f'{int.from_bytes(got[:4], "big")}')
            if n != len(got) or n % 8 or o.recordLength != n or \
                    o.marshalledSize() != n:
                run.violation(f'{name}:length', f'{name} of {len(got)} octets '
                              f'declares {n}, recordLength {o.recordLength}, '
                              f'size {o.marshalledSize()}', {'octets': got})
            d = wire.mask_diff(wire.encode_sv(m), got)
            if d:
                run.violation(f'{name}:octets', f'{name}: {d}',
                              {'octets': got})
            s = io.BytesIO(got + b'\xcc' * 9)
            try:
                p = b.dis7.parseStandardVariableRecord(
                    b.In(s), b.cls(wire.SV_BASE[fam]))
            except Exception as e:
                run.violation(f'{name}:decode', f'{name} of {n} octets raised '
                              f'{e!r}', {'octets': got})
                continue
            d = b.diff(m, p)
            if d or s.tell() != n:
                run.violation(f'{name}:values', f'{name}: {d[:1]}, stream at '
                              f'{s.tell()} of {n}', {'octets': got})


def misaligned(run, b, w):
    """Contents that do not fill whole words are refused, or filled up."""
    rng = run.rng
    for fam in ('vtp', 'damage', 'any'):
        for size in list(range(0, 70)) + [253, 255, 1021, 65527, 65528, 65529]:
            if size % 8 == 2:
                continue
            m = dict(unknown(w, fam), data=rng.randbytes(size))
            run.case(('odd', fam, size))
            run.see('contents of an odd size refused or filled up')
            o = b.build(m)
            hosts = [o]
            for cls, (attr, f) in HOSTS.items():
                if f == fam and rng.random() < 0.3:
                    h = w.one(cls)
                    h[attr] = [m]
                    hosts.append(b.build(h))
            for h in hosts:
                try:
                    got = work.encode(b, h)
                except Exception:
                    continue
                i = got.rfind(m['data'])
                rec = got[i - 6:]
                n = int.from_bytes(rec[4:6], 'big')
                if i < 6 or n % 8 or n != len(rec) or any(
                        rec[6 + size:]) or n > size + 6 + 7:
                    run.violation('UnknownSV:odd-size', f'a record of {size} '
                                  f'octets of contents was sent with a length '
                                  f'of {n}', {'octets': got})


def hosted(run, b, w, cls, attr, fam, n):
    rng = run.rng
    w.gen.mode = 'rand'
    w.gen.maxlist = rng.choice([1, 2, 5]) if n < 10 else 1
    m = w.one(cls)
    m[attr] = [element(w, fam) for _ in range(n)]
    if rng.random() < 0.2 and n > 1:  # several of one unknown type
        u = unknown(w, fam)
        m[attr][0] = u
        m[attr][-1] = dict(u, data=rng.randbytes(10))
    o = b.build(m)
    got = work.encode(b, o)
    ref = wire.encode_full(m)
    recs = [bytes(wire.encode_sv(e).b) for e in m[attr]]
    size = sum(len(x) for x in recs)
    run.case(got if n else None, {'class': cls, 'records':
             [[e['_type'], len(x)] for e, x in zip(m[attr], recs)]}
             if run.evaluations % 197 == 3 else None)
    seen, end = walk(got[len(got) - size:] if size else b'')
    run.see('records framed', len(seen))
    want = [(e['_type'], len(x)) for e, x in zip(m[attr], recs)]
    if len(got) != len(ref.b) or end != size or \
            [(t, k) for t, k, _ in seen] != want or any(
                k % 8 for _, k, _ in seen):
        run.violation(f'{cls}:framing', f'{cls}.{attr}: records '
                      f'{want} are framed as {[(t, k) for t, k, _ in seen]}',
                      {'octets': got})
        return
    d = wire.mask_diff(ref, got)
    if d:
        run.violation(f'{cls}:octets', f'{cls}: {d}', {'octets': got})
    data = bytes(ref.b)
    try:
        p = decode(b, cls, data)
    except Exception as e:
        run.violation(f'{cls}:decode', f'{cls} with {want} raised {e!r}',
                      {'octets': data})
        return
    d = b.diff(m, p)
    if d:
        run.violation(f'{cls}:values', f'{cls}: {d[0]}', {'octets': data})
    back = work.encode(b, p)
    again, _ = walk(back[len(back) - size:] if size else b'')
    for (t, k, x), y, e in zip(again, recs, m[attr]):
        if e['_c'] == 'UnknownSV':
            run.see('unknown records kept')
            if x != y:
                run.violation(f'{cls}:relay', f'{cls}: an unrecognised record '
                              f'of type {e["_type"]} is sent on changed',
                              {'octets': data})
    if len(back) != len(data):
        run.violation(f'{cls}:relay-size', f'{cls} of {len(data)} octets is '
                      f'sent on with {len(back)}', {'octets': data})
    if 0 < n < 10:
        bad_lengths(run, b, cls, m, attr, data, recs)
        other_family(run, b, cls, fam, m, attr, data, recs)


def decode(b, cls, data):
    if wire.is_pdu(cls):
        return b.factory.createPdu(data)
    p = b.cls(cls)()
    p.parse(b.In(io.BytesIO(data)))
    return p


def bad_lengths(run, b, cls, m, attr, data, recs):
    rng = run.rng
    i = rng.randrange(len(recs))
    at = len(data) - sum(len(x) for x in recs[i:])
    left = len(data) - at
    true = len(recs[i])
    bad = {true + rng.choice([1, 2, 3, 4, 5, 6, 7]), true - rng.choice(
        [1, 2, 3, 4]), rng.randrange(8192) * 8 + rng.randint(1, 7)}
    if m[attr][i]['_type'] in SIZE:     # of a fixed layout
        bad |= {0, 8, true - 8, true + 8, true + 16, 8 * rng.randrange(8192)}
    elif m[attr][i]['_c'] != 'UnknownSV':
        bad |= {0, 8, true - 8}
    else:
        bad |= {0, 1, 5, (left + 8 + 7) // 8 * 8, 65528, 65535}
    for n in bad:
        if not 0 <= n < 65536 or n == true:
            continue
        x = data[:at + 4] + n.to_bytes(2, 'big') + data[at + 6:]
        run.case(x)
        try:
            decode(b, cls, x)
        except Exception:
            run.see('bad lengths refused')
        else:
            run.violation(f'{cls}:bad-length', f'{cls}: a record '
                          f'({m[attr][i]["_c"]}, {true} octets, {left} left) '
                          f'declaring {n} octets was accepted', {'octets': x})


def other_family(run, b, cls, fam, m, attr, data, recs):
    rng = run.rng
    others = [t for t in wire.SV_TYPES if t not in wire.SV_KNOWN[fam]]
    if not others:
        return
    i = rng.randrange(len(recs))
    at = len(data) - sum(len(x) for x in recs[i:])
    t = rng.choice(others)
    x = data[:at] + t.to_bytes(4, 'big') + data[at + 4:]
    run.case(x)
    try:
        decode(b, cls, x)
    except Exception:
        run.see('other families refused')
    else:
        run.violation(f'{cls}:family', f'{cls}: a record of type {t} was '
                      'accepted', {'octets': x})


def direct(run, b, w):
    """A record read by the caller, who says how long it is."""
    rng = run.rng
    for fam in ('vtp', 'damage', 'any'):
        for _ in range(run.scale(120, 2000)):
            w.gen.mode = 'rand'
            w.gen.maxlist = rng.choice([1, 3])
            m = element(w, fam)
            data = bytes(wire.encode_sv(m).b)
            n = len(data)
            c = b.recordmod.getStandardVariableClass(
                m['_type'], b.cls(wire.SV_BASE[fam]))
            o = c()
            s = io.BytesIO(data[6:] + bytes(70000))
            o.parse(b.In(s), n)
            d = b.diff(m, o)
            run.case(('direct', data))
            if d or s.tell() != n - 6:
                run.violation(f'{m["_c"]}:direct', f'{m["_c"]} of {n} octets: '
                              f'{d[:1]}, read {s.tell()} after its length')
            for bad in {-8, -16, 0, n - 1, n + 1, n + 4, -n, n - 2,
                        rng.randrange(8192) * 8 + rng.randint(1, 7)}:
                try:
                    c().parse(b.In(io.BytesIO(data[6:] + bytes(70000))), bad)
                except Exception:
                    run.see('lengths refused by the records themselves')
                else:
                    run.violation(f'{m["_c"]}:direct-length', f'{m["_c"]} of '
                                  f'{n} octets was accepted as of {bad}')
            if m['_c'] == 'DirectedEnergyAreaAimpoint':
                counts(run, b, c, m, data)


def counts(run, b, c, m, data):
    """More elements announced than the record's length has room for."""
    rng = run.rng
    for at in (8, 10):
        true = int.from_bytes(data[at:at + 2], 'big')
        for bad in (true + 1, true + rng.randrange(2, 400), 32768 + true,
                    rng.randrange(256, 65536), 65535):
            if bad <= true:
                continue
            x = data[:at] + bad.to_bytes(2, 'big') + data[at + 2:]
            run.case(('counts', x))
            try:
                c().parse(b.In(io.BytesIO(x[6:] + bytes(70000))), len(x))
            except Exception:
                run.see('counts beyond the length refused')
            else:
                run.violation(f'{m["_c"]}:count', f'{m["_c"]} of {len(x)} '
                              f'octets announcing {bad} for {true} elements '
                              'was accepted', {'octets': x})


def lookup(run, b):
    """The class of a type: the known one, or a placeholder of its own."""
    rng = run.rng
    get = b.recordmod.getStandardVariableClass
    for t, name in wire.SV_TYPES.items():
        run.case(('lookup', t))
        if get(t) is not b.cls(name):
            run.violation('lookup', f'type {t} gives {get(t)}')
    kept = []
    for _ in range(run.scale(300, 3000)):
        t = rng.choice([rng.getrandbits(32), rng.getrandbits(14)])
        if t in wire.SV_TYPES:
            continue
        fam = rng.choice(['vtp', 'damage', 'any'])
        run.case(('lookup', t))
        try:
            o = get(t, b.cls(wire.SV_BASE[fam]))()
        except Exception as e:
            run.violation('lookup:none', f'type {t} gives no class: {e!r}')
            continue
        o.data = rng.randbytes(2 + 8 * rng.randrange(4))
        if not isinstance(o, b.cls(wire.SV_BASE[fam])):
            run.violation('lookup:base', f'type {t} is no {fam} record')
        kept.append((t, o.data, o))
    for t, data, o in kept:  # later lookups changed nothing
        want = t.to_bytes(4, 'big') + (len(data) + 6).to_bytes(2, 'big') + data
        if work.encode(b, o) != want:
            run.violation('lookup:shared', f'an unrecognised record of type '
                          f'{t} is sent as {work.encode(b, o).hex()}')
    for bad in (-1, -3000, 3000.5, None, 'x'):
        run.case(('lookup', bad))
        try:
            get(bad)
        except Exception:
            continue
        run.violation('lookup:bad', f'record type {bad!r} was accepted')
