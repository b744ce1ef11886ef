"""R04: variable datums occupy whole 64-bit words, whatever their bit length."""
import io

from lib import wire, work

RULE = ('a case is one sequence of variable datums of chosen bit lengths, '
        'encoded by the real code and walked by an independent reader that '
        'steps from datum to datum by the bit lengths alone, then decoded from'
        ' octets with arbitrary padding; distinct by octets; non-trivial when '
        'some datum is not empty')


def hosts():
    out = []
    for c in wire.PDUS + ['DatumSpecification']:
        for f in wire.fields(c):
            if f.kind == 'list' and f.type == 'VariableDatum':
                out.append((c, f.name))
    return out


def check(run):
    b = wire.Bridge()
    rng = run.rng
    for bits in range(0, run.scale(700, 5000)):
        single(run, b, bits)
    for bits in (1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 65537,
                 524288 + 13):
        single(run, b, bits)
    w = work.Workload(run)
    for cls, attr in hosts():
        run.see('classes holding datums')
        for n in [0, 1, 1, 2, 3, 5, 8] * run.scale(30, 200) + [40]:
            hosted(run, b, w, cls, attr, n)
    run.need('datums stepped over', 4000)
    run.need('datums decoded', 4000)
    run.need('short data refused', 500)
    run.need('classes holding datums', 10)


def words(bits):
    return -(-bits // 64)


def value(rng, bits):
    n = -(-bits // 8)
    data = bytearray(rng.randbytes(n))
    if data and rng.random() < 0.3:
        data = bytearray(rng.choice([b'\xff', b'\0', b'\x80', b'\1'])) * n
    return list(data)


def datum(b, ident, bits, data):
    o = b.cls('VariableDatum')()
    o.variableDatumID = ident
    o.variableDatumLength = bits
    o.variableData = list(data)
    return o


def single(run, b, bits):
    rng = run.rng
    ident = rng.getrandbits(32)
    data = value(rng, bits)
    o = datum(b, ident, bits, data)
    got = work.encode(b, o)
    size = 8 + 8 * words(bits)
    run.case(got if bits else None, {'bits': bits, 'octets': len(got)}
             if run.evaluations % 211 == 3 else None)
    run.see('datums stepped over')
    want = ident.to_bytes(4, 'big') + bits.to_bytes(4, 'big') + bytes(data)
    if len(got) != size or got[:len(want)] != want or any(got[len(want):]):
        run.violation('encode', f'a datum of {bits} bits is sent as '
                      f'{len(got)} octets ({size} expected): '
                      f'{got[:24].hex()}..', {'octets': got})
    for pad in (b'\0', b'\xff', None):
        k = size - len(want)
        x = want + (pad * k if pad else rng.randbytes(k))
        s = io.BytesIO(x + b'\x77' * 8)
        p = b.cls('VariableDatum')()
        run.case(x)
        try:
            p.parse(b.In(s))
        except Exception as e:
            run.violation('decode', f'a datum of {bits} bits raised {e!r}',
                          {'octets': x})
            continue
        run.see('datums decoded')
        if (p.variableDatumID, p.variableDatumLength, list(p.variableData)) \
                != (ident, bits, data) or s.tell() != size:
            run.violation('decode', f'a datum of {bits} bits decodes to '
                          f'{p.variableDatumLength} bits in '
                          f'{len(p.variableData)} octets; stream at {s.tell()}'
                          f' of {size}', {'octets': x})
        again = work.encode(b, p)
        if again[:len(want)] != want or len(again) != size:
            run.violation('relay', f'a datum of {bits} bits is sent on '
                          f'differently', {'octets': x})
    for cut in {0, 3, 7, size - 1, 8 + len(data) - 1,
                rng.randrange(size)}:
        if not 0 <= cut < size:
            continue
        run.case((bits, 'cut', cut))
        try:
            b.cls('VariableDatum')().parse(b.In(io.BytesIO(x[:cut])))
        except Exception:
            run.see('short data refused')
        else:
            run.violation('short', f'{cut} of the {size} octets of a datum of '
                          f'{bits} bits were accepted')
    if data:
        o.variableData = data[:-1]
        try:
            work.encode(b, o)
        except Exception:
            run.see('short data refused')
        else:
            run.violation('short-value', f'{len(data) - 1} octets were sent as'
                          f' {bits} bits')


def hosted(run, b, w, cls, attr, n):
    rng = run.rng
    m = w.one(cls)
    m[attr] = []
    o = b.build(m)
    base = work.encode(b, o)
    items = []
    for _ in range(n):
        bits = rng.choice([0, 1, 7, 8, 9, 31, 32, 33, 55, 56, 57, 63, 64, 65,
                           rng.randrange(600), 120, 121, 127, 128, 129])
        items.append((rng.getrandbits(32), bits, value(rng, bits)))
    seq = [datum(b, *i) for i in items]
    if rng.random() < 0.5:
        getattr(o, attr).extend(seq)
    else:
        setattr_list(o, attr, seq)
    got = work.encode(b, o)
    tail = got[len(base):]
    run.case(got if any(i[1] for i in items) else None,
             {'class': cls, 'bits': [i[1] for i in items]}
             if run.evaluations % 97 == 3 else None)
    at, bad = 0, None
    for ident, bits, data in items:  # walk by the bit lengths alone
        head = tail[at:at + 8]
        if head != ident.to_bytes(4, 'big') + bits.to_bytes(4, 'big') or \
                tail[at + 8:at + 8 + len(data)] != bytes(data):
            bad = (at, bits)
            break
        at += 8 + 8 * words(bits)
        run.see('datums stepped over')
    if bad or at != len(tail):
        run.violation(f'{cls}:walk', f'{cls} with datums of '
                      f'{[i[1] for i in items]} bits: a reader loses step at '
                      f'octet {bad or at} of {len(tail)}', {'octets': got})
        return
    # padding is anyone's: fill it
    x = bytearray(got)
    at = len(base)
    for ident, bits, data in items:
        lo, hi = at + 8 + len(data), at + 8 + 8 * words(bits)
        x[lo:hi] = rng.randbytes(hi - lo)
        at = hi
    x = bytes(x)
    try:
        if wire.is_pdu(cls):
            p = b.factory.createPdu(x)
        else:
            p = b.cls(cls)()
            p.parse(b.In(io.BytesIO(x)))
    except Exception as e:
        run.violation(f'{cls}:decode', f'{cls} with datums of '
                      f'{[i[1] for i in items]} bits raised {e!r}',
                      {'octets': x})
        return
    back = [(v.variableDatumID, v.variableDatumLength, list(v.variableData))
            for v in getattr(p, attr)]
    run.see('datums decoded', len(back))
    if back != items:
        run.violation(f'{cls}:values', f'{cls}: datums of '
                      f'{[i[1] for i in items]} bits decode as '
                      f'{[i[1] for i in back]} bits', {'octets': x})


def setattr_list(o, attr, seq):
    getattr(o, attr)[:] = seq
