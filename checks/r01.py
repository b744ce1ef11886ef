"""R01: the stream primitives are exact big-endian codecs."""
import io
import math
import struct

from lib import wire, work

RULE = ('a case is one value written by one primitive and compared with an '
        'independent big-endian encoding, read back by its partner, or one '
        'short or unrepresentable input that must be refused; distinct by '
        'primitive and value; all are non-trivial')

INTS = {  # write name, read name: octets, signed
    ('write_byte', 'read_byte'): (1, True),
    ('write_unsigned_byte', 'read_unsigned_byte'): (1, False),
    ('write_short', 'read_short'): (2, True),
    ('write_unsigned_short', 'read_unsigned_short'): (2, False),
    ('write_int', 'read_int'): (4, True),
    ('write_unsigned_int', 'read_unsigned_int'): (4, False),
    ('write_long', 'read_long'): (8, True),
    ('write_int8', 'read_int8'): (1, True),
    ('write_int16', 'read_int16'): (2, True),
    ('write_int32', 'read_int32'): (4, True),
    ('write_int64', 'read_int64'): (8, True),
    ('write_uint8', 'read_uint8'): (1, False),
    ('write_uint16', 'read_uint16'): (2, False),
    ('write_uint32', 'read_uint32'): (4, False),
    ('write_uint64', 'read_uint64'): (8, False),
}


def check(run):
    b = wire.Bridge()
    for (wn, rn), (n, signed) in INTS.items():
        integers(run, b, wn, rn, n, signed)
    for wn, rn, n in (('write_float', 'read_float', 4),
                      ('write_float32', 'read_float32', 4),
                      ('write_double', 'read_double', 8),
                      ('write_float64', 'read_float64', 8)):
        floats(run, b, wn, rn, n)
    characters(run, b)
    octets(run, b)
    mixed(run, b)
    run.need('integers written and read', 100000)
    run.need('floats written and read', 5000)
    run.need('short inputs refused', 100)
    run.need('unrepresentable values refused', 150)
    run.need('octet strings', 700)


def write(b, name, value, prefix=b''):
    s = io.BytesIO()
    s.write(prefix)
    getattr(b.Out(s), name)(value)
    return s.getvalue()


def read(b, name, data, *args):
    s = io.BytesIO(data)
    v = getattr(b.In(s), name)(*args)
    return v, s.tell()


def integers(run, b, wn, rn, n, signed):
    lo = -2 ** (8 * n - 1) if signed else 0
    hi = lo + 2 ** (8 * n) - 1
    rng = run.rng
    if n <= 2:
        values = range(lo, hi + 1)
    else:
        lits = work.near(work.Literals().helpers)
        values = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 2} | set(lits)
        values |= {s * (2 ** k + d) for k in range(8 * n) for d in (-1, 0, 1)
                   for s in (1, -1)}
        values |= {int.from_bytes(bytes([x]) * n, 'big', signed=signed)
                   for x in range(256)}
        values |= {rng.randint(lo, hi) for _ in range(run.scale(3000, 60000))}
        values |= {x << 8 * i for x in range(256) for i in range(n)}
        values = sorted(v for v in values if lo <= v <= hi)
    for v in values:
        want = v.to_bytes(n, 'big', signed=signed)
        got = write(b, wn, v)
        run.case((wn, v), {'primitive': wn, 'value': v, 'octets': got.hex()}
                 if run.evaluations % 39999 == 3 else None)
        run.see('integers written and read')
        if got != want:
            run.violation(wn, f'{wn}({v}) writes {got.hex()}, not '
                          f'{want.hex()}')
        back, pos = read(b, rn, want + b'\xa5')
        if back != v or type(back) is not int or pos != n:
            run.violation(rn, f'{rn} of {want.hex()} gives {back!r} and moves '
                          f'{pos}')
    for bad in {hi + 1, lo - 1, hi + 2 ** (8 * n), lo - 2 ** (8 * n), 2 ** 64,
                -2 ** 64, 2 ** 80, hi * 2 + 5}:
        if lo <= bad <= hi:
            continue
        refuse(run, b, wn, bad)
    for bad in (None, 'a', 1.5):
        refuse(run, b, wn, bad)
    for k in range(n):
        for fill in (b'\0', b'\xff', b'\x7f'):
            short(run, b, rn, fill * k)


def refuse(run, b, wn, bad):
    s = io.BytesIO()
    run.case((wn, 'bad', str(bad)))
    try:
        getattr(b.Out(s), wn)(bad)
    except Exception:
        run.see('unrepresentable values refused')
        if s.getvalue():
            run.violation(f'{wn}:partial', f'{wn}({bad!r}) was refused after '
                          f'writing {s.getvalue().hex()}')
    else:
        run.violation(f'{wn}:range', f'{wn}({bad!r}) wrote '
                      f'{s.getvalue().hex()}')


def short(run, b, rn, data, *args):
    run.case((rn, 'short', data, args))
    try:
        v, _ = read(b, rn, data, *args)
    except Exception as e:
        run.see('short inputs refused')
    else:
        run.violation(f'{rn}:short', f'{rn} of {len(data)} octets gives {v!r}')


def floats(run, b, wn, rn, n):
    rng = run.rng
    fmt = '>f' if n == 4 else '>d'
    pats = {rng.getrandbits(8 * n) for _ in range(run.scale(4000, 60000))}
    special = wire.F32_SPECIAL if n == 4 else wire.F64_SPECIAL
    pats |= {int.from_bytes(struct.pack(fmt, v), 'big') for v in special
             if not (v != v)}
    pats |= {1 << i for i in range(8 * n)} | {2 ** (8 * n) - 1 - (1 << i)
                                              for i in range(8 * n)}
    for pat in pats:
        data = pat.to_bytes(n, 'big')
        v = exact(data)
        run.see('floats written and read')
        back, pos = read(b, rn, data + b'\x5a')
        run.case((rn, pat), {'primitive': rn, 'octets': data.hex(),
                             'value': repr(back)}
                 if run.evaluations % 39999 == 3 else None)
        if pos != n or not (back == v and math.copysign(1, back) ==
                            math.copysign(1, v) or v != v and back != back):
            run.violation(rn, f'{rn} of {data.hex()} gives {back!r}, not {v!r}')
        if v == v:
            got = write(b, wn, v)
            if got != data:
                run.violation(wn, f'{wn}({v!r}) writes {got.hex()}, not '
                              f'{data.hex()}')
        else:
            e = write(b, wn, v)
            if exact(e) == exact(e):
                run.violation(f'{wn}:nan', f'{wn}(nan) writes {e.hex()}')
    if n == 4:
        for _ in range(run.scale(4000, 60000)):
            v = rng.uniform(-1, 1) * 2.0 ** rng.randint(-150, 127)
            got = exact(write(b, wn, v))
            run.see('floats rounded')
            want = nearest32(v)
            if got != want:
                run.violation(f'{wn}:rounding', f'{wn}({v!r}) sends {got!r}, '
                              f'the nearest value is {want!r}')
        for bad in (1e39, -1e39, 3.5e38, 1.7e308):
            refuse(run, b, wn, bad)
    for v in (0, 1, -7, 12345, True):
        if exact(write(b, wn, v)) != v:
            run.violation(f'{wn}:int', f'{wn}({v}) is not {v}')
    for bad in (None, 'x'):
        refuse(run, b, wn, bad)
    for k in range(n):
        short(run, b, rn, b'\x40' * k)


def exact(data):
    """IEEE 754 decoding by hand."""
    n = len(data)
    bits = int.from_bytes(data, 'big')
    eb, mb = (8, 23) if n == 4 else (11, 52)
    sign = -1.0 if bits >> (eb + mb) else 1.0
    exp = bits >> mb & (2 ** eb - 1)
    man = bits & (2 ** mb - 1)
    bias = 2 ** (eb - 1) - 1
    if exp == 2 ** eb - 1:
        return float('nan') if man else sign * float('inf')
    if exp == 0:
        return sign * math.ldexp(man, 1 - bias - mb)
    return sign * math.ldexp(man + 2 ** mb, exp - bias - mb)


def nearest32(v):
    """Round half to even at float32 precision, by integers."""
    from fractions import Fraction
    if v == 0:
        return v
    m, e = math.frexp(abs(v))
    q = max(e - 24, -149)
    x = Fraction(abs(v)) / Fraction(2) ** q
    n = round(x)  # half to even
    return math.copysign(float(n * Fraction(2) ** q), v)


def characters(run, b):
    for c in range(256):
        got = write(b, 'write_char8', chr(c))
        back, pos = read(b, 'read_char8', bytes([c, 9]))
        run.case(('char8', c))
        if got != bytes([c]) or back != chr(c) or pos != 1:
            run.violation('char8', f'char8 {c}: writes {got.hex()}, reads '
                          f'{back!r}')
    for c in range(0, 65536, run.scale(5, 1)):
        got = write(b, 'write_char', chr(c))
        back, pos = read(b, 'read_char', c.to_bytes(2, 'big') + b'.')
        run.case(('char', c))
        if got != c.to_bytes(2, 'big') or back != chr(c) or pos != 2:
            run.violation('char', f'char {c:#x}: writes {got.hex()}, reads '
                          f'{back!r}')
    for v in (False, True):
        got = write(b, 'write_boolean', v)
        run.case(('bool', v))
        if got != bytes([v]):
            run.violation('boolean', f'write_boolean({v}) writes {got.hex()}')
    for c in range(256):
        back, pos = read(b, 'read_boolean', bytes([c]))
        run.case(('readbool', c))
        if back is not (c != 0) or pos != 1:
            run.violation('boolean', f'read_boolean of {c} gives {back!r}')
    for bad in (chr(256), chr(0x1f600), 'ab', ''):
        refuse(run, b, 'write_char8', bad)
    for bad in (chr(0x1f600), 'ab', ''):
        refuse(run, b, 'write_char', bad)
    short(run, b, 'read_char8', b'')
    short(run, b, 'read_char', b'a')
    short(run, b, 'read_boolean', b'')


def octets(run, b):
    rng = run.rng
    lens = list(range(0, 70)) + [127, 128, 255, 256, 257, 1000, 4096, 32767,
                                 32768, 65534, 65535]
    for n in lens * run.scale(10, 40):
        data = rng.randbytes(n)
        run.see('octet strings')
        run.case(('bytes', data))
        if write(b, 'write_bytes', data, b'ab') != b'ab' + data:
            run.violation('write_bytes', f'write_bytes of {n} octets')
        kind = rng.choice([bytearray, memoryview,
                           lambda x: memoryview(b'.' + x)[1:]])
        if write(b, 'write_bytes', kind(data)) != data:
            run.violation('write_bytes:kind', f'write_bytes of {n} octets of '
                          f'a {type(kind(data)).__name__}')
        back, pos = read(b, 'read_bytes', data + b'xyz', n)
        if back != data or pos != n:
            run.violation('read_bytes', f'read_bytes({n}) gives {len(back)} '
                          f'octets and moves {pos}')
        pre = n.to_bytes(2, 'big')
        if write(b, 'write_utf', data) != pre + data:
            run.violation('write_utf', f'write_utf of {n} octets')
        back, pos = read(b, 'read_utf', pre + data + b'q')
        if back != data or pos != n + 2:
            run.violation('read_utf', f'read_utf of {n} octets gives '
                          f'{len(back)}, moves {pos}')
        if n:
            cut = rng.randrange(n)
            short(run, b, 'read_bytes', data[:cut], n)
            short(run, b, 'read_utf', pre + data[:cut])
    for n in [65536, 65537, 70000, 131071, 131072, 131073, 1 << 20,
              1234567] + [rng.randrange(1 << 16, 1 << 21) for _ in
                          range(run.scale(6, 60))]:
        data = rng.randbytes(n)     # only the counted form has a limit
        run.see('octet strings')
        run.case(('bytes', n, data[:9]))
        if write(b, 'write_bytes', data, b'ab') != b'ab' + data:
            run.violation('write_bytes', f'write_bytes of {n} octets')
        back, pos = read(b, 'read_bytes', data + b'xyz', n)
        if back != data or pos != n:
            run.violation('read_bytes', f'read_bytes({n}) gives {len(back)} '
                          f'octets and moves {pos}')
        short(run, b, 'read_bytes', data[:-rng.choice([1, 2, 5, n // 2])], n)
    for n in (65536, 70000):
        refuse(run, b, 'write_utf', bytes(n))
    for n in (-1, -5):
        short(run, b, 'read_bytes', b'abcdef', n)
    for k in range(2):
        short(run, b, 'read_utf', b'\0' * k)


def mixed(run, b):
    """Sequences of primitives on one stream, in order and in place."""
    rng = run.rng
    names = list(INTS.items())
    for _ in range(run.scale(400, 6000)):
        s = io.BytesIO()
        out = b.Out(s)
        want, vals = b'', []
        for _ in range(rng.randint(2, 30)):
            (wn, rn), (n, signed) = rng.choice(names)
            lo = -2 ** (8 * n - 1) if signed else 0
            v = rng.randint(lo, lo + 2 ** (8 * n) - 1)
            getattr(out, wn)(v)
            want += v.to_bytes(n, 'big', signed=signed)
            vals.append((rn, v))
        run.case(('mixed', want))
        if s.getvalue() != want:
            run.violation('sequence', f'a sequence of writes gives '
                          f'{s.getvalue().hex()}, not {want.hex()}')
            continue
        s.seek(0)
        inp = b.In(s)
        for rn, v in vals:
            if getattr(inp, rn)() != v:
                run.violation('sequence-read', f'{rn} in a sequence is wrong')
                break
