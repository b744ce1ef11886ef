"""Independent reference for the DIS wire format of this library.

wire.spec is a hand-audited table of the layout of every PDU and record.  This
module generates model values from it (plain dicts), encodes them with its own
code (no code of /repo), builds the corresponding objects of /repo through
their public constructors and attributes, and compares decoded objects with the
model.

Tokens of wire.spec
  name:T        scalar of type T           name:=C      record of class C
  name:[T]      list of scalars/records    name:T*n     array of n scalars
  #name:T=list  number of elements of list (*8: length in bits or octets)
  ~name:T       padding                    _:T          zero padding, unnamed
  {a/n,...}     bit field, most significant first (?a: boolean, ~a: padding)
  @C            the fields of C, inline    !x           special encoding x
"""
import math
import os
import re
import struct

try:
    from numpy import float64 as FLOAT
except ImportError:
    FLOAT = float

HERE = os.path.dirname(os.path.abspath(__file__))

INT = {'u8': (1, False), 'u16': (2, False), 'u32': (4, False),
       'u64': (8, False), 'i8': (1, True), 'i16': (2, True), 'i32': (4, True),
       'i64': (8, True)}
FLT = {'f32': ('>f', 4), 'f64': ('>d', 8)}
SIZE = {**{k: v[0] for k, v in INT.items()}, 'f32': 4, 'f64': 8}

# PDU type -> class, from IEEE 1278.1 / SISO-REF-010 [UID 4]
PDU_TYPES = {
    1: 'EntityStatePdu', 2: 'FirePdu', 3: 'DetonationPdu', 4: 'CollisionPdu',
    5: 'ServiceRequestPdu', 6: 'ResupplyOfferPdu', 7: 'ResupplyReceivedPdu',
    9: 'RepairCompletePdu', 10: 'RepairResponsePdu', 11: 'CreateEntityPdu',
    12: 'RemoveEntityPdu', 13: 'StartResumePdu', 14: 'StopFreezePdu',
    15: 'AcknowledgePdu', 16: 'ActionRequestPdu', 17: 'ActionResponsePdu',
    18: 'DataQueryPdu', 19: 'SetDataPdu', 20: 'DataPdu', 21: 'EventReportPdu',
    22: 'CommentPdu', 23: 'ElectromagneticEmissionsPdu', 24: 'DesignatorPdu',
    25: 'TransmitterPdu', 26: 'SignalPdu', 27: 'ReceiverPdu', 29: 'UaPdu',
    30: 'SeesPdu', 31: 'IntercomSignalPdu', 32: 'IntercomControlPdu',
    33: 'AggregateStatePdu', 36: 'IsPartOfPdu', 37: 'MinefieldStatePdu',
    40: 'MinefieldResponseNackPdu', 43: 'PointObjectStatePdu',
    44: 'LinearObjectStatePdu', 45: 'ArealObjectStatePdu',
    51: 'CreateEntityReliablePdu', 52: 'RemoveEntityReliablePdu',
    53: 'StartResumeReliablePdu', 54: 'StopFreezeReliablePdu',
    55: 'AcknowledgeReliablePdu', 56: 'ActionRequestReliablePdu',
    57: 'ActionResponseReliablePdu', 58: 'DataQueryReliablePdu',
    59: 'SetDataReliablePdu', 60: 'DataReliablePdu',
    61: 'EventReportReliablePdu', 62: 'CommentReliablePdu',
    63: 'RecordQueryReliablePdu', 66: 'CollisionElasticPdu',
    67: 'EntityStateUpdatePdu', 68: 'DirectedEnergyFirePdu',
    69: 'EntityDamageStatusPdu',
}
FAMILY = {'EntityInformationFamilyPdu': 1, 'WarfareFamilyPdu': 2,
          'LogisticsFamilyPdu': 3, 'RadioCommunicationsFamilyPdu': 4,
          'SimulationManagementFamilyPdu': 5,
          'DistributedEmissionsFamilyPdu': 6, 'EntityManagementFamilyPdu': 7,
          'MinefieldFamilyPdu': 8, 'SyntheticEnvironmentFamilyPdu': 9,
          'SimulationManagementWithReliabilityFamilyPdu': 10}
SV_TYPES = {3000: 'HighFidelityHAVEQUICKRadio',
            4000: 'DirectedEnergyPrecisionAimpoint',
            4001: 'DirectedEnergyAreaAimpoint', 4500: 'DirectedEnergyDamage'}
SV_CODE = {v: k for k, v in SV_TYPES.items()}
SV_KNOWN = {'vtp': [3000], 'damage': [4000, 4001, 4500],
            'any': [3000, 4000, 4001, 4500]}
SV_BASE = {'vtp': 'VariableTransmitterParametersRecord',
           'damage': 'DamageDescriptionRecord', 'any': 'StandardVariableRecord'}


class F:
    """One token of a class."""
    __slots__ = ('kind', 'name', 'type', 'n', 'ref', 'mul', 'bits', 'pad')

    def __init__(self, kind, name='', type_='', n=0, ref='', mul=1, bits=None,
                 pad=False):
        self.kind, self.name, self.type, self.n = kind, name, type_, n
        self.ref, self.mul, self.bits, self.pad = ref, mul, bits, pad

    def __repr__(self):
        return f'<{self.kind} {self.name}:{self.type}>'


def _token(t):
    if t.startswith('{'):
        bits = []
        for b in t[1:-1].split(','):
            nm, w = b.split('/')
            bits.append((nm.lstrip('?~'), int(w), nm[0] == '?', nm[0] == '~'))
        return F('bits', bits=bits)
    if t.startswith('@'):
        return F('inline', type_=t[1:])
    if t.startswith('!'):
        return F('special', type_=t[1:])
    if t.startswith('#'):
        m = re.fullmatch(r'#(\w*):(\w+)=(!?\w+)(\*8)?', t)
        return F('count', m[1], m[2], ref=m[3], mul=8 if m[4] else 1)
    if t.startswith('_:'):
        return F('zero', type_=t[2:])
    pad = t.startswith('~')
    nm, ty = t.lstrip('~').split(':', 1)
    if ty.startswith('='):
        return F('rec', nm, ty[1:])
    if ty.startswith('['):
        ty = ty[1:-1]
        return F('list', nm, ty)
    if ty.startswith('!'):
        return F('special', nm, ty[1:])
    if '*' in ty:
        a, n = ty.split('*')
        return F('array', nm, a, int(n))
    return F('scalar', nm, ty, pad=pad)


def load():
    spec, bases = {}, {}
    for line in open(os.path.join(HERE, 'wire.spec')):
        line = line.split('--')[0].strip()
        if not line:
            continue
        head, _, body = line.partition('|')
        m = re.fullmatch(r'(\w+)(?:\((\w+)\))?', head.strip())
        spec[m[1]] = [_token(t) for t in body.split()]
        bases[m[1]] = m[2]
    return spec, bases


SPEC, BASES = load()
_flat = {}


def fields(cls):
    """All tokens of a class, inherited ones first, inline ones expanded."""
    if cls not in _flat:
        out = []
        if BASES.get(cls) in SPEC:
            out += fields(BASES[cls])
        for f in SPEC[cls]:
            out += fields(f.type) if f.kind == 'inline' else [f]
        _flat[cls] = out
    return _flat[cls]


def family(cls):
    while cls:
        if cls in FAMILY:
            return FAMILY[cls]
        cls = BASES.get(cls)
    return None


def is_pdu(cls):
    return cls.endswith('Pdu')


STANDALONE = [c for c in SPEC if not is_pdu(c)]
ABSTRACT = {'AntennaPatternRecord', 'ModulationParametersRecord',
            'VariableTransmitterParametersRecord', 'DamageDescriptionRecord',
            'PduSuperclass'}
RECORDS = [c for c in STANDALONE if c not in ABSTRACT]
CLASS_OF_TYPE = PDU_TYPES
TYPE_OF_CLASS = {v: k for k, v in PDU_TYPES.items()}
TYPE_OF_CLASS['FastEntityStatePdu'] = 1
TYPE_OF_CLASS['AttributePdu'] = 72
ENCODE_ONLY = ['FastEntityStatePdu', 'AttributePdu']  # not in the factory
SIZED = ('UnknownRadio', 'UnknownAntennaPattern')  # told their length
PDUS = list(PDU_TYPES.values())


# ---------------------------------------------------------------- encoding

def pack(ty, v):
    if ty in INT:
        n, signed = INT[ty]
        return int(v).to_bytes(n, 'big', signed=signed)
    fmt, n = FLT[ty]
    return struct.pack(fmt, v)


class Enc:
    """Reference encoder: bytes plus, per byte, a mask of significant bits and
    the path of the field it belongs to."""

    def __init__(self):
        self.b = bytearray()
        self.mask = bytearray()
        self.path = []
        self.counts = []  # (offset, type, path, value) of count fields

    def put(self, data, path, sig=True):
        self.b += data
        self.mask += (b'\xff' if sig else b'\0') * len(data)
        self.path += [path] * len(data)

    def record(self, m, path=''):
        cls = m['_c']
        start = len(self.b)
        for f in fields(cls):
            p = f'{path}.{f.name}' if path else f.name
            k = f.kind
            if k == 'scalar':
                self.put(pack(f.type, m[f.name]), p, not f.pad)
            elif k == 'rec':
                self.record(m[f.name], p)
            elif k == 'count':
                n = count_value(f, m)
                self.counts.append((len(self.b), f.type, f'{path}#{f.name}', n))
                self.put(pack(f.type, n), f'{path}#{f.name}')
            elif k == 'list':
                for i, e in enumerate(m[f.name]):
                    if f.type.startswith('SV.'):
                        self.sv(e, f'{p}[{i}]')
                    elif f.type in SIZE:
                        self.put(pack(f.type, e), f'{p}[{i}]')
                    else:
                        self.record(e, f'{p}[{i}]')
            elif k == 'array':
                for i, e in enumerate(m[f.name]):
                    self.put(pack(f.type, e), f'{p}[{i}]')
            elif k == 'zero':
                self.put(bytes(SIZE[f.type]), p, False)
            elif k == 'bits':
                v = msk = n = 0
                for nm, w, _, pad in f.bits:
                    v = v << w | int(m[nm])
                    msk = msk << w | (0 if pad else 2 ** w - 1)
                    n += w
                at = len(self.b)
                self.put(v.to_bytes(n // 8, 'big'), p)
                self.mask[at:] = msk.to_bytes(n // 8, 'big')
            else:
                self.special(f, m, p, start)

    def special(self, f, m, p, start):
        t = f.type
        if t == 'bytes':
            self.put(m[f.name], p)
        elif t == 'beamstatus':
            self.put(bytes([m['beamState']]), p)
            self.mask[-1] = 1
        elif t == 'vardatum':
            self.put(pack('u32', m['variableDatumID']), p + '.id')
            self.counts.append((len(self.b), 'u32', p + '.length',
                                m['variableDatumLength']))
            self.put(pack('u32', m['variableDatumLength']), p + '.length')
            self.put(bytes(m['variableData']), p + '.data')
            self.put(bytes(-len(m['variableData']) % 8), p + '.pad', False)
        elif t == 'iff':
            self.put(pack('u32', m['recordType']), p + '.type')
            self.counts.append((len(self.b), 'u16', p + '.length',
                                len(m['iffData']) + 6))
            self.put(pack('u16', len(m['iffData']) + 6), p + '.length')
            self.put(bytes(m['iffData']), p + '.data')
        elif t in ('mp', 'ap'):
            if m[f.name] is not None:
                self.record(m[f.name], p)
        elif t == 'padto8':
            n = -(len(self.b) - start + 6) % 8  # 6: type and length came first
            self.put(bytes(n), p, False)
        else:
            raise KeyError(t)

    def sv(self, m, path):
        e = Enc()
        if m['_c'] == 'UnknownSV':
            e.put(m['data'], path + '.data')
        else:
            e.record(m, path)
        self.put(pack('u32', m['_type']), path + '.recordType')
        self.counts.append((len(self.b), 'u16', path + '.recordLength',
                            len(e.b) + 6))
        self.put(pack('u16', len(e.b) + 6), path + '.recordLength')
        off = len(self.b)
        self.b += e.b
        self.mask += e.mask
        self.path += e.path
        self.counts += [(o + off, t, p, n) for o, t, p, n in e.counts]


def count_value(f, m):
    if f.ref == '!ap':
        return size(m['antennaPattern'])
    if f.ref == '!mp':
        return size(m['modulationParameters'])
    return len(m[f.ref]) * f.mul


def size(m):
    return 0 if m is None else len(encode(m))


def encode(m):
    e = Enc()
    e.record(m)
    return bytes(e.b)


def encode_full(m):
    e = Enc()
    e.record(m)
    return e


def encode_sv(m):
    e = Enc()
    e.sv(m, 'sv')
    return e


# -------------------------------------------------------------- generation

F32_SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2 ** -149, -2 ** -149, 2 ** -126,
               (2 - 2 ** -23) * 2.0 ** 127, -(2 - 2 ** -23) * 2.0 ** 127,
               float('inf'), float('-inf'), float('nan'), 16777216.0,
               16777217.0 - 1, 1e-3, 3.1415927410125732, 123456.0, -273.15]
F64_SPECIAL = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308,
               1.7976931348623157e308, -1.7976931348623157e308, float('inf'),
               float('-inf'), float('nan'), 6378137.0, -6356752.3142,
               math.pi, 2.0 ** 53 + 2, 1 / 3]


def blob(r, n):
    """n octets of opaque contents: noise, but also the plain things
    applications send (nothing, all ones, a text, one octet repeated)."""
    c = r.random()
    if c < 0.6:
        return r.randbytes(n)
    if c < 0.75:
        return bytes(n)
    if c < 0.82:
        return b'\xff' * n
    if c < 0.88:
        return bytes([r.randrange(256)]) * n
    if c < 0.94:
        return (b'alpha bravo charlie ' * (n // 20 + 1))[:n]
    x = bytearray(n)    # a few octets set, often the first or the last
    for i in range(min(n, 3)):
        x[r.choice((0, n - 1, r.randrange(n)))] = r.randrange(1, 256)
    return bytes(x)


def f32(v):
    try:
        return struct.unpack('>f', struct.pack('>f', v))[0]
    except OverflowError:
        return math.copysign(float('inf'), v)


def quiet_nan(r, ty):
    """Not a number, of either sign, at times with something in it."""
    x = 0 if r.random() < 0.4 else r.choice([1, r.getrandbits(22)])
    if ty == 'f32':
        return struct.unpack('>f', (0x7fc00000 | x | r.getrandbits(1) << 31)
                             .to_bytes(4, 'big'))[0]
    return struct.unpack('>d', (0x7ff8 << 48 | x | x << 29
                                | r.getrandbits(1) << 63)
                         .to_bytes(8, 'big'))[0]


class Gen:
    """Generates models.  k numbers the case: over 256 consecutive cases every
    octet of every integer field takes each of its 256 values."""

    def __init__(self, rng, consts=((), (), ()), maxlist=3, inexact=False,
                 pads=False, finite=False):
        self.rng = rng
        self.ints = list(consts[0])
        self.flts = list(consts[1])
        self.maxlist = maxlist
        self.inexact = inexact
        self.pads = pads
        self.finite = finite
        self.k = 0
        self.fi = 0
        self.mode = 'rand'
        self.depth_len = None  # forced list length at the outermost level

    def octet(self):
        self.fi += 1
        return (self.k * (2 * (self.fi * 37 % 128) + 1) + self.fi * 101) & 255

    def integer(self, ty):
        n, signed = INT[ty]
        if self.mode == 'sweep':
            v = int.from_bytes(bytes(self.octet() for _ in range(n)), 'big',
                               signed=signed)
            return v
        r = self.rng
        lo, hi = (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1) if signed else \
            (0, 2 ** (8 * n) - 1)
        c = r.random()
        if self.mode == 'ones':
            return hi
        if self.mode == 'zeros':
            return 0
        if c < 0.25:
            return r.choice([lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, 1])
        if c < 0.4:
            return max(lo, min(hi, 1 << r.randrange(8 * n)))
        if c < 0.6 and self.ints:
            v = r.choice(self.ints)
            if lo <= v <= hi:
                return v
        if c < 0.7:
            return r.randint(max(lo, 0), min(hi, 255))
        return r.randint(lo, hi)

    def floating(self, ty):
        r = self.rng
        c = r.random()
        special = F32_SPECIAL if ty == 'f32' else F64_SPECIAL
        if self.mode == 'zeros':
            v = 0.0
        elif c < 0.3:
            v = r.choice(special)
        elif c < 0.4 and self.flts:
            v = r.choice(self.flts)
        elif c < 0.6:
            v = r.uniform(-1e7, 1e7)
        elif c < 0.7:
            v = float(r.randint(-1000, 1000))
        elif ty == 'f32':
            v = struct.unpack('>f', r.getrandbits(32).to_bytes(4, 'big'))[0]
        else:
            v = struct.unpack('>d', r.getrandbits(64).to_bytes(8, 'big'))[0]
        if 0.3 <= c < 0.32 and self.mode != 'zeros':
            v = float('nan')
        if v != v or (self.finite and abs(v) == float('inf')):
            v = 1.5 if self.finite else quiet_nan(r, ty)
        if ty == 'f32' and not (self.inexact and abs(v) < 1e38):
            v = f32(v)
            if self.finite and abs(v) == float('inf'):
                v = 2.5
        return v

    def scalar(self, ty):
        return self.integer(ty) if ty in INT else self.floating(ty)

    def length(self):
        if self.depth_len is not None:
            n, self.depth_len = self.depth_len, None
            return n
        r = self.rng
        c = r.random()
        if c < 0.25:
            return 0
        if c < 0.55:
            return 1
        return r.randint(2, max(2, self.maxlist))

    def record(self, cls, outer=False):
        m = {'_c': cls}
        for f in fields(cls):
            k = f.kind
            if k == 'scalar':
                if f.pad:
                    m[f.name] = self.pad(f.type)
                else:
                    m[f.name] = self.scalar(f.type)
            elif k == 'rec':
                m[f.name] = self.record(f.type)
            elif k == 'list':
                m[f.name] = self.listof(f)
            elif k == 'array':
                m[f.name] = [self.scalar(f.type) for _ in range(f.n)]
            elif k == 'bits':
                for nm, w, boolean, pad in f.bits:
                    if pad:
                        v = self.rng.getrandbits(w) if self.pads else 0
                    elif self.mode == 'ones':
                        v = 2 ** w - 1
                    else:
                        v = self.rng.choice([self.rng.getrandbits(w), 0,
                                             2 ** w - 1, 1])
                    m[nm] = bool(v) if boolean else v
            elif k == 'special':
                self.special(f, m)
        if cls == 'TransmitterPdu':
            self.radio(m)
        if 'pduType' in m and is_pdu(cls):
            m['pduType'] = TYPE_OF_CLASS.get(cls, m['pduType'])
        return m

    def pad(self, ty):
        if not self.pads:
            return 0
        n = INT[ty][0]
        # signed paddings: non-negative values only, their sign is no one's
        return self.rng.choice([0, 1, self.rng.getrandbits(8 * n - 1)])

    def listof(self, f):
        if f.type == 'NONE':
            return []
        if f.name == 'data' or f.type == 'u8':
            n = self.length()
            if n and self.rng.random() < 0.5 and n <= 3:
                n = self.rng.choice([n, 8, 13, 64, 100])
            if f.type == 'u8' and self.mode == 'rand' and \
                    self.rng.random() < 0.4:
                return list(blob(self.rng, n))
        else:
            n = self.length()
        if f.type.startswith('SV.'):
            return [self.sv(f.type[3:]) for _ in range(n)]
        if f.type in SIZE:
            return [self.scalar(f.type) for _ in range(n)]
        return [self.record(f.type) for _ in range(n)]

    def sv(self, fam):
        r = self.rng
        if r.random() < 0.7:
            t = r.choice(SV_KNOWN[fam])
            m = self.record(SV_TYPES[t])
            m['_type'] = t
            return m
        t = self.integer('u32')
        if t in SV_TYPES:
            t = 77777
        return {'_c': 'UnknownSV', '_type': t, '_fam': fam,
                'data': blob(r, 2 + 8 * r.choice([0, 0, 1, 2, 5, 31]))}

    def special(self, f, m):
        r = self.rng
        t = f.type
        if t == 'bytes':
            m[f.name] = blob(r, 8 * r.randint(1, 5))
        elif t == 'beamstatus':
            m['beamState'] = r.randrange(2)
        elif t == 'vardatum':
            m['variableDatumID'] = self.integer('u32')
            n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, r.randint(0, 70)])
            m['variableDatumLength'] = n * 8
            m['variableData'] = list(blob(r, n))
        elif t == 'iff':
            m['recordType'] = self.integer('u32')
            m['iffData'] = list(blob(r, r.choice([0, 1, 2, 10, 26, r.randrange(48)])))
        elif t in ('mp', 'ap'):
            m[f.name] = None

    def radio(self, m):
        r = self.rng
        c = r.choice(['none', 'hq', 'cctt', 'unknown', 'none1'])
        mt = m['modulationType']
        if c == 'hq':
            mt['radioSystem'] = r.choice([2, 3, 4])
            m['modulationParameters'] = self.record('BasicHaveQuickMP')
        elif c == 'cctt':
            mt['radioSystem'] = 6
            m['modulationParameters'] = self.record('CCTTSincgarsMP')
        elif c == 'unknown':
            n = r.choice([8, 16, 24, 128, 248, r.randint(1, 255)])
            if r.random() < 0.3:    # not the record of the radio system
                mt['radioSystem'] = r.choice([1, 2, 3, 4, 6])
                n += (n == 16 and mt['radioSystem'] != 1)
            elif mt['radioSystem'] in (1, 2, 3, 4, 6):
                mt['radioSystem'] = r.choice([0, 5, 7, 8, 9, 256, 65535])
            m['modulationParameters'] = {'_c': 'UnknownRadio',
                                         'data': blob(r, n)}
        elif c == 'none1':
            mt['radioSystem'] = 1
        a = r.choice(['none', 'beam', 'unknown'])
        if a == 'beam':
            m['antennaPatternType'] = 1
            m['antennaPattern'] = self.record('BeamAntennaPattern')
        elif a == 'unknown':
            n = r.choice([8, 16, 24, 32, 48, 128, 320, r.randint(1, 400)])
            n += n == 40
            if r.random() < 0.3:    # not the record of the type
                m['antennaPatternType'] = 1
            elif m['antennaPatternType'] == 1:
                m['antennaPatternType'] = 2
            m['antennaPattern'] = {'_c': 'UnknownAntennaPattern',
                                   'data': blob(r, n)}

    def radio_reset(self, m):
        m['modulationParameters'] = m['antennaPattern'] = None
        if m['modulationType']['radioSystem'] in (1, 2, 3, 4, 6):
            m['modulationType']['radioSystem'] = 0
        if m['antennaPatternType'] == 1:
            m['antennaPatternType'] = 0
        self.radio(m)

    def case(self, cls, k=None, mode=None):
        self.fi = 0
        if k is not None:
            self.k = k
        self.mode = mode or 'rand'
        return self.record(cls)


# ------------------------------------------------- objects of the real code

class Bridge:
    """Builds and inspects objects of /repo through public names only."""

    def __init__(self, share=False):
        self.share = share  # equal records may be one object
        self.loose = False  # sequences may be of any kind
        self.depth, self.built = 0, {}
        import opendis.dis7 as dis7
        import opendis.record as record
        from opendis.stream import DataInputStream, DataOutputStream
        import opendis.PduFactory as factory
        self.dis7, self.recordmod, self.factory = dis7, record, factory
        self.In, self.Out = DataInputStream, DataOutputStream
        self._cls = {}

    def cls(self, name):
        if name not in self._cls:
            c = getattr(self.dis7, name, None)
            if c is None:
                c = getattr(self.recordmod, name, None)
            if c is None:
                from opendis.record import base, warfare, radio
                for mod in (base, warfare, radio):
                    c = c or getattr(mod, name, None)
            if c is None:
                raise AttributeError(f'no class {name}')
            self._cls[name] = c
        return self._cls[name]

    def build(self, m, rng=None):
        """The object that a user would build for model m: default instance,
        then attribute assignment (rng mixes in filling sub-records in place,
        and appending to the existing lists)."""
        name = m['_c']
        if name == 'UnknownSV':
            base = self.cls(SV_BASE[m['_fam']])
            c = self.recordmod.getStandardVariableClass(m['_type'], base)
            o = c()
            o.data = m['data']
            return o
        o = self.cls(name)()
        if not self.depth:
            self.built = {}
        self.depth += 1
        try:
            self.fill(o, m, rng)
        finally:
            self.depth -= 1
        return o

    def sequence(self, rng):
        return list if not self.loose or rng is None else rng.choice(
            [list, list, tuple, bytes, bytearray])

    def number(self, v, rng):
        """A number of a type derived from its own, now and then: conversions
        of coordinates give NumPy's floats, comparisons booleans."""
        if rng is None or not self.loose or rng.random() > 0.04:
            return v
        if type(v) is float:
            return FLOAT(v)
        return bool(v) if type(v) is int and v in (0, 1) else v

    def fill(self, o, m, rng=None):
        for f in fields(m['_c']):
            k, n = f.kind, f.name
            if k == 'scalar':
                if n in ('pduType', 'protocolFamily') and is_pdu(m['_c']):
                    if n == 'protocolFamily' and \
                            getattr(o, n, None) != m[n]:
                        setattr(o, n, m[n])
                    continue
                if f.pad and m[n] == 0:
                    continue
                setattr(o, n, self.number(m[n], rng))
            elif k == 'rec':
                same = repr(m[n]) if self.share and rng is not None else None
                if same and 'nan' in same:
                    same = None     # which NaN it is repr does not say
                if same in self.built and rng.random() < 0.7:
                    setattr(o, n, self.built[same])     # used twice
                elif rng is not None and rng.random() < 0.5 and \
                        getattr(o, n, None) is not None:
                    self.fill(getattr(o, n), m[n], rng)
                else:
                    setattr(o, n, self.build(m[n], rng))
                if same is not None:
                    self.built[same] = getattr(o, n)
            elif k in ('list', 'array'):
                v = [self.build(e, rng) if isinstance(e, dict) else e
                     for e in m[n]]
                if self.share and rng is not None and rng.random() < 0.5:
                    seen = {}       # by repr: 0.0 and -0.0 differ
                    for i in range(min(len(v), 6)):
                        if isinstance(m[n][i], dict) and \
                                'nan' not in repr(m[n][i]):
                            j = seen.setdefault(repr(m[n][i]), i)
                            v[i] = v[j]  # perhaps listed twice
                if k == 'list':
                    cur = getattr(o, n)
                    if self.loose and rng is not None and v and \
                            rng.random() < 0.1 and not isinstance(getattr(
                                type(o), n, None), property):
                        setattr(o, n, rng.choice(
                            [tuple, bytes, bytearray] if f.type == 'u8' else
                            [tuple])(v))
                    elif rng is not None and rng.random() < 0.5:
                        for e in v:
                            cur.append(e)
                    else:
                        cur[:] = v
                else:
                    setattr(o, n, v)
            elif k == 'bits':
                for nm, w, boolean, pad in f.bits:
                    if not (pad and m[nm] == 0):
                        setattr(o, nm, self.number(m[nm], rng))
            elif k == 'special':
                t = f.type
                if t in ('bytes',):
                    setattr(o, n, m[n])
                elif t == 'beamstatus':
                    o.beamState = m['beamState']
                elif t == 'vardatum':
                    o.variableDatumID = m['variableDatumID']
                    o.variableDatumLength = m['variableDatumLength']
                    o.variableData = self.sequence(rng)(m['variableData'])
                elif t == 'iff':
                    o.recordType = m['recordType']
                    o.iffData = self.sequence(rng)(m['iffData'])
                elif t in ('mp', 'ap'):
                    setattr(o, n, None if m[n] is None
                            else self.build(m[n], rng))

    # -- comparison of a real object with a model
    def diff(self, m, o, path='', out=None, counts=True):
        out = [] if out is None else out
        if len(out) > 5:
            return out
        name = m['_c']
        if name == 'UnknownSV':
            if getattr(o, 'recordType', None) != m['_type']:
                out.append((path + '.recordType', m['_type'],
                            getattr(o, 'recordType', None)))
            if bytes(getattr(o, 'data', b'?')) != m['data']:
                out.append((path + '.data', m['data'],
                            getattr(o, 'data', None)))
            return out
        if not isinstance(o, self.cls(name)):
            out.append((path + '(class)', name, type(o).__name__))
            return out
        if '_type' in m and getattr(o, 'recordType', None) != m['_type']:
            out.append((path + '.recordType', m['_type'],
                        getattr(o, 'recordType', None)))
        for f in fields(name):
            k, n = f.kind, f.name
            p = f'{path}.{n}' if path else n
            if k == 'scalar':
                if f.pad:
                    continue
                v = getattr(o, n)
                if not same(m[n], v, f.type):
                    out.append((p, m[n], v))
            elif k == 'rec':
                self.diff(m[n], getattr(o, n), p, out, counts)
            elif k in ('list', 'array'):
                got = getattr(o, n)
                if len(got) != len(m[n]):
                    out.append((p + '.len', len(m[n]), len(got)))
                    continue
                for i, (a, b) in enumerate(zip(m[n], got)):
                    if isinstance(a, dict):
                        self.diff(a, b, f'{p}[{i}]', out, counts)
                    elif not same(a, b, f.type):
                        out.append((f'{p}[{i}]', a, b))
            elif k == 'count':
                if counts and n and hasattr(o, n):
                    v = getattr(o, n)
                    if v != count_value(f, m):
                        out.append((p, count_value(f, m), v))
            elif k == 'bits':
                for nm, w, boolean, pad in f.bits:
                    if not pad and getattr(o, nm) != m[nm]:
                        out.append((f'{path}.{nm}', m[nm], getattr(o, nm)))
            elif k == 'special':
                t = f.type
                if t == 'bytes':
                    if bytes(getattr(o, n)) != m[n]:
                        out.append((p, m[n], getattr(o, n)))
                elif t == 'beamstatus':
                    if o.beamState != m['beamState']:
                        out.append((p, m['beamState'], o.beamState))
                elif t == 'vardatum':
                    for a in ('variableDatumID', 'variableDatumLength'):
                        if getattr(o, a) != m[a]:
                            out.append((f'{path}.{a}', m[a], getattr(o, a)))
                    if list(o.variableData) != m['variableData']:
                        out.append((f'{path}.variableData', m['variableData'],
                                    list(o.variableData)))
                elif t == 'iff':
                    if o.recordType != m['recordType'] or \
                            list(o.iffData) != m['iffData']:
                        out.append((p, m, (o.recordType, list(o.iffData))))
                elif t in ('mp', 'ap'):
                    got = getattr(o, n)
                    if m[n] is None:
                        if got is not None and got.marshalledSize() != 0:
                            out.append((p, None, type(got).__name__))
                    elif got is None:
                        out.append((p, m[n]['_c'], None))
                    else:
                        self.diff(m[n], got, p, out, counts)
        return out


def same(a, b, ty):
    if ty in FLT:
        if not isinstance(b, (int, float)):
            return False
        if a != a:
            return b != b
        if ty == 'f32':
            a = f32(a)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(b) is not str and a == b and not isinstance(b, float)


def noisy(ref, rng):
    """The octets with anything where nothing is meant."""
    c = rng.random()
    out = bytearray(ref.b)
    for i, m in enumerate(ref.mask):
        if m != 0xff:
            x = 0xff if c < 0.3 else 0x80 if c < 0.5 else rng.getrandbits(8)
            out[i] = out[i] & m | x & ~m & 0xff
    return bytes(out)


def mask_diff(ref, got):
    """None, or (offset, path, expected, got) of the first significant
    difference between a reference encoding and real bytes."""
    n = min(len(ref.b), len(got))
    for i in range(n):
        if (ref.b[i] ^ got[i]) & ref.mask[i]:
            return i, ref.path[i], ref.b[i], got[i]
    if len(ref.b) != len(got):
        return n, 'length', len(ref.b), len(got)
    return None
