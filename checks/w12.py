"""W12: constructors keep what they are given, and default to blank."""
import inspect
import io
import itertools
import os

from lib import core, wire, work
from checks.w01 import strip
from checks.w11 import fill_in_place

RULE = ('a case is one object made by its constructor from keyword, positional'
        ' or partial arguments, encoded and compared with the reference '
        'encoding of those arguments (everything else at its default); '
        'distinct by class and octets; non-trivial when an argument is given')

# constructor parameters that are stored under another attribute name
ALIAS = {'range_': 'range', 'originatingEntityID': 'orginatingEntityID',
         'forceId': 'forceID',
         'requiredReliabilityService': 'requiredReliablityService',
         'azimuthBeamwidthHorizontal': 'azimuthalBeamwidthHorizontal',
         'communicationsNodeType': 'communcationsNodeType',
         'fuelMeasurementUnits': 'fuelMeasurmentUnits'}
# a new object holds zeros, except (field: value)
DEFAULTS = {
    'AngleDeception': {'recordType': 3501, 'recordLength': 48},
    'FalseTargetsAttribute': {'recordType': 3502, 'recordLength': 48},
    'BlankingSector': {'recordType': 3500, 'recordLength': 40},
    'IOCommunicationsNode': {'recordType': 5501, 'recordLength': 16},
    'IOEffect': {'recordType': 5500, 'recordLength': 16},
    'EntityAssociation': {'recordType': 4}, 'EntityTypeVP': {'recordType': 3},
    'SeparationVP': {'recordType': 2}, 'AttachedParts': {'recordType': 1},
    'RadioType': {'entityKind': 7}, 'PduHeader': {'protocolVersion': 7},
    'BasicHaveQuickMP': {'mwod_index': 1},
    'DirectedEnergyDamage': {'temperature': -273.15},
}


def declared():
    """The published order of constructor parameters."""
    out = {}
    for line in open(os.path.join(core.VERIF, 'lib', 'ctor.spec')):
        cls, _, ps = line.partition('|')
        out[cls.strip()] = ps.split()
    return out


def check(run):
    order = declared()
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, inexact=True)
    for cls in wire.PDUS + wire.ENCODE_ONLY + wire.RECORDS:
        names = set(fields_of(cls))
        params = [p for p in inspect.signature(b.cls(cls)).parameters.values()]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in params):
            params = []
        own = fields_of(cls)
        known = [n for n in order[cls] if real(n, own) in own]
        w.setup(cls)
        default = blank(cls)
        judge(run, b, cls, default, lambda: b.cls(cls)(), 'no arguments', True)
        for p in params:
            if p.default is p.empty:
                run.violation(f'{cls}:required', f'{cls} cannot be constructed '
                              f'without {p.name}')
        for n in known:     # nothing, given in so many words
            name = real(n, own)
            z = nothing(own[name], name)
            if z is None or 'variableData' in own and \
                    name.startswith('variableData'):
                continue
            run.see('zeros given')
            want = dict(default, **{name: z})
            judge(run, b, cls, want, lambda: b.cls(cls)(**{n: z}),
                  f'{n} of nothing', True)
        for i, m in enumerate(itertools.chain(
                few(w, cls, run.scale(40, 600)),
                w.models(cls, sweep=32, rand=run.scale(40, 600),
                         lengths=(0, 1, 2, 5, 17, 128, 255),
                         literal_budget=run.scale(120, 1000),
                         small=run.scale(60, 900)))):
            how = ['all', 'all', 'some', 'one', 'positional'][
                i % 5 if i < 40 else i % 2 * 4]
            if how == 'some':
                use = [n for n in known if rng.random() < 0.5]
            elif how == 'one' and known:
                use = [known[(i // 5) % len(known)]]
            else:
                use = list(known)
            want = merge(cls, default, m, [real(n, own) for n in use])
            if cls == 'TransmitterPdu' and not work.consistent(want):
                continue
            kw = {n: value(b, cls, m, real(n, own)) for n in use}
            if any(v is Ellipsis for v in kw.values()):
                kw = {k: v for k, v in kw.items() if v is not Ellipsis}
            for k, v in kw.items():     # any sequence will do
                if isinstance(v, list) and v and rng.random() < 0.25:
                    kw[k] = sequence(rng, own[real(k, own)], k, v)
                    run.see(f'lists given as {type(kw[k]).__name__}')
            if how == 'positional' and known and \
                    len(known) == len(order[cls]):
                judge(run, b, cls, want,
                      lambda: b.cls(cls)(*[kw[n] for n in known]),
                      'positional arguments')
                run.see('positional constructions')
            else:
                judge(run, b, cls, want, lambda: b.cls(cls)(**kw),
                      f'keywords {use}')
            run.see('arguments given', len(use))
        edited_later(run, b, w, cls, default, known, own)
        run.see('classes constructed')
    headers(run, b)
    run.need('headers on their own', 300)
    run.need('classes constructed', len(wire.PDUS) + len(wire.RECORDS))
    run.need('arguments given', 5000)
    run.need('zeros given', 300)
    run.need('lists given as tuple', 300)
    run.need('lists given as bytes', 15)
    run.need('positional constructions', 300)
    run.need('records edited after they were given', 400)


def few(w, cls, n):
    for i in range(n):
        m = w.grown(cls) if i % 3 == 0 else \
            w.one(cls, i, 'sweep') if i % 3 == 1 else w.one(cls)
        w.gen.mode = 'rand'
        yield m


def headers(run, b):
    """The header class on its own, for PDU types without a class; and PDUs
    of a user's own type."""
    rng = run.rng
    c = b.dis7.PduSuperclass
    width = [('protocolVersion', 1), ('exerciseID', 1), ('pduType', 1),
             ('protocolFamily', 1), ('timestamp', 4), ('pduLength', 2)]
    for i in range(run.scale(400, 4000)):
        v = {n: rng.choice([0, 1, 2 ** (8 * k) - 1, rng.getrandbits(8 * k),
                            rng.getrandbits(4)]) for n, k in width}
        for n, default in (('protocolVersion', 7), ('exerciseID', 0),
                           ('timestamp', 0), ('pduLength', 0)):
            if rng.random() < 0.25:
                v[n] = default
        want = b''.join(v[n].to_bytes(k, 'big') for n, k in width)
        kw = {n: v[n] for n in v if n in ('pduType', 'protocolFamily') or
              v[n] != {'protocolVersion': 7}.get(n, 0) or rng.random() < 0.5}
        run.see('headers on their own')
        run.case(('header', want))
        if i % 3 == 2:      # a class of the user's own
            own = type('Own', (b.dis7.Pdu,), {
                'pduType': v['pduType'],
                'protocolFamily': v['protocolFamily']})
            o = own(pduStatus=v['exerciseID'])
            o.protocolVersion, o.exerciseID = v['protocolVersion'], v[
                'exerciseID']
            o.timestamp, o.length = v['timestamp'], v['pduLength']
            want += bytes([v['exerciseID'], 0])
        else:
            o = c(*v.values()) if i % 3 else c(**kw)
        got = work.encode(b, o)
        if got != want:
            run.violation('PduSuperclass', f'header made from {kw} is sent as '
                          f'{got.hex()}, not {want.hex()}')
        back = c(pduType=1, protocolFamily=1)
        back.parse(b.In(io.BytesIO(want)))
        seen = {n: getattr(back, 'length' if n == 'pduLength' else n)
                for n, _ in width}
        if seen != v:
            run.violation('PduSuperclass:read', f'header {want.hex()} is read '
                          f'as {seen}')


def edited_later(run, b, w, cls, default, known, own):
    """Records that are blank when given are used all the same: what their
    owner sets in them afterwards is sent."""
    for i in range(run.scale(3, 40)):
        names = [n for n in known if own[real(n, own)].kind == 'rec' and
                 not special(own[real(n, own)].type) or
                 own[real(n, own)].kind == 'list' and
                 own[real(n, own)].type in wire.SPEC and
                 not special(own[real(n, own)].type)]
        if i and len(names) > 1:
            names = [n for n in names if run.rng.random() < 0.6]
        if not names:
            return
        m = w.grown(cls)
        kw, want, held = {}, dict(default), []
        for n in names:
            f = own[real(n, own)]
            v = m[real(n, own)]
            mine = []
            for e in ([v] if f.kind == 'rec' else v):
                o = b.build(blank(e['_c']))
                old_padding(e, blank(e['_c']))
                held.append((e, o))
                mine.append(o)
            kw[n] = mine[0] if f.kind == 'rec' else mine
            want[real(n, own)] = v

        def make():
            o = b.cls(cls)(**kw)
            for e, r in held:
                fill_in_place(b, r, e, run.rng)
            return o
        judge(run, b, cls, want, make, f'{names} blank, then filled')
        run.see('records edited after they were given', len(held))


def special(cls):
    return any(f.kind == 'special' or f.kind == 'rec' and special(f.type)
               for f in wire.fields(cls))


def old_padding(m, z):
    for f in wire.fields(m['_c']):
        if f.kind == 'scalar' and (f.pad or f.name == 'pduType'):
            m[f.name] = z[f.name]
        elif f.kind == 'rec':
            old_padding(m[f.name], z[f.name])
        elif f.kind == 'bits':
            for x in f.bits:
                if x[3]:
                    m[x[0]] = z[x[0]]


def real(name, own):
    return name if name in own else ALIAS.get(name, name)


def fields_of(cls):
    """Constructible fields: attribute name -> token."""
    out = {}
    for f in wire.fields(cls):
        if f.kind in ('scalar', 'rec', 'list', 'array'):
            out[f.name] = f
        elif f.kind == 'bits':
            for x in f.bits:
                out[x[0]] = f
        elif f.kind == 'special':
            for n in {'bytes': [f.name], 'beamstatus': ['beamState'],
                      'vardatum': ['variableDatumID', 'variableDatumLength',
                                   'variableData'],
                      'iff': ['recordType', 'iffData'], 'mp': [f.name],
                      'ap': [f.name]}.get(f.type, []):
                out[n] = f
    return out


def blank(cls):
    """The model of a new object."""
    m = {'_c': cls}
    for f in wire.fields(cls):
        if f.kind == 'scalar':
            m[f.name] = 0
        elif f.kind == 'rec':
            m[f.name] = blank(f.type)
        elif f.kind == 'list':
            m[f.name] = []
        elif f.kind == 'array':
            m[f.name] = [0] * f.n
        elif f.kind == 'bits':
            for nm, width, boolean, pad in f.bits:
                m[nm] = 0
        elif f.kind == 'special':
            m.update({'bytes': {f.name: b''}, 'beamstatus': {'beamState': 0},
                      'vardatum': {'variableDatumID': 0,
                                   'variableDatumLength': 0,
                                   'variableData': []},
                      'iff': {'recordType': 0, 'iffData': []},
                      'mp': {f.name: None}, 'ap': {f.name: None}}
                     .get(f.type, {}))
    m.update(DEFAULTS.get(cls, {}))
    if wire.is_pdu(cls):
        m.update(protocolVersion=7, pduType=wire.TYPE_OF_CLASS[cls],
                 protocolFamily=wire.family(cls))
    if cls in wire.SV_CODE:
        m['_type'] = wire.SV_CODE[cls]
    return m


def sequence(rng, f, name, v):
    small = f.kind in ('list', 'array') and f.type == 'u8' or name in (
        'variableData', 'iffData')
    return rng.choice([tuple, bytes, bytearray] if small else [tuple])(v)


def nothing(f, name):
    if f.kind == 'scalar':
        return 0 if f.type in wire.INT else 0.0
    if f.kind == 'array':
        return [0] * f.n
    if f.kind == 'list':
        return []
    if f.kind == 'bits':
        return False if {x[0]: x[2] for x in f.bits}[name] else 0
    return None


def merge(cls, default, m, use):
    out = dict(default)
    for n in use:
        out[n] = m[n]
    if 'variableData' in m:  # these three go together
        vd = {'variableDatumLength', 'variableData'}
        if vd & set(use) and not vd <= set(use):
            out['variableDatumLength'] = 0
            out['variableData'] = []
    return out


def value(b, cls, m, name):
    f = fields_of(cls)[name]
    v = m[name]
    if name in ('variableDatumLength',) and False:
        return v
    if f.kind == 'rec':
        return b.build(v)
    if f.kind in ('list', 'array'):
        return [b.build(e) if isinstance(e, dict) else e for e in v]
    if f.kind == 'special' and f.type in ('mp', 'ap'):
        return None if v is None else b.build(v)
    return v


def judge(run, b, cls, m, make, how, padding=False):
    if cls == 'VariableDatum' and not how.startswith(('no', 'pos')) and \
            ('variableDatumLength' in how) != ('variableData\'' in how):
        return
    try:
        o = make()
        got = work.encode(b, o)
    except Exception as e:
        run.case()
        run.violation(f'{cls}:raises', f'{cls} with {how} raised {e!r}')
        return
    ref = wire.encode_sv(m) if cls in wire.SV_CODE else wire.encode_full(m)
    if padding:     # that no one set: zeros, too
        ref.mask[:] = b'\xff' * len(ref.mask)
    run.case((cls, got) if how != 'no arguments' else None,
             {'class': cls, 'how': how[:120], 'octets': got[:32].hex()}
             if run.evaluations % 997 == 3 else None)
    d = wire.mask_diff(ref, got)
    if d:
        run.violation(f'{cls}:{strip(d[1])}', f'{cls} constructed with '
                      f'{how[:200]}: octet {d[0]} ({d[1]}) should be '
                      f'{d[2]:#x}, is {d[3]:#x}',
                      {'expected': bytes(ref.b), 'got': got})
