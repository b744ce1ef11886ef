"""Workload: the executions every wire check drives, and small helpers."""
import ast
import glob
import io
import os

from . import core, wire

COMMON = set(range(9)) | {16, 32, 64, 255}


def class_literals():
    """Literals per class or function of the code under test (reach only)."""
    out = {}
    for fn in glob.glob(os.path.join(core.REPO, 'opendis', '**', '*.py'),
                        recursive=True):
        if os.path.basename(fn) == 'symbolic_names.py':
            continue  # hundreds of enumeration values
        try:
            tree = ast.parse(open(fn, encoding='utf-8').read())
        except (OSError, SyntaxError, ValueError):
            continue
        for node in ast.iter_child_nodes(tree):
            if not isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                if isinstance(node, ast.Assign) and not isinstance(
                        node.value, (ast.Dict, ast.List, ast.Tuple)):
                    pass
                else:
                    continue
            name = getattr(node, 'name', '*')
            s = out.setdefault(name, set())
            for k in ast.walk(node):
                s |= _value(k)
    return out


def _value(k):
    if isinstance(k, ast.Constant):
        v = k.value
        if isinstance(v, bool):
            return set()
        if isinstance(v, (int, float)):
            return {v}
        if isinstance(v, str) and len(v) == 1:
            return {ord(v)}
        if isinstance(v, bytes) and len(v) == 1:
            return {v[0]}
    elif isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.USub) and \
            isinstance(k.operand, ast.Constant) and \
            isinstance(k.operand.value, (int, float)):
        return {-k.operand.value}
    elif isinstance(k, ast.BinOp) and isinstance(
            k.op, (ast.LShift, ast.Pow, ast.Mult, ast.Sub, ast.Add, ast.Div)):
        try:  # constant folding of small expressions such as 1 << 20
            v = eval(compile(ast.Expression(k), '', 'eval'),
                     {'__builtins__': {}})
            if isinstance(v, (int, float)) and abs(v) < 2 ** 65:
                return {v}
        except Exception:
            pass
    return set()


def class_conditions():
    """What the tests in the code compare, per class or function: for every
    function a {name: values} of attributes and variables and the constants
    beside them; ('len', name) for lengths (reach only)."""
    out = {}
    for fn in glob.glob(os.path.join(core.REPO, 'opendis', '**', '*.py'),
                        recursive=True):
        if os.path.basename(fn) == 'symbolic_names.py':
            continue
        try:
            tree = ast.parse(open(fn, encoding='utf-8').read())
        except (OSError, SyntaxError, ValueError):
            continue
        for node in ast.iter_child_nodes(tree):
            if not isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                continue
            for f in ast.walk(node):
                if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                    got = _conditions(f)
                    if got:
                        out.setdefault(node.name, []).append(got)
    return out


def _conditions(f):
    tests, out = [], {}
    for k in ast.walk(f):
        if isinstance(k, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            tests.append(k.test)
        elif isinstance(k, ast.BoolOp):
            tests += k.values
        elif isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.Not):
            tests.append(k.operand)
        elif isinstance(k, ast.comprehension):
            tests += k.ifs
        elif isinstance(k, ast.Compare):
            sides = [k.left] + k.comparators
            consts = set()
            for x in ast.walk(k):
                consts |= {v for v in _value(x) if v == v and abs(v) < 1e30}
            ints = sorted(v for v in consts if isinstance(v, int))[:4]
            more = set(consts)
            if any(isinstance(x, ast.BinOp) for x in ast.walk(k)):
                more |= {a + b for a in ints for b in ints} | \
                    {a * b for a in ints for b in ints} | \
                    {a | b for a in ints for b in ints}
            for side in sides:
                for n in _names(side):
                    out.setdefault(n, set()).update(more or {0, 1})
    for t in tests:
        if isinstance(t, (ast.Attribute, ast.Name, ast.Subscript, ast.Call,
                          ast.BinOp)):
            for n in _names(t):
                out.setdefault(n, set()).update({0, 1, 2})
    return {n: v for n, v in out.items() if v}


def _names(k):
    if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and \
            k.func.id == 'len':
        return {('len', n) for a in k.args for n in _names(a)
                if isinstance(n, str)}
    if isinstance(k, ast.Attribute):
        return {k.attr} | (_names(k.value) if isinstance(
            k.value, (ast.Subscript, ast.Call)) else set())
    if isinstance(k, ast.Name):
        return {k.id} - {'self'}
    out = set()
    for c in ast.iter_child_nodes(k):
        if isinstance(c, ast.expr):
            out |= _names(c)
    return out


_SHARED = ('DataInputStream', 'DataOutputStream', 'getPdu', 'createPdu',
           'createPduFromFilePath', 'bitfield', 'PduSuperclass', 'Pdu', '*',
           'StandardVariableRecord', 'VariableRecord',
           'getStandardVariableClass')


class Literals:
    def __init__(self):
        self.per = class_literals()
        self.tests = class_conditions()
        self.rare_all = set()
        known = set(wire.SPEC) | set(_SHARED)
        # helpers someone added: their literals concern every class
        self.helpers = set()
        for name, s in self.per.items():
            if name not in known and not _module_of_geo(name):
                self.helpers |= s
        for n in _SHARED:
            self.helpers |= self.per.get(n, set())

    def of(self, cls):
        """Rare literals relevant to a class (its bases, its sub-records)."""
        seen, todo, out = set(), [cls], set(self.helpers)
        while todo:
            c = todo.pop()
            if c in seen or c not in wire.SPEC:
                continue
            seen.add(c)
            out |= self.per.get(c, set())
            todo.append(wire.BASES.get(c))
            for f in wire.SPEC[c]:
                t = f.type
                if t in wire.SPEC:
                    todo.append(t)
                elif t.startswith('SV.'):
                    todo += [wire.SV_TYPES[x] for x in wire.SV_KNOWN[t[3:]]]
                elif t == 'mp':
                    todo += ['UnknownRadio', 'BasicHaveQuickMP',
                             'CCTTSincgarsMP']
                elif t == 'ap':
                    todo += ['UnknownAntennaPattern', 'BeamAntennaPattern']
        return out

    def conditions(self, cls):
        """The tests made in functions of a class, its bases, its parts."""
        known = set(wire.SPEC) | set(_SHARED)
        todo, seen, out = [cls], set(), []
        while todo:
            c = todo.pop()
            if not c or c in seen:
                continue
            seen.add(c)
            out += self.tests.get(c, [])
            todo.append(wire.BASES.get(c))
            for f in wire.SPEC.get(c, ()):
                if f.type in wire.SPEC:
                    todo.append(f.type)
        for n in list(_SHARED) + [n for n in self.tests if n not in known and
                                  not _module_of_geo(n)]:
            if n not in seen:
                out += self.tests.get(n, [])
        return out

    def rare(self, cls):
        return sorted(v for v in self.of(cls) if v not in COMMON and v == v)

    def own(self, cls):
        """Literals of the class itself, its bases and the shared helpers."""
        out = set(self.helpers)
        while cls:
            out |= self.per.get(cls, set())
            cls = wire.BASES.get(cls)
        return out


def _module_of_geo(name):
    return name in ('WGS84', 'GPS', 'deg2rad', 'rad2deg', 'euclideanDistance') \
        or name.startswith('drm_') or name in (
            'get_rotation_matrix', 'get_angular_velocity_matrix', '_to_numpy')


def near(values):
    out = set()
    for v in values:
        if isinstance(v, int):
            out |= {v - 1, v, v + 1}
        elif abs(v) < 2 ** 64:
            out |= {int(v) - 1, int(v), int(v) + 1}
    return out


class Workload:
    """Models of one class after the other, in a fixed mixture of strategies:
    every octet value of every field (sweep), extremes, literals of the code
    under test placed in every field, list lengths, and random values."""

    def __init__(self, run, inexact=False, pads=False, finite=False,
                 maxlist=3):
        self.run = run
        self.lits = Literals()
        self.gen = wire.Gen(run.rng, maxlist=maxlist, inexact=inexact,
                            pads=pads, finite=finite)

    def setup(self, cls):
        rare = self.lits.rare(cls)
        self.gen.ints = sorted(near(rare) | {0, 1, 2, 3, 255, 256})
        self.gen.flts = sorted(float(v) for v in set(rare) | {-v for v in rare}
                               if abs(v) < 1e30)
        return rare

    def one(self, cls, k=None, mode=None):
        m = self.gen.case(cls, k, mode)
        if mode is None:
            c = self.run.rng.random()
            if c < 0.12:
                blanks(m, self.run.rng)
            if c < 0.06 or c > 0.92:
                enums(m, self.run.rng)
        return self.top(m)

    def top(self, m):
        if wire.is_pdu(m['_c']):
            fam = wire.family(m['_c'])
            m['protocolFamily'] = fam if self.run.rng.random() < 0.8 or \
                self.gen.mode == 'sweep' else self.run.rng.randrange(256)
            if 'length' in m and self.run.rng.random() < 0.2 and \
                    self.gen.mode == 'rand':
                m['length'] = wire.size(m) & 0xffff     # as it should be
        return m

    def models(self, cls, **how):
        for m in self.all_models(cls, **how):
            if not core.SUB or self.run.rng.random() < 0.2:
                yield m

    def all_models(self, cls, sweep=256, rand=100, lengths=(0, 1, 2, 5, 17),
                   literal_budget=400, small=None):
        rng, gen = self.run.rng, self.gen
        rare = self.setup(cls)
        for mode in ('zeros', 'ones'):
            yield self.one(cls, mode=mode)
        step = max(1, 256 // sweep) if sweep else 0
        for k in range(0, 256, step) if sweep else ():
            yield self.one(cls, k, 'sweep')
        for n in lengths:
            yield from self.with_lengths(cls, n)
        for n in range(3, 36 if self.run.tier == 'quick' else 132):
            yield from self.with_lengths(cls, n)
        lens = [int(v) + d for v in rare if isinstance(v, int) and 0 < v <= 300
                for d in (0, 1)]
        for n in sorted(set(lens))[:12]:
            yield from self.with_lengths(cls, n)
        yield from self.wide(cls)
        yield from self.blobs(cls, rare)
        yield from self.literal_cases(cls, self.lits.own(cls), literal_budget)
        yield from self.flats(cls, literal_budget // 4)
        yield from self.lonely(cls, literal_budget // 2)
        yield from self.conditional(cls, literal_budget // 2)
        for i in range(rand):
            m = self.one(cls)
            if i % 5 == 3:
                twins(m, rng)
            yield m
        # as applications fill them in: small numbers, and records nobody set
        for i in range(rand // 2 if small is None else small):
            m = self.one(cls)
            enums(m, rng)
            if i % 4:
                blanks(m, rng)
            yield self.top(m)

    def literal_cases(self, cls, values, budget):
        """Each rare literal (and its neighbours) in each field in turn."""
        rare = sorted(near(v for v in values if v not in COMMON))
        flts = sorted({float(v) for v in values if v not in COMMON
                       and abs(v) < 1e30})
        if not rare:
            return
        m = self.one(cls)
        slots = len(list(scalars(m, pads=self.gen.pads)))
        mine, c = set(), cls    # the class's own come first
        while c:
            mine |= self.lits.per.get(c, set())
            c = wire.BASES.get(c)
        first, todo = [], []
        for i in range(slots):
            first += [(i, v) for v in mine if v == v and abs(v) < 1e30]
            todo += [(i, v) for v in rare] + [(i, v) for v in flts]
        if len(first) > budget:
            first = self.run.rng.sample(first, budget)
        if len(todo) > budget:
            todo = self.run.rng.sample(todo, budget)
        for i, v in first + todo:
            m = self.one(cls)
            s = list(scalars(m, pads=self.gen.pads))
            if i < len(s) and self.place(v, *s[i]) and consistent(m):
                yield m

    def place(self, v, owner, key, ty):
        if key == 'pduType':
            return False
        if ty == 'bool' or isinstance(ty, int):     # a bit field
            if not isinstance(v, int) or not 0 <= v < 2 ** (
                    1 if ty == 'bool' else ty):
                return False
            owner[key] = bool(v) if ty == 'bool' else v
            return True
        if ty in wire.INT:
            n, signed = wire.INT[ty]
            lo = -2 ** (8 * n - 1) if signed else 0
            hi = lo + 2 ** (8 * n) - 1
            if not isinstance(v, int) or not lo <= v <= hi:
                return False
        else:
            v = float(v)
            if ty == 'f32':
                v = wire.f32(v)
        owner[key] = v
        return True

    def flats(self, cls, budget):
        """The same number everywhere, or in about half of the fields."""
        mine, c = set(range(13)), cls
        while c:
            mine |= {v for v in self.lits.per.get(c, ())
                     if v == v and abs(v) < 1e30}
            c = wire.BASES.get(c)
        mine = sorted(mine)
        if len(mine) > budget:
            mine = self.run.rng.sample(mine, budget)
        for v in mine:
            m = self.one(cls)
            share = self.run.rng.choice((1, 1, .5))
            for owner, key, ty in scalars(m, pads=self.gen.pads):
                if key not in FIXED and self.run.rng.random() < share:
                    self.place(v, owner, key, ty)
            if consistent(m):
                yield m

    def conditional(self, cls, budget):
        """The conditions the code tests, met or nearly met together."""
        rng, todo = self.run.rng, []
        for c in self.lits.conditions(cls):
            todo += [c] * min(36, 12 * len(c))
        if len(todo) > budget:
            todo = rng.sample(todo, budget)
        for c in todo:
            self.gen.mode = 'rand'
            m = self.grown(cls) if rng.random() < 0.4 else self.one(cls)
            self.gen.mode = 'rand'
            if rng.random() < 0.3:
                blanks(m, rng)
            where, everywhere, hit = {}, rng.random() < 0.5, 0
            for owner, f in lists(m):
                n = ('len', f.name)
                if n in c and f.type != 'NONE' and rng.random() < 0.8:
                    v = rng.choice(sorted(c[n])) + rng.choice((0, 0, 0, 1, -1))
                    cap = 255 if count_width(owner['_c'], f) == 'u8' else 4000
                    if isinstance(v, int) and 0 <= v * f.mul_total <= cap:
                        saved = self.gen.maxlist
                        self.gen.maxlist = 1 if v > 4 else saved
                        few = [self.element(f) for _ in range(min(v, 40))]
                        self.gen.maxlist = saved
                        owner[f.name] = [few[j % 40] for j in range(v)]
                        hit += 1
            for owner, key, ty in named_scalars(m):
                where.setdefault(key, []).append((owner, ty))
            for n in c:
                slots = where.get(n, ())
                if not slots or n in FIXED or rng.random() < 0.12:
                    continue
                v = rng.choice(sorted(c[n]))
                for (owner, k), ty in slots if everywhere else \
                        [rng.choice(slots)]:
                    if isinstance(v, int):
                        v += rng.choice((0, 0, 0, 0, 1, -1))
                    hit += self.place(v, owner, k, ty)
            if hit and consistent(m):
                self.run.see('conditions met')
                yield self.top(m)

    def lonely(self, cls, budget):
        """A number the class mentions (or a small one) in a field of its own,
        with some of its records holding nothing but zeros."""
        rng, mine, c = self.run.rng, {1, 2, 3}, cls
        while c:
            mine |= {v for v in self.lits.per.get(c, ())
                     if v == v and abs(v) < 1e30}
            c = wire.BASES.get(c)
        names = [f.name for f in wire.fields(cls) if f.kind == 'scalar' and
                 f.name not in FIXED and (self.gen.pads or not f.pad)]
        if not any(f.kind in ('rec', 'list') for f in wire.fields(cls)):
            return
        todo = [(v, n) for v in sorted(mine) for n in names] * 6
        if len(todo) > budget:
            todo = rng.sample(todo, budget)
        for v, n in todo:
            m = self.one(cls) if rng.random() < 0.6 else self.grown(cls)
            self.gen.mode = 'rand'
            blanks(m, rng, (0.3, 0.5, 0.5, 0.8))
            for owner, key, ty in scalars(m):
                if owner is m and key == n:
                    self.place(v, owner, key, ty)
            if consistent(m):
                yield self.top(m)

    def with_lengths(self, cls, n):
        """One model per list of the class, at any depth, with n elements."""
        count = len(list(lists(self.one(cls, mode='ones'))))
        for _ in range(1):
            base = self.grown(cls)
            for i, (owner, f) in enumerate(list(lists(base))):
                m = self.grown(cls)
                ls = list(lists(m))
                if i >= len(ls):
                    continue
                owner, f = ls[i]
                if f.type == 'NONE':
                    continue
                cap = 255 if count_width(owner['_c'], f) == 'u8' else 65535
                if n > cap or (f.mul_total * n > cap):
                    continue
                saved = self.gen.mode, self.gen.maxlist
                self.gen.mode = 'rand'
                if n > 4:
                    self.gen.maxlist = 1
                owner[f.name] = [self.element(f) for _ in range(n)]
                self.gen.mode, self.gen.maxlist = saved
                yield m

    def wide(self, cls):
        """Lists counted in more than eight bits hold thousands."""
        rng = self.run.rng
        for i, (owner, f) in enumerate(list(lists(self.grown(cls)))):
            if f.type == 'NONE' or count_width(owner['_c'], f) == 'u8':
                continue
            for _ in range(1 if self.run.tier == 'quick' else 6):
                m = self.grown(cls)
                ls = list(lists(m))
                if i >= len(ls) or ls[i][1].name != f.name:
                    continue
                n = rng.choice((256, 257, 300, 512, 1000, 1024, 1025, 2048,
                                2049, 4095, 4096, 4097, 5000, 8191, 8192,
                                8193, 10000) + ((16384, 32768, 40000, 65535)
                                if self.run.tier != 'quick' else ()))
                self.gen.mode = 'rand'
                few = [self.element(f) for _ in range(rng.choice((1, 3, 7)))]
                ls[i][0][f.name] = [few[j % len(few)] for j in range(
                    min(n, 65535 // f.mul_total,
                        500 if ls[i][0]['_c'] in wire.SV_CODE else n))]
                self.run.see('lists of hundreds or thousands')
                yield m

    def blobs(self, cls, rare, n=8):
        """Opaque contents of all sizes, up to the largest their length field
        can state."""
        rng = self.run.rng
        if not opaque_kinds(cls):
            return
        near_lits = [v + d for v in rare if isinstance(v, int) and
                     16 < v < 70000 for d in (-8, -6, -1, 0, 1, 2, 8)]
        for i in range(n if self.run.tier == 'quick' else 6 * n):
            for _ in range(6):
                m = self.one(cls)
                slots = list(opaque(m))
                if slots:
                    break
            else:
                continue
            owner, key, step, offset, top = rng.choice(slots)
            size = top if i == 0 else rng.choice(near_lits) \
                if near_lits and i % 3 == 1 else rng.choice(SIZES)
            k = (min(size, top) - offset) // step * step + offset
            k = max(k, offset)
            data = wire.blob(rng, k)
            if (key == 'data' and owner['_c'] in ('UnknownRadio',
                                                  'UnknownAntennaPattern')):
                k = max(1, k)
                data = data or b'\x07'
                k += (owner['_c'] == 'UnknownRadio' and k == 16)
                k += (owner['_c'] == 'UnknownAntennaPattern' and k == 40)
                data = (data + bytes(2))[:k]
            owner[key] = data if isinstance(owner[key], bytes) else list(data)
            if key == 'variableData':
                owner['variableDatumLength'] = 8 * k
            yield m

    def grown(self, cls):
        """A model whose lists all have an element."""
        for _ in range(20):
            m = self.one(cls)
            ls = list(lists(m))
            for owner, f in ls:
                if not owner[f.name] and f.type != 'NONE':
                    owner[f.name] = [self.element(f)]
            if all(o[f.name] or f.type == 'NONE' for o, f in lists(m)):
                return m
        return m

    def element(self, f):
        if f.type.startswith('SV.'):
            return self.gen.sv(f.type[3:])
        if f.type in wire.SIZE:
            return self.gen.scalar(f.type)
        return self.gen.record(f.type)


def consistent(m):
    """The Transmitter's type fields agree with its variable sections."""
    if m['_c'] != 'TransmitterPdu':
        return True
    rs = m['modulationType']['radioSystem']
    mp = m['modulationParameters']
    ap = m['antennaPattern']
    known = {2: 'BasicHaveQuickMP', 3: 'BasicHaveQuickMP',
             4: 'BasicHaveQuickMP', 6: 'CCTTSincgarsMP'}.get(rs)
    if mp is not None and (wire.size(mp) == 0 or mp['_c'] != (
            known if known and wire.size(mp) == 16 else 'UnknownRadio')):
        return False
    return ap is None or ap['_c'] == (
        'BeamAntennaPattern' if m['antennaPatternType'] == 1 and
        wire.size(ap) == 40 else 'UnknownAntennaPattern')


SIZES = (0, 1, 2, 100, 254, 255, 256, 257, 258, 260, 511, 512, 513, 1000, 1023,
         1024, 1026, 1400, 2047, 2048, 4095, 4096, 8184, 8191, 9000, 16383,
         16384, 32765, 32767, 32768, 50000, 65000, 65535)
_kinds = {}


def opaque_kinds(cls):
    """Does the class hold opaque contents anywhere?"""
    if cls not in _kinds:
        _kinds[cls] = False
        for f in wire.fields(cls):
            if f.kind == 'special' and f.type in (
                    'bytes', 'vardatum', 'iff', 'mp', 'ap') or \
                    f.kind == 'list' and (f.type.startswith('SV.') or
                                          f.type == 'u8') or \
                    f.type in wire.SPEC and opaque_kinds(f.type):
                _kinds[cls] = True
    return _kinds[cls]


def opaque(m):
    """(owner, key, step, least, largest size) of opaque contents."""
    if m['_c'] == 'UnknownSV':
        yield m, 'data', 8, 2, 65522
        return
    for f in wire.fields(m['_c']):
        v = m.get(f.name)
        if f.kind == 'rec' or f.kind == 'special' and f.type in ('mp', 'ap') \
                and v:
            yield from opaque(v)
        elif f.kind == 'list' and v and isinstance(v[0], dict):
            for e in v[:3]:
                yield from opaque(e)
        elif f.kind == 'list' and f.type == 'u8':
            yield m, f.name, 1, 0, 255 if count_width(m['_c'], f) == 'u8' \
                else 8191
        elif f.kind == 'special' and f.type == 'vardatum':
            yield m, 'variableData', 1, 0, 70000
        elif f.kind == 'special' and f.type == 'iff':
            yield m, 'iffData', 1, 0, 65529
        elif f.kind == 'special' and f.type == 'bytes':
            yield m, f.name, 1, 1, 255 if m['_c'] == 'UnknownRadio' else 65535


class ListRef:
    def __init__(self, f, cls):
        self.name, self.type = f.name, f.type
        self.mul_total = 1
        for c in wire.fields(cls):
            if c.kind == 'count' and c.ref == f.name:
                self.mul_total = c.mul


def count_width(cls, f):
    for c in wire.fields(cls):
        if c.kind == 'count' and c.ref == f.name:
            return c.type
    return 'u16'


def lists(m):
    """(owner model, list field) of every list of a model, outermost first;
    of the elements of a list only the first is entered."""
    for f in wire.fields(m['_c']) if m['_c'] != 'UnknownSV' else ():
        if f.kind == 'list':
            if f.name == 'data' and f.type == 'u8':
                pass
            yield m, ListRef(f, m['_c'])
            for e in m[f.name][:1]:
                if isinstance(e, dict):
                    yield from lists(e)
        elif f.kind == 'rec':
            yield from lists(m[f.name])
        elif f.kind == 'special' and f.type in ('mp', 'ap') and m[f.name]:
            yield from lists(m[f.name])


def scalars(m, depth=0, pads=False):
    """(owner, key, type) of every scalar of a model, also in arrays and in
    the first and last elements of lists."""
    if m['_c'] == 'UnknownSV':
        return
    for f in wire.fields(m['_c']):
        if f.kind == 'scalar':
            if (pads or not f.pad) and f.name != 'pduType':
                yield m, f.name, f.type
        elif f.kind == 'rec':
            yield from scalars(m[f.name], depth + 1, pads)
        elif f.kind in ('array', 'list'):
            v = m[f.name]
            for i in sorted({0, len(v) - 1}) if v else ():
                if isinstance(v[i], dict):
                    yield from scalars(v[i], depth + 1, pads)
                elif f.type in wire.SIZE:
                    yield v, i, f.type
        elif f.kind == 'special':
            if f.type in ('mp', 'ap') and m[f.name]:
                yield from scalars(m[f.name], depth + 1, pads)
            elif f.type == 'vardatum':
                yield m, 'variableDatumID', 'u32'
            elif f.type == 'iff':
                yield m, 'recordType', 'u32'


def named_scalars(m):
    """Scalars by name, list elements by the name of their list; as
    ((owner, key), name, type) rearranged to (slot, name, type)."""
    for owner, key, ty in scalars(m, pads=True):
        if isinstance(key, str):
            yield (owner, key), key, ty
    todo = [m]
    while todo:
        o = todo.pop()
        for f in wire.fields(o['_c']) if o['_c'] != 'UnknownSV' else ():
            if f.kind == 'rec':
                todo.append(o[f.name])
            elif f.kind in ('list', 'array'):
                for i, e in enumerate(o[f.name][:3]):
                    if isinstance(e, dict):
                        todo.append(e)
                    elif f.type in wire.SIZE:
                        yield (o[f.name], i), f.name, f.type
            elif f.kind == 'bits':
                for nm, width, boolean, pad in f.bits:
                    if not pad:
                        yield (o, nm), nm, ('bool' if boolean else width)


FIXED = ('radioSystem', 'antennaPatternType', 'recordType', 'recordLength',
         'pduType', 'protocolFamily')


def enums(m, rng):
    """Most numbers are small, as enumerations and flags are."""
    for owner, key, ty in scalars(m):
        if key not in FIXED and rng.random() < 0.7:
            v = rng.choice((0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8))
            owner[key] = v if ty in wire.INT else float(v)


def blanks(m, rng, shares=(0.15, 0.4, 0.8, 1.0)):
    """Some records hold nothing but zeros, as if nobody had set them."""
    places, todo = [], [m]
    while todo:
        o = todo.pop()
        for f in wire.fields(o['_c']) if o['_c'] != 'UnknownSV' else ():
            if f.kind == 'rec':
                places.append(o[f.name])
                todo.append(o[f.name])
            elif f.kind == 'list':
                todo += [e for e in o[f.name] if isinstance(e, dict)]
                places += [e for e in o[f.name][:2] if isinstance(e, dict)]
            elif f.kind == 'special' and f.type in ('mp', 'ap') and \
                    o[f.name] and 'data' not in o[f.name]:
                places.append(o[f.name])
                todo.append(o[f.name])
    if not places:
        return
    share = rng.choice(shares)
    for r in [p for p in places if rng.random() < share] or \
            [rng.choice(places)]:
        for owner, key, ty in scalars(r):
            if key not in FIXED:
                owner[key] = 0 if ty in wire.INT else 0.0
        for f in wire.fields(r['_c']) if r['_c'] != 'UnknownSV' else ():
            for x in f.bits if f.kind == 'bits' else ():
                r[x[0]] = False if x[2] else 0


def twins(m, rng):
    """Some fields take the value of another field of the same type, some
    records that of another record, some list elements that of another."""
    import copy
    by = {}
    for owner, key, ty in scalars(m):
        if key not in ('radioSystem', 'antennaPatternType', 'recordType'):
            by.setdefault(('s', ty), []).append((owner, key))
    todo = [m]
    while todo:
        o = todo.pop()
        for f in wire.fields(o['_c']) if o['_c'] != 'UnknownSV' else ():
            if f.kind == 'rec':
                by.setdefault(('r', f.type), []).append((o, f.name))
                todo.append(o[f.name])
            elif f.kind == 'list' and o[f.name] and \
                    isinstance(o[f.name][0], dict):
                v = o[f.name]
                todo += v[:2]
                if len(v) > 1 and rng.random() < 0.6:
                    i, j = rng.sample(range(len(v)), 2)
                    v[i] = copy.deepcopy(v[j])
    for (kind, ty), places in by.items():
        if len(places) > 1 and ty != 'ModulationType':
            for _ in range(rng.randint(1, 2)):
                (a, x), (b, y) = rng.sample(places, 2)
                if a is not b[y] if kind == 'r' else True:
                    a[x] = copy.deepcopy(b[y])


def doubled(m):
    """Every list says its last element twice."""
    import copy
    for owner, f in list(lists(m)):
        v = owner[f.name]
        if v and f.type != 'NONE' and len(v) < 200:
            v.append(copy.deepcopy(v[-1]))
    return m


def encode(bridge, obj):
    s = io.BytesIO()
    obj.serialize(bridge.Out(s))
    return s.getvalue()


def decode(bridge, cls, data):
    """A PDU from its octets: the factory's, where the factory knows it."""
    if cls in wire.TYPE_OF_CLASS and cls not in wire.ENCODE_ONLY:
        return bridge.factory.createPdu(data)
    p = bridge.cls(cls)()
    told = [len(data)] if cls in wire.SV_CODE or cls in wire.SIZED else []
    p.parse(bridge.In(io.BytesIO(data)), *told)
    return p


def nonzero(data, header=12):
    return any(data[header:])


class Tape(io.BytesIO):
    """An in-memory stream that records what the decoder asks of it."""

    def __init__(self, data):
        super().__init__(data)
        self.size = len(data)
        self.reads = self.asked = self.short = self.unbounded = 0

    def read(self, n=-1):
        self.reads += 1
        if n is None or n < 0:
            self.unbounded += 1
        else:
            self.asked += n
        out = super().read(n)
        if n is not None and n >= 0 and len(out) < n:
            self.short += 1
        return out


def pairs(m, o, pads=False):
    """Parallel walk of a model and its object: ('scalar', m, o, key, type),
    ('bit', m, o, key, width, boolean), ('list', m, o, ListRef), ('rec', m, o,
    key, class), ('vardatum'|'iff'|'data', m, o) and ('radio', m, o)."""
    cls = m['_c']
    if cls == 'UnknownSV':
        yield 'data', m, o, 'data'
        return
    for f in wire.fields(cls):
        k, n = f.kind, f.name
        if k == 'scalar':
            if (pads or not f.pad) and n != 'pduType' and n != 'antennaPatternType' \
                    and n != 'radioSystem':
                yield 'scalar', m, o, n, f.type
        elif k == 'rec':
            yield 'rec', m, o, n, f.type
            yield from pairs(m[n], getattr(o, n), pads)
        elif k == 'array':
            for i in range(len(m[n])):
                yield 'scalar', m[n], getattr(o, n), i, f.type
        elif k == 'list':
            if f.type == 'NONE':
                continue
            yield 'list', m, o, ListRef(f, cls)
            for i, e in enumerate(m[n]):
                if isinstance(e, dict):
                    yield from pairs(e, getattr(o, n)[i], pads)
                else:
                    yield 'scalar', m[n], getattr(o, n), i, f.type
        elif k == 'bits':
            for nm, width, boolean, pad in f.bits:
                if not pad:
                    yield 'bit', m, o, nm, width, boolean
        elif k == 'special':
            if f.type in ('vardatum', 'iff', 'beamstatus'):
                yield f.type, m, o, n
            elif f.type == 'bytes':
                yield 'data', m, o, n
            elif f.type in ('mp', 'ap'):
                if m[n] is not None:
                    yield from pairs(m[n], getattr(o, n), pads)
    if cls == 'TransmitterPdu':
        yield 'radio', m, o, ''


def emptied(m, o):
    """The object o of model m, its lists emptied for another use."""
    for s in list(pairs(m, o)):
        if s[0] == 'list':
            getattr(s[2], s[3].name).clear()
        elif s[0] == 'vardatum':
            s[2].variableData = []
        elif s[0] == 'iff':
            s[2].iffData = []
    return o


def put(owner, key, value):
    if isinstance(key, int):
        owner[key] = value
    else:
        setattr(owner, key, value)


def pairs_in_place(m, o):
    """As pairs, for filling a new object without replacing any sub-object:
    scalars of the object and its sub-records, its lists, its specials."""
    for f in wire.fields(m['_c']):
        k, n = f.kind, f.name
        if k == 'scalar':
            if not f.pad and n != 'pduType':
                yield 'scalar', m, o, n
        elif k == 'rec':
            yield from pairs_in_place(m[n], getattr(o, n))
        elif k == 'array':
            for i in range(len(m[n])):
                yield 'scalar', m[n], getattr(o, n), i
        elif k == 'list' and f.type != 'NONE':
            yield 'list', m, o, n
        elif k == 'bits':
            for nm, width, boolean, pad in f.bits:
                if not pad:
                    yield 'scalar', m, o, nm
        elif k == 'special' and f.type == 'vardatum':
            o.variableData.extend(m['variableData'])
            yield 'scalar', m, o, 'variableDatumID'
            yield 'scalar', m, o, 'variableDatumLength'
        elif k == 'special' and f.type == 'iff':
            o.iffData.extend(m['iffData'])
        elif k == 'special' and f.type == 'beamstatus':
            yield 'scalar', m, o, 'beamState'
