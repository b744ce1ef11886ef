"""W11: objects, streams and threads do not interfere with one another."""
import copy
import io
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from lib import core, wire, work
from checks.w10 import snapshot

RULE = ('a case is one pair of objects checked for shared mutable state, one '
        'coding step interleaved with another inside a stream call, or one '
        'coding step of a concurrent thread, judged by the reference; distinct'
        ' by class and octets or by interleaving point; non-trivial when the '
        'other party really acted in between')

IMMUTABLE = (int, float, str, bytes, type(None), type, bool)


def check(run):
    b = wire.Bridge(share=True)
    sharing(run, b)
    buffers(run, b)
    nested(run, b)
    interleaved(run, b)
    threads(run, b)
    run.need('pairs checked for sharing', 500)
    run.need('decoded from a buffer used again', 400)
    run.need('copies', 100)
    run.need('decodings of lists that repeat an element', 100)
    run.need('nested interleavings', 2000)
    run.need('switches to another thread between two lines', 2000)
    run.need('concurrent coding steps', 2000)
    run.need('thread switches inside coding', 100)


def buffers(run, b):
    """One buffer receives every datagram: what was decoded from it, and
    encoded into it, before stays as it was."""
    w = work.Workload(run, maxlist=3)
    rng = run.rng
    buf, same = bytearray(70000), bytearray()
    src, dst = io.BytesIO(), io.BytesIO()
    sin, sout = b.In(src), b.Out(dst)
    kept = []

    def look(k):
        cls, m, p, data, how = k
        d = b.diff(m, p)
        if d:
            run.violation(f'{cls}:buffer', f'{cls} decoded from {how}: '
                          f'{d[0][0]} changed when the buffer was used again',
                          {'octets': data})
    for i in range(run.scale(400, 6000)):
        cls = rng.choice(wire.PDUS)
        w.setup(cls)
        m = w.one(cls) if rng.random() < 0.6 else w.grown(cls)
        data = wire.encode(m)
        how = ('a bytearray', 'a view', 'a stream', 'a reader',
               'a new reader')[i % 5]
        if i % 5 < 2:
            buf[:len(data)] = data
            x = buf[:len(data)] if i % 5 == 0 and rng.random() < 0.5 else \
                memoryview(buf)[:len(data)]
            if rng.random() < 0.4:      # the very same object
                same[:] = data
                x, how = same, 'the same bytearray'
        else:
            src.seek(0)
            src.truncate()
            src.write(data)
            src.seek(0)
        p = (b.factory.createPdu(x) if i % 5 < 2 else
             b.factory.getPdu(sin if i % 5 < 4 else b.In(src)))
        kept.append((cls, m, p, data, how))
        run.case(('buffer', how, data))
        run.see('decoded from a buffer used again')
        dst.seek(0)
        dst.truncate()
        p.serialize(sout)
        out = dst.getvalue()
        if wire.mask_diff(wire.encode_full(m), out):
            run.violation(f'{cls}:buffer-out', f'{cls} is encoded differently '
                          'into a stream used again', {'octets': data})
        if i % 7 == 6 or len(kept) > 40:
            look(kept.pop(rng.randrange(len(kept))))
        if rng.random() < 0.2:
            buf[:] = rng.randbytes(256) * (len(buf) // 256) + \
                bytes(len(buf) % 256)
    for k in kept:
        look(k)


def reachable(o, out=None, path='', depth=0):
    """id -> (object, path) of mutable objects reachable from o."""
    out = {} if out is None else out
    if depth > 14 or isinstance(o, IMMUTABLE) or callable(o):
        return out
    if id(o) in out:
        return out
    out[id(o)] = (o, path)
    if isinstance(o, dict):
        items = o.items()
    elif isinstance(o, (list, tuple, set)):
        items = enumerate(o)
    else:
        # state of the object itself; what private attributes and classes
        # hold may be shared constants, and is judged by what editing does
        items = [(k, v) for k, v in core.attributes(o).items()
                 if not k.startswith('_')]
    for k, v in items:
        reachable(v, out, f'{path}.{k}', depth + 1)
    return out


def sharing(run, b):
    w = work.Workload(run)
    rng = run.rng
    for cls in wire.PDUS + wire.ENCODE_ONLY + wire.RECORDS:
        c = b.cls(cls)
        one, two = c(), c()
        share(run, cls, 'two new objects', one, two)
        blank = work.encode(b, one)
        # fill one in place, completely: the other and later ones stay blank
        for _ in range(run.scale(4, 40)):
            w.setup(cls)
            m = w.grown(cls)
            if cls in wire.SV_CODE:
                m['_type'] = wire.SV_CODE[cls]
            fill_in_place(b, one, m, rng)
            try:
                late = c()
                a, z = work.encode(b, two), work.encode(b, late)
            except Exception as e:
                run.violation(f'{cls}:leak', f'after filling one {cls}, '
                              f'another cannot be encoded: {e!r}')
                break
            run.case((cls, 'blank', work.encode(b, one)),
                     {'class': cls, 'octets': blank[:24].hex()}
                     if run.evaluations % 97 == 3 else None)
            if a != blank or z != blank:
                run.violation(f'{cls}:leak', f'filling one {cls} changed '
                              'another one', {'blank': blank, 'other': a,
                                              'new': z})
            one = c()
            share(run, cls, 'a filled object and a new one', late, one)
        if cls not in wire.PDUS:
            continue
        for m in w.models(cls, sweep=8, rand=run.scale(30, 300),
                          literal_budget=run.scale(60, 1000)):
            data = wire.encode(m)
            p, q = b.factory.createPdu(data), b.factory.createPdu(data)
            run.case((cls, 'two', data))
            share(run, cls, 'two decodings', p, q)
        for _ in range(run.scale(5, 60)):
            m = w.grown(cls)
            if rng.random() < 0.5:
                work.doubled(m)
                run.see('decodings of lists that repeat an element')
            data = wire.encode(m)
            p, q = b.factory.createPdu(data), b.factory.createPdu(data)
            share(run, cls, 'two decodings', p, q)
            share(run, cls, 'a decoding and a new object', p, c())
            image = snapshot(q)
            scribble(p)
            run.case((cls, 'scribble', data))
            if snapshot(q) != image or b.diff(m, q):
                run.violation(f'{cls}:decoded-leak', f'editing one decoded '
                              f'{cls} changed another', {'octets': data})
            r = b.factory.createPdu(data)
            d = b.diff(m, r)
            if d:
                run.violation(f'{cls}:decoded-later', f'after editing a '
                              f'decoded {cls}, decoding gives {d[0]}',
                              {'octets': data})
            siblings(run, cls, r)
            copies(run, b, cls, m, r if rng.random() < 0.5 else b.build(m))


def copies(run, b, cls, m, p):
    """A copy of a PDU is another PDU, wherever its state is kept."""
    how = run.rng.choice(['deepcopy', 'deepcopy', 'pickle'])
    try:
        q = copy.deepcopy(p) if how == 'deepcopy' else \
            pickle.loads(pickle.dumps(p))
    except Exception as e:
        if how == 'deepcopy':
            run.violation(f'{cls}:copy', f'copying a {cls} raised {e!r}')
        return
    share(run, cls, f'a PDU and its copy by {how}', p, q)
    data = work.encode(b, p)
    run.case((cls, 'copy', data))
    run.see('copies')
    if work.encode(b, q) != data or type(q) is not type(p):
        run.violation(f'{cls}:copy', f'a copy of a {cls} by {how} is encoded '
                      'differently', {'octets': data})
    if run.rng.random() < 0.5:
        p, q = q, p
    scribble(q)
    if b.diff(m, p) or work.encode(b, p) != data:
        run.violation(f'{cls}:copy', f'editing a copy of a {cls} by {how} '
                      f'changed it, too: {b.diff(m, p)[:1]}', {'octets': data})


def siblings(run, cls, p):
    """Elements of one decoded list are distinct objects."""
    for o, path in list(reachable(p).values()):
        if isinstance(o, list):
            objs = [e for e in o if not isinstance(e, IMMUTABLE)]
            seen = {}
            for i, e in enumerate(objs):
                for k, (x, pp) in reachable(e).items():
                    if k in seen and seen[k] != i and is_state(x):
                        run.violation(f'{cls}:siblings', f'{cls}{path}: two '
                                      f'elements share {pp or "themselves"}')
                        return
                    seen[k] = i


def is_state(x):
    return isinstance(x, (list, dict, set, bytearray)) or \
        type(x).__name__ in wire.SPEC


def share(run, cls, how, one, two):
    a, z = reachable(one), reachable(two)
    run.see('pairs checked for sharing')
    common = set(a) & set(z)
    common = {k for k in common if is_state(a[k][0])}
    for k in common:
        run.violation(f'{cls}:shared:{a[k][1]}', f'{how} of class {cls} share '
                      f'{a[k][1]} ({type(a[k][0]).__name__})')


def scribble(o, depth=0):
    """Changes every number and every list of an object, in place."""
    if depth > 12:
        return
    if isinstance(o, list):
        for i, v in enumerate(o):
            if isinstance(v, (int, float)):
                o[i] = 0
            else:
                scribble(v, depth + 1)
        o.clear()
        return
    for k, v in core.attributes(o).items():
        if isinstance(v, (int, float)):
            setattr(o, k, 7)
        elif isinstance(v, bytes):
            setattr(o, k, b'')
        elif v is not None:
            scribble(v, depth + 1)


def fill_in_place(b, o, m, rng):
    for s in list(work.pairs_in_place(m, o)):
        kind, mo, oo, key = s[:4]
        if kind == 'scalar':
            work.put(oo, key, mo[key])
        elif kind == 'list':
            getattr(oo, key).extend(b.build(e) if isinstance(e, dict) else e
                                    for e in mo[key])
        elif kind == 'special':
            b.fill(oo, mo)


# ---- another coding step runs inside a read or write of this one

class Interrupted(io.BytesIO):
    def __init__(self, data, at, action):
        super().__init__(data)
        self.at, self.action, self.calls, self.busy = at, action, 0, False

    def _tick(self):
        self.calls += 1
        if self.calls == self.at and not self.busy:
            self.busy = True
            self.action()

    def read(self, n=-1):
        self._tick()
        out = super().read(n)
        return out

    def write(self, data):
        self._tick()
        return super().write(data)


def nested(run, b):
    rng = run.rng
    w = work.Workload(run)
    pool = []
    for cls in wire.PDUS:
        w.setup(cls)
        for m in (w.grown(cls), w.one(cls)):
            pool.append((cls, m, wire.encode_full(m)))
    for i in range(run.scale(6000, 60000)):
        # the same class often: shared scratch state is per class or global
        cls, m, e = pool[i % len(pool)]
        other = rng.choice(pool) if rng.random() < 0.5 else \
            pool[(i ^ 1) % len(pool)]
        fired = []

        def action():
            ocls, om, oe = other
            p = b.factory.createPdu(bytes(oe.b))
            d = b.diff(om, p)
            x = wire.mask_diff(oe, work.encode(b, p))
            fired.append(d or x)
        at = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60),
                         rng.randint(1, 200)])
        if i % 2:
            stream = Interrupted(bytes(e.b), at, action)
            p = b.factory.getPdu(b.In(stream))
            bad = b.diff(m, p)
        else:
            stream = Interrupted(b'', at, action)
            b.build(m).serialize(b.Out(stream))
            bad = wire.mask_diff(e, stream.getvalue())
        run.case((cls, other[0], at, i % 2) if fired else None)
        run.see('nested interleavings', len(fired))
        if bad or any(fired):
            run.violation(f'{cls}:nested', f'{cls} and {other[0]} coded in '
                          f'turns (at stream call {at}) disturb each other: '
                          f'{bad or fired}', {'octets': bytes(e.b)})


# ---- another thread runs a whole coding step between two lines of this one

NEW = 0     # any line at which no thread was switched so far


def interleaved(run, b):
    rng = run.rng
    w = work.Workload(run)
    pool = []
    for cls in wire.PDUS:
        w.setup(cls)
        for m in (w.grown(cls), w.one(cls)):
            pool.append((cls, m, wire.encode_full(m)))
    home = os.path.join(os.path.realpath(core.REPO), 'opendis') + os.sep
    ours = {}
    lines = {}      # (pool index, operation) -> lines it executes
    points = set()
    folder = tempfile.mkdtemp(prefix='w11-')
    path = os.path.join(folder, 'datagram')
    side = ThreadPoolExecutor(1)

    def step(op, cls, m, e):
        if op == 'createPdu':
            return b.diff(m, b.factory.createPdu(bytes(e.b)))
        if op == 'file':
            return b.diff(m, b.factory.createPduFromFilePath(path))
        s = io.BytesIO()
        b.build(m).serialize(b.Out(s))
        return wire.mask_diff(e, s.getvalue())

    def other_step(item):
        cls, m, e = item
        p = b.factory.createPdu(bytes(e.b))
        d = b.diff(m, p)
        return d or wire.mask_diff(e, work.encode(b, p))

    def traced(op, item, at, action):
        """The step, with the action in another thread at its at-th line."""
        n = [0]
        late = []

        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                here = frame.f_code.co_filename, frame.f_lineno
                if n[0] == at or at == NEW and len(late) < 6 and \
                        here not in points:
                    points.add(here)
                    f = side.submit(action)
                    try:
                        f.result(2)
                    except Exception:
                        pass    # waits for this thread, or failed
                    late.append(f)
            return local

        def begin(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn not in ours:
                ours[fn] = os.path.realpath(fn).startswith(home)
            return local if ours[fn] else None
        sys.settrace(begin)
        try:
            bad = step(op, *item)
        except Exception as ex:
            bad = core.exc_text(ex)
        finally:
            sys.settrace(None)
        other = None
        for f in late:
            try:
                other = f.result(60)
            except Exception as ex:
                other = core.exc_text(ex)
        return bad, other, n[0], len(late)
    try:
        for i in range(run.scale(7000, 60000)):
            k = i % len(pool)
            item = pool[k]
            other = pool[k ^ 1] if rng.random() < 0.5 else rng.choice(pool)
            op = ('createPdu', 'encode', 'createPdu', 'encode',
                  'file')[(i // len(pool)) % 5]
            if op == 'file':
                with open(path, 'wb') as f:
                    f.write(item[2].b)
            if (k, op) not in lines:
                lines[k, op] = traced(op, item, -1, None)[2]
            n = max(1, lines[k, op])
            c = rng.random()
            at = NEW if c < 0.5 else rng.randint(1, n if c < .8 else min(n, 30))
            bad, theirs, _, fired = traced(op, item, at,
                                           lambda: other_step(other))
            run.case((item[0], other[0], op, at) if fired else None)
            run.see('switches to another thread between two lines', fired)
            if bad or theirs:
                run.violation(f'{item[0]}:switch', f'{op} of {item[0]}, with '
                              f'{other[0]} coded by another thread at its '
                              f'line {at or "by line"}: {bad or theirs}',
                              {'octets': bytes(item[2].b)})
    finally:
        side.shutdown()
        shutil.rmtree(folder, ignore_errors=True)
    run.see('lines at which the thread was switched', len(points))


# ---- threads

def threads(run, b):
    rng = run.rng
    w = work.Workload(run)
    for rnd in range(run.scale(12, 60)):
        classes = rng.sample(wire.PDUS, 4) if rnd % 2 else \
            [wire.PDUS[(rnd * 7 + k) % len(wire.PDUS)] for k in range(3)]
        jobs = []
        for cls in classes * 2:
            w.setup(cls)
            jobs.append([(cls, m, wire.encode_full(m)) for m in
                         (w.one(cls) for _ in range(12))])
        errors, counts = [], []
        go = threading.Barrier(len(jobs))
        current = [None]
        switches = [0]

        class Yielding(io.BytesIO):
            def read(self, n=-1):
                self.pause()
                return super().read(n)

            def write(self, data):
                self.pause()
                return super().write(data)

            def pause(self):
                me = threading.get_ident()
                if current[0] != me:
                    switches[0] += 1
                    current[0] = me
                self.k = getattr(self, 'k', 0) + 1
                if self.k % 5 == 0:
                    time.sleep(0)

        def work_on(job):
            n = 0
            try:
                go.wait(30)
                for _ in range(run.scale(4, 12)):
                    for cls, m, e in job:
                        s = Yielding()
                        b.build(m).serialize(b.Out(s))
                        x = wire.mask_diff(e, s.getvalue())
                        p = b.factory.getPdu(b.In(Yielding(bytes(e.b))))
                        d = b.diff(m, p) or \
                            b.diff(m, b.factory.createPdu(bytes(e.b)))
                        n += 3
                        if x or d:
                            errors.append((cls, str(x or d)))
            except Exception as ex:
                errors.append((job[0][0], repr(ex)))
            counts.append(n)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work_on, args=(j,), daemon=True)
                  for j in jobs]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise RuntimeError('a thread did not finish')
        run.see('concurrent coding steps', sum(counts))
        run.see('thread switches inside coding', switches[0])
        for cls in classes:
            run.case(('threads', rnd, cls))
        for cls, what in errors[:3]:
            run.violation(f'{cls}:threads', f'{cls} coded by concurrent '
                          f'threads: {what}')
