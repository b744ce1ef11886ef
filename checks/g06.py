"""G06: coordinate conversions are pure functions of their arguments."""
import copy
import json
import math
import os
import subprocess
import sys
import threading

from lib import core, geo, switch
from checks.g01 import Points

RULE = ('a case is one conversion repeated under other circumstances (after '
        'others, in reverse order in a new process, through another '
        'converter, from a list written over, interleaved with or beside '
        'other threads) and compared with its first result, or one watched '
        'for changes to its arguments or sharing of its results; distinct by '
        'function, circumstance and arguments; non-trivial when some '
        'argument is not zero')


def jobs(run, pts):
    """(function, arguments): related ones near one another."""
    rng = run.rng
    gc = lambda lla: geo.lla2ecef(math.radians(lla[0]), math.radians(lla[1]),
                                  lla[2])

    def near(v, k):
        return [x + rng.uniform(-1, 1) * k for x in v]
    lla = [float(x) for x in pts.surface()]
    lla[0] = max(-79.9, min(83.9, lla[0]))
    lla[1] = max(-179.9, min(179.9, lla[1]))
    for _ in range(rng.choice([1, 2, 3])):
        p = list(gc(lla))
        q = near(p, rng.choice([1.0, 1e3, 1e5]))
        ned = near([0.0] * 3, rng.choice([1.0, 1e3, 1e6]))
        att = [rng.uniform(-3, 3), rng.uniform(-1.5, 1.5), rng.uniform(-3, 3)]
        rad = [math.radians(lla[0]), math.radians(lla[1]), lla[2]]
        axis = near([0.0] * 3, 1.0)
        n = geo.norm(axis)
        axis = [x / n for x in axis]
        yield 'lla2ecef', [lla]
        yield 'ecef2lla', [p]
        yield 'ecef2ned', [q, p]
        yield 'ecef2pae', [q, p]
        yield 'ned2ecef', [ned, p]
        yield 'ned2pae', [ned]
        yield 'lla2utm', [lla]
        yield 'ecef2utm', [p]
        yield 'lla2gcc', [lla, f'{lla[1]:.3f} {lla[0]:.3f} 10']
        yield 'lla2gcc', [lla]
        yield 'llarpy2ecef', rad + att
        yield 'ecef2llarpy', p + att
        yield 'ecefvec2nedvec', rad[:2]
        yield 'rotate_3x3', [att[0], axis]
        yield 'utmLetterDesignator', [lla[0]]
        yield 'transpose', [axis]
        yield 'deg2rad', [lla[0]]
        yield 'rad2deg', [rad[0]]
        yield 'euclideanDistance', [p, q]
        yield 'g0', [rad[0]]
        # the next is near: a thing remembered for this would be a bit off
        k = 10.0 ** rng.uniform(-7, 0)
        lla = [lla[0] + rng.uniform(-1, 1) * k, lla[1], lla[2] + 1e4 * k] \
            if rng.random() < 0.5 else [lla[0], lla[1] + k, lla[2]]
        lla[0] = max(-79.9, min(83.9, lla[0]))


MODULE = ('deg2rad', 'rad2deg', 'euclideanDistance')


def find(RC, gps, name):
    return getattr(RC if name in MODULE else RC.GPS.wgs84 if name == 'g0'
                   else gps, name)


def prepare(name, args):
    """The arguments as the function wants them."""
    import numpy as np
    if name in ('rotate_3x3', 'transpose'):
        return [np.array(a) if isinstance(a, list) else a for a in args]
    return args


def flat(x):
    """Every number and text of a result, in order."""
    if isinstance(x, (str, bytes)) or x is None:
        return [x]
    try:
        return [y for v in x for y in flat(v)]
    except TypeError:
        return [float(x)]


def same(a, b):
    if len(a) != len(b):
        return False
    top = max([abs(x) for x in a if isinstance(x, float)] or [0.0])
    return all(x == y or isinstance(x, float) and isinstance(y, float) and
               abs(x - y) <= 1e-13 * abs(x) + 1e-15 * top
               for x, y in zip(a, b))


def check(run):
    import numpy as np
    from opendis import RangeCoordinates as RC
    pts = Points(run.rng)
    gps = RC.GPS()
    todo = []
    while len(todo) < run.scale(12000, 100000):
        todo += jobs(run, pts)
    first = []
    for name, args in todo:
        x = flat(find(RC, gps, name)(*prepare(name, copy.deepcopy(args))))
        first.append(x)
    elsewhere(run, todo, first)
    again(run, RC, gps, todo, first)
    own(run, RC, np, gps, todo, first)
    written_over(run, RC, np, gps, todo)
    typed(run, RC, np, gps, todo)
    interleaved(run, RC, gps, todo, first)
    threads(run, RC, gps, todo, first)
    run.need('repeated', 5000)
    run.need('computed in reverse in a new process', 5000)
    run.need('arguments and results watched', 5000)
    run.need('arguments written over', 1500)
    run.need('arguments written over between two calls in a row', 500)
    run.need('arguments of another type', 5000)
    run.need('switches to another thread between two lines', 500)
    run.need('concurrent calls', 5000)


def judge(run, how, name, args, got, want):
    run.case((how, name, repr(args)), {'function': name, 'arguments': args,
                                       'how': how, 'result': got}
             if run.evaluations % 7919 == 3 else None)
    if not same(got, want):
        run.violation(f'{name}:{how}', f'{name}{tuple(args)} is {got} {how}, '
                      f'and {want} on its own')


CHILD = '''
import json, os, sys
sys.path[:0] = [sys.argv[1], sys.argv[2]]
sys.dont_write_bytecode = True
from checks import g06
from opendis import RangeCoordinates as RC
out = []
for i, (name, args) in enumerate(json.load(sys.stdin)):
    if i % 16 == 0:
        gps = RC.GPS()
    try:
        out.append(g06.flat(g06.find(RC, gps, name)(*g06.prepare(name, args))))
    except Exception as e:
        out.append([repr(e)])
json.dump(out, sys.stdout)
'''


def elsewhere(run, todo, first):
    """In a new process, last first, and with new converters."""
    p = subprocess.run([sys.executable, '-c', CHILD, core.REPO, core.VERIF],
                       input=json.dumps(todo[::-1]), capture_output=True,
                       text=True, timeout=600)
    if p.returncode:
        raise RuntimeError('the other process failed: ' + p.stderr[-500:])
    for (name, args), x, y in zip(todo, first, json.loads(p.stdout)[::-1]):
        run.see('computed in reverse in a new process')
        judge(run, 'computed in another order', name, args, y, x)


def again(run, RC, gps, todo, first):
    rng = run.rng
    for _ in range(len(todo) * 2):
        k = rng.randrange(len(todo))
        name, args = todo[k]
        g = gps if rng.random() < 0.8 else RC.GPS()
        run.see('repeated')
        judge(run, 'repeated', name, args,
              flat(find(RC, g, name)(*prepare(name, copy.deepcopy(args)))),
              first[k])


def own(run, RC, np, gps, todo, first):
    """Arguments stay as they are; results are the caller's."""
    rng = run.rng
    for (name, args), want in zip(todo, first):
        kind = rng.choice([list, tuple, np.array]) if name not in (
            'rotate_3x3', 'transpose') else np.array
        given = [kind(a) if isinstance(a, list) else a for a in args]
        for a in given:
            if isinstance(a, np.ndarray) and rng.random() < 0.5:
                a.flags.writeable = False
        f = find(RC, gps, name)
        try:
            out = f(*given)
        except ValueError as e:
            run.violation(f'{name}:read-only', f'{name} writes to its '
                          f'argument: {e}')
            continue
        run.see('arguments and results watched')
        run.case(('own', name, repr(args)))
        if [flat(a) for a in given] != [flat(a) for a in args]:
            run.violation(f'{name}:argument', f'{name} changed {args} into '
                          f'{given}')
        # through the result
        spoil(out)
        if [flat(a) for a in given] != [flat(a) for a in args]:
            run.violation(f'{name}:alias', f'the result of {name} is its '
                          'argument')
        got = flat(f(*prepare(name, copy.deepcopy(args))))
        judge(run, 'after its result was written to', name, args, got, want)


def spoil(x):
    """Write to every part of a result that can be written to."""
    if isinstance(x, (str, bytes)):
        return
    try:
        n = len(x)
    except TypeError:
        return
    for i in range(n):
        spoil(x[i])
        try:
            x[i] = 77
        except (TypeError, ValueError):
            pass


def written_over(run, RC, np, gps, todo):
    """The same lists and arrays, holding other values each time."""
    rng = run.rng
    buffers = {}
    for _ in range(len(todo) // 2):
        name, args = rng.choice(todo)
        if not any(isinstance(a, list) for a in args):
            continue
        kind = np.array if name in ('rotate_3x3', 'transpose') or \
            rng.random() < 0.5 else list
        given = []
        f = find(RC, gps, name)
        if rng.random() < 0.6:      # the very last call took these, too
            attempt(f, [buffers.setdefault((name, i, kind), kind(a))
                        if isinstance(a, list) else a
                        for i, a in enumerate(args)])
            run.see('arguments written over between two calls in a row')
        for i, a in enumerate(args):
            if isinstance(a, list):
                b = buffers.setdefault((name, i, kind), kind(a))
                if rng.random() < 0.3:      # only a part of it
                    j = rng.randrange(len(a))
                    b[j] = a[j]
                else:
                    b[:] = a
                a = b
            given.append(a)
        # UTM is for some latitudes only, and this may be a mixture
        fresh = [np.array(flat(a)) if kind is np.array else flat(a)
                 if isinstance(a, list) else a for a in given] \
            if name != 'lla2gcc' else [copy.copy(a) for a in given]
        fresh = [x if hasattr(g, '__len__') else g
                 for x, g in zip(fresh, given)]
        run.see('arguments written over')
        got = attempt(f, given)
        want = attempt(find(RC, RC.GPS(), name), fresh)
        judge(run, 'from lists written over', name,
              [flat(x) if hasattr(x, '__len__') and not isinstance(x, str)
               else x for x in given], got, want)


def typed(run, RC, np, gps, todo):
    """Whole numbers are the same numbers as integers, and numbers the same
    in any container."""
    rng = run.rng
    kinds = [('integers', int, list), ('a tuple of integers', int, tuple),
             ('an array of integers', int, np.array),
             ('numpy integers', np.int64, list),
             ('numpy numbers', np.float64, tuple),
             ('an array', float, np.array), ('a tuple', float, tuple)]
    for _ in range(len(todo)):
        name, args = rng.choice(todo)
        if name == 'lla2gcc' and len(args) > 1:
            continue
        whole = [[float(round(x)) for x in a] if isinstance(a, list)
                 else float(round(a)) for a in args] \
            if rng.random() < 0.6 else args
        how, number, kind = rng.choice(kinds)
        if number in (int, np.int64) and whole is args:
            continue
        if name in ('rotate_3x3', 'transpose'):
            kind = np.array
        given = [kind([number(x) for x in a]) if isinstance(a, list)
                 else number(a) for a in whole]
        want = attempt(find(RC, gps, name), prepare(name, copy.deepcopy(whole)))
        got = attempt(find(RC, gps, name), given)
        run.see('arguments of another type')
        judge(run, 'given as ' + how, name, whole, got, want)


def attempt(f, args):
    try:
        return flat(f(*args))
    except Exception as e:
        return [type(e).__name__]


def interleaved(run, RC, gps, todo, first):
    rng = run.rng
    s = switch.Switcher()
    lines = {}
    try:
        for i in range(run.scale(2500, 20000)):
            k = rng.randrange(len(todo))
            o = max(0, min(len(todo) - 1, k + rng.randint(-60, 60)))
            if rng.random() < 0.5:      # the same function
                o = rng.choice([j for j in range(
                    max(0, k - 150), min(len(todo), k + 150))
                    if todo[j][0] == todo[k][0]])
            call = [lambda x=x: flat(find(RC, gps, todo[x][0])(
                *prepare(todo[x][0], copy.deepcopy(todo[x][1]))))
                for x in (k, o)]
            name = todo[k][0]
            at = switch.NEW if rng.random() < 0.3 else \
                rng.randint(1, lines.get(name, 10))
            out, others, n = s.call(call[0], at, call[1])
            lines[name] = max(n, 1)
            run.see('switches to another thread between two lines',
                    len(others))
            for who, got in [(k, out)] + [(o, x) for x in others]:
                if isinstance(got, Exception):
                    run.violation(f'{todo[who][0]}:interleaved',
                                  f'{todo[who][0]}{tuple(todo[who][1])} '
                                  f'raised {core.exc_text(got)} when '
                                  'interleaved')
                else:
                    judge(run, 'interleaved', *todo[who], got, first[who])
    finally:
        s.close()
    run.see('lines at which the thread was switched', len(s.points))


def threads(run, RC, gps, todo, first):
    wrong, done = [], [0] * 4
    n = min(len(todo), run.scale(3000, 20000))

    def work(t):
        for k in range(t % 2, n, 2):
            if t > 1:
                k = n - 1 - k
            name, args = todo[k]
            try:
                got = flat(find(RC, gps, name)(*prepare(name, args)))
            except Exception as e:
                got = [core.exc_text(e)]
            done[t] += 1
            if not same(got, first[k]):
                wrong.append((name, args, got, first[k]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    run.see('concurrent calls', sum(done))
    for name, args, got, want in wrong[:5]:
        judge(run, 'beside other threads', name, args, got, want)
