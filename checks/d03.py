"""D03: dead reckoning is a pure function obeying the laws of motion."""
import math
import threading

from lib import dr, geo, switch

RULE = ('a case is one group of calls related by a law (no time, no motion, '
        'two steps for one, back again, moved origin, body axes aligned with '
        'the world, other kinds of sequence, repeated, concurrent) or one call'
        ' watched for changes to its inputs or later changes to its results; '
        'distinct by law, algorithm and state; non-trivial when the entity '
        'moves or spins')


def check(run):
    import numpy as np
    from opendis import DeadReckoning as DR
    st = dr.States(run.rng)
    n = run.scale(450, 9000)
    for name in dr.ALGORITHMS:
        for _ in range(n):
            s = st.state()
            laws(run, DR, name, s)
            purity(run, DR, np, st, name, s)
            typed(run, DR, np, name, s)
    for _ in range(n * 2):
        relations(run, DR, st)
        pdu_state(run, DR, st)
        matrices(run, DR, np, st)
    interleaved(run, DR, st)
    threads(run, DR, st)
    run.need('switches to another thread between two lines', 500)
    run.need('laws checked', 10000)
    run.need('inputs watched', 4000)
    run.need('concurrent calls', 2000)
    run.need('vectors written over between two calls in a row', 3000)
    run.need('matrices written to', 1000)
    run.need('vectors of another type', 10000)
    run.need('states taken from PDUs', 300)


def result(DR, name, s, kind=None):
    p, o = dr.call(DR, name, s, kind)
    return dr.floats(p) + dr.floats(o)


def scale(s):
    t = abs(s['t'])
    v = sum(abs(x) for x in s['v']) * t
    a = sum(abs(x) for x in s['a']) * t * t
    return sum(abs(x) for x in s['p']) + v + a


def close(got, want, tol):
    return all(abs(x - y) <= tol for x, y in zip(got, want))


def bad(run, law, name, s, got, want):
    run.violation(f'{name}:{law}', f'{name}, {law}: {got}, not {want}; {s}', s)


def laws(run, DR, name, s):
    rng = run.rng
    moving = any(s['v'] + s['w'] + s['a'])
    run.see('laws checked', 4)
    run.case((name, 'laws', repr(s)) if moving else None, (name, s)
             if run.evaluations % 1999 == 3 else None)
    r0 = result(DR, name, s)
    # no time passes
    z = dict(s, t=0.0)
    got = result(DR, name, z)
    if got != [float(x) for x in s['p'] + s['o']]:
        bad(run, 'no time', name, z, got, s['p'] + s['o'])
    # nothing moves
    q = dict(s, v=[0.0] * 3, a=[0.0] * 3, w=[0.0] * 3)
    got = result(DR, name, q)
    if got != [float(x) for x in s['p'] + s['o']]:
        bad(run, 'no motion', name, q, got, s['p'] + s['o'])
    # the same again
    if result(DR, name, s) != r0:
        bad(run, 'repeated', name, s, result(DR, name, s), r0)
    # moved origin
    d = [rng.uniform(-1e6, 1e6) for _ in range(3)]
    m = dict(s, p=[s['p'][i] + d[i] for i in range(3)])
    got = result(DR, name, m)
    want = [r0[i] + d[i] for i in range(3)]
    tol = 1e-13 * (scale(s) + 3e6)
    if not close(got[:3], want, tol) or got[3:] != r0[3:]:
        bad(run, 'moved origin', name, m, got, want)
    if not dr.ALGORITHMS[name][3] or not any(s['w']):
        # without rotation: velocity is carried along by two steps, and back
        t1 = s['t'] * rng.random()
        h = dict(s, t=t1)
        p1 = result(DR, name, h)
        acc = dr.ALGORITHMS[name][2]
        v1 = [s['v'][i] + (s['a'][i] * t1 if acc else 0) for i in range(3)]
        h2 = dict(s, p=p1[:3], v=v1, t=s['t'] - t1)
        got = result(DR, name, h2)
        run.see('laws checked')
        if not close(got[:3], r0[:3], 2e-13 * scale(s) + 1e-300):
            bad(run, 'two steps', name, s, got[:3], r0[:3])
    if len(r0) != 6 or not all(math.isfinite(x) for x in r0):
        bad(run, 'six finite numbers', name, s, r0, 'finite')


def relations(run, DR, st):
    """Between algorithms on one state."""
    s = st.state()
    tol = 1e-12 * scale(s) + 1e-300
    run.case(('relations', repr(s)))

    def same(x, sx, y, sy, what, t=tol):
        run.see('laws checked')
        a, b = result(DR, x, sx), result(DR, y, sy)
        if not close(a[:3], b[:3], t) or \
                what != 'position' and not close(a[3:], b[3:], 1e-12 * (
                    sum(abs(k) for k in b[3:]) + 1e-290)):
            bad(run, f'agrees with {y} ({what})', x, s, a, b)
    na = dict(s, a=[0.0] * 3)
    nw = dict(s, w=[0.0] * 3)
    lv = dict(s, o=[0.0] * 3)
    same('drm_fvw', na, 'drm_fpw', na, 'no acceleration')
    same('drm_rvw', na, 'drm_rpw', na, 'no acceleration')
    same('drm_fvb', na, 'drm_fpb', na, 'no acceleration')
    same('drm_rvb', na, 'drm_rpb', na, 'no acceleration')
    same('drm_rpw', nw, 'drm_fpw', nw, 'no spin')
    same('drm_rvw', nw, 'drm_fvw', nw, 'no spin')
    same('drm_rpb', nw, 'drm_fpb', nw, 'no spin')
    same('drm_rvb', nw, 'drm_fvb', nw, 'no spin')
    same('drm_fpb', lv, 'drm_fpw', lv, 'axes aligned')
    same('drm_rpb', lv, 'drm_rpw', lv, 'axes aligned')
    same('drm_rvb', lv, 'drm_rvw', lv, 'axes aligned')
    same('drm_fvb', lv, 'drm_fvw', lv, 'axes aligned')
    same('drm_rpw', s, 'drm_fpw', s, 'position')
    same('drm_rvw', s, 'drm_fvw', s, 'position')
    same('drm_rpb', s, 'drm_fpb', s, 'position')
    same('drm_rvb', s, 'drm_fvb', s, 'position')
    # distances travelled do not depend on the attitude
    a = result(DR, 'drm_rvb', s)
    b = result(DR, 'drm_rvb', lv)
    da = geo.norm([a[i] - s['p'][i] for i in range(3)])
    db = geo.norm([b[i] - s['p'][i] for i in range(3)])
    run.see('laws checked')
    if abs(da - db) > tol:
        bad(run, 'distance travelled', 'drm_rvb', s, da, db)


def purity(run, DR, np, st, name, s):
    """Inputs stay as they were, and results are the caller's own."""
    keys = [k for k in dr.ALGORITHMS[name][0] if k != 't']
    arrays = {k: np.array(s[k], dtype=float) for k in keys}
    kept = {k: v.copy() for k, v in arrays.items()}
    if run.rng.random() < 0.3:
        for v in arrays.values():
            v.flags.writeable = False
    x = dict(s, **arrays)
    p, o = dr.call(DR, name, x)
    want = dr.floats(p) + dr.floats(o)
    run.see('inputs watched', len(keys))
    run.case((name, 'purity', repr(s)))

    def unchanged(when):
        for k in keys:
            if arrays[k].tobytes() != kept[k].tobytes():
                run.violation(f'{name}:input', f'{name} changed its argument '
                              f'{k} {when}: {kept[k]} became {arrays[k]}', s)
                return False
        return True
    if not unchanged('during the call'):
        return
    for a in (p, o):
        for v in arrays.values():
            if isinstance(a, np.ndarray) and np.shares_memory(a, v):
                run.violation(f'{name}:alias', f'a result of {name} is the '
                              'memory of its argument', s)
                return
    try:
        p[0] += 17.0
        o[0] += 3.0
        p[2] = -1.0
        o[2] = 9.0
    except (TypeError, ValueError):
        pass
    unchanged('through its result')
    got = result(DR, name, x)
    if got != want:
        run.violation(f'{name}:state', f'{name} gives {got} after a caller '
                      f'changed an earlier result, not {want}', s)
    lists = {k: list(s[k]) for k in keys}
    got = result(DR, name, dict(s, **lists))
    if got != want:
        run.violation(f'{name}:kind', f'{name} gives {got} for lists, {want} '
                      'for arrays', s)
    if any(lists[k] != s[k] for k in keys):
        run.violation(f'{name}:input', f'{name} changed a list argument', s)
    # the input moves on; the result must not
    p, o = dr.call(DR, name, x)
    for v in arrays.values():
        if v.flags.writeable:
            v += 1.0
    if dr.floats(p) + dr.floats(o) != want:
        run.violation(f'{name}:alias', f'a result of {name} follows later '
                      'changes of its argument', s)
    # and the next call must see it, whether another came between or not
    for how, y in (('lists', lists), ('arrays', arrays)):
        only = run.rng.choice(keys) if run.rng.random() < 0.5 else None
        if how == 'arrays' and not arrays[keys[0]].flags.writeable:
            continue
        result(DR, name, dict(s, **y))
        for k in keys:
            for i in range(3):
                y[k][i] += only in (None, k)
        got = result(DR, name, dict(s, **y))
        now = dict(s, **{k: tuple(float(v) for v in y[k]) for k in keys})
        want = result(DR, name, now)
        again = result(DR, name, dict(s, **y))
        run.see('vectors written over between two calls in a row')
        if got != want or again != want:
            run.violation(f'{name}:written over', f'{name} gives {got} for '
                          f'{how} written over since, not {want}', now)


def typed(run, DR, np, name, s):
    """The same numbers in arrays of other types and layouts, or as numbers
    of other types."""
    rng = run.rng
    keys = [k for k in dr.ALGORITHMS[name][0] if k != 't']
    plain, given = dict(s), dict(s)
    for k in keys:
        kind = rng.choice(['f4', 'f4', 'f2', 'i1', 'i2', 'i4', 'i8', 'u1',
                           'u2', 'u4', '>f8', '>f4', '>i4', 'O', 'g'])
        v = s[k]
        if kind in ('f4', '>f4', 'f2'):
            big = 6e4 if kind == 'f2' else 3e38
            v = [max(-big, min(big, x)) for x in v]
        elif kind not in ('>f8', 'O', 'g'):
            i = np.iinfo(kind)
            v = [float(max(int(i.min) // 2, min(int(i.max) // 2, round(x))))
                 for x in v]
        a = np.array([int(x) for x in v] if kind[-2] in 'iu' else v,
                     dtype=kind) if len(kind) > 1 else np.array(v, dtype=kind)
        plain[k] = [float(x) for x in a]
        how = rng.random()
        if how < 0.2:       # every other number of a longer array
            w = np.zeros(6, dtype=kind)
            w[::2] = a
            a = w[::2]
        elif how < 0.3:     # read backwards
            a = np.array(a[::-1])[::-1]
        elif how < 0.5:     # the numbers one by one
            a = list(a)
        elif how < 0.6:
            a = tuple(a)
        elif how < 0.7:     # a view of someone's read-only buffer
            a = np.frombuffer(a.tobytes(), dtype=kind) if kind != 'O' else a
        given[k] = a
    if float(s['t']).is_integer() and abs(s['t']) < 1e6:
        given['t'] = rng.choice([int, np.int64, np.float64])(s['t'])
    elif rng.random() < 0.5:
        given['t'] = np.float64(s['t'])
    run.see('vectors of another type', len(keys))
    want = result(DR, name, plain)
    got = result(DR, name, given)
    run.case((name, 'typed', repr(plain)))
    if got != want and not any(math.isnan(x) for x in want):
        run.violation(f'{name}:typed', f'{name} gives {got} for {given}, not '
                      f'{want} as for the same numbers in lists', plain)


def pdu_state(run, DR, st):
    """States taken from a received entity state PDU, as the example does."""
    import io
    import struct
    from opendis.dis7 import EntityStatePdu
    from opendis.PduFactory import createPdu
    from opendis.stream import DataOutputStream
    if run.rng.random() < 0.5:
        return
    s = st.state()
    pdu = EntityStatePdu()
    for v, rec, names in (
            (s['p'], pdu.entityLocation, 'xyz'),
            (s['v'], pdu.entityLinearVelocity, 'xyz'),
            (s['o'], pdu.entityOrientation, ('psi', 'theta', 'phi')),
            (s['a'], pdu.deadReckoningParameters.entityLinearAcceleration,
             'xyz'),
            (s['w'], pdu.deadReckoningParameters.entityAngularVelocity,
             'xyz')):
        for i, n in enumerate(names):
            setattr(rec, n, v[i])
    out = io.BytesIO()
    pdu.serialize(DataOutputStream(out))
    q = createPdu(out.getvalue())
    d = q.deadReckoningParameters
    f = lambda v: [struct.unpack('f', struct.pack('f', x))[0] for x in v]
    args = {'p': [q.entityLocation.x, q.entityLocation.y, q.entityLocation.z],
            'v': [q.entityLinearVelocity.x, q.entityLinearVelocity.y,
                  q.entityLinearVelocity.z],
            'o': [q.entityOrientation.psi, q.entityOrientation.theta,
                  q.entityOrientation.phi],
            'a': [d.entityLinearAcceleration.x, d.entityLinearAcceleration.y,
                  d.entityLinearAcceleration.z],
            'w': [d.entityAngularVelocity.x, d.entityAngularVelocity.y,
                  d.entityAngularVelocity.z], 't': s['t']}
    name = run.rng.choice(list(dr.ALGORITHMS))
    got = result(DR, name, args)
    want = {'p': s['p'], 't': s['t'], **{k: f(s[k]) for k in 'vaow'}}
    e, sc = dr.expected_position(name, want)
    run.see('states taken from PDUs')
    run.case((name, 'pdu', repr(s)))
    for i in range(3):
        if not abs(got[i] - e[i]) <= 4e-14 * sc[i] + 1e-300:
            bad(run, 'from a PDU', name, s, got[:3], e)
            return


def matrices(run, DR, np, st):
    """The helpers' matrices are the caller's own, too."""
    s = st.state()
    for name, args in (('get_rotation_matrix', tuple(s['o'])),
                       ('get_angular_velocity_matrix', (tuple(s['w']),))):
        f = getattr(DR, name)
        a = f(*args)
        want = np.array(a, dtype=float).tolist()
        run.see('matrices written to')
        try:
            a[0][0] += 3.0
            a[2][1] = -7.0
        except (TypeError, ValueError):
            pass    # read only
        got = np.array(f(*args), dtype=float).tolist()
        if got != want:
            run.violation(f'{name}:state', f'{name}{args} gives {got} after a '
                          f'caller changed an earlier result, not {want}', s)


def interleaved(run, DR, st):
    rng = run.rng
    sw = switch.Switcher()
    lines = {}
    try:
        for _ in range(run.scale(2500, 20000)):
            name = rng.choice(list(dr.ALGORITHMS))
            s = st.state()
            other = name if rng.random() < 0.6 else \
                rng.choice(list(dr.ALGORITHMS))
            q = st.state()
            if rng.random() < 0.3:
                q = dict(s, **{k: q[k] for k in rng.sample('pvaowt', 3)})
            want = [result(DR, name, s), result(DR, other, q)]
            at = switch.NEW if rng.random() < 0.3 else \
                rng.randint(1, lines.get(name, 10))
            out, others, n = sw.call(lambda: result(DR, name, s), at,
                                     lambda: result(DR, other, q))
            lines[name] = max(n, 1)
            run.see('switches to another thread between two lines',
                    len(others))
            run.case((name, other, at, repr(s)) if others else None)
            for got, w, who, x in [(out, want[0], name, s)] + [
                    (y, want[1], other, q) for y in others]:
                if got != w:
                    run.violation(f'{who}:interleaved', f'{who} interleaved '
                                  f'with another call gives {got}, not {w}', x)
    finally:
        sw.close()
    run.see('lines at which the thread was switched', len(sw.points))


def threads(run, DR, st):
    rng = run.rng
    jobs = []
    for _ in range(run.scale(300, 3000)):
        name = rng.choice(list(dr.ALGORITHMS))
        s = st.state()
        jobs.append((name, s, result(DR, name, s)))
    wrong = []
    done = [0] * 4

    def work(k):
        for _ in range(run.scale(3, 5)):
            for name, s, want in jobs[k::2] + jobs[1 - k % 2::2]:
                if result(DR, name, s) != want:
                    wrong.append((name, s))
                done[k] += 1
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    run.see('concurrent calls', sum(done))
    for name, s in wrong[:3]:
        run.violation(f'{name}:concurrent', f'{name} gives another result '
                      'while other threads use it', s)
