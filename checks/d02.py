"""D02: dead reckoning turns an entity by its body angular velocity."""
import math

from lib import dr, geo

RULE = ('a case is one call of one of the nine algorithms on a generated '
        'entity state, its orientation compared with the Euler rates obtained '
        'by solving the kinematic equation, and, for small turns, with the '
        'rotation matrix turned by the angular velocity; distinct by algorithm '
        'and state; non-trivial when the entity spins and time passes')


def check(run):
    from opendis import DeadReckoning as DR
    st = dr.States(run.rng)
    for name in dr.ALGORITHMS:
        for i in range(run.scale(2500, 50000)):
            orientation(run, DR, st, name, st.state())
        run.see('algorithms')
    rotating = [n for n in dr.ALGORITHMS if dr.ALGORITHMS[n][3]]
    for _ in range(run.scale(2500, 40000)):
        turn(run, DR, st, rotating)
    for _ in range(run.scale(1500, 20000)):
        gimbal(run, DR, st, rotating)
    run.need('orientations compared', 15000)
    run.need('small turns compared', 1500)
    run.need('orientations at the gimbal lock', 1500)
    run.need('algorithms', 9)


def lock(theta):
    return abs(math.cos(theta))


def orientation(run, DR, st, name, s):
    c = lock(s['o'][1])
    rotates = dr.ALGORITHMS[name][3]
    if rotates and 5e-7 < c < 2e-6:
        return  # either side of the singularity's threshold
    got = dr.floats(dr.call(DR, name, s, st.as_kind)[1])
    spins = rotates and s['t'] and any(s['w'])
    run.case((name, repr(s)) if spins else None,
             {'algorithm': name, 'state': s, 'orientation': got}
             if run.evaluations % 3001 == 3 else None)
    run.see('orientations compared')
    if not rotates:
        if [math.copysign(1, x) * x for x in got] != \
                [math.copysign(1, x) * x for x in s['o']] or \
                got != list(map(float, s['o'])):
            run.violation(f'{name}:fixed', f'{name} turned {s["o"]} to {got}',
                          s)
        return
    if c < 1e-6:
        return at_lock(run, name, s, got)
    rates = dr.euler_rates(s['o'], s['w'])
    size = math.fsum(abs(x) for x in s['w'])
    for i in range(3):
        want = s['o'][i] + rates[i] * s['t']
        # conditioning: yaw and roll rates grow as 1/cos(pitch)
        tol = 4e-14 * abs(s['o'][i]) + 1e-13 * abs(s['t']) * size / (
            c * c if i != 1 else 1) + 1e-300
        if not abs(got[i] - want) <= tol:
            run.violation(f'{name}:{("psi", "theta", "phi")[i]}',
                          f'{name} of {s}: {("psi", "theta", "phi")[i]} is '
                          f'{got[i]!r}, not {want!r}', s)
            return


def at_lock(run, name, s, got):
    """Nose straight up or down: finite, heading kept, pitch and roll turn."""
    psi, theta, phi = s['o']
    p, q, r = s['w']
    want = [psi, theta + (q * math.cos(phi) - r * math.sin(phi)) * s['t'],
            phi + p * s['t']]
    run.see('orientations at the gimbal lock')
    size = math.fsum(abs(x) for x in s['w']) * abs(s['t'])
    for i in range(3):
        if not abs(got[i] - want[i]) <= 4e-14 * (abs(s['o'][i]) + size) + \
                1e-300:
            run.violation(f'{name}:lock', f'{name} of {s}: orientation {got}, '
                          f'not {want}', s)
            return


def gimbal(run, DR, st, rotating):
    rng = run.rng
    s = st.state()
    s['o'][1] = rng.choice([-1, 1]) * (
        math.pi / 2 * rng.choice([1, 1, 3, 5]) +
        rng.choice([0.0, 0.0, 1e-7, -1e-7, 4e-7, 1e-9, -1e-12]))
    orientation(run, DR, st, rng.choice(rotating), s)


def turn(run, DR, st, rotating):
    """Over a small angle the result is the attitude turned by the spin: its
    matrix is the old one times the rotation by w*dt in body axes, up to the
    square of the angle."""
    rng = run.rng
    s = st.state()
    s['o'] = [geo.angle(rng, st.lits) for _ in range(3)]
    if lock(s['o'][1]) < 0.05 or geo.norm(s['w']) < 1e-100:
        return
    c = lock(s['o'][1])
    size = math.sqrt(math.fsum(x * x for x in s['w']))
    s['t'] = rng.choice([-1, 1]) * 1e-5 / size
    name = rng.choice(rotating)
    got = dr.floats(dr.call(DR, name, s)[1])
    m = geo.body_to_world(*got)
    want = geo.matmul(geo.body_to_world(*s['o']),
                      geo.axis_angle(s['w'], size * s['t']))
    err = max(abs(m[i][j] - want[i][j]) for i in range(3) for j in range(3))
    run.see('small turns compared')
    run.case(('turn', name, repr(s)))
    if err > 1e-10 * 4 / (c * c) + 2e-14 * sum(abs(x) for x in s['o']) / c:
        run.violation(f'{name}:turn', f'{name} of {s}: the attitude is off by '
                      f'{err} after a turn of 1e-5', s)
