"""D01: dead reckoning extrapolates position as its algorithm prescribes."""
import math

from lib import dr, geo

RULE = ('a case is one call of one of the nine algorithms on a generated '
        'entity state, its position compared with an independent computation; '
        'distinct by algorithm and state; non-trivial when the entity moves '
        'and time passes')


def check(run):
    from opendis import DeadReckoning as DR
    st = dr.States(run.rng)
    for name in dr.ALGORITHMS:
        for i in range(run.scale(3500, 60000)):
            s = st.state()
            position(run, DR, st, name, s)
        run.see('algorithms')
    paths(run, DR, st)
    run.need('positions compared', 25000)
    run.need('algorithms', 9)
    run.need('positions along paths', 1500)


def position(run, DR, st, name, s):
    got, _ = dr.call(DR, name, s, st.as_kind)
    got = dr.floats(got)
    want, scale = dr.expected_position(name, s)
    moves = s['t'] and any(s['v'] + s['a'])
    run.case((name, repr(s)) if moves else None,
             {'algorithm': name, 'state': s, 'position': got}
             if run.evaluations % 4001 == 3 else None)
    run.see('positions compared')
    for i in range(3):
        tol = 4e-14 * scale[i] + 1e-300
        if not abs(got[i] - want[i]) <= tol:
            run.violation(f'{name}:position', f'{name} of {s}: '
                          f'{"xyz"[i]} is {got[i]!r}, not {want[i]!r}', s)
            return


def paths(run, DR, st):
    """An entity tracked over time, as a receiver does it between updates."""
    rng = run.rng
    for _ in range(run.scale(60, 800)):
        s = st.state()
        name = rng.choice([n for n in dr.ALGORITHMS if n != 'drm_static'])
        step = 10.0 ** rng.uniform(-3, 1)
        for k in range(40):
            s['t'] = k * step
            run.see('positions along paths')
            position(run, DR, st, name, s)
