"""RK4 pusher: one step of evolve(..., pusher='rk4')."""

from ..core import T
from ..phys import P, R, F, c, HALF, coords, velocity, cross

PROP = dict(
    id='C04', title='Runge-Kutta tracking step is the classical RK4 scheme',
    statement='One tracking step with the Runge-Kutta pusher advances '
    'positions and momenta by the classical fourth-order scheme applied to '
    'the relativistic equations of motion in the frame moving at c: stages at '
    't, t+dt/2 (twice) and t+dt, weights 1/6, 1/3, 1/3, 1/6, with the species '
    'charge-to-mass ratio.',
    over=['inputs'],
    text='all particle coordinates, species, fields, times and step sizes',
    why='the tests compare averages after many steps of one field '
    'configuration; an order reduction or a wrong stage time changes them '
    'by less than the tolerances',
    files=['wake_t/particles/particle_bunch.py',
           'wake_t/particles/push/runge_kutta_4.py'],
    mechanism=[('stages and update',
                'wake_t/particles/push/runge_kutta_4.py')])


t, dt, q, m = T.sym('t'), T.sym('dt'), T.sym('q'), T.sym('m', 'pos')
WHERE = 'wake_t:ParticleBunch.evolve[rk4]'


def rhs(s, fld):
    v = velocity(s)
    vel = [v['x'], v['y'], v['xi'] + c]
    e, b = [fld[k] for k in F[:3]], [fld[k] for k in F[3:]]
    vb = cross(vel, b)
    out = dict(v)
    for p, ei, vi in zip(P, e, vb):
        out[p] = q/(m*c)*(ei + vi)
    return out


def reference(i, tag, t):
    """Classical fourth-order stages; each returns (stage state, time, k)."""
    st = []
    prev = None
    for fac, tf in ((None, 0), (HALF, HALF), (HALF, HALF), (T.ONE, 1)):
        s = i if fac is None else {k: i[k] + dt*fac*prev[k] for k in R + P}
        tt = t + dt*tf
        fld = {k: T.fn('F%s.%s' % (tag, k), *([s[r] for r in R] + [tt]))
               for k in F}
        prev = rhs(s, fld)
        st.append((s, tt, prev))
    new = {k: i[k] + dt*(st[0][2][k] + 2*st[1][2][k] + 2*st[2][2][k] +
                         st[3][2][k])/6 for k in R + P}
    return st, new


def run(chk):
    chk.rules = {
        'stages': 'the fields are evaluated four times: at t, t+dt/2 '
        '(twice) and t+dt, at the positions x, x+dt/2 k1, x+dt/2 k2, '
        'x+dt k3',
        'rk4': 'the step adds dt (k1 + 2 k2 + 2 k3 + k4)/6 of the Lorentz '
        'equations of motion to every coordinate',
        'history': 'a second step on the same bunch obeys the same rule '
        '(no scratch value of the first one survives)',
    }
    chk.need('stages', 16)
    chk.need('rk4', 6)
    chk.need('history', 6)
    x = chk.ctx()
    b = x.bunch()
    n = T.sym('n', 'int')
    for tag, rule in (('', 'rk4'), ('B', 'history')):
        f = x.stub_field(tag)
        if tag:
            for k in R + P:
                x.I.store_all(x.st, x.attr(b, k), x.arr(k + tag, n), None)
        chk.part(rule, 'step' + tag, step, chk, x, b, f, tag, rule)


def step(chk, x, b, f, tag, rule):
    i = coords(tag)
    x.meth(b, 'evolve', x.list(f), t, dt, 'rk4')
    st, new = reference(i, tag, t)
    if not tag:
        if len(f.calls) != 4:
            chk.bad('stages', 'number of field evaluations', WHERE,
                    'fields gathered %d times in one step' % len(f.calls))
            return
        for a, ((pos, tt), (s, tw, _)) in enumerate(zip(f.calls, st)):
            for k, g in zip(R, pos):
                chk.equal('stages', 'stage %d position %s' % (a+1, k),
                          WHERE, g, s[k], n=20)
            chk.equal('stages', 'stage %d time' % (a+1), WHERE, tt, tw)
    for k in R + P:
        chk.equal(rule, k, WHERE, x.term(x.attr(b, k)), new[k], n=20)
