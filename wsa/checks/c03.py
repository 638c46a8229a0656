"""Boris pusher: one step of evolve(..., pusher='boris')."""

from ..core import T
from ..phys import P, R, F, c, HALF, coords, velocity, gamma, cross

PROP = dict(
    id='C03', title='Boris tracking step is the Boris scheme',
    statement='One tracking step with the Boris pusher moves every particle '
    'by a leapfrog step: half a drift with the old momentum, an electric half '
    'kick, a magnetic rotation that conserves the momentum modulus, an '
    'electric half kick, and half a drift with the new momentum, with the '
    'species charge-to-mass ratio. The fields are those at the half-drifted '
    'position and half-step time, and nothing of earlier steps matters.',
    over=['inputs', 'histories'],
    text='all particle coordinates, species, fields, times and step sizes, '
    'after any earlier steps',
    why='the tests run electrons in a few wakefields and compare ensemble '
    'averages with loose tolerances; other species, asymmetric momenta and '
    'magnetic fields along z are not reached',
    files=['wake_t/particles/particle_bunch.py',
           'wake_t/particles/push/boris_pusher.py'],
    mechanism=[('step', 'wake_t/particles/push/boris_pusher.py'),
               ('dispatch', 'wake_t/particles/particle_bunch.py:evolve')])


t, dt, q, m = T.sym('t'), T.sym('dt'), T.sym('q'), T.sym('m', 'pos')
WHERE = 'wake_t:ParticleBunch.evolve[boris]'


def run(chk):
    chk.rules = {
        'leapfrog': 'positions after one step = half drift with the old '
        'momentum + half drift with the new one, at velocity c p/gamma in '
        'the frame moving at c',
        'gather': 'the fields are evaluated once, at the half-drifted '
        'positions and at t + dt/2',
        'boris': 'the new momentum is E half kick, B rotation, E half kick '
        'with q/(m c)',
        'rotation': 'with E = 0 the momentum modulus is unchanged',
        'history': 'a second step starts from the result of the first one '
        'and sees no field value left over from it',
    }
    for r, n in (('gather', 4), ('boris', 3), ('rotation', 1),
                 ('leapfrog', 3), ('history', 6)):
        chk.need(r, n)
    x = chk.ctx()
    b = x.bunch()
    f, f2 = x.stub_field(), x.stub_field('2')
    i = coords()
    chk.part('boris', 'first step', step, chk, x, b, f, i, 'boris', t)
    j = {k: x.term(x.attr(b, k)) for k in R + P}
    chk.part('history', 'second step', step2, chk, x, b, f2, j)


def step(chk, x, b, f, i, rule, t):
    x.meth(b, 'evolve', x.list(f), t, dt, 'boris')
    w = WHERE
    v0 = velocity(i)
    half = {r: i[r] + HALF*dt*v0[r] for r in R}
    if len(f.calls) != 1:
        chk.bad('gather', 'number of field evaluations', w,
                'fields gathered %d times in one step' % len(f.calls))
        return
    pos, tt = f.calls[0]
    for k, g in zip(R, pos):
        chk.equal('gather', 'position ' + k, w, g, half[k])
    chk.equal('gather', 'time', w, tt, t + HALF*dt)
    fld = {k: T.fn('F.' + k, *(pos + [tt])) for k in F}
    pn = boris(i, fld)
    got = {a: x.term(x.attr(b, a)) for a in R + P}
    for a, v in zip(P, pn):
        chk.equal('boris', a, w, got[a], v)
    # derived laws, on the analysed values themselves
    z = {fld[e]: T.ZERO for e in F[:3]}
    n0 = T.add(*[T.subst(got[a], z)**2 for a in P])
    chk.equal('rotation', '|p|^2 with E=0', w, n0,
              T.add(*[i[a]**2 for a in P]))
    v1 = velocity(got)
    for r in R:
        chk.equal('leapfrog', r, w, got[r], half[r] + HALF*dt*v1[r])


def boris(i, fld):
    k = q*dt*HALF/(m*c)
    pm = [i[p] + k*fld[e] for p, e in zip(P, F[:3])]
    g = gamma(*pm)
    tv = [k*c*fld[bb]/g for bb in F[3:]]
    s2 = 2/(1 + tv[0]**2 + tv[1]**2 + tv[2]**2)
    pp = [u + v for u, v in zip(pm, cross(pm, tv))]
    return [u + s2*v + k*fld[e] for u, v, e in
            zip(pm, cross(pp, tv), F[:3])]


def step2(chk, x, b, f, j):
    """Second step, from arbitrary coordinates: abstract the first one."""
    i = coords('B')
    names = R + P
    for k in names:
        x.I.store_all(x.st, x.attr(b, k), x.arr(k + 'B', T.sym('n', 'int')),
                      None)
    x.meth(b, 'evolve', x.list(f), t, dt, 'boris')
    pos, tt = f.calls[0]
    v0 = velocity(i)
    half = {r: i[r] + HALF*dt*v0[r] for r in R}
    fld = {k: T.fn('F2.' + k, *([half[r] for r in R] + [t + HALF*dt]))
           for k in F}
    pn = dict(zip(P, boris(i, fld)))
    v1 = velocity(pn)
    for k in names:
        want = pn[k] if k in pn else half[k] + HALF*dt*v1[k]
        chk.equal('history', k, WHERE, x.term(x.attr(b, k)), want)
