"""Delayed injection: ballistic motion until the bunch reaches z_injection."""

from ..core import T, ExtV
from ..phys import P, R, c, coords, velocity

PROP = dict(
    id='C12', title='Bunches move ballistically until their injection',
    statement='A bunch with z_injection moves ballistically (constant '
    'momenta, straight lines) in every step that starts before its foremost '
    'particle has reached that position, whatever the fields, the pusher and '
    'the earlier steps; from then on it moves as a bunch without z_injection '
    'does. In either case each step advances prop_distance by c*dt and '
    'leaves weights, tags, species and reference values alone.',
    over=['inputs', 'histories'],
    text='all coordinates, injection positions, fields, steps and pushers, '
    'several steps in a row',
    why='no test sets z_injection; an error changes the injected phase '
    'silently',
    files=['wake_t/particles/particle_bunch.py'],
    mechanism=[('evolve', 'wake_t/particles/particle_bunch.py:'
                'ParticleBunch.evolve')])

t, dt, z, prop = (T.sym(k) for k in ('t', 'dt', 'z_inj', 'prop'))
# clearly before or after: nothing is said about rounding at the limit
DOM = {'n': lambda g: g.randrange(2, 6), 'dt': lambda g: g.uniform(.1, 1.),
       'c': lambda g: g.uniform(.5, 2.)}


def run(chk):
    chk.rules = {
        'before': 'positions advance with the velocity of the unchanged '
        'momenta while max(xi) + prop_distance < z_injection',
        'after': 'otherwise the step is the one of a bunch without '
        'z_injection',
        'second': 'the same in a second step, with the values reached',
        'distance': 'prop_distance grows by c*dt per step',
        'rest': 'other attributes keep their values',
    }
    for r, n in (('before', 12), ('after', 12), ('second', 24),
                 ('distance', 4), ('rest', 12)):
        chk.need(r, n)
    for pusher in ('boris', 'rk4'):
        chk.part('before', pusher, steps, chk, pusher)


def evolve(x, pusher, zi, t0=t, b=None):
    b = b or x.bunch(**({} if zi is None else {'z_injection': zi}))
    f = x.stub_field()
    x.meth(b, 'evolve', x.list(f), t0, dt, pusher)
    return b


def free(i):
    v = velocity(i)
    out = {r: i[r] + dt*v[r] for r in R}
    out.update({p: i[p] for p in P})
    return out


def front(x, b):
    """Position of the foremost particle."""
    return x.term(x.call(ExtV('numpy.amax'), x.attr(b, 'xi'))) \
        + x.term(x.attr(b, 'prop_distance'))


def steps(chk, pusher):
    w = 'wake_t:ParticleBunch.evolve[%s]' % pusher
    x = chk.ctx()
    b = x.bunch(z_injection=z, tags=x.arr('tags', T.sym('n', 'int')))
    rest = ('w', 'q_species', 'm_species', 'name', 'z_injection',
            't_flight', 'tags', 'x_ref', 'theta_ref')
    old = {k: x.term(x.attr(b, k)) for k in rest}
    out = T.lt(front(x, b), z)
    start = coords()
    evolve(x, pusher, None, t, b)
    got = {k: x.term(x.attr(b, k)) for k in R + P}
    y = chk.ctx()
    a = evolve(y, pusher, None)
    ref = {k: y.term(y.attr(a, k)) for k in R + P}
    fr = free(start)
    for k in R + P:
        chk.equal('before', '%s: %s' % (pusher, k), w, got[k], fr[k],
                  assume=out, domains=DOM)
        chk.equal('after', '%s: %s' % (pusher, k), w, got[k], ref[k],
                  assume=T.bnot(out), domains=DOM)
    chk.equal('distance', pusher, w, x.attr(b, 'prop_distance'),
              prop + c*dt)
    for k in rest:
        new = x.term(x.attr(b, k))
        if isinstance(old[k], T.Term):
            chk.equal('rest', '%s: %s' % (pusher, k), w, new, old[k])
        else:
            chk.expect(new == old[k], 'rest', '%s: %s' % (pusher, k), w,
                       '%r instead of %r' % (new, old[k]))
    # a second step from general values
    x = chk.ctx()
    b = x.bunch(z_injection=z)
    f = x.stub_field()
    x.meth(b, 'evolve', x.list(f), T.sym('t0'), dt, pusher)
    reset(x, b)
    out = T.lt(front(x, b), z)
    evolve(x, pusher, None, t, b)
    got = {k: x.term(x.attr(b, k)) for k in R + P}
    for k in R + P:
        chk.equal('second', '%s: %s before' % (pusher, k), w, got[k], fr[k],
                  assume=out, domains=DOM)
        chk.equal('second', '%s: %s after' % (pusher, k), w, got[k], ref[k],
                  assume=T.bnot(out), domains=DOM)
    # injection position given to a bunch that has been in a field before
    x = chk.ctx()
    b = evolve(x, pusher, None, T.sym('t0'))
    reset(x, b)
    x.set(b, 'z_injection', z)
    out = T.lt(front(x, b), z)
    evolve(x, pusher, None, t, b)
    for k in R + P:
        chk.equal('second', '%s: %s before, tracked in a field earlier' % (
            pusher, k), w, x.term(x.attr(b, k)), fr[k], assume=out,
            domains=DOM)
    x = chk.ctx()
    b = x.bunch(z_injection=z)
    f = x.stub_field()
    for i in range(2):
        if i:
            reset(x, b)
        x.meth(b, 'evolve', x.list(f), t, dt, pusher)
    chk.equal('distance', pusher + ', second step', w,
              x.attr(b, 'prop_distance'), prop + 2*c*dt)


def reset(x, b):
    """Forget the coordinates reached, keep everything else."""
    for k in R + P:
        a = x.attr(b, k)
        x.I.store_all(x.st, a, x.arr(k, x.shape(a)[0]), None)
