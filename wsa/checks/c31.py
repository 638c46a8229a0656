"""Plasma density profiles: stages and ramps."""

from ..core import T, NativeV, Dead, items, gather
from .c01 import stage, GRID

PROP = dict(
    id='C31', title='Plasma density is the requested profile at the local z',
    statement='A plasma stage uses the given constant density, or the given '
    'function of the distance to its entrance. A ramp of the inverse-square, '
    'exponential or Gaussian type has the top density at its high end and, '
    'unless a decay length is given, the density plasma_dens_down at the '
    'distance position_down (default: the length) from it; an upramp is the '
    'mirror image of the downramp with the same parameters; a user-given '
    'profile is evaluated with the distance to the high end and the given '
    'parameters. The wakefield models evaluate this density at the position '
    'c t of the window. Unknown profiles, unsupported density types and lens '
    'wakefields without a density are rejected.',
    over=['inputs', 'configurations'],
    text='all lengths, densities, decay lengths, positions and user profiles',
    why='the tests use one inverse-square ramp and compare beam sizes',
    files=['wake_t/beamline_elements/plasma_ramp.py',
           'wake_t/beamline_elements/plasma_stage.py',
           'wake_t/beamline_elements/active_plasma_lens.py',
           'wake_t/fields/rz_wakefield.py'],
    mechanism=[('ramps', 'wake_t/beamline_elements/plasma_ramp.py'
                ':PlasmaRamp'),
               ('stages', 'wake_t/beamline_elements/plasma_stage.py'
                ':PlasmaStage._get_density_profile')])

z, length = T.sym('z'), T.sym('length', 'pos')
top, down = T.sym('n_top', 'pos'), T.sym('n_down', 'pos')
pos, dec = T.sym('pos_down', 'pos'), T.sym('decay', 'pos')
c = T.sym('c', 'pos')
W = 'wake_t:PlasmaRamp'


def exp(a):
    return T.fn('exp', a)


def log(a):
    return T.fn('log', a)


def sqrt(a):
    return T.power(a, T.C(0.5))


SHAPE = {
    'inverse_square': (lambda d, s: top/T.power(1 + s/d, T.C(2)),
                       lambda p: p/(sqrt(top/down) - 1)),
    'exponential': (lambda d, s: top*exp(-s/d),
                    lambda p: p/log(top/down)),
    'gaussian': (lambda d, s: top*exp(-(s*s)/(2*d*d)),
                 lambda p: p/sqrt(2*log(top/down))),
}
DOM = {'n_top': lambda r: 2 + r.random(), 'n_down': lambda r: .1 + r.random(),
       'z': lambda r: r.random(), 'length': lambda r: .2 + r.random(),
       'pos_down': lambda r: .2 + r.random(), 'decay': lambda r: .2 +
       r.random()}


def run(chk):
    chk.rules = {
        'ramp': 'the density of a ramp at z is the profile of the distance '
        'to its high end',
        'ends': 'the ramp has the top density at the high end and the down '
        'density at position_down',
        'stage': 'the density of a stage is the given number or function',
        'local': 'the models evaluate the density at c t (plus xi for the '
        'focusing blowout), in every step',
        'rejected': 'invalid profiles and densities raise an exception',
    }
    chk.need('ramp', 20)
    chk.need('ends', 12)
    chk.need('stage', 3)
    chk.need('local', 4)
    chk.need('rejected', 4)
    for prof in SHAPE:
        for kind in ('upramp', 'downramp'):
            for d in (None, dec):
                for p in (None, pos):
                    chk.part('ramp', prof, ramp, chk, prof, kind, d, p)
    for kind in ('upramp', 'downramp'):
        chk.part('ramp', 'callable', own, chk, kind)
    chk.part('stage', 'stage', stages, chk)
    chk.part('rejected', 'rejected', rejected, chk)
    for model in ('cold_fluid_1d', 'quasistatic_2d'):
        chk.part('local', model, local, chk, model)


def make(x, **kw):
    return x.call('wake_t:PlasmaRamp', length=length, **kw)


def dens(x, el, at):
    v = x.call(x.attr(el, 'density'), at)
    return x.term(v)


def ramp(chk, prof, kind, d, p):
    x = chk.ctx()
    el = make(x, profile=prof, ramp_type=kind, decay_length=d,
              plasma_dens_top=top, plasma_dens_down=down, position_down=p)
    tag = '%s %s decay_length=%s position_down=%s' % (
        prof, kind, d and 'given', p and 'given')
    shape, auto = SHAPE[prof]
    pp = p if p is not None else length
    dd = d if d is not None else auto(pp)

    def dist(s):
        return length - s if kind == 'upramp' else s
    chk.equal('ramp', tag, W, dens(x, el, z), shape(dd, dist(z)),
              domains=DOM)
    n = T.sym('n', 'int')
    a = x.arr('zs', n)
    zz = T.load(T.sym('zs'), T.lane(1))
    chk.equal('ramp', tag + ' (array)', W, dens(x, el, a),
              shape(dd, dist(zz)), domains=DOM)
    chk.equal('ends', tag + ' high end', W, dens(x, el, dist(T.ZERO)), top,
              domains=DOM)
    if d is None:
        chk.equal('ends', tag + ' low end', W, dens(x, el, dist(pp)), down,
                  domains=DOM)


def own(chk, kind):
    x = chk.ctx()

    def prof(it, st, args, kw, node):
        names = ('z', 'decay_length', 'density_top', 'density_down',
                 'position_down')
        a = dict(zip(names, args))
        a.update(kw)
        return T.fn('own', *[it.to_term(st, a[k]) for k in names])
    el = make(x, profile=NativeV('own', prof), ramp_type=kind,
              decay_length=dec, plasma_dens_top=top, plasma_dens_down=down,
              position_down=pos)
    s = length - z if kind == 'upramp' else z
    chk.equal('ramp', 'callable %s' % kind, W, dens(x, el, z),
              T.fn('own', s, dec, top, down, pos))


def stages(chk):
    x = chk.ctx()
    w = 'wake_t:PlasmaStage'
    s = stage(x, 'focusing_blowout')
    chk.equal('stage', 'function', w, dens(x, s, z), T.fn('dens', z))
    s = stage(x, 'focusing_blowout', density=2.5)
    chk.equal('stage', 'constant at a point', w, dens(x, s, z), T.C(2.5))
    a = x.arr('zs', T.sym('n', 'int'))
    v = x.call(x.attr(s, 'density'), a)
    chk.equal('stage', 'constant on an array', w, x.term(v), T.C(2.5))
    sh = x.shape(v)
    if sh is None or len(sh) != 1:
        chk.und('stage', 'shape', w, 'rank')
    else:
        chk.equal('stage', 'shape on an array', w, sh[0], T.sym('n', 'int'))


def rejected(chk):
    for name, mk in (
            ('profile name', lambda x: make(
                x, profile='no such profile', plasma_dens_top=top,
                plasma_dens_down=down)),
            ('density type', lambda x: stage(x, 'focusing_blowout',
                                             density='high')),
            ('lens wakefields without density', lambda x: x.call(
                'wake_t:ActivePlasmaLens', length=length,
                foc_strength=T.sym('g'), wakefields=True, ppc=T.sym('ppc'),
                **GRID)),
            ('wakefield model', lambda x: x.call(
                'wake_t:PlasmaStage', length=length, density=1.,
                wakefield_model='no such model'))):
        x = chk.ctx()
        try:
            mk(x)
            chk.bad('rejected', name, 'wake_t', 'accepted')
        except Dead:
            chk.ok('rejected', name, 'wake_t')


def local(chk, model):
    """n_p at the first and at later updates."""
    x = chk.ctx()

    s = stage(x, model, dz_fields=T.sym('dz', 'pos'))
    f = items(x, x.attr(s, 'fields'))[0]
    dz = T.sym('dz', 'pos')
    w = 'wake_t:%s.update' % model
    for k in range(2):
        x.meth(f, 'update', x.list())
        i = '%s update %d' % (model, k+1)
        try:
            n_p = x.term(x.attr(f, 'n_p'))
        except Exception:
            chk.und('local', i, w, 'n_p not found')
            continue
        chk.equal('local', i, w, n_p, T.fn('dens', k*dz))
