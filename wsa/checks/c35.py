"""Fields of lenses, quadrupoles and blowout models."""

from ..core import T, gather, items, FN
from .c01 import stage, laser

PROP = dict(
    id='C35', title='Analytical lens and blowout fields are those documented',
    statement='The plasma lens has the azimuthal field -g r (focusing '
    'electrons for g>0), the field quadrupole B = (-g y, -g x). The blowout '
    'models have the ion-channel focusing c k (x, y) with k = m_e w_p^2/(2 e '
    'c) of the density where the fields are evaluated (custom model: of the '
    'given strength) and the longitudinal field linear in xi with the given '
    'or the ion-channel slope, moving with the group velocity of the laser in '
    'the local plasma density. All other components are zero, for every '
    'particle, time, density profile and species.',
    over=['inputs', 'configurations'],
    text='all particle positions, times, densities, lasers and strengths',
    why='the tests use one density and one bunch near the axis and compare '
    'rms values after tracking',
    files=['wake_t/physics_models/em_fields/linear_b_theta.py',
           'wake_t/physics_models/em_fields/quadrupole.py',
           'wake_t/physics_models/plasma_wakefields/simple_blowout.py',
           'wake_t/physics_models/plasma_wakefields/custom_blowout.py',
           'wake_t/physics_models/plasma_wakefields/focusing_blowout.py',
           'wake_t/physics_models/laser/laser_pulse.py'],
    mechanism=[('field components', 'wake_t/fields/analytical_field.py'
                ':AnalyticalField')])

c, e, m_e = (T.sym(k, 'pos') for k in ('c', 'e', 'm_e'))
eps, pi = T.sym('epsilon_0', 'pos'), T.sym('pi', 'pos')
g, t = T.sym('g'), T.sym('t')
HALF = T.C(0.5)
X, Y, XI = (T.load(T.sym(k), T.lane(1)) for k in ('x', 'y', 'z'))


def sq(a):
    return T.power(a, HALF)


def wp2(n):
    return n*e*e/(m_e*eps)


def hook(it, st, path, args, kw, node):
    """aptools.plasma_frequency(n in cm^-3), its documented meaning."""
    if path.endswith('general_equations.plasma_frequency'):
        n = args[0] if args else list(kw.values())[0]
        return it.ew(st, lambda a: sq(wp2(a*T.C(1000000))), [n])
    return NotImplemented


def v_group(n, l0):
    k = 2*pi/l0
    return k*c/sq(wp2(n) + k*k*c*c)


def want(name):
    n0 = T.fn('dens', c*t)
    bw = v_group(n0, T.sym('l_0', 'pos'))
    z = dict.fromkeys(FN, T.ZERO)
    if name == 'active_plasma_lens':
        return dict(z, bx=g*Y, by=-(g*X))
    if name == 'quadrupole':
        return dict(z, bx=-(g*Y), by=-(g*X))
    if name == 'focusing_blowout':
        k = m_e/(2*e*c)*wp2(T.fn('dens', c*t + XI))
        return dict(z, ex=c*k*X, ey=c*k*Y)
    if name == 'simple_blowout':
        k = m_e/(2*e*c)*wp2(n0)
        lp = 2*pi*c/sq(wp2(n0))
        return dict(z, ex=c*k*X, ey=c*k*Y, ez=c*k*(
            XI + lp/2 - T.sym('xi_c') - T.sym('field_offset') +
            (1 - bw)*c*t))
    k = T.sym('kfoc')
    return dict(z, ex=c*k*X, ey=c*k*Y, ez=T.sym('Ez0') + T.sym('Ezp')*(
        XI - T.sym('xi_f') + (1 - bw)*c*t))


def fields(x):
    for m, kw in (('simple_blowout',
                   dict(field_offset=T.sym('field_offset'))),
                  ('custom_blowout', {}), ('focusing_blowout', {})):
        yield m, lambda m=m, kw=kw: stage(x, m, **kw)
    for m, cl in (('active_plasma_lens', 'wake_t:ActivePlasmaLens'),
                  ('quadrupole',
                   'wake_t.beamline_elements:FieldQuadrupole')):
        yield m, lambda cl=cl: x.call(cl, length=T.sym('length', 'pos'),
                                      foc_strength=g)


def run(chk):
    chk.rules = {
        'field': 'each gathered component is value-numbered to the formula '
        'of the element, from zero-initialised arrays',
        'again': 'later evaluations at another time and place, or another '
        'place at the same time, obey the same formula (nothing of an '
        'earlier one is kept)',
        'group velocity': 'LaserPulse.get_group_velocity is k c/sqrt(w_p^2 + '
        'k^2 c^2) in units of c',
    }
    chk.need('field', 30)
    chk.need('again', 90)
    chk.need('group velocity', 1)
    x = chk.ctx()
    x.I.ext_hook = hook
    for name, mk in fields(x):
        chk.part('field', name, one, chk, x, name, mk)
    chk.part('group velocity', 'GaussianPulse', group, chk)


def one(chk, x, name, mk):
    s = mk()
    f = items(x, x.attr(s, 'fields'))[0]
    w = 'wake_t:%s' % name
    ref = want(name)
    got, _ = gather(x, f, init=0)
    for k in FN:
        chk.equal('field', '%s %s' % (name, k), w, got[k], ref[k])
    # another place and time, another place at the same time, and back
    for p, tt in (('2', T.sym('t2')), ('3', T.sym('t2')), ('', t)):
        got, _ = gather(x, f, init=0, pos=('x' + p, 'y' + p, 'z' + p), t=tt,
                        n=T.sym('N' + p, 'int'))
        sub = {t: tt}
        for k in 'xyz':
            sub[T.sym(k)] = T.sym(k + p)
        for k in FN:
            chk.equal('again', '%s %s%s' % (name, k, p), w, got[k],
                      T.subst(ref[k], sub))


def group(chk):
    x = chk.ctx()
    n = T.sym('n_p', 'pos')
    v = x.meth(laser(x), 'get_group_velocity', n)
    chk.equal('group velocity', 'GaussianPulse',
              'wake_t:LaserPulse.get_group_velocity', x.term(v),
              v_group(n, T.sym('l_0', 'pos')))
