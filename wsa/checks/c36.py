"""Automatic time step of the bunches."""

from ..core import T, NativeV, ExtV
from .c01 import stage

PROP = dict(
    id='C36', title='Automatic time step is a tenth of the fastest betatron '
    'phase time',
    statement="With dt_bunch='auto', the time step of a bunch is 1/10 of "
    '1/omega, omega being the betatron frequency of its lowest-energy '
    'particle in the strongest focusing of the element: the ion channel of '
    'the highest density along the stage or, for lenses without wakefields '
    'and field quadrupoles, the focusing gradient. It scales with the charge '
    'and mass of the species, does not depend on their sign, and follows the '
    'current energy of the bunch in every step.',
    over=['inputs', 'configurations'],
    text='all bunches, species, densities (constant, rising or falling) and '
    'strengths',
    why='the tests track single electron bunches and a too long (or short) '
    'step changes their results by less than the tolerances',
    files=['wake_t/beamline_elements/plasma_stage.py',
           'wake_t/beamline_elements/active_plasma_lens.py',
           'wake_t/beamline_elements/field_quadrupole.py',
           'wake_t/tracking/tracker.py'],
    mechanism=[('time step', 'wake_t/beamline_elements/plasma_stage.py'
                ':PlasmaStage._get_optimized_dt')])

c, e, m_e, eps = (T.sym(k, 'pos') for k in ('c', 'e', 'm_e', 'epsilon_0'))
n0, g, length = T.sym('n0', 'pos'), T.sym('g'), T.sym('length', 'pos')
q, m = T.sym('q'), T.sym('m', 'pos')


def sqrt(a):
    return T.power(a, T.C(0.5))


def linear(a, b):
    """A density n0 (a + b z/length)."""
    def fn(it, st, args, kw, node):
        z = args[0] if args else kw['z']
        return it.ew(st, lambda s: n0*(a + b*s/length), [z])
    return NativeV('density', fn)


def bump(it, st, args, kw, node):
    z = args[0] if args else kw['z']
    return it.ew(st, lambda s: n0*(1 + 2*T.fn('exp', -(
        (s/length - T.sym('u0', 'pos'))*10)**2)), [z])


CASES = {
    'stage, density with a maximum inside': (lambda x: stage(
        x, 'focusing_blowout', density=NativeV('density', bump)), 3*n0),
    'stage, constant density': (lambda x: stage(
        x, 'focusing_blowout', density=linear(1, 0)), n0),
    'stage, rising density': (lambda x: stage(
        x, 'focusing_blowout', density=linear(1, 2)), 3*n0),
    'stage, falling density': (lambda x: stage(
        x, 'simple_blowout', density=linear(3, -2)), 3*n0),
    'ramp': (lambda x: stage(
        x, 'focusing_blowout', 'PlasmaRamp', ramp_type='downramp',
        profile=NativeV('p', lambda it, st, args, kw, node: linear(3, -2)
                        .fn(it, st, args[:1], {}, node))), 3*n0),
    'lens with wakefields': (lambda x: x.call(
        'wake_t:ActivePlasmaLens', length=length, foc_strength=g,
        wakefields=True, density=linear(1, 1),
        wakefield_model='focusing_blowout'), 2*n0),
    'lens': (lambda x: x.call(
        'wake_t:ActivePlasmaLens', length=length, foc_strength=g), None),
    'quadrupole': (lambda x: x.call(
        'wake_t.beamline_elements:FieldQuadrupole', length=length,
        foc_strength=g), None),
}


def run(chk):
    chk.rules = {'dt': "the step returned by the element's function for "
                 'automatic time steps is 0.1/sqrt(|q c k/(m gamma)|), with '
                 'gamma of the smallest pz of the bunch given to it'}
    chk.need('dt', 7)
    for name in CASES:
        chk.part('dt', name, one, chk, name)


def one(chk, name):
    x = chk.ctx()
    mk, n = CASES[name]
    el = mk(x)
    w = 'wake_t:' + name
    k = g if n is None else n*e/(2*c*eps)
    for tag in ('', '2'):
        N = T.sym('N' + tag, 'int')
        b = x.bunch(tag, n=N)
        dt = x.call(x.attr(el, 'auto_dt_bunch'), b)
        pz = x.call(ExtV('numpy.amin'), x.attr(b, 'pz'))
        gam = sqrt(1 + x.term(pz)*x.term(pz))
        Q, M = T.sym('q' + tag), T.sym('m' + tag, 'pos')
        want = T.C(0.1)/sqrt(T.fn('abs', Q/M*c*k/gam))
        chk.equal('dt', '%s, bunch%s' % (name, tag), w, x.term(dt), want,
                  domains={'N' + tag: 5, 'u0': lambda r: r.uniform(.2, .8)},
                  tol=.01 if 'inside' in name else 1e-7)

