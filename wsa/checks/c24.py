"""Envelopes of the laser pulses."""

from math import comb

from ..core import T, Dead
from ..phys import c, PI, L1

PROP = dict(
    id='C24', title='Laser pulse envelopes are the documented ones',
    statement='The complex envelope of each pulse is the paraxial mode its '
    'parameters describe, at any distance from focus: peak a_0 and waist w_0 '
    'in the focal plane z_foc (measured along propagation from the initial '
    'pulse centre), Rayleigh length pi w_0^2/l_0, intensity FWHM c tau '
    'around xi_c, carrier phase cep_phase, Laguerre order p with its Gouy '
    'phase, and the Santarsiero sum of Laguerre-Gauss modes with peak a_0 '
    'for the flattened Gaussian. Adding pulses adds their envelopes, keeps '
    'wavelength and polarization, and is refused for pulses that differ in '
    'them.',
    over=['inputs', 'configurations'],
    text='every xi, r, z_pos and all pulse parameters; Laguerre orders '
    '0..4 and flattened Gaussians of order 0..6',
    why='the tests start all pulses of a kind at one focus position with no '
    'carrier phase',
    files=['wake_t/physics_models/laser/laser_pulse.py'],
    mechanism=[('envelopes', 'wake_t/physics_models/laser/laser_pulse.py'
                ':LaserPulse.envelope_function')])

xi, r = T.load(T.sym('XI'), L1), T.load(T.sym('R'), L1)
zp = T.sym('z_pos')
S = {k: T.sym(k, 'pos' if k in ('w_0', 'tau', 'l_0') else 'real')
     for k in ('xi_c', 'a_0', 'w_0', 'tau', 'z_foc', 'l_0', 'cep_phase')}
DOM = {'c': 1.3, 'XI': None}


def exp(a):
    return T.fn('exp', a)


def laguerre(p, x):
    out = T.C(0.)
    f = 1.
    for k in range(p + 1):
        f = f*k if k else 1.
        out = out + T.C(comb(p, k)*(-1)**k/f)*x**k
    return out


def mode(p, xi_c, a_0, w_0, tau, z_foc, l_0, cep_phase):
    zr = PI*w_0**2/l_0
    u = (xi - xi_c + zp - z_foc)/zr
    D = 1 + T.I*u
    lon = exp(-2*T.fn('log', T.C(2.))*(xi - xi_c)**2/(tau*c)**2)
    a = a_0/D*exp(-T.I*cep_phase)*exp(-r**2/(w_0**2*D))*lon
    if p:
        # additional Gouy phase: (D* / |D|)^(2p)
        a = a*((1 - T.I*u)/D)**p*laguerre(p, 2*r**2/(w_0**2*(1 + u**2)))
    return a


def flattened(N, w_0, a_0, **k):
    out = T.C(0.)
    for n in range(N + 1):
        cn = sum(comb(m, n)/2.**m for m in range(n, N + 1))/(N + 1)
        out = out + mode(n, a_0=cn*a_0, w_0=w_0*(N + 1)**0.5, **k)
    return out


def run(chk):
    chk.rules = {
        'envelope': 'value number of envelope_function(xi, r, z_pos) equals '
        'the paraxial mode',
        'sum': 'sums have the summed envelope, the wavelength and '
        'polarization of their terms',
        'refused': 'no path creates the sum of different pulses'}
    chk.need('envelope', 14)
    chk.need('sum', 5)
    chk.need('refused', 2)
    P = 'wake_t:'
    for pol in ('linear', 'circular'):
        chk.part('envelope', 'Gaussian', one, chk, P + 'GaussianPulse',
                 dict(S, polarization=pol), mode(0, **S))
    for p in range(5):
        chk.part('envelope', 'Laguerre', one, chk, P + 'LaguerreGaussPulse',
                 dict(S, p=p), mode(p, **S))
    for N in (0, 1, 2, 3, 6):
        chk.part('envelope', 'Flattened', one, chk,
                 P + 'FlattenedGaussianPulse', dict(S, N=N),
                 flattened(N, **S))
    d = dict(S, z_foc=T.C(0.), l_0=T.C(0.8e-6), cep_phase=T.C(0.))
    m = {k: S[k] for k in ('xi_c', 'a_0', 'w_0', 'tau')}
    for cls, more, want in (
            ('GaussianPulse', {}, mode(0, **d)),
            ('LaguerreGaussPulse', {'p': 1}, mode(1, **d)),
            ('FlattenedGaussianPulse', {}, flattened(6, **d))):
        chk.part('envelope', cls, one, chk, P + cls, dict(m, **more), want,
                 'defaults', {'w_0': lambda g: 1e-3*(1 + g.random()),
                              'R': None})
    chk.part('sum', 'sum', sums, chk)
    chk.part('refused', 'sum', refused, chk)


def evaluate(x, pulse):
    n = T.sym('n', 'int')
    return x.term(x.meth(pulse, 'envelope_function', x.arr('XI', n),
                         x.arr('R', n), zp))


def one(chk, cls, par, want, tag='', dom=None):
    x = chk.ctx()
    p = x.call(cls, **par)
    name = '%s(%s%s) %s' % (
        cls.split(':')[-1], par.get('polarization', ''),
        par.get('p', par.get('N', '')), tag)
    w = 'wake_t/physics_models/laser/laser_pulse.py:' + cls.split(':')[-1]
    dom = {k: v for k, v in (dom or {}).items() if v is not None}
    chk.equal('envelope', name, w, evaluate(x, p), want, domains=dom)
    chk.equal('envelope', name + ' l_0', w, x.attr(p, 'l_0'),
              par.get('l_0', T.C(0.8e-6)))
    chk.equal('envelope', name + ' polarization', w,
              x.attr(p, 'polarization'), par.get('polarization', 'linear'))


def sums(chk):
    for pol in ('linear', 'circular'):
        x = chk.ctx()
        S2 = dict(S, **{k: T.sym(k + '2', S[k].kind) for k in S
                        if k != 'l_0'})
        S3 = dict(S, **{k: T.sym(k + '3', S[k].kind) for k in S
                        if k != 'l_0'})
        a = x.call('wake_t:GaussianPulse', polarization=pol, **S)
        b = x.call('wake_t:LaguerreGaussPulse', p=1, polarization=pol, **S2)
        d = x.call('wake_t:FlattenedGaussianPulse', N=1, polarization=pol,
                   **S3)
        for how, s, want in (
                ('a + b', x.I.binop(x.st, 'Add', a, b, None),
                 mode(0, **S) + mode(1, **S2)),
                ('SummedPulse(a, b)', x.call('wake_t.physics_models.laser.laser_pulse:SummedPulse', a, b),
                 mode(0, **S) + mode(1, **S2)),
                ('(a + b) + c', x.I.binop(
                    x.st, 'Add', x.I.binop(x.st, 'Add', a, b, None), d,
                    None), mode(0, **S) + mode(1, **S2)
                 + flattened(1, **S3))):
            w = 'wake_t/physics_models/laser/laser_pulse.py:SummedPulse'
            tag = '%s, %s' % (how, pol)
            chk.equal('sum', tag, w, evaluate(x, s), want)
            chk.equal('sum', tag + ' l_0', w, x.attr(s, 'l_0'), S['l_0'])
            chk.equal('sum', tag + ' polarization', w,
                      x.attr(s, 'polarization'), pol)


def refused(chk):
    for tag, k1, k2 in (
            ('wavelength', dict(l_0=T.C(0.8e-6)), dict(l_0=T.C(0.4e-6))),
            ('polarization', dict(polarization='linear'),
             dict(polarization='circular')),
            ('polarization 2', dict(polarization='circular'),
             dict(polarization='linear'))):
        x = chk.ctx()
        a = x.call('wake_t:GaussianPulse', **dict(S, **k1))
        b = x.call('wake_t:GaussianPulse', **dict(S, **k2))
        w = 'wake_t/physics_models/laser/laser_pulse.py:SummedPulse'
        try:
            x.I.binop(x.st, 'Add', a, b, None)
            chk.bad('refused', 'sum of different ' + tag, w,
                    'pulses with different %s are added' % tag)
        except Dead:
            chk.ok('refused', 'sum of different ' + tag, w)
