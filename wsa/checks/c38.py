"""Cold-fluid wakefield: the documented equations on the grid."""

import math
import random

from ..core import T, C, TupleV, items, density, gather, NativeV
from .. import ref
from .c24 import S

PROP = dict(
    id='C38', title='The cold-fluid model solves its wakefield equations',
    statement='The field of a cold_fluid_1d stage is, at every radial slice, '
    'the response of the nonlinear 1D cold fluid to the laser (a^2/2 for '
    'linear, a^2 for circular polarization, interpolated between the nodes) '
    'and to the charge density of all bunches (only if beam_wakefields), '
    'integrated from the head of the box backwards by fourth-order '
    'Runge-Kutta steps: psi\'\' = ((1+a^2)/(1+psi)^2 - 1)/2 - n_beam in '
    'units of the local plasma density, from which E_z = -d_xi psi, E_r - '
    'c B_t = -d_r psi, the fluid density and 1/(1+psi) as the '
    'susceptibility follow, and c B_t is the integral of the displacement, '
    'fluid and beam currents inside r. Earlier updates leave nothing '
    'behind, and nobody\'s particles are changed.',
    over=['inputs', 'configurations', 'histories'],
    text='all bunches (any number, charge, position), pulses, densities and '
    'box sizes; grids of up to 6 x 4 nodes with up to 3 particles '
    '(loops over the grid unrolled)',
    why='the tests compare one laser-driven case with a stored number',
    files=['wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py',
           'wake_t/fields/rz_wakefield.py',
           'wake_t/particles/deposition.py',
           'wake_t/particles/interpolation.py'],
    mechanism=[('_calculate_wakefield', 'wake_t/physics_models/'
                'plasma_wakefields/qs_cold_fluid_1x3p.py'
                ':NonLinearColdFluidWakefield._calculate_wakefield')])

W = ('wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'
     ':NonLinearColdFluidWakefield')
R = ('wake_t/fields/rz_wakefield.py:RZWakefield')


def U(a, b):
    return lambda g: g.uniform(a, b)


def draw(name, a, b):
    """Elements of an array, each drawn from [a, b]."""
    return lambda v, *i: random.Random('%s|%s|%s' % (
        v.seed, name, [int(k) for k in i])).uniform(a, b)


XMIN, XMAX, RMAX = -1.1, .4, 1.2
DOM = {'xi_min': XMIN, 'xi_max': XMAX, 'r_max': RMAX, 'c': 1.3, 'e': .8,
       'm_e': 1.1, 'epsilon_0': .9, 'a_0': U(.5, 1.5),
       'xi_c': U(-.5, .2), 'w_0': U(.5, .9), 'tau': U(.3, .8),
       'l_0': U(.2, .4), 'z_foc': U(-3, 3), 'cep_phase': U(-3, 3),
       'dz': U(.2, .5), 'length': 3., 'rho_p': U(.21, .99), 'phi_p': U(0, 6)}
BUNCH = {'q': (-.6, -.2), 'w': (.01, .05), 'x': (-.6, .6),
         'y': (-.6, .6), 'xi': (XMIN + .02, XMAX - .02)}


class Case:
    def __init__(self, nz, nr, pol=None, parts=(), beam=True,
                 shape='linear', updates=1):
        self.nz, self.nr, self.pol, self.parts = nz, nr, pol, parts
        self.beam, self.shape, self.updates = beam, shape, updates

    def __str__(self):
        return 'grid %dx%d, laser %s, bunches of %s particles, ' \
            'beam_wakefields=%s, %s shape' % (
                self.nz, self.nr, self.pol, list(self.parts), self.beam,
                self.shape)


CASES = [Case(5, 3, 'linear', (1,)), Case(5, 3, 'circular', (2, 1)),
         Case(5, 4, None, (2,), shape='cubic'), Case(6, 3, None, (1, 2)),
         Case(4, 4, 'linear', (1,), beam=False, updates=2),
         Case(5, 3, 'linear', ()), Case(4, 3, None, (1, 1), updates=2),
         Case(4, 3, 'linear', (1,), updates=2)]
DEEP = [Case(8, 5, 'linear', (2, 1)), Case(6, 6, None, (2,), shape='cubic'),
        Case(7, 4, 'circular', (1,), updates=2),
        Case(6, 5, 'linear', (1, 1), False)]


def run(chk):
    chk.rules = {
        'field': 'E_z, E_r and B_t gathered anywhere in the box against the '
        'reference solution',
        'density': 'charge density of the plasma in the diagnostics',
        'chi': 'susceptibility seen by the laser',
        'bunch': 'the particles are as before'}
    chk.need('field', 30)
    chk.need('density', 8)
    chk.need('chi', 2)
    chk.need('bunch', 40)
    for case in CASES + (DEEP if chk.tier == 'thorough' else []):
        chk.part('field', str(case), one, chk, case)


def pick(x, v, *ks):
    for k in ks:
        v = x.I.getitem(x.st, v, k, None)
    return v


def one(chk, case):
    x = chk.ctx()
    las, chis = None, []
    kw = {}
    if case.pol:
        las = x.call('wake_t:GaussianPulse', polarization=case.pol, **S)

        def evolve(it, st, args, kws, node):
            d = dict(zip(('chi', 'n_p'), args))
            d.update(kws)
            chis.append([[it.getitem(st, d['chi'], TupleV((C(i), C(j))),
                                     node) for j in range(case.nr)]
                         for i in range(case.nz)])
        x.set(las, 'evolve', NativeV('evolve', evolve))
        kw['laser'] = las
    s = x.call('wake_t:PlasmaStage', length=T.sym('length', 'pos'),
               density=density(x), wakefield_model='cold_fluid_1d',
               n_xi=case.nz, n_r=case.nr, xi_min=T.sym('xi_min'),
               xi_max=T.sym('xi_max'), r_max=T.sym('r_max', 'pos'),
               beam_wakefields=case.beam, p_shape=case.shape,
               dz_fields=T.sym('dz', 'pos'), **kw)
    f = items(x, x.attr(s, 'fields'))[0]
    dom, arrs = dict(DOM), {}
    xp = T.sym('rho_p')*T.sym('r_max', 'pos')
    for up in range(case.updates):
        bs = []
        for i, n in enumerate(case.parts):
            t = '_%d%d' % (up, i)
            bs.append((x.bunch(t, n=C(n)), t, n))
            dom['q' + t] = U(*BUNCH['q'])
            for k in ('w', 'x', 'y', 'xi'):
                arrs[k + t] = draw(k + t, *BUNCH[k])
        x.meth(f, 'update', x.list(*[b[0] for b in bs]))
        cache = {}

        def solve(v, up=up, bs=bs, cache=cache):
            if v.seed not in cache:
                cache[v.seed] = reference(v, case, up, bs)
            return cache[v.seed]
        tag = '%s, update %d' % (case, up + 1)
        ref_defs = dict(arrs, REF=lambda v, k, z, r, sl=solve: at(
            v, case, sl(v), int(k), z, r))
        got, pos = gather(x, f, 0., n=C(1))
        lane = {T.load(T.sym('x'), C(0)): xp*T.fn('cos', T.sym('phi_p')),
                T.load(T.sym('y'), C(0)): xp*T.fn('sin', T.sym('phi_p')),
                T.load(T.sym('z'), C(0)): T.sym('z_p')}
        got = {k: T.subst(T.subst(t, {T.lane(1): C(0)}), lane)
               for k, t in got.items()}
        dom['z_p'] = U(XMIN + 1e-3, XMAX - 1e-3)
        # stay between the first and the last node
        dom['rho_p'] = U(.5/case.nr + 1e-3, 1 - .5/case.nr - 1e-3)
        cs, sn = (T.fn(q, T.sym('phi_p')) for q in ('cos', 'sin'))

        def REF(k):
            return T.fn('REF', k, T.sym('z_p'), xp)
        pairs = [('ez', got['ez'], REF(0)),
                 ('focusing along x', got['ex'] - T.sym('c', 'pos')
                  * got['by'], (REF(1) - REF(2))*cs),
                 ('focusing along y', got['ey'] + T.sym('c', 'pos')
                  * got['bx'], (REF(1) - REF(2))*sn)]
        if case.beam or not case.parts:
            pairs += [('ex', got['ex'], REF(1)*cs),
                      ('ey', got['ey'], REF(1)*sn)]
        for nm, a, b in pairs:
            chk.equal('field', '%s: %s' % (tag, nm), W, a, b, domains=dom,
                      defs=ref_defs, nf=False, n=40, tol=1e-6)
        nodes = dict(arrs, NODE=lambda v, k, i, j, sl=solve:
                     sl(v)[int(k)][int(i)][int(j)])
        d = x.meth(f, 'get_openpmd_diagnostics_data', T.sym('time'))
        rho = pick(x, d, 'rho', 'array')
        for i in range(case.nz):
            u = [T.sym('u%d' % j) for j in range(case.nr)]
            a = [x.term(pick(x, rho, TupleV((C(j), C(i)))))
                 for j in range(case.nr)]
            chk.equal('density', '%s: nodes at xi %d' % (tag, i), R,
                      T.add(*[p*q for p, q in zip(u, a)]),
                      T.add(*[p*T.fn('NODE', 3, i, j)
                              for j, p in enumerate(u)]),
                      domains=dom, defs=nodes, nf=False, n=6, tol=1e-6)
        if chis and up > 0:
            prev = cold
            for i in range(case.nz):
                a = chis[-1][i]
                chk.equal('chi', '%s: nodes at xi %d' % (tag, i), W,
                          T.add(*[p*q for p, q in zip(u, a)]),
                          T.add(*[p*T.fn('NODE', 4, i, j)
                                  for j, p in enumerate(u)]), domains=dom,
                          defs=prev, nf=False, n=6, tol=1e-6)
        cold = nodes
        for b, t, n in bs:
            for k in x.COORDS:
                for p in range(n):
                    chk.equal('bunch', '%s: %s of particle %d of bunch%s' % (
                        tag, k, p, t), W, x.term(pick(x, x.attr(b, k),
                                                      C(p))),
                        T.load(T.sym(k + t), C(p)))
        if las is not None and up == case.updates - 1:
            # what the laser would see next
            n = len(chis)
            x.meth(f, 'evolve_properties', x.list())
            for i in range(case.nz if len(chis) > n else 0):
                chk.equal('chi', '%s: nodes at xi %d after it' % (tag, i), W,
                          T.add(*[p*q for p, q in zip(u, chis[-1][i])]),
                          T.add(*[p*T.fn('NODE', 4, i, j)
                                  for j, p in enumerate(u)]), domains=dom,
                          defs=nodes, nf=False, n=6, tol=1e-6)


# ------------------------------------------------------------------ oracle

def at(v, case, sol, k, z, r):
    dr, dz = RMAX/case.nr, (XMAX - XMIN)/(case.nz - 1)
    return ref.bilinear(sol[k], XMIN, dr/2, dz, dr, z, r)


def reference(v, case, up, bs):
    nz, nr = case.nz, case.nr
    c, e, m, eps = (v.t(T.sym(k, 'pos'))
                    for k in ('c', 'e', 'm_e', 'epsilon_0'))
    dr, dz = RMAX/nr, (XMAX - XMIN)/(nz - 1)
    n_p = v.t(T.fn('dens', up*T.sym('dz', 'pos')))
    kp = math.sqrt(n_p*e**2/(eps*m))/c
    E0 = m*c**2*kp/e
    rs = [(j + .5)*dr for j in range(nr)]
    nb = [[0.]*nr for _ in range(nz)]
    for b, t, n in bs:
        q = v.t(T.sym('q' + t))
        parts = []
        for p in range(n):
            X = {k: v.t(T.load(T.sym(k + t), C(p)))
                 for k in ('x', 'y', 'xi', 'w')}
            parts.append((X['xi'], math.hypot(X['x'], X['y']),
                          X['w']*q/e))
        ref.deposit(nb, parts, XMIN, dz, dr, case.shape)
    for i in range(nz):
        for j in range(nr):
            nb[i][j] /= math.pi*dr**2*(2*j + 1)*dz*n_p
    a = [[0.]*nr for _ in range(nz)]
    if case.pol:
        g = {k: v.t(t) for k, t in S.items()}
        for i in range(nz):
            for j in range(nr):
                a[i][j] = abs(ref.gaussian(g, c, XMIN + i*dz, rs[j]))
                if case.pol == 'linear':
                    a[i][j] /= math.sqrt(2)
    psi = [[0.]*nr for _ in range(nz)]
    h = dz*kp
    for j in range(nr):
        p, u = 0., 0.
        for i in range(nz - 1, 0, -1):
            n = nb[i][j] if case.beam else 0.

            def f(p, u, al):
                return u, .5*((1 + al**2)/(1 + p)**2 - 1) - n
            mid = .5*(a[i][j] + a[i-1][j])
            k1 = f(p, u, a[i][j])
            k2 = f(p + h/2*k1[0], u + h/2*k1[1], mid)
            k3 = f(p + h/2*k2[0], u + h/2*k2[1], mid)
            k4 = f(p + h*k3[0], u + h*k3[1], a[i-1][j])
            p += h/6*(k1[0] + 2*k2[0] + 2*k3[0] + k4[0])
            u += h/6*(k1[1] + 2*k2[1] + 2*k3[1] + k4[1])
            psi[i-1][j] = p
    dxi = [ref.gradient(col, dz*kp) for col in ref.columns(psi)]
    ez = [[-dxi[j][i] for j in range(nr)] for i in range(nz)]
    wr = [[-q for q in ref.gradient(row, dr*kp)] for row in psi]
    dez = [ref.gradient(col, dz*kp) for col in ref.columns(ez)]
    er, bt, rho, chi = ([[0.]*nr for _ in range(nz)] for _ in range(4))
    for i in range(nz):
        acc = 0.
        for j in range(nr):
            P = 1 + psi[i][j]
            gam = (1 + a[i][j]**2 + P**2)/(2*P)
            uz = (1 + a[i][j]**2 - P**2)/(2*P)
            rho[i][j] = -e*n_p*gam/P
            chi[i][j] = 1/P
            src = (dez[j][i] - uz/P + nb[i][j])*rs[j]*kp
            b = (acc + src/2)*dr/rs[j]
            acc += src
            bt[i][j] = b*E0
            er[i][j] = (wr[i][j] + b)*E0
    return [[[q*E0 for q in row] for row in ez], er, bt, rho, chi]

