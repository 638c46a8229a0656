"""Laser envelope solver: the discretised envelope equation."""

import cmath
import math

from ..core import T, C, TupleV
from .c24 import S

PROP = dict(
    id='C25', title='Laser evolution solves the envelope equation',
    statement='evolve(chi, n_p) advances the complex envelope by exactly dt, '
    'in nt equal substeps, with the second-order discretisation of '
    '(lap_r + 2i k0/kp d_t + 2 d_xi d_t - d_t^2) a = chi a on the nodes of '
    'the grid, lengths being normalised to the local plasma density n_p and '
    'the given susceptibility: the first step (and the first one after a '
    'change of time step) without the second time derivative and from the '
    'current envelope only, later steps centred on the current envelope, '
    'with the longitudinal derivative corrected by the on-axis phase if '
    'use_phase. The envelope vanishes outside the box. On a subgrid the '
    'susceptibility and the resulting envelope are mapped bilinearly between '
    'the grids.',
    over=['inputs', 'configurations', 'histories'],
    text='all envelopes, susceptibilities, densities, time steps and phases; '
    'grids of up to 8 x 6 nodes, up to 3 substeps and 4 successive steps '
    '(loops of the solver unrolled)',
    why='the tests follow the spot size of Gaussian pulses in vacuum and in '
    'parabolic channels within a tolerance, with one configuration each',
    files=['wake_t/physics_models/laser/laser_pulse.py',
           'wake_t/physics_models/laser/envelope_solver.py',
           'wake_t/physics_models/laser/envelope_solver_non_centered.py',
           'wake_t/physics_models/laser/tdma.py',
           'wake_t/physics_models/laser/utils.py',
           'wake_t/fields/interpolation.py'],
    mechanism=[('evolve', 'wake_t/physics_models/laser/laser_pulse.py'
                ':LaserPulse.evolve')])

LP = 'wake_t/physics_models/laser/laser_pulse.py:LaserPulse.'
DOM = {'xi_min': lambda g: -1 + .3*g.random(), 'xi_max': lambda g:
       .5 + .3*g.random(), 'r_max': lambda g: .8 + .4*g.random(),
       'xi_c': lambda g: g.uniform(-.5, .2), 'w_0': lambda g:
       g.uniform(.5, .9), 'z_foc': lambda g: g.uniform(-3, 3)}
RNG = [T.sym('xi_min'), T.sym('xi_max'), T.sym('r_max', 'pos')]


class Case:
    """A history: grids, substeps, and a list of (dt name, n evolves)."""

    def __init__(self, nz, nr, nt=1, phase=True, sub=(None, None),
                 hist=(('dt', 2),)):
        self.nz, self.nr, self.nt, self.phase = nz, nr, nt, phase
        self.sub, self.hist = sub, hist

    def __str__(self):
        return 'grid %dx%d%s, nt=%s, use_phase=%s, steps %s' % (
            self.nz, self.nr, '' if self.sub == (None, None) else
            ' subgrid %sx%s' % self.sub, self.nt, self.phase,
            ' '.join('%d*%s' % (n, d) for d, n in self.hist))


CASES = (
    [Case(4, 3, 1, ph) for ph in (True, False)] +
    [Case(4, 3, nt, ph) for nt in (2, 3) for ph in (True, False)] +
    [Case(3, 2), Case(5, 4), Case(3, 4, hist=(('dt', 4),)),
     Case(3, 3, 2, hist=(('dt', 1), ('dt2', 2))),
     Case(3, 3, hist=(('dt', 2), ('dt', 1), ('dt2', 2))),
     Case(4, 3, sub=(6, None)), Case(4, 3, sub=(None, 5)),
     Case(5, 3, 2, sub=(7, 5)), Case(6, 5, sub=(4, 3)),
     Case(8, 6, hist=(('dt', 3),)), Case(8, 6, 2, False, (5, 9)),
     Case(4, 3, 1, True, (6, 4), (('dt', 1), ('dt2', 1), ('dt', 2)))])


def run(chk):
    chk.rules = {
        'initial': 'get_envelope() after initialisation: the pulse at the '
        'nodes of the grid (interpolated from the subgrid)',
        'step': 'value number of every node of get_envelope() after each '
        'evolve against the solution of the discretised equation'}
    chk.need('initial', 70)
    chk.need('step', 150)
    chk.notes.append('grid sizes and numbers of steps are those of the '
                     'listed instances; contents are arbitrary')
    for case in CASES:
        chk.part('step', str(case), one, chk, case)


def setup(x, las, case, dt, **kw):
    kw = dict(dict(subgrid_nz=case.sub[0], subgrid_nr=case.sub[1],
                   use_phase=case.phase), **kw)
    x.meth(las, 'set_envelope_solver_params', *(RNG + [
        case.nz, case.nr, T.sym(dt, 'pos'), case.nt]), **kw)


def node(x, a, j, k):
    return x.term(x.I.getitem(x.st, a, TupleV((C(j), C(k))), None))


def one(chk, case):
    x = chk.ctx()
    las = x.call('wake_t:LaguerreGaussPulse', p=1, **S)
    cache = {}

    def ref(v, i, j, k):
        if v.seed not in cache:
            cache[v.seed] = reference(v, case)
        return cache[v.seed][int(i)][int(j)][int(k)]
    i = 0

    def compare(rule, tag, w):
        a = x.meth(las, 'get_envelope')
        sh = x.shape(a)
        if sh is not None and len(sh) == 2:
            for s, n in zip(sh, (case.nz, case.nr)):
                chk.equal(rule, tag + ', size', w, s, C(n))
        # rows of nodes at once, by a random linear combination
        for j in range(case.nz):
            u = [T.sym('u%d' % k) for k in range(case.nr)]
            chk.equal(rule, '%s, nodes at xi %d' % (tag, j), w,
                      T.add(*[y*node(x, a, j, k) for k, y in enumerate(u)]),
                      T.add(*[y*T.fn('REF', i, j, k)
                              for k, y in enumerate(u)]),
                      domains=DOM, defs={'REF': ref}, nf=False, n=6,
                      tol=1e-6)
    for dt, n in case.hist:
        setup(x, las, case, dt)
        x.meth(las, 'initialize_envelope')
        if i == 0:
            compare('initial', str(case), LP + 'initialize_envelope')
        for _ in range(n):
            x.meth(las, 'evolve', x.arr('chi%d' % i, case.nz, case.nr),
                   T.sym('n_p%d' % i, 'pos'))
            i += 1
            compare('step', '%s, evolve %d' % (case, i), LP + 'evolve')


# ------------------------------------------------------------------ oracle

def pulse(v, z, r):
    g = {k: v.t(t) for k, t in S.items()}
    c = v.t(T.sym('c', 'pos'))
    zr = math.pi*g['w_0']**2/g['l_0']
    D = 1 + 1j*(z - g['xi_c'] - g['z_foc'])/zr
    u = 2*r**2/(g['w_0']**2*abs(D)**2)
    return (g['a_0']/D*cmath.exp(
        -1j*g['cep_phase'] - r**2/(g['w_0']**2*D)
        - 2*math.log(2)*(z - g['xi_c'])**2/(c*g['tau'])**2)
        * cmath.exp(-2j*cmath.phase(D))*(1 - u))


def solve(A, b):
    """Gaussian elimination."""
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda q: abs(M[q][i]))
        M[i], M[p] = M[p], M[i]
        for q in range(n):
            if q != i and M[q][i] != 0:
                f = M[q][i]/M[i][i]
                M[q] = [y - f*z for y, z in zip(M[q], M[i])]
    return [M[i][n]/M[i][i] for i in range(n)]


def wrap(d):
    return d - 2*math.pi*math.floor((d + math.pi)/(2*math.pi))


def advance(a, old, chi, nz, nr, dz, dr, dt, k, phase):
    """One step; old is None for the non-centred scheme.

    The unknown f = a_new - a_prev; a_prev is old, or a."""
    prev = a if old is None else old
    two = dt if old is None else 2*dt
    zero = [0j]*nr
    get = lambda u, j: u[j] if j < nz else zero      # noqa: E731
    new = [None]*nz
    for j in range(nz - 1, -1, -1):
        th = [cmath.phase(get(a, j + i)[0]) if get(a, j + i)[0] != 0
              else 0. for i in range(3)]
        t1, t2 = (wrap(th[1] - th[0]), wrap(th[2] - th[1])) if phase \
            else (0., 0.)
        D = (1.5*t1 - .5*t2)/dz
        # coefficient of (a_new - a_prev)_j from the time derivatives
        cj = (2j*k + 2*(-1.5/dz + 1j*D))/two
        A = [[0j]*nr for _ in range(nr)]
        b = [0j]*nr
        for m in range(nr):
            A[m][m] += cj
            b[m] += cj*prev[j][m]
            f1 = get(new, j + 1)[m] - get(prev, j + 1)[m]
            f2 = get(new, j + 2)[m] - get(prev, j + 2)[m]
            b[m] -= 2/two*(2*cmath.exp(-1j*t1)*f1
                           - .5*cmath.exp(-1j*(t1 + t2))*f2)/dz
            # half of (laplacian - chi) at both times
            row = {m: -2/dr**2 - chi[j][m]}
            if m > 0:
                row[m-1] = (1 - .5/(m + .5))/dr**2
            if m + 1 < nr:
                row[m+1] = (1 + .5/(m + .5))/dr**2
            for q, y in row.items():
                A[m][q] += y/2
                b[m] -= y/2*prev[j][q]
            if old is not None:
                A[m][m] -= 1/dt**2
                b[m] -= (2*a[j][m] - old[j][m])/dt**2
        new[j] = solve(A, b)
    return new


def bilinear(f, nz, nr, z0, r0, dz, dr, zs, rs):
    """Linear interpolation, linearly extrapolated in r."""
    out = []
    for z in zs:
        i = min(max(int(math.floor((z - z0)/dz + 1e-9)), 0), nz - 2)
        u = (z - z0)/dz - i
        row = []
        for r in rs:
            j = min(max(int(math.floor((r - r0)/dr + 1e-9)), 0), nr - 2)
            w = (r - r0)/dr - j
            row.append((1-u)*((1-w)*f[i][j] + w*f[i][j+1])
                       + u*((1-w)*f[i+1][j] + w*f[i+1][j+1]))
        out.append(row)
    return out


def grid(z0, z1, rm, nz, nr):
    dz, dr = (z1 - z0)/(nz - 1), rm/nr
    return ([z0 + i*dz for i in range(nz)], [(k + .5)*dr for k in range(nr)],
            dz, dr)


def reference(v, case):
    z0, z1, rm = (v.t(t) for t in RNG)
    c, e, me, e0 = (v.t(T.sym(s, 'pos')) for s in (
        'c', 'e', 'm_e', 'epsilon_0'))
    l0 = v.t(S['l_0'])
    sub = case.sub != (None, None)
    nz, nr = (case.sub[0] or case.nz, case.sub[1] or case.nr)
    zg, rg, dzg, drg = grid(z0, z1, rm, case.nz, case.nr)
    zs, rs, dzs, drs = grid(z0, z1, rm, nz, nr)

    def public(a):
        if not sub:
            return [list(r) for r in a]
        return bilinear(a, nz, nr, z0, rs[0], dzs, drs, zg, rg)
    a = [[pulse(v, z, r) for r in rs] for z in zs]
    old = None
    out = [public(a)]
    i = 0
    last = None
    for name, n in case.hist:
        dt = v.t(T.sym(name, 'pos'))/case.nt
        centred = last == dt and i > 0
        last = dt
        for _ in range(n):
            chi = [[v.t(T.load(T.sym('chi%d' % i), C(j), C(k)))
                    for k in range(case.nr)] for j in range(case.nz)]
            if sub:
                chi = bilinear(chi, case.nz, case.nr, z0, rg[0], dzg, drg,
                               zs, rs)
            kp = math.sqrt(v.t(T.sym('n_p%d' % i, 'pos'))*e**2/(me*e0))/c
            for _ in range(case.nt):
                new = advance(a, old if centred else None, chi, nz, nr,
                              dzs*kp, drs*kp, dt*c*kp,
                              2*math.pi/l0/kp, case.phase)
                a, old = new, a
            centred = True
            i += 1
            out.append(public(a))
    return out
