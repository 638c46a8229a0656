"""Transfer map of a magnet, extracted from the terms of TMElement.track."""

import math
import random

from . import terms as T
from .terms import C
from .core import Ctx
from .phys import L1, sqrt

N = T.sym('n', 'int')
U = [T.load(T.sym('u%d' % (i+1)), L1) for i in range(6)]
LEN, TH, K1, K2 = (T.sym(k) for k in ('L', 'theta', 'k1', 'k2'))
G = T.sym('g_ref')
BETA = sqrt(1 - 1/G**2)
P0 = sqrt(G**2 - 1)


def arrays(x, terms):
    return [x.I.arr(x.st, (N,), t) for t in terms]


def to_bunch(x, u, theta_ref=None, x_ref=None, **kw):
    """Bunch with the magnet-frame coordinates u = (x, x', y, y', tau, dp),
    entering along the reference angle theta_ref."""
    px, py = u[1]*P0, u[3]*P0
    g = G*(1 + u[5]*BETA)
    pz = sqrt(g**2 - 1 - px**2 - py**2)
    xx, xi = u[0], -u[4]
    if theta_ref is not None:
        cs, sn = T.fn('cos', theta_ref), T.fn('sin', theta_ref)
        xx, xi = cs*xx + sn*xi, -sn*xx + cs*xi
        px, pz = cs*px + sn*pz, -sn*px + cs*pz
        xx = xx + x_ref
    c = dict(zip(('x', 'y', 'xi', 'px', 'py', 'pz'),
                 arrays(x, [xx, u[2], xi, px, py, pz])))
    d = dict(w=x.arr('w', N), q_species=T.sym('q'), m_species=T.sym('m'),
             name='bunch', prop_distance=T.sym('prop'))
    d.update(c)
    d.update(kw)
    b = x.call('wake_t:ParticleBunch', **d)
    if theta_ref is not None:
        x.set(b, 'theta_ref', theta_ref)
        x.set(b, 'x_ref', x_ref)
    return b


def from_bunch(x, b):
    """Magnet-frame coordinates of a bunch, along its reference axis."""
    g = {k: C(x.term(x.attr(b, k))) for k in
         ('x', 'y', 'xi', 'px', 'py', 'pz')}
    th, xr = C(x.attr(b, 'theta_ref')), C(x.attr(b, 'x_ref'))
    cs, sn = T.fn('cos', th), T.fn('sin', th)
    xx = g['x'] - xr
    xx, xi = cs*xx - sn*g['xi'], sn*xx + cs*g['xi']
    px, pz = cs*g['px'] - sn*g['pz'], sn*g['px'] + cs*g['pz']
    gam = sqrt(1 + px**2 + g['py']**2 + pz**2)
    return [xx, px/P0, g['y'], g['py']/P0, -xi, (gam - G)/(G*BETA)]


def track(x, cls='TMElement', order=2, quiet=True, bunch=None, el=None,
          **par):
    """(element, bunch, output list) after tracking."""
    if el is None:
        el = x.call('wake_t.beamline_elements:' + cls, gamma_ref=G,
                    length=LEN, order=order, **par)
    b = bunch or to_bunch(x, U)
    out = x.meth(el, 'track', b, show_progress_bar=not quiet)
    return el, b, out


class Map:
    """Numerical valuation of a symbolic map u -> f(u)."""

    def __init__(self, terms, params):
        self.f, self.params = terms, params

    def at(self, pt):
        dom = dict(self.params)
        defs = {}
        for i in range(6):
            defs['u%d' % (i+1)] = (lambda j: lambda v, *a: pt[j])(i)
        v = T.Valuation('opt', dom, defs)
        return [v.t(t) for t in self.f]

    def coefficients(self, amp=1/16.):
        """First and second order coefficients (symmetric in the last two
        indices) of a map that is a quadratic polynomial."""
        e = [[0.]*6 for _ in range(6)]
        for i in range(6):
            e[i][i] = amp
        o = self.at([0.]*6)
        fp = [self.at(v) for v in e]
        fm = [self.at([-a for a in v]) for v in e]
        R = [[(fp[j][i] - fm[j][i])/(2*amp) for j in range(6)]
             for i in range(6)]
        Q = [[[0.]*6 for _ in range(6)] for _ in range(6)]
        for j in range(6):
            for i in range(6):
                Q[i][j][j] = (fp[j][i] + fm[j][i] - 2*o[i])/(2*amp**2)
        for j in range(6):
            for k in range(j):
                pp, pm, mp, mm = (self.at([u*a + v*b for a, b in
                                           zip(e[j], e[k])])
                                  for u in (1, -1) for v in (1, -1))
                for i in range(6):
                    Q[i][j][k] = Q[i][k][j] = (
                        pp[i] - pm[i] - mp[i] + mm[i])/(8*amp**2)
        return o, R, Q


def generator(h, k1, k2, g):
    """A, B of du/ds = A u + B(u,u): equations of motion in a sector
    magnet of curvature h, from the second-order Hamiltonian (u = x, px/p0,
    y, py/p0, tau, dE/(p0 c))."""
    ig2 = 1/g**2
    b = math.sqrt(1 - ig2)
    A = [[0.]*6 for _ in range(6)]
    A[0][1] = A[2][3] = 1.
    A[1][0] = -(k1 + h*h)
    A[3][2] = k1
    A[1][5] = h/b
    A[4][0] = h/b
    A[4][5] = -ig2/b**2
    B = {}

    def put(i, j, k, v):
        B[i, j, k] = B.get((i, j, k), 0.) + v
    put(0, 0, 1, h)
    put(0, 1, 5, -1/b)
    put(1, 0, 0, -(k2/2 + h*k1))
    put(1, 1, 1, -h/2)
    put(1, 2, 2, (k2 + h*k1)/2)
    put(1, 3, 3, -h/2)
    put(1, 5, 5, -h*ig2/(2*b*b))
    put(2, 0, 3, h)
    put(2, 3, 5, -1/b)
    put(3, 0, 2, k2 + h*k1)
    put(4, 0, 5, -h*ig2/b**2)
    put(4, 1, 1, 1/(2*b))
    put(4, 3, 3, 1/(2*b))
    put(4, 5, 5, 1.5*ig2/b**3)
    return A, B


def flow(L, h, k1, k2, g, n=60):
    """Reference first and second order coefficients of the flow."""
    A, B = generator(h, k1, k2, g)
    nzA = [(i, j, A[i][j]) for i in range(6) for j in range(6) if A[i][j]]

    def rhs(R, Q):
        dR = [[0.]*6 for _ in range(6)]
        dQ = [[[0.]*6 for _ in range(6)] for _ in range(6)]
        for i, j, a in nzA:
            for k in range(6):
                dR[i][k] += a*R[j][k]
                for m in range(6):
                    dQ[i][k][m] += a*Q[j][k][m]
        for (i, j, k), b in B.items():
            for m in range(6):
                for p in range(6):
                    dQ[i][m][p] += b/2*(R[j][m]*R[k][p] + R[j][p]*R[k][m])
        return dR, dQ

    def axpy(R, Q, s, dR, dQ):
        return ([[R[i][j] + s*dR[i][j] for j in range(6)] for i in range(6)],
                [[[Q[i][j][k] + s*dQ[i][j][k] for k in range(6)]
                  for j in range(6)] for i in range(6)])
    R = [[float(i == j) for j in range(6)] for i in range(6)]
    Q = [[[0.]*6 for _ in range(6)] for _ in range(6)]
    d = L/n
    for _ in range(n):
        k1_ = rhs(R, Q)
        k2_ = rhs(*axpy(R, Q, d/2, *k1_))
        k3_ = rhs(*axpy(R, Q, d/2, *k2_))
        k4_ = rhs(*axpy(R, Q, d, *k3_))
        for w, kk in ((1, k1_), (2, k2_), (2, k3_), (1, k4_)):
            R, Q = axpy(R, Q, w*d/6, *kk)
    return R, Q


def symplectic_defect(R, Q):
    """Entries violating the symplectic condition to second order."""
    S = [[0.]*6 for _ in range(6)]
    for a, s in ((0, 1.), (2, 1.), (4, -1.)):
        S[a][a+1], S[a+1][a] = s, -s

    def mul(X, Y):
        return [[sum(X[i][k]*Y[k][j] for k in range(6)) for j in range(6)]
                for i in range(6)]

    def tr(X):
        return [list(r) for r in zip(*X)]
    M = mul(tr(R), mul(S, R))
    first = [(i+1, j+1, M[i][j] - S[i][j]) for i in range(6)
             for j in range(6) if abs(M[i][j] - S[i][j]) > 1e-6]
    second = []
    for k in range(6):
        J = [[2*Q[i][j][k] for j in range(6)] for i in range(6)]
        M = mul(tr(R), mul(S, J))
        D = [[M[i][j] - M[j][i] for j in range(6)] for i in range(6)]
        second += [(i+1, j+1, k+1, D[i][j]) for i in range(6)
                   for j in range(i) if abs(D[i][j]) > 1e-5]
    return first, second


def parameter_sets(seed, n):
    """Magnet parameters: every element type, both signs of every strength,
    and the degenerate cases of the formulas."""
    g = random.Random('optics%s' % seed)
    out = []

    def s(a, b):
        return g.choice((-1, 1))*g.uniform(a, b)
    for _ in range(n):
        gr = g.uniform(1.8, 4)
        L = g.uniform(.4, 1.2)
        out += [('Drift', dict(L=L, theta=0., k1=0., k2=0., g_ref=gr)),
                ('Dipole', dict(L=L, theta=s(.1, .6), k1=0., k2=0.,
                                g_ref=gr)),
                ('Quadrupole', dict(L=L, theta=0., k1=s(.5, 3.), k2=0.,
                                    g_ref=gr)),
                ('Sextupole', dict(L=L, theta=0., k1=0., k2=s(.5, 4.),
                                   g_ref=gr)),
                ('TMElement', dict(L=L, theta=s(.1, .6), k1=s(.5, 3.),
                                   k2=s(.5, 4.), g_ref=gr)),
                ('TMElement', dict(L=L, theta=s(.1, .6), k1=0.,
                                   k2=s(.5, 4.), g_ref=gr)),
                ('TMElement', dict(L=L, theta=0., k1=s(.5, 3.),
                                   k2=s(.5, 4.), g_ref=gr)),
                # no net focusing in x
                ('TMElement', dict(L=.5, theta=.25, k1=-.25, k2=s(.5, 4.),
                                   g_ref=gr))]
    return out


PAR = {'Drift': {}, 'Dipole': dict(theta=TH), 'Quadrupole': dict(k1=K1),
       'Sextupole': dict(k2=K2),
       'TMElement': dict(theta=TH, k1=K1, k2=K2)}
