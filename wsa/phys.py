"""Reference expressions shared by the checks (the oracle side)."""

from . import terms as T
from .terms import C, HALF

P = ('px', 'py', 'pz')
R = ('x', 'y', 'xi')
F = ('ex', 'ey', 'ez', 'bx', 'by', 'bz')
W = ('w', 'x', 'y', 'xi', 'px', 'py', 'pz')
c = T.sym('c', 'pos')
e = T.sym('e', 'pos')
m_e = T.sym('m_e', 'pos')
eps0 = T.sym('epsilon_0', 'pos')
PI = T.PI
L1, L2, L3 = T.lane(1), T.lane(2), T.lane(3)


def sqrt(a):
    return T.power(C(a), HALF)


def gamma(px, py, pz):
    return sqrt(1 + px**2 + py**2 + pz**2)


def cross(a, b):
    return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2],
            a[0]*b[1] - a[1]*b[0]]


def coords(tag='', names=W):
    return {k: T.load(T.sym(k + tag), L1) for k in names}


def velocity(p):
    """Velocity in the frame co-moving at c, of momenta (dict)."""
    g = gamma(p['px'], p['py'], p['pz'])
    return {'x': c*p['px']/g, 'y': c*p['py']/g, 'xi': c*p['pz']/g - c}


def wp2(n):
    return n * e**2 / (m_e*eps0)
