"""Phase-space representations of a bunch are inverse to each other."""

from ..core import T, C
from ..phys import L1, gamma, sqrt

PROP = dict(
    id='C13', title='Phase-space representations of a bunch agree with each '
    'other',
    statement='Every way of reading the phase space of a bunch returns the '
    'same particles as its attributes: setting the phase space or creating '
    'a bunch from the standard, charge-carrying or alternative matrix that '
    'another bunch returned reproduces its coordinates, momenta and weights; '
    'macroparticle charges are weight times species charge; and '
    'repositioning a bunch moves only its weighted mean xi, exactly to the '
    'requested value.',
    over=['inputs'],
    text='every bunch with positive weights and forward momenta, of any '
    'species charge',
    why='the tests read single columns of electron bunches; no test feeds a '
    'matrix back, uses another species or a wide energy spread',
    files=['wake_t/particles/particle_bunch.py',
           'wake_t/utilities/other.py'],
    mechanism=[('alternative matrix', 'wake_t/particles/particle_bunch.py:'
                'ParticleBunch.get_alternative_6D_matrix'),
               ('constructor from matrix',
                'wake_t/particles/particle_bunch.py:'
                'ParticleBunch.set_phase_space_from_alternative_matrix')])

W = ('w', 'x', 'y', 'xi', 'px', 'py', 'pz')
V = {k: T.load(T.sym(k), L1) for k in W}
N = T.sym('n', 'int')


def defs():
    """Forward moving particles with positive weights."""
    return {'pz': lambda v, *i: 3 + 2*T._u('pz', v.seed, *i),
            'w': lambda v, *i: .5 + T._u('w', v.seed, *i),
            'px': lambda v, *i: T._u('px', v.seed, *i) - .5,
            'py': lambda v, *i: T._u('py', v.seed, *i) - .5}


def run(chk):
    chk.rules = {
        'round trip': 'coordinates written from a matrix that a bunch '
        'returned are value-numbered to the original coordinates',
        'rows': 'the rows of the matrices are the documented quantities',
        'charge': 'q = w*q_species, and setting it restores the weights',
        'reposition': 'after reposition_xi the weighted mean of xi is the '
        'requested one and all other coordinates are the initial ones',
    }
    chk.need('round trip', 35)
    chk.need('rows', 20)
    for f in (matrix, alternative, charge_matrix, charge, reposition,
              setps):
        chk.part('round trip', f.__name__, f, chk)


def coords(chk, x, b, rule, tag, w, names=W):
    for k in names:
        chk.equal(rule, '%s: %s' % (tag, k), w, x.term(x.attr(b, k)), V[k],
                  defs=defs())


def row(x, m, i):
    return x.term(x.I.getitem(x.st, m, C(i), None))


def matrix(chk):
    x = chk.ctx()
    b = x.bunch()
    m = x.meth(b, 'get_6D_matrix')
    w = 'wake_t:ParticleBunch.get_6D_matrix'
    for i, k in enumerate(('x', 'px', 'y', 'py', 'xi', 'pz')):
        chk.equal('rows', 'row %d is %s' % (i, k), w, row(x, m, i), V[k])
    b2 = x.call('wake_t:ParticleBunch', x.attr(b, 'w'), bunch_matrix=m)
    coords(chk, x, b2, 'round trip', 'ParticleBunch(bunch_matrix=...)', w)
    b3 = x.bunch('2')
    x.meth(b3, 'set_phase_space_from_matrix', m)
    coords(chk, x, b3, 'round trip', 'set_phase_space_from_matrix', w, W[1:])
    mq = x.meth(b, 'get_6D_matrix_with_charge')
    for i, k in enumerate(('x', 'px', 'y', 'py', 'xi', 'pz')):
        chk.equal('rows', 'with charge: row %d is %s' % (i, k), w,
                  row(x, mq, i), V[k])
    chk.equal('rows', 'with charge: row 6 is q', w, row(x, mq, 6),
              V['w']*T.sym('q'))


def alternative(chk):
    x = chk.ctx()
    b = x.bunch()
    r = x.meth(b, 'get_alternative_6D_matrix')
    w = 'wake_t:ParticleBunch.get_alternative_6D_matrix'
    m, g = r.items
    gam = gamma(V['px'], V['py'], V['pz'])
    p = sqrt(gam**2 - 1)
    for i, (k, v) in enumerate((('x', V['x']), ("x'", V['px']/p),
                                ('y', V['y']), ("y'", V['py']/p),
                                ('xi', V['xi']), ('dp', gam/g - 1))):
        chk.equal('rows', 'alternative: row %d is %s' % (i, k), w,
                  row(x, m, i), v, defs=defs())
    bv = T.sym('i', 'int')
    s = {L1: bv}
    chk.equal('rows', 'alternative: reference is the mean energy', w, g,
              T.msum(bv, T.subst(gam*V['w'], s), N) /
              T.msum(bv, T.subst(V['w'], s), N), defs=defs())
    b2 = x.call('wake_t:ParticleBunch', x.attr(b, 'w'), bunch_matrix=m,
                matrix_type='alternative', gamma_ref=g)
    coords(chk, x, b2, 'round trip',
           "ParticleBunch(matrix_type='alternative')", w)
    b3 = x.bunch('2')
    x.meth(b3, 'set_phase_space_from_alternative_matrix', m, g)
    coords(chk, x, b3, 'round trip',
           'set_phase_space_from_alternative_matrix', w, W[1:])


def charge_matrix(chk):
    x = chk.ctx()
    b = x.bunch()
    m = x.meth(b, 'get_bunch_matrix')
    w = 'wake_t:ParticleBunch.get_bunch_matrix'
    for i, k in enumerate(W[1:]):
        chk.equal('rows', 'bunch matrix: row %d is %s' % (i, k), w,
                  row(x, m, i), V[k])
    chk.equal('rows', 'bunch matrix: row 6 is q', w, row(x, m, 6),
              V['w']*T.sym('q'))
    b2 = x.call('wake_t:ParticleBunch', x.arr('w2', N),
                q_species=T.sym('q'))
    x.meth(b2, 'set_bunch_matrix', m)
    coords(chk, x, b2, 'round trip', 'set_bunch_matrix', w)


def charge(chk):
    x = chk.ctx()
    b = x.bunch()
    w = 'wake_t:ParticleBunch.q'
    q = x.attr(b, 'q')
    chk.equal('charge', 'q', w, x.term(q), V['w']*T.sym('q'))
    x.set(b, 'q', q)
    coords(chk, x, b, 'charge', 'b.q = b.q', w)
    x.set(b, 'q', x.arr('qnew', N))
    chk.equal('charge', 'weights of given charges', w, x.term(x.attr(b, 'w')),
              T.fn('abs', T.load(T.sym('qnew'), L1)/T.sym('q')))


def reposition(chk):
    x = chk.ctx()
    b = x.bunch()
    x.meth(b, 'reposition_xi', T.sym('xi_c'))
    w = 'wake_t:ParticleBunch.reposition_xi'
    coords(chk, x, b, 'reposition', 'reposition_xi', w,
           [k for k in W if k != 'xi'])
    bv = T.sym('i', 'int')

    def tot(t):
        return T.msum(bv, T.subst(t, {L1: bv}), N)
    mean = tot(V['w']*V['xi'])/tot(V['w'])
    chk.equal('reposition', 'xi', w, x.term(x.attr(b, 'xi')),
              V['xi'] + T.sym('xi_c') - mean, defs=defs())


def setps(chk):
    x = chk.ctx()
    b, b2 = x.bunch(), x.bunch('2')
    x.meth(b2, 'set_phase_space', *[x.attr(b, k) for k in W[1:]])
    coords(chk, x, b2, 'round trip', 'set_phase_space',
           'wake_t:ParticleBunch.set_phase_space', W[1:])
    x.meth(b, 'increase_prop_distance', T.sym('d'))
    chk.equal('round trip', 'increase_prop_distance',
              'wake_t:ParticleBunch.increase_prop_distance',
              x.attr(b, 'prop_distance'), T.sym('prop') + T.sym('d'))
