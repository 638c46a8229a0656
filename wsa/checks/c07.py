"""Deposition of particles on the (xi, r) grid."""

from ..core import T, C, taint

PROP = dict(
    id='C07', title='Deposition on the grid conserves weight and position',
    statement='Each particle inside the grid deposits exactly its weight on '
    'the nodes of the grid (none on the guard cells, none twice), whatever '
    'its position, also close to the axis and to the boundaries; a particle '
    'outside deposits nothing. Away from the boundaries the weight is '
    'shared among nodes by the linear or cubic spline shape, whose centre '
    'of mass is the position of the particle. A uniform density of '
    'particles with the volume-corrected shapes gives the same density on '
    'every node (for the cubic shape, up to two cells from r_max).',
    over=['inputs', 'configurations'],
    text='every particle position and weight, grid geometry, and particle '
    'shape, for bunches and for the plasma column',
    why='the tests compare beam parameters after tracking in a few '
    'simulations; particles on boundary cells, at the axis or in the other '
    'particle shape have no visible effect there',
    files=['wake_t/particles/deposition.py', 'wake_t/physics_models/'
           'plasma_wakefields/qs_rz_baxevanis/deposition.py'],
    mechanism=[('bunch deposition', 'wake_t/particles/deposition.py:'
                'deposit_3d_distribution'),
               ('plasma deposition', 'wake_t/physics_models/'
                'plasma_wakefields/qs_rz_baxevanis/deposition.py:'
                'deposit_plasma_particles')])

N, NZ, NR = (T.sym(k, 'int') for k in ('n', 'nz', 'nr'))
ZMIN, DZ, DR = T.sym('zmin'), T.sym('dz', 'pos'), T.sym('dr', 'pos')
JZ, JR = T.sym('jz', 'int'), T.sym('jr', 'int')
ZC, RC = T.sym('zc'), T.sym('rc')     # position in cells


def run(chk):
    chk.rules = {
        'weight': 'the increments stored on nodes inside the grid sum up to '
        'the weight of the particle',
        'guard': 'no increment is stored outside the grid, and every index '
        'lies in the array',
        'outside': 'a particle outside the grid stores nothing',
        'shape': 'the increment on node (j, k) is the weight times the '
        'spline shape in z and r',
        'centroid': 'the first moment of the increments is the position',
        'uniform': 'with the volume correction the integral of the '
        'increments over a uniform density is the volume of the cell',
    }
    for r, n in (('weight', 36), ('guard', 36), ('outside', 12),
                 ('shape', 4), ('centroid', 8), ('uniform', 2)):
        chk.need(r, n)
    for shape in ('linear', 'cubic'):
        for ruyten in (False, True):
            chk.part('weight', 'bunch %s' % shape, bunch, chk, shape, ruyten)
        chk.part('weight', 'plasma %s' % shape, plasma, chk, shape)


def bunch(chk, shape, ruyten):
    x = chk.ctx()
    a = x.arr('dep', NZ + 4, NR + 4)
    f = x.soft('wake_t.particles.deposition:deposit_3d_distribution')
    x.call(f, x.arr('z', N), x.arr('x', N), x.arr('y', N), x.arr('w', N),
           ZMIN, DR/2, NZ, NR, DZ, DR, a, p_shape=shape, use_ruyten=ruyten)
    judge(chk, x, a, 'bunch', shape, ruyten,
          'wake_t.particles.deposition:deposit_3d_distribution')


def plasma(chk, shape):
    x = chk.ctx()
    a = x.arr('dep', NZ + 4, NR + 4)
    w = ('wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.'
         'deposition:deposit_plasma_particles')
    f = x.soft(w)
    x.call(f, T.sym('zc'), x.arr('x', N), x.arr('w', N), ZMIN, DR/2, NZ, NR,
           DZ, DR, a, p_shape=shape)
    judge(chk, x, a, 'plasma', shape, False, w)


def increments(x, a):
    """[(guard, iz, ir, increment)] stored by the generic particle."""
    out = []
    for e in x.events('store'):
        if e.d['arr'].id != a.id:
            continue
        idx = e.d['idx']
        if len(idx) != 2 or 'old' not in e.d or e.d['arr'].view:
            return None
        inc = T.sub(e.d['value'], e.d['old'])
        # increments inside summed inner loops are not resolved
        if len(e.loops) != 1:
            return None
        out.append((e.pc, idx[0], idx[1], inc))
    return out


def tot(inc, f):
    return T.add(*[T.ite(T.band(g, f(i, j)[0]), T.mul(v, f(i, j)[1]), C(0))
                   for g, i, j, v in inc])


def inside(i, j):
    return T.band(T.le(C(2), i), T.lt(i, NZ + 2), T.le(C(2), j),
                  T.lt(j, NR + 2))


def u(a, b):
    return lambda g: g.uniform(a, b)


def put(kind, t, zc, rc, two=False):
    """Particle at cell coordinates (zc, rc)."""
    rr = (rc + C(1)/2)*DR
    m = {}
    for s in T.subterms(t):
        if isinstance(s, T.Term) and s.op == 'load' and s.args[0].op == \
                'sym':
            n = s.args[0].args[0]
            if n == 'z':
                m[s] = ZMIN + zc*DZ
            elif n == 'x':
                m[s] = rr*C(3)/5 if two else rr
            elif n == 'y':
                m[s] = rr*C(4)/5 if two else C(0)
            elif n == 'w':
                m[s] = T.sym('wt')
    if kind == 'plasma':
        m[T.sym('zc')] = zc
    return T.subst(t, m)


def judge(chk, x, a, kind, shape, ruyten, w):
    inc = increments(x, a)
    if not inc:
        return chk.und('weight', '%s %s' % (kind, shape), w,
                       'the stores could not be resolved')
    tag = '%s %s%s' % (kind, shape, ' corrected' if ruyten else '')
    W = T.sym('wt')
    one = C(1)
    allin = tot(inc, lambda i, j: (inside(i, j), one))
    absout = T.add(*[T.ite(T.band(g, T.bnot(inside(i, j))),
                           T.fn('abs', v), C(0)) for g, i, j, v in inc])
    oob = T.add(*[T.ite(T.band(g, T.bor(
        T.lt(i, C(0)), T.le(NZ + 4, i), T.lt(j, C(0)), T.le(NR + 4, j))),
        one, C(0)) for g, i, j, v in inc])
    bad = set()
    for g, i, j, v in inc:
        for t in (i, j, v, T.b2t(g)):
            bad |= taint(t, allow=('i~',))
    if bad:
        return chk.und('weight', tag, w, 'depends on unmodelled %s' %
                       sorted(bad)[:4])
    two = kind == 'bunch'
    z = {'interior': (C(3) + T.sym('a'), {}), 'first cell': (T.sym('a'), {}),
         'second cell': (1 + T.sym('a'), {}), 'first node': (C(0), {}),
         'last cell': (NZ - 2 + T.sym('a'), {}),
         'last but one cell': (NZ - 3 + T.sym('a'), {}),
         'last node': (NZ - 1, {})}
    r = {'interior': 3 + T.sym('b'), 'below first node': -T.sym('b')/2,
         'axis': C(-1)/2, 'first node': C(0), 'first cell': T.sym('b'),
         'second node': C(1), 'second cell': 1 + T.sym('b'),
         'last but one cell': NR - 3 + T.sym('b'),
         'last cell': NR - 2 + T.sym('b'), 'last node': NR - 1,
         'half cell at r_max': NR - 1 + T.sym('b')/2}
    dom = dict(nz=lambda g: g.randint(8, 12), nr=lambda g: g.randint(8, 12),
               a=u(.03, .97), b=u(.03, .97))
    pairs = [(p, 'interior') for p in z] + [('interior', q) for q in r
                                            if q != 'interior'] + \
        [(p, q) for p in ('first cell', 'last cell', 'first node')
         for q in ('below first node', 'half cell at r_max')]
    for p, q in pairs:
        zc, rc = z[p][0], r[q]
        if kind == 'plasma' and p != 'interior':
            # the plasma is pushed on the longitudinal nodes
            if 'node' not in p:
                continue
        if kind == 'plasma' and p == 'interior':
            zc = C(4)
        at = '%s: xi in %s, r in %s' % (tag, p, q)
        chk.equal('weight', at, w, put(kind, allin, zc, rc, two), W,
                  domains=dom, n=12)
        chk.equal('guard', at, w, put(kind, absout, zc, rc, two), 0,
                  domains=dom, n=12)
        chk.equal('guard', at + ': index in array', w,
                  put(kind, oob, zc, rc, two), 0, domains=dom, n=12)
    everything = T.add(*[T.ite(g, T.fn('abs', v), C(0))
                         for g, i, j, v in inc])
    for nm, zc, rc in (('ahead', NZ - 1 + T.sym('a'), r['interior']),
                       ('behind', -T.sym('a'), r['interior']),
                       ('beyond r_max', z['interior'][0],
                        NR - C(1)/2 + T.sym('b'))):
        if kind == 'plasma' and nm != 'beyond r_max':
            continue
        chk.equal('outside', '%s: %s' % (tag, nm), w,
                  put(kind, everything, zc, rc, two), 0, domains=dom, n=12)
    zc = C(4) if kind == 'plasma' else z['interior'][0]
    rc = r['interior']
    mz = tot(inc, lambda i, j: (inside(i, j), i - 2))
    chk.equal('centroid', tag + ': xi', w, put(kind, mz, zc, rc, two), W*zc,
              domains=dom, n=12)
    if not ruyten:
        mr = tot(inc, lambda i, j: (inside(i, j), j - 2))
        chk.equal('centroid', tag + ': r', w, put(kind, mr, zc, rc, two),
                  W*rc, domains=dom, n=12)
        node = tot(inc, lambda i, j: (T.band(T.eq(i, JZ + 2),
                                             T.eq(j, JR + 2)), one))
        S = linear if shape == 'linear' else cubic
        chk.equal('shape', tag, w, put(kind, node, zc, rc, two),
                  W*S(zc - JZ)*S(rc - JR), domains=dict(
                      dom, jz=lambda g: g.randint(1, 6),
                      jr=lambda g: g.randint(1, 6)), n=80)
    else:
        chk.part('uniform', tag, uniform, chk, inc, kind, tag, w, shape)


def linear(d):
    d = T.fn('abs', d)
    return T.ite(T.lt(d, C(1)), 1 - d, C(0))


def cubic(d):
    d = T.fn('abs', d)
    return T.ite(T.lt(d, C(1)), C(2)/3 - d**2 + d**3/2,
                 T.ite(T.lt(d, C(2)), (2 - d)**3/6, C(0)))


GAUSS = ((-.861136311594053, .347854845137454),
         (-.339981043584856, .652145154862546),
         (.339981043584856, .652145154862546),
         (.861136311594053, .347854845137454))


def uniform(chk, inc, kind, tag, w, shape):
    node = tot(inc, lambda i, j: (T.eq(j, JR + 2), C(1)))
    node = put(kind, node, C(3) + T.sym('a'), T.sym('rc'))
    nr = 8
    bad = []
    edges = [0.] + [k + .5 for k in range(nr)] + [float(nr)]
    # nodes influenced by r_max are excluded for the cubic shape
    for j in range(nr if shape == 'linear' else nr - 2):
        s = 0.
        for lo, hi in zip(edges[:-1], edges[1:]):
            for p, g in GAUSS:
                r = .5*(lo + hi) + .5*(hi - lo)*p
                v = T.Valuation('unif', dict(
                    nz=9, nr=nr, a=.4, jr=j, wt=1., dr=.7, rc=r - .5))
                s += .5*(hi - lo)*g*r*v.t(node)
        if abs(s - (j + .5)) > 1e-6:
            bad.append((j, s/(j + .5)))
    chk.add('uniform', tag, w, not bad, 'interpretation', None if not bad else
            'density at radial nodes (node, relative density): %s' % bad)
