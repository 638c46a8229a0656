"""Interpolation of gridded wakefields to particles."""

from ..core import T, C, gather, FN, items, density, TRUE
from ..phys import L1

PROP = dict(
    id='C06', title='Gridded wakefields are interpolated bilinearly and stay '
    'finite on axis',
    statement='The wakefields that a particle feels from a gridded (r, xi) '
    'model are the bilinear interpolation of the values on the surrounding '
    'grid nodes, with radial components changing sign across the axis, '
    'projected on x and y with the azimuth of the particle. Outside the grid '
    'they are zero, and a particle exactly on axis gets finite values.',
    over=['inputs', 'configurations'],
    text='every particle position, grid geometry and grid content, for every '
    'gridded wakefield model',
    why='the tests compare final bunch parameters of a few simulations to '
    'stored values with off-axis particles in the interior of one grid each',
    files=['wake_t/fields/rz_wakefield.py',
           'wake_t/particles/interpolation.py'],
    mechanism=[('bilinear gather with axis mirroring',
                'wake_t/particles/interpolation.py:'
                'gather_main_fields_cyl_linear'),
               ('plasma source gather', 'wake_t/particles/interpolation.py:'
                'gather_sources_qs_baxevanis')])

XI, YI, ZI = (T.load(T.sym(k), L1) for k in 'xyz')
NR, NX = T.sym('n_r', 'int'), T.sym('n_xi', 'int')
RM, A, Bm = T.sym('r_max', 'pos'), T.sym('xi_min'), T.sym('xi_max')
IR, IZ = T.sym('ir', 'int'), T.sym('iz', 'int')
TR, TZ, PH = T.sym('theta_r'), T.sym('theta_z'), T.sym('phi')
DR, DX = RM/NR, (Bm - A)/(NX - 1)


def dom(**kw):
    def u(a, b):
        return lambda g: g.uniform(a, b)

    def k(a, b):
        return lambda g: g.randint(a, b)
    d = {'n_r': k(9, 14), 'n_xi': k(9, 14), 'r_max': u(1, 3),
         'xi_min': u(-5, -3), 'xi_max': u(1, 2), 'ir': k(0, 7),
         'iz': k(0, 7), 'theta_r': u(.05, .95), 'theta_z': u(.05, .95),
         'phi': u(0, 6.28)}
    d.update(kw)
    return d


def node(name, iz, ir):
    return T.load(T.sym(name), C(2) + iz, C(2) + ir)


def bil(name, iz, lo, up, sign=1):
    """Bilinear interpolation in the cell (iz, lo..up)."""
    f = [(1 - TZ)*node(name, iz, j) + TZ*node(name, iz + 1, j)
         for j in (lo, up)]
    return sign*(1 - TR)*f[0] + TR*f[1]


def run(chk):
    chk.rules = {
        'bilinear': 'inside the grid each component is the bilinear '
        'interpolation of the four surrounding nodes (nodes at '
        '(j+1/2)*r_max/n_r and xi_min + i*(xi_max-xi_min)/(n_xi-1)), '
        'projected with x/r and y/r',
        'axis': 'below the first radial node the mirrored node value is '
        'used, with inverted sign for the radial and azimuthal components',
        'outside': 'outside the grid nothing is added',
        'finite': 'no division by the radius is reachable with radius 0',
        'sources': 'the plasma source terms are interpolated likewise',
    }
    chk.need('bilinear', 12)
    chk.need('axis', 12)
    chk.need('outside', 36)
    chk.need('finite', 2)
    for model in ('quasistatic_2d', 'cold_fluid_1d'):
        chk.part('bilinear', model, one, chk, model)
    chk.part('sources', 'plasma sources', sources, chk)


def make(x, model):
    p = dict(r_max=RM, xi_min=A, xi_max=Bm, n_r=NR, n_xi=NX)
    if model == 'quasistatic_2d':
        p['ppc'] = T.sym('ppc', 'int')
    s = x.call('wake_t:PlasmaStage', length=T.sym('length', 'pos'),
               density=density(x), wakefield_model=model, **p)
    f = items(x, x.attr(s, 'fields'))[0]
    x.meth(f, 'initialize_properties', x.list())
    for k in ('e_z', 'e_r', 'b_t'):
        x.I.store_all(x.st, x.attr(f, k), x.arr('G' + k, NX + 4, NR + 4),
                      None)
    return f


def at(t, r, z, phi=PH):
    return T.subst(t, {XI: r*T.fn('cos', phi), YI: r*T.fn('sin', phi),
                       ZI: z})


def proj(er, ez, bt):
    cs, sn = T.fn('cos', PH), T.fn('sin', PH)
    return {'ex': er*cs, 'ey': er*sn, 'ez': ez, 'bx': -bt*sn, 'by': bt*cs,
            'bz': C(0)}


def one(chk, model):
    x = chk.ctx()
    f = make(x, model)
    got, _ = gather(x, f, init=0)
    w = 'wakefield model ' + model
    r, z = (IR + TR + C(1)/2)*DR, A + (IZ + TZ)*DX
    want = proj(bil('Ge_r', IZ, IR, IR + 1), bil('Ge_z', IZ, IR, IR + 1),
                bil('Gb_t', IZ, IR, IR + 1))
    for k in FN:
        chk.equal('bilinear', '%s.%s' % (model, k), w, at(got[k], r, z),
                  want[k], domains=dom())
    r = (TR - C(1)/2)*DR        # theta_r in (1/2, 1): between axis and node 0
    want = proj(bil('Ge_r', IZ, 0, 0, -1), bil('Ge_z', IZ, 0, 0),
                bil('Gb_t', IZ, 0, 0, -1))
    near = dom(theta_r=lambda g: g.uniform(.52, .98))
    for k in FN:
        chk.equal('axis', '%s.%s' % (model, k), w, at(got[k], r, z),
                  want[k], domains=near)
    rin = (IR + TR + C(1)/2)*DR
    for nm, rr, zz in (('ahead', rin, Bm + TZ*DX),
                       ('behind', rin, A - TZ*DX),
                       ('beyond r_max', RM - DR/2 + TR*2*DR, z)):
        for k in FN:
            chk.equal('outside', '%s.%s %s' % (model, k, nm), w,
                      at(got[k], rr, zz), 0, domains=dom())
    finite(chk, x, model)


def finite(chk, x, model):
    """Divisors that vanish at x = y = 0 must be guarded."""
    z = {}
    for e in x.events('div'):
        d = e.d['den']
        if not isinstance(d, T.Term):
            continue
        rep = {}
        for s in T.subterms(d):
            if isinstance(s, T.Term) and s.op == 'load' and \
                    s.args[0] in (T.sym('x'), T.sym('y')):
                rep[s] = C(0)
        if not rep:
            continue
        for s in T.subterms(T.b2t(e.pc)):
            if isinstance(s, T.Term) and s.op == 'load' and \
                    s.args[0] in (T.sym('x'), T.sym('y')):
                rep[s] = C(0)
        d0, g0 = T.canon(T.subst(d, rep)), T.subst(T.b2t(e.pc), rep)
        z[(e.where, T.show(d))] = not (
            T.equal(d0, C(0)).ok and not T.equal(g0, C(0)).ok)
    if not z:
        chk.ok('finite', model, 'wakefield model ' + model)
    for (w, d), ok in z.items():
        chk.expect(ok, 'finite', '%s: divisor %s' % (model, d), w,
                   'the divisor %s is zero for a particle with x = y = 0 and '
                   'the division is reached' % d)


def sources(chk):
    x = chk.ctx()
    g = x.soft('wake_t.particles.interpolation:gather_sources_qs_baxevanis')
    n = T.sym('n', 'int')
    flds = [x.arr('G%d' % k, NX + 4, NR + 4) for k in (1, 2, 3)]
    out = [x.I.arr(x.st, (n,), C(0)) for _ in range(3)]
    rp = x.arr('rp', n)
    x.call(g, *(flds + [A, Bm, DR/2, RM - DR/2, DX, DR, rp, T.sym('zp')]
                + out))
    w = 'wake_t.particles.interpolation:gather_sources_qs_baxevanis'
    near = dom(theta_r=lambda q: q.uniform(.52, .98))
    z = A + (IZ + TZ)*DX
    for k, o in enumerate(out):
        t = x.term(o)

        def put(r, zz):
            return T.subst(t, {T.load(T.sym('rp'), L1): r, T.sym('zp'): zz})
        nm = 'G%d' % (k + 1)
        chk.equal('sources', 'field %d' % (k+1), w,
                  put((IR + TR + C(1)/2)*DR, z), bil(nm, IZ, IR, IR + 1),
                  domains=dom())
        chk.equal('sources', 'field %d near axis' % (k+1), w,
                  put((TR - C(1)/2)*DR, z),
                  bil(nm, IZ, 0, 0, 1 if k == 0 else -1), domains=near)
