"""Quasi-static (Baxevanis-Stupakov) wakefield: the model on the grid."""

import math
import random

from ..core import known_findings, T, C, TupleV, items, density, gather, NativeV
from .. import ref
from .c24 import S
from .c38 import U, draw, pick, XMIN, XMAX, RMAX

PROP = dict(
    id='C39', title='The quasistatic model solves its wakefield equations',
    statement='The field of a quasistatic_2d stage is the response of a '
    'column of plasma particles (ppc per cell up to r_max_plasma, density '
    'n_p (1 + parabolic_coefficient r^2)) swept backwards through the box: '
    'at each slice psi, its derivatives and the azimuthal field follow from '
    'the particles inside each radius and vanish at the edge, gamma and p_z '
    'from psi, p_r and the laser (a^2/2 for linear, a^2 for circular '
    'polarization); the particles are pushed by the chosen scheme (RK4 or '
    'fifth-order Adams-Bashforth) under the plasma, beam and ponderomotive '
    'forces at their current positions, mirrored when they cross the axis, '
    'and put at rest where gamma reaches max_gamma. E_z = -d_xi psi, E_r - '
    'c B_t = -d_r psi, c B_t is the field of plasma plus all bunches, and '
    'rho and chi are the deposited density and density/gamma. Earlier '
    'updates leave nothing behind, and nobody\'s particles are changed.',
    over=['inputs', 'configurations', 'histories'],
    text='all bunches, pulses, densities, parabolic profiles and box sizes; '
    'grids of up to 8 x 4 nodes with up to 8 plasma particles per column '
    '(counted loops unrolled, the others kept as exact loop nodes)',
    why='the tests compare two cases with stored numbers',
    files=['wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'
           + n for n in ('solver.py', 'psi_and_derivatives.py', 'b_theta.py',
                         'deposition.py', 'plasma_particles.py',
                         'wakefield.py', 'plasma_push/rk4.py',
                         'plasma_push/ab5.py')] +
    ['wake_t/fields/rz_wakefield.py', 'wake_t/particles/deposition.py',
     'wake_t/particles/interpolation.py', 'wake_t/utilities/other.py'],
    mechanism=[('_calculate_wakefield', 'wake_t/physics_models/'
                'plasma_wakefields/qs_rz_baxevanis/wakefield.py'
                ':Quasistatic2DWakefield._calculate_wakefield')])

W = ('wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'
     ':calculate_wakefields')
R = 'wake_t/fields/rz_wakefield.py:RZWakefield'
G = 'wake_t/particles/interpolation.py:gather_sources_qs_baxevanis'

DOM = {'xi_min': XMIN, 'xi_max': XMAX, 'r_max': RMAX, 'c': 1.3, 'e': .8,
       'm_e': 1.1, 'epsilon_0': .9, 'a_0': U(.5, 1.5),
       'xi_c': U(-.5, .2), 'w_0': U(.5, .9), 'tau': U(.3, .8),
       'l_0': U(.2, .4), 'z_foc': U(-3, 3), 'cep_phase': U(-3, 3),
       'dz': U(.2, .5), 'length': 3., 'phi_p': U(0, 6)}
BUNCH = {'q': (-.6, .3), 'w': (.02, .25), 'x': (-.6, .6),
         'y': (-.6, .6), 'xi': (XMIN + .02, XMAX - .02)}


class Case:
    def __init__(self, nz, nr, pusher, pol=None, parts=(), shape='linear',
                 ppc=2, updates=1, pc=False, edge=None, gmax=None,
                 push=1):
        self.nz, self.nr, self.pusher, self.pol = nz, nr, pusher, pol
        self.push = push
        self.parts, self.shape, self.ppc = parts, shape, ppc
        self.updates, self.pc, self.edge, self.gmax = updates, pc, edge, gmax

    def __str__(self):
        s = 'grid %dx%d, ppc %d, %s, laser %s, bunches of %s particles, ' \
            '%s shape' % (self.nz, self.nr, self.ppc, self.pusher, self.pol,
                          list(self.parts), self.shape)
        if self.pc:
            s += ', parabolic'
        if self.edge:
            s += ', plasma up to %s r_max' % (self.edge,)
        if self.gmax:
            s += ', max_gamma %s' % self.gmax
        if self.push != 1:
            s += ', strong'
        return s


CASES = [Case(7, 3, 'ab5', None, (2,)),
         Case(4, 3, 'rk4', None, (2, 1)),
         Case(4, 3, 'rk4', 'linear', (1,), 'cubic'),
         Case(4, 4, 'ab5', 'circular', (), pc=True),
         Case(4, 3, 'rk4', 'circular', (1,), edge=(2, 3)),
         Case(8, 3, 'ab5', 'linear', (1, 1), ppc=1, gmax=1.3, pc=True),
         Case(4, 3, 'rk4', None, (2,), gmax=1.02, pc=True, edge=(2, 3),
              push=30),
         Case(3, 3, 'rk4', 'linear', (1,), updates=2, pc=True),
         Case(4, 3, 'ab5', 'linear', (1,), updates=2),
         Case(4, 3, 'rk4', None, (2,), push=-600),
         Case(8, 3, 'ab5', None, (2,), 'cubic', push=-500)]
DEEP = [Case(8, 4, 'rk4', 'linear', (2, 1)),
        Case(8, 4, 'ab5', None, (2, 2), 'cubic', pc=True),
        Case(6, 3, 'rk4', None, (3,), 'cubic', ppc=3, edge=(2, 3)),
        Case(8, 3, 'ab5', 'circular', (2,), updates=2, gmax=1.5)]


def run(chk):
    chk.rules = {
        'field': 'E_z, E_r and B_t gathered anywhere in the box against the '
        'reference solution',
        'density': 'charge density of the plasma in the diagnostics',
        'chi': 'susceptibility seen by the laser',
        'outside': 'laser and beam act only within the nodes',
        'bunch': 'the particles are as before'}
    chk.need('field', 36)
    chk.need('density', 8)
    chk.need('chi', 2)
    chk.need('bunch', 40)
    chk.parallel('field', [
        (str(case), one, (case,))
        for case in CASES + (DEEP if chk.tier == 'thorough' else [])])


def parabola(v, z):
    return random.Random('%s|pc|%.6f' % (v.seed, z)).uniform(-.3, .5)


def one(chk, case):
    x = chk.ctx()
    x.I.finite = True
    las, chis = None, []
    kw = {}
    if case.pol:
        las = x.call('wake_t:GaussianPulse', polarization=case.pol, **S)

        def evolve(it, st, args, kws, node):
            d = dict(zip(('chi', 'n_p'), args))
            d.update(kws)
            chis.append([[it.getitem(st, d['chi'], TupleV((C(i), C(j))),
                                     node) for j in range(case.nr)]
                         for i in range(case.nz)])
        x.set(las, 'evolve', NativeV('evolve', evolve))
        kw['laser'] = las
    if case.pc:
        kw['parabolic_coefficient'] = density(x, 'pc')
    if case.edge:
        kw['r_max_plasma'] = T.sym('r_max', 'pos')*C(case.edge[0]) \
            / C(case.edge[1])
    if case.gmax:
        kw['max_gamma'] = C(case.gmax)
    s = x.call('wake_t:PlasmaStage', length=T.sym('length', 'pos'),
               density=density(x), wakefield_model='quasistatic_2d',
               n_xi=case.nz, n_r=case.nr, xi_min=T.sym('xi_min'),
               xi_max=T.sym('xi_max'), r_max=T.sym('r_max', 'pos'),
               ppc=case.ppc, plasma_pusher=case.pusher, p_shape=case.shape,
               dz_fields=T.sym('dz', 'pos'), **kw)
    f = items(x, x.attr(s, 'fields'))[0]
    dom, arrs = dict(DOM), {'pc': parabola}
    xp = T.sym('rho_p')*T.sym('r_max', 'pos')
    for up in range(case.updates):
        bs = []
        for i, n in enumerate(case.parts):
            t = '_%d%d' % (up, i)
            bs.append((x.bunch(t, n=C(n)), t, n))
            dom['q' + t] = U(*sorted(case.push*k for k in BUNCH['q']))
            for k in ('w', 'x', 'y', 'xi'):
                arrs[k + t] = draw(k + t, *BUNCH[k])
        x.meth(f, 'update', x.list(*[b[0] for b in bs]))
        cache = {}

        def solve(v, old, up=up, bs=bs, cache=cache):
            if (v.seed, old) not in cache:
                cache[v.seed, old] = reference(v, case, up, bs, old)
            if cache[v.seed, old] is None:
                raise T.Undef()
            return cache[v.seed, old]
        tag = '%s, update %d' % (case, up + 1)
        defs = [dict(arrs, REF=lambda v, k, z, r, sl=solve, old=old: at(
            v, case, sl(v, old), int(k), z, r),
            NODE=lambda v, k, i, j, sl=solve, old=old:
            sl(v, old)[int(k)][int(i)][int(j)]) for old in (False, True)]
        got, pos = gather(x, f, 0., n=C(1))
        lane = {T.load(T.sym('x'), C(0)): xp*T.fn('cos', T.sym('phi_p')),
                T.load(T.sym('y'), C(0)): xp*T.fn('sin', T.sym('phi_p')),
                T.load(T.sym('z'), C(0)): T.sym('z_p')}
        got = {k: T.subst(T.subst(t, {T.lane(1): C(0)}), lane)
               for k, t in got.items()}
        dom['z_p'] = U(XMIN + 1e-3, XMAX - 1e-3)
        dom['rho_p'] = U(.5/case.nr + 1e-3, 1 - .5/case.nr - 1e-3)
        cs, sn = (T.fn(q, T.sym('phi_p')) for q in ('cos', 'sin'))

        def REF(k):
            return T.fn('REF', k, T.sym('z_p'), xp)
        c = T.sym('c', 'pos')
        for nm, a, b in (
                ('ez', got['ez'], REF(0)),
                ('focusing', (got['ex'] - c*got['by'])*T.sym('u1')
                 + (got['ey'] + c*got['bx'])*T.sym('u2'),
                 (REF(1) - REF(2))*(cs*T.sym('u1') + sn*T.sym('u2'))),
                ('er', got['ex']*T.sym('u1') + got['ey']*T.sym('u2'),
                 REF(1)*(cs*T.sym('u1') + sn*T.sym('u2')))):
            same(chk, 'field', '%s: %s' % (tag, nm), W, a, b, dom, defs, 40)
        d = x.meth(f, 'get_openpmd_diagnostics_data', T.sym('time'))
        rho = pick(x, d, 'rho', 'array')
        u = [T.sym('u%d' % j) for j in range(case.nr)]
        for i in range(case.nz):
            a = [x.term(pick(x, rho, TupleV((C(j), C(i)))))
                 for j in range(case.nr)]
            same(chk, 'density', '%s: nodes at xi %d' % (tag, i), R,
                 T.add(*[p*q for p, q in zip(u, a)]),
                 T.add(*[p*T.fn('NODE', 3, i, j)
                         for j, p in enumerate(u)]), dom, defs, 6)
        if chis and up > 0:
            for i in range(case.nz):
                a = chis[-1][i]
                same(chk, 'chi', '%s: nodes at xi %d' % (tag, i), W,
                     T.add(*[p*q for p, q in zip(u, a)]),
                     T.add(*[p*T.fn('NODE', 4, i, j)
                             for j, p in enumerate(u)]), dom, prev, 6)
        prev = defs
        for b, t, n in bs:
            for k in x.COORDS:
                for p in range(n):
                    chk.equal('bunch', '%s: %s of particle %d of bunch%s' % (
                        tag, k, p, t), W, x.term(pick(x, x.attr(b, k),
                                                      C(p))),
                        T.load(T.sym(k + t), C(p)))
        if las is not None and up == case.updates - 1:
            # what the laser would see next
            n = len(chis)
            x.meth(f, 'evolve_properties', x.list())
            for i in range(case.nz if len(chis) > n else 0):
                same(chk, 'chi', '%s: nodes at xi %d after it' % (tag, i),
                     W, T.add(*[p*q for p, q in zip(u, chis[-1][i])]),
                     T.add(*[p*T.fn('NODE', 4, i, j)
                             for j, p in enumerate(u)]), dom, defs, 6)


OUTSIDE = ('a plasma particle beyond the last radial node keeps the laser '
           'and beam sources of an earlier slice')


def same(chk, rule, name, where, a, b, dom, defs, n):
    kw = dict(domains=dom, nf=False, n=n, tol=1e-6)
    if known_findings(chk.pid) and not T.equal(
            a, b, defs=defs[0], seed='%s%d' % (chk.pid, chk.seed), **kw).ok:
        # the known deviation, and nothing else?
        if T.equal(a, b, defs=defs[1],
                   seed='%s%d' % (chk.pid, chk.seed), **kw).ok:
            if not any(o.rule == 'outside' for o in chk.obs):
                chk.bad('outside', OUTSIDE, G, name)
            return chk.ok(rule, name, where, 'known deviation')
    return chk.equal(rule, name, where, a, b, defs=defs[0], **kw)


# ------------------------------------------------------------------ oracle

SEEN = {}


def seen(k):
    SEEN[k] = SEEN.get(k, 0) + 1


def at(v, case, sol, k, z, r):
    dr, dz = RMAX/case.nr, (XMAX - XMIN)/(case.nz - 1)
    return ref.bilinear(sol[k], XMIN, dr/2, dz, dr, z, r)


def reference(v, case, up, bs, old=False):
    nz, nr = case.nz, case.nr
    c, e, m, eps = (v.t(T.sym(k, 'pos'))
                    for k in ('c', 'e', 'm_e', 'epsilon_0'))
    zt = up*T.sym('dz', 'pos')
    n_p = v.t(T.fn('dens', zt))
    kp = math.sqrt(n_p*e**2/(eps*m))/c
    E0 = m*c**2*kp/e
    dr, dz = RMAX/nr*kp, (XMAX - XMIN)/(nz - 1)*kp
    z0 = XMIN*kp
    pc = v.t(T.fn('pc', zt))/kp**2 if case.pc else 0.
    # laser
    a2 = [[0.]*nr for _ in range(nz)]
    if case.pol:
        g = {k: v.t(t) for k, t in S.items()}
        for i in range(nz):
            for j in range(nr):
                a2[i][j] = abs(ref.gaussian(
                    g, c, (z0 + i*dz)/kp, (j + .5)*dr/kp))**2
                if case.pol == 'linear':
                    a2[i][j] /= 2
    na2 = []
    for row in a2:
        ext = [row[0]] + row
        d = [(ext[j+2] - ext[j])/(2*dr) for j in range(nr - 1)]
        na2.append(d + [(row[-1] - row[-2])/dr])
    # bunches
    b0 = [[0.]*nr for _ in range(nz)]
    for b, t, n in bs:
        q = v.t(T.sym('q' + t))
        parts = []
        for p in range(n):
            X = {k: v.t(T.load(T.sym(k + t), C(p)))
                 for k in ('x', 'y', 'xi', 'w')}
            parts.append((X['xi']*kp, math.hypot(X['x'], X['y'])*kp,
                          X['w']*q/e*kp**3/(2*math.pi*dr*dz*n_p)))
        dep = [[0.]*nr for _ in range(nz)]
        ref.deposit(dep, parts, z0, dz, dr, case.shape)
        for i in range(nz):
            tot = 0.
            for j in range(nr):
                w = dep[i][j]
                inside = tot + w/2 - (w/4 if j == 0 else 0.)
                b0[i][j] += inside*dr/((j + .5)*dr)
                tot += w
    # plasma
    dp = dr/case.ppc
    N = nr*case.ppc
    if case.edge:
        N = round(nr*case.ppc*case.edge[0]/case.edge[1])
    edge = N*dp
    r = [(k + .5)*dp for k in range(N)]
    q = [dp*(s + pc*s**3) for s in r]
    mod = Model(z0, dz, dr, nr, nz, a2, na2, b0, q, dp, edge, pc, old)
    pr = [0.]*N
    psi = [[0.]*nr for _ in range(nz)]
    bt = [[0.]*nr for _ in range(nz)]
    rho = [[0.]*nr for _ in range(nz)]
    chi = [[0.]*nr for _ in range(nz)]
    hist = []
    gmax = case.gmax or 10.
    for i in range(nz - 1, -1, -1):
        z = z0 + i*dz
        F = mod.fields(z, r, pr)
        if F is None:
            return None
        gam, pz = F['gam'], F['pz']
        for k in range(N):
            if gam[k] >= gmax:
                seen('gmax')
                gam[k], pz[k], pr[k] = 1., 0., 0.
        psi[i], bt[i] = mod.grid(r, pr, F)
        for k in range(N):
            if r[k] <= nr*dr:
                w = q[k]/(dr*r[k]*(1 - pz[k]/gam[k]))
                rc = r[k]/dr - .5
                j0 = math.ceil(rc)
                fr = ref.fold({j: ref.spline(case.shape, rc - j)
                               for j in range(j0 - 2, j0 + 2)}, nr, rc)
                fz = ref.fold({n: ref.spline(case.shape, i - n)
                               for n in range(i - 2, i + 2)}, nz, i)
                for n, s2 in fz.items():
                    for j, s in fr.items():
                        rho[n][j] += w*s*s2
                        chi[n][j] += w*s*s2/gam[k]
            else:
                seen('outside')
        if i == 0:
            break
        if case.pusher == 'rk4':
            k1 = mod.slope(pr, F)
            k2 = mod.sub(z - dz/2, r, pr, k1, dz/2, 1)
            k3 = k2 and mod.sub(z - dz/2, r, pr, k2, dz/2, 2)
            k4 = k3 and mod.sub(z - dz, r, pr, k3, dz, 3)
            if not k4:
                return None
            new = [[u + dz/6*(a + 2*b + 2*c_ + d) for u, a, b, c_, d in
                    zip(x, k1[n], k2[n], k3[n], k4[n])]
                   for n, x in enumerate((r, pr))]
        else:
            hist = [mod.slope(pr, F)] + hist[:4]
            co = (1901, -2774, 2616, -1274, 251)
            new = [[u + dz*sum(s*h[n][k] for s, h in zip(co, hist))/720
                    for k, u in enumerate(x)]
                   for n, x in enumerate((r, pr))]
        r, pr = new
        for k in range(N):
            if r[k] < 0:
                seen('axis')
                r[k], pr[k] = -r[k], -pr[k]
                for h in hist:
                    h[0][k], h[1][k] = -h[0][k], -h[1][k]
    dxi = [ref.gradient(col, dz) for col in ref.columns(psi)]
    ez = [[-dxi[j][i]*E0 for j in range(nr)] for i in range(nz)]
    wr = [[-s for s in ref.gradient(row, dr)] for row in psi]
    er = [[(wr[i][j] + bt[i][j] + b0[i][j])*E0 for j in range(nr)]
          for i in range(nz)]
    cb = [[(bt[i][j] + b0[i][j])*E0 for j in range(nr)] for i in range(nz)]
    rho = [[-e*n_p*s for s in row] for row in rho]
    return [ez, er, cb, rho, chi]


class Model:
    def __init__(self, z0, dz, dr, nr, nz, a2, na2, b0, q, dp, edge, pc,
                 old):
        self.old, self.last = old, {}
        self.z0, self.dz, self.dr, self.nr, self.nz = z0, dz, dr, nr, nz
        self.a2, self.na2, self.b0 = a2, na2, b0
        self.q, self.dp, self.edge, self.pc = q, dp, edge, pc

    def ions(self, r):
        """psi and d_r psi of the ions."""
        R, pc = self.edge, self.pc
        if r <= R:
            return r**2/4 + pc*r**4/16, r/2 + pc*r**3/4
        n = R**2/2 + pc*R**4/4
        return R**2/4 + pc*R**4/16 + n*math.log(r/R), n/r

    def source(self, z, r):
        nr = self.nr
        if r > (nr - .5)*self.dr:
            return 0., 0., 0.
        i = min(max(math.floor((z - self.z0)/self.dz + 1e-9), 0),
                self.nz - 1)
        w = (z - self.z0)/self.dz - i
        rc = r/self.dr - .5
        j = math.floor(rc)
        s = rc - j
        out = []
        for f, par in ((self.a2, 1), (self.na2, -1), (self.b0, -1)):
            v = 0.
            for k, u in ((i, 1 - w), (i + 1, w)):
                if k >= self.nz:
                    continue
                lo = f[k][j] if j >= 0 else par*f[k][0]
                hi = f[k][j+1] if j + 1 < nr else 0.
                v += u*((1 - s)*lo + s*hi)
            out.append(v)
        return out

    def fields(self, z, r, pr, stage=0):
        """Everything that acts on particles at r."""
        N, q = len(r), self.q
        if min(r) < 1e-4:
            return None
        src = [self.source(z, s) for s in r]
        for k, s in enumerate(r):
            if s > (self.nr - .5)*self.dr:
                if any(self.last.get((stage, k), ())):
                    seen('left')
                if self.old:
                    src[k] = self.last.get((stage, k), src[k])
            self.last[stage, k] = src[k]
        a2, na2, b0 = ([s[n] for s in src] for n in range(3))
        o = sorted(range(N), key=lambda k: r[k])
        if o != list(range(N)):
            seen('order')
        R = [r[k] for k in o]
        # limits of the interval of each particle
        left = [0.] + [(R[k-1] + R[k])/2 for k in range(1, N)]
        right = left[1:] + [R[-1] + self.dp/2]
        psi, dpsi, xpsi = [0.]*N, [0.]*N, [0.]*N

        def pot(s, n):
            """psi, d_r psi at radius s with n particles inside."""
            u = sum(q[o[k]]*math.log(s/R[k]) for k in range(n))
            p, d = self.ions(s)
            return u - p, sum(q[o[k]] for k in range(n))/s - d

        def between(k, lo, hi):
            return lo + (hi - lo)*(R[k] - left[k])/(right[k] - left[k])
        for k in range(N):
            lo = pot(left[k], k) if k else (0., 0.)
            hi = pot(right[k], k + 1)
            psi[o[k]], dpsi[o[k]] = (between(k, lo[n], hi[n])
                                     for n in (0, 1))
        far = max(right[-1], self.edge)
        if right[-1] > self.edge*(1 + 1e-9):
            seen('beyond')
        ref0 = pot(far, N)[0]
        psi = [max(s - ref0, -.9) for s in psi]
        if min(psi) < -.85:
            return None         # the limiters of strong blowouts
        cur = [q[k]*pr[k]/(r[k]*(1 + psi[k])) for k in range(N)]
        tot = sum(cur)
        bc = tot
        if right[-1] > self.edge*(1 + 1e-9):
            L = o[-1]
            bc -= ((sum(q) - self.edge**2/2 - self.pc*self.edge**4/4)
                   * pr[L]/(right[-1]*(1 + psi[L])))
        acc = 0.
        for k in range(N):
            lo = -acc if k else 0.
            acc += cur[o[k]]
            xpsi[o[k]] = between(k, lo, -acc) + bc
        if max(map(abs, xpsi)) > 2.9:
            return None
        P = [1 + s for s in psi]
        gam = [(1 + pr[k]**2 + a2[k] + P[k]**2)/(2*P[k]) for k in range(N)]
        pz = [(1 + pr[k]**2 + a2[k] - P[k]**2)/(2*P[k]) for k in range(N)]
        F = dict(a2=a2, na2=na2, b0=b0, psi=psi, dpsi=dpsi, xpsi=xpsi,
                 gam=gam, pz=pz, o=o)
        ab = self.ab(r, pr, F)
        # here the interval of the last particle is half as wide
        right[-1] = R[-1] + self.dp/4
        F['bt'] = [0.]*N
        for k in range(N):
            lo = self.bth(ab[k], left[k]) if k else 0.
            F['bt'][o[k]] = between(k, lo, self.bth(ab[k+1], right[k]))
        if max(map(abs, F['bt'])) > 2.9:
            return None
        return F

    @staticmethod
    def bth(ab, s):
        return ab[0]*s + ab[1]/s

    def ab(self, r, pr, F):
        """a, b of b_theta = a r + b/r between particles; a = 0 outside."""
        rows = []
        for k in F['o']:
            P, s, p, q = 1 + F['psi'][k], r[k], pr[k], self.q[k]
            A = q/(s*P)
            B = q*(-F['gam'][k]*F['dpsi'][k]/(s*P**2)
                   + p**2*F['dpsi'][k]/(s*P**3) + p*F['xpsi'][k]/(s*P**2)
                   + p**2/(s**2*P**2) + F['b0'][k]/(s*P)
                   + F['na2'][k]/(2*s*P**2))
            D = q*(p**2/(s*P**2) - (F['gam'][k]/P - 1)/s)
            rows.append((A, B, D, s))

        def sweep(a, b, inhom):
            out = [(a, b)]
            for A, B, D, s in rows:
                if not inhom:
                    B = D = 0.
                # the field at the particle is the mean of both sides
                mean = a*s + b/s + D/2
                jump = A*mean + B
                a, b = a + jump/2, b + s*D - jump*s**2/2
                out.append((a, b))
            return out
        h, p = sweep(1., 0., False), sweep(0., 0., True)
        if abs(h[-1][0]) < 1e-6:
            return [(float('nan'),)*2]*len(h)
        a0 = -p[-1][0]/h[-1][0]
        return [(u[0] + a0*w[0], u[1] + a0*w[1]) for u, w in zip(p, h)]

    def grid(self, r, pr, F):
        o, q = F['o'], self.q
        ab = self.ab(r, pr, F)
        rn = max(r)

        def pot(s):
            return sum(q[k]*math.log(s/r[k]) for k in range(len(r))
                       if r[k] < s) - self.ions(s)[0]
        far = max(rn, self.edge)
        ref0 = sum(q[k]*math.log(far/r[k]) for k in range(len(r))) \
            - self.ions(far)[0]
        psi, bt = [], []
        for j in range(self.nr):
            s = (j + .5)*self.dr
            n = sum(1 for k in r if k < s)
            psi.append(pot(s) - ref0)
            bt.append(self.bth(ab[n], s))
        return psi, bt

    def slope(self, pr, F):
        N = len(pr)
        P = [1 + s for s in F['psi']]
        return ([pr[k]/P[k] for k in range(N)],
                [F['gam'][k]*F['dpsi'][k]/P[k] - F['bt'][k] - F['b0'][k]
                 - F['na2'][k]/(2*P[k]) for k in range(N)])

    def sub(self, z, r, pr, k, h, stage):
        r = [u + h*d for u, d in zip(r, k[0])]
        pr = [u + h*d for u, d in zip(pr, k[1])]
        sg = [-1 if u < 0 else 1 for u in r]
        if -1 in sg:
            seen('sub axis')
        r = [abs(u) for u in r]
        pr = [u*s for u, s in zip(pr, sg)]
        F = self.fields(z, r, pr, stage)
        if F is None:
            return None
        d = self.slope(pr, F)
        return [[u*s for u, s in zip(x, sg)] for x in d]
