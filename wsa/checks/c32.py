"""Generated bunches have the requested moments."""

from ..core import T, C

PROP = dict(
    id='C32', title='Generated bunches have the requested parameters',
    statement='get_gaussian_bunch_from_twiss (and _from_size, get_matched_'
    'bunch with the beta function of the given focusing strength or plasma '
    'density) returns n_part particles of the given species and name, with '
    'equal positive weights whose charge adds up to |q_tot| (pC). In each '
    'plane the position and slope are Gaussian about the requested offset '
    'and pointing angle (theta = <px>/ene), with <x^2> = eps beta, <x x\'> = '
    '-eps alpha and <x\'^2> = eps gamma for eps = en/ene; px = slope * pz '
    'plus the pointing. pz is Gaussian with mean ene and spread ene*ene_sp/'
    '100; xi is Gaussian about xi_c with standard deviation c*s_t (fs), cut '
    'at three standard deviations. The planes, the energy and the position '
    'along xi are independent of each other.',
    over=['inputs', 'configurations'],
    text='all parameters and any number of particles; the draws of the '
    'random generator are free values',
    why='the tests draw single bunches and check nothing but their tracking',
    files=['wake_t/utilities/bunch_generation.py'],
    mechanism=[('draws', 'wake_t/utilities/bunch_generation.py'
                ':get_gaussian_bunch_from_twiss')])

F = 'wake_t/utilities/bunch_generation.py:'
POS = ('en_x', 'en_y', 'b_x', 'b_y', 's_x', 's_y', 'ene', 'ene_sp', 's_t',
       'k_x', 'n_p')
c, e, m_e, eps0 = (T.sym(k, 'pos') for k in ('c', 'e', 'm_e', 'epsilon_0'))


DOM = {'n': lambda r: r.randint(1, 9)}
# of order one after the conversion to SI units
SCALE = {'s_t': 10**15, 'q_tot': 10**12}


def S(k):
    return C(SCALE.get(k, 1))*T.sym(k, 'pos' if k in POS else 'real')


COMMON = ('en_x', 'en_y', 'ene', 'ene_sp', 's_t', 'xi_c', 'q_tot')
OPT = ('x_off', 'y_off', 'theta_x', 'theta_y')


class Draws:
    """The random generator: every call returns new free values."""

    def __init__(self, x):
        self.x, self.kind = x, []
        x.I.ext_hook = self.hook

    def new(self, it, st, size, kind):
        k = len(self.kind)
        self.kind.append(kind)
        n = it.to_term(st, size)
        return it.symarr(st, 'N%d' % k, (n,))

    def hook(self, it, st, path, args, kw, node):
        name = path.rsplit('.', 1)[1]
        if path.startswith('numpy.random.'):
            if name in ('standard_normal', 'randn'):
                return self.new(it, st, args[0] if args else kw['size'], 'N')
            if name == 'normal':
                a = dict(zip(('loc', 'scale', 'size'), args))
                a.update(kw)
                z = self.new(it, st, a['size'], 'N')
                return it.ew(st, lambda u, l, s: l + s*u,
                             [z, a.get('loc', C(0)), a.get('scale', C(1))])
        if path.endswith('truncnorm.rvs'):
            a = dict(zip(('a', 'b', 'loc', 'scale', 'size'), args))
            a.update(kw)
            z = self.new(it, st, a['size'], ('T', it.to_term(st, a['a']),
                                             it.to_term(st, a['b'])))
            return it.ew(st, lambda u, l, s: l + s*u,
                         [z, a.get('loc', C(0)), a.get('scale', C(1))])
        return NotImplemented


def run(chk):
    chk.rules = {
        'moments': 'coefficients of the random draws in each coordinate '
        'against the requested covariance matrix',
        'affine': 'each coordinate is affine in standard normal draws',
        'independent': 'no draw is shared between the planes, pz and xi',
        'charge': 'weights and species',
        'defaults': 'no offset or pointing unless asked for'}
    chk.need('moments', 50)
    chk.need('affine', 30)
    chk.need('independent', 6)
    chk.need('charge', 24)
    for q in (True, False):
        chk.part('moments', 'twiss', twiss, chk, q)
        chk.part('moments', 'size', sizes, chk, q)
        chk.part('moments', 'matched', matched, chk, q, 'k_x')
        chk.part('moments', 'matched', matched, chk, q, 'n_p')
    chk.part('moments', 'matched', matched, chk, True, 'both')


def twiss(chk, full):
    kw = {k: S(k) for k in ('a_x', 'a_y', 'b_x', 'b_y')}
    generate(chk, 'get_gaussian_bunch_from_twiss', kw, full,
             {p: (S('en_' + p)/S('ene'), S('a_' + p), S('b_' + p))
              for p in 'xy'})


def sizes(chk, full):
    kw = {k: S(k) for k in ('s_x', 's_y')}
    generate(chk, 'get_gaussian_bunch_from_size', kw, full,
             {p: (S('en_' + p)/S('ene'), C(0),
                  S('s_' + p)**2*S('ene')/S('en_' + p)) for p in 'xy'})


def matched(chk, full, how):
    kw = {k: S(k) for k in (('k_x', 'n_p') if how == 'both' else (how,))}
    k = S('k_x')
    if how == 'n_p':
        k = e*S('n_p')/(2*eps0*c)
    b = c/(c*e/m_e*k/S('ene'))**T.HALF
    generate(chk, 'get_matched_bunch', kw, full,
             {p: (S('en_' + p)/S('ene'), C(0), b) for p in 'xy'})


def generate(chk, fname, kw, full, want):
    x = chk.ctx()
    d = Draws(x)
    n = T.sym('n', 'int')
    kw = dict(kw, n_part=n, **{k: S(k) for k in COMMON})
    q, m = -e, m_e
    name = None
    if full:
        q, m, name = T.sym('q_s'), T.sym('m_s', 'pos'), 'Bob'
        kw.update({k: S(k) for k in OPT}, name=name, q_species=q, m_species=m)
    b = x.call('wake_t.utilities.bunch_generation:' + fname, **kw)
    tag = '%s(%s)' % (fname, ', '.join(sorted(kw)))
    wh = F + fname
    N = [T.load(T.sym('N%d' % k), T.lane(1)) for k in range(len(d.kind))]
    V = {k: x.term(x.attr(b, k)) for k in x.COORDS}

    def at(t, on=()):
        return T.subst(t, {a: C(1) if k in on else C(0)
                           for k, a in enumerate(N)})

    def get(k):
        return S(k) if full else C(0)
    for k in x.COORDS:
        sh = x.shape(x.attr(b, k))
        chk.equal('charge', tag + ': number of ' + k, wh,
                  sh[0] if sh else None, n)
    ids = range(len(N))
    # energy
    sd = [at(V['pz'], (k,)) - at(V['pz']) for k in ids]
    chk.equal('moments', tag + ': mean of pz', wh, at(V['pz']), S('ene'))
    chk.equal('moments', tag + ': spread of pz', wh,
              T.add(*[s*s for s in sd]), (S('ene')*S('ene_sp')/100)**2)
    affine(chk, tag + ': pz', wh, V['pz'], at(V['pz']), sd, N)
    used = {'pz': [k for k in ids if not zero(sd[k])]}
    # xi
    sz = [at(V['xi'], (k,)) - at(V['xi']) for k in ids]
    chk.equal('moments', tag + ': mean of xi', wh, at(V['xi']), S('xi_c'))
    chk.equal('moments', tag + ': spread of xi', wh,
              T.add(*[s*s for s in sz]), (c*T.sym('s_t', 'pos'))**2, domains=DOM)
    affine(chk, tag + ': xi', wh, V['xi'], at(V['xi']), sz, N)
    used['xi'] = [k for k in ids if not zero(sz[k])]
    for p in 'xy':
        em, al, be = want[p]
        off, th = get(p + '_off'), get('theta_' + p)
        X, P = V[p], V['p' + p]
        a = [at(X, (k,)) - at(X) for k in ids]
        g = [C(0) if k in used['pz'] else
             (at(P, (k,)) - at(P))/S('ene') for k in ids]
        chk.equal('moments', tag + ': mean of ' + p, wh, at(X), off)
        chk.equal('moments', tag + ': mean of p' + p, wh, at(P),
                  th*S('ene'))
        affine(chk, tag + ': ' + p, wh, X, at(X), a, N)
        chk.equal('affine', tag + ': p%s is slope times pz' % p, wh, P,
                  T.add(*[u*v for u, v in zip(g, N)])*V['pz']
                  + th*S('ene'))
        for nm, u, v, w in (('<%s^2>' % p, a, a, em*be),
                            ('<%s %s\'>' % (p, p), a, g, -em*al),
                            ('<%s\'^2>' % p, g, g, em*(1 + al*al)/be)):
            chk.equal('moments', '%s: %s' % (tag, nm), wh,
                      T.add(*[s*t for s, t in zip(u, v)]), w)
        used[p] = [k for k in ids if not (zero(a[k]) and zero(g[k]))]
    seen = {}
    for k, l in used.items():
        for i in l:
            seen.setdefault(i, []).append(k)
            kd = d.kind[i]
            if k == 'xi':
                chk.expect(kd[0] == 'T' and zero(kd[1] + 3) and
                           zero(kd[2] - 3), 'moments',
                           tag + ': xi is cut at 3 sigma', wh,
                           'draw %s' % (kd,))
            else:
                chk.expect(kd == 'N', 'moments', '%s: draw %d of %s is normal'
                           % (tag, i, k), wh, 'draw %s' % (kd,))
    for i, l in seen.items():
        chk.expect(len(l) == 1, 'independent', '%s: draw %d' % (tag, i), wh,
                   'shared by %s' % ', '.join(l))
    chk.equal('charge', tag + ': total charge', wh, V['w']*n*abs_(q),
              abs_(T.sym('q_tot')), domains=DOM)
    chk.equal('charge', tag + ': species charge', wh, x.attr(b, 'q_species'),
              q)
    chk.equal('charge', tag + ': species mass', wh, x.attr(b, 'm_species'),
              m)
    if full:
        chk.equal('charge', tag + ': name', wh, x.attr(b, 'name'), name)


def abs_(t):
    return T.power(t*t, T.HALF)


def affine(chk, name, wh, t, t0, co, N):
    chk.equal('affine', name, wh, t, T.add(
        t0, *[u*v for u, v in zip(co, N)]), domains=DOM)


def zero(t):
    return T.equal(C(t), T.ZERO, domains=DOM).ok
