"""Bunch analysis: every reported parameter is its own statistic."""

from ..core import T, C, TupleV, items
from ..interp import ArrV

PROP = dict(
    id='C33', title='Bunch analysis reports the statistics of the bunch',
    statement='analyze_bunch returns, under each of its keys, the charge-'
    'weighted statistic of that name of the given bunch (centroids, pointing '
    'angles <px>/<gamma>, sizes, Twiss parameters, normalized emittances, '
    'mean energy, relative energy spread, slice averages and peak current '
    'with the requested slicing, total charge and propagation distance), for '
    'any species, and analyze_bunch_list returns the same values for each '
    'bunch of the list, in order. The bunches are left unchanged.',
    over=['inputs'],
    text='all coordinates and weights of bunches of four particles (the '
    'statistics are symmetric sums over the particles), lists of up to three '
    'bunches, all slicings',
    why='the tests read a handful of the parameters of electron bunches and '
    'compare them with stored numbers',
    files=['wake_t/diagnostics/bunch_analysis.py'],
    mechanism=[('analysis', 'wake_t/diagnostics/bunch_analysis.py'
                ':analyze_bunch'),
               ('lists', 'wake_t/diagnostics/bunch_analysis.py'
                ':analyze_bunch_list')])

W = 'wake_t.diagnostics:'
N = 4
COORDS = ('x', 'y', 'xi', 'px', 'py', 'pz')


# ------------------------------------------------------------ statistics

def norm(w):
    s = T.add(*w)
    return [a/s for a in w]


def avg(a, w):
    return T.add(*[u*v for u, v in zip(a, norm(w))])


def sqrt(a):
    return T.power(a, T.HALF)


def std(a, w):
    m = avg(a, w)
    return sqrt(avg([(u - m)**2 for u in a], w))


def emit(a, b, w):
    """The determinant of numpy.cov(a, b, aweights=w), as a length."""
    p = norm(w)
    f = 1 - T.add(*[u*u for u in p])
    ma, mb = avg(a, w), avg(b, w)
    aa = avg([(u - ma)**2 for u in a], w)
    bb = avg([(u - mb)**2 for u in b], w)
    ab = avg([(u - ma)*(v - mb) for u, v in zip(a, b)], w)
    return sqrt(aa*bb - ab*ab)/f


def gam(px, py, pz):
    return [sqrt(1 + u*u + v*v + s*s) for u, v, s in zip(px, py, pz)]


def slices(name, arrays, w, n, ln):
    """An average over slices: a free function of the particles."""
    return T.fn(name, *([u for a in arrays for u in a] + norm(w) + [n, ln]))


def twiss(x, px, pz, w):
    xp = [u/v for u, v in zip(px, pz)]
    e = emit(x, xp, w)
    mx, mp = avg(x, w), avg(xp, w)
    b = avg([(u - mx)**2 for u in x], w)/e
    a = -avg([(u - mx)*(v - mp) for u, v in zip(x, xp)], w)/e
    return a, b, (1 + a*a)/b


def peak(z, q, n, ln):
    s = T.add(*q)
    return sqrt(s*s)*T.fn('peak', *(z + norm(q) + [n, ln]))


# ---------------------------------------------------------- aptools model

SIG = {
    'twiss_parameters': ('x', 'px', 'pz', 'py', 'w', 'emitt',
                         'disp_corrected', 'corr_order'),
    'mean_energy': ('px', 'py', 'pz', 'w'),
    'mean_kinetic_energy': ('px', 'py', 'pz', 'w'),
    'rms_energy_spread': ('px', 'py', 'pz', 'w'),
    'relative_rms_energy_spread': ('px', 'py', 'pz', 'w'),
    'relative_rms_slice_energy_spread': ('z', 'px', 'py', 'pz', 'w',
                                         'n_slices', 'len_slice'),
    'normalized_transverse_rms_emittance': (
        'x', 'px', 'py', 'pz', 'w', 'disp_corrected', 'corr_order'),
    'normalized_transverse_rms_slice_emittance': (
        'z', 'x', 'px', 'py', 'pz', 'w', 'disp_corrected', 'corr_order',
        'n_slices', 'len_slice'),
    'rms_length': ('z', 'w'),
    'rms_size': ('x', 'w'),
    'peak_current': ('z', 'q', 'n_slices', 'len_slice'),
}
PRE = 'aptools.data_analysis.beam_diagnostics.'


def elements(it, st, v):
    sh, t = it.content(st, v)
    if len(sh) != 1 or sh[0] != C(N):
        return None
    return [T.subst(t, {T.lane(1): C(i)}) for i in range(N)]


def hook(it, st, path, args, kw, node):
    if not path.startswith(PRE):
        return NotImplemented
    name = path[len(PRE):]
    if name not in SIG or len(args) > len(SIG[name]):
        return NotImplemented
    d = dict(zip(SIG[name], args))
    d.update(kw)
    if set(d) - set(SIG[name]) or \
            d.get('disp_corrected', T.FALSE) is not T.FALSE or \
            d.get('emitt', 'tr') != 'tr':
        return NotImplemented
    v = {}
    for k in ('x', 'px', 'py', 'pz', 'z', 'w', 'q'):
        a = d.get(k)
        if a is None:
            v[k] = [C(1)]*N if k == 'w' else None
        elif isinstance(a, ArrV):
            v[k] = elements(it, st, a)
            if v[k] is None:
                return NotImplemented
        else:
            return NotImplemented
    n, ln = d.get('n_slices', C(10)), d.get('len_slice')
    n = it.to_term(st, n)
    if ln is None:
        ln = C(-1)
    else:
        ln, n = it.to_term(st, ln), C(-1)
    used = {'mean_energy': 'px py pz', 'peak_current': 'z q',
            'rms_length': 'z', 'rms_size': 'x', 'twiss_parameters': 'x px pz',
            'normalized_transverse_rms_emittance': 'x px',
            'normalized_transverse_rms_slice_emittance': 'z x px',
            'relative_rms_slice_energy_spread': 'z px py pz'}
    if any(v[k] is None for k in used.get(name, 'px py pz').split()):
        return NotImplemented
    w = v['w']
    if name == 'twiss_parameters':
        return TupleV(twiss(v['x'], v['px'], v['pz'], w))
    if name == 'rms_length':
        return std(v['z'], w)
    if name == 'rms_size':
        return std(v['x'], w)
    if name == 'normalized_transverse_rms_emittance':
        return emit(v['x'], v['px'], w)
    if name == 'peak_current':
        return peak(v['z'], v['q'], n, ln)
    other = T.sym('slice values %d' % id(node), 'any')
    if name == 'normalized_transverse_rms_slice_emittance':
        return TupleV((other, other, other, slices(
            'slice emittance', (v['z'], v['x'], v['px']), w, n, ln)))
    g = gam(v['px'], v['py'], v['pz'])
    if name == 'mean_energy':
        return avg(g, w)
    if name == 'mean_kinetic_energy':
        return avg([sqrt(u*u - 1) for u in g], w)
    if name == 'rms_energy_spread':
        return std(g, w)
    if name == 'relative_rms_energy_spread':
        return std(g, w)/avg(g, w)
    return TupleV((other, other, other, slices(
        'slice energy spread', (v['z'], g), w, n, ln)))


def reference(d, q, prop, n, ln):
    w, pz, z = d['w'], d['pz'], d['xi']
    g = gam(d['px'], d['py'], pz)
    r = {'prop_dist': prop, 'q_tot': q*T.add(*w), 'sigma_z': std(z, w),
         'avg_ene': avg(g, w), 'rel_ene_spread': std(g, w)/avg(g, w),
         'avg_slice_rel_ene_spread': slices('slice energy spread', (z, g), w,
                                            n, ln),
         'i_peak': peak(z, [q*u for u in w], n, ln)}
    for p in 'xy':
        a, pa = d[p], d['p' + p]
        r[p + '_avg'] = avg(a, w)
        r['theta_' + p] = avg(pa, w)/avg(g, w)
        r['sigma_' + p] = std(a, w)
        for k, v in zip(('alpha_', 'beta_', 'gamma_'), twiss(a, pa, pz, w)):
            r[k + p] = v
        r['emitt_' + p] = emit(a, pa, w)
        r['avg_slice_emitt_' + p] = slices('slice emittance', (z, a, pa), w,
                                           n, ln)
    return r


DOM = {}


def setup(chk):
    x = chk.ctx()
    x.I.finite = True
    x.I.ext_hook = hook
    return x


def particles(x, tag):
    """A bunch of four particles with free coordinates."""
    d, a = {}, {}
    for k in COORDS + ('w',):
        d[k] = [T.sym('%s%s_%d' % (k, tag, i),
                      'pos' if k in ('w', 'pz') else 'real')
                for i in range(N)]
        a[k] = vec(x, d[k])
    q, prop = T.sym('q' + tag), T.sym('prop' + tag)
    b = x.call('wake_t:ParticleBunch', q_species=q, name='b' + tag,
               m_species=T.sym('m' + tag, 'pos'), prop_distance=prop, **a)
    return b, d, q, prop


def vec(x, vals):
    t = vals[-1]
    for i in range(N - 2, -1, -1):
        t = T.ite(T.eq(T.lane(1), C(i)), vals[i], t)
    return x.I.arr(x.st, (C(N),), t)


CASES = (('default slices', {}, C(50), C(-1)),
         ('n_slices', {'n_slices': T.sym('ns', 'int')}, T.sym('ns', 'int'),
          C(-1)),
         ('len_slice', {'len_slice': T.sym('ls', 'pos')}, C(-1),
          T.sym('ls', 'pos')))


def run(chk):
    chk.rules = {
        'value': 'each key holds its own statistic of the bunch',
        'list': 'each element of each array is the statistic of that bunch',
        'keys': 'the parameters reported',
        'kept': 'coordinates of the bunch after the analysis'}
    chk.need('value', 60)
    chk.need('list', 100)
    for name, kw, n, ln in CASES:
        chk.part('value', name, one, chk, name, kw, n, ln)
        for k in (1, 3) if name == 'n_slices' or chk.tier == 'thorough' else (2,):
            chk.part('list', name, many, chk, name, kw, n, ln, k)


def entries(x, d):
    return dict(x.st.heap[d.id][-1])


def one(chk, name, kw, n, ln):
    x = setup(chk)
    b, d, q, prop = particles(x, '')
    r = entries(x, x.call(W + 'analyze_bunch', b, **kw))
    ref = reference(d, q, prop, n, ln)
    for k, v in ref.items():
        if k not in r:
            chk.bad('keys', '%s: %s' % (name, k), W + 'analyze_bunch',
                    'parameter not reported')
            continue
        chk.equal('value', '%s: %s' % (name, k), W + 'analyze_bunch',
                  x.term(r[k]), v)
    for k in COORDS + ('w',):
        for i, u in enumerate(elements(x.I, x.st, x.attr(b, k))):
            chk.equal('kept', '%s: %s[%d]' % (name, k, i),
                      W + 'analyze_bunch', u, d[k][i])


def many(chk, name, kw, n, ln, m):
    x = setup(chk)
    bs = [particles(x, str(i)) for i in range(m)]
    r = entries(x, x.call(W + 'analyze_bunch_list', x.list(*[
        b[0] for b in bs]), **kw))
    for i, (b, d, q, prop) in enumerate(bs):
        for k, v in reference(d, q, prop, n, ln).items():
            tag = '%s: %s of bunch %d of %d' % (name, k, i, m)
            if k not in r:
                chk.bad('keys', tag, W + 'analyze_bunch_list',
                        'parameter not reported')
                continue
            a = r[k]
            if isinstance(a, ArrV):
                sh, t = x.content(a)
                if sh[0] != C(m):
                    chk.bad('list', tag, W + 'analyze_bunch_list',
                            'length %s' % T.show(sh[0]))
                    continue
                t = T.subst(t, {T.lane(1): C(i)})
            elif hasattr(a, 'id'):
                t = x.term(items(x, a)[i])
            else:
                t = a
            chk.equal('list', tag, W + 'analyze_bunch_list', t, v)
