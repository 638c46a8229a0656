"""Coherent synchrotron radiation: bookkeeping of steps, path and kicks."""

from ..core import T, C, items, TupleV, ArrV, Term
from ..phys import L1
from ..optics import PAR, LEN, G, U, from_bunch, to_bunch

PROP = dict(
    id='C30', title='CSR kicks act once per step, along the path travelled',
    statement='With csr_on an element is tracked in equal steps, none longer '
    'than csr_step, an integral number of them per output (or per element); '
    'after the transport through each step one kick is applied, at the '
    'position reached in the element, with the charge of the bunch and the '
    'reference energy. A kick changes only the energy deviations and does '
    'not depend on the sign of the charge. It is the one of the path '
    'travelled through the elements with CSR since the last element without '
    'CSR (or reset), also if the same element appears several times: the '
    'path is continuous, straight in elements without bending and an arc of '
    'radius length/theta in bends, known at equal distances not longer than '
    'csr_traj_step and exactly as long as the elements.',
    over=['inputs', 'configurations', 'histories'],
    text='every sequence of elements, length, angle, step setting, number of '
    'outputs and bunch',
    why='no test tracks with CSR; wrong positions, steps or leftovers of an '
    'earlier beamline change the kick without any error',
    files=['wake_t/physics_models/collective_effects/csr.py',
           'wake_t/beamline_elements/tm_elements.py'],
    mechanism=[('calculator', 'wake_t/physics_models/collective_effects/'
                'csr.py:CSRCalculator'),
               ('kicks', 'wake_t/beamline_elements/tm_elements.py:'
                'TMElement.track')])

CSR = 'wake_t.physics_models.collective_effects.csr:'
LA, LB, LC, TA, TC = (T.sym(k, 'pos') for k in ('LA', 'LB', 'LC', 'tA', 'tC'))
STEP, TRAJ = T.sym('csr_step', 'pos'), T.sym('traj_step', 'pos')
DOM = {'LA': lambda g: .3 + g.random(), 'LB': lambda g: .3 + g.random(),
       'LC': lambda g: .3 + g.random(), 'tA': lambda g: .1 + g.random(),
       'tC': lambda g: .1 + g.random(),
       'csr_step': lambda g: .05 + .6*g.random(),
       'traj_step': lambda g: .02 + .1*g.random(),
       'g_ref': lambda g: g.uniform(2, 9), 'L': lambda g: g.uniform(.3, 1.),
       'theta': lambda g: g.uniform(.1, .6),
       # the kernel is proportional to 1e-7*c**2
       'c': lambda g: g.uniform(3e3, 6e3)}
SMALL = {'u%d' % (k+1): (lambda k: lambda v, i, *a: .01*(k+1 + (i*7+3) % 5))(k)
         for k in range(6)}


def run(chk):
    chk.rules = {
        'protocol': 'tracking with csr_on registers the element once, then '
        'kicks once per step at the end of the step; without csr_on the path '
        'is cleared and nothing is kicked',
        'outputs': 'every output and the tracked bunch carry all kicks up to '
        'their position',
        'steps': 'the step divides the output distance (or element) into an '
        'integral number of parts not longer than csr_step',
        'energy': 'a kick leaves positions and angles alone',
        'sign': 'the kick is the same for charges of opposite sign',
        'history': 'the kick depends on the path since the last reset only, '
        'and repeated elements count like different ones',
        'path': 'the stored path is the reference orbit of the elements',
        'shared': 'all elements use the calculator that the settings and '
        'reset functions act on',
    }
    for r, n in (('protocol', 20), ('outputs', 20), ('steps', 6),
                 ('energy', 5), ('sign', 1), ('history', 6), ('path', 20),
                 ('shared', 3)):
        chk.need(r, n)
    for cls in PAR:
        for n_out, n in ((None, 3), (1, 1), (1, 2), (2, 4)):
            chk.part('protocol', cls, protocol, chk, cls, n_out, n)
        chk.part('protocol', cls, off, chk, cls)
    chk.part('steps', 'get_csr_step', steps, chk)
    chk.part('energy', 'apply_csr', energy, chk)
    chk.part('history', 'apply_csr', history, chk)
    chk.part('path', 'reference path', path, chk)
    chk.part('path', 'mirrored path', path, chk, True)
    chk.part('shared', 'calculator', shared, chk)


def calculator(x, calls, step=None):
    """A calculator that records what it is asked for."""
    c = x.call(CSR + 'CSRCalculator')

    def rec(name, ret=None):
        def f(it, st, args, kw, node):
            calls.append((name, list(args), dict(kw)))
            return ret
        return x.native(name, f)
    x.set(c, 'add_lattice_element', rec('add'))
    x.set(c, 'get_csr_step', rec('step', step))
    x.set(c, 'clear', rec('clear'))

    def apply(it, st, args, kw, node):
        names = ('bunch_matrix', 'bunch_q', 'gamma', 'element',
                 'element_pos')
        d = dict(zip(names, args))
        d.update(kw)
        k = sum(1 for q in calls if q[0] == 'kick')
        m = d['bunch_matrix']
        row = it.getitem(st, m, C(5), node)
        d['dp'] = it.content(st, row)[1]
        d['q'] = it.content(st, d['bunch_q'])[1]
        sh, old = it.content(st, row)
        it.setitem(st, m, C(5), it.arr(st, sh, T.add(old, kick(k))), node)
        calls.append(('kick', d, {}))
        return None
    x.set(c, 'apply_csr', x.native('apply_csr', apply))
    return c


def kick(k):
    return T.load(T.sym('kick%d' % k), L1)


def element(x, cls, **kw):
    return x.call('wake_t.beamline_elements:' + cls,
                  **dict(dict(length=LEN, gamma_ref=G), **dict(PAR[cls],
                                                               **kw)))


def protocol(chk, cls, n_out, n):
    x = chk.ctx()
    w = 'wake_t:%s.track' % cls
    tag = '%s(csr_on=True, n_out=%s), %d steps' % (cls, n_out, n)
    el = element(x, cls, csr_on=True, n_out=n_out, order=1)
    calls = []
    x.set(el, 'csr_calculator', calculator(x, calls, LEN/n))
    b = to_bunch(x, U)
    q0 = x.term(x.attr(b, 'q'))
    out = x.meth(el, 'track', b, show_progress_bar=False)
    kinds = [k for k, _, _ in calls]
    kicks = [d for k, d, _ in calls if k == 'kick']
    if 'add' not in kinds and not kicks:
        return chk.und('protocol', tag, w, 'calculator not asked')
    adds = [a for k, a, _ in calls if k == 'add']
    chk.expect(len(adds) == 1 and adds[0] and adds[0][0] is el or
               len(adds) == 1 and same(adds[0], el), 'protocol',
               tag + ': registered', w,
               'element registered %d times' % len(adds))
    chk.expect('clear' not in kinds, 'protocol', tag + ': path kept', w,
               'the path is cleared although csr_on')
    if 'step' in kinds and 'add' in kinds:
        chk.expect(kinds.index('add') < kinds.index('step'), 'protocol',
                   tag + ': order', w, 'step size used before registering')
    if not chk.expect(len(kicks) == n, 'protocol', tag + ': kicks', w,
                      '%d kicks in %d steps' % (len(kicks), n)):
        return
    for k, d in enumerate(kicks):
        nm = '%s: kick %d ' % (tag, k + 1)
        chk.equal('protocol', nm + 'position', w, d['element_pos'],
                  LEN*(k + 1)/n)
        chk.equal('protocol', nm + 'energy', w, d['gamma'], G)
        chk.equal('protocol', nm + 'charge', w, d['q'], q0)
        chk.expect(same([d['element']], el), 'protocol', nm + 'element', w,
                   'another element is given')
        chk.equal('protocol', nm + 'after earlier kicks', w, d['dp'],
                  U[5] + sum((kick(j) for j in range(k)), C(0)),
                  domains=DOM, defs=SMALL, n=6, tol=1e-6)
    its = items(x, out)
    if not chk.expect(len(its) == (n_out or 0), 'outputs', tag + ': number',
                      w, '%d outputs' % len(its)):
        return
    if n_out and n % n_out:
        return
    pts = [(its[k], (k + 1)*n//n_out, 'output %d' % (k + 1))
           for k in range(n_out)] if n_out else []
    pts.append((b, n, 'bunch'))
    for o, m, nm in pts:
        chk.equal('outputs', '%s: %s' % (tag, nm), w, from_bunch(x, o)[5],
                  U[5] + sum((kick(j) for j in range(m)), C(0)),
                  domains=DOM, defs=KICKS, n=6, tol=1e-6)
        chk.equal('outputs', '%s: %s position' % (tag, nm), w,
                  x.attr(o, 'prop_distance'), T.sym('prop') + LEN*m/n)


KICKS = dict(SMALL, **{'kick%d' % k: (lambda k: lambda v, i, *a:
                                      .003*(k+1) + .001*(i % 3))(k)
                       for k in range(8)})


def same(args, el):
    return bool(args) and getattr(args[0], 'id', None) == el.id


def off(chk, cls):
    x = chk.ctx()
    w = 'wake_t:%s.track' % cls
    el = element(x, cls, csr_on=False, n_out=2, order=1)
    calls = []
    x.set(el, 'csr_calculator', calculator(x, calls, LEN/4))
    x.meth(el, 'track', to_bunch(x, U), show_progress_bar=False)
    kinds = [k for k, _, _ in calls]
    chk.expect('kick' not in kinds and 'add' not in kinds, 'protocol',
               cls + '(csr_on=False)', w,
               'calls of the calculator: %s' % kinds)
    # an element without CSR between two with CSR starts a new path
    x, y = chk.ctx(), chk.ctx()
    c = real(x)
    A, B, D = lattice(x, 'A', 'B', 'C')
    x.meth(c, 'add_lattice_element', A)
    x.meth(element(x, cls, csr_on=False, order=1), 'track', to_bunch(x, U),
           show_progress_bar=False)
    d = fresh(y)
    B2, D2 = lattice(y, 'B', 'C')
    for o, k, el in ((x, c, B), (x, c, D), (y, d, B2), (y, d, D2)):
        o.meth(k, 'add_lattice_element', el)
    chk.equal('protocol', cls + '(csr_on=False) ends the path', w,
              kicked(x, c, D)[5], kicked(y, d, D2)[5], domains=DOM,
              allow=('numpy', 'scipy', 'callval'), n=8)


def lattice(x, *names):
    cache = {}
    out = []
    for nm in names:
        if nm not in cache:
            k = nm[0]
            if k == 'B':
                cache[nm] = x.call('wake_t:Drift', length=LB, gamma_ref=G,
                                   csr_on=True)
            else:
                cache[nm] = x.call(
                    'wake_t:Dipole', length=LA if k == 'A' else LC,
                    theta=TA if k == 'A' else -TC, gamma_ref=G, csr_on=True)
        out.append(cache[nm])
    return out


def real(x):
    return settings(x, x.call(CSR + 'get_csr_calculator'))


def fresh(x):
    return settings(x, x.call(CSR + 'CSRCalculator'))


def settings(x, c):
    x.meth(c, 'set_settings', csr_step=STEP, csr_traj_step=TRAJ,
           n_bins=T.sym('n_bins', 'int'))
    return c


def kicked(x, c, el, sign=1, pos=None):
    n = T.sym('n', 'int')
    m = x.arr('M', C(6), n)
    q = x.I.ew(x.st, lambda a: T.mul(C(sign), a), [x.arr('q', n)]) \
        if sign != 1 else x.arr('q', n)
    x.meth(c, 'apply_csr', m, q, G, el,
           T.sym('pos') if pos is None else pos)
    rows = [x.term(x.I.getitem(x.st, m, C(k), None)) for k in range(6)]
    # the kick itself, in units of its small prefactor
    rows[5] = (rows[5] - T.load(T.sym('M'), C(5), L1))*10**6
    return rows


def signs(it, st, path, args, kw, node):
    """A histogram is linear in the weights; a KDE normalises them."""
    w = kw.get('weights')
    if path not in ('numpy.histogram', 'scipy.stats.gaussian_kde') or \
            w is None:
        return NotImplemented
    sh, t = it.content(st, w) if isinstance(w, ArrV) else (None, w)
    if not isinstance(t, Term) or not negative(t):
        return NotImplemented
    r = it.opaque_call(st, path, args, dict(kw, weights=it.ew(
        st, lambda a: T.mul(C(-1), a), [w])), node)
    if path != 'numpy.histogram':
        return r
    h = it.getitem(st, r, C(0), node)
    return TupleV((it.ew(st, lambda a: T.mul(C(-1), a), [h]),
                   it.getitem(st, r, C(1), node)))


def negative(t):
    return t.op == 'mul' and t.args[0] < 0


def steps(chk):
    w = CSR + 'CSRCalculator.get_csr_step'
    for n_out in (None, 1, 2, 3):
        x = chk.ctx()
        c = fresh(x)
        el = x.call('wake_t:Drift', length=LA, gamma_ref=G, csr_on=True,
                    n_out=n_out)
        x.meth(c, 'add_lattice_element', el)
        ds = x.term(x.meth(c, 'get_csr_step', el))
        r = LA/(n_out or 1)/ds
        tag = 'n_out=%s' % n_out
        chk.equal('steps', tag + ': integral number', w,
                  T.b2t(T.le(T.fn('abs', r - T.fn('floor', r + C(1)/2)),
                             C(1)/10**6)), 1, domains=DOM)
        chk.equal('steps', tag + ': not longer than csr_step', w,
                  T.b2t(T.le(ds, STEP*(1 + C(1)/10**9))), 1, domains=DOM)


def energy(chk):
    w = CSR + 'CSRCalculator.apply_csr'
    res = []
    for s in (1, -1):
        x = chk.ctx()
        c = fresh(x)
        A, B = lattice(x, 'A', 'B')
        for e in (A, B):
            x.meth(c, 'add_lattice_element', e)
        x.I.ext_hook = signs
        rows = kicked(x, c, B, s)
        res.append(rows[5])
        if s == 1:
            for k, nm in enumerate(('x', "x'", 'y', "y'", 'tau')):
                chk.equal('energy', nm, w, rows[k],
                          T.load(T.sym('M'), C(k), L1))
            chk.expect(rows[5] is not T.ZERO, 'energy', 'kick', w,
                       'no kick is applied')
    chk.equal('sign', 'kick', w, res[1], res[0], domains=DOM,
              allow=('numpy', 'scipy', 'callval'), n=8)


def history(chk):
    w = CSR + 'CSRCalculator.apply_csr'

    def res(seq, last, before=()):
        x = chk.ctx()
        c = fresh(x)
        els = lattice(x, *(tuple(before) + tuple(seq)))
        for e in els[:len(before)]:
            x.meth(c, 'add_lattice_element', e)
        if before:
            kicked(x, c, els[len(before)-1])
            x.meth(c, 'clear')
        for e in els[len(before):]:
            x.meth(c, 'add_lattice_element', e)
        return kicked(x, c, els[-1])[5]
    ok = dict(domains=DOM, allow=('numpy', 'scipy', 'callval'), n=8)
    chk.equal('history', 'repeated bend', w, res('ABA', 0),
              res(('A', 'B', 'A2'), 0), **ok)
    chk.equal('history', 'repeated drift', w, res('BAB', 0),
              res(('B', 'A', 'B2'), 0), **ok)
    chk.equal('history', 'after a reset', w, res('BC', 0, 'CA'),
              res('BC', 0), **ok)
    # the path length before an element counts, bent or straight: the same
    # place seen from the element before (of the same length and steps)
    for th in (None, TA, -TC):
        x = chk.ctx()
        c = fresh(x)
        k = dict(length=LA, gamma_ref=G, csr_on=True)
        e1, e2 = (x.call('wake_t:Drift', **k) if t is None else
                  x.call('wake_t:Dipole', theta=t, **k)
                  for t in (th, TA if th is None else None))
        for e in (e1, e2):
            x.meth(c, 'add_lattice_element', e)
        p = T.sym('pos')
        chk.equal('history', 'position after a %s' % (
            'drift' if th is None else 'bend of %s' % T.show(th)), w,
            kicked(x, c, e2)[5], kicked(x, c, e1, 1, LA + p)[5], **ok)
    chk.equal('history', 'same elements after a reset', w,
              res('AB', 0, 'AB'), res('AB', 0), **ok)


def path(chk, mirror=False):
    """mirror: both bends the other way, the same path with x reversed."""
    x = chk.ctx()
    w = CSR + 'CSRCalculator.add_lattice_element'
    c = fresh(x)
    A, B, D = lattice(x, 'A', 'B', 'C')
    if mirror:
        A, D = (x.call('wake_t:Dipole', length=l, theta=t, gamma_ref=G,
                       csr_on=True) for l, t in ((LA, -TA), (LC, TC)))
    tag = 'mirrored ' if mirror else ''
    for e in (A, B, D):
        x.meth(c, 'add_lattice_element', e)
    tr = [v for k, v in x.fields(c).items()
          if x.is_arr(v) and len(x.shape(v) or ()) == 2
          and x.shape(v)[0] is C(7)]
    if len(tr) != 1:
        return chk.und('path', 'stored path', w, 'not found')
    r = tr[0]
    n = x.shape(r)[1]

    def at(k, j):
        return x.term(x.I.getitem(x.st, r, TupleV((C(k), j)), None))
    j = T.sym('j', 'int')
    u = T.sym('u', 'pos')
    dom = dict(DOM, j=lambda g: g.randrange(0, 10**6),
               u=lambda g: g.random())
    jj = T.fn('floor', u*n)
    s = at(0, jj)
    chk.equal('path', tag + 'starts at 0', w, at(0, C(0)), 0, domains=dom)
    chk.equal('path', tag + 'ends with the elements', w, at(0, n - 1),
              LA + LB + LC, domains=dom)
    nxt = at(0, jj + 1)
    inside = T.lt(jj + 1, n)
    chk.equal('path', tag + 'ordered', w, T.b2t(T.lt(s, nxt)), 1, assume=inside,
              domains=dom)
    chk.equal('path', tag + 'resolution', w, T.b2t(T.le(
        nxt - s, TRAJ*(1 + C(1)/10**9))), 1, assume=inside, domains=dom)
    # reference orbit at the distance s: bend in x-z, straight, bend back
    ra, rc = LA/TA, LC/TC
    sa = T.fn('min', s, LA) if False else T.ite(T.lt(s, LA), s, LA)
    sb = T.ite(T.lt(s, LA), C(0), T.ite(T.lt(s, LA + LB), s - LA, LB))
    sc = T.ite(T.lt(s, LA + LB), C(0), s - LA - LB)
    sin, cos = (lambda a: T.fn('sin', a)), (lambda a: T.fn('cos', a))
    pa = sa/ra
    X = ra*(1 - cos(pa)) + sb*sin(TA)
    Z = ra*sin(pa) + sb*cos(TA)
    pc = sc/rc
    X = X + rc*(cos(TA - pc) - cos(TA))
    Z = Z + rc*(sin(TA) - sin(TA - pc))
    ang = pa - pc
    want = [None, X, C(0), Z, sin(ang), C(0), cos(ang)]
    flip = sign_of(x, chk, at, n, dom) if not mirror else not FLIP[0]
    FLIP[:] = [flip]
    for k, nm in ((1, 'x'), (2, 'y'), (3, 'z'), (4, 'tangent x'),
                  (5, 'tangent y'), (6, 'tangent z')):
        v = want[k]
        if flip and k in (1, 4):
            v = -v
        chk.equal('path', tag + nm, w, at(k, jj), v, domains=dom, n=24, tol=1e-6)


FLIP = [False]


def sign_of(x, chk, at, n, dom):
    """The orientation of x is a convention: bend towards -x or +x."""
    e = at(4, n - 1)
    r = T.equal(e, -T.fn('sin', TA - TC), domains=dom, n=6)
    return r.ok and r.how != 'vacuous'


def shared(chk):
    x = chk.ctx()
    w = CSR + 'get_csr_calculator'
    c = x.call(CSR + 'get_csr_calculator')
    ids = set()
    for cls in PAR:
        e = element(x, cls, csr_on=True)
        ids.add(getattr(x.attr(e, 'csr_calculator'), 'id', None))
    chk.expect(ids == {c.id}, 'shared', 'elements', w,
               'elements use different calculators')
    # settings reach the shared calculator
    x.call('wake_t:set_csr_settings', csr_step=STEP, csr_traj_step=TRAJ,
           n_bins=T.sym('n_bins', 'int'))
    el = x.call('wake_t:Drift', length=LA, gamma_ref=G, csr_on=True)
    y = chk.ctx()
    d = fresh(y)
    el2 = y.call('wake_t:Drift', length=LA, gamma_ref=G, csr_on=True)
    x.meth(c, 'add_lattice_element', el)
    y.meth(d, 'add_lattice_element', el2)
    ok = dict(domains=DOM, allow=('numpy', 'scipy', 'callval'), n=8)
    chk.equal('shared', 'settings', CSR + 'set_csr_settings',
              kicked(x, c, el)[5], kicked(y, d, el2)[5], **ok)
    x.call(CSR + 'reset_csr_calculator')
    el3 = x.call('wake_t:Drift', length=LA, gamma_ref=G, csr_on=True)
    x.meth(c, 'add_lattice_element', el3)
    chk.equal('shared', 'reset', CSR + 'reset_csr_calculator',
              kicked(x, c, el3)[5], kicked(y, d, el2)[5], **ok)
