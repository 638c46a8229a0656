"""Bookkeeping of the tracking through magnets."""

from ..core import T, C, taint, items
from ..phys import L1
from ..optics import (PAR, LEN, TH, G, U, Map, flow, from_bunch, to_bunch,
                      parameter_sets)

PROP = dict(
    id='C14', title='Magnet tracking steps add up and outputs lie where they '
    'should',
    statement='Tracking a bunch through a magnet with n_out steps transports '
    'it through exactly the length of the element, whatever n_out is; output '
    'k of n_out is the bunch after the fraction k/n_out of the element, the '
    'list has n_out entries (one more with out_initial), and the tracked '
    'bunch ends up equal to the last output. The propagation distance '
    'advances by the length covered, the reference angle by the bending '
    'angle covered and the reference offset along the bent reference path. '
    'The result in the local frame does not depend on the reference angle '
    'and offset with which the bunch arrives, nor on bunches tracked '
    'earlier: without gamma_ref each bunch uses its own mean energy.',
    over=['inputs', 'configurations', 'histories'],
    text='every bunch, element type, strength, order and number of outputs',
    why='the tests track single beamlines with fixed settings and compare '
    'final beam parameters; outputs along the element, re-use of an element '
    'and entry angles are not looked at',
    files=['wake_t/beamline_elements/tm_elements.py'],
    mechanism=[('step layout', 'wake_t/beamline_elements/tm_elements.py:'
                'TMElement._determine_steps'),
               ('reference path', 'wake_t/beamline_elements/tm_elements.py:'
                'TMElement._create_new_bunch'),
               ('update', 'wake_t/beamline_elements/tm_elements.py:'
                'TMElement._update_input_bunch')])

NAMES = ('x', "x'", 'y', "y'", 'tau', 'dp')
XYZ = ('x', 'y', 'xi', 'px', 'py', 'pz')


def run(chk):
    chk.rules = {
        'outputs': 'the returned list has n_out entries (plus the initial)',
        'position': 'propagation distance, reference angle and offset of '
        'output k follow the reference path for the length k*L/n_out',
        'steps': 'the map from the initial bunch to output k has the '
        'coefficients of the flow through the length k*L/n_out, up to the '
        'order of the element',
        'final': 'the tracked bunch equals the last output',
        'frame': 'the map in the local frame is the same for every entry '
        'angle and offset',
        'history': 'tracking leaves the settings of the element unchanged, '
        'and a second bunch is transported like the first',
        'reference': 'without gamma_ref the mean energy of the tracked bunch '
        'is the reference',
    }
    for r, n in (('outputs', 20), ('position', 60), ('steps', 100),
                 ('final', 60), ('frame', 60), ('history', 60),
                 ('reference', 30)):
        chk.need(r, n)
    for cls in PAR:
        for n_out in (None, 1, 2, 3):
            for init in (False, True):
                chk.part('outputs', cls, layout, chk, cls, n_out, init)
        for order in (1, 2):
            for th in (T.sym('th0'), C(0)):
                chk.part('frame', cls, frame, chk, cls, order, th)
        chk.part('history', cls, history, chk, cls)
        chk.part('reference', cls, reference, chk, cls)


def element(x, cls, **kw):
    return x.call('wake_t.beamline_elements:' + cls,
                  **dict(dict(length=LEN, gamma_ref=G), **dict(PAR[cls],
                                                               **kw)))


def layout(chk, cls, n_out, init):
    x = chk.ctx()
    el = element(x, cls, n_out=n_out)
    th0, xr0 = T.sym('th0'), T.sym('xr0')
    b = to_bunch(x, U)
    x.set(b, 'theta_ref', th0)
    x.set(b, 'x_ref', xr0)
    out = x.meth(el, 'track', b, out_initial=init, show_progress_bar=False)
    w = 'wake_t:%s.track' % cls
    tag = '%s(n_out=%s).track(out_initial=%s)' % (cls, n_out, init)
    its = items(x, out)
    want = (n_out or 0) + init
    if not chk.expect(len(its) == want, 'outputs', tag, w,
                      '%d bunches returned, %d required' % (len(its), want)):
        return
    pts = [(C(k + 1)/n_out, o, 'output %d' % (k+1)) for k, o in enumerate(
        its[int(init):])] if n_out else []
    pts.append((C(1), b, 'bunch'))
    if init:
        pts.append((C(0), its[0], 'initial'))
    for fr, o, nm in pts:
        d = LEN*fr
        chk.equal('position', '%s %s: prop_distance' % (tag, nm), w,
                  x.attr(o, 'prop_distance'), T.sym('prop') + d)
        th = PAR[cls].get('theta', C(0))*fr
        chk.equal('position', '%s %s: theta_ref' % (tag, nm), w,
                  x.attr(o, 'theta_ref'), th0 + th)
        if 'theta' in PAR[cls] and fr is not C(0):
            dx = LEN/TH*(T.fn('cos', th0) - T.fn('cos', th0 + th))
        else:
            dx = d*T.fn('sin', th0)
        chk.equal('position', '%s %s: x_ref' % (tag, nm), w,
                  x.attr(o, 'x_ref'), xr0 + dx, domains=DOM)
    if n_out:
        for k in XYZ + ('prop_distance', 'theta_ref', 'x_ref'):
            chk.equal('final', '%s: %s' % (tag, k), w, x.term(x.attr(b, k)),
                      x.term(x.attr(its[-1], k)), n=4, domains=DOM,
                      defs=SMALL)
    if init:
        for k in XYZ:
            chk.equal('final', '%s initial: %s' % (tag, k), w,
                      x.term(x.attr(its[0], k)),
                      x.term(x.attr(to_bunch(x, U), k)), n=4,
                      domains=DOM, defs=SMALL)
    if init or n_out is None:
        return
    for order in (1, 2):
        steps(chk, cls, n_out, order)


def steps(chk, cls, n_out, order):
    x = chk.ctx()
    el = element(x, cls, n_out=n_out, order=order)
    b = to_bunch(x, U)
    out = x.meth(el, 'track', b, show_progress_bar=False)
    w = 'wake_t:%s.track' % cls
    if n_out == 1:
        return
    for k, o in enumerate(items(x, out)):
        if order == 2 and chk.tier == 'quick' and (
                n_out == 3 or cls in ('Drift', 'Sextupole')):
            continue
        f = from_bunch(x, o)
        tag = '%s(n_out=%d, order=%d) output %d' % (cls, n_out, order, k+1)
        bad = set()
        for t in f:
            bad |= taint(t)
        if bad:
            chk.und('steps', tag, w, 'depends on unmodelled %s' % sorted(
                bad)[:4])
            continue
        sets = [p for c, p in parameter_sets(
            chk.seed, 3 if chk.tier == 'thorough' else 1) if c == cls]
        if chk.tier == 'quick':
            sets = sets[:1]
        wrong = {}
        for p in sets:
            _, R, Q = Map(f, p).coefficients(1/1024.)
            L = p['L']*(k + 1)/n_out
            R0, Q0 = flow(L, -p['theta']/p['L'], p['k1'], p['k2'],
                          p['g_ref'])
            for i in range(6):
                for j in range(6):
                    if abs(R[i][j] - R0[i][j]) > 1e-4:
                        wrong.setdefault((i, 'd%s/d%s' % (
                            NAMES[i], NAMES[j])), (R[i][j], R0[i][j], p))
                    for m in range(j+1):
                        if order == 2 and abs(Q[i][j][m] -
                                              Q0[i][j][m]) > 1e-3:
                            wrong.setdefault((i, 'd2%s/d%sd%s' % (
                                NAMES[i], NAMES[j], NAMES[m])),
                                (Q[i][j][m], Q0[i][j][m], p))
        for i in range(6):
            d = {a[1]: v for a, v in wrong.items() if a[0] == i}
            if d:
                chk.bad('steps', '%s: %s' % (tag, NAMES[i]), w, {
                    'coefficient (found, required, parameters)':
                    dict(list(d.items())[:4])})
            else:
                chk.ok('steps', '%s: %s' % (tag, NAMES[i]), w,
                       'interpretation')


SMALL = {'u%d' % i: (lambda i: lambda v, *a: .02*(
    T._u('u', i, v.seed, *a) - .5))(i) for i in range(1, 7)}
DOM = {'g_ref': lambda g: g.uniform(2, 9), 'L': lambda g: g.uniform(.3, 1.),
       'theta': lambda g: g.uniform(-.5, .5),
       'th0': lambda g: g.uniform(-.4, .4),
       'k1': lambda g: g.uniform(-2, 2), 'k2': lambda g: g.uniform(-2, 2)}


def frame(chk, cls, order, th):
    x = chk.ctx()
    w = 'wake_t:%s.track' % cls
    b0 = to_bunch(x, U)
    x.meth(element(x, cls, order=order), 'track', b0,
           show_progress_bar=False)
    b1 = to_bunch(x, U, th, T.sym('xr0'))
    x.meth(element(x, cls, order=order), 'track', b1,
           show_progress_bar=False)
    for nm, a, c in zip(NAMES, from_bunch(x, b1), from_bunch(x, b0)):
        chk.equal('frame', '%s(order=%d)%s: %s' % (
            cls, order, ' parallel to the axis' if th is C(0) else '', nm),
                  w, a, c,
                  domains=DOM, defs=SMALL, n=6, tol=1e-6)


FWD = {'pz': lambda v, *i: 3 + 2*T._u('pz', v.seed, *i),
       'w': lambda v, *i: .5 + T._u('w', v.seed, *i),
       'pz0': lambda v, *i: 3 + 2*T._u('pz0', v.seed, *i),
       'w0': lambda v, *i: .5 + T._u('w0', v.seed, *i)}
SETTINGS = ('length', 'theta', 'k1', 'k2', 'gamma_ref', 'n_out', 'order',
            'csr_on')


def history(chk, cls):
    x = chk.ctx()
    w = 'wake_t:%s.track' % cls
    for gr in (G, None):
        el = element(x, cls, gamma_ref=gr)
        before = {k: x.attr(el, k) for k in SETTINGS}
        x.meth(el, 'track', x.bunch('0'), show_progress_bar=False)
        for k in SETTINGS:
            tag = '%s(gamma_ref=%s): %s' % (cls, gr, k)
            if x.attr(el, k) is before[k]:
                chk.ok('history', tag, w)
            else:
                chk.equal('history', tag, w, x.attr(el, k), before[k])
        b1 = x.bunch()
        x.meth(el, 'track', b1, show_progress_bar=False)
        y = chk.ctx()
        b2 = y.bunch()
        y.meth(element(y, cls, gamma_ref=gr), 'track', b2,
               show_progress_bar=False)
        for k in XYZ:
            chk.equal('history', '%s(gamma_ref=%s) second bunch: %s' % (
                cls, gr, k), w, x.term(x.attr(b1, k)),
                y.term(y.attr(b2, k)), n=4, domains=DOM, defs=FWD)


def reference(chk, cls):
    x = chk.ctx()
    w = 'wake_t:%s.track' % cls
    b1 = x.bunch()
    px, py, pz, wt = (T.load(T.sym(k), L1) for k in ('px', 'py', 'pz', 'w'))
    i = T.sym('i', 'int')
    n = T.sym('n', 'int')

    def tot(t):
        return T.msum(i, T.subst(t, {L1: i}), n)
    g = T.power(1 + px**2 + py**2 + pz**2, C(1)/2)
    mean = tot(g*wt)/tot(wt)
    x.meth(element(x, cls, gamma_ref=None), 'track', b1,
           show_progress_bar=False)
    b2 = x.bunch()
    x.meth(element(x, cls, gamma_ref=mean), 'track', b2,
           show_progress_bar=False)
    for k in XYZ:
        chk.equal('reference', '%s: %s' % (cls, k), w, x.term(x.attr(b1, k)),
                  x.term(x.attr(b2, k)), domains=DOM, defs=FWD, n=6)
