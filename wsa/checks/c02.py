"""Copies and outputs are complete and independent."""

from ..core import T, reach, leaves, ObjV
from ..optics import PAR, LEN
from .c01 import FIELD

PROP = dict(
    id='C02', title='Bunch copies and tracking outputs are complete snapshots',
    statement='ParticleBunch.copy() returns a bunch with every public '
    'attribute equal to that of the original. Neither a copy nor any bunch '
    'returned by a tracking shares a mutable array with the tracked bunch or '
    'with another output, so that later tracking or editing of one never '
    'changes another.',
    over=['inputs', 'histories', 'configurations'],
    text='every bunch (species, tags, reference angle and offset, injection '
    'position), every element, before and after any tracking',
    why='the tests use outputs immediately and only through mean beam '
    'parameters; they never edit one snapshot and look at another',
    files=['wake_t/particles/particle_bunch.py',
           'wake_t/beamline_elements/tm_elements.py',
           'wake_t/tracking/tracker.py'],
    mechanism=[('copy', 'wake_t/particles/particle_bunch.py:'
                'ParticleBunch.copy'),
               ('output bunches', 'wake_t/beamline_elements/tm_elements.py:'
                '_create_new_bunch'),
               ('diagnostic copies', 'wake_t/tracking/tracker.py:Tracker')])

REF = dict(x_ref=T.sym('x_ref'), theta_ref=T.sym('theta_ref'))


def run(chk):
    chk.rules = {
        'complete': 'each public attribute of the copy is value-numbered to '
        'the attribute of the original',
        'independent': 'the sets of mutable cells reachable from the copy '
        'and from the original are disjoint',
        'pure': 'copying leaves the attributes of the original unchanged',
        'outputs': 'the cells reachable from an output of a tracking are '
        'disjoint from those of the tracked bunch and of other outputs',
    }
    chk.need('complete', 30)
    chk.need('independent', 2)
    chk.need('outputs', 30)
    for used in (False, True):
        chk.part('complete', 'copy', copy, chk, used)
    for cls in PAR:
        for n_out in (None, 2, 3):
            for init in (False, True):
                chk.part('outputs', cls, magnet, chk, cls, n_out, init)
    for name in ('FieldElement', 'focusing_blowout', 'ActivePlasmaLens'):
        chk.part('outputs', name, field, chk, name)


def make(x):
    n = T.sym('n', 'int')
    b = x.bunch(tags=x.arr('tags', n), t_flight=T.sym('t_flight'),
                z_injection=T.sym('z_inj'))
    for k, v in REF.items():
        x.set(b, k, v)
    return b


def attrs(x, b):
    d = x.st.heap[b.id][-1]
    return {k: v for k, v in d.items() if not k.startswith('_')}


def copy(chk, used):
    x = chk.ctx()
    b = make(x)
    tag = 'copy'
    if used:
        for p in ('boris', 'rk4'):
            x.meth(b, 'evolve', x.list(x.stub_field()), T.sym('t'),
                   T.sym('dt'), p)
        tag = 'copy after evolve()'
    w = 'wake_t:ParticleBunch.copy'
    before = {k: x.term(v) for k, v in attrs(x, b).items()}
    c = x.meth(b, 'copy')
    for k, v in before.items():
        now = x.st.heap[b.id][-1].get(k)
        chk.equal('pure', '%s: %s' % (tag, k), w, x.term(now), v)
        d = x.st.heap[c.id][-1]
        if k not in d:
            chk.bad('complete', '%s: %s' % (tag, k), w,
                    'the copy has no attribute ' + k)
        else:
            chk.equal('complete', '%s: %s' % (tag, k), w, x.term(d[k]), v)
    shared(chk, x, 'independent', tag, w, b, c)


def shared(chk, x, rule, tag, w, a, b):
    s = reach(x, a) & reach(x, b)
    if not s:
        return chk.ok(rule, tag, w)
    names = sorted('%s is %s' % (k, k2)
                   for k, v in x.st.heap[b.id][-1].items()
                   for k2, v2 in x.st.heap[a.id][-1].items()
                   if reach(x, v) & reach(x, v2))
    return chk.bad(rule, tag, w, 'shared: %s' % (names[:8],))


def magnet(chk, cls, n_out, init):
    x = chk.ctx()
    b = make(x)
    el = x.call('wake_t.beamline_elements:' + cls, gamma_ref=T.sym('g_ref'),
                length=LEN, n_out=n_out, **PAR[cls])
    out = x.meth(el, 'track', b, out_initial=init, show_progress_bar=False)
    tag = '%s(n_out=%s).track(out_initial=%s)' % (cls, n_out, init)
    w = 'wake_t:%s.track' % cls
    p = x.st.heap[out.id]
    if p[0] != 'list':
        return chk.und('outputs', tag, w, 'list of unknown length')
    its = [b] + list(p[1])
    for i in range(len(its)):
        for j in range(i):
            shared(chk, x, 'outputs', '%s %s and %s' % (
                tag, 'bunch' if j == 0 else 'output %d' % j,
                'output %d' % i), w, its[j], its[i])
    if len(its) == 1:
        chk.ok('outputs', tag + ': no outputs', w)


def field(chk, name):
    x = chk.ctx()
    b = make(x)
    el = FIELD[name](x, n_out=2, dt_bunch=T.sym('dt_bunch', 'pos'))
    ret = x.meth(el, 'track', b, show_progress_bar=False)
    w = 'wake_t:%s.track' % name
    lists = reach(x, ret)
    chk.expect(b.id not in lists, 'outputs', name + '.track() returned list',
               w, 'the list holds the tracked bunch itself, not a copy')
    for e in x.events('append'):
        for o in leaves(e.d['value']):
            if not isinstance(o, ObjV) or o.id not in x.st.heap or \
                    o.cls.name != 'ParticleBunch':
                continue
            if o == b:
                chk.expect(e.d['list'].id not in lists, 'outputs',
                           name + '.track() output', e.where, 'the tracked '
                           'bunch itself, not a copy, is put in the output')
            else:
                shared(chk, x, 'outputs', '%s.track() output at %s' % (
                    name, e.where), w, b, o)
