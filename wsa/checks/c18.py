"""Beamlines and field elements hand everything on."""

from ..core import (T, NativeV, ObjV, Dead, TRUE, FALSE, ListV, TupleV, items,
                    density, reach)

PROP = dict(
    id='C18', title='A beamline tracks through its elements one after another',
    statement='Beamline.track passes the same bunches through every element '
    'exactly once, in the given order, and returns the concatenation of the '
    'outputs of the elements. One diagnostics object, the given one or a new '
    'one for diag_dir, serves all elements; without diagnostics nothing is '
    'written. A field element accepts a bunch or a list of bunches with one '
    'time step for all or one for each (any other number is rejected), tracks '
    'exactly these bunches for length/c with its own pusher, fields, number '
    'of outputs and time steps, and returns one list of outputs per bunch '
    '(just the list for one bunch).',
    over=['inputs', 'configurations', 'histories'],
    text='all lists of elements and bunches and all options of track',
    why='the tests track one bunch through at most a few elements without '
    'diagnostics and look at the final beam only',
    files=['wake_t/beamline_elements/beamline.py',
           'wake_t/beamline_elements/field_element.py'],
    mechanism=[('beamline', 'wake_t/beamline_elements/beamline.py'
                ':Beamline.track'),
               ('element', 'wake_t/beamline_elements/field_element.py'
                ':FieldElement.track')])

W = 'wake_t:Beamline.track'
WF = 'wake_t:FieldElement.track'
L, c = T.sym('length', 'pos'), T.sym('c', 'pos')


def run(chk):
    chk.rules = {
        'order': 'each element is tracked once, in order, with the bunches '
        'given by the user',
        'outputs': 'the outputs are those of the elements, concatenated',
        'diagnostics': 'all elements get the given diagnostics, or one new '
        'object writing to diag_dir, or none',
        'options': 'show_progress_bar reaches all elements',
        'element': 'a field element builds its tracker from the bunches and '
        'its own parameters',
        'tracker': 'every option of every field-based element reaches the '
        'tracker (whose schedule C21 decides): time of flight length/c, the '
        'bunches and their steps in order, pusher, number of outputs, fields '
        'and diagnostics',
        'returned': 'the returned lists are those of the tracked bunches',
        'again': 'an element tracks any number of bunches, also after '
        'another number was tracked before',
        'rejected': 'a wrong number of time steps is rejected',
    }
    chk.need('order', 9)
    chk.need('outputs', 3)
    chk.need('diagnostics', 12)
    chk.need('options', 6)
    chk.need('element', 20)
    chk.need('tracker', 150)
    chk.need('again', 12)
    chk.need('rejected', 3)
    for diag in ('none', 'new', 'given'):
        for bar in (True, False):
            chk.part('order', diag, line, chk, diag, bar)
    for nb in (0, 1, 2, 3):
        for many in (False, True):
            if nb or many:
                chk.part('element', '%d bunches' % nb, element, chk, nb, many)
    two = (T.sym('dt1', 'pos'), T.sym('dt2', 'pos'))
    for name in ELEMENTS:
        for n_out, push, pusher, dt in (
                (1, True, 'rk4', two), (2, False, 'boris', 'auto'),
                (3, True, 'boris', two)):
            chk.part('tracker', name, options, chk, name, n_out, push,
                     pusher, dt)
        chk.part('again', name, again, chk, name)
    chk.part('rejected', 'time steps', rejected, chk)


def isdiag(v):
    return isinstance(v, ObjV) and v.cls.name == 'OpenPMDDiagnostics'


def paths(it, st, path, args, kw, node):
    """Directory names, symbolically."""
    if path == 'os.getcwd':
        return '/cwd'
    if path == 'os.path.join' and all(isinstance(a, str) for a in args):
        return '/'.join(args)
    if path == 'os.path.abspath' and isinstance(args[0], str):
        return args[0] if args[0][:1] == '/' else '/cwd/' + args[0]
    return NotImplemented


def line(chk, diag, bar):
    x = chk.ctx()
    x.I.ext_hook = paths
    b = x.bunch()
    els, outs = [], []
    for i in range(3):
        el = x.call('wake_t.beamline_elements:FieldElement', length=L,
                    dt_bunch=T.sym('dt'))
        out = [T.sym('out%d%d' % (i, j)) for j in range(i + 1)]
        outs += out

        def track(it, st, args, kw, node, i=i, out=out):
            a = dict(zip(('bunches', 'opmd_diag', 'diag_dir',
                          'show_progress_bar'), args))
            a.update(kw)
            it.ev_log(st, 'track', node, i=i, a=a)
            return it.list_(st, out)
        x.set(el, 'track', NativeV('track', track))
        els.append(el)
    bl = x.call('wake_t:Beamline', x.list(*els))
    d = x.call('wake_t.diagnostics:OpenPMDDiagnostics')
    od = {'none': False, 'new': True, 'given': d}[diag]
    res = x.meth(bl, 'track', b, opmd_diag=od, diag_dir='folder',
                 show_progress_bar=bar)
    tag = 'opmd_diag=%s, show_progress_bar=%s' % (diag, bar)
    ev = x.events('track')
    chk.expect([e.d['i'] for e in ev] == [0, 1, 2], 'order',
               tag + ': elements', W, 'elements tracked in the order %s' %
               [e.d['i'] + 1 for e in ev])
    ref = x.attr(x.call('wake_t.diagnostics:OpenPMDDiagnostics',
                        write_dir='folder'), 'write_dir')
    first = None
    for e in ev:
        a, i = e.d['a'], e.d['i'] + 1
        v = a.get('bunches')
        if isinstance(v, ListV) and x.st.heap[v.id][0] == 'list':
            v = items(x, v)
            v = v[0] if len(v) == 1 else v
        if isinstance(v, (ObjV, list)):
            chk.expect(v is b or v == b, 'order', '%s: bunch of element %d' %
                       (tag, i), W, 'another bunch is tracked')
        else:
            chk.und('order', '%s: bunch of element %d' % (tag, i), W,
                    'value %r' % (v,))
        v = a.get('opmd_diag', FALSE)
        inst = '%s: diagnostics of element %d' % (tag, i)
        if diag == 'none':
            chk.expect(v is FALSE or v is None, 'diagnostics', inst, W,
                       'got %r' % (v,))
        elif diag == 'given':
            chk.expect(v == d, 'diagnostics', inst, W,
                       'not the object given to track')
        elif isdiag(v):
            chk.expect(first is None or v == first, 'diagnostics', inst, W,
                       'a new diagnostics object restarts the numbering of '
                       'the files and the position along the beamline')
            first = v
            w = x.attr(v, 'write_dir')
            if isinstance(w, str):
                chk.expect(w == ref, 'diagnostics', inst + ' directory', W,
                           'writes to %s' % (w,))
            else:
                chk.und('diagnostics', inst + ' directory', W, '%r' % (w,))
        else:
            chk.bad('diagnostics', inst, W, 'got %r: every element would '
                    'start its own output' % (v,))
        v = a.get('show_progress_bar', TRUE)
        chk.expect(v is (TRUE if bar else FALSE), 'options',
                   '%s: progress bar of element %d' % (tag, i), W,
                   'got %r' % (v,))
    if isinstance(res, ListV) and x.st.heap[res.id][0] == 'list':
        chk.expect(items(x, res) == outs, 'outputs', tag, W, 'returns %s' %
                   items(x, res))
    else:
        chk.und('outputs', tag, W, 'list not resolved')


def element(chk, nb, many):
    """FieldElement.track: observe what the tracker does with the bunches."""
    x = chk.ctx()
    bs = [x.bunch(str(i)) for i in range(nb)]
    dts = [T.sym('dt%d' % i, 'pos') for i in range(nb)]
    f = x.stub_field()
    for b in bs:
        def evolve(it, st, args, kw, node, b=b):
            a = dict(zip(('fields', 't', 'dt', 'pusher'), args))
            a.update(kw)
            it.ev_log(st, 'evolve', node, b=b, a=a)
        x.set(b, 'evolve', NativeV('evolve', evolve))
    tag = '%d bunches, %s' % (nb, 'one dt each' if many else 'one dt')
    el = x.call('wake_t.beamline_elements:FieldElement', length=L,
                dt_bunch=x.list(*dts) if many else T.sym('dt0', 'pos'),
                bunch_pusher='rk4', n_out=1, fields=x.list(f))
    single = nb == 1 and not many
    res = x.meth(el, 'track', bs[0] if single else x.list(*bs),
                 show_progress_bar=False)
    ev = x.events('evolve')
    for i, b in enumerate(bs):
        mine = [e for e in ev if e.d['b'] == b]
        dt = dts[i] if many else dts[0]
        inst = '%s: bunch %d' % (tag, i)
        chk.expect(mine, 'element', inst + ' is pushed', WF, 'never pushed')
        for e in mine:
            a = e.d['a']
            chk.expect(a.get('pusher', 'rk4') == 'rk4', 'element', inst +
                       ' pusher (%s)' % e.where, WF, '%r' % (a.get('pusher'),))
            fl = a.get('fields')
            if isinstance(fl, ListV) and x.st.heap[fl.id][0] == 'list':
                chk.expect(items(x, fl) == [f], 'element', inst +
                           ' fields (%s)' % e.where, WF,
                           'pushed in %s' % items(x, fl))
            if isinstance(a.get('dt'), T.Term):
                s = T.syms(a['dt'])
                names = {k.args[0] if isinstance(k, T.Term) else k for k in s}
                other = {'dt%d' % j for j in range(nb)} - {dt.args[0]}
                if not any('~' in str(k) or '#' in str(k) for k in names):
                    chk.expect(not names & other, 'element', inst +
                               ' time step (%s)' % e.where, WF,
                               'uses the step of another bunch: %s' %
                               T.show(a['dt']))
    names = set()
    for i in reach(x, res):
        p = x.st.heap[i]
        if p[0] == 'obj' and getattr(p[1], 'name', '') == 'ParticleBunch':
            names.add(p[2].get('name'))
    if names and all(isinstance(k, str) for k in names):
        for i in range(nb):
            chk.expect('bunch%d' % i in names, 'returned',
                       '%s: outputs of bunch %d' % (tag, i), WF,
                       'only outputs of %s are returned' % sorted(names))
    elif nb:
        chk.und('returned', tag + ': outputs', WF, 'not resolved')
    if isinstance(res, ListV) and x.st.heap[res.id][0] == 'list':
        r = items(x, res)
        lists = [r] if nb == 1 else [
            items(x, v) if isinstance(v, ListV) and
            x.st.heap[v.id][0] == 'list' else None for v in r]
        if nb == 1 and r and isinstance(r[0], ListV):
            chk.bad('returned', tag, WF, 'nested list for a single bunch')
        elif nb != 1:
            chk.expect(len(r) == nb, 'returned', tag, WF,
                       '%d lists for %d bunches' % (len(r), nb))
        for i, l in enumerate(lists):
            for v in l or ():
                if isinstance(v, ObjV):
                    chk.equal('returned', '%s: name of output %d' % (tag, i),
                              WF, x.attr(v, 'name'), 'bunch%d' % i)


# options of the elements that end up in the tracker
ELEMENTS = {
    'FieldElement': lambda x, f, k: x.call(
        'wake_t.beamline_elements:FieldElement', fields=x.list(f),
        auto_dt_bunch=auto(x), **k),
    'PlasmaStage': lambda x, f, k: x.call(
        'wake_t:PlasmaStage', density=density(x),
        wakefield_model='focusing_blowout', external_fields=x.list(f), **k),
    'PlasmaStage without wakefields': lambda x, f, k: x.call(
        'wake_t:PlasmaStage', density=density(x), wakefield_model=None,
        external_fields=x.list(f), **k),
    'PlasmaStage with given field': lambda x, f, k: x.call(
        'wake_t:PlasmaStage', density=density(x), wakefield_model=f, **k),
    'PlasmaRamp': lambda x, f, k: x.call(
        'wake_t:PlasmaRamp', profile=density(x), **k),
    'ActivePlasmaLens': lambda x, f, k: x.call(
        'wake_t:ActivePlasmaLens', foc_strength=T.sym('g'), **k),
    'ActivePlasmaLens with density only': lambda x, f, k: x.call(
        'wake_t:ActivePlasmaLens', foc_strength=T.sym('g'),
        density=density(x), wakefield_model='focusing_blowout', **k),
    'ActivePlasmaLens with wakefields': lambda x, f, k: x.call(
        'wake_t:ActivePlasmaLens', foc_strength=T.sym('g'), wakefields=True,
        density=density(x), wakefield_model='focusing_blowout', **k),
    'FieldQuadrupole': lambda x, f, k: x.call(
        'wake_t.beamline_elements:FieldQuadrupole', foc_strength=T.sym('g'),
        **k),
}
NFIELDS = {'PlasmaStage': 2, 'ActivePlasmaLens with wakefields': 2}


def auto(x):
    return NativeV('auto', lambda it, st, args, kw, node: T.sym('auto_dt'))


def options(chk, name, n_out, push, pusher, dt):
    x = chk.ctx()
    x.I.ext_hook = paths
    b = [x.bunch(t) for t in '12']
    for o in b:
        x.set(o, 'evolve', NativeV('evolve', lambda it, st, a, kw, node: None))
    f = x.stub_field()
    k = dict(length=L, dt_bunch=dt if isinstance(dt, str) else x.list(*dt),
             bunch_pusher=pusher, n_out=n_out, name='my element',
             push_bunches_before_diags=push)
    if name == 'FieldQuadrupole':
        if not push:
            return
        del k['push_bunches_before_diags']
    el = ELEMENTS[name](x, f, k)
    d = x.call('wake_t.diagnostics:OpenPMDDiagnostics')
    x.set(d, 'write_diagnostics', NativeV('w', lambda it, st, a, kw, n: None))
    x.meth(el, 'track', x.list(*b), opmd_diag=d, show_progress_bar=False)
    w = 'wake_t:%s.track' % name
    tag = '%s(n_out=%s, push_bunches_before_diags=%s, %s, dt_bunch=%s)' % (
        name, n_out, push, pusher, dt if isinstance(dt, str) else 'list')
    new = [e for e in x.events('new') if e.d['cls'].name == 'Tracker']
    if len(new) != 1:
        return chk.und('tracker', tag, w, '%d trackers' % len(new))
    init = x.I.class_attr(x.st, new[0].d['cls'], '__init__')
    a = x.I.bind_args(x.st, init, [new[0].d['obj']] + list(new[0].d['args']),
                      new[0].d['kw'], None)

    def arg(p, fn):
        if p not in a:
            chk.und('tracker', '%s: %s' % (tag, p), w, 'no such parameter')
        else:
            fn('tracker', '%s: %s' % (tag, p), a[p])

    def is_(want):
        return lambda r, i, v: chk.expect(v == want, r, i, w, 'got %r' % (v,))

    def seq(want):
        def go(r, i, v):
            if isinstance(v, ListV) and x.st.heap[v.id][0] == 'list':
                v = items(x, v)
            elif isinstance(v, TupleV):
                v = list(v.items)
            else:
                return chk.und(r, i, w, 'list not resolved')
            chk.expect(v == want, r, i, w, 'got %r' % (v,))
        return go
    arg('t_final', lambda r, i, v: chk.equal(r, i, w, x.term(v), L/c))
    arg('bunches', seq(b))
    arg('dt_bunches', seq([dt, dt] if isinstance(dt, str) else list(dt)))
    arg('n_diags', lambda r, i, v: chk.equal(r, i, w, v, T.C(n_out)))
    arg('bunch_pusher', is_(pusher))
    arg('push_bunches_before_diags', is_(TRUE if push else FALSE))
    arg('opmd_diags', is_(d))

    def fields(r, i, v):
        if not isinstance(v, ListV) or x.st.heap[v.id][0] != 'list':
            return chk.und(r, i, w, 'list not resolved')
        n = NFIELDS.get(name, 1)
        got = items(x, v)
        chk.expect(len(got) == n and len(set(map(id, got))) == n and (
            f in got or not name.startswith(('PlasmaS', 'FieldE'))), r, i, w,
            'fields %r' % (got,))
    arg('fields', fields)
    if dt == 'auto':
        def af(r, i, v):
            chk.expect(v is not None, r, i, w, 'no function for automatic '
                       'time steps')
        arg('auto_dt_bunch_f', af)


def again(chk, name):
    x = chk.ctx()
    bs = [x.bunch(t) for t in '123']
    for o in bs:
        x.set(o, 'evolve', NativeV('evolve', lambda it, st, a, kw, node: None))
    dt = T.sym('dt0', 'pos')
    el = ELEMENTS[name](x, x.stub_field(), dict(length=L, dt_bunch=dt,
                                                n_out=1, name='e'))
    w = 'wake_t:%s.track' % name
    for use in (bs[:2], bs[2:], bs):
        tag = '%s: %d bunches' % (name, len(use))
        try:
            x.meth(el, 'track', use[0] if len(use) == 1 else x.list(*use),
                   show_progress_bar=False)
        except Dead:
            chk.bad('again', tag, w, 'rejected in a later tracking')
            continue
        new = [e for e in x.events('new') if e.d['cls'].name == 'Tracker']
        if not new:
            chk.und('again', tag, w, 'no tracker')
            continue
        init = x.I.class_attr(x.st, new[-1].d['cls'], '__init__')
        a = x.I.bind_args(x.st, init, [new[-1].d['obj']] +
                          list(new[-1].d['args']), new[-1].d['kw'], None)
        v, d = a.get('bunches'), a.get('dt_bunches')
        if not (isinstance(v, ListV) and isinstance(d, ListV) and
                x.st.heap[v.id][0] == x.st.heap[d.id][0] == 'list'):
            chk.und('again', tag, w, 'list not resolved')
            continue
        chk.expect(items(x, v) == use and items(x, d) == [dt]*len(use),
                   'again', tag, w, 'tracker gets %r with steps %r' % (
                       items(x, v), items(x, d)))


def rejected(chk):
    for nb, nd in ((1, 2), (2, 1), (2, 3)):
        x = chk.ctx()
        el = x.call('wake_t.beamline_elements:FieldElement', length=L,
                    dt_bunch=x.list(*[T.sym('dt%d' % i, 'pos')
                                      for i in range(nd)]),
                    fields=x.list(x.stub_field()))
        bs = [x.bunch(str(i)) for i in range(nb)]
        inst = '%d time steps for %d bunches' % (nd, nb)
        try:
            x.meth(el, 'track', x.list(*bs), show_progress_bar=False)
            chk.bad('rejected', inst, WF, 'accepted')
        except Dead:
            chk.ok('rejected', inst, WF)
