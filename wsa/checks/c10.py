"""The number of threads of the process is restored after tracking."""

from ..core import T, C, Dead, ExcV, NativeV, TRUE

PROP = dict(
    id='C10', title='Tracking restores the caller\'s number of threads',
    statement='While bunches are tracked in fields, numba runs with the '
    'number of threads requested from Wake-T. Once the tracking ends, '
    'normally or by an exception raised anywhere in it (by a field, a '
    'diagnostic or a user-given function), the number of threads is again '
    'the one that the calling application had set.',
    over=['inputs', 'faults', 'configurations'],
    text='every initial number of threads, every exit from the tracking, '
    'every failing call',
    why='no test looks at the thread count or makes a callback fail in the '
    'middle of a tracking',
    files=['wake_t/tracking/tracker.py', 'wake_t/utilities/numba.py'],
    mechanism=[('set and reset', 'wake_t/tracking/tracker.py:'
                'Tracker.do_tracking')])


def run(chk):
    chk.rules = {
        'normal exit': 'on return the thread count is value-numbered to the '
        'one before the call',
        'exception': 'in every state in which an exception leaves track() '
        'the thread count is the one before the call',
        'inside': 'in every call to a field or user function during the '
        'tracking the thread count is the one configured for Wake-T',
    }
    chk.need('normal exit', 2)
    chk.need('exception', 4)
    chk.need('inside', 2)
    for dt in ('auto', T.sym('dt_bunch', 'pos')):
        for diag in (False, True):
            chk.part('normal exit', 'track', one, chk, dt, diag)


def one(chk, dt, diag):
    x = chk.ctx()
    ghost = x.I.dict_(x.st, {'threads': T.sym('threads')})
    inside, raising = [], []

    def get(st):
        return st.heap[ghost.id][-1]['threads']

    def hook(it, st, path, args, kw, node):
        if path == 'numba.set_num_threads':
            v = args[0] if args else next(iter(kw.values()))
            st.heap[ghost.id] = ('dict', {'threads': v})
            return None
        if path == 'numba.get_num_threads':
            return get(st)
        return NotImplemented
    x.I.ext_hook = hook

    def may_raise(it, st, what, node):
        inside.append((what, get(st)))
        for exc in ('RuntimeError', 'KeyboardInterrupt'):
            b = T.boolsym(it.fresh('raises:' + what))
            bad = st.fork(b)
            if bad is not None:
                raising.append((what, exc))
                it.sinks[-1].append((bad, ExcV(exc, ((what, exc),)), node))
            ok = st.fork(T.bnot(b))
            if ok is None:
                raise Dead()
            st.become(ok)

    F = x.get('wake_t.fields.base:Field')
    f = x.call(F)
    x.set(f, '_gather', NativeV('gather', lambda it, st, a, k, node:
                                may_raise(it, st, 'field', node)))

    def auto(it, st, a, k, node):
        may_raise(it, st, 'auto_dt_bunch', node)
        return T.sym('auto_dt', 'pos')
    kw = {}
    if diag:
        D = x.call('wake_t.diagnostics:OpenPMDDiagnostics')
        x.set(D, 'write_diagnostics', NativeV(
            'write', lambda it, st, a, k, node:
            may_raise(it, st, 'diagnostics', node)))
        kw['opmd_diag'] = D
    el = x.call('wake_t.beamline_elements:FieldElement',
                T.sym('length', 'pos'), dt, n_out=2, fields=x.list(f),
                auto_dt_bunch=NativeV('auto', auto))
    num = x.get('wake_t.utilities.numba:num_threads')
    x.I.sinks[-1].clear()
    x.meth(el, 'track', x.bunch(), show_progress_bar=False, **kw)
    w = 'wake_t:FieldElement.track'
    tag = 'track(dt_bunch=%s, diagnostics=%s)' % (dt, diag)
    chk.equal('normal exit', tag, w, get(x.st), T.sym('threads'))
    seen = set()
    for st, exc, node in x.I.sinks[-1]:
        what = exc.args[0] if isinstance(exc, ExcV) and exc.args else exc
        line = getattr(node, 'lineno', '?')
        if (what, line) in seen:
            continue
        seen.add((what, line))
        chk.equal('exception', '%s: exception from %s' % (
            tag, '%s (%s)' % what if isinstance(what, tuple) else what),
                  '%s (raised at line %s)' % (w, line), get(st),
                  T.sym('threads'))
    for what in sorted({a for a, _ in inside}):
        for v in {v for a, v in inside if a == what}:
            chk.equal('inside', '%s: %s' % (tag, what), w, v, num)
    for what in set(raising):
        if not any(k[0] == what for k in seen):
            chk.ok('exception', '%s: exception from %s (%s) is handled' % (
                (tag,) + what), w)
