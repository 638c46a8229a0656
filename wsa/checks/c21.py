"""Schedule of the tracker: inductive invariants of the tracking loop."""

import random

from ..core import T, C, NativeV, IteV, Term, items, AnalysisError

PROP = dict(
    id='C21', title='Tracker pushes every bunch to the end, in causal order',
    statement='When the tracking through a field-based element finishes, '
    'every bunch has been pushed for exactly the time of flight through the '
    'element, without gaps, overlaps or overshoot, whatever its constant or '
    'adaptive time step and whatever the steps of the other bunches, fields '
    'and diagnostics. Each push starts at the time the bunch has reached. '
    'Objects advance in the order of their next time, so that no bunch is '
    'pushed with a field that should have been updated before. Numerical '
    'fields are calculated at t = 0 and then once per dt_update, with all '
    'bunches. There are n_out + 1 outputs, at k*length/n_out, each with all '
    'bunches pushed to that position. An adaptive step is recalculated from '
    'the bunch after each push; a constant step is only shortened to end at '
    'the exit.',
    over=['inputs', 'configurations', 'schedules', 'histories'],
    text='any number of loop iterations, any time steps of bunches, fields '
    'and diagnostics, including ties and steps that do not divide the '
    'length',
    why='the tests use one or two combinations of steps; an overshoot, a '
    'missed output or a wrong order shows up only for particular ratios',
    files=['wake_t/tracking/tracker.py', 'wake_t/fields/numerical_field.py'],
    mechanism=[('tracking loop',
                'wake_t/tracking/tracker.py:Tracker.do_tracking'),
               ('bunch step', 'wake_t/tracking/tracker.py:'
                'Tracker.evolve_bunch')])

TF = T.sym('tf', 'pos')
EPS = 1e-9


def run(chk):
    chk.rules = {
        'entry': 'the invariant (time reached by each object, next push not '
        'beyond the end) holds when the loop is entered',
        'push': 'each push of a generic iteration starts at the time reached '
        'by the bunch, has a non-negative step and keeps the bunch within '
        'the total time; times are advanced by what was pushed',
        'order': 'the object that is advanced has the earliest next time',
        'end': 'the loop is only left when every bunch is at the final time '
        'and fields and diagnostics are complete',
        'progress': 'each iteration advances an object',
        'step': 'the next step of a pushed bunch is its constant or newly '
        'evaluated adaptive step, or what remains if that is shorter',
        'field': 'fields are updated with all bunches, at t = 0 and then '
        'after each dt_update',
        'output': 'outputs contain every bunch at the time of the output',
    }
    for n_d in (1, 3):
        for push in (True, False):
            for nf in (0, 1, 2):
                chk.part('push', 'schedule', one, chk, n_d, push, nf)
    chk.part('step', 'two adaptive steps', one, chk, 1, True, 1, True)
    chk.part('field', 'even updates', even, chk)
    for r, n in (('entry', 20), ('push', 20), ('order', 8), ('end', 20),
                 ('output', 8), ('step', 20), ('field', 8)):
        chk.need(r, n)


class Setup:
    pass


def build(x, n_d, push, nf, two=False, even=False):
    s = Setup()
    s.b = [x.bunch('0'), x.bunch('1')]
    I = x.I

    def evolve(k):
        def f(it, st, args, kw, node):
            d = dict(zip(('fields', 't', 'dt', 'pusher'), args))
            d.update(kw)
            g = it.getattr(st, s.b[k], 'ghost', None)
            it.ev_log(st, 'push', node, k=k, t=d['t'], dt=d['dt'], g=g,
                      fields=members(it, st, d.get('fields')),
                      pusher=d.get('pusher'))
            it.setattr(st, s.b[k], 'ghost',
                       it.binop(st, 'Add', g, d['dt'], node), None)
        return NativeV('evolve', f)

    def copy(k):
        def f(it, st, args, kw, node):
            it.ev_log(st, 'copy', node, k=k, g=it.getattr(
                st, s.b[k], 'ghost', None))
            return s.b[k]
        return NativeV('copy', f)
    for k, b in enumerate(s.b):
        x.set(b, 'ghost', 0.)
        x.set(b, 'evolve', evolve(k))
        x.set(b, 'copy', copy(k))
    NF = x.get('wake_t.fields.numerical_field:NumericalField')
    s.f = []

    def calc(k):
        def f(it, st, args, kw, node):
            lst = args[0] if args else kw.get('bunches')
            it.ev_log(st, 'update', node, k=k, bunches=members(it, st, lst))
        return NativeV('calc', f)
    for k in range(nf):
        f = x.call(NF, dt_update=T.sym('dtf%d' % k, 'pos'),
                   **({'force_even_updates': True} if even else {}))
        x.set(f, '_calculate_field', calc(k))
        s.f.append(f)
    s.ana = x.stub_field()
    s.d = x.call('wake_t.diagnostics:OpenPMDDiagnostics')
    x.set(s.d, 'count', -1)

    def write(it, st, args, kw, node):
        d = dict(zip(('time', 'dt', 'species_list', 'fields'), args))
        d.update(kw)
        n = it.getattr(st, s.d, 'count', None)
        it.ev_log(st, 'write', node, t=d.get('time'), dt=d.get('dt'),
                  bunches=members(it, st, d.get('species_list')),
                  fields=members(it, st, d.get('fields')), ghosts=[
                      it.getattr(st, b, 'ghost', None) for b in s.b])
        it.setattr(st, s.d, 'count', it.binop(st, 'Add', n, C(1), node),
                   None)

    def incr(it, st, args, kw, node):
        it.ev_log(st, 'increase', node, dist=args[0] if args else
                  list(kw.values())[0])
    x.set(s.d, 'write_diagnostics', NativeV('write', write))
    x.set(s.d, 'increase_z_pos', NativeV('increase', incr))

    def auto(it, st, args, kw, node):
        b = args[0] if args else list(kw.values())[0]
        if isinstance(b, IteV):
            return it.lift(st, [b], lambda z, vs: auto(it, z, vs, {}, node))
        if getattr(b, 'id', None) not in [q.id for q in s.b]:
            raise AnalysisError('adaptive step of an unresolved bunch')
        k = [q.id for q in s.b].index(b.id)
        return T.fn('auto%d' % k, it.getattr(st, b, 'ghost', None))
    s.n_d = n_d
    tr = x.call('wake_t.tracking.tracker:Tracker', TF, x.list(*s.b),
                x.list('auto' if two else T.sym('dtb', 'pos'), 'auto'),
                x.list(s.ana, *s.f), n_diags=n_d, opmd_diags=s.d,
                auto_dt_bunch_f=NativeV('auto', auto),
                push_bunches_before_diags=push, show_progress_bar=False)
    x.meth(tr, 'do_tracking')
    return s


def members(it, st, lst):
    try:
        return [getattr(v, 'id', v) for v in st.heap[lst.id][1]]
    except Exception:
        return None


# ------------------------------------------------------------------ states

class Sample:
    """A state satisfying the invariant at the head of the loop."""

    def __init__(self, g, n_d, nf):
        tf = self.tf = g.uniform(.5, 2.)
        m = g.choice(range(n_d + 1)) if g.random() < .7 else n_d
        lo, hi = m*tf/n_d, (m + 1)*tf/n_d
        M = hi if g.random() < .35 else g.uniform(lo, hi)
        if m == n_d and g.random() < .5:
            M = tf
        self.T, self.DT = {}, {}
        self.T['d'], self.DT['d'] = lo, tf/n_d
        for k in (0, 1):
            if M > tf or (M == tf and g.random() < .4):
                t, nx = tf, M + g.uniform(.01, .7)
            else:
                u = g.random()
                nx = M if u < .4 else tf if u < .7 else g.uniform(M, tf)
                t = M if nx > M and g.random() < .3 else g.uniform(0, M)
                if nx - t < 1e-3:
                    t = max(0., nx - .1)
            self.T[k], self.DT[k] = t, nx - t
        for k in range(nf):
            t = g.uniform(0, min(M, tf))
            nx = M if g.random() < .4 else M + g.uniform(0, 1)
            if nx - t < 1e-3:
                nx = t + .2
            self.T['f%d' % k], self.DT['f%d' % k] = t, nx - t


def one(chk, n_d, push, nf, two=False):
    x = chk.ctx()
    s = build(x, n_d, push, nf, two)
    tag = 'n_diags=%d, %d numerical fields, push_before_diags=%s' % (
        n_d, nf, push) + (', both steps adaptive' if two else '')
    w = 'wake_t.tracking.tracker:Tracker.do_tracking'
    # ---- lists
    allb = [b.id for b in s.b]
    for e in x.events('update', 'write'):
        m = e.d['bunches']
        if m is None:
            chk.und('field', '%s: bunches given at %s' % (tag, e.where), w,
                    'list not resolved')
        else:
            chk.expect(m == allb, 'field' if e.kind == 'update' else
                       'output', '%s: bunches given at %s' % (tag, e.where),
                       w, 'given %s of %s' % (m, allb))
    allf = sorted(f.id for f in [s.ana] + s.f)
    for e in x.events('push'):
        m = e.d['fields']
        i = '%s: fields that push %s (%s)' % (tag, name(e.d['k']), e.where)
        if m is None or not all(isinstance(j, type(allf[0])) for j in m):
            chk.und('push', i, w, 'list not resolved')
        else:
            chk.expect(sorted(m) == allf, 'push', i, w,
                       '%d of the fields %s, given %s' % (
                           len(allf), allf, m))
    for k in range(nf):
        n = [e for e in x.events('update') if not e.loops and e.d['k'] == k]
        chk.expect(len(n) == 1 and n[0].pc is T.TRUE, 'field',
                   '%s: field %d calculated once at t = 0' % (tag, k), w,
                   '%d times' % len(n))
    inc = x.events('increase')
    if len(inc) == 1 and isinstance(inc[0].d['dist'], Term):
        chk.expect(not inc[0].loops, 'output', '%s: z increased once' % tag,
                   w, 'inside the loop')
        chk.equal('output', '%s: z of the diagnostics' % tag, w,
                  inc[0].d['dist'], TF*T.sym('c'))
    else:
        chk.expect(len(inc), 'output', '%s: z of the diagnostics' % tag, w,
                   'never increased')
    for k in (0, 1):
        n = [e for e in x.events('copy') if e.d['k'] == k]
        a = [e for e in n if not e.loops]
        b = [e for e in n if e.loops]
        chk.expect(len(a) == 1 and len(b) >= 1, 'output',
                   '%s: %s stored at each output' % (tag, name(k)), w,
                   '%d initial, %d later' % (len(a), len(b)))

    pushes = x.events('push')
    ids = set(e.loops[0] for e in pushes if e.loops)
    if len(ids) != 1 or any(not e.loops for e in pushes):
        return chk.und('push', tag, w, 'no single tracking loop')
    L = [l for l in x.I.loops if l.id in ids][0]
    objs = [0, 1] + ['f%d' % k for k in range(nf)] + ['d']

    def raw(st, loc):
        k, key = loc
        p = st.heap[k]
        if p[0] == 'stk':
            return p[1][key]
        return p[-1].get(key)

    def ghost(st, o):
        if o in (0, 1):
            return x.I.getattr(st, s.b[o], 'ghost', None)
        if o == 'd':
            return T.mul(x.I.getattr(st, s.d, 'count', None), TF/n_d)
        return x.I.getattr(st, s.f[int(o[1:])], 't', None)
    own = {}
    for o in (0, 1):
        own[(s.b[o].id, 'ghost')] = o
    for k in range(nf):
        own[(s.f[k].id, 't')] = 'f%d' % k
    own[(s.d.id, 'count')] = 'd'
    cand = {}
    for loc, h in L.names.items():
        if isinstance(h, Term) and h.op == 'sym' and loc not in own:
            e = raw(L.end, loc)
            if isinstance(e, Term) and isinstance(raw(L.entry, loc), Term):
                cand[loc] = h
    evs = [e for e in x.I.log if e.kind in ('push', 'update', 'copy',
                                            'write') and L.id in e.loops]

    def terms_ok(e):
        return all(isinstance(e.d[k], Term) for k in ('t', 'dt', 'g')
                   if k in e.d)
    if not all(terms_ok(e) for e in evs):
        return chk.und('push', tag, w, 'arguments of a push not resolved')

    # ---- the locations that hold time and step of each object

    def val(smp, assign, i):
        dom = {'tf': smp.tf, 'dtb': .4}
        for k in range(nf):
            dom['dtf%d' % k] = smp.DT['f%d' % k]
        for o in objs:
            gs = ghost(L.head, o)
            loc = [l for l, q in own.items() if q == o][0]
            h = L.names.get(loc)
            if h is not None:
                dom[h.args[0]] = smp.T[o] if o != 'd' else round(
                    smp.T[o]*n_d/smp.tf)
        for loc, (kind, o) in assign.items():
            dom[cand[loc].args[0]] = (smp.T if kind == 'T' else smp.DT)[o]
        return T.Valuation('c21%s%d' % (chk.seed, i), dom, defs={
            'auto0': au, 'auto1': au})

    def au(v, g):
        return .05 + 1.2*T._u('auto', v.seed, round(g, 9))
    rng = random.Random('c21%d%s' % (chk.seed, tag))
    smps = [Sample(rng, n_d, nf) for _ in range(
        300 if chk.tier == 'quick' else 3000)]
    assign = {}
    free = [val(q, {}, i) for i, q in enumerate(smps[:60])]
    # locations the loop never changes keep their initial value
    const = {}
    for loc, h in cand.items():
        if all(same(v.t(raw(L.end, loc)), v.t(h)) for v in free):
            const[loc] = raw(L.entry, loc)
    free = [val(q, {}, i) for i, q in enumerate(smps[:60])]
    for v in free:
        for loc, e in const.items():
            v.dom[cand[loc].args[0]] = v.t(e)
    # adds: end - head is what the object was advanced by
    for o in objs:
        gs = T.sub(ghost(L.end, o), ghost(L.head, o))
        adds, arg = [], []
        for loc, h in cand.items():
            if loc in const:
                continue
            d = T.sub(raw(L.end, loc), h)
            if all(same(v.t(d), v.t(gs)) for v in free):
                adds.append(loc)
        for e in evs:
            if e.kind == 'push' and e.d['k'] == o:
                for loc, h in cand.items():
                    u = [v for v in free if v.b(e.pc)]
                    if u and all(same(v.t(e.d['t']), v.t(h)) for v in u) \
                            and loc not in arg and loc not in const:
                        arg.append(loc)
        both = [l for l in adds if l in arg] or adds or arg
        if not both and o not in (0, 1):
            # changes exactly when the object is advanced
            both = [loc for loc, h in cand.items()
                    if loc not in const and loc not in assign and all(
                        same(v.t(raw(L.end, loc)), v.t(h)) ==
                        same(v.t(gs), 0) for v in free)]
            both = both if len(both) == 1 else []
        if not both:
            return chk.und('push', tag, w,
                           'no location holds the time of object %s' % o)
        assign[both[0]] = ('T', o)
    for o in (0, 1):
        st = []
        for e in evs:
            if e.kind == 'push' and e.d['k'] == o:
                for loc, h in cand.items():
                    u = [v for v in free if v.b(e.pc)]
                    if u and all(same(v.t(e.d['dt']), v.t(h)) for v in u) \
                            and loc not in st and loc not in assign:
                        st.append(loc)
        if not st:
            return chk.und('push', tag, w,
                           'no location holds the step of bunch %s' % o)
        assign[st[0]] = ('DT', o)
    loc_of = {q: l for l, q in assign.items()}
    for loc, e in const.items():
        if loc in assign:
            continue
        # invariant value (field and diagnostics steps)
        for o in objs[2:]:
            want = TF/n_d if o == 'd' else T.sym('dtf' + o[1:], 'pos')
            if T.equal(e, want).ok and ('DT', o) not in loc_of:
                assign[loc] = ('DT', o)
                loc_of['DT', o] = loc
                break
        else:
            loc_of[loc] = e
    fixed = {cand[l].args[0]: e for l, e in const.items() if l not in assign}

    # ---- entry
    sub = {}
    ent = [T.Valuation('c21e%d' % i, {
        'tf': rng.uniform(.5, 2), 'dtb': rng.choice([.1, .5, 3.]),
        'dtf0': rng.choice([.2, 4.]), 'dtf1': rng.choice([.3, 5.])},
        defs={'auto0': au, 'auto1': au}) for i in range(40)]
    for o in objs:
        e = raw(L.entry, loc_of['T', o])
        g = ghost(L.entry, o)
        if not isinstance(g, Term):
            chk.bad('entry', '%s: object %s at t=0' % (tag, o), w,
                    'not initialised before the loop: %r' % (g,))
            continue
        first(chk, 'entry', '%s: time of object %s' % (tag, name(o)), w,
              [(v, same(v.t(e), v.t(g)) and same(v.t(g), 0), dict(
                  time=v.t(e), reached=v.t(g))) for v in ent])
        if o in (0, 1):
            dt = raw(L.entry, loc_of['DT', o])
            full = T.sym('dtb', 'pos') if o == 0 and not two else \
                T.fn('auto%d' % o, C(0))
            first(chk, 'entry', '%s: first step of %s' % (tag, name(o)), w,
                  [(v, same(v.t(dt), min(v.t(full), v.t(TF))), dict(
                      step=v.t(dt), t_final=v.t(TF), wanted=v.t(full)))
                   for v in ent])

    # ---- a generic iteration
    vs = []
    for i, q in enumerate(smps):
        v = val(q, assign, i)
        for n, e in fixed.items():
            v.dom[n] = v.t(e)
        vs.append((q, v))
    need_push = {0: [], 1: []}
    R = {}

    def rec(rule, what, v, ok, **info):
        R.setdefault((rule, what), []).append((v, ok, info))
    for q, v in vs:
        nxt = {o: q.T[o] + q.DT[o] for o in objs}
        mn = min(nxt.values())
        alive = v.b(L.end.pc)
        try:
            for e in evs:
                if not v.b(e.pc):
                    continue
                if e.kind == 'push':
                    o = e.d['k']
                    t, dt, g = (v.t(e.d[k]) for k in ('t', 'dt', 'g'))
                    rec('push', 'start of the push of %s (%s)' % (
                        name(o), e.where), v, same(t, g), t=t, reached=g)
                    rec('push', 'step of %s (%s)' % (name(o), e.where), v,
                        dt >= -EPS and g + dt <= q.tf + EPS, dt=dt,
                        reached=g, t_final=q.tf)
                    rec('order', 'push of %s (%s)' % (name(o), e.where), v,
                        g + dt <= mn + EPS, to=g + dt, next_times=nxt)
                elif e.kind == 'update':
                    o = 'f%d' % e.d['k']
                    rec('order', 'update of %s (%s)' % (name(o), e.where), v,
                        nxt[o] <= mn + EPS, next_times=nxt)
                elif e.kind == 'write':
                    rec('order', 'diagnostics (%s)' % e.where, v,
                        nxt['d'] <= mn + EPS, next_times=nxt)
                    if isinstance(e.d['t'], Term):
                        rec('output', 'time of the diagnostics (%s)' %
                            e.where, v, same(v.t(e.d['t']), nxt['d']),
                            t=v.t(e.d['t']), expected=nxt['d'])
                    for k in (0, 1):
                        if push and isinstance(e.d['ghosts'][k], Term):
                            rec('output', '%s in the diagnostics (%s)' % (
                                name(k), e.where), v,
                                same(v.t(e.d['ghosts'][k]), nxt['d']),
                                reached=v.t(e.d['ghosts'][k]),
                                expected=nxt['d'])
                elif e.kind == 'copy' and push:
                    rec('output', 'returned copy of %s (%s)' % (
                        name(e.d['k']), e.where), v,
                        same(v.t(e.d['g']), nxt['d']),
                        reached=v.t(e.d['g']), expected=nxt['d'])
            if alive:
                moved = False
                for o in objs:
                    t1 = v.t(raw(L.end, loc_of['T', o]))
                    g1, g0 = v.t(ghost(L.end, o)), q.T[o]
                    rec('push', 'time of %s after the iteration' % name(o),
                        v, same(t1, g1), time=t1, reached=g1)
                    moved = moved or g1 > g0 + EPS
                    if o not in (0, 1):
                        if g1 > g0 + EPS:
                            rec('order', 'advance of %s' % name(o), v,
                                same(g1, nxt[o]) and g1 <= mn + EPS,
                                to=g1, next_times=nxt)
                        continue
                    dt1 = v.t(raw(L.end, loc_of['DT', o]))
                    rec('push', 'next step of %s within the length' %
                        name(o), v, t1 + dt1 <= q.tf + EPS or
                        same(t1, q.tf), time=t1, step=dt1, t_final=q.tf)
                    rec('progress', 'next step of %s is not zero' % name(o),
                        v, dt1 > EPS, time=t1, step=dt1)
                    if g1 > g0 + EPS and not same(t1, q.tf):
                        full = q.DT[o] if o == 0 and not two else au(v, g1)
                        rec('step', name(o), v, same(
                            dt1, min(full, q.tf - t1)), step=dt1,
                            wanted=full, remaining=q.tf - t1)
                    elif not same(t1, q.tf):
                        # (a push of zero length may renew the step)
                        rec('step', '%s (not pushed)' % name(o), v,
                            same(dt1, q.DT[o]) or (o == 1 or two) and same(
                                dt1, min(au(v, g1), q.tf - t1)),
                            step=dt1, before=q.DT[o])
                rec('progress', 'iteration', v, moved, times=q.T,
                    next_times=nxt)
            if v.b(x.st.pc):
                for o in objs:
                    g = v.t(ghost(x.st, o))
                    if o in (0, 1):
                        rec('end', name(o), v, same(g, q.tf), reached=g,
                            t_final=q.tf, times=q.T, next_times=nxt)
                    else:
                        rec('end', name(o), v, g + q.DT[o] > q.tf + EPS
                            and g <= q.tf + EPS, reached=g, step=q.DT[o],
                            t_final=q.tf)
            else:
                rec('end', 'either continues or ends', v, alive, times=q.T,
                    next_times=nxt)
        except T.Undef:
            continue
    for (rule, what), obs in sorted(R.items()):
        first(chk, rule, '%s: %s' % (tag, what), w, obs)


def even(chk):
    """The schedule uses the step that adjust_dt has chosen."""
    x = chk.ctx()
    s = build(x, 1, True, 1, even=True)
    w = 'wake_t.tracking.tracker:Tracker'
    dt = T.sym('dtf0', 'pos')
    want = TF/T.fn('ceil', TF/dt)
    dom = {'tf': lambda g: g.uniform(3, 9), 'dtf0': lambda g: g.uniform(
        .5, 2)}
    seen = []
    for L in x.I.loops:
        for (k, key) in L.names:
            p = L.entry.heap.get(k)
            v = None if p is None else p[1][key] if p[0] == 'stk' else \
                p[-1].get(key)
            if isinstance(v, Term):
                seen.append(v)
    if any(T.equal(v, want, domains=dom).ok for v in seen):
        chk.ok('field', 'step of a field with even updates', w,
               'interpretation')
    elif any(T.equal(v, dt, domains=dom).ok for v in seen):
        chk.bad('field', 'step of a field with even updates', w,
                'the schedule uses the step before it was adjusted')
    else:
        chk.und('field', 'step of a field with even updates', w,
                'no location holds the step')


def name(o):
    return 'bunch %d' % o if o in (0, 1) else \
        'diagnostics' if o == 'd' else 'field %s' % o[1:]


def same(a, b):
    return abs(a - b) < EPS


def first(chk, rule, inst, w, obs):
    bad = [(v, i) for v, ok, i in obs if not ok]
    chk.add(rule, inst, w, not bad, 'interpretation', None if not bad else {
        'generic state': {k: (round(q, 6) if isinstance(q, float) else q)
                          for k, q in bad[0][1].items()},
        'failing': '%d of %d' % (len(bad), len(obs))})
