"""Life cycle of the numerical fields: time, density, laser."""

from ..core import T, C, ArrV, NativeV, items
from ..phys import c
from .c01 import stage, laser, GRID

PROP = dict(
    id='C22', title='Numerical fields advance by their own time step',
    statement='A numerical field is initialised and calculated at t = 0 in '
    'its first update; every further update first advances its time by '
    'dt_update, evolves its properties (the laser) with the plasma response '
    'calculated last, and then recalculates the field at the new time, '
    'using the plasma density (and parabolic profile) at that position. '
    'Tracking through an element always starts the fields at its entrance, '
    'also when the same element is used again. dt_update is dz_fields/c, by '
    'default the length of the simulation box; with a laser it is only ever '
    'shortened, to the largest step that divides the stage evenly, so that '
    'the laser is evolved exactly to the end. laser_evolution=False freezes '
    'the laser.',
    over=['inputs', 'configurations', 'histories'],
    text='every number of updates, time step, length and density function',
    why='the tests use a few stages with uniform plasma or smooth ramps, '
    'track each element once, and compare with wide tolerances',
    files=['wake_t/fields/numerical_field.py',
           'wake_t/fields/rz_wakefield.py', 'wake_t/tracking/tracker.py'],
    mechanism=[('update', 'wake_t/fields/numerical_field.py'
                ':NumericalField.update'),
               ('step', 'wake_t/fields/numerical_field.py'
                ':NumericalField.adjust_dt')])

NF = 'wake_t.fields.numerical_field:NumericalField'
dt, tf = T.sym('dt_f', 'pos'), T.sym('t_final', 'pos')
TF = {'t_final': lambda g: g.uniform(.3, 7.), 'dt_f': lambda g:
      g.uniform(.2, 3.), 'length': lambda g: g.uniform(.3, 7.),
      'dz': lambda g: g.uniform(.2, 3.), 'c': 1.5,
      'xi_max': lambda g: g.uniform(1, 2), 'xi_min': lambda g: g.random()}


def run(chk):
    chk.rules = {
        'order': 'sequence of initialise / evolve / calculate calls in '
        'repeated updates, with the time of the field at each',
        'even': 'dt_update after adjust_dt(t_final) is '
        't_final/ceil(t_final/dt_update) if even updates are forced, '
        'otherwise unchanged',
        'step': 'dt_update of the wakefields of a stage',
        'density': 'the density and parabolic profile are evaluated at c t',
        'laser': 'what the laser is evolved with, and when',
        'restart': 'the first calculation of each tracking is at t = 0'}
    chk.need('order', 10)
    chk.need('even', 2)
    chk.need('step', 8)
    chk.need('density', 6)
    chk.need('laser', 8)
    chk.need('restart', 3)
    chk.part('order', 'NumericalField', order, chk)
    chk.part('even', 'NumericalField', even, chk)
    for model in ('cold_fluid_1d', 'quasistatic_2d'):
        chk.part('step', model, step, chk, model)
        for evo in (True, False):
            chk.part('laser', model, pulse, chk, model, evo)
    chk.part('density', 'density', dens, chk)
    chk.part('restart', 'stub', restart, chk)
    chk.part('restart', 'stage', restart_stage, chk)


def stub(x, **kw):
    f = x.call(NF, **dict(dict(dt_update=dt), **kw))
    seq = []

    def mk(name):
        def fn(it, st, args, kw, node):
            t = it.getattr(st, f, 't', None)
            lst = args[0] if args else kw.get('bunches')
            seq.append((name, t, lst))
            it.ev_log(st, 'life', node, name=name, t=t)
        return NativeV(name, fn)
    for name in ('_initialize_properties', '_evolve_properties',
                 '_calculate_field'):
        x.set(f, name, mk(name))
    f.seq = seq
    return f


def order(chk):
    x = chk.ctx()
    f = stub(x)
    w = 'wake_t.fields.numerical_field:NumericalField.update'
    b = x.list(x.bunch())
    for k in range(4):
        f.seq[:] = []
        x.meth(f, 'update', b)
        want = ['_evolve_properties' if k else '_initialize_properties',
                '_calculate_field']
        got = [n for n, _, _ in f.seq]
        chk.expect(got == want, 'order', 'update %d: calls' % (k + 1), w,
                   'found %s, required %s' % (got, want))
        for n, t, lst in f.seq:
            chk.equal('order', 'update %d: time in %s' % (k + 1, n), w, t,
                      k*dt)
            chk.expect(getattr(lst, 'id', None) == b.id, 'order',
                       'update %d: bunches in %s' % (k + 1, n), w,
                       'other bunches')


def even(chk):
    w = 'wake_t.fields.numerical_field:NumericalField.adjust_dt'
    for force in (True, False, None):
        x = chk.ctx()
        f = stub(x, **({} if force is None else
                       dict(force_even_updates=force)))
        x.meth(f, 'adjust_dt', tf)
        got = x.term(x.attr(f, 'dt_update'))
        chk.equal('even', 'force_even_updates=%s' % force, w, got,
                  tf/T.fn('ceil', tf/dt) if force else dt, domains=TF)
        # the tracker asks for it
        x = chk.ctx()
        f = stub(x, **({} if force is None else
                       dict(force_even_updates=force)))
        x.call('wake_t.tracking.tracker:Tracker', tf, x.list(), x.list(),
               x.list(f), n_diags=1)
        got = x.term(x.attr(f, 'dt_update'))
        chk.equal('even', 'Tracker, force_even_updates=%s' % force, w, got,
                  tf/T.fn('ceil', tf/dt) if force else dt, domains=TF)


def field_of(x, s):
    return items(x, x.attr(s, 'fields'))[0]


def step(chk, model):
    L = T.sym('length', 'pos')
    w = 'wake_t.fields.rz_wakefield:RZWakefield'
    for dz in (None, T.sym('dz', 'pos')):
        for las, evo in ((False, True), (True, True), (True, False)):
            x = chk.ctx()
            kw = {} if dz is None else {'dz_fields': dz}
            if las:
                kw['laser'] = laser(x)
            if not evo:
                kw['laser_evolution'] = False
            f = field_of(x, stage(x, model, **kw))
            want = (GRID['xi_max'] - GRID['xi_min'] if dz is None else dz)/c
            tag = '%s, dz_fields=%s, laser=%s%s' % (
                model, 'default' if dz is None else 'given', las,
                '' if evo else ' (frozen)')
            chk.equal('step', tag, w, x.term(x.attr(f, 'dt_update')), want)
            x.call('wake_t.tracking.tracker:Tracker', L/c, x.list(),
                   x.list(), x.list(f), n_diags=1)
            chk.equal('step', tag + ', tracked', w,
                      x.term(x.attr(f, 'dt_update')),
                      L/c/T.fn('ceil', L/c/want) if las else want,
                      domains=TF)


def log_calls(name):
    log = []

    def fn(it, st, args, kw, node):
        z = args[0] if args else list(kw.values())[0]
        log.append(it.content(st, z)[1] if isinstance(z, ArrV)
                   else it.to_term(st, z))
        it.ev_log(st, name, node, z=log[-1])
        return it.ew(st, lambda a: T.fn(name, a), [z])
    return NativeV(name, fn), log


def dens(chk):
    for model in ('cold_fluid_1d', 'quasistatic_2d'):
        x = chk.ctx()
        fn, log = log_calls('dens')
        par, plog = log_calls('parab')
        kw = dict(density=fn)
        if model == 'quasistatic_2d':
            kw['parabolic_coefficient'] = par
        f = field_of(x, stage(x, model, dz_fields=T.sym('dz', 'pos'), **kw))
        w = 'wake_t.fields.rz_wakefield:RZWakefield'
        b = x.list()
        for k in range(2 if model == 'quasistatic_2d' else 3):
            del log[:], plog[:]
            x.meth(f, 'update', b)
            for name, lg in (('density', log), ('parabolic profile', plog)):
                for i, z in enumerate(lg):
                    chk.equal('density', '%s, update %d: %s call %d' % (
                        model, k + 1, name, i), w, z, k*T.sym('dz', 'pos'))
            chk.expect(log, 'density', '%s, update %d: evaluated' % (
                model, k + 1), w, 'density not evaluated')
            if model == 'quasistatic_2d':
                chk.expect(plog, 'density', '%s, update %d: profile' % (
                    model, k + 1), w, 'parabolic profile not evaluated')
            chk.equal('density', '%s, update %d: n_p' % (model, k + 1), w,
                      x.term(x.attr(f, 'n_p')),
                      T.fn('dens', k*T.sym('dz', 'pos')))


def pulse(chk, model, evo):
    x = chk.ctx()
    fn, log = log_calls('dens')
    las = laser(x)
    seq = []

    def evolve(it, st, args, kw, node):
        d = dict(zip(('chi', 'n_p'), args))
        d.update(kw)
        seq.append((it.content(st, d['chi']), it.to_term(st, d['n_p']),
                    len(log)))
    x.set(las, 'evolve', NativeV('evolve', evolve))
    kw = dict(density=fn, laser=las, dz_fields=T.sym('dz', 'pos'))
    if not evo:
        kw['laser_evolution'] = False
    f = field_of(x, stage(x, model, **kw))
    w = 'wake_t.fields.rz_wakefield:RZWakefield'
    b = x.list()
    chi = None
    for k in range(2 if model == 'quasistatic_2d' else 3):
        n = len(seq)
        tag = '%s, laser_evolution=%s, update %d' % (model, evo, k + 1)
        calls = len(log)
        x.meth(f, 'update', b)
        if not evo or k == 0:
            chk.expect(len(seq) == n, 'laser', tag + ': laser untouched', w,
                       'laser evolved %d times' % (len(seq) - n))
        else:
            ok = chk.expect(len(seq) == n + 1, 'laser',
                            tag + ': evolved once', w,
                            'laser evolved %d times' % (len(seq) - n))
            if ok:
                (sh, t), n_p, at = seq[-1]
                chk.equal('laser', tag + ': susceptibility', w, t, chi)
                for i, (s, m) in enumerate(zip(sh, (GRID['n_xi'],
                                                    GRID['n_r']))):
                    chk.equal('laser', tag + ': size %d of chi' % i, w, s,
                              m)
                chk.equal('laser', tag + ': density', w, n_p,
                          T.fn('dens', (k - 1)*T.sym('dz', 'pos')))
                chk.expect(at == calls, 'laser', tag + ': evolved before '
                           'the field is calculated', w,
                           'density evaluated before the evolution')
        # the susceptibility is that of the inner grid
        chi = x.term(x.I.getitem(x.st, x.attr(f, 'chi'), inner(x), None))
    chk.expect(True, 'laser', '%s laser_evolution=%s' % (model, evo), w)


def inner(x):
    from ..interp import SliceV, TupleV
    s = SliceV(C(2), C(-2), None)
    return TupleV((s, s))


def first_calc(evs):
    return evs[0] if evs else None


def restart(chk):
    w = 'wake_t.tracking.tracker:Tracker.do_tracking'
    x = chk.ctx()
    f = stub(x)
    el = x.call('wake_t.beamline_elements.field_element:FieldElement',
                length=T.sym('length', 'pos'), dt_bunch=T.sym('dt_b', 'pos'),
                bunch_pusher='rk4', n_out=1, fields=x.list(f))
    for k in range(3):
        f.seq[:] = []
        n = len(x.events('life'))
        x.meth(el, 'track', x.bunch(str(k)), show_progress_bar=False)
        ev = [e for e in x.events('life')[n:]]
        calc = [e for e in ev if e.d['name'] == '_calculate_field']
        if not calc:
            chk.bad('restart', 'tracking %d' % (k + 1), w,
                    'field not calculated')
            continue
        chk.equal('restart', 'tracking %d: time of the first calculation' % (
            k + 1), w, calc[0].d['t'], C(0.), loops=False)


def restart_stage(chk):
    w = 'wake_t.tracking.tracker:Tracker.do_tracking'
    x = chk.ctx()
    fn, log = log_calls('dens')
    s = stage(x, 'cold_fluid_1d', density=fn, n_out=1,
              dt_bunch=T.sym('dt_b', 'pos'), dz_fields=T.sym('dz', 'pos'))
    for k in range(2):
        n = len(x.events('dens'))
        x.meth(s, 'track', x.bunch(str(k)), show_progress_bar=False)
        ev = x.events('dens')[n:]
        if not ev:
            chk.und('restart', 'cold_fluid_1d, tracking %d' % (k + 1), w,
                    'no evaluation of the density seen')
            continue
        chk.equal('restart', 'cold_fluid_1d, tracking %d: density evaluated '
                  'first at' % (k + 1), w, ev[0].d['z'], C(0.), loops=False)
