"""Laser pulse: grid, time step and polarization bookkeeping."""

from ..core import T, C, Dead, items
from ..phys import c, e, m_e, eps0
from .c24 import S
from .c01 import laser, stage, GRID

PROP = dict(
    id='C23', title='Laser grid is fixed once the envelope exists',
    statement='The envelope of a pulse lives on one grid: after it has been '
    'initialised, every later attempt to set other limits, another number of '
    'nodes or another number of plasma grid nodes is refused, whether or not '
    'the pulse has been evolved and in whatever order time steps changed; '
    'keeping the grid is always accepted and keeps the envelope. Fewer than '
    'one substep is refused. A stage gives the laser its own grid limits, '
    'numbers of nodes, time step, number of substeps, subgrid and phase '
    'option, and two stages share the evolved envelope of one pulse.',
    over=['inputs', 'configurations', 'histories'],
    text='all grids and all orders of setting, initialising, evolving and '
    'changing the time step (two changes)',
    why='the tests never reuse a pulse on a different grid',
    files=['wake_t/physics_models/laser/laser_pulse.py',
           'wake_t/fields/rz_wakefield.py'],
    mechanism=[('parameters', 'wake_t/physics_models/laser/laser_pulse.py'
                ':LaserPulse.set_envelope_solver_params'),
               ('use by stages', 'wake_t/fields/rz_wakefield.py'
                ':RZWakefield._initialize_properties')])

LP = 'wake_t/physics_models/laser/laser_pulse.py:LaserPulse.'
BASE = dict(xi_min=C(-1.), xi_max=C(1.), r_max=C(2.), nz=4, nr=3,
            dt=C(.5), nt=1, subgrid_nz=None, subgrid_nr=None)
CHANGES = [dict(xi_min=C(-1.5)), dict(xi_max=C(1.5)), dict(r_max=C(2.5)),
           dict(nz=5), dict(nr=4), dict(nz=5, nr=4),
           dict(subgrid_nz=6), dict(subgrid_nr=5),
           dict(nz=5, subgrid_nz=4, subgrid_nr=3),
           dict(nr=4, subgrid_nz=4, subgrid_nr=3),
           dict(xi_min=C(-1.5), xi_max=C(1.5), r_max=C(3.), nz=6, nr=6)]
# what happened before the change: number of evolves, change of dt
HIST = [('initialised', (('dt', 0),)), ('evolved', (('dt', 1),)),
        ('evolved twice', (('dt', 2),)),
        ('evolved, other dt', (('dt', 1), ('dt2', 0))),
        ('evolved, other dt, evolved', (('dt', 1), ('dt2', 1)))]


def run(chk):
    chk.rules = {
        'refused': 'no path of set_envelope_solver_params returns',
        'kept': 'setting the same grid again is accepted and leaves the '
        'envelope as it was',
        'given': 'arguments with which a stage sets up its laser',
        'ponder': 'the square of the envelope that drives the plasma'}
    chk.need('refused', 50)
    chk.need('kept', 10)
    chk.need('given', 20)
    for name, h in HIST:
        for base in (BASE, dict(BASE, subgrid_nz=6, subgrid_nr=5)):
            for ch in CHANGES:
                if any(base[k] is None and k in ch and 0 for k in ch):
                    continue
                new = dict(base, **ch)
                chk.part('refused', name, change, chk, name, h, base, ch,
                         new)
            chk.part('kept', name, keep, chk, name, h, base)
    for nt in (0, -1):
        chk.part('refused', 'nt', substeps, chk, nt)
    chk.part('refused', 'uninitialised', early, chk)
    for model in ('cold_fluid_1d', 'quasistatic_2d'):
        for sub in (False, True):
            chk.part('given', model, given, chk, model, sub)


def put(x, las, d):
    x.meth(las, 'set_envelope_solver_params', d['xi_min'], d['xi_max'],
           d['r_max'], d['nz'], d['nr'], d['dt'], d['nt'],
           d['subgrid_nz'], d['subgrid_nr'])


def history(chk, h, base):
    x = chk.ctx()
    las = x.call('wake_t:GaussianPulse', **S)
    i = 0
    for dt, n in h:
        put(x, las, dict(base, dt=C(.5 if dt == 'dt' else .25)))
        x.meth(las, 'initialize_envelope')
        for _ in range(n):
            x.meth(las, 'evolve', x.arr('chi%d' % i, base['nz'],
                                        base['nr']),
                   T.sym('n_p%d' % i, 'pos'))
            i += 1
    return x, las


def effective(d):
    return (d['xi_min'], d['xi_max'], d['r_max'], d['nz'], d['nr'],
            d['subgrid_nz'] or d['nz'], d['subgrid_nr'] or d['nr'])


def text(ch):
    return ', '.join('%s=%s' % (k, T.show(v) if isinstance(v, T.Term) else v)
                     for k, v in sorted(ch.items()))


def change(chk, name, h, base, ch, new):
    if effective(new) == effective(base):
        return
    x, las = history(chk, h, base)
    tag = '%s%s, then %s' % (
        name, '' if base['subgrid_nz'] is None else ' (subgrid)', text(ch))
    w = LP + 'set_envelope_solver_params'
    try:
        put(x, las, new)
        chk.bad('refused', tag, w, 'the change of the grid is accepted')
    except Dead:
        chk.ok('refused', tag, w)


def keep(chk, name, h, base):
    for dt in (.5, .25, .1):
        x, las = history(chk, h, base)
        old = x.term(x.meth(las, 'get_envelope'))
        tag = '%s%s, same grid, dt=%s' % (
            name, '' if base['subgrid_nz'] is None else ' (subgrid)', dt)
        w = LP + 'set_envelope_solver_params'
        try:
            put(x, las, dict(base, dt=C(dt)))
            x.meth(las, 'initialize_envelope')
        except Dead:
            chk.bad('kept', tag, w, 'the unchanged grid is refused')
            continue
        chk.equal('kept', tag, w, x.term(x.meth(las, 'get_envelope')), old,
                  domains={'lane1': 1, 'lane2': 2})


def substeps(chk, nt):
    x = chk.ctx()
    las = x.call('wake_t:GaussianPulse', **S)
    try:
        put(x, las, dict(BASE, nt=nt))
        chk.bad('refused', 'nt=%d' % nt, LP + 'set_envelope_solver_params',
                '%d substeps are accepted' % nt)
    except Dead:
        chk.ok('refused', 'nt=%d' % nt, LP + 'set_envelope_solver_params')


def early(chk):
    x = chk.ctx()
    las = x.call('wake_t:GaussianPulse', **S)
    try:
        x.meth(las, 'initialize_envelope')
        chk.bad('refused', 'initialised without grid',
                LP + 'initialize_envelope', 'accepted')
    except Dead:
        chk.ok('refused', 'initialised without grid',
               LP + 'initialize_envelope')


NAMES = ('xi_min', 'xi_max', 'r_max', 'nz', 'nr', 'dt', 'nt', 'subgrid_nz',
         'subgrid_nr', 'use_phase')


def given(chk, model, sub):
    from ..core import NativeV
    x = chk.ctx()
    las = laser(x)
    seen = []

    def log(it, st, args, kw, node):
        d = dict(nt=C(1), subgrid_nz=None, subgrid_nr=None, use_phase=T.TRUE)
        d.update(zip(NAMES, args))
        d.update(kw)
        seen.append(d)
        raise Dead()
    x.set(las, 'set_envelope_solver_params', NativeV('setup', log))
    kw = dict(laser=las, dz_fields=T.sym('dz', 'pos'))
    want = dict(xi_min=GRID['xi_min'], xi_max=GRID['xi_max'],
                r_max=GRID['r_max'], nz=GRID['n_xi'], nr=GRID['n_r'],
                dt=T.sym('dz', 'pos')/c, nt=C(1), subgrid_nz=None,
                subgrid_nr=None, use_phase=T.TRUE)
    if sub:
        kw.update(laser_envelope_substeps=T.sym('nsub', 'int'),
                  laser_envelope_nxi=T.sym('nx2', 'int'),
                  laser_envelope_nr=T.sym('nr2', 'int'),
                  laser_envelope_use_phase=False)
        want.update(nt=T.sym('nsub', 'int'), subgrid_nz=T.sym('nx2', 'int'),
                    subgrid_nr=T.sym('nr2', 'int'), use_phase=T.FALSE)
    s = stage(x, model, **kw)
    f = items(x, x.attr(s, 'fields'))[0]
    try:
        x.meth(f, 'update', x.list())
    except Dead:
        pass
    w = 'wake_t.fields.rz_wakefield:RZWakefield'
    if not seen:
        chk.und('given', '%s, options=%s' % (model, sub), w,
                'set-up of the laser not seen')
        return
    for k in NAMES:
        chk.equal('given', '%s, options=%s: %s' % (model, sub, k), w,
                  seen[0].get(k), want[k])
