"""Plasma elements: which model they build, and with which options."""

from ..core import T, C, Dead, ObjV, FuncV, NativeV, BoundV, items, \
    density, gather, FN, Term, B, val

PROP = dict(
    id='C19', title='Plasma elements apply the requested model and options',
    statement='PlasmaStage, PlasmaRamp and ActivePlasmaLens apply the '
    'wakefield model that wakefield_model names, with every model option '
    'having the value given by the user (as if the model had been created '
    'directly with these keywords) and the density of the element; with None '
    'only the external fields act, and a field object given as the model is '
    'used as it is. External fields act in addition, none is lost and none '
    'is added. A model, pusher or particle shape that does not exist is '
    'rejected with an exception and not replaced by another one.',
    over=['configurations', 'inputs'],
    text='all elements, models, model options and their values',
    why='the tests use few options per model; an option that is dropped or '
    'mixed up changes the physics without any error',
    files=['wake_t/beamline_elements/plasma_stage.py',
           'wake_t/beamline_elements/plasma_ramp.py',
           'wake_t/beamline_elements/active_plasma_lens.py',
           'wake_t/particles/particle_bunch.py',
           'wake_t/particles/deposition.py'],
    mechanism=[('models', 'wake_t/beamline_elements/plasma_stage.py:'
                'PlasmaStage._get_wakefield')])

length = T.sym('length', 'pos')
GRID = dict(r_max=T.sym('r_max', 'pos'), xi_min=T.sym('xi_min'),
            xi_max=T.sym('xi_max'), n_r=T.sym('n_r', 'int'),
            n_xi=T.sym('n_xi', 'int'))
LASER = dict(laser_envelope_substeps=T.sym('nsub', 'int'),
             laser_envelope_nxi=T.sym('lnxi', 'int'),
             laser_envelope_nr=T.sym('lnr', 'int'))
PW = 'wake_t.physics_models.plasma_wakefields:'


def coefficient(it, st, args, kw, node):
    z = args[0] if args else kw['z']
    return it.ew(st, lambda a: T.fn('parab', a), [z])


def laser(x):
    return x.call('wake_t:GaussianPulse', xi_c=T.sym('xi_c'),
                  a_0=T.sym('a_0'), w_0=T.sym('w_0', 'pos'),
                  tau=T.sym('tau', 'pos'), l_0=T.sym('l_0', 'pos'))


def options(x):
    """(model name, class, option sets)."""
    la = laser(x)
    rz = dict(GRID, dz_fields=T.sym('dz_fields', 'pos'), laser=la, **LASER)
    return (
        ('simple_blowout', 'SimpleBlowoutWakefield', [
            dict(laser=la, field_offset=T.sym('field_offset')),
            dict(laser=la)]),
        ('custom_blowout', 'CustomBlowoutWakefield', [
            dict(laser=la, lon_field=T.sym('Ez0'),
                 lon_field_slope=T.sym('Ezp'), foc_strength=T.sym('kfoc'),
                 xi_fields=T.sym('xi_f')),
            dict(xi_fields=T.sym('xi_f'), laser=la,
                 foc_strength=T.sym('kfoc'))]),
        ('focusing_blowout', 'FocusingBlowoutField', [{}]),
        ('cold_fluid_1d', 'NonLinearColdFluidWakefield', [
            dict(rz, beam_wakefields=True, p_shape='cubic',
                 laser_evolution=False, laser_envelope_use_phase=False),
            dict(GRID, beam_wakefields=False), dict(GRID, laser=la)]),
        ('quasistatic_2d', 'Quasistatic2DWakefield', [
            dict(rz, ppc=T.sym('ppc', 'int'),
                 r_max_plasma=T.sym('rmp', 'pos'), p_shape='linear',
                 parabolic_coefficient=NativeV('parab', coefficient),
                 max_gamma=T.sym('mg', 'pos'), plasma_pusher='ab5',
                 laser_evolution=False, laser_envelope_use_phase=False),
            dict(GRID, ppc=T.sym('ppc', 'int')), dict(GRID)]))


ELEMENTS = {
    'PlasmaStage': (lambda x, m, k: x.call(
        'wake_t:PlasmaStage', length=length, density=density(x),
        wakefield_model=m, **k), 0),
    'PlasmaRamp': (lambda x, m, k: x.call(
        'wake_t:PlasmaRamp', length=length, profile='exponential',
        wakefield_model=m, decay_length=T.sym('decay', 'pos'),
        plasma_dens_top=T.sym('top', 'pos'), **k), 0),
    'ActivePlasmaLens': (lambda x, m, k: x.call(
        'wake_t:ActivePlasmaLens', length=length, wakefields=True,
        **dict(k, density=density(x), wakefield_model=m,
               **({} if 'foc_strength' in k else
                  {'foc_strength': T.sym('g')}))), 1)}


def run(chk):
    chk.rules = {
        'model': 'the field of the element is of the requested model',
        'options': 'its attributes are those of a model created directly '
        'with the same options and the density of the element',
        'fields': 'the fields of the element are the model and the external '
        'fields, each once',
        'rejected': 'selections that do not exist raise an exception',
        'accepted': 'the documented selections are accepted',
    }
    for r, n in (('model', 30), ('options', 400), ('fields', 40),
                 ('rejected', 6), ('accepted', 4)):
        chk.need(r, n)
    for el in ELEMENTS:
        for k in range(5):
            chk.part('options', el, build, chk, el, k)
    chk.part('fields', 'external fields', external, chk)
    chk.part('rejected', 'pusher', pusher, chk)
    chk.part('rejected', 'p_shape', shape, chk)
    chk.part('rejected', 'plasma_pusher', plasma_pusher, chk)


def build(chk, el, k):
    x = chk.ctx()
    name, cls, sets = options(x)[k]
    make, extra = ELEMENTS[el]
    w = 'wake_t:%s[%s]' % (el, name)
    for j, kw in enumerate(sets):
        if el == 'ActivePlasmaLens' and 'foc_strength' in kw:
            continue            # the option of the lens
        tag = '%s(%s), options %d' % (el, name, j + 1)
        e = make(x, name, kw)
        fs = items(x, x.attr(e, 'fields'))
        mine = [f for f in fs if isinstance(f, ObjV) and f.cls.name == cls]
        chk.expect(len(fs) == 1 + extra and len(mine) == 1, 'model', tag, w,
                   'fields %r' % (fs,))
        chk.expect(len(fs) == 1 + extra, 'fields', tag, w,
                   '%d fields' % len(fs))
        if len(mine) != 1:
            continue
        d = x.call(PW + cls, x.attr(e, 'density'), **kw)
        compare(chk, x, tag, w, mine[0], d)
        fa = x.fields(mine[0])
        for k, v in kw.items():
            if k in fa and isinstance(fa[k], (Term, B, str, ObjV)):
                v, inst = val(v), '%s: value of %s' % (tag, k)
                if same(fa[k], v):
                    chk.ok('options', inst, w)
                elif isinstance(v, (Term, B)) and isinstance(
                        fa[k], (Term, B)):
                    chk.equal('options', inst, w, fa[k], v)
                elif isinstance(v, (Term, B, str, ObjV)):
                    chk.bad('options', inst, w, '%r instead of %r' % (
                        fa[k], v))
        if cls in ('NonLinearColdFluidWakefield', 'Quasistatic2DWakefield'):
            chk.equal('options', tag + ': time between updates', w,
                      x.attr(mine[0], 'dt_update'),
                      kw.get('dz_fields', GRID['xi_max'] - GRID['xi_min'])
                      / T.sym('c', 'pos'))


def compare(chk, x, tag, w, a, b):
    fa, fb = x.fields(a), x.fields(b)
    for k in sorted(set(fa) | set(fb)):
        inst = '%s: %s' % (tag, k)
        if k not in fa or k not in fb:
            chk.und('options', inst, w, 'attribute missing')
            continue
        p, q = fa[k], fb[k]
        if same(p, q):
            chk.ok('options', inst, w)
        elif callable_(p) and callable_(q):
            z = T.sym('z')
            try:
                u, v = x.call(p, z), x.call(q, z)
            except Exception:
                continue        # needs other arguments
            if isinstance(u, (Term, B)) and isinstance(v, (Term, B)):
                chk.equal('options', inst, w, u, v)
        elif isinstance(p, (Term, B)) and isinstance(q, (Term, B)):
            chk.equal('options', inst, w, p, q)
        elif isinstance(p, (str, type(None))) and \
                isinstance(q, (str, type(None), Term, B)) or \
                isinstance(q, (str, type(None))) and \
                isinstance(p, (Term, B)):
            chk.bad('options', inst, w, '%r instead of %r' % (p, q))


def callable_(v):
    return isinstance(v, (FuncV, NativeV, BoundV)) or hasattr(v, 'func')


def same(p, q):
    if p is q:
        return True
    if isinstance(p, ObjV) and isinstance(q, ObjV):
        return p.id == q.id
    return isinstance(p, str) and p == q


def external(chk):
    for n in (0, 1, 2):
        for model in (None, 'focusing_blowout', 'field'):
            x = chk.ctx()
            ext = [x.stub_field(str(i)) for i in range(n)]
            m = x.stub_field('m') if model == 'field' else model
            e = x.call('wake_t:PlasmaStage', length=length,
                       density=density(x), wakefield_model=m,
                       external_fields=x.list(*ext))
            fs = items(x, x.attr(e, 'fields'))
            tag = 'model %s, %d external fields' % (model, n)
            ids = [getattr(f, 'id', None) for f in fs]
            ok = all(ids.count(f.id) == 1 for f in ext) and \
                len(fs) == n + (model is not None)
            if model == 'field':
                ok = ok and ids.count(m.id) == 1
            chk.expect(ok, 'fields', tag, 'wake_t:PlasmaStage',
                       'fields %r' % (fs,))
            # and they all act
            if model != 'focusing_blowout' and fs:
                tot = {k: T.ZERO for k in FN}
                for f in fs:
                    r, _ = gather(x, f, init=0)
                    tot = {k: tot[k] + r[k] for k in FN}
                for k in FN:
                    want = sum((T.fn('F%s.%s' % (t, k), *POS) for t in
                                [str(i) for i in range(n)]
                                + ['m']*(model == 'field')), C(0))
                    chk.equal('fields', '%s: %s' % (tag, k),
                              'wake_t:PlasmaStage', tot[k], want)
        # an element does not change the list of the user
        x = chk.ctx()
        ext = x.list(*[x.stub_field(str(i)) for i in range(n)])
        for _ in range(2):
            e = x.call('wake_t:PlasmaStage', length=length,
                       density=density(x),
                       wakefield_model='focusing_blowout',
                       external_fields=ext)
        chk.expect(len(items(x, ext)) == n and
                   len(items(x, x.attr(e, 'fields'))) == n + 1, 'fields',
                   'second stage with the same %d fields' % n,
                   'wake_t:PlasmaStage', 'the list of the user changes')
    x = chk.ctx()
    for _ in range(2):
        e = x.call('wake_t:PlasmaStage', length=length, density=density(x),
                   wakefield_model='focusing_blowout')
    chk.expect(len(items(x, x.attr(e, 'fields'))) == 1, 'fields',
               'second stage without external fields', 'wake_t:PlasmaStage',
               'fields of another stage')


POS = [T.load(T.sym(k), T.lane(1)) for k in ('x', 'y', 'z')] + [T.sym('t')]


def tried(chk, name, ok, w, fn):
    rule = 'accepted' if ok else 'rejected'
    try:
        fn(chk.ctx())
        dead = False
    except Dead:
        dead = True
    chk.expect(dead != ok, rule, name, w,
               'rejected' if dead else 'accepted')


def pusher(chk):
    for p in ('boris', 'rk4', 'leapfrog', 'RK4', ''):
        tried(chk, 'bunch pusher %r' % p, p in ('boris', 'rk4'),
              'wake_t:ParticleBunch.evolve', lambda x: x.meth(
                  x.bunch(), 'evolve', x.list(x.stub_field()), T.sym('t'),
                  T.sym('dt'), p))


def shape(chk):
    def dep(x, p):
        n = T.sym('n', 'int')
        x.call('wake_t.particles.deposition:deposit_3d_distribution',
               *([x.arr(k, n) for k in ('z', 'x', 'y', 'w')]
                 + [T.sym(k) for k in ('z_min', 'r_min')]
                 + [T.sym('nz', 'int'), T.sym('nr', 'int'),
                    T.sym('dz', 'pos'), T.sym('dr', 'pos'),
                    x.arr('D', T.sym('nz', 'int') + 4,
                          T.sym('nr', 'int') + 4)]), p_shape=p)
    for p in ('linear', 'cubic', 'quadratic', ''):
        tried(chk, 'particle shape %r' % p, p in ('linear', 'cubic'),
              'wake_t.particles.deposition:deposit_3d_distribution',
              lambda x: dep(x, p))


def plasma_pusher(chk):
    def go(x, p):
        s = x.call('wake_t:PlasmaStage', length=length, density=density(x),
                   wakefield_model='quasistatic_2d', plasma_pusher=p,
                   ppc=C(2), r_max=T.sym('r_max', 'pos'),
                   xi_min=T.sym('xi_min'), xi_max=T.sym('xi_max'),
                   n_r=T.sym('n_r', 'int'), n_xi=T.sym('n_xi', 'int'))
        f = items(x, x.attr(s, 'fields'))[0]
        x.meth(f, 'update', x.list())
    for p in ('rk2', ''):
        tried(chk, 'plasma pusher %r' % p, False,
              'wake_t:PlasmaStage[quasistatic_2d]', lambda x: go(x, p))
