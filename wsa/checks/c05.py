"""Superposition of fields, and no stale field values."""

from ..core import (T, C, builtin_fields, gather, FN, NativeV, items,
                    density, ClassV)
from ..phys import coords

PROP = dict(
    id='C05', title='Fields superpose and leave nothing behind',
    statement='The force on a particle is that of the sum of all fields of '
    'the element, in whatever order they are listed: every built-in field '
    'adds its contribution to what it is given, independently of it, and '
    'does not move the particles. Field values of earlier steps never '
    'contribute to a later one.',
    over=['inputs', 'configurations', 'histories'],
    text='every list of fields, every position, time and earlier step',
    why='the tests use a single field per element',
    files=['wake_t/fields/gather.py', 'wake_t/fields/base.py',
           'wake_t/physics_models/em_fields/linear_b_theta.py',
           'wake_t/physics_models/em_fields/quadrupole.py',
           'wake_t/physics_models/plasma_wakefields/'
           'simple_blowout.py',
           'wake_t/physics_models/plasma_wakefields/'
           'custom_blowout.py',
           'wake_t/physics_models/plasma_wakefields/focusing_blowout.py',
           'wake_t/fields/rz_wakefield.py'],
    mechanism=[('reset and accumulate', 'wake_t/fields/gather.py')])


# every concrete field class of the package, and why it is (not) analysed
KNOWN = {
    'Field': 'abstract', 'AnalyticalField': 'base: see user functions',
    'NumericalField': 'abstract', 'RZWakefield': 'abstract',
    'SimpleBlowoutWakefield': 1, 'CustomBlowoutWakefield': 1,
    'FocusingBlowoutField': 1, 'LinearBThetaField': 1, 'QuadrupoleField': 1,
    'Quasistatic2DWakefield': 1, 'NonLinearColdFluidWakefield': 1,
}


def run(chk):
    chk.rules = {
        'additive': 'every built-in field adds its contribution to the '
        'component arrays: result = previous content + f(positions, time), '
        'with f independent of the previous content',
        'read-only': 'gathering a field leaves the particle positions as '
        'they were',
        'sum': 'the force on the particles is computed from the sum of the '
        'given fields, whatever the component arrays contained before and '
        'in whatever order the fields are listed',
    }
    chk.need('additive', 42)
    chk.need('sum', 24)
    x = chk.ctx()
    for name, f in builtin_fields(x):
        chk.part('additive', name, additive, chk, x, name, f)
    for name, f in rz_fields(x):
        chk.part('additive', name, additive, chk, x, name, f)
    for pusher in ('boris', 'rk4'):
        for order in ((0, 1), (1, 0)):
            chk.part('sum', pusher, total, chk, pusher, order)
    # completeness: new field classes are reported as not analysed
    base = x.get('wake_t.fields.base:Field')
    for m in x.P.mods.values():
        for v in x.st.heap[m.env][-1].values():
            if isinstance(v, ClassV) and base in v.mro() and \
                    v.name not in KNOWN:
                chk.und('additive', v.name, m.path,
                        'field class without a construction rule')


def rz_fields(x):
    out = []
    par = dict(r_max=T.sym('r_max', 'pos'), xi_min=T.sym('xi_min'),
               xi_max=T.sym('xi_max'), n_r=T.sym('n_r', 'int'),
               n_xi=T.sym('n_xi', 'int'), ppc=T.sym('ppc', 'int'))
    for model in ('quasistatic_2d', 'cold_fluid_1d'):
        p = dict(par)
        if model == 'cold_fluid_1d':
            del p['ppc']
        s = x.call('wake_t:PlasmaStage', length=T.sym('length', 'pos'),
                   density=density(x), wakefield_model=model, **p)
        f = items(x, x.attr(s, 'fields'))[0]
        # state after any number of updates: arbitrary grid contents
        nz, nr = par['n_xi'] + 4, par['n_r'] + 4
        for k in ('rho', 'chi', 'e_z', 'e_r', 'e_t', 'b_z', 'b_r', 'b_t'):
            x.set(f, k, x.arr('G' + k, nz, nr))
        x.set(f, 'r_fld', x.arr('r_fld', par['n_r']))
        x.set(f, 'xi_fld', x.arr('xi_fld', par['n_xi']))
        out.append((model, f))
    return out


def additive(chk, x, name, f):
    w = 'field model ' + name
    got, pos = gather(x, f)
    zero = {}
    for k in FN:
        for s in T.subterms(got[k]):
            if s.op == 'load' and s.args[0].op == 'sym' and \
                    s.args[0].args[0] in ['i' + q for q in FN]:
                zero[s] = T.ZERO
    for k in FN:
        i = T.load(T.sym('i' + k), T.lane(1))
        chk.equal('additive', '%s.%s' % (name, k), w, got[k],
                  i + T.subst(got[k], zero))
    for p, k in zip(pos, ('x', 'y', 'z')):
        chk.equal('read-only', '%s.%s' % (name, k), w, x.term(p),
                  T.load(T.sym(k), T.lane(1)))


def total(chk, pusher, order):
    x = chk.ctx()
    b = x.bunch()
    fs = [x.stub_field('A'), x.stub_field('B')]
    seen = []
    spy = x.stub_field('spy')

    def g(it, st, args, kw, node):
        names = ('x', 'y', 'z', 't') + FN
        d = dict(zip(names, args), **kw)
        pos = [it.content(st, d[k])[1] for k in names[:3]]
        seen.append((pos, it.to_term(st, d['t']),
                     {k: it.content(st, d[k])[1] for k in FN}))
    x.set(spy, '_gather', NativeV('spy', g))
    lst = x.list(fs[order[0]], fs[order[1]], spy)
    # dirty scratch arrays: an earlier step with another field
    x.meth(b, 'evolve', x.list(x.stub_field('old')), T.sym('t0'),
           T.sym('dt0'), pusher)
    for k in coords(names=('x', 'y', 'xi', 'px', 'py', 'pz')):
        x.I.store_all(x.st, x.attr(b, k), x.arr(k, T.sym('n', 'int')), None)
    x.meth(b, 'evolve', lst, T.sym('t'), T.sym('dt'), pusher)
    # no field at all after a step in a field
    y = chk.ctx()
    a = y.bunch()
    y.meth(a, 'evolve', y.list(y.stub_field('old')), T.sym('t0'),
           T.sym('dt0'), pusher)
    for k in coords(names=('x', 'y', 'xi', 'px', 'py', 'pz')):
        y.I.store_all(y.st, y.attr(a, k), y.arr(k, T.sym('n', 'int')), None)
    y.meth(a, 'evolve', y.list(), T.sym('t'), T.sym('dt'), pusher)
    if order == (0, 1):
        for k in ('px', 'py', 'pz'):
            chk.equal('sum', '%s, no fields: %s' % (pusher, k),
                      'wake_t:ParticleBunch.evolve[%s]' % pusher,
                      y.term(y.attr(a, k)), T.load(T.sym(k), T.lane(1)))
    tag = '%s order %s%s' % (pusher, 'AB'[order[0]], 'AB'[order[1]])
    for a, (pos, t, d) in enumerate(seen):
        for k in FN:
            want = T.add(*[T.fn('F%s.%s' % (n, k), *(pos + [t]))
                           for n in 'AB'])
            chk.equal('sum', '%s evaluation %d %s' % (tag, a+1, k),
                      'wake_t:ParticleBunch.evolve[%s]' % pusher,
                      d[k], want, n=12)
