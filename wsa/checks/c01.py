"""Tracking leaves weights, species and identity of the particles alone."""

from ..core import T, density, val
from ..optics import PAR, LEN

PROP = dict(
    id='C01', title='Tracking conserves particles, charge and species',
    statement='Tracking a bunch through any element, with any pusher, order, '
    'output or CSR option, changes neither the number and order of its '
    'particles nor their weights and tags, nor the name, species charge and '
    'species mass of the bunch. The same holds for every bunch that the '
    'tracking returns.',
    over=['inputs', 'configurations', 'histories'],
    text='every bunch, element type and option, any number of steps',
    why='the tests look at beam sizes and energies of single-species '
    'electron bunches and never compare weights, tags or species',
    files=['wake_t/beamline_elements/tm_elements.py',
           'wake_t/beamline_elements/field_element.py',
           'wake_t/tracking/tracker.py',
           'wake_t/particles/particle_bunch.py'],
    mechanism=[('output bunches of magnets',
                'wake_t/beamline_elements/tm_elements.py:_create_new_bunch'),
               ('pushers', 'wake_t/particles/push')])

META = ('name', 'q_species', 'm_species', 't_flight', 'z_injection')


def run(chk):
    chk.rules = {
        'bunch': 'after track() the weights and tags are value-numbered to '
        'the initial ones, all coordinate arrays have the initial length, '
        'and name, charge, mass, time of flight and injection position are '
        'the initial ones',
        'output': 'the same holds for every bunch in the returned list',
    }
    chk.need('bunch', 300)
    chk.need('output', 150)
    for cls in PAR:
        for n_out in (None, 2):
            for init in (False, True):
                for csr in (False, True):
                    chk.part('bunch', cls, magnet, chk, cls, n_out, init,
                             csr)
    for name in FIELD:
        for pusher in ('boris', 'rk4'):
            chk.part('bunch', name, field, chk, name, pusher)


def new_bunch(x):
    n = T.sym('n', 'int')
    return x.bunch(tags=x.arr('tags', n), t_flight=T.sym('t_flight'),
                   z_injection=T.sym('z_inj'))


def same(chk, x, b, rule, tag, w):
    n = T.sym('n', 'int')
    for k in ('w', 'tags'):
        a = x.attr(b, k)
        chk.equal(rule, '%s: %s' % (tag, k), w, x.term(a),
                  T.load(T.sym(k), T.lane(1)))
    for k in ('w', 'x', 'y', 'xi', 'px', 'py', 'pz'):
        sh = x.shape(x.attr(b, k))
        if sh is None or len(sh) != 1:
            chk.und(rule, '%s: size of %s' % (tag, k), w, 'rank')
        else:
            chk.equal(rule, '%s: size of %s' % (tag, k), w, sh[0], n)
    for k, v in zip(META, ('bunch', T.sym('q'), T.sym('m', 'pos'),
                           T.sym('t_flight'), T.sym('z_inj'))):
        chk.equal(rule, '%s: %s' % (tag, k), w, x.attr(b, k), v)


def magnet(chk, cls, n_out, init, csr):
    x = chk.ctx()
    b = new_bunch(x)
    el = x.call('wake_t.beamline_elements:' + cls, gamma_ref=T.sym('g_ref'),
                length=LEN, n_out=n_out, csr_on=csr, **PAR[cls])
    out = x.meth(el, 'track', b, out_initial=init, show_progress_bar=False)
    tag = '%s(n_out=%s, csr_on=%s).track(out_initial=%s)' % (
        cls, n_out, csr, init)
    w = 'wake_t:%s.track' % cls
    same(chk, x, b, 'bunch', tag, w)
    p = x.st.heap[out.id]
    if p[0] == 'list':
        for i, o in enumerate(p[1]):
            same(chk, x, o, 'output', '%s output %d' % (tag, i), w)
    outputs(chk, x, tag, w, p[0] != 'list')


def outputs(chk, x, tag, w, wanted):
    """Bunches put in a list inside loops."""
    if not wanted:
        return
    for e in x.events('append'):
        v = e.d['value']
        if getattr(getattr(v, 'cls', None), 'name', '') == 'ParticleBunch' \
                and v.id in x.st.heap:
            same(chk, x, v, 'output', '%s output at %s' % (tag, e.where), w)


GRID = dict(r_max=T.sym('r_max', 'pos'), xi_min=T.sym('xi_min'),
            xi_max=T.sym('xi_max'), n_r=T.sym('n_r', 'int'),
            n_xi=T.sym('n_xi', 'int'))


def laser(x, **kw):
    return x.call('wake_t:GaussianPulse', xi_c=T.sym('xi_c'),
                  a_0=T.sym('a_0'), w_0=T.sym('w_0', 'pos'),
                  tau=T.sym('tau', 'pos'), l_0=T.sym('l_0', 'pos'), **kw)


def stage(x, model, cls='PlasmaStage', **kw):
    d = dict(length=T.sym('length', 'pos'), density=density(x))
    if cls == 'PlasmaRamp':
        d = dict(length=T.sym('length', 'pos'), profile=density(x))
    if model in ('quasistatic_2d', 'cold_fluid_1d'):
        d.update(GRID)
        if model == 'quasistatic_2d':
            d['ppc'] = T.sym('ppc', 'int')
    elif model == 'simple_blowout':
        d['laser'] = laser(x)
    elif model == 'custom_blowout':
        d.update(laser=laser(x), lon_field=T.sym('Ez0'),
                 lon_field_slope=T.sym('Ezp'), foc_strength=T.sym('kfoc'),
                 xi_fields=T.sym('xi_f'))
    d.update(kw)
    return x.call('wake_t:' + cls, wakefield_model=model, **d)


FIELD = {
    'simple_blowout': lambda x, **k: stage(x, 'simple_blowout', **k),
    'custom_blowout': lambda x, **k: stage(x, 'custom_blowout', **k),
    'focusing_blowout': lambda x, **k: stage(x, 'focusing_blowout', **k),
    'cold_fluid_1d': lambda x, **k: stage(x, 'cold_fluid_1d', **k),
    'PlasmaRamp': lambda x, **k: stage(x, 'focusing_blowout', 'PlasmaRamp',
                                       **k),
    'ActivePlasmaLens': lambda x, **k: x.call(
        'wake_t:ActivePlasmaLens', length=T.sym('length', 'pos'),
        foc_strength=T.sym('g'), **k),
    'FieldQuadrupole': lambda x, **k: x.call(
        'wake_t.beamline_elements:FieldQuadrupole',
        length=T.sym('length', 'pos'), foc_strength=T.sym('g'), **k),
    'FieldElement': lambda x, **k: x.call(
        'wake_t.beamline_elements:FieldElement',
        length=T.sym('length', 'pos'), fields=x.list(x.stub_field()), **k),
}


def field(chk, name, pusher):
    x = chk.ctx()
    b = new_bunch(x)
    el = FIELD[name](x, n_out=2, dt_bunch=T.sym('dt_bunch', 'pos'),
                     bunch_pusher=pusher)
    x.meth(el, 'track', b, show_progress_bar=False)
    tag = '%s(bunch_pusher=%s).track()' % (name, pusher)
    w = 'wake_t:%s.track' % name
    same(chk, x, b, 'bunch', tag, w)
    outputs(chk, x, tag, w, True)
