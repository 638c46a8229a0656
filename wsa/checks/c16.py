"""openPMD field records: what the particles see, where they see it."""

from ..core import T, Term, ArrV, ListV, TupleV, AnalysisError, items
from .c01 import stage, laser
from .c15 import (setup, records, diag, iteration, stored, check_dims, W, c,
                  time, dt, zpos)

PROP = dict(
    id='C16', title='openPMD field output holds the fields that act on the '
    'particles',
    statement='The field records of a plasma stage describe the fields that '
    'the particles feel: at every grid node, whose laboratory position is '
    'given by the offset, spacing, staggering and axis labels of the record, '
    'E and B equal the fields gathered by a particle at that place; rho is '
    'the charge density (normalized density times -e times the local plasma '
    'density); a, a_mod and a_phase are the laser envelope, its modulus and '
    'phase, with the angular frequency and polarization of the laser. Units '
    'and extents match, and fields without output are skipped.',
    over=['inputs', 'configurations'],
    text='all grids, field values, times, element positions and lasers; both '
    'numerical wakefield models',
    why='the tests never read the field output; a shifted, transposed or '
    'wrongly scaled record leaves the simulation itself untouched',
    files=['wake_t/fields/rz_wakefield.py',
           'wake_t/diagnostics/openpmd_diag.py',
           'wake_t/utilities/other.py'],
    mechanism=[('field data', 'wake_t/fields/rz_wakefield.py'
                ':RZWakefield._get_openpmd_diagnostics_data'),
               ('records', 'wake_t/diagnostics/openpmd_diag.py'
                ':OpenPMDDiagnostics._write_fields')])

NR, NX = T.sym('n_r', 'int'), T.sym('n_xi', 'int')
I, J = T.sym('node_r', 'int'), T.sym('node_z', 'int')


def between(a, b):
    return lambda rng: rng.randint(a, b)


DOM = {'n_r': between(9, 12), 'n_xi': between(9, 12),
       'node_r': between(1, 7), 'node_z': between(1, 7),
       'xi_min': lambda r: -2 - r.random(), 'xi_max': lambda r: r.random(),
       'r_max': lambda r: 1 + r.random()}


def run(chk):
    chk.rules = {
        'nodes': 'E and B at the node of a record equal the fields gathered '
        'at the laboratory position of the node, (offset + (index + '
        'position) * spacing); components that are not computed are zero',
        'grid': 'the nodes of every record are those of the simulation grid '
        'moved to the current position of the window',
        'rho': 'rho is -e n_p times the normalized charge density',
        'laser': 'a, a_mod, a_phase, angularFrequency and polarization are '
        'those of the laser',
        'units': 'unit dimensions of E, B and rho',
        'skipped': 'fields without openPMD output write nothing',
    }
    chk.need('nodes', 12)
    chk.need('grid', 12)
    chk.need('rho', 2)
    chk.need('laser', 5)
    chk.need('units', 6)
    for model, las in (('cold_fluid_1d', True), ('quasistatic_2d', False)):
        chk.part('nodes', model, one, chk, model, las)
    chk.part('skipped', 'analytical fields', analytical, chk)


def seq(x, v):
    if isinstance(v, TupleV):
        v = list(v.items)
    elif isinstance(v, ListV):
        v = items(x, v)
    elif isinstance(v, ArrV):
        p = x.st.heap[v.id]
        v = list(p[1]) if p[0] == 'stk' else None
    else:
        return None
    return None if v is None else [i if isinstance(i, str) else x.term(i)
                                   for i in v]


def one(chk, model, las):
    x = chk.ctx()
    tr = setup(x)
    L = laser(x, polarization='circular') if las else None
    s = stage(x, model, laser=L)
    f = items(x, x.attr(s, 'fields'))[0]
    x.meth(f, 'update', x.list())
    # arbitrary field values from here on
    for k in ('e_r', 'e_z', 'b_t', 'rho'):
        a = x.attr(f, k)
        x.I.store_all(x.st, a, x.arr(k, *x.shape(a)), None)
    d = diag(x, z=zpos)
    # fields without output before and after do not matter
    an = items(x, x.attr(stage(x, 'focusing_blowout'), 'fields'))
    x.meth(d, 'write_diagnostics', time, dt, x.list(),
           x.list(*(an + [f] + an)))
    rec = records(x, tr)
    its = iteration(rec)
    if len(its) != 1:
        raise AnalysisError('iterations %s' % its)
    base = ('iterations', its[0], 'meshes')
    names = sorted(set(k[3] for k in rec if k[:3] == base and len(k) > 4))
    need = {'E', 'B', 'rho'} | ({'a', 'a_mod', 'a_phase'} if las else set())
    chk.expect(need <= set(names), 'nodes', '%s: records' % model, W,
               'records %s' % names)
    nodes = {}
    for nm in sorted(need & set(names)):
        nodes[nm] = grid(chk, x, rec, base + (nm,), model, nm)
    for fld, comps in (('E', (('r', 'ex'), ('t', None), ('z', 'ez'))),
                       ('B', (('r', None), ('t', 'by'), ('z', None)))):
        if nodes.get(fld) is None:
            continue
        for comp, k in comps:
            component(chk, x, f, rec, base + (fld, comp), model, fld + comp,
                      k, nodes[fld])
    for nm, u in (('E', {'L': 1, 'M': 1, 'T': -3, 'I': -1}),
                  ('B', {'M': 1, 'T': -2, 'I': -1}),
                  ('rho', {'L': -3, 'T': 1, 'I': 1})):
        if nm in names:
            check_dims(chk, 'units', '%s: %s' % (model, nm), x, rec,
                       base + (nm,), u)
    if 'rho' in names:
        v = at_node(chk, x, rec, base + ('rho', 'SCALAR'), 'rho', model,
                    'rho')
        if v is not None:
            n_p = T.fn('dens', T.ZERO)
            chk.equal('rho', model, W, v,
                      -T.sym('e', 'pos')*n_p*T.load(T.sym('rho'), J+2, I+2),
                      domains=DOM)
    if las:
        envelope(chk, x, rec, base, model, L, nodes)


def at_node(chk, x, rec, path, rule, model, nm):
    """The value stored for node (I, J)."""
    v, sh = stored(x, rec, path)
    inst = '%s: %s' % (model, nm)
    if v is None:
        chk.bad(rule, inst, W, 'no data written')
        return None
    if sh is None or not isinstance(v, Term):
        chk.und(rule, inst, W, 'data not resolved')
        return None
    if len(sh) != 3:
        chk.bad(rule, inst + ' rank', W, 'shape %s' % (sh,))
        return None
    for a, b, ax in zip(sh, (T.ONE, NR, NX), ('mode', 'r', 'z')):
        chk.equal(rule, '%s extent along %s' % (inst, ax), W, a, b)
    ds = rec.get(path + ('()reset_dataset',))
    if isinstance(ds, TupleV):
        e = seq(x, ds.items[1])
        if e is not None and len(e) == 3:
            for a, b in zip(e, sh):
                chk.equal(rule, inst + ' declared extent', W, a, b)
    return T.subst(v, {T.lane(2): I, T.lane(1): J})


def grid(chk, x, rec, p, model, nm):
    """(r, z in the window) of node (I, J) as told by the record."""
    inst = '%s: %s ' % (model, nm)
    lab = seq(x, rec.get(p + ('.axis_labels',)))
    sp = seq(x, rec.get(p + ('.grid_spacing',)))
    off = seq(x, rec.get(p + ('.grid_global_offset',)))
    pos = None
    for k in rec:
        if k[:4] == p and k[-1] == '()set_attribute:position':
            v = rec[k].items[-1] if isinstance(rec[k], TupleV) and \
                len(rec[k].items) == 1 else rec[k]
            q = seq(x, v)
            if pos is not None and q != pos:
                chk.und('grid', inst + 'staggering', W, 'differs')
                return None
            pos = q
    if lab is None or sp is None or off is None or pos is None or \
            sorted(lab) != ['r', 'z'] or len(sp) != 2 or len(off) != 2:
        chk.und('grid', inst, W, 'grid attributes not resolved')
        return None
    if lab != ['r', 'z']:
        chk.bad('grid', inst + 'axis labels', W, 'labels %s' % lab)
        return None
    r = off[0] + (I + pos[0])*sp[0]
    z = off[1] + (J + pos[1])*sp[1]
    dr, dz = (T.sym('r_max', 'pos')/NR,
              (T.sym('xi_max') - T.sym('xi_min'))/(NX - 1))
    chk.equal('grid', inst + 'r', W, r, (I + T.C(0.5))*dr, domains=DOM)
    chk.equal('grid', inst + 'z', W, z, T.sym('xi_min') + J*dz + c*time +
              zpos, domains=DOM)
    return r, z - c*time - zpos


def component(chk, x, f, rec, path, model, nm, k, node):
    v = at_node(chk, x, rec, path, 'nodes', model, nm)
    if v is None:
        return
    if k is None:
        chk.equal('nodes', '%s: %s' % (model, nm), W, v, T.ZERO)
        return
    out = {}
    pos = [x.I.arr(x.st, (T.ONE,), q) for q in (node[0], T.ZERO, node[1])]
    for q in ('ex', 'ey', 'ez', 'bx', 'by', 'bz'):
        out[q] = x.I.arr(x.st, (T.ONE,), T.ZERO)
    x.meth(f, 'gather', *(pos + [time] + [out[q] for q in (
        'ex', 'ey', 'ez', 'bx', 'by', 'bz')]))
    chk.equal('nodes', '%s: %s' % (model, nm), W, v,
              T.subst(x.term(out[k]), {T.lane(1): T.ZERO}), domains=DOM,
              n=16)


def envelope(chk, x, rec, base, model, L, nodes):
    env = x.meth(L, 'get_envelope')
    e = T.subst(x.term(env), {T.lane(2): J, T.lane(1): I})
    for nm, fn in (('a', lambda a: a), ('a_mod', lambda a: T.fn('abs', a)),
                   ('a_phase', lambda a: T.fn('angle', a))):
        v = at_node(chk, x, rec, base + (nm, 'SCALAR'), 'laser', model, nm)
        if v is not None:
            chk.equal('laser', '%s: %s' % (model, nm), W, v, fn(e),
                      domains=DOM)
    for nm, a, want in (('a', 'angularFrequency',
                         2*T.sym('pi', 'pos')*c/T.sym('l_0', 'pos')),
                        ('a_mod', 'polarization', 'circular')):
        v = rec.get(base + (nm, '()set_attribute:' + a))
        i = '%s: %s of %s' % (model, a, nm)
        if v is None:
            chk.bad('laser', i, W, 'attribute not written')
        elif isinstance(want, str):
            chk.expect(v == want, 'laser', i, W, 'is %r' % (v,))
        else:
            chk.equal('laser', i, W, x.term(v), want)


def analytical(chk):
    x = chk.ctx()
    tr = setup(x)
    for model in ('simple_blowout', 'custom_blowout', 'focusing_blowout'):
        s = stage(x, model)
        f = items(x, x.attr(s, 'fields'))[0]
        d = diag(x)
        x.meth(d, 'write_diagnostics', time, dt, x.list(), x.list(f))
        k = [k for k in records(x, tr) if 'meshes' in k]
        chk.expect(not k, 'skipped', model, W, 'writes %s' % k[:2])
