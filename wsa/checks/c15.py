"""openPMD particle records describe the bunch in SI units in the lab."""

import re

from ..core import (T, Term, ArrV, DictV, NativeV, Dead, TupleV, AnalysisError,
                    leaves)
from ..optics import PAR, LEN

PROP = dict(
    id='C15', title='openPMD particle output is the bunch, in SI units in the '
    'lab frame',
    statement='Every openPMD output contains, for each bunch under its own '
    'name, exactly its particles: positions in m such that position plus '
    'positionOffset is the position in the laboratory (xi plus c times the '
    'global time), momenta gamma*m*v in kg m/s, weights, species charge and '
    'mass, with the matching unit dimensions and weighting attributes. The '
    'time of the output is the time within the element plus the time to '
    'reach the element; successive outputs get successive iteration numbers '
    'over all elements of a beamline, every element advances the position by '
    'its length, and bunches with equal names are rejected.',
    over=['inputs', 'configurations', 'histories'],
    text='all bunches, species, times, and sequences of elements and outputs',
    why='the tests only read back one electron bunch (with unit offsets zero) '
    'or do not read the output at all',
    files=['wake_t/diagnostics/openpmd_diag.py',
           'wake_t/particles/particle_bunch.py',
           'wake_t/beamline_elements/tm_elements.py',
           'wake_t/tracking/tracker.py'],
    mechanism=[('records', 'wake_t/diagnostics/openpmd_diag.py'
                ':OpenPMDDiagnostics.write_diagnostics'),
               ('data', 'wake_t/particles/particle_bunch.py'
                ':ParticleBunch.get_openpmd_diagnostics_data')])

W = 'wake_t.diagnostics:OpenPMDDiagnostics.write_diagnostics'
SC = 'SCALAR'
time, dt, zpos = T.sym('time'), T.sym('dt'), T.sym('zpos')
c = T.sym('c', 'pos')


def run(chk):
    chk.rules = {
        'values': 'each record component (times its unitSI) is '
        'value-numbered to the coordinate of the bunch in SI units',
        'lab': 'position + positionOffset = xi + c t_global, and t_global = '
        'time in the element + z of the element / c',
        'units': 'unit dimensions and weighting attributes are those of the '
        'quantity',
        'extent': 'the declared extent of each dataset is that of the data',
        'index': 'consecutive writes use consecutive iterations; '
        'increase_z_pos adds up',
        'keeps': 'a write goes to its own file in the directory of the '
        'diagnostics (or adds to the files there) and removes nothing',
        'names': 'two bunches with one name are rejected, otherwise accepted',
        'elements': 'a magnet writes each of its output bunches once, at the '
        'time of its position in the element, and advances z by its length',
    }
    chk.need('values', 12)
    chk.need('lab', 8)
    chk.need('units', 18)
    chk.need('index', 4)
    chk.need('names', 3)
    chk.need('keeps', 2)
    chk.need('elements', 12)
    chk.part('values', 'write', write, chk)
    chk.part('index', 'sequence', sequence, chk)
    for names, dup in ((('a', 'b'), False), (('a', 'a'), True),
                       (('a', 'b', 'a'), True), (('a', 'b', 'b'), True)):
        chk.part('names', str(names), species, chk, names, dup)
    for cls in PAR:
        for n_out, init in ((2, False), (2, True), (None, True), (1, False)):
            chk.part('elements', cls, magnet, chk, cls, n_out, init)


REMOVE = ('os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs',
          'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.move',
          'os.truncate')


def setup(x):
    tr = x.tree(('iterations', 'particles', 'meshes'))

    def hook(it, st, path, args, kw, node):
        if path == 'openpmd_api.Series':
            it.ev_log(st, 'series', node, args=list(args) +
                      list(kw.values()))
            return tr
        if path in REMOVE or path.rsplit('.', 1)[-1] in ('rmtree', 'unlink'):
            it.ev_log(st, 'remove', node, path=path)
            return None
        if path == 'os.path.join' and all(isinstance(a, str) for a in args):
            return '/'.join(args)
        if path == 'os.path.abspath' and isinstance(args[0], str):
            return args[0] if args[0][:1] == '/' else '/cwd/' + args[0]
        if path == 'os.getcwd':
            return '/cwd'
        if path == 'openpmd_api.Dataset':
            e = kw['extent'] if 'extent' in kw else (
                args[1] if len(args) > 1 else None)
            return TupleV(('dataset', e))
        return NotImplemented
    x.I.ext_hook = hook
    return tr


def records(x, tr):
    out = {}
    for k, v in x.st.heap[tr.cell][-1].items():
        out[tuple('SCALAR' if str(i).endswith('.SCALAR') else i
                  for i in k)] = v
    return out


def diag(x, index=None, z=None):
    """A diagnostics object that has already written and moved."""
    d = x.call('wake_t.diagnostics:OpenPMDDiagnostics', write_dir='out')
    if z is not None:
        x.meth(d, 'increase_z_pos', z)
    return d


def iteration(rec):
    its = []
    for k in rec:
        if len(k) > 2 and k[0] == 'iterations' and k[1] not in its:
            its.append(k[1])
    return its


def stored(x, rec, path):
    """(effective value, shape) written under a path."""
    v = sh = None
    for m in ('()store_chunk', '()make_constant'):
        if path + (m,) in rec:
            v = rec[path + (m,)]
    if v is None:
        return None, None
    if isinstance(v, TupleV):
        v = v.items[0]
    sh = x.shape(v) if isinstance(v, ArrV) else ()
    v = x.term(v)
    u = rec.get(path + ('.unit_SI',), rec.get(path + ('()set_unit_SI',)))
    if u is not None:
        v = T.mul(v, x.term(u))
    return v, sh


SPECIAL = {'charge', 'mass', 'weighting'}


def put(chk, rule, inst, x, rec, path, want):
    v, sh = stored(x, rec, path)
    if v is None:
        if any(k[:len(path)] == path for k in rec):
            return chk.und(rule, inst, W, 'written in an unknown way')
        part = path[:4]
        return chk.bad(rule, inst, W, 'no data written for %s' % (path,)) \
            if any(k[:len(part)] == part for k in rec) or len(path) > 4 \
            else chk.und(rule, inst, W, 'nothing found at %s' % (path,))
    if want is not None:
        chk.equal(rule, inst, W, v, want)
    ds = rec.get(path + ('()reset_dataset',))
    if isinstance(ds, TupleV) and ds.items[0] == 'dataset' and sh:
        e = ds.items[1]
        if isinstance(e, TupleV):
            e = list(e.items)
        elif hasattr(e, 'id') and x.st.heap[e.id][0] == 'list':
            e = list(x.st.heap[e.id][1])
        else:
            e = None
        if e is not None and all(isinstance(i, Term) for i in e):
            if len(e) != len(sh):
                chk.bad('extent', inst, W, 'rank %d for data of rank %d' % (
                    len(e), len(sh)))
            else:
                for a, b in zip(e, sh):
                    chk.equal('extent', inst, W, a, b)
    return v


def dims(x, v):
    """{dimension letter: power} of a unit_dimension dictionary."""
    if not isinstance(v, DictV):
        return None
    p = x.st.heap[v.id]
    out = {}
    for k, w in p[-1].items():
        k = str(k).rsplit('.', 1)[-1].strip(")'> ")
        if isinstance(w, TupleV):
            w = w.items[-1]
        w = x.term(w)
        if not (isinstance(w, Term) and w.op == 'const'):
            try:
                w = T.canon(w)
            except Exception:
                return None
        if w.op != 'const':
            return None
        if w.args[0]:
            out[k] = int(w.args[0])
    return out


def check_dims(chk, rule, inst, x, rec, path, want, where=W):
    v = rec.get(path + ('.unit_dimension',),
                rec.get(path + ('()set_unit_dimension',)))
    if v is None:
        if want:
            chk.bad(rule, inst, where, 'no unit dimension set')
        return
    d = dims(x, v)
    if d is None:
        chk.und(rule, inst, where, 'dictionary not resolved')
    else:
        chk.expect(d == want, rule, inst, where,
                   'unit dimension %s, required %s' % (d, want))


UNITS = {'position': {'L': 1}, 'positionOffset': {'L': 1},
         'momentum': {'L': 1, 'M': 1, 'T': -1}, 'charge': {'T': 1, 'I': 1},
         'mass': {'M': 1}, 'weighting': {}}
# macroWeighted, weightingPower: momentum, charge and mass of a macroparticle
# are those of one particle times the weight
WEIGHT = {'position': (0, 0), 'positionOffset': (0, 0), 'momentum': (0, 1),
          'charge': (0, 1), 'mass': (0, 1), 'weighting': (1, 1)}


def write(chk):
    x = chk.ctx()
    tr = setup(x)
    b = [x.bunch(t) for t in '12']
    d = diag(x, z=zpos)
    x.meth(d, 'write_diagnostics', time, dt, x.list(*b))
    rec = records(x, tr)
    its = iteration(rec)
    if len(its) != 1:
        return chk.bad('index', 'one iteration per write', W,
                       'iterations %s' % (its,))
    it = ('iterations', its[0])
    tg = time + zpos/c
    tu = x.term(rec.get(it + ('.time_unit_SI',), T.ONE))
    if it + ('.time',) in rec:
        chk.equal('lab', 'time of the output', W,
                  x.term(rec[it + ('.time',)])*tu, tg)
    else:
        chk.bad('lab', 'time of the output', W, 'no time written')
    if it + ('.dt',) in rec:
        chk.equal('lab', 'dt of the output', W,
                  x.term(rec[it + ('.dt',)])*tu, dt)
    for tag in '12':
        p = it + ('particles', 'bunch' + tag)
        if not any(k[:4] == p for k in rec):
            chk.bad('values', 'bunch' + tag, W, 'bunch not written')
            continue
        n, m, q = (T.sym('n' + tag, 'int'), T.sym('m' + tag, 'pos'),
                   T.sym('q' + tag))
        ld = {k: T.load(T.sym(k + tag), T.lane(1))
              for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')}
        lab = {'x': ld['x'], 'y': ld['y'], 'z': ld['xi'] + c*tg}
        for k in 'xyz':
            v = put(chk, 'values', 'bunch%s position %s' % (tag, k), x, rec,
                    p + ('position', k), None)
            o = put(chk, 'values', 'bunch%s positionOffset %s' % (tag, k), x,
                    rec, p + ('positionOffset', k), None)
            if isinstance(v, Term) and isinstance(o, Term):
                chk.equal('lab', 'bunch%s %s + offset' % (tag, k), W,
                          T.add(v, o), lab[k])
            put(chk, 'values', 'bunch%s momentum %s' % (tag, k), x, rec,
                p + ('momentum', k), ld['p' + k]*m*c)
        put(chk, 'values', 'bunch%s weighting' % tag, x, rec,
            p + ('weighting', SC), ld['w'])
        put(chk, 'values', 'bunch%s charge' % tag, x, rec,
            p + ('charge', SC), q)
        put(chk, 'values', 'bunch%s mass' % tag, x, rec, p + ('mass', SC), m)
        for r, u in UNITS.items():
            check_dims(chk, 'units', 'bunch%s %s' % (tag, r), x, rec,
                       p + (r,), u)
            for a, w in zip(('macroWeighted', 'weightingPower'), WEIGHT[r]):
                v = None
                for pp in (p + (r,), p + (r, SC)):
                    v = rec.get(pp + ('()set_attribute:' + a,), v)
                i = 'bunch%s %s %s' % (tag, r, a)
                if v is None:
                    chk.bad('units', i, W, 'attribute not written')
                else:
                    if isinstance(v, TupleV):
                        v = v.items[-1]
                    chk.equal('units', i, W, x.term(v), T.C(w))
        extra = [k for k in rec if k[:4] == p and k[4] not in UNITS and
                 k[-1] == '()store_chunk']
        for k in extra:
            chk.ok('values', 'bunch%s extra record %s' % (tag, k[4]), W)


def sequence(chk):
    """Writes and element changes in sequence."""
    x = chk.ctx()
    tr = setup(x)
    sp = [x.list(*[x.bunch(str(i)) for i in range(k)])
          for k in (2, 0, 1, 1)]
    d = diag(x)
    times = [T.sym('t%d' % i) for i in range(4)]
    z = T.ZERO
    seen = []
    for i, t in enumerate(times):
        x.meth(d, 'write_diagnostics', t, dt, sp[i])
        rec = records(x, tr)
        new = [k for k in iteration(rec) if k not in seen]
        if len(new) != 1:
            chk.bad('index', 'write %d' % (i+1), W, 'iterations %s after %s'
                    % (iteration(rec), seen))
            return
        seen += new
        chk.expect(new[0] == str(i), 'index', 'iteration of write %d' %
                   (i+1), W, 'iteration %s' % new[0])
        chk.equal('lab', 'time of write %d' % (i+1), W,
                  x.term(rec[('iterations', new[0], '.time')]), t + z/c)
        ln = T.sym('len%d' % i)
        x.meth(d, 'increase_z_pos', ln)
        z = z + ln
    rm = x.events('remove')
    chk.expect(not rm, 'keeps', 'removes nothing', W, 'calls %s' % sorted(
        e.d['path'] for e in rm))
    for i, e in enumerate(x.events('series')):
        f = [a for a in e.d['args'] if isinstance(a, str)]
        inst = 'file of write %d' % (i+1)
        if len(f) != 1:
            chk.und('keeps', inst, W, 'name not resolved')
            continue
        new = any(str(a).rstrip(")'> ").endswith('.create')
                  for a in e.d['args'])
        earlier = [a for q in x.events('series')[:i] for a in q.d['args']
                   if isinstance(a, str)]
        own = re.search(r'%[0-9]*T', f[0]) or f[0] not in earlier
        chk.expect(own or not new, 'keeps', inst, W,
                   '%s is created anew by every write' % f[0])
        chk.expect(f[0].startswith(x.attr(d, 'write_dir') + '/'), 'keeps',
                   inst + ': directory', W, 'writes to %s' % f[0])


def species(chk, names, dup):
    x = chk.ctx()
    setup(x)
    bs = [x.bunch(str(i), name=n) for i, n in enumerate(names)]
    d = diag(x)
    st = x.st
    try:
        x.meth(d, 'write_diagnostics', time, dt, x.list(*bs))
        dead = False
    except Dead:
        dead = True
    chk.expect(dead == dup, 'names', 'names %s' % (names,), W,
               'output %s' % ('rejected' if dead else 'accepted'))


def magnet(chk, cls, n_out, init):
    x = chk.ctx()
    setup(x)
    b = x.bunch()
    el = x.call('wake_t.beamline_elements:' + cls, gamma_ref=T.sym('g_ref'),
                length=LEN, n_out=n_out, **PAR[cls])
    d = diag(x)

    def wr(it, st, args, kw, node):
        a = dict(zip(('time', 'dt', 'species_list', 'fields'), args))
        a.update(kw)
        it.ev_log(st, 'wr', node, **a)

    def inc(it, st, args, kw, node):
        it.ev_log(st, 'inc', node, v=(list(args) + list(kw.values()))[0])
    x.set(d, 'write_diagnostics', NativeV('write', wr))
    x.set(d, 'increase_z_pos', NativeV('inc', inc))
    out = x.meth(el, 'track', b, out_initial=init, opmd_diag=d,
                 show_progress_bar=False)
    tag = '%s(n_out=%s).track(out_initial=%s)' % (cls, n_out, init)
    w = 'wake_t:%s.track' % cls
    p = x.st.heap[out.id]
    if p[0] != 'list':
        raise AnalysisError('outputs not enumerated')
    ws = x.events('wr')
    chk.expect(len(ws) == len(p[1]), 'elements', tag + ': number of outputs',
               w, '%d outputs written, %d returned' % (len(ws), len(p[1])))
    pos = ([T.ZERO] if init else []) + [
        LEN*(i+1)/n_out for i in range(n_out or 0)]
    if len(ws) == len(p[1]) == len(pos):
        for i, (e, o, s) in enumerate(zip(ws, p[1], pos)):
            chk.equal('elements', '%s: time of output %d' % (tag, i),
                      w, x.term(e.d['time']), s/c)
            sp = e.d.get('species_list')
            got = x.st.heap[sp.id][1] if hasattr(sp, 'id') and \
                x.st.heap[sp.id][0] == 'list' else None
            if got is None:
                chk.und('elements', '%s: bunch %d' % (tag, i), w, 'list')
            else:
                same = [leaves(g) == leaves(o) for g in got]
                if same == [True]:
                    chk.ok('elements', '%s: bunch %d' % (tag, i), w)
                elif len(same) == 1:
                    for k in x.COORDS:
                        chk.equal('elements', '%s: bunch %d %s' % (
                            tag, i, k), w, x.term(x.attr(got[0], k)),
                            x.term(x.attr(o, k)))
                else:
                    chk.bad('elements', '%s: bunch %d' % (tag, i), w,
                            '%d bunches written' % len(same))
    ic = x.events('inc')
    tot = T.ZERO
    for e in ic:
        tot = T.add(tot, x.term(e.d['v']))
    chk.equal('elements', tag + ': z after the element', w, tot, LEN)
