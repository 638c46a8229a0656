"""Parallel kernels are free of races between iterations."""

import ast

from ..core import T, C, UNDEF, items, FuncV, Dead, AnalysisError
from ..interp import leaves
from .c01 import stage, laser

PROP = dict(
    id='C09', title='Parallel kernels give the same result for any number of '
    'threads',
    statement='No loop that numba runs in parallel writes to a memory '
    'location that another iteration of the loop reads or writes, and no '
    'scalar is carried between iterations other than as a sum. Hence the '
    'tracking result does not depend on WAKET_NUM_THREADS or on the '
    'scheduling of the threads.',
    over=['schedules', 'inputs', 'configurations'],
    text='every parallel loop, any number of threads, every input',
    why='the tests run with a single thread, where racy code is correct; and '
    'even with more threads a race shows up only in some schedules',
    files=['wake_t/particles/interpolation.py',
           'wake_t/particles/deposition.py',
           'wake_t/particles/push/boris_pusher.py',
           'wake_t/particles/push/runge_kutta_4.py',
           'wake_t/utilities/numba.py'],
    mechanism=[('decorators', 'wake_t/utilities/numba.py:njit_parallel'),
               ('serial deposition', 'wake_t/particles/deposition.py')])


def run(chk):
    chk.rules = {
        'write': 'the index of each write to an array from outside a '
        'parallel loop has a component a*i + b, a nonzero constant, i the '
        'iteration variable, b the same in all iterations; a component '
        'computed from particle data can collide',
        'read': 'elements of arrays written in the loop are read only at '
        'the index that the same iteration writes',
        'carried': 'no scalar other than a sum is carried between iterations',
        'coverage': 'every function compiled with parallel=True that '
        'contains a parallel loop is analysed',
    }
    chk.need('write', 20)
    chk.need('coverage', 8)
    loops = {}
    funcs = {}
    for name, fn in (('pushers', pushers), ('cold_fluid_1d', plasma),
                     ('quasistatic_2d', plasma), ('blowout', blowout)):
        def go(name=name, fn=fn):
            x = chk.ctx()
            funcs.update(parallel_functions(x))
            try:
                fn(x, name)
            finally:
                for info in x.I.loops:
                    if info.par and info.flags.get('parallel'):
                        loops.setdefault((info.path, info.func,
                                          info.node.lineno), []).append(
                                              (x, info))
        chk.part('coverage', name, go)
    done = set()
    reached = {k[:2] for k in loops}
    for key, f in sorted(funcs.items()):
        if key not in reached and has_prange(f):
            chk.part('coverage', '%s:%s' % key, alone, chk, key, loops)
    for key, lst in sorted(loops.items()):
        for x, info in lst:
            done.add((info.path, info.func))
            chk.part('write', '%s:%s' % key[:2], one, chk, x, info)
    for key, f in sorted(funcs.items()):
        if key in done:
            chk.ok('coverage', '%s:%s' % key)
        elif not has_prange(f):
            chk.ok('coverage', '%s:%s has no parallel loop' % key)
        else:
            chk.und('coverage', '%s:%s' % key, '', 'not reached')


def parallel_functions(x):
    out = {}
    for m in x.P.mods.values():
        env = x.st.heap.get(m.env)
        if not env:
            continue
        for v in env[-1].values():
            for f in leaves(v):
                if isinstance(f, FuncV) and f.flags.get('parallel'):
                    out[(f.mod.path, f.name)] = f
    return out


def has_prange(f):
    return any(isinstance(n, ast.Call) and 'prange' in ast.dump(n.func)
               for n in ast.walk(f.node))


def alone(chk, key, loops):
    """A kernel not reached from the public interface, on 1D arrays."""
    x = chk.ctx()
    f = parallel_functions(x)[key]
    n = T.sym('n', 'int')
    x.call(f, *[x.arr('a%d' % i, n) for i in range(len(f.node.args.args))])
    for info in x.I.loops:
        if info.par and info.flags.get('parallel'):
            loops.setdefault((info.path, info.func, info.node.lineno),
                             []).append((x, info))


def pushers(x, name):
    b = x.bunch()
    for p in ('boris', 'rk4'):
        x.meth(b, 'evolve', x.list(x.stub_field()), T.sym('t'), T.sym('dt'),
               p)


def blowout(x, name):
    from ..core import builtin_fields, gather
    for _, f in builtin_fields(x):
        gather(x, f)


def plasma(x, name):
    from ..core import gather
    s = stage(x, name, laser=laser(x))
    f = items(x, x.attr(s, 'fields'))[0]
    try:
        x.meth(f, 'update', x.list(x.bunch()))
    except (Dead, AnalysisError):
        pass
    gather(x, f)
    for k in ('linear', 'cubic'):
        try:
            dep = x.soft('wake_t.particles.deposition:deposit_3d_'
                         'distribution')
        except AnalysisError:
            break
        n = T.sym('n', 'int')
        x.call(dep, x.arr('dz', n), x.arr('dx', n), x.arr('dy', n),
               x.arr('dw', n), T.sym('zmin'), T.sym('rmin'),
               T.sym('nz', 'int'), T.sym('nr', 'int'), T.sym('dz'),
               T.sym('dr'), x.arr('dep', T.sym('nz', 'int') + 4,
                                  T.sym('nr', 'int') + 4), k)


def base_index(o, idx):
    """Index into the underlying cell: terms, or None for a slice."""
    if o.view is None:
        return [i if isinstance(i, T.Term) else None for i in idx]
    r = len(o.view[0])
    out = []
    for sp in o.view[1]:
        if sp[0] == 'i':
            out.append(sp[1])
        elif idx and r - sp[1] < len(idx) and \
                isinstance(idx[r - sp[1]], T.Term):
            out.append(T.add(T.mul(sp[3], idx[r - sp[1]]), sp[2]))
        else:
            out.append(None)
    return out


def classify(t, iv, info):
    """'own': a*iv+b; 'data': depends on iv through data only; 'same':
    independent of iv; 'other'."""
    if t is None:
        return 'same', None
    t = T.canon(t)
    sub = T.subterms(t)
    if iv not in sub:
        if any(x.op == 'sym' and isinstance(x.args[0], str) and
               x.args[0].startswith('L%d:' % info.id) for x in sub
               if isinstance(x, T.Term)):
            return 'other', None
        return 'same', None
    d = T.canon(T.sub(T.subst(t, {iv: T.add(iv, C(1))}), t))
    if T.is_const(d) and T.cval(d) != 0:
        b = T.canon(T.sub(t, T.mul(d, iv)))
        bs = T.subterms(b)
        inner = any(isinstance(x, T.Term) and x.op == 'sym' and
                    isinstance(x.args[0], str) and
                    x.args[0].startswith('i~L') for x in bs)
        if iv not in bs and not inner:
            return 'own', (d, b)
        return 'other', None
    # remove data
    m = {}
    for x in sub:
        if isinstance(x, T.Term) and x.op == 'load' and \
                iv in T.subterms(x):
            m[x] = T.sym('data')
    if m and iv not in T.subterms(T.subst(t, m)):
        return 'data', None
    return 'other', None


def one(chk, x, info):
    where = '%s:%s:%s' % (info.path, info.func, info.node.lineno)
    iv = info.iv
    outer = info.head.heap
    stores, loads = {}, {}
    for e in x.I.log:
        if info.id not in e.loops or e.kind not in ('store', 'load'):
            continue
        o = e.d['arr']
        if o.id not in outer or o.id not in info.entry.heap:
            continue
        (stores if e.kind == 'store' else loads).setdefault(
            o.id, []).append(e)
    for a, evs in stores.items():
        owns = set()
        for e in evs:
            cl = [classify(t, iv, info) for t in base_index(
                e.d['arr'], e.d['idx'])]
            tag = '%s line %s' % (info.func, getattr(e.node, 'lineno', '?'))
            own = [(k, c[1]) for k, c in enumerate(cl) if c[0] == 'own']
            if own:
                owns |= set(own)
                chk.ok('write', tag, where)
            elif any(c[0] == 'other' for c in cl):
                chk.und('write', tag, where, 'index not understood')
            elif any(c[0] == 'data' for c in cl):
                chk.bad('write', tag, e.where, 'the index is computed from '
                        'data, so that two iterations of the parallel loop '
                        'can write to the same element')
            else:
                v = e.d.get('value')
                if isinstance(v, T.Term) and iv not in T.subterms(v) and not \
                        any(isinstance(s, T.Term) and s.op in ('sym', 'load')
                            and ('L%d:' % info.id) in str(s.args[0])
                            for s in T.subterms(v)):
                    chk.und('write', tag, where, 'same value everywhere')
                else:
                    chk.bad('write', tag, e.where, 'all iterations of the '
                            'parallel loop write to the same element')
        for e in loads.get(a, ()):
            cl = [classify(t, iv, info) for t in base_index(
                e.d['arr'], e.d['idx'])]
            tag = '%s line %s' % (info.func, getattr(e.node, 'lineno', '?'))
            mine = [(k, c[1]) for k, c in enumerate(cl) if c[0] == 'own']
            if any(m in owns for m in mine):
                chk.ok('read', tag, where)
            elif mine and owns and {m[0] for m in mine} == \
                    {m[0] for m in owns}:
                chk.bad('read', tag, e.where, 'reads the element that '
                        'another iteration of the parallel loop writes')
            elif owns and not any(c[0] == 'other' for c in cl) and cl:
                chk.bad('read', tag, e.where, 'reads elements that other '
                        'iterations of the parallel loop write')
            else:
                chk.und('read', tag, where, 'index not understood')
    for (k, key) in sorted(info.locs, key=str):
        p0 = info.entry.heap.get(k)
        if key == '*' or p0 is None or p0[0] != 'env' or info.end is None:
            continue
        if p0[-1].get(key, UNDEF) is UNDEF:
            continue
        h, e = info.head.heap[k][-1].get(key), info.end.heap[k][-1].get(key)
        if not isinstance(h, T.Term) or not isinstance(e, T.Term):
            continue
        tag = '%s variable %s' % (info.func, key)
        if h not in T.subterms(e):
            chk.ok('carried', tag, where)
        elif h not in T.subterms(T.canon(T.sub(e, h))):
            chk.ok('carried', tag + ' is a sum', where)
        else:
            chk.bad('carried', tag, where, 'the value of an iteration '
                    'depends on that of the previous one')
