"""Table-driven models of builtins, numpy, math, scipy.constants, copy ..."""
import math

from . import terms as T
from .terms import Term, B, TRUE, FALSE, C, lane
from .interp import (
    TupleV, ObjV, ListV, DictV, ArrV, FuncV, BoundV, PropV, WrapV, ClassV,
    ModV, ExtV, BuiltinV, NativeV, MethV, SliceV, RangeV, LazyIter, ExcV,
    IteV, DecorV, PartialV, UNDEF, Dead, AnalysisError, numeric, to_num, same,
    merge_val, Ref, leaves, CtxGenV, TreeV, MaskV)

c_ = T.sym('c', 'pos')
e_ = T.sym('e', 'pos')
m_e = T.sym('m_e', 'pos')
eps0 = T.sym('epsilon_0', 'pos')

CONSTS = {}
for p in ('scipy.constants', 'ct'):
    CONSTS.update({
        p + '.c': c_, p + '.speed_of_light': c_,
        p + '.e': e_, p + '.elementary_charge': e_,
        p + '.m_e': m_e, p + '.electron_mass': m_e,
        p + '.m_p': T.sym('m_p', 'pos'),
        p + '.epsilon_0': eps0, p + '.mu_0': T.sym('mu_0', 'pos'),
        p + '.pi': T.PI, p + '.h': T.sym('h_planck', 'pos'),
        p + '.hbar': T.sym('hbar', 'pos'),
        p + '.k': T.sym('k_B', 'pos'),
    })
for p in ('numpy', 'math', 'cmath'):
    CONSTS.update({p + '.pi': T.PI, p + '.e': T.fn('exp', T.ONE),
                   p + '.inf': T.sym('inf', 'pos'),
                   p + '.nan': T.sym('nan')})
CONSTS['numpy.newaxis'] = None
# None is a legal model value: mark with a sentinel in extattr
del CONSTS['numpy.newaxis']



def _wp(n):
    return T.power(e_*e_*n*1000000/(m_e*eps0), T.HALF)


# aptools.plasma_accel.general_equations (densities in cm^-3)
APTOOLS = {
    'plasma_frequency': _wp,
    'plasma_skin_depth': lambda n: c_/_wp(n),
    'plasma_wavelength': lambda n: 2*T.PI*c_/_wp(n),
    'plasma_cold_non_relativisct_wave_breaking_field':
        lambda n: m_e*c_/e_*_wp(n),
    'plasma_focusing_gradient_blowout':
        lambda n: m_e*_wp(n)**2/(2*e_*c_),
}


def _beta(g, k):
    return c_/T.power(c_*e_/m_e*k/g, T.HALF)


IMPURE = ('numpy.random', 'time.', 'random.', 'datetime', 'uuid', 'os.')


def first(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


# ------------------------------------------------------------ elementwise

def _u(name):
    return lambda x: T.fn(name, x)


def t_abs(x):
    return T.fn('abs', x)


def t_max(a, b):
    return T.ite(T.lt(a, b), b, a)


def t_min(a, b):
    return T.ite(T.lt(b, a), b, a)


def t_sign(x):
    return T.ite(T.gt0(x), T.ONE, T.ite(T.gt0(T.neg(x)), C(-1), T.ZERO))


def t_hypot(a, b):
    return T.fn('sqrt', T.add(T.power(a, C(2)), T.power(b, C(2))))


EW = {
    'sqrt': _u('sqrt'), 'exp': _u('exp'), 'log': _u('log'), 'sin': _u('sin'),
    'cos': _u('cos'), 'tan': _u('tan'), 'sinh': _u('sinh'),
    'cosh': _u('cosh'), 'tanh': _u('tanh'), 'arctan': _u('arctan'),
    'arcsin': _u('arcsin'), 'arccos': _u('arccos'), 'abs': t_abs,
    'absolute': t_abs, 'fabs': t_abs, 'floor': _u('floor'),
    'ceil': _u('ceil'), 'arctan2': lambda a, b: T.fn('arctan2', a, b),
    'atan2': lambda a, b: T.fn('arctan2', a, b), 'atan': _u('arctan'),
    'asin': _u('arcsin'), 'acos': _u('arccos'),
    'maximum': t_max, 'minimum': t_min, 'sign': t_sign,
    'square': lambda x: T.power(x, C(2)), 'conj': _u('conj'),
    'conjugate': _u('conj'), 'real': _u('real'), 'imag': _u('imag'),
    'angle': _u('angle'), 'power': T.power, 'pow': T.power,
    'float_power': T.power,
    'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'divide': T.div,
    'true_divide': T.div, 'negative': T.neg, 'hypot': t_hypot,
    'reciprocal': lambda x: T.power(x, C(-1)),
    'log10': lambda x: T.div(T.fn('log', x), T.fn('log', C(10))),
    'log1p': lambda x: T.fn('log', T.add(T.ONE, x)),
    'expm1': lambda x: T.sub(T.fn('exp', x), T.ONE),
    'trunc': _u('int'), 'round': _u('round'), 'around': _u('round'), 'rint': _u('round'), 'mod': lambda a, b: T.fn(
        'mod', a, b), 'fmod': lambda a, b: T.fn('mod', a, b),
    'remainder': lambda a, b: T.fn('mod', a, b),
    'cbrt': lambda x: T.fn('cbrt', x), 'isfinite': lambda x: T.ONE,
    'positive': lambda x: x, 'deg2rad': lambda x: T.div(
        T.mul(x, T.PI), C(180)),
    'radians': lambda x: T.div(T.mul(x, T.PI), C(180)),
    'less': lambda a, b: T.b2t(T.lt(a, b)),
    'less_equal': lambda a, b: T.b2t(T.le(a, b)),
    'greater': lambda a, b: T.b2t(T.lt(b, a)),
    'greater_equal': lambda a, b: T.b2t(T.le(b, a)),
    'equal': lambda a, b: T.b2t(T.eq(a, b)),
    'heaviside': lambda a, b: T.ite(T.gt0(a), T.ONE, T.ite(
        T.eq(a, T.ZERO), b, T.ZERO)),
}

CASTS = {'float64', 'float32', 'float16', 'complex128', 'complex64',
         'asarray', 'ascontiguousarray', 'asfortranarray', 'float_',
         'double', 'real_if_close', 'squeeze', 'atleast_1d', 'asanyarray'}


def scalarise(it, st, v):
    if isinstance(v, (Term, B, ArrV)):
        return v
    if isinstance(v, (ListV, TupleV)):
        return np_array(it, st, v)
    return v


# ------------------------------------------------------------ numpy

def np_array(it, st, v, node=None):
    if isinstance(v, IteV):
        return it.lift(st, [v], lambda s, vs: np_array(it, s, vs[0]))
    if isinstance(v, (Term, B)):
        return v
    if isinstance(v, ArrV):
        return np_copy(it, st, v)
    if isinstance(v, (ListV, TupleV)):
        if isinstance(v, ListV) and st.heap[v.id][0] == 'phi':
            return it.payload(st, v, lambda s, p: np_array(it, s, v))
        items = it.concrete_items(st, v)
        if items is not None:
            out = []
            for x in items:
                if isinstance(x, (ListV, TupleV)):
                    x = np_array(it, st, x)
                elif isinstance(x, ArrV):
                    x = np_copy(it, st, x)
                elif isinstance(x, IteV):
                    x = it.lift(st, [x], lambda s, vs: np_array(
                        it, s, vs[0]) if isinstance(
                            vs[0], (ListV, TupleV, ArrV)) else vs[0])
                elif isinstance(x, B):
                    x = T.b2t(x)
                out.append(x)
            return it.stk(st, out)
        if isinstance(v, ListV):
            p = st.heap[v.id]
            if p[0] == 'slist':
                e = p[3]
                if isinstance(e, Term):
                    return it.arr(st, (p[1],), T.subst(e, {p[2]: lane(1)}))
                if isinstance(e, ArrV):
                    sh, c = it.content(st, e)
                    return it.arr(st, (p[1],) + tuple(sh), T.subst(
                        c, {p[2]: lane(len(sh)+1)}))
    t = it.to_term(st, v)
    return T._mk('fn', ('ext:numpy.array', (t,)), 'any')


def np_copy(it, st, v):
    if isinstance(v, IteV):
        return it.lift(st, [v], lambda s, vs: np_copy(it, s, vs[0]))
    if isinstance(v, ArrV):
        if st.heap[v.id][0] == 'phi':
            return it.payload(st, v, lambda s, p: np_copy(it, s, v))
        if it.is_stk(st, v):
            return it.stk(st, [np_copy(it, st, x)
                               for x in st.heap[v.id][1]])
        sh, c = it.content(st, v)
        return it.arr(st, sh, c)
    return v


def full(it, st, shape, val):
    if isinstance(shape, IteV):
        return it.lift(st, [shape], lambda s, vs: full(it, s, vs[0], val))
    if isinstance(shape, (TupleV, ListV)):
        dims = it.concrete_items(st, shape)
        if dims is None:
            return it.symarr(st, it.fresh('full'), (T.sym(
                it.fresh('dim'), 'int'),))
    else:
        dims = [shape]
    dims = [to_num(d) if numeric(d) else it.to_term(st, d) for d in dims]
    if not dims:
        return val
    if all(T.is_const(d) for d in dims) and \
            all(T.cval(d) <= 12 for d in dims):
        def mk(ds):
            if not ds:
                return val
            return it.stk(st, [mk(ds[1:]) for _ in range(int(T.cval(ds[0])))])
        return mk(dims)
    return it.arr(st, dims, to_num(val) if numeric(val)
                  else it.to_term(st, val))


def np_dot(it, st, a, b):
    def f(st, vs):
        a, b = vs
        if not isinstance(a, ArrV) or not isinstance(b, ArrV):
            return it.binop(st, 'Mult', a, b, None)
        for x in (a, b):
            if st.heap[x.id][0] == 'phi':
                return it.payload(st, x, lambda s, p: np_dot(it, s, a, b))
        ra, rb = it.rank(st, a), it.rank(st, b)
        if it.is_stk(st, a):
            rows = st.heap[a.id][1]
            if it.is_stk(st, b):
                cols = st.heap[b.id][1]

                def vecdot(row):
                    xs = st.heap[row.id][1] if isinstance(row, ArrV) and \
                        it.is_stk(st, row) else None
                    if xs is None:
                        return T.fn('dot', it.to_term(st, row),
                                    it.to_term(st, b))
                    acc = None
                    for x, y in zip(xs, cols):
                        t = it.binop(st, 'Mult', x, y, None)
                        acc = t if acc is None else it.binop(
                            st, 'Add', acc, t, None)
                    return acc
                if ra == 1:
                    acc = None
                    for x, y in zip(rows, cols):
                        t = it.binop(st, 'Mult', x, y, None)
                        acc = t if acc is None else it.binop(
                            st, 'Add', acc, t, None)
                    return acc
                return it.stk(st, [vecdot(r) for r in rows])
        if ra == 1 and rb == 1:
            return it.reduce_sum(st, it.binop(st, 'Mult', a, b, None))
        if ra == 2 and rb == 1:
            sa, ca = it.content(st, a)
            sb, cb = it.content(st, b)
            bv = it.boundvar(T.mul(ca, cb))
            c = T.msum(bv, T.mul(T.subst(ca, {lane(1): bv, lane(2): lane(1)}),
                                 T.subst(cb, {lane(1): bv})), sb[0])
            return it.arr(st, (sa[0],), c)
        if ra == 2 and rb == 2:
            sa, ca = it.content(st, a)
            sb, cb = it.content(st, b)
            bv = it.boundvar(T.mul(ca, cb))
            c = T.msum(bv, T.mul(T.subst(ca, {lane(1): bv}),
                                 T.subst(cb, {lane(2): bv})), sb[0])
            return it.arr(st, (sa[0], sb[1]), c)
        return T._mk('fn', ('ext:numpy.dot', (it.to_term(st, a),
                                              it.to_term(st, b))), 'any')
    return it.lift(st, [a, b], f)


def transpose(it, st, v):
    if not isinstance(v, ArrV):
        return v
    r = it.rank(st, v)
    if r <= 1:
        return v
    if it.is_stk(st, v):
        rows = st.heap[v.id][1]
        if r == 2 and all(isinstance(x, ArrV) and it.is_stk(st, x)
                          for x in rows):
            n = len(st.heap[rows[0].id][1])
            return it.stk(st, [it.stk(st, [st.heap[x.id][1][j] for x in rows])
                               for j in range(n)])
        if r == 2:
            sh, c = it.content(st, v)
            a = it.arr(st, sh, c)
            v = a
        else:
            return T.fn('transpose', it.to_term(st, v))
    sh = it.shape(st, v)
    perm = {k: r + 1 - k for k in range(1, r+1)}
    if v.view is None:
        specs = tuple(('l', perm[r - a], T.ZERO, T.ONE) for a in range(r))
    else:
        specs = tuple(sp if sp[0] == 'i' else
                      ('l', perm[sp[1]], sp[2], sp[3]) for sp in v.view[1])
    return ArrV(v.id, (tuple(reversed(sh)), specs))


def einsum(it, st, args, node):
    spec = args[0]
    ops = args[1:]
    if isinstance(spec, str) and '->' not in spec:
        ins = spec.split(',')
        core = [x.replace('...', '') for x in ins]
        hasell = [x.endswith('...') for x in ins]
        letters = ''.join(core)
        free = ''.join(sorted(x for x in set(letters)
                              if letters.count(x) == 1))
        out = free
        ell = any(hasell)
        outspec = ('...' if ell else '') + out
    elif isinstance(spec, str):
        l, outspec = spec.replace(' ', '').split('->')
        ins = l.split(',')
        core = [x.replace('...', '') for x in ins]
        hasell = [x.endswith('...') for x in ins]
        out = outspec.replace('...', '')
    else:
        return None
    # sizes of letters from stk operands
    size = {}
    for x, o in zip(core, ops):
        v = o
        for ch in x:
            if isinstance(v, ArrV) and it.is_stk(st, v):
                items = st.heap[v.id][1]
                size[ch] = len(items)
                v = items[0]
            else:
                return None
    contracted = [ch for ch in size if ch not in out]

    def elem(o, x, env):
        v = o
        for ch in x:
            v = st.heap[v.id][1][env[ch]]
        return v

    def tot(env, rest):
        if not rest:
            acc = None
            for x, o in zip(core, ops):
                v = elem(o, x, env)
                if v is T.ZERO:
                    return T.ZERO
                acc = v if acc is None else it.binop(st, 'Mult', acc, v,
                                                     node)
            return acc
        s = T.ZERO
        for k in range(size[rest[0]]):
            v = tot(dict(env, **{rest[0]: k}), rest[1:])
            if v is T.ZERO:
                continue
            s = v if s is T.ZERO else it.binop(st, 'Add', s, v, node)
        return s

    def build(env, rest):
        if not rest:
            return tot(env, contracted)
        return it.stk(st, [build(dict(env, **{rest[0]: k}), rest[1:])
                           for k in range(size[rest[0]])])
    r = build({}, list(out))
    if outspec.startswith('...') and len(out) == 1:
        # result axes are (..., i): keep rows by i, mark as transposed stack
        return TStk(r)
    return r


class TStk:
    """(N, i) array represented by its transpose's rows."""

    def __init__(self, arr):
        self.arr = arr


def np_where(it, st, args):
    if len(args) == 3:
        c, a, b = args

        def f(x, y, z):
            return T.ite(T.bnot(T.eq(x, T.ZERO)), y, z)
        return it.ew(st, f, [c, a, b])
    c = args[0]
    if isinstance(c, ArrV) and it.finite and it.is_stk(st, c):
        m = it.mask_of(st, c)
        if m is not None:
            return TupleV([MaskV(m)])
    if isinstance(c, ArrV):
        sh, xc = it.content(st, c)
        if len(sh) == 1 and it.is_mask(xc):
            cl = it.closed(xc, 1)
            return TupleV([it.arr(st, (T.fn('int:count', cl),),
                                  T.fn('int:nz', cl, lane(1)))])
    return None


def np_linspace(it, st, args, kw):
    a, b = args[0], args[1]
    n = first(args, kw, 2, 'num', C(50))
    ep = kw.get('endpoint', TRUE)
    a, b, n = to_num(a), to_num(b), to_num(n)
    if not all(isinstance(x, Term) for x in (a, b, n)):
        return None
    den = T.sub(n, T.ONE) if ep is TRUE else n
    c = T.add(a, T.mul(lane(1), T.div(T.sub(b, a), den)))
    return it.arr(st, (n,), c)


def np_arange(it, st, args):
    lo, step = T.ZERO, T.ONE
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    if not all(isinstance(x, Term) for x in (lo, hi, step)):
        return None
    n = T.div(T.sub(hi, lo), step)
    if not T.is_int(n):
        n = T.fn('ceil', n)
    if T.is_const(n) and T.cval(n) <= 12:
        return it.stk(st, [T.add(lo, T.mul(step, C(i)))
                           for i in range(int(T.cval(n)))])
    return it.arr(st, (n,), T.add(lo, T.mul(step, lane(1))))


def quantified(it, st, name, v):
    """any/all of an array: whether the largest/smallest truth value is 1."""
    if isinstance(v, ArrV):
        if it.is_stk(st, v):
            items = st.heap[v.id][1]
            if items and all(numeric(x) for x in items):
                ts = [truth(x) for x in items]
                return T.bor(*ts) if name == 'any' else T.band(*ts)
        sh, c = it.content(st, v)
        r = T._mk('fn', ('amax' if name == 'any' else 'amin', (
            it.closed(T.b2t(truth(c)), len(sh)),) + tuple(sh)), 'real')
        return T.lt(T.ZERO, r)
    if isinstance(v, (B, Term)):
        return truth(v) if isinstance(v, B) else T.boolfn('np.' + name, v)
    return T.boolfn('np.' + name, reduction(it, st, name, v))


def truth(x):
    return x if isinstance(x, B) else T.bnot(T.eq(to_num(x), T.ZERO))


def reduction(it, st, name, v):
    """Order-insensitive reduction as a closed term."""
    if isinstance(v, (ListV, TupleV)):
        v = np_array(it, st, v)
    if isinstance(v, ArrV):
        if it.is_stk(st, v) and name in ('amax', 'amin'):
            items = st.heap[v.id][1]
            if items and all(numeric(x) for x in items):
                r = to_num(items[0])
                for x in items[1:]:
                    r = (t_max if name == 'amax' else t_min)(r, to_num(x))
                return r
        sh, c = it.content(st, v)
        return T._mk('fn', (name, (it.closed(c, len(sh)),) + tuple(sh)),
                     'int' if name in ('argmin', 'argmax') else 'real')
    if isinstance(v, Term):
        return T._mk('fn', (name, (v,)), 'int' if name in (
            'argmin', 'argmax') else 'real')
    return T._mk('fn', (name, (it.to_term(st, v),)), 'real')


def at(c, k, i):
    """Content with the index of lane k replaced."""
    return T.subst(c, {lane(k): C(i)})


def np_gradient(it, st, a, hs, axis, order):
    sh, c = it.content(st, a)
    r = len(sh)
    if order not in (1, 2):
        return None
    axes = range(r) if axis is None else [axis % r]
    hs = [to_num(h) for h in hs] or [T.ONE]
    if not all(isinstance(h, Term) for h in hs):
        return None
    if len(hs) == 1:
        hs = hs*len(axes)
    if len(hs) != len(axes):
        return None
    out = []
    for ax, h in zip(axes, hs):
        k, n, l = r - ax, sh[ax], lane(r - ax)
        mid = T.div(T.sub(at(c, k, T.add(l, C(1))), at(c, k, T.sub(
            l, C(1)))), T.mul(C(2), h))
        f = [at(c, k, C(i)) for i in range(3)]
        g = [at(c, k, T.sub(n, C(i + 1))) for i in range(3)]
        if order == 1:
            lo, hi = T.sub(f[1], f[0]), T.sub(g[0], g[1])
        else:
            lo = T.add(T.mul(C(-1.5), f[0]), T.mul(C(2), f[1]),
                       T.mul(C(-.5), f[2]))
            hi = T.add(T.mul(C(1.5), g[0]), T.mul(C(-2), g[1]),
                       T.mul(C(.5), g[2]))
        out.append(it.arr(st, sh, T.ite(
            T.eq(l, C(0)), T.div(lo, h), T.ite(
                T.eq(l, T.sub(n, C(1))), T.div(hi, h), mid))))
    return out[0] if len(out) == 1 else it.list_(st, out)


def np_reshape(it, st, a, shape):
    """Reshapes that only add or remove axes of length one (views)."""
    if len(shape) == 1 and isinstance(shape[0], (TupleV, ListV)):
        shape = it.concrete_items(st, shape[0])
        if shape is None:
            return None
    shape = [to_num(s) for s in shape]
    if not all(isinstance(s, Term) for s in shape):
        return None
    sh = it.shape(st, a)
    keep = [s for s in sh if s is not T.ONE]
    if sum(1 for s in shape if T.is_const(s) and T.cval(s) == -1) == 1:
        rest = [s for s in shape if not (T.is_const(s) and T.cval(s) == -1)
                and s is not T.ONE]
        miss = [s for s in keep if not any(s is q for q in rest)]
        if len(rest) + len(miss) != len(keep) or len(miss) > 1:
            return None
        m = miss[0] if miss else T.ONE
        shape = [m if T.is_const(s) and T.cval(s) == -1 else s
                 for s in shape]
    new = [s for s in shape if s is not T.ONE]
    if len(new) != len(keep) or not all(
            T.nf_equal(x, y) is True for x, y in zip(new, keep)):
        return None
    if [s is T.ONE for s in shape] == [s is T.ONE for s in sh]:
        return a
    if it.is_stk(st, a):
        # only leading axes
        v = a
        while it.is_stk(st, v) and len(st.heap[v.id][1]) == 1 and \
                len(it.shape(st, v)) > len(keep):
            v = st.heap[v.id][1][0]
        if isinstance(v, ArrV) and len(it.shape(st, v)) == len(keep):
            for s in reversed(shape[:len(shape) - len(keep)]):
                if s is not T.ONE:
                    break
                v = it.stk(st, [v])
            else:
                if len(it.shape(st, v)) == len(shape):
                    return v
        sh, c = it.content(st, a)
        a = it.arr(st, sh, c)       # a copy: rarely written through
    # lanes of the kept axes, in the old and the new array
    r, q = len(sh), len(shape)
    old = [r - i for i in range(r) if sh[i] is not T.ONE]
    nl = [q - i for i in range(q) if shape[i] is not T.ONE]
    m = dict(zip(old, nl))
    if a.view is None:
        specs = tuple(('l', m[r - i], T.ZERO, T.ONE) if r - i in m
                      else ('i', T.ZERO) for i in range(r))
    else:
        specs = tuple(sp if sp[0] == 'i' else
                      ('l', m[sp[1]], sp[2], sp[3]) if sp[1] in m
                      else ('i', sp[2]) for sp in a.view[1])
    return ArrV(a.id, (tuple(shape), specs))


def np_more(it, st, name, args, kw, node):
    """Array functions expressed by index substitution."""
    a0 = args[0] if args else None
    if any(isinstance(a, IteV) or isinstance(a, ArrV) and
           st.heap[a.id][0] == 'phi' for a in args):
        for i, a in enumerate(args):
            if isinstance(a, IteV):
                return it.lift(st, [a], lambda s, vs: np_more(
                    it, s, name, args[:i] + [vs[0]] + args[i+1:], kw, node))
            if isinstance(a, ArrV) and st.heap[a.id][0] == 'phi':
                return it.payload(st, a, lambda s, p: np_more(
                    it, s, name, args, kw, node))
    if isinstance(a0, (ListV, TupleV)) and name in (
            'diff', 'gradient', 'unwrap', 'reshape', 'roll', 'meshgrid',
            'outer'):
        args = [np_array(it, st, a0)] + list(args[1:])
        a0 = args[0]

    def const(v, default=None):
        if v is None:
            return default
        v = to_num(v)
        return int(T.cval(v)) if T.is_const(v) else 'x'
    if name == 'meshgrid' and len(args) == 2 and all(
            isinstance(a, ArrV) and it.rank(st, a) == 1 for a in args):
        ij = kw.get('indexing', 'xy')
        (sx,), x = it.content(st, args[0])
        (sy,), y = it.content(st, args[1])
        if ij == 'ij':
            return TupleV((it.arr(st, (sx, sy), at(x, 1, lane(2))),
                           it.arr(st, (sx, sy), y)))
        if ij == 'xy':
            return TupleV((it.arr(st, (sy, sx), x),
                           it.arr(st, (sy, sx), at(y, 1, lane(2)))))
        return None
    if name == 'outer' and len(args) == 2 and all(
            isinstance(a, ArrV) and it.rank(st, a) == 1 for a in args):
        (sx,), x = it.content(st, args[0])
        (sy,), y = it.content(st, args[1])
        return it.arr(st, (sx, sy), T.mul(at(x, 1, lane(2)), y))
    if name == 'gradient' and isinstance(a0, ArrV):
        ax = const(first(args[:1], kw, 5, 'axis'))
        o = const(kw.get('edge_order'), 1)
        if ax == 'x' or o == 'x':
            return None
        return np_gradient(it, st, a0, list(args[1:]), ax, o)
    if name == 'diff' and isinstance(a0, ArrV):
        if const(first(args, kw, 1, 'n'), 1) != 1 or 'prepend' in kw or \
                'append' in kw:
            return None
        sh, c = it.content(st, a0)
        ax = const(first(args, kw, 2, 'axis'), -1)
        if ax == 'x':
            return None
        ax %= len(sh)
        k = len(sh) - ax
        return it.arr(st, sh[:ax] + (T.sub(sh[ax], T.ONE),) + sh[ax+1:],
                      T.sub(at(c, k, T.add(lane(k), C(1))), c))
    if name == 'unwrap' and isinstance(a0, ArrV) and len(args) == 1 and \
            not kw and it.rank(st, a0) == 1:
        sh, c = it.content(st, a0)
        bv = it.boundvar(c)
        d = T.sub(at(c, 1, T.add(bv, C(1))), at(c, 1, bv))
        two = T.mul(C(2), T.PI)
        m = T.sub(T.fn('mod', T.add(d, T.PI), two), T.PI)
        return it.arr(st, sh, T.add(at(c, 1, C(0)), T.msum(bv, m, lane(1))))
    if name == 'cross' and len(args) == 2 and not kw:
        vs = [np_array(it, st, v) if isinstance(v, (ListV, TupleV)) else v
              for v in args]
        if not all(isinstance(v, ArrV) and it.rank(st, v) <= 2 and
                   it.shape(st, v)[-1] is C(3) for v in vs):
            return None
        cs = [it.content(st, v) for v in vs]
        sh = max((c[0] for c in cs), key=len)
        if len(cs[0][0]) == len(cs[1][0]) == 2 and cs[0][0] != cs[1][0]:
            return None

        def e(k, j):
            return at(cs[k][1], 1, C(j))
        q = [T.sub(T.mul(e(0, (j+1) % 3), e(1, (j+2) % 3)),
                   T.mul(e(0, (j+2) % 3), e(1, (j+1) % 3)))
             for j in range(3)]
        return it.arr(st, sh, T.ite(T.eq(lane(1), C(0)), q[0], T.ite(
            T.eq(lane(1), C(1)), q[1], q[2])))
    if name == 'transpose' and isinstance(a0, (ListV, TupleV)) and \
            len(args) == 1 and not kw:
        return transpose(it, st, np_array(it, st, a0))
    if name == 'reshape' and isinstance(a0, ArrV) and not kw:
        return np_reshape(it, st, a0, list(args[1:]))
    if name == 'roll' and isinstance(a0, ArrV) and len(args) == 2 and \
            not kw and it.rank(st, a0) == 1:
        sh, c = it.content(st, a0)
        return it.arr(st, sh, at(c, 1, T.fn('mod', T.sub(
            lane(1), to_num(args[1])), sh[0])))
    if name in ('concatenate', 'hstack', 'append'):
        parts = it.concrete_items(st, a0) if name != 'append' else list(
            args[:2])
        ax = const(kw.get('axis'), 1 if name == 'hstack' else 0) if set(
            kw) <= {'axis'} else 'x'
        if parts and ax == 1 and name != 'append' and all(
                isinstance(p, ArrV) and it.is_stk(st, p)
                and it.rank(st, p) == 2 for p in parts) and len(set(len(
                    st.heap[p.id][1]) for p in parts)) == 1:
            return it.stk(st, [
                np_more(it, st, 'concatenate', [TupleV(list(row))], {}, node)
                for row in zip(*[st.heap[p.id][1] for p in parts])])
        if parts and ax == 0 and name != 'append' and all(
                isinstance(p, ArrV) and it.is_stk(st, p)
                and it.rank(st, p) == 2 for p in parts):
            return it.stk(st, [np_copy(it, st, r) for p in parts
                               for r in st.heap[p.id][1]])
        if parts and ax == 1 and (name != 'append' or len(args) == 2):
            parts = [np_array(it, st, p) if isinstance(p, (ListV, TupleV))
                     else p for p in parts]
            if not all(isinstance(p, ArrV) and it.rank(st, p) == 2
                       for p in parts):
                return None
            cs = [it.content(st, p) for p in parts]
            tot = T.add(*[sh[1] for sh, _ in cs])
            out, n = None, tot
            for (_, m), c in reversed(cs):
                n = T.sub(n, m)
                c = at(c, 1, T.sub(lane(1), n))
                out = c if out is None else T.ite(
                    T.lt(lane(1), T.add(n, m)), c, out)
            return it.arr(st, (cs[0][0][0], tot), out)
        if parts is None or kw or (name == 'append' and len(args) != 2):
            return None
        out, n = None, T.ZERO
        parts = [np_array(it, st, p) if isinstance(p, (ListV, TupleV)) else p
                 for p in parts]
        if not all(isinstance(p, ArrV) and it.rank(st, p) == 1 for p in
                   parts):
            return None
        cs = [it.content(st, p) for p in parts]
        if all(it.is_stk(st, p) for p in parts):
            return it.stk(st, [x for p in parts for x in st.heap[p.id][1]])
        tot = T.add(*[sh[0] for sh, _ in cs])
        n = tot
        for (m,), c in reversed(cs):
            n = T.sub(n, m)
            c = at(c, 1, T.sub(lane(1), n))
            out = c if out is None else T.ite(
                T.lt(lane(1), T.add(n, m)), c, out)
        return it.arr(st, (tot,), out)
    return None


def numpy_call(it, st, name, args, kw, node):
    r = np_more(it, st, name, list(args), kw, node)
    if r is not None:
        return r
    a0 = args[0] if args else None
    out = kw.get('out')
    if name in EW:
        if name in ('divide', 'true_divide'):
            it.ev_log(st, 'div', node, num=args[0], den=args[1])
        f = EW[name]
        n = f.__code__.co_argcount
        vals = [scalarise(it, st, x) for x in args[:n]]
        if len(args) > n:
            out = args[n]
        if any(isinstance(x, TStk) for x in vals):
            return None
        r = it.ew(st, f, vals)
        if isinstance(out, ArrV):
            it.store_all(st, out, r, node)
            return out
        return r
    if name == 'cumsum':
        if isinstance(a0, (ListV, TupleV)):
            a0 = np_array(it, st, a0)
        if isinstance(a0, IteV):
            return it.lift(st, [a0], lambda s, vs: numpy_call(
                it, s, name, [vs[0]] + args[1:], kw, node))
        ax = first(args, kw, 1, 'axis')
        if not isinstance(a0, ArrV):
            return None
        sh, c = it.content(st, a0)
        r = len(sh)
        if r > 1 and not (isinstance(ax, Term) and T.is_const(ax)):
            return None
        k = 1 if r == 1 else r - (int(T.cval(ax)) % r)
        bv = it.boundvar(c)
        return it.arr(st, sh, T.msum(bv, T.subst(c, {lane(k): bv}),
                                     T.add(lane(k), T.ONE)))
    if name in ('zeros', 'ones', 'empty', 'full'):
        sh = first(args, kw, 0, 'shape')
        val = {'zeros': T.ZERO, 'ones': T.ONE, 'empty': None}.get(name)
        if name == 'full':
            val = first(args, kw, 1, 'fill_value')
        if name == 'empty':
            val = T.sym(it.fresh('uninit'))
        return full(it, st, sh, val)
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        val = {'zeros_like': T.ZERO, 'ones_like': T.ONE}.get(name)
        if name == 'full_like':
            val = first(args, kw, 1, 'fill_value')
        if name == 'empty_like':
            val = T.sym(it.fresh('uninit'))
        if isinstance(a0, (ListV, TupleV)):
            a0 = np_array(it, st, a0)
        if isinstance(a0, IteV):
            return it.lift(st, [a0], lambda s, vs: numpy_call(
                it, s, name, [vs[0]] + args[1:], kw, node))
        if isinstance(a0, ArrV):
            if it.is_stk(st, a0):
                return it.ew(st, lambda x: val, [a0])
            return it.arr(st, it.shape(st, a0), val)
        return val
    if name in ('array', 'copy'):
        return np_array(it, st, a0)
    if name in CASTS:
        if isinstance(a0, (ListV, TupleV)):
            return np_array(it, st, a0)
        return to_num(a0) if isinstance(a0, B) else a0
    if name in ('eye', 'identity'):
        n = to_num(a0)
        if T.is_const(n):
            k = int(T.cval(n))
            return it.stk(st, [it.stk(st, [
                T.ONE if i == j else T.ZERO for j in range(k)])
                for i in range(k)])
    if name == 'diag' and len(args) == 1 and not kw:
        a = np_array(it, st, a0) if isinstance(a0, (ListV, TupleV)) else a0
        a = scalarise(it, st, a) if isinstance(a, ArrV) else a
        if it.is_stk(st, a):
            v = st.heap[a.id][1]
            if not any(isinstance(x, ArrV) for x in v):
                return it.stk(st, [it.stk(st, [
                    x if i == j else T.ZERO for j in range(len(v))])
                    for i, x in enumerate(v)])
            if all(it.is_stk(st, x) for x in v):
                return it.stk(st, [st.heap[x.id][1][i]
                                   for i, x in enumerate(v)
                                   if i < len(st.heap[x.id][1])])
    if name in ('dot', 'matmul') and len(args) >= 2:
        return np_dot(it, st, args[0], args[1])
    if name in ('cross',) and len(args) >= 2:
        a, b = [scalarise(it, st, x) for x in args[:2]]
        if it.is_stk(st, a) and it.is_stk(st, b):
            x, y = st.heap[a.id][1], st.heap[b.id][1]
            if len(x) == len(y) == 3:
                def m(i, j):
                    return it.binop(st, 'Sub',
                                    it.binop(st, 'Mult', x[i], y[j], node),
                                    it.binop(st, 'Mult', x[j], y[i], node),
                                    node)
                return it.stk(st, [m(1, 2), m(2, 0), m(0, 1)])
    if name == 'einsum':
        r = einsum(it, st, args, node)
        if r is not None:
            return r
    if name == 'expand_dims' and isinstance(a0, ArrV):
        ax = first(args, kw, 1, 'axis')
        ax = T.cval(ax) if isinstance(ax, Term) else None
        if ax is not None:
            sh, c = it.content(st, a0)
            r = len(sh)
            ax = int(ax) + (r + 1 if ax < 0 else 0)
            # lanes are counted from the last axis: those of the axes in
            # front of the new one move by one
            c = T.subst(c, {lane(k): lane(k+1)
                            for k in range(r - ax + 1, r + 1)})
            return it.arr(st, sh[:ax] + (T.ONE,) + sh[ax:], c)
    if name in ('transpose',):
        if isinstance(a0, TStk):
            return a0.arr
        return transpose(it, st, a0)
    if name == 'sum':
        ax = first(args, kw, 1, 'axis')
        if isinstance(a0, IteV):
            return it.lift(st, [a0], lambda s, vs: numpy_call(
                it, s, name, [vs[0]] + args[1:], kw, node))
        return it.reduce_sum(st, a0, ax)
    if name in ('mean', 'average'):
        w = kw.get('weights') if name == 'average' else None
        ax = first(args, kw, 1, 'axis')
        if name == 'average' and len(args) > 2:
            w = args[2]
        if isinstance(a0, (ListV, TupleV)):
            a0 = np_array(it, st, a0)
        if w is None or w is UNDEF:
            if isinstance(a0, ArrV) and ax is None:
                n = T.ONE
                for d in it.shape(st, a0):
                    n = T.mul(n, d)
                return T.div(it.reduce_sum(st, a0), n)
        elif ax is None:
            num = it.reduce_sum(st, it.binop(st, 'Mult', a0, w, node))
            den = it.reduce_sum(st, w)
            return it.binop(st, 'Div', num, den, node)
    if name in ('amax', 'max', 'amin', 'min', 'nanmax', 'nanmin') and \
            kw.get('axis') is None and len(args) == 1:
        return reduction(it, st, 'amax' if 'max' in name else 'amin', a0)
    if name in ('argmin', 'argmax', 'std', 'var', 'median', 'prod', 'any',
                'all', 'ptp', 'count_nonzero') and not kw and len(args) == 1:
        if name in ('any', 'all'):
            return quantified(it, st, name, a0)
        return reduction(it, st, name, a0)
    if name == 'argsort' and isinstance(a0, ArrV) and it.finite and \
            it.is_stk(st, a0) and it.rank(st, a0) == 1:
        its = [T.C(x) if not isinstance(x, B) else T.b2t(x)
               for x in st.heap[a0.id][1]]
        return it.stk(st, [T.fn('int:argsort', C(k), *its)
                           for k in range(len(its))])
    if name in ('nonzero', 'flatnonzero') and len(args) == 1:
        r = np_where(it, st, args)
        if r is not None:
            return r if name == 'nonzero' else r.items[0]
    if name == 'where':
        r = np_where(it, st, args)
        if r is not None:
            return r
    if name == 'linspace':
        r = np_linspace(it, st, args, kw)
        if r is not None:
            return r
    if name == 'arange':
        r = np_arange(it, st, args)
        if r is not None:
            return r
    if name in ('int32', 'int64', 'int_', 'intp', 'uint32', 'int16'):
        return it.ew(st, lambda x: T.fn('int', x), [a0])
    if name == 'bool_':
        return it.truth(st, a0)
    if name == 'clip':
        lo, hi = first(args, kw, 1, 'a_min'), first(args, kw, 2, 'a_max')
        v = a0
        if lo is not None:
            v = it.ew(st, t_max, [v, lo])
        if hi is not None:
            v = it.ew(st, t_min, [v, hi])
        return v
    if name == 'array_equal' and len(args) >= 2:
        return T.boolfn('array_equal', it.to_term(st, args[0]),
                        it.to_term(st, args[1]))
    if name == 'copyto' and len(args) >= 2:
        if isinstance(args[0], ArrV):
            it.store_all(st, args[0], args[1], node)
            return None
    if name in ('logical_and', 'logical_or') and len(args) == 2:
        if isinstance(args[0], B) and isinstance(args[1], B):
            return (T.band if name.endswith('and') else T.bor)(*args)
        return it.bitop(st, 'BitAnd' if name.endswith('and') else 'BitOr',
                        args[0], args[1], node)
    if name == 'logical_not':
        if isinstance(a0, B):
            return T.bnot(a0)
        return it.ew(st, lambda x: T.b2t(T.eq(x, T.ZERO)), [a0])
    if name == 'vstack' and not kw:
        rows = []
        for p in it.concrete_items(st, a0) or ():
            p = np_array(it, st, p) if isinstance(p, (ListV, TupleV)) else p
            if not isinstance(p, ArrV):
                return NotImplemented
            if it.rank(st, p) == 1:
                rows.append(p)
            elif it.is_stk(st, p) and it.rank(st, p) == 2:
                rows += list(st.heap[p.id][1])
            else:
                return NotImplemented
        return np_array(it, st, TupleV(rows)) \
            if rows else NotImplemented
    if name == 'stack' and (not kw or set(kw) == {'axis'} and
                            const(kw['axis'], None) == 0):
        return np_array(it, st, a0)
    if name in ('flipud', 'flip', 'fliplr') and isinstance(a0, ArrV):
        rk = it.rank(st, a0)
        ax = const(kw.get('axis', args[1] if len(args) > 1 else None), None) \
            if name == 'flip' else {'flipud': 0, 'fliplr': 1}[name]
        if rk == 1 and ax in (0, -1, None):
            return it.getitem(st, a0, SliceV(None, None, C(-1)), node)
        if rk == 2 and (ax is None and len(args) == 1 and not kw
                        or ax in (0, 1, -1, -2)):
            rev, al = SliceV(None, None, C(-1)), SliceV(None, None, None)
            return it.getitem(st, a0, TupleV(
                [rev if ax in (None, 0, -2) else al,
                 rev if ax in (None, 1, -1) else al]), node)
    if name in ('ndim', 'size', 'shape'):
        return attr(it, st, a0, name, node)
    if name == 'polyval' and isinstance(a0, (ListV, TupleV)):
        items = it.concrete_items(st, a0)
        if items:
            r = items[0]
            for x in items[1:]:
                r = it.binop(st, 'Add', it.binop(st, 'Mult', r, args[1],
                                                 node), x, node)
            return r
    if name in ('vectorize', 'frompyfunc'):
        return a0
    if name in ('seterr', 'errstate', 'set_printoptions'):
        return T.sym('np.' + name, 'any')
    return NotImplemented


def _binom(n, k):
    if T.is_const(n) and T.is_const(k) and T.cval(n).denominator == 1 \
            and T.cval(k).denominator == 1 and 0 <= T.cval(n) < 200:
        k = int(T.cval(k))
        return C(math.comb(int(T.cval(n)), k) if k >= 0 else 0)
    return T.fn('binom', n, k)


def _laguerre(n, al, x):
    if T.is_const(n) and T.is_const(al) and 0 <= T.cval(n) < 30 and \
            T.cval(n).denominator == 1 and T.cval(al).denominator == 1:
        n, al, out, f = int(T.cval(n)), int(T.cval(al)), C(0), 1
        for k in range(n + 1):
            f = f*k if k else 1
            out = T.add(out, T.mul(
                C(T.Fraction((-1)**k*math.comb(n + al, n - k), f)),
                T.power(x, C(k))))
        return out
    return T.fn('genlaguerre', n, al, x)


def special(it, st, name, args, kw):
    """scipy.special functions of constant order."""
    if name in ('binom', 'comb') and len(args) == 2:
        return it.ew(st, _binom, list(args))
    if name in ('eval_genlaguerre', 'eval_laguerre') and not kw:
        a = list(args)
        if name == 'eval_laguerre':
            a.insert(1, C(0))
        return it.ew(st, _laguerre, a)
    if name in ('genlaguerre', 'laguerre') and args:
        n = it.to_term(st, args[0])
        al = it.to_term(st, args[1] if len(args) > 1 else
                        kw.get('alpha', C(0)))
        return NativeV('laguerre', lambda i, s, a, k, node: i.ew(
            s, lambda x: _laguerre(n, al, x), [a[0]]))
    return NotImplemented


def ext_call(it, st, path, args, kw, node):
    top, _, rest = path.partition('.')
    hook = getattr(it, 'ext_hook', None)
    if hook is not None:
        r = hook(it, st, path, args, kw, node)
        if r is not NotImplemented:
            return r
    if any(isinstance(a, TStk) for a in args):
        args = [a.arr if isinstance(a, TStk) else a for a in args]
    if top == 'numpy' and '.' not in rest:
        r = numpy_call(it, st, rest, args, kw, node)
        if r is not NotImplemented and r is not None:
            return r
        if rest in ('copyto', 'fill_diagonal'):
            return None
    if path.startswith('aptools.plasma_accel.general_equations.'):
        g = APTOOLS.get(path.rsplit('.', 1)[1])
        if g is not None and len(args) + len(kw) == 1:
            return it.ew(st, g, list(args) + list(kw.values()))
    if path == 'aptools.plasma_accel.general_equations.' \
            'matched_plasma_beta_function':
        a = dict(zip(('beam_ene', 'n_p', 'k_x'), args))
        a.update(kw)
        if set(a) <= {'beam_ene', 'n_p', 'k_x'} and 'beam_ene' in a:
            if a.get('k_x') is not None:
                return it.ew(st, _beta, [a['beam_ene'], a['k_x']])
            if a.get('n_p') is not None:
                return it.ew(st, lambda g, n: _beta(g, APTOOLS[
                    'plasma_focusing_gradient_blowout'](n)),
                    [a['beam_ene'], a['n_p']])
    if path in ('math.floor', 'math.ceil'):
        return it.ew(st, _u(rest), args)
    if top in ('math', 'cmath') and rest in EW:
        f = EW[rest]
        return it.ew(st, f, args[:f.__code__.co_argcount])
    if path.startswith('scipy.special.') or path == 'math.comb':
        r = special(it, st, path.rsplit('.', 1)[1], args, kw)
        if r is not NotImplemented:
            return r
    if path in ('numba.njit', 'numba.jit', 'numba.vectorize'):
        flags = {'numba': True,
                 'parallel': kw.get('parallel', FALSE) is TRUE,
                 'error_model': kw.get('error_model')}
        if args and isinstance(args[0], (FuncV, IteV)):
            return it.lift(st, [args[0]], lambda s, vs: vs[0].with_flags(
                **flags) if isinstance(vs[0], FuncV) else vs[0])
        if args:
            return args[0]
        return DecorV(flags)
    if path in ('numba.prange',):
        r = builtin(it, st, 'range', args, kw, node)
        r.par = True
        return r
    if path == 'copy.deepcopy':
        return deepcopy(it, st, args[0], {})
    if path == 'copy.copy':
        return shallow(it, st, args[0])
    if path == 'functools.partial':
        return PartialV(args[0], list(args[1:]), dict(kw))
    if path in ('contextlib.contextmanager',):
        if isinstance(args[0], FuncV):
            return args[0].with_flags(ctxmgr=True)
    if path in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
        if args and isinstance(args[0], FuncV) and path != 'functools.wraps':
            return args[0]
        return DecorV({})
    if path == 'itertools.chain':
        parts = [it.concrete_items(st, a) for a in args]
        if all(p is not None for p in parts):
            return it.list_(st, sum(parts, []))
    if path.startswith('operator.') and len(args) == 2:
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div',
              'pow': 'Pow'}.get(rest)
        if op:
            return it.binop(st, op, args[0], args[1], node)
    if path.startswith('typing.'):
        return ExtV(path)
    if path.endswith(('Error', 'Exception')):
        return ExcV(path.split('.')[-1], tuple(args))
    if path == 'dataclasses.dataclass':
        return args[0] if args else DecorV({'dataclass': True})
    pure = not any(path.startswith(p) for p in IMPURE)
    return it.opaque_call(st, path, args, kw, node, pure)


def decorate(it, st, d, args, node):
    v = args[0]
    if isinstance(v, FuncV):
        return v.with_flags(**d.flags)
    if isinstance(v, ClassV) and d.flags.get('dataclass'):
        v.dataclass = True
    return v


def deepcopy(it, st, v, memo):
    if isinstance(v, IteV):
        return it.lift(st, [v], lambda s, vs: deepcopy(it, s, vs[0], memo))
    if isinstance(v, ArrV):
        if v.view is None and v.id in memo:
            return memo[v.id]
        r = np_copy(it, st, v)
        memo[v.id] = r
        return r
    if isinstance(v, ObjV):
        if v.id in memo:
            return memo[v.id]
        n = it.obj(st, v.cls)
        memo[v.id] = n
        p = st.heap[v.id]
        if p[0] == 'obj':
            st.heap[n.id] = ('obj', p[1], {
                k: deepcopy(it, st, x, memo) for k, x in p[-1].items()})
        it.ev_log(st, 'deepcopy', None, src=v, dst=n)
        return n
    if isinstance(v, ListV):
        if v.id in memo:
            return memo[v.id]
        p = st.heap[v.id]
        if p[0] == 'list':
            n = it.list_(st, [])
            memo[v.id] = n
            st.heap[n.id] = ('list', tuple(deepcopy(it, st, x, memo)
                                           for x in p[1]))
            return n
        return ListV(it.new(st, p))
    if isinstance(v, DictV):
        p = st.heap[v.id]
        if p[0] == 'dict':
            return it.dict_(st, {k: deepcopy(it, st, x, memo)
                                 for k, x in p[-1].items()})
        return DictV(it.new(st, p))
    if isinstance(v, TupleV):
        return TupleV([deepcopy(it, st, x, memo) for x in v.items])
    return v


def shallow(it, st, v):
    if isinstance(v, IteV):
        return it.lift(st, [v], lambda s, vs: shallow(it, s, vs[0]))
    if isinstance(v, ArrV):
        return np_copy(it, st, v)
    if isinstance(v, ObjV):
        n = it.obj(st, v.cls)
        st.heap[n.id] = st.heap[v.id]
        return n
    if isinstance(v, ListV):
        return ListV(it.new(st, st.heap[v.id]))
    if isinstance(v, DictV):
        return DictV(it.new(st, st.heap[v.id]))
    return v


# ------------------------------------------------------------ builtins

def builtin(it, st, name, args, kw, node):
    a0 = args[0] if args else None
    if any(isinstance(a, IteV) for a in args) and name not in ('print',):
        return it.lift(st, list(args), lambda s, vs: builtin(
            it, s, name, vs, kw, node))
    if name == 'len':
        if isinstance(a0, MaskV):
            return a0.count()
        if isinstance(a0, TupleV):
            return C(len(a0.items))
        if isinstance(a0, str):
            return C(len(a0))
        if isinstance(a0, (ListV, DictV)):
            def g(s, p):
                if p[0] == 'list':
                    return C(len(p[1]))
                if p[0] == 'dict':
                    return C(len(p[-1]))
                if p[0] == 'slist':
                    return p[1]
                return T.fn('len', it.to_term(s, a0))
            return it.payload(st, a0, g)
        if isinstance(a0, ArrV):
            return it.shape(st, a0)[0]
        if isinstance(a0, RangeV):
            return T.sub(a0.hi, a0.lo)
        if isinstance(a0, ObjV):
            m = it.class_attr(st, a0.cls, '__len__')
            if m is not None:
                return it.call(st, BoundV(m, a0), [], {}, node)
        return T.fn('len', it.to_term(st, a0))
    if name == 'range':
        ts = [to_num(a) if numeric(a) else it.to_term(st, a) for a in args]
        if len(ts) == 1:
            return RangeV(T.ZERO, ts[0], T.ONE)
        return RangeV(ts[0], ts[1], ts[2] if len(ts) > 2 else T.ONE)
    if name == 'enumerate':
        return LazyIter('enumerate', [a0, to_num(first(
            args, kw, 1, 'start', T.ZERO))])
    if name == 'zip':
        return LazyIter('zip', list(args))
    if name == 'reversed':
        return LazyIter('reversed', [a0])
    if name == 'isinstance':
        return isinstance_(it, st, a0, args[1])
    if name == 'issubclass' and isinstance(a0, ClassV):
        return TRUE if args[1] in a0.mro() else FALSE
    if name == 'type' and len(args) == 1:
        return type_(it, st, a0)
    if name == 'int':
        if isinstance(a0, str):
            try:
                return C(int(a0))
            except ValueError:
                pass
        if isinstance(a0, Term) and a0.kind == 'any' and a0.op == 'fn':
            return T.fn('int:of', a0)
        return it.ew(st, lambda x: T.fn('int', x), [a0])
    if name == 'float':
        if isinstance(a0, str):
            return T.sym('float:' + a0)
        if isinstance(a0, (Term, ArrV)):
            return a0
        if isinstance(a0, B):
            return T.b2t(a0)
    if name == 'complex':
        return it.ew(st, lambda x, y=T.ZERO: T.add(x, T.mul(T.I, y)), args)
    if name == 'abs':
        return it.ew(st, t_abs, [a0])
    if name == 'bool':
        return it.truth(st, a0)
    if name == 'round':
        if len(args) == 1:
            return it.ew(st, lambda x: T.fn('round', x), [a0])
        return T.fn('roundn', it.to_term(st, a0), it.to_term(st, args[1]))
    if name == 'pow':
        return it.binop(st, 'Pow', args[0], args[1], node)
    if name == 'divmod':
        return TupleV([it.binop(st, 'FloorDiv', args[0], args[1], node),
                       it.binop(st, 'Mod', args[0], args[1], node)])
    if name in ('max', 'min') and kw.get('key') is not None:
        items = args if len(args) > 1 else it.concrete_items(st, a0)
        if not items:
            return None
        ks = [it.call(st, kw['key'], [x], {}, node) for x in items]
        if not all(numeric(k) for k in ks):
            return None
        r, k = items[0], to_num(ks[0])
        for x, q in zip(items[1:], ks[1:]):
            q = to_num(q)
            c = T.lt(q, k) if name == 'min' else T.lt(k, q)
            r = merge_val(c, x, r)
            k = T.ite(c, q, k)
        return r
    if name in ('max', 'min'):
        items = args if len(args) > 1 else it.concrete_items(st, a0)
        if items is not None and 'key' not in kw and \
                all(numeric(x) for x in items) and items:
            r = to_num(items[0])
            for x in items[1:]:
                r = (t_max if name == 'max' else t_min)(r, to_num(x))
            return r
        if len(args) == 1:
            return reduction(it, st, 'a' + name, a0)
    if name == 'sum':
        r = it.reduce_sum(st, a0) if isinstance(a0, (ArrV,)) else None
        if r is not None:
            return r
        items = it.concrete_items(st, a0)
        if items is not None:
            r = args[1] if len(args) > 1 else T.ZERO
            for x in items:
                r = it.binop(st, 'Add', r, x, node)
            return r
        if isinstance(a0, ListV):
            p = st.heap[a0.id]
            if p[0] == 'slist' and isinstance(p[3], Term):
                bv = it.boundvar(p[3])
                return T.msum(bv, T.subst(p[3], {p[2]: bv}), p[1])
    if name in ('all', 'any'):
        items = it.concrete_items(st, a0)
        if items is not None:
            ts = [it.truth(st, x) for x in items]
            return T.band(*ts) if name == 'all' else T.bor(*ts)
        return T.boolfn(name, it.to_term(st, a0))
    if name in ('list', 'tuple', 'set', 'sorted'):
        if not args:
            return it.list_(st, []) if name != 'tuple' else TupleV(())
        items = it.concrete_items(st, a0)
        if items is not None and name != 'sorted':
            if name == 'set':
                u = []
                for x in items:
                    if not any(same(x, y) for y in u):
                        u.append(x)
                items = u
            return TupleV(items) if name == 'tuple' else it.list_(st, items)
        if isinstance(a0, RangeV):
            iv = T.sym(it.fresh('iv'), 'int')
            return ListV(it.new(st, ('slist', T.sub(a0.hi, a0.lo), iv,
                                     T.add(a0.lo, T.mul(a0.step, iv)))))
        if isinstance(a0, ListV) and name != 'sorted':
            return ListV(it.new(st, st.heap[a0.id]))
        return T._mk('fn', ('ext:' + name, (it.to_term(st, a0),)), 'any')
    if name == 'dict':
        d = {}
        if a0 is not None:
            if isinstance(a0, DictV):
                d.update(st.heap[a0.id][-1])
            else:
                items = it.concrete_items(st, a0)
                if items is not None:
                    for x in items:
                        k, v = it.unpack(st, x, 2, node)
                        d[it.dkey(st, k)] = v
        d.update(kw)
        return it.dict_(st, d)
    if name == 'str':
        if isinstance(a0, str):
            return a0
        if isinstance(a0, Term) and T.is_const(a0) and \
                T.cval(a0).denominator == 1:
            return str(int(T.cval(a0)))
        return it.strcat([it.to_term(st, a0)])
    if name == 'print':
        return None
    if name in ('hasattr',):
        if isinstance(a0, ObjV) and isinstance(args[1], str):
            p = st.heap[a0.id]
            if p[0] == 'obj':
                v = p[-1].get(args[1], UNDEF)
                if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
                    return v.c if v.b is UNDEF else T.bnot(v.c)
                if v is not UNDEF:
                    return TRUE
                return TRUE if it.class_attr(st, a0.cls, args[1]) \
                    is not None else FALSE
        return T.boolfn('hasattr', it.to_term(st, a0),
                        it.to_term(st, args[1]))
    if name == 'getattr' and isinstance(args[1], str) and len(args) > 2 \
            and isinstance(a0, ObjV):
        h = builtin(it, st, 'hasattr', args[:2], {}, node)
        if h is FALSE:
            return args[2]
        if h is not TRUE and isinstance(h, T.B):
            v = st.heap[a0.id][-1].get(args[1])
            if isinstance(v, IteV):
                return IteV(v.c, args[2] if v.a is UNDEF else v.a,
                            args[2] if v.b is UNDEF else v.b)
    if name == 'getattr' and isinstance(args[1], str):
        return it.getattr(st, a0, it.mangle(args[1]) if False else args[1],
                          node)
    if name == 'setattr' and isinstance(args[1], str):
        return it.setattr(st, a0, args[1], args[2], node)
    if name == 'callable':
        return TRUE if isinstance(a0, (FuncV, BoundV, ClassV, NativeV,
                                       ExtV)) else (
            T.boolfn('callable', a0) if isinstance(a0, Term) and
            a0.kind == 'any' else FALSE)
    if name == 'property':
        return PropV(a0, args[1] if len(args) > 1 else None)
    if name == 'staticmethod':
        return WrapV('static', a0)
    if name == 'classmethod':
        return WrapV('class', a0)
    if name == 'map':
        items = [it.concrete_items(st, a) for a in args[1:]]
        if all(x is not None for x in items):
            return it.list_(st, [it.call(st, a0, list(x), {}, node)
                                 for x in zip(*items)])
    if name == 'filter':
        items = it.concrete_items(st, args[1])
        if items is not None:
            keep = []
            for x in items:
                c = it.truth(st, it.call(st, a0, [x], {}, node))
                if c is TRUE:
                    keep.append(x)
                elif c is not FALSE:
                    keep = None
                    break
            if keep is not None:
                return it.list_(st, keep)
    if name == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return SliceV(*a)
    if name == 'object':
        return T.sym(it.fresh('object'), 'any')
    if name == 'id':
        return it.to_term(st, a0)
    if name == 'iter':
        return a0
    if name == 'next':
        items = it.concrete_items(st, a0)
        if items:
            return items[0]
    if name.endswith(('Error', 'Exception', 'Warning', 'Interrupt')) or \
            name in ('StopIteration', 'SystemExit'):
        return ExcV(name, tuple(args))
    return it.opaque_call(st, 'builtins.' + name, args, kw, node)


TYPES = {'list': ListV, 'dict': DictV, 'tuple': TupleV, 'str': str}


def isinstance_(it, st, v, cls):
    if isinstance(cls, TupleV):
        return T.bor(*[isinstance_(it, st, v, c) for c in cls.items])
    if isinstance(v, Term) and v.kind == 'any' and v.op in ('sym', 'fn') and \
            not (v.op == 'fn' and v.args[0] in ('fstr',)):
        return T.boolfn('isinstance', v, it.to_term(st, cls) if not
                        isinstance(cls, ClassV) else 'class:' + cls.name)
    if isinstance(cls, ClassV):
        return TRUE if isinstance(v, ObjV) and cls in v.cls.mro() else FALSE
    if isinstance(cls, BuiltinV):
        if cls.name in TYPES:
            return TRUE if isinstance(v, TYPES[cls.name]) or (
                cls.name == 'str' and isinstance(v, Term) and
                v.kind == 'str') else FALSE
        if cls.name in ('float', 'int', 'complex'):
            if isinstance(v, Term):
                if cls.name == 'int':
                    return TRUE if T.is_int(v) else FALSE
                # 0. and 0 have the same value number
                return TRUE if not T.is_int(v) or v.op == 'const' else FALSE
            return TRUE if isinstance(v, B) and cls.name == 'int' else FALSE
        if cls.name == 'bool':
            return TRUE if isinstance(v, B) else FALSE
        if cls.name == 'object':
            return TRUE
    if isinstance(cls, ExtV):
        if cls.path in ('numpy.ndarray',):
            return TRUE if isinstance(v, ArrV) else FALSE
        if cls.path.startswith(('typing', 'collections.abc')) and \
                cls.path.endswith('Callable'):
            return TRUE if isinstance(v, (FuncV, BoundV, NativeV)) else FALSE
        if cls.path.startswith('numbers.'):
            return TRUE if isinstance(v, (Term, B)) else FALSE
        if isinstance(v, ObjV):
            return TRUE if cls in v.cls.ext_bases() else FALSE
        if not isinstance(v, Term):
            return FALSE
    return T.boolfn('isinstance', it.to_term(st, v), it.to_term(st, cls))


def type_(it, st, v):
    if isinstance(v, ObjV):
        return v.cls
    if isinstance(v, B):
        return BuiltinV('bool')
    if isinstance(v, ListV):
        return BuiltinV('list')
    if isinstance(v, TupleV):
        return BuiltinV('tuple')
    if isinstance(v, DictV):
        return BuiltinV('dict')
    if isinstance(v, str):
        return BuiltinV('str')
    if v is None:
        return BuiltinV('NoneType')
    if isinstance(v, ArrV):
        return ExtV('numpy.ndarray')
    if isinstance(v, Term) and v.kind != 'any':
        return BuiltinV('int' if T.is_int(v) else 'float')
    return T._mk('fn', ('type', (it.to_term(st, v),)), 'any')


# ------------------------------------------------------------ attributes

def attr(it, st, o, name, node):
    if isinstance(o, TStk):
        if name == 'T':
            return o.arr
        o = o.arr
    if isinstance(o, MaskV):
        if name == 'size':
            return o.count()
        if name == 'shape':
            return TupleV([o.count()])
    if isinstance(o, ArrV):
        if name == 'shape':
            return TupleV(it.shape(st, o))
        if name == 'size':
            n = T.ONE
            for d in it.shape(st, o):
                n = T.mul(n, d)
            return n
        if name == 'ndim':
            return C(it.rank(st, o))
        if name == 'T':
            return transpose(it, st, o)
        if name == 'real':
            return it.ew(st, _u('real'), [o])
        if name == 'imag':
            return it.ew(st, _u('imag'), [o])
        if name == 'dtype':
            return T.sym('dtype', 'any')
        if name == 'flat':
            return o
        return MethV(o, name)
    if isinstance(o, (ListV, DictV, TupleV, str)):
        return MethV(o, name)
    if isinstance(o, Term):
        if name == 'real':
            return T.fn('real', o) if o.kind != 'any' else T._mk(
                'fn', ('attr:real', (o,)), 'any')
        if name == 'imag' and o.kind != 'any':
            return T.fn('imag', o)
        if o.kind == 'any' or o.op in ('fn', 'sym'):
            if name in ('shape', 'size', 'ndim', 'T', 'dtype'):
                return T._mk('fn', ('attr:' + name, (o,)), 'any')
        return MethV(o, name)
    if isinstance(o, PropV):
        if name == 'setter':
            return NativeV('setter', lambda i, s, a, k, n: PropV(
                o.fget, a[0]))
        if name == 'getter':
            return NativeV('getter', lambda i, s, a, k, n: PropV(
                a[0], o.fset))
    if isinstance(o, ExcV):
        if name == 'args':
            return TupleV(o.args)
        return MethV(o, name)
    if isinstance(o, BuiltinV):
        if name == '__name__':
            return o.name
        return ExtV('builtins.%s.%s' % (o.name, name))
    if isinstance(o, BoundV):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return it.getattr(st, o.func, name, node)
    if isinstance(o, B):
        return MethV(o, name)
    if o is None:
        it.ev_log(st, 'noattr', node, obj=None, attr=name)
        # AttributeError
        it.sinks[-1].append((st.clone(), ExcV('AttributeError', ()), node))
        raise Dead()
    return MethV(o, name)


STRM = {'format', 'capitalize', 'upper', 'lower', 'strip', 'split', 'join',
        'startswith', 'endswith', 'replace', 'title', 'zfill', 'ljust',
        'rjust', 'encode'}


def method(it, st, m, args, kw, node):
    o, name = m.recv, m.name
    a0 = args[0] if args else None
    if isinstance(o, TreeV):
        if o.read is not None:
            r = o.read(it, st, o.path + ('()' + name,) + tuple(
                a for a in args if isinstance(a, str)))
            if r is not None:
                return r
        vals = list(args) + list(kw.values())
        key = '()' + name
        if len(vals) > 1 and isinstance(vals[0], str):
            key += ':' + vals.pop(0)
        it.tree_set(st, o, key, vals[0] if vals else T.TRUE, node)
        return o if name in ('set_software', 'reset_dataset') else None
    if isinstance(o, ListV):
        if name == 'append':
            it.list_append(st, o, a0, node)
            return None
        if name == 'extend':
            it.list_extend(st, o, a0, node)
            return None
        if name == 'copy':
            return ListV(it.new(st, st.heap[o.id]))
        if name in ('clear',):
            it.ev_log(st, 'clear', node, list=o)
            st.heap[o.id] = ('list', ())
            return None
        if name == 'pop':
            def g(s, p):
                if p[0] == 'list' and p[1]:
                    k = -1 if a0 is None else int(T.cval(a0)) \
                        if T.is_const(a0) else None
                    if k is not None:
                        items = list(p[1])
                        v = items.pop(k)
                        s.heap[o.id] = ('list', tuple(items))
                        return v
                if p[0] == 'slist':
                    v = it.list_get(s, o, p, C(-1), node)
                    s.heap[o.id] = it.havoc_list(s, p, it.fresh('pop'))
                    return v
                return T.sym(it.fresh('pop'), 'any')
            it.ev_log(st, 'pop', node, list=o)
            return it.payload(st, o, g)
        if name == 'insert':
            def g(s, p):
                if p[0] == 'list' and T.is_const(a0):
                    items = list(p[1])
                    items.insert(int(T.cval(a0)), args[1])
                    s.heap[o.id] = ('list', tuple(items))
                else:
                    s.heap[o.id] = it.havoc_list(s, p, it.fresh('ins'))
            it.ev_log(st, 'insert', node, list=o, value=args[1], idx=a0)
            return it.payload(st, o, g)
        if name == 'index':
            items = it.concrete_items(st, o)
            if items is not None:
                r = None
                for k in range(len(items)-1, -1, -1):
                    c = it.compare(st, 'Eq', items[k], a0, node)
                    r = C(k) if r is None else merge_val(c, C(k), r)
                if r is not None:
                    return r
        if name == 'reverse':
            items = it.concrete_items(st, o)
            it.ev_log(st, 'reverse', node, list=o)
            if items is not None:
                st.heap[o.id] = ('list', tuple(items[::-1]))
                return None
        if name in ('sort', 'remove'):
            it.ev_log(st, name, node, list=o)
            items = it.concrete_items(st, o)
            if name == 'remove' and items is not None:
                for k, x in enumerate(items):
                    if same(x, a0):
                        del items[k]
                        st.heap[o.id] = ('list', tuple(items))
                        return None
            st.heap[o.id] = it.havoc_list(st, st.heap[o.id],
                                          it.fresh(name))
            return None
        if name == 'add':
            items = it.concrete_items(st, o)
            if items is not None and any(same(x, a0) for x in items):
                return None
            it.list_append(st, o, a0, node)
            return None
    if isinstance(o, DictV):
        p = st.heap[o.id]
        if p[0] == 'dict':
            d = p[-1]
            if name == 'items':
                return it.list_(st, [TupleV((it_key(k), v))
                                     for k, v in d.items()])
            if name == 'keys':
                return it.list_(st, [it_key(k) for k in d])
            if name == 'values':
                return it.list_(st, list(d.values()))
            if name == 'get':
                k = it.dkey(st, a0)
                default = args[1] if len(args) > 1 else None
                if k in d:
                    v = d[k]
                    if isinstance(v, IteV) and v.a is UNDEF:
                        return merge_val(v.c, default, v.b)
                    if isinstance(v, IteV) and v.b is UNDEF:
                        return merge_val(v.c, v.a, default)
                    return v
                if isinstance(a0, (Term, IteV)):
                    v = default
                    for kk, vv in d.items():
                        v = merge_val(it.compare(st, 'Eq', a0, kk, node),
                                      vv, v)
                    return v
                return default
            if name == 'update':
                d2 = dict(d)
                if isinstance(a0, DictV):
                    d2.update(st.heap[a0.id][-1])
                d2.update(kw)
                it.ev_log(st, 'dictupdate', node, obj=o)
                st.heap[o.id] = ('dict', d2)
                return None
            if name == 'pop':
                k = it.dkey(st, a0)
                if k in d:
                    d2 = dict(d)
                    v = d2.pop(k)
                    st.heap[o.id] = ('dict', d2)
                    return v
                return args[1] if len(args) > 1 else None
            if name == 'copy':
                return it.dict_(st, d)
            if name == 'setdefault':
                k = it.dkey(st, a0)
                if k in d:
                    return d[k]
                d2 = dict(d)
                d2[k] = args[1] if len(args) > 1 else None
                st.heap[o.id] = ('dict', d2)
                return d2[k]
            if name == 'clear':
                st.heap[o.id] = ('dict', {})
                it.ev_log(st, 'clear', node, list=o)
                return None
    if isinstance(o, ArrV):
        if st.heap[o.id][0] == 'phi':
            return it.payload(st, o, lambda s, p: method(
                it, s, m, args, kw, node))
        if name == 'copy' or name == 'flatten' and it.rank(st, o) == 1:
            return np_copy(it, st, o)
        if name == 'reshape':
            r = np_reshape(it, st, o, args)
            if r is not None:
                return r
        if name == 'astype':
            t = a0
            if isinstance(t, BuiltinV) and t.name == 'int' or \
                    isinstance(t, ExtV) and 'int' in t.path:
                return it.ew(st, lambda x: T.fn('int', x), [o])
            return np_copy(it, st, o)
        if name == 'fill':
            it.store_all(st, o, a0, node)
            return None
        if name in ('sum', 'mean', 'max', 'min', 'argmin', 'argmax', 'std',
                    'dot', 'any', 'all', 'conj', 'conjugate', 'transpose',
                    'var', 'prod', 'clip', 'ptp', 'cumsum'):
            r = numpy_call(it, st, name, [o] + args, kw, node)
            if r is not NotImplemented and r is not None:
                return r
        if name == 'view' and not args or name == 'ravel' and \
                it.rank(st, o) == 1:
            return o
        if name == 'squeeze' and not args and not kw:
            r = np_reshape(it, st, o, [d for d in it.shape(st, o)
                                       if d is not T.ONE])
            if r is not None:
                return r
        if name == 'tolist':
            items = it.concrete_items(st, o)
            if items is not None:
                return it.list_(st, items)
        if name == 'item' and not args:
            return it.getitem(st, o, C(0), node)
    if isinstance(o, str):
        if name == 'format':
            return fmt(it, st, o, args, kw)
        if name == 'join':
            items = it.concrete_items(st, a0)
            if items is not None:
                parts = []
                for k, x in enumerate(items):
                    if k:
                        parts.append(o)
                    parts.append(x if isinstance(x, str)
                                 else it.to_term(st, x))
                return it.strcat(parts)
        if all(isinstance(a, str) for a in args) and name in STRM and not kw:
            r = getattr(o, name)(*args)
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, list):
                return it.list_(st, r)
            return r
        return T._mk('fn', ('str.' + name, (o,) + tuple(
            it.to_term(st, a) for a in args)), 'any')
    if isinstance(o, TupleV):
        if name in ('index', 'count'):
            return T.sym(it.fresh('tup'), 'int')
    if isinstance(o, Term):
        if name in ('astype', 'copy', 'item', 'squeeze', 'flatten') and \
                o.kind != 'any':
            return o
        if name in ('conj', 'conjugate') and o.kind != 'any':
            return T.fn('conj', o)
        if name in ('sum', 'mean', 'max', 'min') and o.kind != 'any':
            return o
        if o.kind == 'any' or o.op in ('sym', 'fn'):
            r = it.opaque_call(st, 'method:' + name, [o] + args, kw, node)
            return r
    return it.opaque_call(st, 'method:' + name, [o] + args, kw, node)


def it_key(k):
    if isinstance(k, tuple):
        return TupleV([it_key(x) for x in k])
    return k


def fmt(it, st, s, args, kw):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kw[field]
            if isinstance(v, str) and not spec:
                parts.append(v)
            elif isinstance(v, Term) and T.is_const(v) and not spec and \
                    T.cval(v).denominator == 1:
                parts.append(str(int(T.cval(v))))
            elif spec:
                parts.append(T.fn('format', it.to_term(st, v), spec))
            else:
                parts.append(it.to_term(st, v))
    except (IndexError, KeyError, ValueError):
        return T._mk('fn', ('fmt', (s,)), 'any')
    return it.strcat(parts)
