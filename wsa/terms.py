"""Term domain of the analyser.

Abstract numeric values are hash-consed terms; abstract truth values are
reduced ordered BDDs over comparison atoms.  Equality of terms is decided by

 1. identity after construction-time canonicalisation (value numbering),
 2. a rational-function normal form (polynomials over the non-arithmetic
    atoms, denominators kept factored, relations sqrt(e)^2=e, cos^2=1-sin^2,
    cosh^2=1+sinh^2, i^2=-1), with case distinction on the guards,
 3. if 2 does not give equality: interpretation of both terms over pseudo
    random valuations of the atoms.  A valuation where they differ is the
    witness put in the report; if none exists they are taken as equal
    (counted separately).

No code of the analysed program is ever run: valuations are of terms.
"""
import math
import cmath
import hashlib
import random
from fractions import Fraction

_TAB = {}
_CNT = [0]


class Term:
    __slots__ = ('op', 'args', 'id', 'kind', '_nf', '_fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, args, kind='real'):
    key = (op, args, kind if op == 'sym' else None)
    t = _TAB.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.kind = op, args, kind
        _CNT[0] += 1
        t.id = _CNT[0]
        t._nf = None
        if op in ('sym', 'bsym', 'lane'):
            t._fv = 1 << (t.id % 1021)
        elif op == 'const':
            t._fv = 0
        else:
            m = 0
            for x in children(t):
                if not isinstance(x, str) and x is not None:
                    m |= x._fv
            if op == 'sum':
                m |= args[0]._fv | C(args[2])._fv
            t._fv = m
        _TAB[key] = t
    return t


def C(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return _mk('fn', ('const:%r' % v, ()))
        isint = False
        v = Fraction(repr(v))
        return _mk('const', (v, ), 'real')
    if isinstance(v, complex):
        return add(C(v.real), mul(C(v.imag), I))
    return _mk('const', (Fraction(v),), 'int' if Fraction(v).denominator == 1
               else 'real')


def sym(name, kind='real'):
    return _mk('sym', (name,), kind)


def lane(k):
    return _mk('lane', (k,), 'int')


INTFN = {'floor', 'ceil', 'int', 'len', 'argmin', 'argmax', 'round', 'sgn',
         'idiv'}


def is_int(t):
    if t.op == 'const':
        return t.args[0].denominator == 1
    if t.op in ('sym', 'lane'):
        return t.kind == 'int'
    if t.op in ('add', 'mul'):
        return all(is_int(a) and (t.op == 'mul' and a.denominator == 1
                                  if False else True)
                   and c == int(c) and (t.op == 'add' or c >= 0)
                   for a, c in t.args[1]) and \
            t.args[0].denominator == 1
    if t.op == 'fn':
        return t.args[0] in INTFN or t.args[0].startswith('int:')
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    return False


def is_const(t):
    return isinstance(t, Term) and t.op == 'const'


def cval(t):
    return t.args[0]


def _as_lin(t):
    """t as (const, {core: coef})."""
    if t.op == 'const':
        return t.args[0], {}
    if t.op == 'add':
        return t.args[0], dict(t.args[1])
    if t.op == 'mul' and t.args[0] != 1:
        return Fraction(0), {_mkmul(Fraction(1), dict(t.args[1])): t.args[0]}
    return Fraction(0), {t: Fraction(1)}


def _mkadd(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
        return scale(v, k)
    return _mk('add', (c, tuple(sorted(d.items(), key=lambda kv: kv[0].id))))


def add(*ts):
    c = Fraction(0)
    d = {}
    for t in ts:
        t = C(t)
        c1, d1 = _as_lin(t)
        c += c1
        for k, v in d1.items():
            d[k] = d.get(k, 0) + v
    return _mkadd(c, d)


def scale(v, t):
    v = Fraction(v)
    if v == 0:
        return ZERO
    if v == 1:
        return t
    if t.op == 'const':
        return C(v * t.args[0])
    if t.op == 'add':
        return _mkadd(t.args[0]*v, {k: c*v for k, c in t.args[1]})
    if t.op == 'mul':
        return _mkmul(t.args[0]*v, dict(t.args[1]))
    return _mkmul(v, {t: Fraction(1)})


def neg(t):
    return scale(-1, C(t))


def sub(a, b):
    return add(a, neg(b))


def _as_mul(t):
    if t.op == 'const':
        return t.args[0], {}
    if t.op == 'mul':
        return t.args[0], dict(t.args[1])
    if t.op == 'pow':
        return Fraction(1), {t.args[0]: t.args[1]}
    return Fraction(1), {t: Fraction(1)}


def _mkmul(c, d):
    if c == 0:
        return ZERO
    d = {k: v for k, v in d.items() if v != 0}
    # merge exponentials
    exps = [(k, v) for k, v in d.items() if k.op == 'fn' and k.args[0] == 'exp']
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        tot = add(*[scale(v, k.args[1][0]) for k, v in exps])
        for k, v in exps:
            del d[k]
        e = fn('exp', tot)
        if e.op == 'const':
            c *= e.args[0]
        else:
            d[e] = d.get(e, 0) + 1
    # i^2 = -1
    if I in d and d[I].denominator == 1 and d[I] != 1:
        n = int(d.pop(I)) % 4
        if n in (2, 3):
            c = -c
        if n in (1, 3):
            d[I] = Fraction(1)
    # pull constants out of integer powers of monomials handled in pow()
    if not d:
        return C(c)
    if c == 1 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
        return _mk('pow', (k, v))
    if len(d) == 1:
        (k, v), = d.items()
        if v == 1 and k.op == 'add':
            return scale(c, k)
    return _mk('mul', (c, tuple(sorted(d.items(), key=lambda kv: kv[0].id))))


def mul(*ts):
    c = Fraction(1)
    d = {}
    for t in ts:
        t = C(t)
        c1, d1 = _as_mul(t)
        c *= c1
        for k, v in d1.items():
            d[k] = d.get(k, Fraction(0)) + v
    return _mkmul(c, d)


def _perfect_root(q, n):
    if q < 0:
        return None

    def r(x):
        k = round(x ** (1.0/n))
        for z in (k-1, k, k+1):
            if z >= 0 and z**n == x:
                return z
        return None
    try:
        a, b = r(q.numerator), r(q.denominator)
    except OverflowError:
        return None
    return None if a is None or b is None else Fraction(a, b)


def power(b, e):
    b, e = C(b), C(e)
    if e.op == 'const':
        p = e.args[0]
        if p == 0:
            return ONE
        if p == 1:
            return b
        if b.op == 'const':
            v = b.args[0]
            if p.denominator == 1:
                if v != 0 or p > 0:
                    if abs(p) < 200:
                        return C(v ** int(p))
            else:
                r = _perfect_root(v, p.denominator)
                if r is not None and (r != 0 or p > 0):
                    return C(r ** p.numerator)
            return _mk('pow', (b, p))
        if b.op == 'mul':
            if p.denominator == 1:
                return _mkmul(b.args[0]**int(p),
                              {k: v*p for k, v in b.args[1]})
            # fractional power: pull out the positive constant root only
            return _mk('pow', (b, p))
        if b.op == 'pow':
            if p.denominator == 1:
                return _mkmul(Fraction(1), {b.args[0]: b.args[1]*p})
            return _mk('pow', (b, p))
        if b.op == 'add' and p.denominator == 1:
            # canonical scale of sums under integer powers
            lead = abs(b.args[1][0][1])
            if lead != 1:
                return mul(C(lead**int(p)), power(scale(1/lead, b), e))
            if b.args[1][0][1] < 0:
                nb = scale(-1, b)
                r = power(nb, e)
                return r if int(p) % 2 == 0 else neg(r)
        return _mkmul(Fraction(1), {b: p})
    if e.op == 'fn' or True:
        return fn('pow', b, e)


def div(a, b):
    return mul(a, power(b, C(-1)))


def cplx(t):
    """Whether a term may contain the imaginary unit (may err to True)."""
    return bool(t._fv & I._fv)


def fn(name, *args):
    args = tuple(a if isinstance(a, (str, B)) else C(a) for a in args)
    if name == 'sqrt':
        return power(args[0], C(Fraction(1, 2)))
    if name == 'exp':
        a = args[0]
        if a.op == 'const' and a.args[0] == 0:
            return ONE
        if a.op == 'fn' and a.args[0] == 'log':
            return a.args[1][0]
        return _mk('fn', ('exp', (a,)))
    if name == 'log':
        a = args[0]
        if a.op == 'const' and a.args[0] == 1:
            return ZERO
        if a.op == 'fn' and a.args[0] == 'exp' and not cplx(a):
            return a.args[1][0]
    if name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin'):
        a = args[0]
        if a.op == 'const' and a.args[0] == 0:
            return ZERO
        if _leadneg(a):
            return neg(fn(name, neg(a)))
    if name in ('cos', 'cosh'):
        a = args[0]
        if a.op == 'const' and a.args[0] == 0:
            return ONE
        if _leadneg(a):
            return fn(name, neg(a))
    if name == 'abs':
        a = args[0]
        if a.op == 'const':
            return C(abs(a.args[0]))
        if a.op == 'fn' and a.args[0] == 'abs':
            return a
        if a.op == 'pow' and a.args[1].denominator == 1 and \
                a.args[1] % 2 == 0 and not cplx(a):
            return a
        if a.op == 'mul' and a.args[0] != 1:
            return scale(abs(a.args[0]), fn('abs', scale(1/a.args[0], a)))
        if _leadneg(a):
            return fn('abs', neg(a))
    if name in ('floor', 'int', 'ceil', 'round'):
        a = args[0]
        if a.op == 'const':
            v = a.args[0]
            r = {'floor': math.floor, 'ceil': math.ceil, 'int': int,
                 'round': round}[name](v)
            return C(r)
        if is_int(a):
            return a
    if name == 'real':
        if args[0] is I:
            return ZERO
        if args[0].op in ('const', 'lane', 'load'):
            return args[0]
    if name == 'idiv':
        a, b = args
        if a.op == 'const' and b.op == 'const' and b.args[0] != 0:
            return C(a.args[0] // b.args[0])
        return fn('floor', div(a, b))
    if name == 'mod':
        a, b = args
        if a.op == 'const' and b.op == 'const' and b.args[0] != 0:
            return C(a.args[0] % b.args[0])
    return _mk('fn', (name, args),
               'int' if name in INTFN or name.startswith('int:') else 'real')


def _leadneg(a):
    if a.op == 'const':
        return a.args[0] < 0
    if a.op == 'mul':
        return a.args[0] < 0
    if a.op == 'add':
        return a.args[1][0][1] < 0
    return False


def load(arr, *idx):
    return _mk('load', (arr, tuple(C(i) for i in idx)))


# ---------------------------------------------------------------- BDD guards

class B:
    __slots__ = ('atom', 'hi', 'lo', 'id', '_fv')

    def __repr__(self):
        return showb(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_BT = {}


def _bmk(atom, hi, lo):
    if hi is lo:
        return hi
    k = (atom.id, hi.id, lo.id)
    b = _BT.get(k)
    if b is None:
        b = B()
        b.atom, b.hi, b.lo = atom, hi, lo
        b._fv = atom._fv | hi._fv | lo._fv
        _CNT[0] += 1
        b.id = _CNT[0]
        _BT[k] = b
    return b


TRUE = B()
FALSE = B()
for _b in (TRUE, FALSE):
    _CNT[0] += 1
    _b.id = _CNT[0]
    _b.atom = _b.hi = _b.lo = None
    _b._fv = 0

_IT = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _IT.get(k)
    if r is not None:
        return r
    a = min((x.atom for x in (f, g, h) if x.atom is not None),
            key=lambda t: t.id)

    def co(x, v):
        if x.atom is a:
            return x.hi if v else x.lo
        return x
    r = _bmk(a, bite(co(f, 1), co(g, 1), co(h, 1)),
             bite(co(f, 0), co(g, 0), co(h, 0)))
    _IT[k] = r
    return r


def band(*bs):
    r = TRUE
    for b in bs:
        r = bite(r, b, FALSE)
    return r


def bor(*bs):
    r = FALSE
    for b in bs:
        r = bite(r, TRUE, b)
    return r


def bnot(b):
    return bite(b, FALSE, TRUE)


def bimp(a, b):
    return bnot(band(a, bnot(b))) is TRUE


def restrict(f, c):
    """Coudert-Madre restrict: f on care set c."""
    if c is FALSE or c is TRUE or f in (TRUE, FALSE):
        return f
    if f is c:
        return TRUE
    a = min(f.atom, c.atom, key=lambda t: t.id)
    if c.atom is a:
        if c.hi is FALSE:
            return restrict(f.lo if f.atom is a else f, c.lo)
        if c.lo is FALSE:
            return restrict(f.hi if f.atom is a else f, c.hi)
        if f.atom is not a:
            return restrict(f, bor(c.hi, c.lo))
        return _bmk(a, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    return _bmk(a, restrict(f.hi, c), restrict(f.lo, c))


def batoms(b, acc=None, seen=None):
    if acc is None:
        acc = set()
    if seen is None:
        seen = set()
    if b.atom is None or b.id in seen:
        return acc
    seen.add(b.id)
    acc.add(b.atom)
    batoms(b.hi, acc, seen)
    batoms(b.lo, acc, seen)
    return acc


def atom(t):
    return _bmk(t, TRUE, FALSE)


def gt0(t):
    """t > 0"""
    if t.op == 'const':
        return TRUE if t.args[0] > 0 else FALSE
    if t.op == 'ite':
        return bite(t.args[0], gt0(t.args[1]), gt0(t.args[2]))
    c, d = _as_lin(t)
    ks = sorted(d, key=lambda k: k.id)
    lead = abs(d[ks[0]])
    t = scale(1/lead, t)
    c, d = _as_lin(t)
    if all(is_int(k) and v.denominator == 1 for k, v in d.items()):
        # integer: canonical sign, t > 0 <=> not (1 - t > 0)
        cf = Fraction(math.ceil(c))   # t>0 <=> sum + c > 0 <=> sum+ceil(c)>0
        t = _mkadd(cf, d)
        if d[ks[0]] < 0:
            return bnot(atom(_mk('gt0', (add(ONE, neg(t)),), 'bool')))
    return atom(_mk('gt0', (t,), 'bool'))


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return bnot(gt0(sub(a, b)))


def eq(a, b):
    d = sub(a, b)
    if d.op == 'const':
        return TRUE if d.args[0] == 0 else FALSE
    if d.op == 'ite':
        return bite(d.args[0], eq(d.args[1], ZERO), eq(d.args[2], ZERO))
    if a.op == 'ite' and is_const(b):
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and is_const(a):
        return eq(b, a)
    c, dd = _as_lin(d)
    ks = sorted(dd, key=lambda k: k.id)
    d = scale(1/dd[ks[0]], d)
    if all(is_int(k) and v.denominator == 1 for k, v in _as_lin(d)[1].items()) \
            and _as_lin(d)[0].denominator != 1:
        return FALSE
    return atom(_mk('eq0', (d,), 'bool'))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = C(a), C(b)
    if a is b:
        return a
    # ite(c, ite(c,x,y), z)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b))


def b2t(b):
    return ite(b, ONE, ZERO)


def boolsym(name):
    return atom(_mk('bsym', (name,), 'bool'))


def boolfn(name, *args):
    return atom(_mk('bfn', (name, tuple(args)), 'bool'))


I = _mk('sym', ('I',), 'imag')
ZERO = C(0)
ONE = C(1)
HALF = C(Fraction(1, 2))
Term.__add__ = lambda a, b: add(a, C(b))
Term.__radd__ = lambda a, b: add(C(b), a)
Term.__sub__ = lambda a, b: sub(a, C(b))
Term.__rsub__ = lambda a, b: sub(C(b), a)
Term.__mul__ = lambda a, b: mul(a, C(b))
Term.__rmul__ = lambda a, b: mul(C(b), a)
Term.__truediv__ = lambda a, b: div(a, C(b))
Term.__rtruediv__ = lambda a, b: div(C(b), a)
Term.__neg__ = neg
Term.__pow__ = lambda a, b: power(a, C(b))
PI = sym('pi', 'pos')

# ------------------------------------------------------------ traversal

def children(t):
    if t.op in ('add', 'mul'):
        return [k for k, _ in t.args[1]]
    if t.op == 'pow':
        return [t.args[0]]
    if t.op in ('fn', 'bfn'):
        return list(t.args[1])
    if t.op == 'ite':
        return list(t.args)
    if t.op == 'load':
        return [t.args[0]] + list(t.args[1])
    if t.op in ('gt0', 'eq0'):
        return [t.args[0]]
    if t.op == 'sum':
        return [t.args[1], t.args[2]]
    if t.op == 'mu':
        return list(t.args[2]) + list(t.args[3]) + [t.args[1]]
    return []


def subterms(t, seen=None, out=None):
    """All distinct terms (and atoms of guards) below t."""
    top = seen is None
    if top:
        seen, out = set(), []
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, str) or x is None:
            continue
        if isinstance(x, B):
            if x.atom is None or x.id in seen:
                continue
            seen.add(x.id)
            stack += [x.atom, x.hi, x.lo]
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        stack += children(x)
    return out


def syms(t):
    return {x for x in subterms(t) if x.op in ('sym', 'bsym')}


def subst(t, m, memo=None):
    """Replace terms by terms (keys: Terms), rebuilding canonically."""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


class _Keys(dict):
    """Substitution with the leaf signatures of its keys."""
    masks = ()


def _subst(t, m, memo):
    if isinstance(t, str) or t is None:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if not isinstance(m, _Keys):
        m = _Keys(m)
        m.masks = sorted(set(k._fv for k in m))
    f = t._fv
    for k in m.masks:
        if f & k == k:
            break
    else:
        memo[t.id] = t
        return t
    if isinstance(t, B):
        if t.atom is None:
            return t
        a = _subst_atom(t.atom, m, memo)
        r = bite(a, _subst(t.hi, m, memo), _subst(t.lo, m, memo))
        memo[t.id] = r
        return r
    if t in m:
        r = m[t]
    else:
        r = _rebuild(t, lambda x: _subst(x, m, memo))
    memo[t.id] = r
    return r


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    if a.op == 'gt0':
        return gt0(_subst(a.args[0], m, memo))
    if a.op == 'eq0':
        return eq(_subst(a.args[0], m, memo), ZERO)
    if a.op == 'bfn':
        n = tuple(x if isinstance(x, str) else _subst(x, m, memo)
                  for x in a.args[1])
        return boolfn(a.args[0], *n)
    return atom(a)


def _rebuild(t, f):
    if t.op == 'add':
        return add(C(t.args[0]), *[scale(c, f(k)) for k, c in t.args[1]])
    if t.op == 'mul':
        return mul(C(t.args[0]), *[power(f(k), C(c)) for k, c in t.args[1]])
    if t.op == 'pow':
        return power(f(t.args[0]), C(t.args[1]))
    if t.op == 'fn':
        return mkfn(t.args[0], [f(a) for a in t.args[1]])
    if t.op == 'ite':
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if t.op == 'load':
        return load(f(t.args[0]), *[f(i) for i in t.args[1]])
    if t.op == 'sum':
        return msum(t.args[0], f(t.args[1]), f(t.args[2]))
    if t.op == 'mu':
        return mu(t.args[0], f(t.args[1]), [f(a) for a in t.args[2]],
                  [f(a) for a in t.args[3]])
    return t


def mu(bvs, cond, init, step):
    """Loop node: while cond: bvs = step, from bvs = init (all at once)."""
    return _mk('mu', (tuple(bvs), cond, tuple(init), tuple(step)), 'any')


def proj(m, j):
    """Value of variable j after the loop."""
    bv = m.args[0][j]
    if m.args[3][j] is bv:
        return m.args[2][j]
    return fn('int:proj' if bv.kind == 'int' else 'proj', m, C(j))


def mkfn(name, args):
    if name == 'pow':
        return power(*args)
    return fn(name, *args)


def msum(bv, body, n):
    """Reduction  sum_{bv=0}^{n-1} body ; linear in body."""
    n = C(n)
    if bv not in subterms(body):
        return mul(n, body)
    c, d = _as_lin(body)
    out = []
    if c != 0:
        out.append(mul(C(c), n))
    for k, co in d.items():
        cc, dd = _as_mul(k)
        fac, rest = [C(co*cc)], {}
        for b_, e_ in dd.items():
            if bv in subterms(b_):
                rest[b_] = e_
            else:
                fac.append(power(b_, C(e_)))
        r = _mkmul(Fraction(1), rest)
        if r.op == 'const':
            fac.append(mul(n, r))
        else:
            fac.append(_mk('sum', (bv, r, n)))
        out.append(mul(*fac))
    return add(*out)


# ------------------------------------------------------------ normal form

class TooBig(Exception):
    pass


BUDGET = 6000


def _padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + s*v
        if w == 0:
            r.pop(k, None)
        else:
            r[k] = w
    return r


def _mm(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted((k, v) for k, v in d.items() if v))


def _pmul(a, b):
    if len(a)*len(b) > BUDGET*20:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mm(m1, m2)
            r[m] = r.get(m, 0) + c1*c2
    r = {k: v for k, v in r.items() if v}
    r = _reduce(r)
    if len(r) > BUDGET:
        raise TooBig()
    return r


_BYID = {}


def _reduce(p):
    """Apply atom relations (roots, trig)."""
    changed = True
    while changed:
        changed = False
        out = {}
        for m, c in p.items():
            hit = None
            for i, (aid, e) in enumerate(m):
                t = _BYID[aid]
                if e >= 2 and t.op == 'fn' and t.args[0] in ('cos', 'cosh'):
                    hit = (i, t, 2, t.args[0])
                    break
                if t.op == 'root' and e >= t.args[1]:
                    hit = (i, t, t.args[1], 'root')
                    break
                if t is I and e >= 2:
                    hit = (i, t, 2, 'I')
                    break
            if hit is None:
                w = out.get(m, 0) + c
                if w:
                    out[m] = w
                else:
                    out.pop(m, None)
                continue
            changed = True
            i, t, k, what = hit
            rest = list(m)
            if rest[i][1] == k:
                del rest[i]
            else:
                rest[i] = (rest[i][0], rest[i][1]-k)
            rest = tuple(rest)
            if what == 'cos':
                s = fn('sin', t.args[1][0])
                _BYID[s.id] = s
                rp = {(): Fraction(1), ((s.id, 2),): Fraction(-1)}
            elif what == 'cosh':
                s = fn('sinh', t.args[1][0])
                _BYID[s.id] = s
                rp = {(): Fraction(1), ((s.id, 2),): Fraction(1)}
            elif what == 'I':
                rp = {(): Fraction(-1)}
            else:
                rp = dict(t.args[0])
            for m2, c2 in rp.items():
                mm = _mm(rest, m2)
                w = out.get(mm, 0) + c*c2
                if w:
                    out[mm] = w
                else:
                    out.pop(mm, None)
        p = out
    return p


def _ppow(p, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = _pmul(r, p)
    return r


def _pkey(p):
    return tuple(sorted(p.items()))


def _primitive(p):
    """(unit, primitive poly) with positive leading coef 1."""
    if not p:
        return Fraction(0), p
    k = min(p)
    u = p[k]
    return u, {m: c/u for m, c in p.items()}


def nf(t):
    """Rational normal form (num poly, {den poly key: exp})."""
    if t._nf is not None:
        if t._nf == 'big':
            raise TooBig()
        return t._nf
    try:
        r = _nf(t)
    except TooBig:
        t._nf = 'big'
        raise
    t._nf = r
    return r


def _den_lcm(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = max(d.get(k, 0), v)
    return d


def _expand_missing(num, have, want):
    for k, v in want.items():
        miss = v - have.get(k, 0)
        if miss:
            num = _pmul(num, _ppow(dict(k), miss))
    return num


def _nfadd(parts):
    den = {}
    for _, d in parts:
        den = _den_lcm(den, d)
    num = {}
    for n, d in parts:
        num = _padd(num, _expand_missing(n, d, den))
    return _cancel(num, den)


def _cancel(num, den):
    if not num:
        return num, {}
    # cancel single-atom denominators
    for k in list(den):
        if len(k) == 1:
            (m, c), = k
            if len(m) == 1:
                aid, e1 = m[0]
                if e1 == 1:
                    mn = min(dict(mm).get(aid, 0) for mm in num)
                    q = min(mn, den[k])
                    if q > 0:
                        num = {tuple((a, e - q) if a == aid else (a, e)
                                     for a, e in mm if not (a == aid and e == q)): cc
                               for mm, cc in num.items()}
                        den[k] -= q
                        if not den[k]:
                            del den[k]
        elif len(num) == len(k):
            u, p = _primitive(num)
            if _pkey(p) == k:
                num = {(): u}
                den[k] -= 1
                if not den[k]:
                    del den[k]
    return num, den


def _nfmul(a, b):
    num = _pmul(a[0], b[0])
    den = dict(a[1])
    for k, v in b[1].items():
        den[k] = den.get(k, 0) + v
    return _cancel(num, den)


def _nfinv(a):
    num, den = a
    if not num:
        raise TooBig()
    n2 = {(): Fraction(1)}
    for k, v in den.items():
        n2 = _pmul(n2, _ppow(dict(k), v))
    u, p = _primitive(num)
    n2 = {m: c/u for m, c in n2.items()}
    if p == {(): 1}:
        return n2, {}
    if len(p) == 1:
        # monomial: factor into single atoms
        (m, c), = p.items()
        d = {}
        for aid, e in m:
            d[((((aid, 1),), Fraction(1)),)] = e
        return _cancel(n2, d)
    return _cancel(n2, {_pkey(p): 1})


def _nfatom(t):
    _BYID[t.id] = t
    return {((t.id, 1),): Fraction(1)}, {}


def _nf(t):
    if t.op == 'const':
        return ({(): t.args[0]} if t.args[0] else {}), {}
    if t.op == 'add':
        parts = []
        if t.args[0]:
            parts.append(({(): t.args[0]}, {}))
        for k, c in t.args[1]:
            n, d = nf(k)
            parts.append(({m: v*c for m, v in n.items()}, d))
        return _nfadd(parts)
    if t.op == 'mul':
        r = ({(): t.args[0]}, {})
        for k, e in t.args[1]:
            r = _nfmul(r, _nfpow(k, e))
        return r
    if t.op == 'pow':
        return _nfpow(*t.args)
    if t.op == 'fn' and t.args[0] in ('tan', 'tanh'):
        a = t.args[1][0]
        s = ('sin', 'cos') if t.args[0] == 'tan' else ('sinh', 'cosh')
        return _nfmul(nf(fn(s[0], a)), _nfinv(nf(fn(s[1], a))))
    if t.op == 'fn':
        args = [canon(a) if isinstance(a, Term) else a for a in t.args[1]]
        u = mkfn(t.args[0], args)
        if u is not t:
            return nf(u)
    if t.op == 'load':
        u = load(t.args[0], *[canon(a) for a in t.args[1]])
        if u is not t:
            return nf(u)
    return _nfatom(t)


def _nfpow(b, e):
    n = nf(b)
    if e.denominator == 1:
        k = int(e)
        if k < 0:
            n = _nfinv(n)
            k = -k
        r = ({(): Fraction(1)}, {})
        for _ in range(k):
            r = _nfmul(r, n)
        return r
    q = e.denominator
    # root of num/den: root(num*den^(q-1))/den
    num, den = n
    for k, v in den.items():
        num = _pmul(num, _ppow(dict(k), v*(q-1)))
    if not num:
        return {}, {}
    # even-power monomial content with positive const stays inside the root
    rt = _mk('root', (_pkey(num), q))
    _BYID[rt.id] = rt
    p = e.numerator
    base = ({((rt.id, 1),): Fraction(1)}, dict(den))
    if p < 0:
        # root^-1 = root^(q-1)/num
        base = _nfinv(base)
        p = -p
    r = ({(): Fraction(1)}, {})
    for _ in range(p):
        r = _nfmul(r, base)
    return r


_CAN = {}


def canon(t):
    """Canonical representative of t's normal form class (best effort)."""
    r = _CAN.get(t.id)
    if r is not None:
        return r
    try:
        n, d = nf(t)
        if len(n) > 60 or len(d) > 6:
            r = t
        else:
            r = _unnf(n, d)
    except (TooBig, RecursionError):
        r = t
    _CAN[t.id] = r
    return r


def _unp(p):
    out = []
    for m, c in p.items():
        fs = [C(c)]
        for aid, e in m:
            a = _BYID[aid]
            if a.op == 'root':
                a = power(_unp(dict(a.args[0])), C(Fraction(1, a.args[1])))
            fs.append(power(a, C(e)))
        out.append(mul(*fs))
    return add(*out) if out else ZERO


def _unnf(n, d):
    r = _unp(n)
    for k, e in d.items():
        r = mul(r, power(_unp(dict(k)), C(-e)))
    return r


def nf_equal(a, b):
    try:
        na, da = nf(a)
        nb, db = nf(b)
        if da == db:
            return na == nb
        den = _den_lcm(da, db)
        return _expand_missing(na, da, den) == _expand_missing(nb, db, den)
    except (TooBig, RecursionError):
        return None


def guard_atoms(t):
    acc = set()
    for x in subterms(t):
        if x.op == 'ite':
            batoms(x.args[0], acc)
    return acc


def cofactor(t, a, v, memo=None):
    memo = {} if memo is None else memo
    return subst(t, {a: TRUE if v else FALSE}, memo)


# ------------------------------------------------------------ interpretation

class Undef(Exception):
    pass


def _h(*parts):
    s = '|'.join(map(str, parts)).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


def _u(*parts):
    return _h(*parts) / 2.0**64


CONSTV = {'pi': math.pi}


_DEP = {}


def _dependent(t):
    """Ids of the subterms of a sum that may depend on its variable."""
    r = _DEP.get(t.id)
    if r is None:
        bv, body, _ = t.args
        r = _DEP[t.id] = [x.id for x in subterms(body)
                          if not isinstance(x, B) and x._fv & bv._fv] + \
            [bv.id]
    return r


def _mudep(t):
    """Ids of the subterms of a loop that may depend on its variables."""
    r = _DEP.get(t.id)
    if r is None:
        bvs, cond, _, step = t.args
        mask = 0
        for b in bvs:
            mask |= b._fv
        dep = {x.id: True for x in bvs}
        r = [x.id for x in bvs]
        stack = list(step) + [cond]
        while stack:
            x = stack[-1]
            if isinstance(x, str) or x is None or x.id in dep:
                stack.pop()
                continue
            if not x._fv & mask:
                dep[x.id] = False
                stack.pop()
                continue
            kids = [x.atom, x.hi, x.lo] if isinstance(x, B) else \
                children(x)
            kids = [k for k in kids if k is not None
                    and not isinstance(k, str)]
            todo = [k for k in kids if k.id not in dep]
            if todo:
                stack += todo
                continue
            stack.pop()
            dep[x.id] = d = any(dep[k.id] for k in kids)
            if d and not isinstance(x, B):
                r.append(x.id)
        _DEP[t.id] = r = tuple(r)
    return r


class Valuation:
    """Pseudo-random valuation of atoms."""

    def __init__(self, seed, domains=None, defs=None, nsum=3, signed=True):
        self.seed = seed
        self.dom = domains or {}
        self.defs = defs or {}
        self.memo = {}
        self.env = {}
        self.nsum = nsum
        self.signed = signed

    def draw(self, name):
        """Source of a value, independent of the order of evaluation."""
        return random.Random('%s|%s' % (self.seed, name))

    def symv(self, t):
        name = t.args[0]
        if name in CONSTV:
            return CONSTV[name]
        if name == 'I':
            return 1j
        if name in self.env:
            return self.env[name]
        if name in self.dom:
            d = self.dom[name]
            v = d(self.draw(name)) if callable(d) else d
        else:
            u = _u(self.seed, name)
            if t.kind == 'pos':
                v = 0.3 + 1.5*u
            elif t.kind == 'int':
                v = int(3 + 12*u)
            else:
                v = 0.3 + 1.5*u
                if self.signed and _u(self.seed, name, 's') < 0.5:
                    v = -v
        self.env[name] = v
        return v

    def rfun(self, name, args):
        """Smooth pseudo-random function of numeric args."""
        r = 1.3 + 0.5*_u(self.seed, name)
        for i, a in enumerate(args):
            if isinstance(a, complex):
                a = a.real + 0.37*a.imag
            if isinstance(a, str):
                r += _u(self.seed, name, i, a)
                continue
            k = 0.7 + _u(self.seed, name, i, 'k')
            ph = 6*_u(self.seed, name, i, 'p')
            r += 0.4*math.sin(k*a + ph + r)
        return r

    def b(self, b):
        while b.atom is not None:
            b = b.hi if self.a(b.atom) else b.lo
        return b is TRUE

    def a(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'gt0':
            v = self.t(t.args[0])
            if isinstance(v, complex):
                v = v.real
            if v != v:
                raise Undef()
            r = v > 1e-13
        elif t.op == 'eq0':
            r = abs(self.t(t.args[0])) < 1e-11
        elif t.op == 'bsym':
            n = t.args[0]
            if n in self.env:
                return bool(self.env[n])
            if n in self.dom:
                d = self.dom[n]
                r = bool(d(self.draw(n)) if callable(d) else d)
            else:
                r = _u(self.seed, n) < 0.5
        else:
            r = _u(self.seed, t.args[0], *[
                x if isinstance(x, str) else
                (self.b(x) if isinstance(x, B) else self.key(x))
                for x in t.args[1]]) < 0.5
        self.memo[t.id] = r
        return r

    def key(self, x):
        v = self.t(x)
        if isinstance(v, complex):
            return '%.6g %.6g' % (v.real, v.imag)
        return '%.6g' % v

    def t(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._t(t)
        if isinstance(r, complex) and abs(r.imag) < 1e-300 and r.imag == 0:
            r = r.real
        if isinstance(r, float) and (r != r or abs(r) == float('inf')):
            raise Undef()
        self.memo[t.id] = r
        return r

    def _t(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            return int(v) if v.denominator == 1 else float(v)
        if op == 'sym':
            return self.symv(t)
        if op == 'lane':
            n = 'lane%d' % t.args[0]
            if n not in self.env:
                self.env[n] = (self.dom[n](self.draw(n)) if n in self.dom
                               else int(2 + 6*_u(self.seed, n)))
            return self.env[n]
        if op == 'add':
            s = self.num(t.args[0])
            for k, c in t.args[1]:
                s = s + self.num(c)*self.t(k)
            return s
        if op == 'mul':
            s = self.num(t.args[0])
            for k, e in t.args[1]:
                s = s * self.pw(self.t(k), e)
            return s
        if op == 'pow':
            return self.pw(self.t(t.args[0]), t.args[1])
        if op == 'ite':
            return self.t(t.args[1]) if self.b(t.args[0]) else \
                self.t(t.args[2])
        if op == 'load':
            a = t.args[0]
            idx = [self.t(i) for i in t.args[1]]
            if a.op == 'sym' and a.args[0] in self.defs:
                return self.defs[a.args[0]](self, *idx)
            nm = a.args[0] if a.op == 'sym' else 'arr' + self.key(a)
            return self.rfun('A:%s' % nm, idx)
        if op == 'sum':
            bv, body, n = t.args
            tot = 0
            old = self.env.get(bv.args[0])
            num = self.t(n)
            if isinstance(num, complex) or num != int(num) or num > 80:
                num = self.nsum
            dep = _dependent(t)
            saved = {k: self.memo.pop(k) for k in dep if k in self.memo}
            for i in range(max(0, int(num))):
                for k in dep:
                    self.memo.pop(k, None)
                self.env[bv.args[0]] = i
                tot = tot + self.t(body)
            for k in dep:
                self.memo.pop(k, None)
            self.memo.update(saved)
            self.env.pop(bv.args[0], None)
            if old is not None:
                self.env[bv.args[0]] = old
            return tot
        if op == 'fn':
            return self.fnv(t.args[0], t.args[1])
        if op == 'mu':
            return self.loop(t)
        raise Undef(op)

    def loop(self, t):
        bvs, cond, init, step = t.args
        cur = [self.t(x) for x in init]
        dep = _mudep(t)
        saved = {k: self.memo.pop(k) for k in dep if k in self.memo}
        names = [b.args[0] for b in bvs]
        old = {n: self.env[n] for n in names if n in self.env}
        try:
            for _ in range(400):
                for n, x in zip(names, cur):
                    self.env[n] = x
                for k in dep:
                    self.memo.pop(k, None)
                if not self.b(cond):
                    return tuple(cur)
                cur = [self.t(x) for x in step]
        finally:
            for k in dep:
                self.memo.pop(k, None)
            self.memo.update(saved)
            for n in names:
                self.env.pop(n, None)
            self.env.update(old)
        raise Undef('loop')

    @staticmethod
    def num(q):
        return int(q) if q.denominator == 1 else float(q)

    def pw(self, b, e):
        if e.denominator == 1:
            n = int(e)
            if n < 0 and b == 0:
                raise Undef()
            try:
                return b ** n
            except OverflowError:
                raise Undef()
        if isinstance(b, complex):
            return b ** float(e)
        if b < 0:
            if b > -1e-12:
                b = 0.
            else:
                return complex(b) ** float(e)
        if b == 0 and e < 0:
            raise Undef()
        return b ** float(e)

    def fnv(self, name, args):
        if name in self.defs:
            return self.defs[name](self, *[
                a if isinstance(a, str) else
                (self.b(a) if isinstance(a, B) else self.t(a)) for a in args])
        if name in ('argmin', 'argmax', 'amin', 'amax') and \
                len(args) == 2 and isinstance(args[0], Term):
            r = self.reduce(name, *args)
            if r is not None:
                return r
        if name in ('proj', 'int:proj'):
            return self.t(args[0])[int(self.t(args[1]))]
        if name in ('sel', 'int:sel'):
            k = self.t(args[0])
            if k != int(k) or not -len(args) < k < len(args) - 1:
                raise Undef('index')
            k = int(k)
            return self.t(args[1 + k if k >= 0 else len(args) + k])
        if name == 'int:argsort':
            k = int(self.t(args[0]))
            v = [self.t(a) for a in args[1:]]
            if any(isinstance(x, complex) for x in v):
                raise Undef()
            return sorted(range(len(v)), key=lambda i: v[i])[k]
        v = []
        for a in args:
            if isinstance(a, str):
                v.append(a)
            elif isinstance(a, B):
                v.append('T' if self.b(a) else 'F')
            else:
                v.append(self.t(a))
        try:
            cx = any(isinstance(x, complex) for x in v)
            m = cmath if cx else math
            if name == 'exp':
                return m.exp(v[0])
            if name == 'log':
                return cmath.log(v[0]) if cx or v[0] < 0 else (
                    math.log(v[0]) if v[0] != 0 else self._und())
            if name in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
                return getattr(m, name)(v[0])
            if name == 'arctan':
                return m.atan(v[0])
            if name == 'arctan2':
                return math.atan2(v[0], v[1])
            if name in ('arcsin', 'arccos'):
                return getattr(cmath, 'a' + name[3:])(v[0])
            if name == 'abs':
                return abs(v[0])
            if name == 'floor':
                return math.floor(v[0] + 1e-12)
            if name == 'ceil':
                return math.ceil(v[0] - 1e-12)
            if name == 'int':
                return int(v[0] + (1e-12 if v[0] >= 0 else -1e-12))
            if name == 'round':
                return round(v[0])
            if name == 'mod':
                return v[0] % v[1]
            if name == 'pow':
                return v[0] ** v[1]
            if name == 'real':
                return v[0].real if cx else v[0]
            if name == 'imag':
                return v[0].imag if cx else 0
            if name == 'conj':
                return v[0].conjugate() if cx else v[0]
            if name == 'angle':
                return cmath.phase(v[0])
            if name == 'sgn':
                return (v[0] > 0) - (v[0] < 0)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef()
        if name.startswith('int:'):
            return int(2 + 7*(self.rfun(name, v) % 1.0))
        return self.rfun(name, v)

    def reduce(self, name, body, n):
        """Reduction of a closed one-dimensional array."""
        num = self.t(n)
        if isinstance(num, complex) or num != int(num) or not 0 < num <= 512:
            return None
        save = (self.memo, self.env.get('\u03bb1'))
        v = []
        for i in range(int(num)):
            self.memo = {}
            self.env['\u03bb1'] = i
            v.append(self.t(body))
        self.memo = save[0]
        self.env.pop('\u03bb1', None)
        if save[1] is not None:
            self.env['\u03bb1'] = save[1]
        if any(isinstance(x, complex) for x in v):
            return None
        m = min(v) if 'min' in name else max(v)
        if name[:3] == 'arg':
            for i, x in enumerate(v):
                if abs(x - m) < 1e-11:
                    return i
        return m

    def _und(self):
        raise Undef()


class Cmp:
    """Result of an equality query."""

    def __init__(self, ok, how, witness=None):
        self.ok, self.how, self.witness = ok, how, witness

    def __bool__(self):
        return self.ok


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol*(1e-6 + abs(a) + abs(b))


def equal(a, b, assume=TRUE, domains=None, defs=None, n=60, seed=1,
          signed=True, cases=9, tol=1e-7, nf=True):
    """Decide a == b under `assume` (a guard)."""
    a, b = C(a), C(b)
    if a is b:
        return Cmp(True, 'value-number')
    if assume is FALSE:
        return Cmp(True, 'value-number')
    if assume is not TRUE:
        a2, b2 = simplify_under(a, assume), simplify_under(b, assume)
        if a2 is b2:
            return Cmp(True, 'value-number')
    else:
        a2, b2 = a, b
    if nf and _case_equal(sub(a2, b2), cases):
        return Cmp(True, 'normal-form')
    # interpretation
    hits = 0
    tried = 0
    while hits < n and tried < n*12:
        tried += 1
        v = Valuation('%s-%d' % (seed, tried), domains, defs, signed=signed)
        try:
            if not v.b(assume):
                continue
            va, vb = v.t(a), v.t(b)
        except (Undef, OverflowError, ZeroDivisionError):
            continue
        hits += 1
        if not close(va, vb, tol):
            # cancellation guard: both tiny relative to the parts
            if abs(va-vb) < 1e-9 * _mag(v, a, b):
                continue
            w = {k: v.env[k] for k in sorted(v.env)}
            return Cmp(False, 'witness', {'atoms': {k: _r(x) for k, x in
                                                    list(w.items())[:24]},
                                          'found': _r(va),
                                          'required': _r(vb)})
    return Cmp(True, 'interpretation' if hits else 'vacuous')


def _mag(v, a, b):
    m = 0.
    for t in (a, b):
        for x in subterms(t):
            if isinstance(x, Term) and x.id in v.memo and x.op in \
                    ('add', 'mul', 'pow', 'fn', 'load', 'sym'):
                y = v.memo[x.id]
                if isinstance(y, (int, float, complex)):
                    m = max(m, abs(y))
    return m * 1e-4


def _r(x):
    if isinstance(x, complex):
        return '%.6g%+.6gj' % (x.real, x.imag)
    if isinstance(x, (int, bool)):
        return x
    return float('%.6g' % x)


def simplify_under(t, g):
    """Cofactor t by the literals implied by guard g."""
    m = {}
    x = g
    # literals forced by g
    for a in batoms(g):
        if bimp(g, atom(a)):
            m[a] = TRUE
        elif bimp(g, bnot(atom(a))):
            m[a] = FALSE
    return subst(t, m) if m else t


def _case_equal(d, budget):
    """d == 0 in all guard cases, by normal form."""
    if is_const(d):
        return d.args[0] == 0
    ga = guard_atoms(d)
    if not ga:
        return nf_equal(d, ZERO) is True
    if budget <= 0 or len(ga) > 14:
        return False
    a = min(ga, key=lambda t: t.id)
    return _case_equal(cofactor(d, a, True), budget-1) and \
        _case_equal(cofactor(d, a, False), budget-1)


# ------------------------------------------------------------ printing

def show(t, depth=6):
    if isinstance(t, str):
        return repr(t)
    if isinstance(t, B):
        return showb(t)
    if depth <= 0:
        return '…'
    d = depth-1
    if t.op == 'const':
        v = t.args[0]
        return str(v) if v.denominator < 1000 else '%.6g' % float(v)
    if t.op in ('sym', 'bsym'):
        return t.args[0]
    if t.op == 'lane':
        return 'ℓ%d' % t.args[0]
    if t.op == 'add':
        s = ' + '.join([('%s*' % c if c != 1 else '') + show(k, d)
                        for k, c in t.args[1]])
        return '(%s%s)' % (s, ' + %s' % show(C(t.args[0])) if t.args[0] else '')
    if t.op == 'mul':
        s = '*'.join([show(k, d) + ('^%s' % e if e != 1 else '')
                      for k, e in t.args[1]])
        return s if t.args[0] == 1 else '%s*%s' % (show(C(t.args[0])), s)
    if t.op == 'pow':
        return '%s^%s' % (show(t.args[0], d), t.args[1])
    if t.op in ('fn', 'bfn'):
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1]))
    if t.op == 'ite':
        return '(%s ? %s : %s)' % (showb(t.args[0], d), show(t.args[1], d),
                                   show(t.args[2], d))
    if t.op == 'load':
        return '%s[%s]' % (show(t.args[0], d),
                           ', '.join(show(i, d) for i in t.args[1]))
    if t.op == 'gt0':
        return '%s > 0' % show(t.args[0], d)
    if t.op == 'eq0':
        return '%s == 0' % show(t.args[0], d)
    if t.op == 'mu':
        return 'loop(%s)' % ', '.join(b.args[0] for b in t.args[0][:3])
    if t.op == 'sum':
        return 'Σ_%s %s' % (t.args[0].args[0], show(t.args[1], d))
    return t.op


def showb(b, depth=4):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    if depth <= 0:
        return '…'
    a = show(b.atom, depth)
    if b.hi is TRUE and b.lo is FALSE:
        return a
    if b.hi is FALSE and b.lo is TRUE:
        return '!(%s)' % a
    if b.lo is FALSE:
        return '%s && %s' % (a, showb(b.hi, depth-1))
    if b.hi is TRUE:
        return '%s || %s' % (a, showb(b.lo, depth-1))
    if b.hi is FALSE:
        return '!(%s) && %s' % (a, showb(b.lo, depth-1))
    return '(%s ? %s : %s)' % (a, showb(b.hi, depth-1), showb(b.lo, depth-1))
