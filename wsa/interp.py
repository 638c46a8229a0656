"""Flow-sensitive, interprocedural abstract interpreter over the Python AST.

The analysed program is never imported or run.  Each function is analysed on
its syntax tree; both sides of every branch are analysed and their states are
joined (gated phi values); loops whose trip count is not a literal are
analysed once on a state where everything the body can change is havocked,
until the set of changed locations is stable.  Calls to functions of the
repository are analysed in the caller's state (context sensitive); calls to
external functions are value-numbered opaque terms or table-driven models
(models.py).
"""
import ast
import os
import builtins
from fractions import Fraction

from . import terms as T
from .terms import Term, B, TRUE, FALSE, C, lane


class AnalysisError(Exception):
    """The analyser cannot proceed (anchor vanished, construct unknown)."""


class Dead(Exception):
    """The current state is unreachable (always raised)."""


# ---------------------------------------------------------------- values

class UndefT:
    def __repr__(self):
        return 'UNDEF'


UNDEF = UndefT()


class Val:
    pass


class TupleV(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'T%r' % (self.items,)


class Ref(Val):
    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __hash__(self):
        return hash((type(self).__name__, self.id))

    def __repr__(self):
        return '%s#%d' % (type(self).__name__, self.id)


class ObjV(Ref):
    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return '%s#%d' % (self.cls.name, self.id)


class ListV(Ref):
    pass


class DictV(Ref):
    pass


class ArrV(Ref):
    def __init__(self, id, view=None):
        self.id, self.view = id, view

    def __eq__(self, o):
        return isinstance(o, ArrV) and o.id == self.id and o.view == self.view

    def __hash__(self):
        return hash(('arr', self.id))


class FuncV(Val):
    def __init__(self, node, mod, env, cls, name, defaults, kwdefaults,
                 flags=None):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls
        self.name = name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.flags = flags or {}

    @property
    def qual(self):
        return '%s:%s' % (self.mod.path,
                          (self.cls.name + '.' if self.cls else '') +
                          self.name)

    def with_flags(self, **kw):
        return FuncV(self.node, self.mod, self.env, self.cls, self.name,
                     self.defaults, self.kwdefaults, dict(self.flags, **kw))

    def same(self, o):
        return isinstance(o, FuncV) and o.node is self.node and \
            o.env == self.env

    def __repr__(self):
        return 'func ' + self.qual


class BoundV(Val):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and \
            o.self_ == self.self_

    def __hash__(self):
        return hash(id(self.func))


class PropV(Val):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class WrapV(Val):
    """staticmethod / classmethod."""

    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class ClassV(Val):
    def __init__(self, name, node, mod, bases, cell):
        self.name, self.node, self.mod = name, node, mod
        self.bases, self.cell = bases, cell

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases
                if isinstance(b, (ExtV, BuiltinV))]

    def __repr__(self):
        return 'class ' + self.name


class ModV(Val):
    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return 'mod ' + self.mod.name


class ExtV(Val):
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return 'ext ' + self.path


class BuiltinV(Val):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'builtin ' + self.name


class NativeV(Val):
    """Callable given by a check: fn(interp, st, args, kwargs, node)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'native ' + self.name


class MethV(Val):
    """Method of a built-in container / opaque / array value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class TreeV(Val):
    """Node of an external object tree (file, openPMD series).

    Everything written to the tree is kept in one cell, by path: items are
    path components, '.name' an attribute, '()name' a method call.
    """

    def __init__(self, cell, path=(), kids=(), read=None):
        self.cell, self.path, self.kids, self.read = cell, path, kids, read

    def __repr__(self):
        return 'tree/' + '/'.join(map(str, self.path))

    def to(self, k):
        return TreeV(self.cell, self.path + (k,), self.kids, self.read)


def tkey(i):
    if isinstance(i, str):
        return i
    if isinstance(i, Term):
        s = T.show(i)
        return s.rsplit('.', 1)[1] if s.startswith('ext:') else s
    return repr(i)


class SuperV(Val):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class MaskV(Val):
    """Indices where a small mask holds (np.where, np.nonzero)."""

    def __init__(self, items):
        self.items = tuple(items)

    def count(self):
        return T.add(T.ZERO, *[T.b2t(b) for b in self.items])


class SliceV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(Val):
    def __init__(self, lo, hi, step, par=False):
        self.lo, self.hi, self.step, self.par = lo, hi, step, par


class LazyIter(Val):
    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class ExcV(Val):
    def __init__(self, name, args, cls=None):
        self.name, self.args, self.cls = name, args, cls

    def __repr__(self):
        return 'exc %s' % self.name


class IteV(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IteV(%s, %r, %r)' % (T.showb(self.c), self.a, self.b)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, ExtV, BuiltinV, BoundV)):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        return len(a.items) == len(b.items) and \
            all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, FuncV):
        return a.same(b)
    if isinstance(a, ModV) and isinstance(b, ModV):
        return a.mod is b.mod
    if isinstance(a, TreeV) and isinstance(b, TreeV):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, MethV) and isinstance(b, MethV):
        return a.name == b.name and same(a.recv, b.recv)
    if isinstance(a, IteV) and isinstance(b, IteV):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return same(a.lo, b.lo) and same(a.hi, b.hi) and same(a.step, b.step)
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        return same(a.lo, b.lo) and same(a.hi, b.hi) and same(a.step, b.step)
    if isinstance(a, bytes):
        return a == b
    return False


def numeric(v):
    return isinstance(v, (Term, B))


def to_num(v):
    if isinstance(v, B):
        return T.b2t(v)
    return v


def merge_val(c, a, b):
    if c is TRUE or same(a, b):
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b if not isinstance(b, IteV) else b
    if b is UNDEF:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return T.bite(c, a, b)
    if numeric(a) and numeric(b):
        return T.ite(c, to_num(a), to_num(b))
    if isinstance(a, TupleV) and isinstance(b, TupleV) and \
            len(a.items) == len(b.items):
        return TupleV([merge_val(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, IteV) and a.c is c:
        a = a.a
    if isinstance(b, IteV) and b.c is c:
        b = b.b
    if same(a, b):
        return a
    # fold  c ? v : (d ? v : w)
    if isinstance(b, IteV) and same(a, b.a):
        return merge_val(T.bor(c, b.c), a, b.b)
    if isinstance(b, IteV) and same(a, b.b):
        return merge_val(T.band(T.bnot(c), b.c), b.a, a)
    if isinstance(a, IteV) and same(b, a.b):
        return merge_val(T.band(c, a.c), a.a, b)
    if isinstance(a, IteV) and same(b, a.a):
        return merge_val(T.band(c, T.bnot(a.c)), a.b, b)
    return IteV(c, a, b)


def leaves(v):
    if isinstance(v, IteV):
        return leaves(v.a) + leaves(v.b)
    return [v]


class DictP(dict):
    pass


def merge_payload(c, p, q):
    if p is q:
        return p
    k = p[0]
    if k == q[0]:
        if k in ('obj', 'env', 'dict'):
            d1, d2 = p[-1], q[-1]
            d = {}
            for key in list(d1) + [x for x in d2 if x not in d1]:
                a, b = d1.get(key, UNDEF), d2.get(key, UNDEF)
                if a is b:
                    d[key] = a
                elif k == 'dict' and (a is UNDEF or b is UNDEF):
                    d[key] = IteV(c, a, b)
                else:
                    d[key] = merge_val(c, a, b)
            return p[:-1] + (d,)
        if k == 'lane':
            sh = p[1]
            if len(p[1]) == len(q[1]):
                sh = tuple(T.ite(c, a, b) for a, b in zip(p[1], q[1]))
                return ('lane', sh, T.ite(c, p[2], q[2]))
        if k in ('list', 'stk') and len(p[1]) == len(q[1]):
            return (k, tuple(merge_val(c, a, b)
                             for a, b in zip(p[1], q[1]))) + p[2:]
        if k == 'slist' and p[1:] == q[1:]:
            return p
        if k == 'phi' and p[1] is q[1]:
            return ('phi', p[1], merge_payload(c, p[2], q[2]),
                    merge_payload(c, p[3], q[3]))
    return ('phi', c, p, q)


class State:
    __slots__ = ('heap', 'pc', 'env', 'facts')

    def __init__(self, heap, pc, env, facts=()):
        self.heap, self.pc, self.env, self.facts = heap, pc, env, facts

    def fork(self, c):
        pc = T.band(self.pc, c)
        if pc is FALSE:
            return None
        return State(dict(self.heap), pc, self.env, self.facts)

    def clone(self):
        return State(dict(self.heap), self.pc, self.env, self.facts)

    def become(self, o):
        self.heap, self.pc, self.env = o.heap, o.pc, o.env
        self.facts = o.facts


def join2(a, b):
    if a is None:
        return b
    if b is None:
        return a
    pc = T.bor(a.pc, b.pc)
    c = T.restrict(a.pc, pc)
    heap = {}
    ha, hb = a.heap, b.heap
    for k, p in ha.items():
        q = hb.get(k)
        if q is None or q is p:
            heap[k] = p
        else:
            heap[k] = merge_payload(c, p, q)
    for k, q in hb.items():
        if k not in ha:
            heap[k] = q
    facts = a.facts if len(a.facts) <= len(b.facts) else b.facts
    return State(heap, pc, a.env, facts)


def join(sts):
    r = None
    for s in sts:
        r = join2(r, s)
    return r


class Out:
    def __init__(self):
        self.ret, self.brk, self.cont = [], [], []


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None
        self.loaded = False


class Event:
    __slots__ = ('kind', 'd', 'pc', 'func', 'node', 'loops', 'seq', 'path',
                 'facts', 'stack')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.path, getattr(self.node, 'lineno', 0),
                               self.func)

    def __repr__(self):
        return 'Ev(%s %s @%s if %s)' % (self.kind, self.d, self.where,
                                        T.showb(self.pc))


class LoopInfo:
    pass


BUILTINS = set(dir(builtins))


class Program:
    """All modules of the package, parsed."""

    def __init__(self, root, pkg='wake_t'):
        self.root, self.pkg = root, pkg
        self.mods = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError('package %s not found' % base)
        for dp, dn, fs in os.walk(base):
            dn.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (rel, e))
                    self.mods[name] = Module(name, rel, tree, src)


def counting(s):
    """(name, op, bound, step, body) of a while loop that counts, or None.

    The counter is stepped by a constant once per iteration, on every path,
    and the bound does not change in the loop.
    """
    flip = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE',
            'NotEq': 'NotEq'}
    neg = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt', 'Eq': 'NotEq'}
    test, body, inv = s.test, list(s.body), False
    if isinstance(test, ast.Constant) and test.value and body and \
            isinstance(body[0], ast.If) and not body[0].orelse and \
            len(body[0].body) == 1 and \
            isinstance(body[0].body[0], ast.Break) and not s.orelse:
        test, body, inv = body[0].test, body[1:], True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, inv = test.operand, not inv
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    op = type(test.ops[0]).__name__
    if inv:
        op = neg.get(op)
    if op not in flip:
        return None
    stored, callees, attrs = {}, [], False
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stored[x.id] = stored.get(x.id, 0) + 1
            elif isinstance(x, ast.Attribute) and \
                    not isinstance(x.ctx, ast.Load):
                attrs = True
            elif isinstance(x, ast.Call):
                callees.append(x)
            elif isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal,
                                ast.NamedExpr, ast.Continue, ast.Lambda,
                                ast.Return)):
                return None
    if own_break(body):
        return None
    for a, b, o in ((test.left, test.comparators[0], op),
                    (test.comparators[0], test.left, flip[op])):
        if not isinstance(a, ast.Name) or stored.get(a.id) != 1:
            continue
        step = None
        for x in body:
            if isinstance(x, ast.AugAssign) and \
                    isinstance(x.target, ast.Name) and x.target.id == a.id \
                    and isinstance(x.op, (ast.Add, ast.Sub)):
                step = literal_int(x.value)
                if step is not None and isinstance(x.op, ast.Sub):
                    step = -step
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and \
                    x.targets[0].id == a.id and \
                    isinstance(x.value, ast.BinOp) and \
                    isinstance(x.value.op, (ast.Add, ast.Sub)):
                v = x.value
                if isinstance(v.left, ast.Name) and v.left.id == a.id:
                    step = literal_int(v.right)
                    if step is not None and isinstance(v.op, ast.Sub):
                        step = -step
                elif isinstance(v.right, ast.Name) and v.right.id == a.id \
                        and isinstance(v.op, ast.Add):
                    step = literal_int(v.left)
        if not step:
            continue
        if o == 'NotEq':
            if abs(step) != 1:
                continue
            o = 'Lt' if step > 0 else 'Gt'
        if (step > 0) != (o in ('Lt', 'LtE')):
            continue
        ok = True
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id in stored:
                ok = False
            elif isinstance(x, ast.Attribute) and x.attr != 'shape' and (
                    attrs or callees):
                ok = False
            elif isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name) and x.func.id == 'len'):
                ok = False
            elif isinstance(x, ast.Subscript) and not (
                    isinstance(x.value, ast.Attribute) and
                    x.value.attr == 'shape'):
                ok = False
        if ok:
            return a.id, o, b, step, body
    return None


def literal_int(x):
    sign = 1
    while isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
        sign, x = -sign, x.operand
    if isinstance(x, ast.Constant) and type(x.value) is int:
        return sign * x.value
    return None


def own_break(body):
    for b in body:
        if isinstance(b, ast.Break):
            return True
        if isinstance(b, (ast.For, ast.While)):
            if own_break(b.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if own_break(getattr(b, f, [])):
                return True
        for h in getattr(b, 'handlers', []):
            if own_break(h.body):
                return True
        for c in getattr(b, 'cases', []):
            if own_break(c.body):
                return True
    return False


class Interp:
    MAXDEPTH = 60
    UNROLL = 64

    def __init__(self, prog, overrides=None, ext_may_raise=None,
                 opaque=None):
        self.prog = prog
        self.ncell = 0
        self.nsym = 0
        self.log = []
        self.logging = True
        self.sinks = [[]]
        self.loops = []
        self.loopstack = []
        self.frames = []
        self.recv = []
        self.overrides = overrides or {}   # qual -> fn(interp, st, args, kw)
        self.opaque_funcs = opaque or set()
        self.ext_may_raise = ext_may_raise
        self.unknown = []                  # constructs met and not modelled
        self.called = {}
        self.inlined = set()
        self.finite = False                # small grids: exact loop nodes
        self.columns = set()                 # copies standing for views
        self.masked = {}                     # compressed arrays -> mask
        self.modstate = State({}, TRUE, None)
        from . import models
        self.models = models
        for m in prog.mods.values():
            m.env = None
            m.loaded = False
        for m in list(prog.mods.values()):
            self.load(m)
        self.log = []
        self.loops = []

    # ------------------------------------------------------------ cells

    def new(self, st, payload):
        self.ncell += 1
        st.heap[self.ncell] = payload
        return self.ncell

    def fresh(self, base):
        self.nsym += 1
        return '%s~%d' % (base, self.nsym)

    def list_(self, st, items):
        return ListV(self.new(st, ('list', tuple(items))))

    def dict_(self, st, d=None):
        return DictV(self.new(st, ('dict', dict(d or {}))))

    def arr(self, st, shape, content):
        if self.finite and all(T.is_const(C(n)) and T.cval(C(n)) <= 12
                               for n in shape):
            return self.spread(st, [int(T.cval(C(n))) for n in shape],
                               C(content))
        return ArrV(self.new(st, ('lane', tuple(C(s) for s in shape),
                                  C(content))))

    def spread(self, st, dims, c):
        """Element by element form of a small array."""
        if not dims:
            return c
        k = lane(len(dims))
        return self.stk(st, [self.spread(st, dims[1:], T.subst(
            c, {k: C(i)})) for i in range(dims[0])])

    def cells(self, st, o):
        """Indices into the small array of which o is a slice."""
        p = st.heap[o.id]
        if o.view is None or p[0] != 'stk' or len(o.view[1]) != 1 or \
                any(isinstance(x, ArrV) for x in p[1]):
            return None
        sp = o.view[1][0]
        if sp[0] != 'l' or not all(T.is_const(x) for x in (
                sp[2], sp[3], o.view[0][0])):
            return None
        lo, d, n = (int(T.cval(x)) for x in (sp[2], sp[3], o.view[0][0]))
        ks = [lo + d*i for i in range(max(n, 0))]
        return ks if all(0 <= k < len(p[1]) for k in ks) else None

    def stk(self, st, items):
        return ArrV(self.new(st, ('stk', tuple(items))))

    def symarr(self, st, name, shape, kind='real'):
        shape = tuple(C(s) for s in shape)
        r = len(shape)
        return self.arr(st, shape, T.load(
            T.sym(name, kind), *[lane(r - i) for i in range(r)]))

    def obj(self, st, cls, attrs=None):
        return ObjV(self.new(st, ('obj', cls, dict(attrs or {}))), cls)

    def ev_log(self, st, kind, node, **d):
        fr = self.frames[-1] if self.frames else None
        self.log.append(Event(
            kind=kind, d=d, pc=st.pc, func=fr.name if fr else '<module>',
            path=fr.mod.path if fr else '?', node=node,
            loops=tuple(self.loopstack), seq=len(self.log), facts=st.facts,
            stack=tuple(f.name for f in self.frames)))

    def note(self, what, node=None):
        fr = self.frames[-1] if self.frames else None
        self.unknown.append('%s at %s:%s' % (
            what, fr.mod.path if fr else '?', getattr(node, 'lineno', '?')))

    # ------------------------------------------------------------ modules

    def load(self, m):
        if m.loaded:
            return
        m.loaded = True
        m.env = self.new(self.modstate, ('env', None, {
            '__name__': m.name, '__file__': m.path}))
        st = self.modstate
        saved = st.env
        st.env = m.env
        f = FuncV(None, m, None, None, '<module>', [], {})
        self.frames.append(f)
        out = Out()
        r = st
        for s in m.tree.body:
            try:
                r2 = self.exec_stmt(r, s, out)
            except AnalysisError as e:
                self.note('module-level: %s' % e, s)
                r2 = r
            if r2 is None:
                break
            r = r2
        self.frames.pop()
        r.env = saved
        r.pc = TRUE
        self.modstate = r

    def start(self):
        """Fresh state with all modules loaded."""
        s = self.modstate.clone()
        s.pc = TRUE
        s.env = self.new(s, ('env', None, {}))
        self.log = []
        self.loops = []
        self.sinks = [[]]
        return s

    def lookup(self, dotted, st=None):
        """'wake_t.mod:Name.attr' or public 'wake_t:Name' -> value."""
        st = st or self.modstate
        modname, name = dotted.split(':')
        m = self.prog.mods.get(modname)
        if m is None:
            raise AnalysisError('anchor vanished: module %s' % modname)
        parts = name.split('.')
        v = st.heap[m.env][-1].get(parts[0], UNDEF)
        if v is UNDEF:
            raise AnalysisError('anchor vanished: %s in %s' %
                                (parts[0], modname))
        for p in parts[1:]:
            if isinstance(v, ClassV):
                w = self.class_attr(st, v, p)
                if w is None:
                    raise AnalysisError('anchor vanished: %s' % dotted)
                v = w
            else:
                raise AnalysisError('anchor vanished: %s' % dotted)
        return v

    def class_attr(self, st, cls, name):
        for c in cls.mro():
            d = st.heap[c.cell][-1]
            if name in d:
                return d[name]
        return None

    # ------------------------------------------------------------ names

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.frames:
            c = self.frames[-1].cls
            if c is not None:
                return '_%s%s' % (c.name.lstrip('_'), name)
        return name

    def getname(self, st, name, node):
        e = st.env
        while e is not None:
            p = st.heap[e]
            if name in p[2]:
                v = p[2][name]
                if v is not UNDEF:
                    return v
            e = p[1]
        fr = self.frames[-1]
        p = st.heap[fr.mod.env]
        if name in p[2]:
            return p[2][name]
        if name in ('True', 'False'):
            return TRUE if name == 'True' else FALSE
        if name in BUILTINS:
            return BuiltinV(name)
        self.note('name %s' % name, node)
        return T.sym('undefined:' + name, 'any')

    def setname(self, st, name, v):
        p = st.heap[st.env]
        tgt = st.env
        nl = p[2].get('#nonlocal')
        if nl and name in nl:
            e = p[1]
            while e is not None:
                if name in st.heap[e][2]:
                    tgt = e
                    break
                e = st.heap[e][1]
        gl = p[2].get('#global')
        if gl and name in gl:
            tgt = self.frames[-1].mod.env
        p = st.heap[tgt]
        d = dict(p[2])
        d[name] = v
        st.heap[tgt] = ('env', p[1], d)

    # ------------------------------------------------------------ splitting

    def split(self, st, c, f, spec=None):
        """Evaluate f in both cases of c and join."""
        s1, s2 = st.fork(c), st.fork(T.bnot(c))
        if s1 is not None and spec:
            s1.heap[spec[0]] = spec[1]
        if s2 is not None and spec:
            s2.heap[spec[0]] = spec[2]
        v1 = v2 = UNDEF
        if s1 is not None:
            try:
                v1 = f(s1, True)
            except Dead:
                s1 = None
        if s2 is not None:
            try:
                v2 = f(s2, False)
            except Dead:
                s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            st.become(s2)
            return v2
        if s2 is None:
            st.become(s1)
            return v1
        cc = T.restrict(s1.pc, T.bor(s1.pc, s2.pc))
        st.become(join2(s1, s2))
        return merge_val(cc, v1, v2)

    def lift(self, st, vals, f):
        """Call f(st, vals) with every IteV argument resolved by cases."""
        for i, v in enumerate(vals):
            if isinstance(v, IteV):
                if v.a is UNDEF or T.bimp(st.pc, T.bnot(v.c)):
                    return self.lift(st, vals[:i] + [v.b] + vals[i+1:], f)
                if v.b is UNDEF or T.bimp(st.pc, v.c):
                    return self.lift(st, vals[:i] + [v.a] + vals[i+1:], f)
                return self.split(
                    st, v.c, lambda s, h: self.lift(
                        s, vals[:i] + [v.a if h else v.b] + vals[i+1:], f))
        return f(st, vals)

    def payload(self, st, ref, f):
        """f(st, payload) with phi payloads resolved by cases."""
        p = st.heap.get(ref.id)
        if p is None:
            raise AnalysisError('dangling cell')
        if p[0] == 'phi':
            return self.split(st, p[1], lambda s, h: self.payload(s, ref, f),
                              spec=(ref.id, p[2], p[3]))
        return f(st, p)

    # ------------------------------------------------------------ statements

    def exec_block(self, st, stmts, out):
        for s in stmts:
            st = self.exec_stmt(st, s, out)
            if st is None:
                return None
        return st

    def exec_stmt(self, st, s, out):
        try:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.note('statement ' + type(s).__name__, s)
                return st
            return m(st, s, out)
        except Dead:
            return None

    def x_Expr(self, st, s, out):
        if not isinstance(s.value, ast.Constant):
            self.ev(st, s.value)
        return st

    def x_Pass(self, st, s, out):
        return st

    def x_Assign(self, st, s, out):
        v = self.ev(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)
        return st

    def x_AnnAssign(self, st, s, out):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))
        return st

    def x_AugAssign(self, st, s, out):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(st, ast.copy_location(
                ast.Name(t.id, ast.Load()), t))
            rhs = self.ev(st, s.value)
            new = self.aug(st, op, old, rhs, s)
            self.assign(st, t, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value)
            old = self.getattr(st, o, self.mangle(t.attr), t)
            rhs = self.ev(st, s.value)
            new = self.aug(st, op, old, rhs, s)
            self.setattr(st, o, self.mangle(t.attr), new, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value)
            i = self.ev_index(st, t.slice)
            m = self.mask_of(st, i) if self.is_stk(st, o) else None
            if m is not None and len(m) == len(st.heap[o.id][1]):
                rhs = self.ev(st, s.value)
                if isinstance(rhs, (Term, B)):
                    its = []
                    for g, x in zip(m, st.heap[o.id][1]):
                        y = self.binop(st, op, x, rhs, s)
                        its.append(merge_val(g, y, x))
                    self.ev_log(st, 'store', s, arr=o, idx=[i], value=rhs)
                    st.heap[o.id] = ('stk', tuple(its))
                    return st
            old = self.getitem(st, o, i, t)
            rhs = self.ev(st, s.value)
            fancy = i.items if isinstance(i, TupleV) else [i]
            if isinstance(o, ArrV) and any(isinstance(x, (
                    ArrV, ListV, MaskV)) for x in fancy):
                # a fancy index gives a copy
                self.setitem(st, o, i, self.binop(st, op, old, rhs, s), t)
                return st
            if isinstance(old, ArrV) and old.id in self.columns:
                self.setitem(st, o, i, self.binop(st, op, old, rhs, s), t)
                return st
            # in-place on views returned by getitem is a store to the base
            if isinstance(old, ArrV):
                self.aug(st, op, old, rhs, s)
                return st
            new = self.binop(st, op, old, rhs, s)
            self.setitem(st, o, i, new, t)
        return st

    def aug(self, st, op, old, rhs, node):
        def f(st, vs):
            old, rhs = vs
            if isinstance(old, ArrV):
                new = self.binop(st, op, old, rhs, node)
                self.store_all(st, old, new, node)
                return old
            if isinstance(old, ListV) and op == 'Add':
                self.list_extend(st, old, rhs, node)
                return old
            return self.binop(st, op, old, rhs, node)
        return self.lift(st, [old, rhs], f)

    def x_Delete(self, st, s, out):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(st, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.ev(st, t.value)
                i = self.ev_index(st, t.slice)
                if isinstance(o, DictV) and isinstance(i, str):
                    p = st.heap[o.id]
                    d = dict(p[-1])
                    d.pop(i, None)
                    st.heap[o.id] = ('dict', d)
                else:
                    self.ev_log(st, 'delitem', s, obj=o, idx=i)
        return st

    def x_Global(self, st, s, out):
        p = st.heap[st.env]
        d = dict(p[2])
        d['#global'] = tuple(d.get('#global', ())) + tuple(s.names)
        st.heap[st.env] = ('env', p[1], d)
        return st

    def x_Nonlocal(self, st, s, out):
        p = st.heap[st.env]
        d = dict(p[2])
        d['#nonlocal'] = tuple(d.get('#nonlocal', ())) + tuple(s.names)
        st.heap[st.env] = ('env', p[1], d)
        return st

    def x_Import(self, st, s, out):
        for a in s.names:
            if a.asname:
                self.setname(st, a.asname, self.import_(st, a.name))
            else:
                top = a.name.split('.')[0]
                self.import_(st, a.name)
                self.setname(st, top, self.import_(st, top))
        return st

    def import_(self, st, name):
        m = self.prog.mods.get(name)
        if m is not None:
            if not m.loaded:
                # load in module state context; module-level only
                save = self.modstate
                self.modstate = st
                env = st.env
                self.load(m)
                self.modstate.env = env
                st.become(self.modstate)
                if save is not st:
                    self.modstate = save
                else:
                    self.modstate = st
            return ModV(m)
        return ExtV(name)

    def x_ImportFrom(self, st, s, out):
        base = s.module or ''
        if s.level:
            cur = self.frames[-1].mod
            parts = cur.name.split('.')
            if not cur.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        if base == '__future__':
            return st
        m = self.import_(st, base)
        for a in s.names:
            nm = a.asname or a.name
            if isinstance(m, ModV):
                if a.name == '*':
                    for k, v in st.heap[m.mod.env][2].items():
                        if not k.startswith('_'):
                            self.setname(st, k, v)
                    continue
                v = st.heap[m.mod.env][2].get(a.name, UNDEF)
                if v is UNDEF:
                    sub = base + '.' + a.name
                    if sub in self.prog.mods:
                        v = self.import_(st, sub)
                    else:
                        self.note('import %s.%s' % (base, a.name), s)
                        v = T.sym('undefined:%s' % a.name, 'any')
            else:
                v = self.extattr(m.path, a.name)
            self.setname(st, nm, v)
        return st

    def extattr(self, path, name):
        p = path + '.' + name
        if p == 'numpy.newaxis':
            return None
        v = self.models.CONSTS.get(p)
        if v is not None:
            return v
        return ExtV(p)

    def x_FunctionDef(self, st, s, out):
        v = self.mkfunc(st, s)
        for d in reversed(s.decorator_list):
            dv = self.ev(st, d)
            v = self.call(st, dv, [v], {}, d)
        self.setname(st, s.name, v)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def mkfunc(self, st, s, name=None):
        a = s.args
        defaults = [self.ev(st, d) for d in a.defaults]
        kwd = {x.arg: self.ev(st, d) for x, d in
               zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        env = st.env if st.heap[st.env][0] == 'env' and \
            st.env != fr.mod.env and not self.in_class else None
        cls = getattr(self, 'cur_class', None) if self.in_class else fr.cls
        return FuncV(s, fr.mod, env, cls, name or s.name, defaults, kwd)

    in_class = False
    cur_class = None

    def x_ClassDef(self, st, s, out):
        bases = [self.ev(st, b) for b in s.bases]
        fr = self.frames[-1]
        cell = self.new(st, ('obj', None, {}))
        cls = ClassV(s.name, s, fr.mod, bases, cell)
        cenv = self.new(st, ('env', st.env if st.env != fr.mod.env else None,
                             {}))
        save = (st.env, self.in_class, self.cur_class)
        st.env = cenv
        self.in_class, self.cur_class = True, cls
        o2 = Out()
        r = self.exec_block(st, s.body, o2)
        env = save[0]
        _, self.in_class, self.cur_class = save
        pre = '_' + s.name.lstrip('_')
        d = {(pre + k if k.startswith('__') and not k.endswith('__') else k):
             v for k, v in r.heap[cenv][2].items()}
        r.heap[cell] = ('obj', None, d)
        r.env = env
        v = cls
        for dec in reversed(s.decorator_list):
            dv = self.ev(r, dec)
            if isinstance(dv, ExtV) and 'dataclass' in dv.path:
                cls.dataclass = True
                continue
        self.setname(r, s.name, v)
        if r is not st:
            st.become(r)
        return st

    def x_Return(self, st, s, out):
        v = self.ev(st, s.value) if s.value is not None else None
        out.ret.append((st, v))
        return None

    def x_Raise(self, st, s, out):
        if s.exc is None:
            v = self.getcurexc(st)
        else:
            v = self.ev(st, s.exc)
            if isinstance(v, (BuiltinV, ClassV, ExtV)):
                v = self.call(st, v, [], {}, s)
        self.ev_log(st, 'raise', s, exc=v)
        self.sinks[-1].append((st, v, s))
        return None

    curexc = None

    def getcurexc(self, st):
        return self.curexc or ExcV('Exception', ())

    def x_Assert(self, st, s, out):
        c = self.truth(st, self.ev(st, s.test), s)
        bad = st.fork(T.bnot(c))
        if bad is not None:
            self.ev_log(bad, 'raise', s, exc=ExcV('AssertionError', ()))
            self.sinks[-1].append((bad, ExcV('AssertionError', ()), s))
        ok = st.fork(c)
        return ok

    def x_If(self, st, s, out):
        c = self.truth(st, self.ev(st, s.test), s)
        s1, s2 = st.fork(c), st.fork(T.bnot(c))
        r1 = self.exec_block(s1, s.body, out) if s1 is not None else None
        r2 = self.exec_block(s2, s.orelse, out) if s2 is not None else None
        return join2(r1, r2)

    def x_Break(self, st, s, out):
        out.brk.append(st)
        return None

    def x_Continue(self, st, s, out):
        out.cont.append(st)
        return None

    def x_Try(self, st, s, out):
        sink = []
        self.sinks.append(sink)
        o2 = Out()
        env = st.env
        r = self.exec_block(st, s.body, o2)
        if r is not None and s.orelse:
            # orelse exceptions are not handled by this try
            self.sinks.pop()
            s2 = []
            self.sinks.append(s2)
            r = self.exec_block(r, s.orelse, o2)
            self.sinks.pop()
            self.sinks.append(sink)
            escaped = s2
        else:
            escaped = []
        self.sinks.pop()
        hsink = list(escaped)
        norm = [r]
        for (rs, exc, node) in sink + escaped:
            rs.env = env
        for (rs, exc, node) in sink:
            cur = rs
            for h in s.handlers:
                if cur is None:
                    break
                m = self.exc_match(cur, exc, h)
                if m is FALSE:
                    continue
                hs = cur.fork(m) if m is not TRUE else cur
                nxt = cur.fork(T.bnot(m)) if m is not TRUE else None
                if hs is not None:
                    if h.name:
                        self.setname(hs, h.name, exc)
                    save = self.curexc
                    self.curexc = exc
                    self.sinks.append([])
                    hr = self.exec_block(hs, h.body, o2)
                    hsink += self.sinks.pop()
                    self.curexc = save
                    norm.append(hr)
                cur = nxt
            if cur is not None:
                hsink.append((cur, exc, node))
        r = join([x for x in norm if x is not None])
        if s.finalbody:
            fr = None
            if r is not None:
                fr = self.exec_block(r, s.finalbody, out)
            for lst, kind in ((o2.ret, 'ret'),):
                for (rs, v) in lst:
                    x = self.exec_block(rs, s.finalbody, out)
                    if x is not None:
                        out.ret.append((x, v))
            for lst, dst in ((o2.brk, out.brk), (o2.cont, out.cont)):
                for rs in lst:
                    x = self.exec_block(rs, s.finalbody, out)
                    if x is not None:
                        dst.append(x)
            for (rs, exc, node) in hsink:
                x = self.exec_block(rs, s.finalbody, out)
                if x is not None:
                    self.sinks[-1].append((x, exc, node))
            return fr
        out.ret += o2.ret
        out.brk += o2.brk
        out.cont += o2.cont
        self.sinks[-1] += hsink
        return r

    def exc_match(self, st, exc, h):
        if h.type is None:
            return TRUE
        hv = self.ev(st, h.type)
        hs = hv.items if isinstance(hv, TupleV) else [hv]
        res = FALSE
        for x in hs:
            if isinstance(x, BuiltinV):
                if x.name == 'BaseException' or x.name == 'Exception' and \
                        not (isinstance(exc, ExcV) and exc.name in (
                            'KeyboardInterrupt', 'SystemExit',
                            'GeneratorExit')):
                    res = TRUE
                    continue
                if isinstance(exc, ExcV):
                    a = getattr(builtins, exc.name, None)
                    b = getattr(builtins, x.name, None)
                    if a and b and isinstance(a, type) and issubclass(a, b):
                        res = TRUE
                        continue
                    if a and b:
                        continue
                res = T.bor(res, T.boolsym(self.fresh('excmatch')))
            else:
                res = T.bor(res, T.boolsym(self.fresh('excmatch')))
        return res

    def x_With(self, st, s, out):
        return self.with_items(st, s, list(s.items), out)

    def with_items(self, st, s, items, out):
        if not items:
            return self.exec_block(st, s.body, out)
        it = items[0]
        v = self.ev(st, it.context_expr)
        if isinstance(v, CtxGenV):
            return self.with_gen(st, s, v, it, items, out)
        bound = v
        exitf = None
        if isinstance(v, ObjV):
            en = self.getattr(st, v, '__enter__', it)
            bound = self.call(st, en, [], {}, s)
            exitf = True
        else:
            self.ev_log(st, 'enter', s, obj=v)
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, bound)
        sink = []
        self.sinks.append(sink)
        o2 = Out()
        r = self.with_items(st, s, items[1:], o2)
        self.sinks.pop()

        def leave(x):
            try:
                if exitf:
                    ex = self.getattr(x, v, '__exit__', it)
                    self.call(x, ex, [None, None, None], {}, s)
                else:
                    self.ev_log(x, 'exit', s, obj=v)
                return x
            except Dead:
                return None
        if r is not None:
            r = leave(r)
        for rs, val in o2.ret:
            x = leave(rs)
            if x is not None:
                out.ret.append((x, val))
        for lst, dst in ((o2.brk, out.brk), (o2.cont, out.cont)):
            for rs in lst:
                x = leave(rs)
                if x is not None:
                    dst.append(x)
        for rs, exc, node in sink:
            x = leave(rs)
            if x is not None:
                self.sinks[-1].append((x, exc, node))
        return r

    def with_gen(self, st, s, g, it, items, out):
        """with f(): body, f a @contextmanager generator of the repo."""
        fenv = st.env
        fframe = self.frames[-1]
        rets = []
        o2 = Out()

        def on_yield(gst, val):
            genv = gst.env
            gframe = self.frames.pop()
            gst.env = fenv
            if it.optional_vars is not None:
                self.assign(gst, it.optional_vars, val)
            ob = Out()
            r = self.with_items(gst, s, items[1:], ob)
            pend = [('ret', x, v) for x, v in ob.ret] + \
                [('brk', x, None) for x in ob.brk] + \
                [('cont', x, None) for x in ob.cont]
            self.frames.append(gframe)
            sts = []
            if r is not None:
                sts.append(r)
            for i, (k, x, v) in enumerate(pend):
                # remember the pending exit in the state
                flag = T.boolsym(self.fresh('exitkind'))
                x.pc = T.band(x.pc, flag)
                rets.append((flag, k, v))
                sts.append(x)
            j = None
            for x in sts:
                if j is None:
                    j = x
                else:
                    j = join2(j, x)
            if j is None:
                raise Dead()
            if r is None and len(pend) >= 1:
                pass
            gst.become(j)
            gst.env = genv
            return None
        self.yield_cbs.append(on_yield)
        try:
            self.invoke(st, g.func, g.args, g.kwargs, s, raw=True)
        except Dead:
            self.yield_cbs.pop()
            return None
        self.yield_cbs.pop()
        st.env = fenv
        cur = st
        for flag, k, v in rets:
            if cur is None:
                break
            x = cur.fork(flag)
            if T.bimp(cur.pc, flag):
                x, cur = cur, None
            else:
                cur = cur.fork(T.bnot(flag))
            if x is None:
                continue
            if k == 'ret':
                out.ret.append((x, v))
            elif k == 'brk':
                out.brk.append(x)
            else:
                out.cont.append(x)
        return cur

    yield_cbs = []

    def x_Match(self, st, s, out):
        subj = self.ev(st, s.subject)
        cur = st
        res = []
        for case in s.cases:
            if cur is None:
                break
            c = self.match_pat(cur, subj, case.pattern)
            if case.guard is not None:
                c = T.band(c, self.truth(cur, self.ev(cur, case.guard), s))
            a, b = cur.fork(c), cur.fork(T.bnot(c))
            if a is not None:
                res.append(self.exec_block(a, case.body, out))
            cur = b
        res.append(cur)
        return join([r for r in res if r is not None])

    def match_pat(self, st, v, p):
        if isinstance(p, ast.MatchValue):
            return self.compare(st, 'Eq', v, self.ev(st, p.value), p)
        if isinstance(p, ast.MatchSingleton):
            w = {True: TRUE, False: FALSE, None: None}[p.value]
            return self.compare(st, 'Is', v, w, p)
        if isinstance(p, ast.MatchOr):
            return T.bor(*[self.match_pat(st, v, q) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else \
                self.match_pat(st, v, p.pattern)
            if p.name:
                self.setname(st, p.name, v)
            return c
        self.note('match pattern', p)
        return T.boolsym(self.fresh('match'))

    # ------------------------------------------------------------ loops

    def x_For(self, st, s, out):
        it = self.ev(st, s.iter)
        return self.for_iter(
            st, it, s,
            lambda x, v: self.assign(x, s.target, v),
            lambda x, o: self.exec_block(x, s.body, o),
            s.orelse, out)

    def for_iter(self, st, it, s, bind, body, orelse, out):
        if isinstance(it, IteV):
            s1, s2 = st.fork(it.c), st.fork(T.bnot(it.c))
            r = []
            for x, v in ((s1, it.a), (s2, it.b)):
                if x is not None and v is not UNDEF:
                    r.append(self.for_iter(x, v, s, bind, body, orelse, out))
            return join([x for x in r if x is not None])
        if isinstance(it, (ListV, DictV)):
            p = st.heap[it.id]
            if p[0] == 'phi':
                s1, s2 = st.fork(p[1]), st.fork(T.bnot(p[1]))
                r = []
                for x, v in ((s1, p[2]), (s2, p[3])):
                    if x is not None:
                        x.heap[it.id] = v
                        r.append(self.for_iter(x, it, s, bind, body, orelse,
                                               out))
                return join([x for x in r if x is not None])
        if isinstance(it, TreeV):
            k = st.heap[it.cell][-1].get(it.path + ('.keys',))
            if isinstance(k, NativeV):
                it = self.call(st, k, [], {}, s)
        items = self.concrete_items(st, it)
        if items is not None:
            brk = []
            for v in items:
                o2 = Out()
                try:
                    bind(st, v)
                except Dead:
                    st = None
                if st is not None:
                    st = body(st, o2)
                out.ret += o2.ret
                brk += o2.brk
                st = join([x for x in [st] + o2.cont if x is not None])
                if st is None:
                    break
            if st is not None and orelse:
                st = self.exec_block(st, orelse, out)
            return join([x for x in [st] + brk if x is not None])
        return self.generic_loop(st, s, it, bind, body, None, orelse, out)

    def x_While(self, st, s, out):
        # literal unrolling when the test is decided by constants
        c0 = self.truth(st.clone(), self.ev(st.clone(), s.test), s)
        if c0 is FALSE:
            return self.exec_block(st, s.orelse, out) if s.orelse else st
        u = self.try_unroll_while(st, s, out) if not (
            isinstance(s.test, ast.Constant)) else None
        if u is not None:
            return u[0]
        u = self.counting_while(st, s, out)
        if u is not None:
            return u[0]
        return self.generic_loop(
            st, s, None, None,
            lambda x, o: self.exec_block(x, s.body, o),
            lambda x: self.truth(x, self.ev(x, s.test), s), s.orelse, out)

    def counting_while(self, st, s, out):
        """`while i < n: ...; i += c` read as a loop over range(i, n, c)."""
        k = counting(s)
        if k is None:
            return None
        name, op, bound, step, body = k
        lo = self.ev(st, ast.copy_location(ast.Name(name, ast.Load()), s))
        hi = self.ev(st, bound)
        if not (isinstance(lo, Term) and isinstance(hi, Term) and
                T.is_int(lo) and T.is_int(hi)):
            return None
        if op == 'LtE':
            hi = T.add(hi, T.ONE)
        elif op == 'GtE':
            hi = T.sub(hi, T.ONE)
        tgt = ast.copy_location(ast.Name(name, ast.Store()), s)
        rng = RangeV(lo, hi, C(step))
        r = self.for_iter(
            st, rng, s, lambda x, v: self.assign(x, tgt, v),
            lambda x, o: self.exec_block(x, body, o), [], out)
        if r is None:
            return (None,)
        d = T.sub(hi, lo) if step > 0 else T.sub(lo, hi)
        n = d if abs(step) == 1 else T.fn('ceil', T.div(d, C(abs(step))))
        self.assign(r, tgt, T.ite(T.gt0(d), T.add(lo, T.mul(C(step), n)),
                                  lo))
        if s.orelse:
            r = self.exec_block(r, s.orelse, out)
        return (r,)

    def try_unroll_while(self, st, s, out):
        mark = (len(self.log), len(self.sinks[-1]), len(self.loops),
                len(self.unknown))
        cur = st.clone()
        o2 = Out()
        brk = []
        for _ in range(16):
            c = self.truth(cur, self.ev(cur, s.test), s)
            if c is FALSE:
                out.ret += o2.ret
                return (join([x for x in [cur] + brk if x is not None]),)
            if c is not TRUE:
                break
            oo = Out()
            cur = self.exec_block(cur, s.body, oo)
            o2.ret += oo.ret
            brk += oo.brk
            cur = join([x for x in [cur] + oo.cont if x is not None])
            if cur is not None and (oo.brk or oo.ret):
                # left depending on data: no literal trip count
                break
            if cur is None:
                out.ret += o2.ret
                return (join(brk),)
        del self.log[mark[0]:]
        del self.sinks[-1][mark[1]:]
        del self.loops[mark[2]:]
        del self.unknown[mark[3]:]
        return None

    def concrete_items(self, st, it):
        """List of values if `it` has a literal length, else None."""
        if isinstance(it, TupleV):
            return list(it.items)
        if isinstance(it, ListV):
            p = st.heap[it.id]
            if p[0] == 'list':
                return list(p[1])
            return None
        if isinstance(it, DictV):
            p = st.heap[it.id]
            return list(p[-1]) if p[0] == 'dict' else None
        if isinstance(it, str):
            return list(it)
        if isinstance(it, RangeV):
            if all(T.is_const(x) for x in (it.lo, it.hi, it.step)):
                n = (T.cval(it.hi) - T.cval(it.lo)) / T.cval(it.step)
                if n <= self.UNROLL:
                    return [C(i) for i in range(
                        int(T.cval(it.lo)), int(T.cval(it.hi)),
                        int(T.cval(it.step)))]
            return None
        if isinstance(it, ArrV):
            p = st.heap[it.id]
            if p[0] == 'stk' and it.view is None:
                return list(p[1])
            sh = self.shape(st, it)
            if sh and T.is_const(sh[0]) and T.cval(sh[0]) <= 16:
                return [self.getitem(st, it, C(i), None)
                        for i in range(int(T.cval(sh[0])))]
            return None
        if isinstance(it, LazyIter):
            if it.kind == 'zip':
                ps = [self.concrete_items(st, p) for p in it.parts]
                if any(p is None for p in ps):
                    return None
                return [TupleV(x) for x in zip(*ps)]
            if it.kind == 'enumerate':
                p = self.concrete_items(st, it.parts[0])
                if p is None:
                    return None
                return [TupleV((T.add(it.parts[1], C(i)), x))
                        for i, x in enumerate(p)]
            if it.kind == 'reversed':
                p = self.concrete_items(st, it.parts[0])
                return None if p is None else p[::-1]
        return None

    def iter_generic(self, st, it, iv):
        """(trip count Term or None, element value) for symbolic iteration."""
        if isinstance(it, RangeV):
            n = T.div(T.sub(it.hi, it.lo), it.step)
            if it.step is not T.ONE:
                if it.step is C(-1):
                    n = T.sub(it.lo, it.hi)
                else:
                    n = T.fn('ceil', n)
            n = T.ite(T.gt0(n), n, T.ZERO) if False else n
            return n, T.add(it.lo, T.mul(it.step, iv))
        if isinstance(it, ArrV):
            sh = self.shape(st, it)
            return sh[0], self.getitem(st, it, iv, None)
        if isinstance(it, ListV):
            p = st.heap[it.id]
            if p[0] == 'slist':
                return p[1], self.slist_elem(st, p, iv)
            if p[0] == 'list':
                # literal list zipped with a symbolic one
                v = p[1][-1] if p[1] else UNDEF
                for k in range(len(p[1])-2, -1, -1):
                    v = merge_val(T.eq(iv, C(k)), p[1][k], v)
                return C(len(p[1])), v
        if isinstance(it, TupleV):
            v = it.items[-1] if it.items else UNDEF
            for k in range(len(it.items)-2, -1, -1):
                v = merge_val(T.eq(iv, C(k)), it.items[k], v)
            return C(len(it.items)), v
        if isinstance(it, LazyIter):
            if it.kind == 'zip':
                r = [self.iter_generic(st, p, iv) for p in it.parts]
                return r[0][0], TupleV([x[1] for x in r])
            if it.kind == 'enumerate':
                n, e = self.iter_generic(st, it.parts[0], iv)
                return n, TupleV((T.add(it.parts[1], iv), e))
            if it.kind == 'reversed':
                n, e = self.iter_generic(st, it.parts[0], iv)
                n2, e2 = self.iter_generic(
                    st, it.parts[0], T.sub(T.sub(n, iv), T.ONE)) \
                    if n is not None else (n, e)
                return n, e2
        t = self.to_term(st, it)
        n = T.fn('len', t)
        return n, T.fn('item', t, iv)

    def slist_elem(self, st, p, iv):
        return self.subst_val(st, p[3], {p[2]: iv})

    def subst_val(self, st, v, m):
        if isinstance(v, (Term, B)):
            return T.subst(v, m)
        if isinstance(v, TupleV):
            return TupleV([self.subst_val(st, x, m) for x in v.items])
        if isinstance(v, IteV):
            return merge_val(T.subst(v.c, m), self.subst_val(st, v.a, m),
                             self.subst_val(st, v.b, m))
        return v

    def diff(self, a, b, known):
        """Locations of cells of state a that differ in b."""
        out = set()
        for k, p in a.heap.items():
            q = b.heap.get(k)
            if q is None or q is p:
                continue
            if p[0] == q[0] and p[0] in ('obj', 'env', 'dict'):
                d1, d2 = p[-1], q[-1]
                for key in set(d1) | set(d2):
                    x, y = d1.get(key, UNDEF), d2.get(key, UNDEF)
                    if not same(x, y):
                        out.add((k, key))
            elif p[0] == 'stk' and q[0] == 'stk' and len(p[1]) == len(q[1]):
                for i, (x, y) in enumerate(zip(p[1], q[1])):
                    if not same(x, y):
                        out.add((k, i))
            else:
                if p[0] == q[0] == 'lane' and p[2] is q[2]:
                    continue
                if p[0] == q[0] == 'list' and len(p[1]) == len(q[1]) and \
                        all(same(x, y) for x, y in zip(p[1], q[1])):
                    continue
                out.add((k, '*'))
        return out

    def havoc_value(self, st, v, name, other=None, depth=0):
        if isinstance(v, B) or isinstance(other, B) and v is UNDEF:
            return T.boolsym(name)
        if isinstance(v, Term):
            return T.sym(name, 'int' if T.is_int(v) and
                         (other is None or not isinstance(other, Term)
                          or T.is_int(other)) else
                         (v.kind if v.op == 'sym' and v.kind == 'any'
                          else 'real'))
        if isinstance(v, ArrV):
            return self.havoc_array(st, v, name)
        if isinstance(v, TupleV):
            return TupleV([self.havoc_value(st, x, '%s.%d' % (name, i))
                           for i, x in enumerate(v.items)])
        if isinstance(v, ObjV) and depth < 2:
            p = st.heap[v.id]
            if p[0] != 'obj':
                return T.sym(name, 'any')
            d = {k: self.havoc_value(st, x, '%s.%s' % (name, k),
                                     depth=depth+1)
                 if not isinstance(x, (FuncV, ClassV, str, type(None)))
                 else x for k, x in p[-1].items()}
            return self.obj(st, v.cls, d)
        if isinstance(v, ListV):
            return ListV(self.new(st, self.havoc_list(st, st.heap[v.id],
                                                      name)))
        if v is UNDEF or v is None:
            if other is not None and other is not UNDEF and v is not other:
                if v is None:
                    return IteV(T.boolsym(name + '?'), None,
                                self.havoc_value(st, other, name))
                return UNDEF
            return v if v is None else UNDEF
        return T.sym(name, 'any')

    def havoc_array(self, st, v, name):
        p = st.heap[v.id]
        if p[0] == 'stk' and v.view is None:
            return self.stk(st, [
                self.havoc_value(st, x, '%s.%d' % (name, i))
                for i, x in enumerate(p[1])])
        return self.symarr(st, name, self.shape(st, v))

    def havoc_list(self, st, p, name):
        iv = T.sym('iv:' + name, 'int')
        elem = T.fn('item', T.sym(name, 'any'), iv)
        if p[0] == 'list' and p[1]:
            elem = self.havoc_value(st, p[1][-1], name + '[]')
        return ('slist', T.sym('len:' + name, 'int'), iv, elem)

    def apply_havoc(self, st, locs, tag, probe):
        names = {}
        for (k, key) in sorted(locs, key=str):
            p = st.heap[k]
            nm = '%s:%s.%s' % (tag, k, key)
            if key == '*':
                if p[0] == 'lane':
                    sh = p[1]
                    r = len(sh)
                    c = T.load(T.sym(nm), *[lane(r-i) for i in range(r)])
                    st.heap[k] = ('lane', sh, c)
                    names[(k, key)] = c
                elif p[0] in ('list', 'slist'):
                    st.heap[k] = self.havoc_list(st, p, nm)
                elif p[0] == 'stk':
                    st.heap[k] = ('stk', tuple(
                        self.havoc_value(st, x, '%s.%d' % (nm, i),
                                         self.probed(probe, k, i))
                        for i, x in enumerate(p[1])))
                else:
                    iv = T.sym('iv:' + nm, 'int')
                    st.heap[k] = ('slist', T.sym('len:' + nm, 'int'), iv,
                                  T.fn('item', T.sym(nm, 'any'), iv))
                continue
            if p[0] == 'stk':
                items = list(p[1])
                items[key] = self.havoc_value(st, items[key], nm,
                                              self.probed(probe, k, key))
                names[(k, key)] = items[key]
                st.heap[k] = ('stk', tuple(items))
                continue
            d = dict(p[-1])
            old = d.get(key, UNDEF)
            other = None
            if probe is not None and k in probe.heap:
                other = probe.heap[k][-1].get(key, UNDEF) \
                    if probe.heap[k][0] == p[0] else None
            d[key] = self.havoc_value(st, old, nm, other)
            names[(k, key)] = d[key]
            st.heap[k] = p[:-1] + (d,)
        return names

    def probed(self, probe, k, i):
        """Element of a fixed-size array after a trial iteration."""
        q = probe.heap.get(k) if probe is not None else None
        return q[1][i] if q is not None and q[0] == 'stk' and \
            i < len(q[1]) and isinstance(q[1][i], (Term, B)) else None

    def generic_loop(self, st, s, it, bind, body, cond, orelse, out):
        self.nsym += 1
        lid = self.nsym
        tag = 'L%d' % lid
        locs = set()
        probe = None
        fr = self.frames[-1]
        iv = T.sym('i~%s' % tag, 'int')
        final = False
        for attempt in range(8):
            mark = (len(self.log), len(self.sinks[-1]), len(self.loops),
                    len(self.unknown))
            x = st.clone()
            names = self.apply_havoc(x, locs, tag, probe)
            head = x.clone()
            self.loopstack.append(lid)
            o2 = Out()
            trip = None
            try:
                if it is not None:
                    trip, e = self.iter_generic(x, it, iv)
                    x.facts = x.facts + (('range', iv, trip),)
                    bind(x, e)
                    cnd = TRUE
                else:
                    cnd = cond(x)
                nots = x.fork(T.bnot(cnd)) if cnd is not TRUE else None
                y = x.fork(cnd) if cnd is not TRUE else x
                inner = y.clone() if y is not None else None
                end = body(y, o2) if y is not None else None
            except Dead:
                end = nots = None
                inner = None
            self.loopstack.pop()
            ends = [z for z in [end] + o2.cont if z is not None]
            back = join(ends)
            # locations changed by any completion of the body
            new = set()
            for z in ends + o2.brk:
                for loc in self.diff(head, z, locs):
                    new.add(loc)
            # the loop's own target variables are not loop carried
            new = {l for l in new if l not in locs}
            if not new or attempt == 7:
                final = True
                break
            probe = back or (o2.brk[0] if o2.brk else None)
            locs |= new
            del self.log[mark[0]:]
            del self.sinks[-1][mark[1]:]
            del self.loops[mark[2]:]
            del self.unknown[mark[3]:]
        if self.finite and not o2.ret and not orelse and final:
            r = self.loop_node(st, locs, names, head, back, o2.brk, iv,
                               trip, cnd if it is None else None, it)
            if r is not None:
                return r
        info = LoopInfo()
        info.id, info.iv, info.trip, info.node = lid, iv, trip, s
        info.func, info.path = fr.name, fr.mod.path
        info.entry, info.head, info.end = st, head, back
        info.breaks, info.rets = o2.brk, o2.ret
        info.locs, info.names = locs, names
        info.par = isinstance(it, RangeV) and it.par
        info.it = it
        info.cond = cnd if it is None else None
        info.flags = fr.flags
        self.loops.append(info)
        out.ret += o2.ret
        # exit state
        exits = list(o2.brk)
        if it is None:
            if nots is not None:
                exits.append(nots)
            r = join(exits)
            if r is None:
                return None
            r.facts = st.facts
            if len(exits) == 1:
                # the only way out: not a case distinction
                r.pc = T.band(st.pc, T.restrict(r.pc, st.pc)) \
                    if False else r.pc
            return r
        ex = self.summarise(st, info)
        if back is None and trip is not None and ex is not None:
            # no iteration completes
            ex = ex.fork(T.le(trip, T.ZERO))
        if orelse and ex is not None:
            ex = self.exec_block(ex, orelse, out)
        if exits and ex is not None:
            b = join(exits)
            sel = T.boolsym('broke:' + tag)
            b.pc = T.band(b.pc, sel)
            ex.pc = T.band(ex.pc, T.bnot(sel))
            r = join2(b, ex)
        else:
            r = ex if ex is not None else join(exits)
        if r is not None:
            r.facts = st.facts
        return r

    def loop_node(self, st, locs, names, head, back, brk, iv, trip, cond,
                  it):
        """Exact summary of a loop over scalars: a loop node per loop."""
        b = join(brk)
        end = join2(b, back)
        if end is None:
            return None
        bvs, init, step, outs = [], [], [], []

        def comp(var, i, s):
            bvs.append(var)
            init.append(i)
            step.append(s)
            return len(bvs) - 1

        def cell(h, k, key):
            p = h.heap.get(k)
            if p is None:
                return UNDEF
            if p[0] == 'stk':
                return p[1][key]
            return p[-1].get(key, UNDEF)
        for (k, key) in sorted(locs, key=str):
            if key == '*' or st.heap[k][0] not in ('stk', 'env', 'obj'):
                return None
            v0, vh, ve = (cell(h, k, key) for h in (st, head, end))
            if ve is UNDEF:
                return None
            if v0 is UNDEF and vh is not UNDEF and numeric(vh):
                v0 = T.sym(self.fresh('undef'), 'int')
            if v0 is UNDEF:
                if vh is not UNDEF or not numeric(ve):
                    return None
                if isinstance(ve, B):
                    vh = T.boolsym(self.fresh('mu'))
                    j = comp(vh.atom, T.sym(self.fresh('undef'), 'int'),
                             to_num(ve))
                    outs.append((k, key, j, True))
                    continue
                ve = to_num(ve)
                vh = T.sym(self.fresh('mu'), 'int' if T.is_int(ve)
                           else 'real')
                v0 = T.sym(self.fresh('undef'), vh.kind)
                j = comp(vh, v0, ve)
                outs.append((k, key, j, False))
                continue
            if not all(numeric(v) for v in (v0, vh, ve)):
                return None
            if isinstance(vh, B):
                if vh.atom is None or vh.atom.op != 'bsym':
                    return None
                j = comp(vh.atom, to_num(v0), to_num(ve))
                outs.append((k, key, j, True))
                continue
            if vh.op != 'sym':
                return None
            j = comp(vh, to_num(v0), to_num(ve))
            outs.append((k, key, j, isinstance(ve, B)))
        c = TRUE
        if cond is not None:
            c = T.restrict(cond, st.pc) if st.pc is not TRUE else cond
        else:
            if trip is None:
                return None
            comp(iv, T.ZERO, T.add(iv, T.ONE))
            c = T.lt(iv, trip)
        if b is not None:
            fl = T.sym(self.fresh('brk'), 'int')
            g = T.restrict(b.pc, end.pc)
            comp(fl, T.ZERO, T.b2t(g))
            c = T.band(T.eq(fl, T.ZERO), c)
        m = T.mu(bvs, c, init, step)
        r = st.clone()
        for k, key, j, isb in outs:
            v = T.proj(m, j)
            if isb:
                v = T.bnot(T.eq(v, T.ZERO))
            p = r.heap[k]
            if p[0] == 'stk':
                its = list(p[1])
                its[key] = v
                r.heap[k] = ('stk', tuple(its))
            else:
                d = dict(p[-1])
                d[key] = v
                r.heap[k] = p[:-1] + (d,)
        for k, p in end.heap.items():
            if k not in r.heap:
                r.heap[k] = p
        return r

    def summarise(self, st, info):
        """State after a counted loop without break."""
        ex = st.clone()
        tag = 'L%d' % info.id
        end, head = info.end, info.head
        if end is None:
            return ex
        loopsyms = None
        info.summary = {}
        hav = self.havoc_syms(info)
        for loc in sorted(info.locs, key=str):
            k, key = loc
            ph, pe, p0 = head.heap[k], end.heap[k], st.heap[k]
            nm = '%s:out:%s.%s' % (tag, k, key)
            if key == '*':
                if ph[0] == 'lane' and pe[0] == 'lane':
                    c = self.map_summary(info, loc, hav)
                    info.summary[loc] = 'map' if c is not None else 'rec'
                    if c is None:
                        r = len(p0[1])
                        c = T.load(T.sym(nm), *[lane(r-i) for i in range(r)])
                    ex.heap[k] = ('lane', p0[1], c)
                elif p0[0] == 'list' and ph[0] == 'slist' or \
                        ph[0] == 'slist':
                    ex.heap[k] = self.list_summary(ex, info, ph, pe, p0, nm)
                else:
                    ex.heap[k] = self.havoc_list(ex, p0, nm)
                continue
            if ph[0] == 'stk':
                items = list(ex.heap[k][1])
                items[key] = self.scalar_summary(
                    ex, info, ph[1][key], pe[1][key], p0[1][key], nm, hav)
                ex.heap[k] = ('stk', tuple(items))
                continue
            p = ex.heap[k]
            d = dict(p[-1])
            d[key] = self.scalar_summary(
                ex, info, ph[-1].get(key, UNDEF), pe[-1].get(key, UNDEF),
                p0[-1].get(key, UNDEF), nm, hav)
            ex.heap[k] = p[:-1] + (d,)
        # cells created in the body stay reachable
        for k, p in end.heap.items():
            if k not in ex.heap:
                ex.heap[k] = p
        return ex

    def havoc_syms(self, info):
        s = set()
        pre = 'L%d:' % info.id
        info.prefix = pre
        return pre

    def depends(self, t, info, also_iv=True):
        pre = info.prefix
        for x in T.subterms(t):
            if x.op in ('sym', 'bsym') and isinstance(x.args[0], str):
                n = x.args[0]
                if n.startswith(pre) or n.startswith('len:' + pre):
                    return True
                if also_iv and x is info.iv:
                    return True
        return False

    def scalar_summary(self, st, info, h, e, v0, nm, hav):
        if isinstance(e, Term) and isinstance(h, Term) and \
                isinstance(v0, Term):
            step = T.sub(e, h)
            if info.trip is not None and not self.depends(step, info):
                return T.add(v0, T.mul(info.trip, step))
            if info.trip is not None and not self.depends(step, info, False) \
                    and info.iv in T.subterms(step):
                bv = self.boundvar(step)
                return T.add(v0, T.msum(bv, T.subst(step, {info.iv: bv}),
                                        info.trip))
        if isinstance(e, Term) and info.trip is not None and \
                not self.depends(e, info, False):
            # last iteration's value (or the value before, if no iteration)
            last = T.subst(e, {info.iv: T.sub(info.trip, T.ONE)})
            return last
        if isinstance(e, Term):
            return T.sym(nm, 'int' if T.is_int(e) else 'real')
        if isinstance(e, B):
            if not self.depends(e, info):
                return e
            return T.boolsym(nm)
        if isinstance(e, TupleV):
            hi = h.items if isinstance(h, TupleV) and \
                len(h.items) == len(e.items) else [UNDEF]*len(e.items)
            vi = v0.items if isinstance(v0, TupleV) and \
                len(v0.items) == len(e.items) else [UNDEF]*len(e.items)
            return TupleV([self.scalar_summary(st, info, a, b, c,
                                               '%s.%d' % (nm, i), hav)
                           for i, (a, b, c) in
                           enumerate(zip(hi, e.items, vi))])
        if isinstance(e, ArrV):
            # value of a variable rebound in the loop
            for k, p in info.end.heap.items():
                if k not in st.heap:
                    st.heap[k] = p
            try:
                sh, c = self.content(info.end.clone(), e)
                if info.trip is not None and not self.depends(c, info, False):
                    c = T.subst(c, {info.iv: T.sub(info.trip, T.ONE)})
                    return self.arr(st, sh, c)
            except AnalysisError:
                pass
            return self.havoc_array_from(st, info.end, e, nm)
        if isinstance(e, (FuncV, ClassV, str, ModV, ExtV, BuiltinV)):
            return e
        if isinstance(e, ObjV):
            for k, p in info.end.heap.items():
                if k not in st.heap:
                    st.heap[k] = p
            return e
        if e is UNDEF or e is None:
            return e
        if isinstance(e, (ListV, DictV)):
            for k, p in info.end.heap.items():
                if k not in st.heap:
                    st.heap[k] = p
            return e
        return T.sym(nm, 'any')

    def havoc_array_from(self, st, src, e, nm):
        p = src.heap[e.id]
        if p[0] == 'stk' and e.view is None:
            out = []
            for i, x in enumerate(p[1]):
                if isinstance(x, ArrV):
                    out.append(self.havoc_array_from(st, src, x,
                                                     '%s.%d' % (nm, i)))
                else:
                    out.append(T.sym('%s.%d' % (nm, i)))
            return self.stk(st, out)
        return self.symarr(st, nm, self.shape(src, e))

    def list_summary(self, st, info, ph, pe, p0, nm):
        """List appended to in the body: prefix + generic element."""
        self_app = None
        if pe[0] == 'slist' and len(pe) > 4 and pe[4]:
            self_app = pe[4]
        iv = T.sym('iv:' + nm, 'int')
        if self_app and p0[0] == 'list' and len(self_app) >= 1:
            elem = self_app[-1]
            for k, p in info.end.heap.items():
                if k not in st.heap:
                    st.heap[k] = p
            n = T.add(C(len(p0[1])),
                      T.mul(info.trip, C(len(self_app)))) \
                if info.trip is not None else T.sym('len:' + nm, 'int')
            if len(self_app) == 1 and not p0[1]:
                e2 = self.subst_val(st, elem, {info.iv: iv})
                return ('slist', n, iv, e2)
            return ('slist', T.sym('len:' + nm, 'int'), iv, elem)
        return self.havoc_list(st, p0, nm)

    def map_summary(self, info, loc, hav):
        """content after loop if every iteration writes its own lane."""
        if info.trip is None:
            return None
        if not hasattr(info, 'mapcand'):
            info.mapcand = self._map_candidates(info)
        for cand in info.mapcand.get(loc, {}).get('c', ()):
            res = self._map_lane(info, loc, cand)
            if res is not None:
                return res
        return None

    def _map_candidates(self, info):
        out = {}
        head, end, st = info.head, info.end, info.entry
        for loc in info.locs:
            k, key = loc
            if key != '*':
                continue
            ph, pe, p0 = head.heap[k], end.heap[k], st.heap[k]
            if ph[0] != 'lane' or pe[0] != 'lane' or p0[0] != 'lane':
                continue
            r = len(p0[1])
            cs = []
            for ln in range(1, r+1):
                c = self._lane_tie(info, pe[2], ln)
                if c is not None:
                    cs.append((ln,) + c)
            if ph[2].op == 'load':
                out[loc] = {'c': cs, 'H': ph[2], 'hsym': ph[2].args[0],
                            'p0': p0, 'pe': pe}
        return out

    def _lane_tie(self, info, c, k):
        """The single guard atom tying lane k to the iteration."""
        iv = info.iv
        L = lane(k)
        offs = set()
        for a in T.guard_atoms(c):
            if a.op == 'eq0':
                c0, d = T._as_lin(a.args[0])
                if iv in d and L in d:
                    cl, ci = d[L], d[iv]
                    if abs(ci/cl) == 1:
                        rest = T.sub(a.args[0],
                                     T.add(T.scale(cl, L), T.scale(ci, iv)))
                        # lane*cl + iv*ci + rest = 0
                        if L in T.subterms(rest) or iv in T.subterms(rest):
                            return None
                        offs.add((a, -cl/ci, T.scale(-1/ci, rest)))
        if len(offs) != 1:
            return None
        a, sgn, off = next(iter(offs))
        if self.depends(off, info):
            return None
        return a, sgn, off

    def _map_lane(self, info, loc, cand):
        iv, trip = info.iv, info.trip
        me = info.mapcand[loc]
        H, p0, c = me['H'], me['p0'], me['pe'][2]
        k, a, sgn, off = cand
        r = len(p0[1])
        L = lane(k)
        iexpr = T.add(T.scale(sgn, L), off)        # iv as function of lane
        hit = T.subst(c, {a: TRUE})
        miss = T.subst(c, {a: FALSE})
        if miss is not H:
            if not T.nf_equal(miss, H):
                return None
        # in `hit`, lane k == position of iv: replace iv by iexpr
        hit = T.subst(hit, {iv: iexpr})
        # loads of havocked arrays must be at the iteration's own lane:
        # they then refer to the content before the loop
        byname = {v['hsym']: v for v in info.mapcand.values()}
        for _ in range(4):
            m = {}
            left = False
            for x in T.subterms(hit):
                if x.op == 'load' and x.args[0] in byname:
                    o = byname[x.args[0]]
                    ro = len(o['p0'][1])
                    good = False
                    for (k2, a2, s2, o2) in o['c']:
                        ix = x.args[1][ro - k2]
                        d = T.sub(T.add(T.scale(s2, ix), o2), iexpr)
                        if d is T.ZERO:
                            good = True
                            break
                    if not good:
                        return None
                    sb = {lane(ro-i): x.args[1][i] for i in range(ro)}
                    m[x] = T.subst(o['p0'][2], sb)
                elif x.op == 'sym' and isinstance(x.args[0], str) and \
                        x not in byname and \
                        x.args[0].startswith(info.prefix):
                    v = self._induction(info, x, iexpr)
                    if v is None:
                        return None
                    m[x] = v
            if not m:
                break
            hit = T.subst(hit, m)
        else:
            return None
        if any(x in byname for x in T.subterms(hit) if x.op == 'sym'):
            return None
        inr = T.band(T.le(T.ZERO, iexpr), T.lt(iexpr, trip))
        # full coverage of the axis
        n = p0[1][r-k]
        if off is T.ZERO and sgn == 1 and (
                n is trip or T.nf_equal(n, trip)):
            return hit
        return T.ite(inr, hit, p0[2])

    def _induction(self, info, symb, iexpr):
        """Value at iteration iexpr of a scalar stepped by a constant."""
        for loc, h in info.names.items():
            if h is symb:
                k, key = loc
                try:
                    e = info.end.heap[k][-1][key]
                    v0 = info.entry.heap[k][-1][key]
                except (KeyError, TypeError, IndexError):
                    return None
                if not isinstance(e, Term) or not isinstance(v0, Term):
                    return None
                step = T.sub(e, symb)
                if self.depends(step, info):
                    return None
                return T.add(v0, T.mul(iexpr, step))
        return None

    # ------------------------------------------------------------ assign

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, len(t.elts), t, star)
            for e, x in zip(t.elts, items):
                self.assign(st, e.value if isinstance(e, ast.Starred) else e,
                            x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value)
            self.setattr(st, o, self.mangle(t.attr), v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value)
            i = self.ev_index(st, t.slice)
            self.setitem(st, o, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def unpack(self, st, v, n, node, star=()):
        if isinstance(v, IteV):
            xs = [self.unpack(st, w, n, node, star) if w is not UNDEF
                  else [UNDEF]*n for w in (v.a, v.b)]
            return [merge_val(v.c, a, b) for a, b in zip(*xs)]
        items = None
        if isinstance(v, (ListV, DictV, ArrV)) and \
                st.heap[v.id][0] == 'phi':
            return self.payload(st, v, lambda s, p: TupleV(
                self.unpack(s, v, n, node, star))).items
        items = self.concrete_items(st, v)
        if items is not None:
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [self.list_(st, items[i:i+k])] + \
                    items[i+k:]
            if len(items) == n:
                return items
        if isinstance(v, ArrV):
            return [self.getitem(st, v, C(i), node) for i in range(n)]
        if isinstance(v, ListV):
            return [self.getitem(st, v, C(i), node) for i in range(n)]
        t = self.to_term(st, v)
        return [T.fn('item', t, C(i)) for i in range(n)]

    # ------------------------------------------------------------ expressions

    def ev(self, st, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('expression ' + type(e).__name__, e)
            return T.sym(self.fresh('expr'), 'any')
        return m(st, e)

    def e_Constant(self, st, e):
        v = e.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float, complex)):
            return C(v)
        return v            # str, None, Ellipsis, bytes

    def e_Name(self, st, e):
        return self.getname(st, e.id, e)

    def e_Tuple(self, st, e):
        return TupleV(self.ev_items(st, e.elts))

    def ev_items(self, st, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value)
                items = self.concrete_items(st, v)
                if items is None:
                    self.note('starred symbolic sequence', x)
                    items = [T.fn('star', self.to_term(st, v))]
                out += items
            else:
                out.append(self.ev(st, x))
        return out

    def e_List(self, st, e):
        return self.list_(st, self.ev_items(st, e.elts))

    e_Set = e_List

    def e_Dict(self, st, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                w = self.ev(st, v)
                if isinstance(w, DictV):
                    d.update(st.heap[w.id][-1])
                continue
            kv = self.ev(st, k)
            d[self.dkey(st, kv)] = self.ev(st, v)
        return self.dict_(st, d)

    def dkey(self, st, k):
        if isinstance(k, str) or k is None:
            return k
        if isinstance(k, (Term, B)):
            return k
        if isinstance(k, TupleV):
            return tuple(self.dkey(st, x) for x in k.items)
        return k

    def e_Attribute(self, st, e):
        o = self.ev(st, e.value)
        return self.getattr(st, o, self.mangle(e.attr), e)

    def e_Subscript(self, st, e):
        o = self.ev(st, e.value)
        i = self.ev_index(st, e.slice)
        return self.getitem(st, o, i, e)

    def ev_index(self, st, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(st, x) if x is not None else None
                            for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return TupleV([self.ev_index(st, x) for x in s.elts])
        return self.ev(st, s)

    def e_Slice(self, st, e):
        return self.ev_index(st, e)

    def e_BinOp(self, st, e):
        a = self.ev(st, e.left)
        b = self.ev(st, e.right)
        return self.binop(st, type(e.op).__name__, a, b, e)

    def e_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return T.bnot(self.truth(st, v, e))

        def f(st, vs):
            v, = vs
            if op == 'USub':
                if numeric(v):
                    return T.neg(to_num(v))
                return self.ew(st, lambda x: T.neg(x), [v])
            if op == 'UAdd':
                return v
            if op == 'Invert':
                if isinstance(v, B):
                    return T.bnot(v)
                if isinstance(v, ArrV):
                    return self.ew(st, lambda x: T.sub(T.ONE, x), [v])
            return T.fn('unary:' + op, self.to_term(st, v))
        return self.lift(st, [v], f)

    def e_BoolOp(self, st, e):
        """Short circuit with value semantics."""
        isand = isinstance(e.op, ast.And)

        def go(st, i):
            v = self.ev(st, e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(st, v, e)
            if c is (TRUE if isand else FALSE):
                return go(st, i+1)
            if c is (FALSE if isand else TRUE):
                return v
            return self.split(
                st, c, lambda s, h: go(s, i+1) if h == isand else v)
        v = go(st, 0)
        return v

    def e_Compare(self, st, e):
        left = self.ev(st, e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r)
            c = self.compare(st, type(op).__name__, left, right, e)
            if len(e.ops) == 1:
                return c
            if isinstance(c, B):
                res = T.band(res, c)
            else:
                return T.fn('cmpchain', self.to_term(st, c))
            left = right
        return res

    def e_IfExp(self, st, e):
        c = self.truth(st, self.ev(st, e.test), e)
        return self.split(st, c, lambda s, h: self.ev(
            s, e.body if h else e.orelse))

    def e_Lambda(self, st, e):
        node = ast.FunctionDef(
            name='<lambda>', args=e.args,
            body=[ast.copy_location(ast.Return(value=e.body), e)],
            decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        return self.mkfunc(st, node, '<lambda>')

    def e_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.setname(st, e.target.id, v)
        return v

    def e_Starred(self, st, e):
        return self.ev(st, e.value)

    def e_JoinedStr(self, st, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(st, x.value)
                spec = self.ev(st, x.format_spec) if x.format_spec else ''
                if isinstance(v, str) and not spec:
                    parts.append(v)
                elif T.is_const(v) and not spec and \
                        T.cval(v).denominator == 1:
                    parts.append(str(int(T.cval(v))))
                else:
                    parts.append(self.to_term(st, v) if spec == '' else
                                 T.fn('format', self.to_term(st, v),
                                      spec if isinstance(spec, str)
                                      else self.to_term(st, spec)))
        return self.strcat(parts)

    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Term) and p.op == 'fn' and p.args[0] == 'fstr':
                ps = list(p.args[1])
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '':
                    out.append(q)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return T.fn('fstr', *out)

    def e_FormattedValue(self, st, e):
        return self.ev(st, e.value)

    def e_Yield(self, st, e):
        v = self.ev(st, e.value) if e.value is not None else None
        if self.yield_cbs:
            cb = self.yield_cbs[-1]
            save = list(self.yield_cbs)
            self.yield_cbs.pop()
            try:
                r = cb(st, v)
            finally:
                self.yield_cbs[:] = save
            return r
        self.ev_log(st, 'yield', e, value=v)
        return None

    def e_ListComp(self, st, e):
        return self.comp(st, e, e.generators, lambda s: self.ev(s, e.elt),
                         'list')

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, st, e):
        r = self.comp(st, e, e.generators, lambda s: TupleV(
            (self.ev(s, e.key), self.ev(s, e.value))), 'list')
        p = st.heap[r.id]
        if p[0] == 'list':
            return self.dict_(st, {self.dkey(st, x.items[0]): x.items[1]
                                   for x in p[1]})
        return T.fn('dictcomp', self.to_term(st, r))

    def comp(self, st, e, gens, elt, kind):
        env0 = st.env
        env = self.new(st, ('env', env0, {'#comp': True}))
        st.env = env
        acc = self.list_(st, [])
        name = '#acc%d' % acc.id
        out = Out()

        def run(s, gi, o):
            if gi == len(gens):
                v = elt(s)
                self.list_append(s, acc, v, e)
                return s
            g = gens[gi]
            it = self.ev(s, g.iter)

            def body(x, o2):
                live = x
                for cnd in g.ifs:
                    c = self.truth(live, self.ev(live, cnd), cnd)
                    a, b = live.fork(c), live.fork(T.bnot(c))
                    if b is not None:
                        o2.cont.append(b)
                    live = a
                    if live is None:
                        return None
                try:
                    return run(live, gi+1, o2)
                except Dead:
                    return None
            return self.for_iter(
                s, it, e, lambda x, v: self.assign(x, g.target, v), body,
                [], o)
        r = run(st, 0, out)
        if r is None:
            raise Dead()
        r.env = env0
        if r is not st:
            st.become(r)
        return acc

    def e_Call(self, st, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = self.frames[-1]
            node = fr.node
            slf = None
            if e.args:
                slf = self.ev(st, e.args[1]) if len(e.args) > 1 else None
            else:
                slf = self.getname(st, node.args.args[0].arg, e)
            return SuperV(fr.cls, slf)
        f = self.ev(st, e.func)
        args = self.ev_items(st, e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in st.heap[v.id][-1].items():
                        kw[kk] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw, e)

    # ------------------------------------------------------------ calls

    def call(self, st, f, args, kw, node):
        if isinstance(f, IteV):
            return self.lift(st, [f], lambda s, vs: self.call(
                s, vs[0], args, kw, node))
        if isinstance(f, FuncV):
            return self.invoke(st, f, args, kw, node)
        if isinstance(f, BoundV):
            return self.invoke(st, f.func, [f.self_] + args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, NativeV):
            return f.fn(self, st, args, kw, node)
        if isinstance(f, MethV):
            if isinstance(f.recv, IteV):
                return self.lift(st, [f.recv], lambda s, vs: self.call(
                    s, self.getattr(s, vs[0], f.name, node), args, kw, node))
            return self.models.method(self, st, f, args, kw, node)
        if isinstance(f, BuiltinV):
            return self.models.builtin(self, st, f.name, args, kw, node)
        if isinstance(f, ExtV):
            return self.models.ext_call(self, st, f.path, args, kw, node)
        if isinstance(f, ObjV):
            m = self.class_attr(st, f.cls, '__call__')
            if m is not None:
                return self.call(st, BoundV(m, f), args, kw, node)
        if isinstance(f, DecorV):
            return self.models.decorate(self, st, f, args, node)
        if isinstance(f, PartialV):
            return self.call(st, f.func, f.args + args, dict(f.kw, **kw),
                             node)
        return self.opaque_call(st, self.callee_name(st, f), args, kw, node)

    def callee_name(self, st, f):
        if isinstance(f, Term):
            return 'callval:' + T.show(f)
        return 'callval:%r' % (f,)

    @staticmethod
    def receiver(f, args):
        return args[0].id if f.cls and args and isinstance(
            args[0], ObjV) else None

    def recursion(self, f, args):
        """Active calls of a function (of a method: on this object)."""
        k = self.receiver(f, args)
        n = sum(1 for a, b in self.recv if a is f.node and b == k)
        return n if n > 3 else sum(
            1 for a, b in self.recv if a is f.node) - 20

    def opaque_call(self, st, name, args, kw, node, pure=True):
        self.ev_log(st, 'extcall', node, name=name, args=args, kw=kw)
        if self.ext_may_raise and self.ext_may_raise(name):
            b = T.boolsym(self.fresh('raises:' + name))
            bad = st.fork(b)
            if bad is not None:
                self.sinks[-1].append((bad, ExcV('Exception', ()), node))
            ok = st.fork(T.bnot(b))
            st.become(ok)
        ts = [self.to_term(st, a) for a in args]
        for k in sorted(kw):
            ts += ['kw:' + k, self.to_term(st, kw[k])]
        if not pure:
            ts.append(T.sym(self.fresh('call'), 'any'))
        r = T._mk('fn', ('ext:' + name, tuple(ts)), 'any')
        return r

    def bind_args(self, st, f, args, kw, node):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        kw = dict(kw)
        n = len(params)
        for i, p in enumerate(params):
            if i < len(args):
                d[p] = args[i]
            elif p in kw:
                d[p] = kw.pop(p)
            else:
                j = i - (n - len(f.defaults))
                if j >= 0:
                    d[p] = f.defaults[j]
                else:
                    d[p] = T.sym('missing:%s.%s' % (f.name, p), 'any')
                    if '**' not in kw:
                        self.ev_log(st, 'badcall', node, func=f.qual,
                                    why='missing argument %s' % p)
        extra = args[n:]
        if a.vararg:
            d[a.vararg.arg] = TupleV(extra)
        elif extra:
            self.ev_log(st, 'badcall', node, func=f.qual,
                        why='too many arguments')
        for x in a.kwonlyargs:
            if x.arg in kw:
                d[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                d[x.arg] = f.kwdefaults[x.arg]
            else:
                d[x.arg] = T.sym('missing:%s.%s' % (f.name, x.arg), 'any')
        if a.kwarg:
            d[a.kwarg.arg] = self.dict_(st, kw)
        elif kw:
            self.ev_log(st, 'badcall', node, func=f.qual,
                        why='unexpected argument %s' % ', '.join(sorted(kw)))
        return d

    def invoke(self, st, f, args, kw, node, raw=False):
        q = f.qual
        ov = self.overrides.get(q)
        if ov is None:
            for c in (f.name, (f.cls.name + '.' + f.name) if f.cls else None):
                if c and c in self.overrides:
                    ov = self.overrides[c]
                    break
        if f.flags.get('ctxmgr') and not raw:
            return CtxGenV(f, args, kw)
        self.called[q] = self.called.get(q, 0) + 1
        self.ev_log(st, 'call', node, func=q, args=args, kw=kw, fv=f)
        if ov is not None:
            r = ov(self, st, f, args, kw, node)
            if r is not NotImplemented:
                return r
        if len(self.frames) > self.MAXDEPTH or \
                self.recursion(f, args) > 3:
            return self.opaque_call(st, q, args, kw, node)
        self.inlined.add(q)
        d = self.bind_args(st, f, args, kw, node)
        caller = st.env
        env = self.new(st, ('env', f.env, d))
        st.env = env
        self.frames.append(f)
        self.recv.append((f.node, self.receiver(f, args)))
        save = (self.in_class, self.cur_class)
        self.in_class, self.cur_class = False, None
        out = Out()
        try:
            r = self.exec_block(st.clone(), f.node.body, out)
        finally:
            self.frames.pop()
            self.recv.pop()
            self.in_class, self.cur_class = save
        rets = list(out.ret)
        if r is not None:
            rets.append((r, None))
        if not rets:
            raise Dead()
        cur, val = rets[0]
        for s2, v2 in rets[1:]:
            pc = T.bor(cur.pc, s2.pc)
            c = T.restrict(cur.pc, pc)
            val = merge_val(c, val, v2)
            cur = join2(cur, s2)
        cur.env = caller
        cur.facts = st.facts
        # the callee's environment is garbage unless captured
        st.become(cur)
        self.ev_log(st, 'return', node, func=q, value=val)
        return val

    def instantiate(self, st, cls, args, kw, node):
        if any(isinstance(b, BuiltinV) and b.name.endswith(
                ('Exception', 'Error', 'Warning')) for b in cls.ext_bases()):
            return ExcV(cls.name, tuple(args), cls)
        o = self.obj(st, cls)
        self.ev_log(st, 'new', node, cls=cls, obj=o, args=args, kw=kw)
        init = self.class_attr(st, cls, '__init__')
        if init is not None:
            self.call(st, BoundV(init, o), args, kw, node)
        elif getattr(cls, 'dataclass', False):
            names = [x.target.id for x in cls.node.body
                     if isinstance(x, ast.AnnAssign)]
            d = {}
            for i, n in enumerate(names):
                if i < len(args):
                    d[n] = args[i]
                elif n in kw:
                    d[n] = kw[n]
                else:
                    v = self.class_attr(st, cls, n)
                    if v is not None:
                        d[n] = v
            st.heap[o.id] = ('obj', cls, d)
        return o

    # ------------------------------------------------------------ attributes

    def getattr(self, st, o, name, node):
        def f(st, vs):
            o, = vs
            if isinstance(o, ObjV):
                def g(st, p):
                    d = p[-1]
                    if name in d and d[name] is not UNDEF:
                        v = d[name]
                        if isinstance(v, IteV):
                            if v.a is UNDEF:
                                return v.b
                            if v.b is UNDEF:
                                return v.a
                        return v
                    v = self.class_attr(st, o.cls, name)
                    if v is None:
                        if name == '__class__':
                            return o.cls
                        if name == '__dict__':
                            return T.fn('dictof', self.to_term(st, o))
                        ga = self.class_attr(st, o.cls, '__getattr__')
                        if ga is not None:
                            return self.call(st, BoundV(ga, o), [name], {},
                                             node)
                        if not o.cls.ext_bases():
                            self.note('attribute %s of %s' %
                                      (name, o.cls.name), node)
                            self.ev_log(st, 'noattr', node, obj=o, attr=name)
                        return T.sym('attr:%s#%d.%s' % (
                            o.cls.name, o.id, name), 'any')
                    return self.bindattr(st, v, o, node)
                return self.payload(st, o, g)
            if isinstance(o, TreeV):
                v = self.tree_get(st, o, '.' + name)
                if v is not UNDEF:
                    return v
                return o.to(name) if name in o.kids else MethV(o, name)
            if isinstance(o, ClassV):
                v = self.class_attr(st, o, name)
                if v is None:
                    if name == '__name__':
                        return o.name
                    return T.sym('cattr:%s.%s' % (o.name, name), 'any')
                if isinstance(v, WrapV):
                    return v.func if v.kind == 'static' else \
                        BoundV(v.func, o)
                return v
            if isinstance(o, SuperV):
                mro = o.obj.cls.mro() if isinstance(o.obj, ObjV) \
                    else o.cls.mro()
                i = mro.index(o.cls) if o.cls in mro else 0
                for c in mro[i+1:]:
                    d = st.heap[c.cell][-1]
                    if name in d:
                        return self.bindattr(st, d[name], o.obj, node)
                return NativeV('super.' + name,
                               lambda it, s, a, k, n: None)
            if isinstance(o, ModV):
                d = st.heap[o.mod.env][2]
                if name in d:
                    return d[name]
                sub = o.mod.name + '.' + name
                if sub in self.prog.mods:
                    return ModV(self.prog.mods[sub])
                return T.sym('undefined:%s' % sub, 'any')
            if isinstance(o, ExtV):
                return self.extattr(o.path, name)
            if isinstance(o, FuncV):
                if name == '__name__':
                    return o.name
                return T.sym('fattr:%s.%s' % (o.name, name), 'any')
            return self.models.attr(self, st, o, name, node)
        return self.lift(st, [o], f)

    def tree_get(self, st, o, key):
        v = st.heap[o.cell][-1].get(o.path + (key,), UNDEF)
        if isinstance(v, IteV) and UNDEF in (v.a, v.b):
            return v.b if v.a is UNDEF else v.a
        if v is UNDEF and o.read is not None:
            r = o.read(self, st, o.path + (key,))
            return UNDEF if r is None else r
        return v

    def tree_set(self, st, o, key, v, node):
        p = st.heap[o.cell]
        d = dict(p[-1])
        d[o.path + (key,)] = v
        st.heap[o.cell] = p[:-1] + (d,)
        self.ev_log(st, 'tree', node, path=o.path + (key,), value=v)

    def bindattr(self, st, v, o, node):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, PropV):
            return self.call(st, v.fget, [o], {}, node)
        if isinstance(v, WrapV):
            return v.func if v.kind == 'static' else BoundV(v.func, o.cls)
        return v

    def setattr(self, st, o, name, v, node):
        def f(st, vs):
            o, = vs
            if isinstance(o, ObjV):
                cv = self.class_attr(st, o.cls, name)
                if isinstance(cv, PropV) and cv.fset is not None:
                    self.call(st, cv.fset, [o, v], {}, node)
                    return None
                self.ev_log(st, 'setattr', node, obj=o, attr=name, value=v)

                def g(st, p):
                    d = dict(p[-1])
                    d[name] = v
                    st.heap[o.id] = p[:-1] + (d,)
                return self.payload(st, o, g)
            if isinstance(o, ClassV):
                for c in o.mro():
                    if name in st.heap[c.cell][-1]:
                        break
                p = st.heap[o.cell]
                d = dict(p[-1])
                d[name] = v
                st.heap[o.cell] = p[:-1] + (d,)
                self.ev_log(st, 'setattr', node, obj=o, attr=name, value=v)
                return None
            if isinstance(o, ModV):
                p = st.heap[o.mod.env]
                d = dict(p[2])
                d[name] = v
                st.heap[o.mod.env] = ('env', p[1], d)
                return None
            if isinstance(o, TreeV):
                self.tree_set(st, o, '.' + name, v, node)
                return None
            if isinstance(o, ArrV) and name == 'shape':
                return None
            self.ev_log(st, 'setattr', node, obj=o, attr=name, value=v)
            return None
        return self.lift(st, [o], f)

    # ------------------------------------------------------------ truth

    def truth(self, st, v, node=None):
        if isinstance(v, B):
            return v
        if isinstance(v, Term):
            if v.kind == 'any' and v.op in ('sym', 'fn'):
                return T.boolfn('truth', v)
            return T.bnot(T.eq(v, T.ZERO))
        if v is None:
            return FALSE
        if isinstance(v, (str, bytes)):
            return TRUE if len(v) else FALSE
        if isinstance(v, TupleV):
            return TRUE if v.items else FALSE
        if isinstance(v, IteV):
            a = self.truth(st, v.a) if v.a is not UNDEF else FALSE
            b = self.truth(st, v.b) if v.b is not UNDEF else FALSE
            return T.bite(v.c, a, b)
        if isinstance(v, (ListV, DictV)):
            p = st.heap[v.id]
            if p[0] in ('list', 'dict'):
                return TRUE if len(p[-1] if p[0] == 'dict' else p[1]) \
                    else FALSE
            if p[0] == 'slist':
                return T.gt0(p[1])
            if p[0] == 'phi':
                def tr(q):
                    if q[0] == 'phi':
                        return T.bite(q[1], tr(q[2]), tr(q[3]))
                    if q[0] == 'slist':
                        return T.gt0(q[1])
                    return TRUE if len(q[-1] if q[0] == 'dict' else q[1]) \
                        else FALSE
                return tr(p)
        if isinstance(v, ArrV):
            return T.boolfn('truth', self.to_term(st, v))
        if v is Ellipsis:
            return TRUE
        return TRUE

    def compare(self, st, op, a, b, node):
        def f(st, vs):
            a, b = vs
            return self._compare(st, op, a, b, node)
        return self.lift(st, [a, b], f)

    def _compare(self, st, op, a, b, node):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            pos = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op]
            r = self._compare(st, pos, a, b, node)
            if isinstance(r, B):
                return T.bnot(r)
            return self.ew(st, lambda x: T.sub(T.ONE, x), [r])
        if op == 'In':
            return self.contains(st, a, b, node)
        if op == 'Is':
            return self.is_(st, a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            if not (isinstance(a, (ArrV, Term, B)) and
                    isinstance(b, (ArrV, Term, B))):
                return FALSE if op == 'Eq' else T.boolsym(self.fresh('cmp'))
            g = {'Eq': T.eq, 'Lt': T.lt, 'LtE': T.le,
                 'Gt': lambda x, y: T.lt(y, x),
                 'GtE': lambda x, y: T.le(y, x)}[op]
            return self.ew(st, lambda x, y: T.b2t(g(x, y)), [a, b])
        if numeric(a) and numeric(b):
            if isinstance(a, B) and isinstance(b, B) and op == 'Eq':
                return T.bite(a, b, T.bnot(b))
            x, y = to_num(a), to_num(b)
            if op == 'Eq':
                if a is b:
                    return TRUE
                if (x.kind == 'any' or y.kind == 'any') and \
                        not (T.is_const(x) or T.is_const(y)):
                    return T.boolfn('eq', *sorted((x, y), key=lambda t: t.id))
                return T.eq(x, y)
            if op == 'Lt':
                return T.lt(x, y)
            if op == 'LtE':
                return T.le(x, y)
            if op == 'Gt':
                return T.lt(y, x)
            if op == 'GtE':
                return T.le(y, x)
        if op == 'Eq':
            return self.eqval(st, a, b)
        self.note('compare %s %r %r' % (op, a, b), node)
        return T.boolfn('cmp:' + op, self.to_term(st, a), self.to_term(st, b))

    def eqval(self, st, a, b):
        if same(a, b):
            return TRUE
        if isinstance(a, str) and isinstance(b, str):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and isinstance(y, str):
                if x.kind in ('any', 'str') or (
                        x.op == 'fn' and x.args[0] == 'fstr'):
                    return T.boolfn('eqs', x, y)
                return FALSE
            if x is None:
                return self.is_(st, y, None)
            if isinstance(x, (ObjV, FuncV, ClassV)) and \
                    not isinstance(y, Term):
                return FALSE
            if isinstance(x, (ListV, TupleV)) and isinstance(y, str):
                return FALSE
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return FALSE
            return T.band(*[self.compare(st, 'Eq', x, y, None)
                            for x, y in zip(a.items, b.items)])
        if isinstance(a, ListV) and isinstance(b, ListV):
            p, q = st.heap[a.id], st.heap[b.id]
            if p[0] == q[0] == 'list':
                if len(p[1]) != len(q[1]):
                    return FALSE
                return T.band(*[self.compare(st, 'Eq', x, y, None)
                                for x, y in zip(p[1], q[1])])
        if isinstance(a, (BuiltinV, ExtV)) and isinstance(b, (
                BuiltinV, ExtV, ClassV)):
            return FALSE
        return T.boolfn('eq', *sorted(
            (self.to_term(st, a), self.to_term(st, b)),
            key=lambda t: t.id if isinstance(t, Term) else 0))

    def is_(self, st, a, b):
        if same(a, b):
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, Term) and y.kind == 'any':
                    if y.op == 'fn' and y.args[0].startswith('ext:numpy'):
                        return FALSE
                    return T.boolfn('isnone', y)
                return FALSE
            if isinstance(x, B) and x in (TRUE, FALSE):
                if isinstance(y, B):
                    return T.bite(x, y, T.bnot(y))
                if isinstance(y, Term) and y.kind == 'any':
                    return T.boolfn('is', y, x)
                return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return FALSE
        if isinstance(a, (ClassV, BuiltinV, ExtV, FuncV)) and \
                isinstance(b, (ClassV, BuiltinV, ExtV, FuncV)):
            return FALSE
        if isinstance(a, str) and isinstance(b, str):
            return FALSE
        if numeric(a) and numeric(b):
            return self._compare(st, 'Eq', a, b, None)
        if isinstance(a, Term) and a.kind == 'any' or \
                isinstance(b, Term) and b.kind == 'any':
            ts = [self.to_term(st, x) for x in (a, b)]
            return T.boolfn('is', *sorted(ts, key=str))
        return FALSE

    def contains(self, st, a, b, node):
        if isinstance(b, DictV):
            p = st.heap[b.id]
            if p[0] == 'dict':
                k = self.dkey(st, a)
                r = FALSE
                for kk, vv in p[-1].items():
                    pres = TRUE
                    if isinstance(vv, IteV):
                        if vv.a is UNDEF:
                            pres = T.bnot(vv.c)
                        elif vv.b is UNDEF:
                            pres = vv.c
                    if kk == k:
                        r = T.bor(r, pres)
                    elif isinstance(a, (Term, B)) or \
                            isinstance(kk, (Term, B)):
                        r = T.bor(r, T.band(
                            pres, self.compare(st, 'Eq', a, kk, node)))
                return r
        if isinstance(b, str) and isinstance(a, str):
            return TRUE if a in b else FALSE
        if isinstance(b, (ListV, TupleV)) or (
                isinstance(b, ArrV) and self.rank(st, b) == 1):
            if isinstance(b, ListV) and st.heap[b.id][0] == 'phi':
                return self.payload(st, b, lambda s, p: self.contains(
                    s, a, b, node))
            items = self.concrete_items(st, b)
            if items is not None:
                r = FALSE
                for x in items:
                    if isinstance(a, ObjV) and isinstance(x, ObjV):
                        c = TRUE if a == x else FALSE
                    else:
                        c = self.compare(st, 'Eq', a, x, node)
                    if not isinstance(c, B):
                        c = T.boolsym(self.fresh('in'))
                    r = T.bor(r, c)
                return r
        if isinstance(b, RangeV) and isinstance(a, Term):
            return T.band(T.le(b.lo, a), T.lt(a, b.hi))
        return T.boolfn('in', self.to_term(st, a), self.to_term(st, b))

    # ------------------------------------------------------------ lists

    def list_append(self, st, l, v, node):
        def g(st, p):
            if p[0] == 'list':
                st.heap[l.id] = ('list', p[1] + (v,))
            elif p[0] == 'slist':
                app = p[4] if len(p) > 4 else ()
                st.heap[l.id] = ('slist', T.add(p[1], T.ONE), p[2], p[3],
                                 app + (v,))
        self.ev_log(st, 'append', node, list=l, value=v)
        self.payload(st, l, g)

    def list_extend(self, st, l, v, node):
        items = self.concrete_items(st, v)

        def g(st, p):
            if p[0] == 'list' and items is not None:
                st.heap[l.id] = ('list', p[1] + tuple(items))
            else:
                st.heap[l.id] = self.havoc_list(st, p, self.fresh('ext'))
        self.ev_log(st, 'extend', node, list=l, value=v)
        self.payload(st, l, g)

    # ------------------------------------------------------------ arrays

    def rank(self, st, v):
        if isinstance(v, ArrV):
            return len(self.shape(st, v))
        return 0

    def shape(self, st, v):
        p = st.heap[v.id]
        if p[0] == 'phi':
            a = st.clone()
            a.heap[v.id] = p[2]
            return self.shape(a, v)
        if v.view is not None:
            return v.view[0]
        if p[0] == 'lane':
            return p[1]
        if p[0] == 'stk':
            inner = ()
            if p[1]:
                x = p[1][0]
                for lf in leaves(x):
                    if isinstance(lf, ArrV):
                        inner = self.shape(st, lf)
                        break
            return (C(len(p[1])),) + tuple(inner)
        raise AnalysisError('shape of %s' % p[0])

    def content(self, st, v):
        """(shape, content term over lanes of v)."""
        p = st.heap[v.id]
        if p[0] == 'phi':
            a, b = st.clone(), st.clone()
            a.heap[v.id], b.heap[v.id] = p[2], p[3]
            sa, ca = self.content(a, v)
            sb, cb = self.content(b, v)
            return sa, T.ite(p[1], ca, cb)
        if p[0] == 'stk':
            sh, c = self.stk_content(st, p)
        else:
            sh, c = p[1], p[2]
        if v.view is None:
            return sh, c
        return v.view[0], T.subst(c, self.viewmap(v.view, len(sh)))

    def viewmap(self, view, r):
        m = {}
        for ax, sp in enumerate(view[1]):
            L = lane(r - ax)
            if sp[0] == 'i':
                m[L] = sp[1]
            else:
                m[L] = T.add(T.mul(sp[3], lane(sp[1])), sp[2])
        return m

    def stk_content(self, st, p):
        items = []
        sh = ()
        for x in p[1]:
            if isinstance(x, IteV):
                a = self.elem_content(st, x)
                items.append(a[1])
                sh = a[0] or sh
            elif isinstance(x, ArrV):
                s, c = self.content(st, x)
                sh = s
                items.append(c)
            else:
                items.append(to_num(x) if numeric(x) else self.to_term(st, x))
        k = len(sh) + 1
        L = lane(k)
        if not items:
            return (C(0),) + tuple(sh), T.ZERO
        r = items[-1]
        for i in range(len(items)-2, -1, -1):
            r = T.ite(T.eq(L, C(i)), items[i], r)
        return (C(len(items)),) + tuple(sh), r

    def elem_content(self, st, x):
        if isinstance(x, IteV):
            if x.a is UNDEF:
                return self.elem_content(st, x.b)
            if x.b is UNDEF:
                return self.elem_content(st, x.a)
            a, b = self.elem_content(st, x.a), self.elem_content(st, x.b)
            return a[0] or b[0], T.ite(x.c, a[1], b[1])
        if isinstance(x, ArrV):
            return self.content(st, x)
        return (), (to_num(x) if numeric(x) else self.to_term(st, x))

    def is_stk(self, st, v):
        return isinstance(v, ArrV) and v.view is None and \
            st.heap[v.id][0] == 'stk'

    def ew(self, st, f, vals):
        """Elementwise f over arrays / scalars with numpy broadcasting."""
        vals = list(vals)
        for i, v in enumerate(vals):
            if isinstance(v, IteV):
                return self.lift(st, vals, lambda s, vs: self.ew(s, f, vs))
            if isinstance(v, ArrV) and st.heap[v.id][0] == 'phi':
                return self.payload(st, v, lambda s, p: self.ew(s, f, vals))
            if isinstance(v, (ListV, TupleV)):
                vals[i] = self.models.np_array(self, st, v)
            elif v is None:
                raise Dead()        # arithmetic with None raises TypeError
            elif isinstance(v, (str, bytes)):
                vals[i] = T.sym(self.fresh('str'), 'any')
            elif not isinstance(v, (ArrV, Term, B)):
                vals[i] = self.to_term(st, v)
        if not any(isinstance(v, ArrV) for v in vals):
            r = f(*[to_num(v) for v in vals])
            return r
        if any(self.is_stk(st, v) for v in vals):
            rk = max(self.rank(st, v) for v in vals)
            top = [v for v in vals if self.rank(st, v) == rk]
            if all(self.is_stk(st, v) for v in top):
                n = len(st.heap[top[0].id][1])
                rows = []
                for i in range(n):
                    sub = []
                    for v in vals:
                        if isinstance(v, ArrV) and self.rank(st, v) == rk:
                            its = st.heap[v.id][1]
                            sub.append(its[i] if i < len(its) else its[0])
                        else:
                            sub.append(v)
                    rows.append(self.ew(st, f, sub))
                r = self.stk(st, rows)
                for v in top:
                    if v.id in self.masked:
                        self.masked[r.id] = self.masked[v.id]
                return r
        rk = max(self.rank(st, v) for v in vals)
        shp = None
        cs = []
        for v in vals:
            if isinstance(v, ArrV):
                sh, c = self.content(st, v)
                cs.append(c)
                if len(sh) == rk:
                    if shp is None:
                        shp = list(sh)
                    else:
                        for k in range(rk):
                            if shp[k] is T.ONE:
                                shp[k] = sh[k]
            else:
                cs.append(to_num(v))
        # broadcast of unit axes of lower-rank operands
        for v in vals:
            if isinstance(v, ArrV):
                sh = self.shape(st, v)
                for k in range(len(sh)):
                    if shp[rk-1-k] is T.ONE:
                        shp[rk-1-k] = sh[len(sh)-1-k]
        # unit axes: the lane of a broadcast axis is pinned to 0
        for j, v in enumerate(vals):
            if isinstance(v, ArrV):
                sh = self.shape(st, v)
                m = {}
                for k in range(len(sh)):
                    if sh[len(sh)-1-k] is T.ONE and \
                            shp[rk-1-k] is not T.ONE:
                        m[lane(k+1)] = T.ZERO
                if m:
                    cs[j] = T.subst(cs[j], m)
        r = f(*cs)
        if isinstance(r, B):
            r = T.b2t(r)
        return self.arr(st, shp, r)

    BIN = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div,
           'Pow': T.power, 'Mod': lambda a, b: T.fn('mod', a, b),
           'FloorDiv': lambda a, b: T.fn('idiv', a, b)}

    def binop(self, st, op, a, b, node):
        def f(st, vs):
            a, b = vs
            if isinstance(a, ExcV) or isinstance(b, ExcV):
                return T.sym(self.fresh('x'), 'any')
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                return self.bitop(st, op, a, b, node)
            if op == 'MatMult':
                return self.models.np_dot(self, st, a, b)
            if isinstance(a, (str, ListV, TupleV)) or \
                    isinstance(b, (str, ListV, TupleV)):
                r = self.seqop(st, op, a, b, node)
                if r is not None:
                    return r
            if isinstance(a, Term) and a.op == 'fn' and a.args[0] == 'fstr' \
                    and op == 'Add' and isinstance(b, (Term, str)):
                return self.strcat([a, b])
            if isinstance(b, Term) and b.op == 'fn' and b.args[0] == 'fstr' \
                    and op == 'Add' and isinstance(a, (Term, str)):
                return self.strcat([a, b])
            g = self.BIN.get(op)
            if g is None:
                return T.fn('bin:' + op, self.to_term(st, a),
                            self.to_term(st, b))
            if op == 'Div' and not self.quiet_div:
                self.ev_log(st, 'div', node, num=a, den=b)
            if isinstance(a, ObjV):
                m = self.class_attr(st, a.cls, {
                    'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
                    'Div': '__truediv__', 'Pow': '__pow__'}.get(op, '?'))
                if m is not None:
                    return self.call(st, BoundV(m, a), [b], {}, node)
            return self.ew(st, g, [a, b])
        return self.lift(st, [a, b], f)

    quiet_div = False

    def bitop(self, st, op, a, b, node):
        if isinstance(a, B) and isinstance(b, B):
            return {'BitAnd': T.band, 'BitOr': T.bor,
                    'BitXor': lambda x, y: T.bite(x, T.bnot(y), y)}[op](a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            if op == 'BitAnd':
                return self.ew(st, lambda x, y: T.b2t(T.band(
                    T.bnot(T.eq(x, T.ZERO)), T.bnot(T.eq(y, T.ZERO)))),
                    [a, b])
            if op == 'BitOr':
                return self.ew(st, lambda x, y: T.b2t(T.bor(
                    T.bnot(T.eq(x, T.ZERO)), T.bnot(T.eq(y, T.ZERO)))),
                    [a, b])
        return T.fn('bit:' + op, self.to_term(st, a), self.to_term(st, b))

    def seqop(self, st, op, a, b, node):
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                return self.strcat([x if isinstance(x, str)
                                    else self.to_term(st, x)
                                    for x in (a, b)])
            if isinstance(a, ListV) and isinstance(b, ListV):
                x, y = self.concrete_items(st, a), self.concrete_items(st, b)
                if x is not None and y is not None:
                    return self.list_(st, x + y)
                return ListV(self.new(st, self.havoc_list(
                    st, ('list', ()), self.fresh('cat'))))
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
        if op == 'Mult':
            if isinstance(b, (str, ListV, TupleV)):
                a, b = b, a
            if T.is_const(b):
                n = int(T.cval(b))
                if isinstance(a, str):
                    return a * n
                if isinstance(a, TupleV):
                    return TupleV(a.items * n)
                x = self.concrete_items(st, a)
                if x is not None:
                    return self.list_(st, x * n)
            if isinstance(a, ListV) and isinstance(b, Term):
                x = self.concrete_items(st, a)
                if x is not None and len(x) == 1:
                    iv = T.sym(self.fresh('iv'), 'int')
                    return ListV(self.new(st, ('slist', b, iv, x[0])))
            if isinstance(a, str):
                return T.fn('repeat', a, self.to_term(st, b))
        if op == 'Mod' and isinstance(a, str):
            return T.fn('fmt', a, self.to_term(st, b))
        return None

    # ---- indexing

    def norm_index(self, i, n):
        if T.is_const(i) and T.cval(i) < 0:
            return T.add(n, i)
        return i

    def getitem(self, st, o, i, node):
        def f(st, vs):
            o, i = vs
            return self._getitem(st, o, i, node)
        if isinstance(i, TupleV) and any(isinstance(x, IteV)
                                         for x in i.items):
            return self.lift(st, [o] + list(i.items), lambda s, vs:
                             self._getitem(s, vs[0], TupleV(vs[1:]), node))
        return self.lift(st, [o, i], f)

    def _getitem(self, st, o, i, node):
        if isinstance(o, TreeV):
            v = self.tree_get(st, o, tkey(i))
            return v if v is not UNDEF else o.to(tkey(i))
        if isinstance(o, TupleV):
            if isinstance(i, Term) and T.is_const(i):
                k = int(T.cval(i))
                if -len(o.items) <= k < len(o.items):
                    return o.items[k]
            if isinstance(i, Term):
                v = o.items[-1]
                for k in range(len(o.items)-2, -1, -1):
                    v = merge_val(T.eq(i, C(k)), o.items[k], v)
                return v
            if isinstance(i, SliceV):
                sl = self.pyslice(i)
                if sl is not None:
                    return TupleV(o.items[sl])
        if isinstance(o, ListV):
            return self.payload(st, o, lambda s, p: self.list_get(
                s, o, p, i, node))
        if isinstance(o, DictV):
            return self.payload(st, o, lambda s, p: self.dict_get(
                s, o, p, i, node))
        if isinstance(o, ArrV):
            if st.heap[o.id][0] == 'phi':
                return self.payload(st, o, lambda s, p: self._getitem(
                    s, o, i, node))
            self.index_event(st, o, i, node)
            return self.arr_get(st, o, i, node)
        if isinstance(o, str) and isinstance(i, Term) and T.is_const(i):
            try:
                return o[int(T.cval(i))]
            except IndexError:
                pass
        if isinstance(o, str) and isinstance(i, SliceV):
            sl = self.pyslice(i)
            if sl is not None:
                return o[sl]
        if isinstance(o, ObjV):
            m = self.class_attr(st, o.cls, '__getitem__')
            if m is not None:
                return self.call(st, BoundV(m, o), [i], {}, node)
        if isinstance(o, (ClassV, BuiltinV, ExtV)):
            return o            # typing subscripts
        return T._mk('fn', ('item', (self.to_term(st, o),
                                     self.to_term(st, i))), 'any')

    indices = False

    def index_event(self, st, o, i, node):
        """Index and extent of an element access (for bounds checks)."""
        if not self.indices or not self.frames[-1].flags.get('numba'):
            return
        idx = list(i.items) if isinstance(i, TupleV) else [i]
        sh = list(self.shape(st, o))
        if any(x is Ellipsis or x is None for x in idx) or \
                len(idx) > len(sh):
            return
        for k, (x, n) in enumerate(zip(idx, sh)):
            if isinstance(x, Term):
                self.ev_log(st, 'index', node, i=x, n=n, axis=k, arr=o)

    def pyslice(self, s):
        out = []
        for x in (s.lo, s.hi, s.step):
            if x is None:
                out.append(None)
            elif T.is_const(x):
                out.append(int(T.cval(x)))
            else:
                return None
        return slice(*out)

    def list_get(self, st, o, p, i, node):
        if p[0] == 'list':
            items = p[1]
            if isinstance(i, Term):
                if T.is_const(i):
                    k = int(T.cval(i))
                    if -len(items) <= k < len(items):
                        return items[k]
                    self.ev_log(st, 'indexerror', node, obj=o, idx=i)
                    return T.sym(self.fresh('oob'), 'any')
                if not items:
                    return T.sym(self.fresh('oob'), 'any')
                v = items[-1]
                for k in range(len(items)-2, -1, -1):
                    v = merge_val(T.eq(i, C(k)), items[k], v)
                return v
            if isinstance(i, SliceV):
                sl = self.pyslice(i)
                if sl is not None:
                    return self.list_(st, items[sl])
        if p[0] == 'slist':
            app = p[4] if len(p) > 4 else ()
            if isinstance(i, Term):
                if T.is_const(i) and T.cval(i) < 0:
                    k = int(T.cval(i))
                    if -k <= len(app):
                        return app[k]
                    return self.slist_elem(st, p, T.add(
                        p[1], i, C(len(app)) if False else T.ZERO))
                return self.slist_elem(st, p, i)
            if isinstance(i, SliceV):
                return ListV(self.new(st, self.havoc_list(
                    st, p, self.fresh('slice'))))
        return T._mk('fn', ('item', (self.to_term(st, o),
                                     self.to_term(st, i))), 'any')

    def dict_get(self, st, o, p, i, node):
        if p[0] == 'dict':
            d = p[-1]
            k = self.dkey(st, i)
            if k in d:
                v = d[k]
                if isinstance(v, IteV):
                    if v.a is UNDEF:
                        return v.b
                    if v.b is UNDEF:
                        return v.a
                return v
            if isinstance(i, (Term, IteV)) and d:
                v = UNDEF
                missing = TRUE
                for kk, vv in d.items():
                    c = self.compare(st, 'Eq', i, kk, node)
                    v = vv if v is UNDEF else merge_val(c, vv, v)
                    missing = T.band(missing, T.bnot(c))
                bad = st.fork(missing)
                if bad is not None:
                    self.ev_log(bad, 'raise', node,
                                exc=ExcV('KeyError', ()))
                    self.sinks[-1].append((bad, ExcV('KeyError', ()), node))
                ok = st.fork(T.bnot(missing))
                if ok is None:
                    raise Dead()
                st.become(ok)
                return v
            self.ev_log(st, 'raise', node, exc=ExcV('KeyError', (i,)))
            self.sinks[-1].append((st.clone(), ExcV('KeyError', (i,)), node))
            raise Dead()
        return T._mk('fn', ('item', (self.to_term(st, o),
                                     self.to_term(st, i))), 'any')

    def arr_get(self, st, o, i, node):
        idx = list(i.items) if isinstance(i, TupleV) else [i]
        if self.is_stk(st, o):
            items = st.heap[o.id][1]
            h = idx[0] if idx else None
            if self.finite and len(idx) == 1 and isinstance(
                    h, (MaskV, ArrV)):
                m = self.mask_of(st, h)
                if m is not None and len(m) == len(items):
                    r = self.stk(st, items)
                    self.masked[r.id] = m
                    return r
                if isinstance(h, ArrV) and self.is_stk(st, h):
                    return self.stk(st, [
                        self.arr_get(st, o, k, node)
                        for k in st.heap[h.id][1]])
            if self.finite and isinstance(h, Term) and len(idx) == 1 and \
                    not T.is_const(h) and all(
                        isinstance(x, (Term, B)) for x in items):
                its = [to_num(x) for x in items]
                return T.fn('int:sel' if all(T.is_int(x) for x in its)
                            else 'sel', h, *its)
            if isinstance(h, Term):
                if T.is_const(h):
                    k = int(T.cval(h))
                    if -len(items) <= k < len(items):
                        v = items[k]
                        if len(idx) > 1:
                            return self.getitem(st, v, TupleV(idx[1:]), node)
                        return v
                    self.ev_log(st, 'indexerror', node, obj=o, idx=h)
                    return T.sym(self.fresh('oob'))
                else:
                    v = items[-1]
                    for k in range(len(items)-2, -1, -1):
                        v = merge_val(T.eq(h, C(k)), items[k], v)
                    if len(idx) > 1:
                        return self.getitem(st, v, TupleV(idx[1:]), node)
                    return v
            if isinstance(h, SliceV):
                sl = self.pyslice(h)
                if sl is not None and len(idx) == 1 and \
                        not any(isinstance(x, (ArrV, IteV)) for x in items):
                    a, b, d = sl.indices(len(items))
                    n = len(range(a, b, d))
                    return ArrV(o.id, ((C(n),), (('l', 1, C(a), C(d)),)))
                if sl is not None:
                    rows = items[sl]
                    if len(idx) > 1:
                        rows = [self.getitem(st, x, TupleV(idx[1:]), node)
                                for x in rows]
                        r = self.stk(st, rows)
                        if any(not isinstance(x, ArrV) for x in rows):
                            # numpy gives a view, this is a copy
                            self.columns.add(r.id)
                        return r
                    return self.stk(st, rows)
                return T.fn('item', self.to_term(st, o),
                            self.to_term(st, i))
            if isinstance(h, (ListV, TupleV)):
                ks = self.concrete_items(st, h)
                if ks is not None and all(T.is_const(k) for k in ks):
                    return self.stk(st, [items[int(T.cval(k))] for k in ks])
            if h is Ellipsis and len(idx) == 1:
                return o
            if h is None:
                pass
        sh = self.shape(st, o)
        self.ev_log(st, 'load', node, arr=o, idx=idx)
        r = self.make_view(st, o, sh, idx, node)
        return r

    def make_view(self, st, o, sh, idx, node):
        r = len(sh)
        # expand ellipsis
        n_real = sum(1 for x in idx if x is not None and x is not Ellipsis)
        if any(x is Ellipsis for x in idx):
            k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
            idx = idx[:k] + [SliceV(None, None, None)]*(r - n_real) + \
                idx[k+1:]
        else:
            idx = idx + [SliceV(None, None, None)]*(r - n_real)
        fancy = [x for x in idx if isinstance(x, (ArrV, ListV))]
        if fancy:
            return self.fancy_get(st, o, sh, idx, node)
        # build list of (axis spec) and result axes
        specs = []        # per axis of o
        res = []          # result axes: ('ax', k, n) | ('new',)
        ax = 0
        for x in idx:
            if x is None:
                res.append(('new', None, T.ONE))
                continue
            if ax >= r:
                self.note('too many indices', node)
                return T.sym(self.fresh('idx'))
            n = sh[ax]
            if isinstance(x, SliceV):
                lo, hi, step = x.lo, x.hi, x.step
                step = T.ONE if step is None else step
                if T.is_const(step) and T.cval(step) < 0:
                    lo2 = T.sub(n, T.ONE) if lo is None else \
                        self.norm_index(lo, n)
                    if hi is None:
                        ln = T.add(lo2, T.ONE)
                    else:
                        ln = T.sub(lo2, self.norm_index(hi, n))
                    if step is not C(-1):
                        ln = T.fn('ceil', T.div(ln, T.neg(step)))
                else:
                    lo2 = T.ZERO if lo is None else self.norm_index(lo, n)
                    hi2 = n if hi is None else self.norm_index(hi, n)
                    ln = T.sub(hi2, lo2)
                    if step is not T.ONE:
                        ln = T.fn('ceil', T.div(ln, step))
                res.append(('ax', len(specs), ln))
                specs.append(['l', None, lo2, step])
            elif isinstance(x, (Term, B)):
                specs.append(['i', self.norm_index(to_num(x), n)])
            else:
                specs.append(['i', self.to_term(st, x)])
            ax += 1
        nr = len(res)
        for j, (kind, k, n) in enumerate(res):
            if kind == 'ax':
                specs[k][1] = nr - j
        shape = tuple(n for _, _, n in res)
        # compose with existing view
        if o.view is not None:
            base = []
            m = {}
            for a, sp in enumerate(o.view[1]):
                if sp[0] == 'i':
                    base.append(sp)
                else:
                    q = specs[r - sp[1]]       # axis of o for lane sp[1]
                    if q[0] == 'i':
                        base.append(('i', T.add(T.mul(sp[3], q[1]), sp[2])))
                    else:
                        base.append(('l', q[1],
                                     T.add(T.mul(sp[3], q[2]), sp[2]),
                                     T.mul(sp[3], q[3])))
            view = (shape, tuple(tuple(b) for b in base))
        else:
            view = (shape, tuple(tuple(s) for s in specs))
        v = ArrV(o.id, view)
        if nr == 0:
            p = st.heap[o.id]
            if p[0] == 'stk':
                bsh, c = self.stk_content(st, p)
            else:
                bsh, c = p[1], p[2]
            return T.subst(c, self.viewmap(view, len(bsh)))
        return v

    def fancy_get(self, st, o, sh, idx, node):
        r = len(sh)
        bsh, c = self.content(st, o)
        if any(x is None for x in idx):
            return T.sym(self.fresh('fancy'))
        m = {}
        shape = []
        nres = 0
        # only one fancy index supported exactly
        fi = [k for k, x in enumerate(idx) if isinstance(x, (ArrV, ListV))]
        x = idx[fi[0]]
        if isinstance(x, ListV):
            x = self.models.np_array(self, st, x)
        if len(fi) == 1:
            xsh, xc = self.content(st, x)
            if len(xsh) == r and r == 1 or len(xsh) == 1:
                if self.is_mask(xc):
                    pos = T.fn('int:nz', self.closed(xc, 1), lane(1))
                    n = T.fn('int:count', self.closed(xc, 1))
                else:
                    pos, n = xc, xsh[0]
                    if self.is_stk(st, x) and any(
                            T.is_const(y) and T.cval(y) < 0
                            for y in st.heap[x.id][1]):
                        pos = self.content(st, self.stk(st, [
                            self.norm_index(y, sh[fi[0]])
                            for y in st.heap[x.id][1]]))[1]
                # result axes in order
                axes = []
                for k, y in enumerate(idx):
                    if k == fi[0]:
                        axes.append(('f', n))
                    elif isinstance(y, SliceV) and y.lo is None and \
                            y.hi is None and y.step is None:
                        axes.append(('s', sh[k]))
                    elif isinstance(y, Term):
                        axes.append(('i', self.norm_index(y, sh[k])))
                    else:
                        return T.sym(self.fresh('fancy'))
                nr = sum(1 for a in axes if a[0] != 'i')
                j = 0
                mm = {}
                for k, a in enumerate(axes):
                    L = lane(r - k)
                    if a[0] == 'i':
                        mm[L] = a[1]
                    else:
                        nl = lane(nr - j)
                        j += 1
                        mm[L] = T.subst(pos, {lane(1): nl}) \
                            if a[0] == 'f' else nl
                        shape.append(a[1])
                return self.arr(st, shape, T.subst(c, mm))
        return T._mk('fn', ('item', (self.to_term(st, o), self.to_term(
            st, TupleV(idx)))), 'any')

    def mask_of(self, st, i):
        """Guards of a small boolean index, one per element."""
        if isinstance(i, TupleV) and len(i.items) == 1:
            i = i.items[0]
        if isinstance(i, MaskV):
            return i.items
        if isinstance(i, ArrV) and self.is_stk(st, i):
            out = []
            for x in st.heap[i.id][1]:
                if isinstance(x, B):
                    out.append(x)
                elif isinstance(x, Term) and (self.is_mask(x) or (
                        T.is_const(x) and T.cval(x) in (0, 1)
                        and self.finite)):
                    out.append(T.bnot(T.eq(x, T.ZERO)))
                else:
                    return None
            if all(b is TRUE or b is FALSE for b in out):
                return None
            return tuple(out)
        return None

    def is_mask(self, c):
        """content is a 0/1 valued guard."""
        if T.is_const(c):
            return False
        if c.op == 'ite':
            return all(self.is_mask(x) or (
                T.is_const(x) and T.cval(x) in (0, 1)) for x in c.args[1:])
        if c.op == 'add' and len(c.args[1]) == 1:
            k, co = c.args[1][0]
            return abs(co) == 1 and self.is_mask(k)
        return False

    def closed(self, c, r):
        """Content with its lanes bound (for use inside another term)."""
        return T.subst(c, {lane(k): T.sym('λ%d' % k, 'int')
                           for k in range(1, r+1)})

    def boundvar(self, body):
        d = 0
        for x in T.subterms(body):
            if x.op == 'sum':
                d = max(d, int(x.args[0].args[0][1:]))
        return T.sym('Σ%d' % (d+1), 'int')

    def reduce_sum(self, st, v, axis=None):
        if isinstance(v, (ListV, TupleV)):
            items = self.concrete_items(st, v)
            if items is not None:
                if not items:
                    return T.ZERO
                r = items[0]
                for x in items[1:]:
                    r = self.binop(st, 'Add', r, x, None)
                if isinstance(r, ArrV) and axis is None:
                    return self.reduce_sum(st, r)
                return r
        if isinstance(v, Term):
            if v.kind == 'any':
                return T.fn('sumof', v)
            return v
        if self.is_stk(st, v):
            items = st.heap[v.id][1]
            if axis is None or T.cval(axis) == 0:
                r = items[0]
                for x in items[1:]:
                    r = self.binop(st, 'Add', r, x, None)
                if isinstance(r, ArrV) and axis is None:
                    return self.reduce_sum(st, r)
                return r
            if T.cval(axis) in (1, -1):
                return self.stk(st, [self.reduce_sum(st, x) for x in items])
        sh, c = self.content(st, v)
        r = len(sh)
        if axis is None:
            for k in range(1, r+1):
                bv = self.boundvar(c)
                c = T.msum(bv, T.subst(c, {lane(k): bv}), sh[r-k])
            return c
        ax = int(T.cval(axis)) % r
        k = r - ax
        bv = self.boundvar(c)
        c2 = T.subst(c, {lane(k): bv})
        c2 = T.msum(bv, c2, sh[ax])
        m = {lane(j): lane(j-1) for j in range(k+1, r+1)}
        c2 = T.subst(c2, m)
        return self.arr(st, sh[:ax] + sh[ax+1:], c2)

    # ---- stores

    def fuse(self, st, v):
        """One array out of a choice between arrays of the same shape."""
        if not isinstance(v, IteV):
            return v
        sh = None
        for a in leaves(v):
            if a is UNDEF:
                continue
            if not isinstance(a, ArrV):
                return v
            try:
                s = tuple(self.shape(st, a))
            except AnalysisError:
                return v
            if sh is not None and s != sh:
                return v
            sh = s
        if sh is None:
            return v
        return self.arr(st, sh, self.elem_content(st, v)[1])

    def setitem(self, st, o, i, v, node):
        if isinstance(v, IteV) and not isinstance(o, (ListV, DictV)):
            v = self.fuse(st, v)

        def f(st, vs):
            o, i = vs
            return self._setitem(st, o, i, v, node)
        if isinstance(i, TupleV) and any(isinstance(x, IteV)
                                         for x in i.items):
            return self.lift(st, [o] + list(i.items), lambda s, vs:
                             self._setitem(s, vs[0], TupleV(vs[1:]), v, node))
        return self.lift(st, [o, i], f)

    def _setitem(self, st, o, i, v, node):
        if isinstance(o, TreeV):
            return self.tree_set(st, o, tkey(i), v, node)
        if isinstance(o, DictV):
            def g(st, p):
                if p[0] == 'dict':
                    d = dict(p[-1])
                    d[self.dkey(st, i)] = v
                    st.heap[o.id] = ('dict', d)
            self.ev_log(st, 'setitem', node, obj=o, idx=i, value=v)
            return self.payload(st, o, g)
        if isinstance(o, ListV):
            def g(st, p):
                if p[0] == 'list' and isinstance(i, Term):
                    items = list(p[1])
                    if T.is_const(i):
                        k = int(T.cval(i))
                        if -len(items) <= k < len(items):
                            items[k] = v
                    else:
                        items = [merge_val(T.eq(i, C(k)), v, x)
                                 for k, x in enumerate(items)]
                    st.heap[o.id] = ('list', tuple(items))
                elif p[0] == 'slist':
                    st.heap[o.id] = self.havoc_list(st, p, self.fresh('set'))
            self.ev_log(st, 'setitem', node, obj=o, idx=i, value=v)
            return self.payload(st, o, g)
        if isinstance(o, ArrV):
            if st.heap[o.id][0] == 'phi':
                return self.payload(st, o, lambda s, p: self._setitem(
                    s, o, i, v, node))
            self.index_event(st, o, i, node)
            return self.arr_set(st, o, i, v, node)
        if isinstance(o, ObjV):
            m = self.class_attr(st, o.cls, '__setitem__')
            if m is not None:
                return self.call(st, BoundV(m, o), [i, v], {}, node)
        self.ev_log(st, 'setitem', node, obj=o, idx=i, value=v)

    def owned(self, o):
        if o.id in self.columns:
            raise AnalysisError('store to a column view')

    def arr_set(self, st, o, i, v, node):
        self.owned(o)
        idx = list(i.items) if isinstance(i, TupleV) else [i]
        if self.is_stk(st, o):
            items = list(st.heap[o.id][1])
            h = idx[0]
            m = self.mask_of(st, h) if len(idx) == 1 and isinstance(
                h, (MaskV, ArrV)) and not any(isinstance(
                    x, ArrV) for x in items) else None
            if m is not None and len(m) == len(items):
                vi = None
                if isinstance(v, ArrV) and self.is_stk(st, v) and \
                        self.masked.get(v.id) == m:
                    vi = st.heap[v.id][1]
                if vi is not None or isinstance(v, (Term, B)):
                    self.ev_log(st, 'store', node, arr=o, idx=idx, value=v)
                    st.heap[o.id] = ('stk', tuple(
                        merge_val(g, to_num(vi[k] if vi is not None else v),
                                  x)
                        for k, (g, x) in enumerate(zip(m, items))))
                    return
            if isinstance(h, Term):
                if T.is_const(h):
                    k = int(T.cval(h))
                    if not -len(items) <= k < len(items):
                        self.ev_log(st, 'indexerror', node, obj=o, idx=h)
                        return
                    if len(idx) > 1:
                        self.setitem(st, items[k], TupleV(idx[1:])
                                     if len(idx) > 2 else idx[1], v, node)
                        return
                    self.ev_log(st, 'store', node, arr=o, idx=idx, value=v)
                    if isinstance(items[k], ArrV):
                        self.store_all(st, items[k], v, node)
                        return
                    items[k] = to_num(v) if numeric(v) else v
                    st.heap[o.id] = ('stk', tuple(items))
                    return
                if len(idx) == 1 and not any(isinstance(x, ArrV)
                                             for x in items):
                    self.ev_log(st, 'store', node, arr=o, idx=idx, value=v)
                    items = [merge_val(T.eq(h, C(k)), v, x)
                             for k, x in enumerate(items)]
                    st.heap[o.id] = ('stk', tuple(items))
                    return
            if isinstance(h, SliceV) and self.pyslice(h) is not None:
                ks = list(range(len(items)))[self.pyslice(h)]
                vi = None
                if isinstance(v, (ArrV, ListV, TupleV)):
                    vi = self.concrete_items(st, v)
                for n_, k in enumerate(ks):
                    x = v
                    if vi is not None and len(vi) == len(ks) and \
                            not (len(idx) == 1 and isinstance(items[k], ArrV)
                                 and self.rank(st, v) ==
                                 self.rank(st, items[k])):
                        x = vi[n_]
                    self.setitem(st, o, TupleV([C(k)] + idx[1:])
                                 if len(idx) > 1 else C(k), x, node)
                return
            if h is Ellipsis and len(idx) == 1:
                self.store_all(st, o, v, node)
                return
            # convert to lane form
            sh, c = self.stk_content(st, st.heap[o.id])
            st.heap[o.id] = ('lane', sh, c)
        sh = self.shape(st, o)
        if any(isinstance(x, (ArrV, ListV)) for x in idx):
            return self.mask_set(st, o, sh, idx, v, node)
        r = len(sh)
        n_real = sum(1 for x in idx if x is not None and x is not Ellipsis)
        if all(isinstance(x, (Term, B)) for x in idx) and len(idx) == r:
            w = v
            if isinstance(w, (ListV, TupleV)):
                w = self.to_term(st, w)
            if isinstance(w, ArrV):
                w = self.content(st, w)[1]
            if isinstance(w, IteV):
                w = self.to_term(st, w)
            if not numeric(w):
                w = self.to_term(st, w)
                if isinstance(w, str):
                    w = T.sym('str:' + w)
            ii = [self.norm_index(to_num(x), n) for x, n in zip(idx, sh)]
            self.ev_log(st, 'store', node, arr=o, idx=ii, value=w,
                        old=self.peek(st, o, ii))
            self.write(st, o, ii, to_num(w))
            return
        view = self.make_view(st, o, sh, idx, node)
        if isinstance(view, ArrV):
            self.store_all(st, view, v, node)

    def peek(self, st, o, ii):
        sh, c = self.content(st, o)
        r = len(sh)
        return T.subst(c, {lane(r-a): t for a, t in enumerate(ii)})

    def write(self, st, o, ii, w):
        """Store scalar w at index ii (terms) of array value o."""
        p = st.heap[o.id]
        ks = self.cells(st, o)
        if ks is not None:
            its = list(p[1])
            for n, k in enumerate(ks):
                its[k] = T.ite(T.eq(ii[0], C(n)), w, to_num(its[k]))
            st.heap[o.id] = ('stk', tuple(its))
            return
        if p[0] == 'stk':
            sh, c = self.stk_content(st, p)
            p = ('lane', sh, c)
        bsh, c = p[1], p[2]
        R = len(bsh)
        if o.view is None:
            pos = ii
        else:
            pos = []
            r = len(o.view[0])
            for sp in o.view[1]:
                if sp[0] == 'i':
                    pos.append(sp[1])
                else:
                    pos.append(T.add(T.mul(sp[3], ii[r - sp[1]]), sp[2]))
        g = T.band(*[T.eq(lane(R-a), t) for a, t in enumerate(pos)])
        st.heap[o.id] = ('lane', bsh, T.ite(g, w, c))

    def store_all(self, st, o, v, node):
        """o[...] = v for an array value o (maybe a view)."""
        if isinstance(v, IteV):
            return self.lift(st, [v], lambda s, vs: self.store_all(
                s, o, vs[0], node))
        if isinstance(v, (ListV, TupleV)):
            v = self.models.np_array(self, st, v)
        self.owned(o)
        if isinstance(v, ArrV) and st.heap[v.id][0] == 'phi':
            return self.payload(st, v, lambda s, p: self.store_all(
                s, o, v, node))
        ks = self.cells(st, o)
        if ks is not None:
            new = [self.getitem(st, v, C(n), node)
                   if isinstance(v, ArrV) and self.shape(st, v)[0]
                   is not T.ONE or isinstance(v, ArrV) and len(ks) == 1
                   else (self.getitem(st, v, C(0), node)
                         if isinstance(v, ArrV) else v)
                   for n in range(len(ks))]
            self.ev_log(st, 'store', node, arr=o, idx=[], value=v)
            its = list(st.heap[o.id][1])
            for k, x in zip(ks, new):
                its[k] = to_num(x) if numeric(x) else self.to_term(st, x)
            st.heap[o.id] = ('stk', tuple(its))
            return
        if self.is_stk(st, o):
            items = list(st.heap[o.id][1])
            vi = None
            if isinstance(v, ArrV):
                if self.is_stk(st, v) and self.rank(st, v) == \
                        self.rank(st, o):
                    vi = st.heap[v.id][1]
            self.ev_log(st, 'store', node, arr=o, idx=[], value=v)
            for k, x in enumerate(items):
                y = vi[k] if vi is not None else v
                if isinstance(x, ArrV):
                    self.store_all(st, x, y, node)
                else:
                    if vi is None and isinstance(v, ArrV):
                        y = self.getitem(st, v, C(k), node)
                    items[k] = to_num(y) if numeric(y) else y
            if not any(isinstance(x, ArrV) for x in items):
                st.heap[o.id] = ('stk', tuple(items))
            return
        sh = self.shape(st, o)
        r = len(sh)
        if isinstance(v, ArrV):
            vsh, w = self.content(st, v)
            m = {}
            for k in range(len(vsh)):
                if vsh[len(vsh)-1-k] is T.ONE and k < r and \
                        sh[r-1-k] is not T.ONE:
                    m[lane(k+1)] = T.ZERO
            if m:
                w = T.subst(w, m)
        else:
            w = to_num(v) if numeric(v) else self.to_term(st, v)
            if isinstance(w, str):
                w = T.sym('str:' + w)
        self.ev_log(st, 'store', node, arr=o, idx=[], value=v, whole=True,
                    content=w)
        p = st.heap[o.id]
        if p[0] == 'stk':
            bsh, c = self.stk_content(st, p)
        else:
            bsh, c = p[1], p[2]
        R = len(bsh)
        if o.view is None:
            st.heap[o.id] = ('lane', bsh, w)
            return
        g = TRUE
        inv = {}
        for a, sp in enumerate(o.view[1]):
            L = lane(R-a)
            if sp[0] == 'i':
                g = T.band(g, T.eq(L, sp[1]))
            else:
                # L = step*l + off  ->  l = (L-off)/step
                li = T.div(T.sub(L, sp[2]), sp[3])
                inv[lane(sp[1])] = li
                n = o.view[0][len(o.view[0]) - sp[1]]
                full = sp[2] is T.ZERO and sp[3] is T.ONE and (
                    n is bsh[a] or T.nf_equal(n, bsh[a]))
                if not full:
                    g = T.band(g, T.le(T.ZERO, li), T.lt(li, n))
                    if sp[3] is not T.ONE and sp[3] is not C(-1):
                        g = T.band(g, T.eq(T.fn('mod', T.sub(L, sp[2]),
                                                sp[3]), T.ZERO))
        w = T.subst(w, inv)
        st.heap[o.id] = ('lane', bsh, T.ite(g, w, c))

    def mask_set(self, st, o, sh, idx, v, node):
        r = len(sh)
        if len(idx) == 1:
            x = idx[0]
            if isinstance(x, ArrV):
                xsh, xc = self.content(st, x)
                if self.is_mask(xc) and len(xsh) == r:
                    w = v
                    if isinstance(w, ArrV):
                        # x[mask] = y[mask]: undo the compression
                        wsh, wc = self.content(st, w)
                        nz = T.fn('int:nz', self.closed(xc, 1), lane(1))
                        wc2 = T.subst(wc, {nz: lane(1)})
                        w = wc2
                    else:
                        w = to_num(w) if numeric(w) else self.to_term(st, w)
                    self.ev_log(st, 'store', node, arr=o, idx=idx, value=v,
                                mask=xc)
                    osh, oc = self.content(st, o)
                    g = T.bnot(T.eq(xc, T.ZERO))
                    new = self.arr(st, sh, T.ite(g, w, oc))
                    self.store_all_quiet(st, o, new, node)
                    return
        self.ev_log(st, 'store', node, arr=o, idx=idx, value=v)
        nm = self.fresh('fancyset')
        p = st.heap[o.id]
        R = len(p[1])
        st.heap[o.id] = ('lane', p[1], T.load(
            T.sym(nm), *[lane(R-i) for i in range(R)]))

    def store_all_quiet(self, st, o, v, node):
        n = len(self.log)
        self.store_all(st, o, v, node)
        del self.log[n:]

    # ------------------------------------------------------------ to_term

    def to_term(self, st, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, B):
            return T.b2t(v)
        if isinstance(v, str):
            return v
        if v is None:
            return 'None'
        if v is Ellipsis:
            return '...'
        if isinstance(v, bytes):
            return repr(v)
        if isinstance(v, ArrV):
            try:
                sh, c = self.content(st, v)
                return T._mk('fn', ('arr', (self.closed(c, len(sh)),) +
                                    tuple(sh)), 'any')
            except AnalysisError:
                return T.sym('arr#%d' % v.id, 'any')
        if isinstance(v, TupleV):
            return T._mk('fn', ('tuple', tuple(self.to_term(st, x)
                                               for x in v.items)), 'any')
        if isinstance(v, ListV):
            p = st.heap[v.id]
            if p[0] == 'list':
                return T._mk('fn', ('list', tuple(self.to_term(st, x)
                                                  for x in p[1])), 'any')
            if p[0] == 'slist':
                return T._mk('fn', ('slist', (
                    p[1], p[2], self.to_term(st, p[3]))), 'any')
            return T.sym('list#%d' % v.id, 'any')
        if isinstance(v, DictV):
            p = st.heap[v.id]
            if p[0] == 'dict':
                ts = []
                for k, x in p[-1].items():
                    ts += [k if isinstance(k, str) else self.to_term(
                        st, TupleV(k) if isinstance(k, tuple) else k),
                        self.to_term(st, x)]
                return T._mk('fn', ('dict', tuple(ts)), 'any')
            return T.sym('dict#%d' % v.id, 'any')
        if isinstance(v, IteV):
            a = self.to_term(st, v.a) if v.a is not UNDEF else 'undef'
            b = self.to_term(st, v.b) if v.b is not UNDEF else 'undef'
            if isinstance(a, Term) and isinstance(b, Term) and \
                    a.kind != 'any' and b.kind != 'any':
                return T.ite(v.c, a, b)
            return T._mk('fn', ('iteval', (v.c, a, b)), 'any')
        if isinstance(v, SliceV):
            return T._mk('fn', ('slice', tuple(
                self.to_term(st, x) for x in (v.lo, v.hi, v.step))), 'any')
        if isinstance(v, RangeV):
            return T._mk('fn', ('range', (v.lo, v.hi, v.step)), 'any')
        if isinstance(v, ObjV):
            return T.sym('obj:%s#%d' % (v.cls.name, v.id), 'any')
        if isinstance(v, FuncV):
            return T.sym('func:%s' % v.qual, 'any')
        if isinstance(v, ExtV):
            return T.sym('ext:' + v.path, 'any')
        if isinstance(v, BuiltinV):
            return T.sym('builtin:' + v.name, 'any')
        if isinstance(v, LazyIter):
            return T._mk('fn', ('iter:' + v.kind, tuple(
                self.to_term(st, x) for x in v.parts)), 'any')
        if isinstance(v, BoundV):
            return T._mk('fn', ('bound:' + v.func.name, (
                self.to_term(st, v.self_),)), 'any')
        return T.sym('val:%r' % (v,), 'any')


class DecorV(Val):
    def __init__(self, flags):
        self.flags = flags


class PartialV(Val):
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class CtxGenV(Val):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs
