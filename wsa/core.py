"""Obligations, verdicts, evidence, and the analysis context of a check."""

import json
import multiprocessing
import os
import re
import sys
import time

from . import terms as T
from .interp import (  # noqa: F401
    AnalysisError, Dead, Program, Interp, FuncV, NativeV, TupleV, ObjV,
    ListV, DictV, ArrV, IteV, ExcV, ClassV, BoundV, ExtV, TreeV, UNDEF, leaves,
    numeric, to_num)
from .terms import TRUE, FALSE, C, Term, B

REPO = os.environ.get('WSA_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(REPO)
    return _prog


# ------------------------------------------------------------------ taint

# opaque external functions whose value numbers are meaningful: the same
# function of the same arguments on both sides of an obligation.
OKEXT = set()
_bad = re.compile(r'(~|#|^undefined:|^missing:|^attr:|^cattr:|^fattr:|^np\.|'
                  r'^val:|^func:|^lookup:)')


# values whose structure was lost
STRUCT = ('iteval',)


# values a loop left behind that no loop node describes
_left = re.compile(r'(^|:)L\d+:|^broke:')


def taint(t, allow=(), loops=False):
    """Names of imprecise constructs a term depends on (empty: exact)."""
    bad = set()
    if not isinstance(t, (Term, B)):
        return bad
    subs = T.subterms(t)
    bound = set()
    for x in subs:
        if isinstance(x, Term) and x.op == 'mu':
            bound.update(x.args[0])
    for x in subs:
        if isinstance(x, Term):
            if x.op in ('sym', 'bsym'):
                n = x.args[0]
                if n.startswith(('uninit', 'undef~')) or x in bound:
                    continue
                if (_bad.search(n) or loops and _left.search(n)) and not any(
                        n.startswith(a) for a in allow):
                    bad.add(n)
            elif x.op in ('fn', 'bfn') and isinstance(x.args[0], str) and \
                    x.args[0].startswith('ext:') and \
                    x.args[0] not in OKEXT and not any(
                        x.args[0][4:].startswith(a) for a in allow):
                bad.add(x.args[0])
            elif x.op == 'fn' and x.args[0] in STRUCT:
                bad.add(x.args[0])
    return bad


class Obligation:
    def __init__(self, rule, instance, where, verdict, how, detail=None):
        self.rule, self.instance, self.where = rule, instance, where
        self.verdict, self.how, self.detail = verdict, how, detail


class Check:
    """One property's analysis: collects obligations."""

    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.ctxs = []
        self.functions = set()
        self.rules = {}
        self.minimum = {}
        self.notes = []
        self.notmodelled = []
        self.t0 = time.time()

    # -------------------------------------------------------- verdicts

    def add(self, rule, instance, where, ok, how='', detail=None):
        v = 'ok' if ok is True else 'undecided' if ok is None else 'violated'
        self.obs.append(Obligation(rule, instance, where, v, how, detail))
        return ok

    def ok(self, rule, instance, where='', how='structure'):
        return self.add(rule, instance, where, True, how)

    def bad(self, rule, instance, where, detail):
        return self.add(rule, instance, where, False, 'structure', detail)

    def und(self, rule, instance, where, why):
        return self.add(rule, instance, where, None, 'undecided', why)

    def expect(self, cond, rule, instance, where, detail=None):
        return self.add(rule, instance, where, bool(cond), 'structure',
                        None if cond else detail)

    def equal(self, rule, instance, where, got, want, assume=TRUE, allow=(),
              domains=None, defs=None, loops=True, **kw):
        """Obligation: got and want denote the same value under assume."""
        if isinstance(got, IteV):
            # decide each alternative where it is taken
            res = True
            for g, v in ((got.c, got.a), (T.bnot(got.c), got.b)):
                h = T.band(assume, g)
                if h is FALSE:
                    continue
                r = self.equal(rule, instance, where, v, want, h, allow,
                               domains, defs, loops=loops, **kw)
                res = r if res is True else res
            return res
        if isinstance(got, (str, type(None))) and assume is not TRUE and not (
                got == want and type(got) is type(want)):
            r = T.equal(C(0), C(1), assume=assume, domains=domains,
                        defs=defs, seed='%s%d' % (self.pid, self.seed))
            tn = taint(assume, allow, loops)
            if r.ok or tn:
                return self.und(rule, instance, where, 'value %r under a '
                                'condition that is not decided %s' % (
                                    got, sorted(tn)[:4]))
            return self.add(rule, instance, where, False, 'structure', {
                'found': repr(got), 'required': show(want), 'when':
                T.show(T.b2t(assume))[:600]})
        if not isinstance(got, (Term, B, int, float)):
            if got is None or isinstance(got, (str,)):
                if got == want and type(got) is type(want):
                    return self.ok(rule, instance, where, 'value-number')
                return self.add(rule, instance, where, False, 'structure',
                                'found %r, required %s' % (
                                    got, show(want)))
            return self.und(rule, instance, where,
                            'value not resolved: %r' % (got,))
        if isinstance(got, B):
            got = T.b2t(got)
        if want is None or isinstance(want, str):
            # a number where something else is required
            tn = taint(C(got), allow, True)
            if tn or assume is not TRUE and T.equal(
                    C(0), C(1), assume=assume, domains=domains, defs=defs,
                    seed='%s%d' % (self.pid, self.seed)).ok:
                return self.und(rule, instance, where, 'value not resolved')
            return self.add(rule, instance, where, False, 'structure',
                            'found %s, required %r' % (T.show(C(got))[:600],
                                                       want))
        if isinstance(want, B):
            want = T.b2t(want)
        got, want = C(got), C(want)
        if self.tier == 'thorough':
            kw['n'] = 3*kw.get('n', 60)
        r = T.equal(got, want, assume=assume, domains=domains, defs=defs,
                    seed='%s%d' % (self.pid, self.seed), **kw)
        if r.ok:
            if r.how == 'vacuous':
                return self.und(rule, instance, where,
                                'no interpretation satisfies the premises')
            return self.add(rule, instance, where, True, r.how)
        fin = loops and self.pid not in ('C09', 'C21') or any(
            x.I.finite for x in self.ctxs)
        # an opaque function on both sides is a value like any other, but
        # an unmodelled array function may have lost its shape
        tn = taint(T.sub(got, want), allow, fin) - {
            n for n in taint(want, (), fin) if not n.startswith('ext:numpy')}
        if tn:
            return self.und(rule, instance, where,
                            'depends on unmodelled %s' % sorted(tn)[:4])
        return self.add(rule, instance, where, False, r.how, {
            'found': T.show(T.canon(got) if size(got) < 400 else got)[:2000],
            'required': T.show(want)[:2000],
            'distinguishing values': r.witness})

    def guard(self, rule, instance, where, g, want, allow=()):
        """Obligation: guard g is equivalent to want."""
        return self.equal(rule, instance, where, T.b2t(g), T.b2t(want),
                          allow=allow)

    def part(self, rule, name, fn, *args):
        """Run one group of obligations; an analysis failure inside it
        leaves the group undecided, a vanished public anchor is fatal."""
        try:
            return fn(*args)
        except Dead:
            return self.und(rule, name, '', 'no path returns normally')
        except AnalysisError as e:
            if 'anchor vanished' in str(e):
                raise
            return self.und(rule, name, '', 'analysis: %s' % e)
        except RecursionError:
            return self.und(rule, name, '', 'analysis: term too deep')
        except Exception as e:
            if os.environ.get('WSA_DEBUG'):
                raise
            return self.und(rule, name, '', 'analysis: %s: %s' % (
                type(e).__name__, e))

    def parallel(self, rule, jobs):
        """Run groups (name, fn, args) in processes of their own."""
        global _JOBS
        _JOBS = (self, rule, jobs)
        program()
        n = min(8, os.cpu_count() or 1, len(jobs))
        try:
            pool = multiprocessing.get_context('fork').Pool(n)
        except OSError:             # no semaphores: one after another
            pool = None
        if pool is None or os.environ.get('WSA_DEBUG'):
            for name, fn, args in jobs:
                self.part(rule, name, fn, self, *args)
            return
        with pool:
            for obs, fns, unk, err in pool.map(_job, range(len(jobs)), 1):
                if err:
                    raise AnalysisError(err)
                self.obs += obs
                self.functions |= fns
                self.notmodelled += unk

    # -------------------------------------------------------- context

    def ctx(self, **kw):
        c = Ctx(self, **kw)
        self.ctxs.append(c)
        return c

    def need(self, rule, n):
        """The rule must have at least n instances (confirmed by hand)."""
        self.minimum[rule] = n

    # -------------------------------------------------------- output

    def finish(self):
        wall = time.time() - self.t0
        by = {}
        for o in self.obs:
            by.setdefault(o.rule, []).append(o)
        viol = [o for o in self.obs if o.verdict == 'violated']
        und = [o for o in self.obs if o.verdict == 'undecided']
        short = {r: (len(by.get(r, ())), n) for r, n in self.minimum.items()
                 if len(by.get(r, ())) < n}
        for c in self.ctxs:
            self.functions |= c.I.inlined
        kf = known_findings(self.pid)
        new, known = [], []
        for o in viol:
            key = '%s | %s | %s' % (o.rule, o.instance, o.where)
            (known if any(k in key for k in kf) else new).append((key, o))
        dec = len(self.obs) - len(und)
        hows = {}
        for o in self.obs:
            hows[o.how] = hows.get(o.how, 0) + 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'other',
            'coverage': {
                'explanation': 'static value-flow analysis of the current '
                'source: obligations generated per rule instance, each '
                'decided on value numbers of the interpreted syntax trees; '
                'nothing of the repository is executed',
                'obligations': len(self.obs),
                'discharged': len(self.obs) - len(und) - len(viol),
                'undecided': len(und),
                'rule_instances': {r: len(x) for r, x in sorted(by.items())},
                'decided_by': hows,
                'modules_parsed': len(program().mods),
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:200],
                'rules': self.rules,
                'undecided_list': [
                    '%s | %s | %s: %s' % (o.rule, o.instance, o.where,
                                          o.detail) for o in und][:40],
                'samples': [
                    {'rule': o.rule, 'instance': o.instance,
                     'where': o.where, 'verdict': o.verdict,
                     'decided_by': o.how}
                    for o in (viol + self.obs)[:60]],
                'not_modelled': sorted(set(
                    [u for c in self.ctxs for u in c.I.unknown]
                    + self.notmodelled))[:20],
            },
            'assumptions': [
                'real-number semantics for floating point arithmetic',
                'numpy, scipy, numba and h5py behave as modelled in '
                'wsa/models.py'] + self.notes,
            'wall_s': round(wall, 3), 'violations': len(new),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for key in sorted(set(k for k, _ in known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, key))
        if new:
            rp = os.path.join(HERE, 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump([{'property': self.pid, 'rule': o.rule,
                            'instance': o.instance, 'where': o.where,
                            'detail': o.detail,
                            'replay': 'python3 -m wsa %s' % self.pid}
                           for _, o in new], f, indent=1, default=str)
            for key, o in new[:10]:
                print('  %s\n    %s' % (key, str(o.detail)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if (short and not und) or not dec:
            print('ANALYSIS-BROKEN property=%s rule instances below the '
                  'confirmed count: %s' % (self.pid, short))
            return 2
        print('%s: %d obligations, %d discharged, %d undecided (%.1f s)' % (
            self.pid, len(self.obs), dec, len(und), wall))
        for o in und[:12]:
            print('  undecided: %s | %s | %s: %s' % (
                o.rule, o.instance, o.where, str(o.detail)[:300]))
        return 0


def _job(i):
    chk, rule, jobs = _JOBS
    chk.obs, chk.ctxs = [], []
    name, fn, args = jobs[i]
    try:
        chk.part(rule, name, fn, chk, *args)
    except AnalysisError as e:
        return [], set(), [], str(e)
    for o in chk.obs:
        if not isinstance(o.detail, (str, dict, type(None))):
            o.detail = str(o.detail)
    return (chk.obs, set().union(*[c.I.inlined for c in chk.ctxs]),
            [u for c in chk.ctxs for u in c.I.unknown], None)


def size(t):
    return sum(1 for _ in T.subterms(t))


def show(v):
    return T.show(v) if isinstance(v, (Term, B)) else repr(v)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


# ------------------------------------------------------------------ context

class Ctx:
    """An interpreter over the current source with convenience builders."""

    def __init__(self, chk, **kw):
        self.chk = chk
        self.P = program()
        self.I = Interp(self.P, **kw)
        self.reset()

    def reset(self):
        self.st = self.I.start()
        self.I.frames[:] = [FuncV(None, self.P.mods['wake_t'], None, None,
                                  '<check>', [], {})]
        self.I.unknown = []
        return self.st

    def get(self, dotted):
        return self.I.lookup(dotted, self.st)

    def soft(self, dotted):
        """An internal function: its absence is not fatal."""
        try:
            return self.get(dotted)
        except AnalysisError as e:
            raise AnalysisError(str(e).replace('anchor vanished',
                                               'internal anchor missing'))

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(self.st, f, [val(a) for a in args],
                           {k: val(v) for k, v in kw.items()}, None)

    def attr(self, o, name, *more):
        v = self.I.getattr(self.st, o, name, None)
        for m in more:
            v = self.I.getattr(self.st, v, m, None)
        return v

    def meth(self, o, name, *args, **kw):
        return self.call(self.attr(o, name), *args, **kw)

    def set(self, o, name, v):
        self.I.setattr(self.st, o, name, val(v), None)

    def arr(self, name, *shape, kind='real'):
        return self.I.symarr(self.st, name, shape, kind)

    def content(self, v):
        return self.I.content(self.st, v)

    def term(self, v):
        """Content of an array value as a term over lanes."""
        if isinstance(v, ArrV):
            return self.content(v)[1]
        if isinstance(v, (B, Term)):
            return v
        if isinstance(v, IteV):
            try:
                return self.I.elem_content(self.st, v)[1]
            except Exception:
                return v
        return v

    def shape(self, v):
        """Shape of an array value, None if not resolved."""
        sh = None
        for a in leaves(v):
            if a is UNDEF:
                continue
            if not isinstance(a, ArrV):
                return None
            try:
                s = tuple(self.I.shape(self.st, a))
            except Exception:
                return None
            if sh is not None and sh != s:
                return None
            sh = s
        return sh

    def fields(self, o):
        """Attributes of an object, by name."""
        p = self.st.heap[o.id]
        return {k: self.attr(o, k) for k in p[-1]} if p[0] == 'obj' else {}

    @staticmethod
    def is_arr(v):
        return isinstance(v, ArrV)

    def list(self, *items):
        return self.I.list_(self.st, items)

    def events(self, *kinds):
        return [e for e in self.I.log if e.kind in kinds]

    def tree(self, kids=(), read=None):
        """External object tree; see interp.TreeV."""
        return TreeV(self.I.new(self.st, ('obj', None, {})), (), kids, read)

    def native(self, name, fn):
        return NativeV(name, fn)

    # ------------------------------------------------ domain objects

    COORDS = ('w', 'x', 'y', 'xi', 'px', 'py', 'pz')

    def bunch(self, tag='', n=None, **kw):
        n = n if n is not None else T.sym('n' + tag, 'int')
        a = {k: self.arr(k + tag, n) for k in self.COORDS}
        d = dict(q_species=T.sym('q' + tag), m_species=T.sym('m' + tag,
                                                             'pos'),
                 name='bunch' + tag,
                 prop_distance=T.sym('prop' + tag))
        d.update(kw)
        return self.call('wake_t:ParticleBunch', **dict(a, **d))

    def stub_field(self, tag='', mode='add'):
        """A Field whose components are free functions of (x,y,z,t)."""
        F = self.get('wake_t.fields.base:Field')
        calls = []

        def gather(it, st, args, kw, node):
            names = ('x', 'y', 'z', 't', 'ex', 'ey', 'ez', 'bx', 'by', 'bz')
            d = dict(zip(names, args))
            d.update(kw)
            pos = [it.content(st, d[k])[1] for k in ('x', 'y', 'z')]
            t = it.to_term(st, d['t'])
            calls.append((pos, t))
            for k in names[4:]:
                sh, old = it.content(st, d[k])
                f = T.fn('F%s.%s' % (tag, k), *(pos + [t]))
                new = T.add(old, f) if mode == 'add' else f
                it.store_all(st, d[k], it.arr(st, sh, new), node)
        o = self.call(F)
        self.set(o, '_gather', NativeV('stub_gather', gather))
        o.calls = calls
        return o


def val(v):
    """A Python constant as an abstract value."""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, complex)):
        return C(v)
    return v


def reach(ctx, v, seen=None, skip=()):
    """Ids of the mutable cells reachable from a value."""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        a = stack.pop()
        if isinstance(a, IteV):
            stack += [a.a, a.b]
        elif isinstance(a, TupleV):
            stack += list(a.items)
        elif isinstance(a, (ObjV, ListV, DictV, ArrV)):
            if a.id in seen or a.id in skip:
                continue
            seen.add(a.id)
            p = ctx.st.heap[a.id]
            if p[0] == 'list':
                stack += list(p[1])
            elif p[0] == 'stk':
                stack += list(p[1])
            elif p[0] == 'slist':
                stack.append(p[3])
                stack += list(p[4] if len(p) > 4 else ())
            elif p[0] == 'phi':
                stack += [y for q in p[2:] for y in
                          (q[1] if isinstance(q[1], tuple) else
                           q[-1].values() if isinstance(q[-1], dict)
                           else ())]
            elif isinstance(p[-1], dict):
                stack += list(p[-1].values())
    return seen


def where(e):
    return '%s:%s' % (e.path, e.func)


FN = ('ex', 'ey', 'ez', 'bx', 'by', 'bz')


def density(ctx, name='dens'):
    """A plasma density given by the user as a free function of z."""
    def fn(it, st, args, kw, node):
        z = args[0] if args else kw['z']
        return it.ew(st, lambda a: T.fn(name, a), [z])
    return NativeV(name, fn)


def gather(ctx, fld, init=None, pos=('x', 'y', 'z'), t=None, n=None):
    """Contents of the six component arrays after fld.gather(...)."""
    n = n if n is not None else T.sym('n', 'int')
    t = T.sym('t') if t is None else t
    p = [ctx.arr(k, n) for k in pos]
    out = []
    for k in FN:
        out.append(ctx.arr('i' + k, n) if init is None
                   else ctx.I.arr(ctx.st, (n,), C(init)))
    ctx.meth(fld, 'gather', *(p + [t] + out))
    return {k: ctx.term(a) for k, a in zip(FN, out)}, p


def items(ctx, lst):
    p = ctx.st.heap[lst.id]
    if p[0] != 'list':
        raise AnalysisError('list of unknown length')
    return list(p[1])


def builtin_fields(ctx):
    """(name, Field object) of every analytical field the package offers."""
    out = []
    laser = ctx.call('wake_t:GaussianPulse', xi_c=T.sym('xi_c'),
                     a_0=T.sym('a_0'), w_0=T.sym('w_0', 'pos'),
                     tau=T.sym('tau', 'pos'), l_0=T.sym('l_0', 'pos'))
    common = dict(length=T.sym('length', 'pos'), density=density(ctx))
    for model, par in (
            ('simple_blowout', dict(laser=laser,
                                    field_offset=T.sym('field_offset'))),
            ('custom_blowout', dict(laser=laser, lon_field=T.sym('Ez0'),
                                    lon_field_slope=T.sym('Ezp'),
                                    foc_strength=T.sym('kfoc'),
                                    xi_fields=T.sym('xi_f'))),
            ('focusing_blowout', {})):
        s = ctx.call('wake_t:PlasmaStage', wakefield_model=model,
                     **dict(common, **par))
        fs = items(ctx, ctx.attr(s, 'fields'))
        out.append((model, fs[0]))
    s = ctx.call('wake_t:ActivePlasmaLens', length=T.sym('length', 'pos'),
                 foc_strength=T.sym('g'))
    out.append(('active_plasma_lens', items(ctx, ctx.attr(s, 'fields'))[0]))
    s = ctx.call('wake_t.beamline_elements:FieldQuadrupole',
                 length=T.sym('length', 'pos'), foc_strength=T.sym('g'))
    out.append(('quadrupole', items(ctx, ctx.attr(s, 'fields'))[0]))
    return out
