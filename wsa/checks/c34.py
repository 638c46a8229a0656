"""Bunches and bunch parameters survive saving and reading."""

from ..core import T, C, TupleV, NativeV, Dead, DictV
from ..interp import TreeV, leaves, IteV, ArrV
from .c33 import particles, elements, avg, N, COORDS, vec

PROP = dict(
    id='C34', title='Saved bunches and parameters are read back unchanged',
    statement='save_bunch_to_file writes every particle of the bunch with '
    'its own coordinates, weight and species to the given file, under the '
    'given species name (openPMD; by default the name of the bunch), and '
    'get_from_file returns a bunch with the particles of the file, shifted '
    'along xi to have zero weighted mean; with preserve_prop_dist that mean '
    'becomes the propagation distance. Saving and reading back therefore '
    'returns the same particles, in the same order, up to that shift. The '
    'name of the read bunch is the one given, or else the species name of an '
    'openPMD file. An openPMD file with no species, or with several and no '
    'species_name, is rejected; options go to the reader unchanged. '
    'Parameters written with save_parameters_to_file are read back by '
    'read_parameters_from_file with the same names and values; the bunch '
    'file of the diagnostics holds each coordinate under its own name. '
    'Saving leaves the bunch unchanged.',
    over=['inputs', 'configurations'],
    text='all coordinates and weights of bunches of four particles, all '
    'formats, names and numbers of species in the file',
    why='the tests round-trip one electron bunch per format with default '
    'names',
    files=['wake_t/utilities/bunch_saving.py',
           'wake_t/utilities/bunch_generation.py',
           'wake_t/diagnostics/bunch_analysis.py'],
    mechanism=[('saving', 'wake_t/utilities/bunch_saving.py'
                ':save_bunch_to_file'),
               ('reading', 'wake_t/utilities/bunch_generation.py'
                ':get_from_file'),
               ('parameters', 'wake_t/diagnostics/bunch_analysis.py'
                ':save_parameters_to_file')])

SAVE = 'wake_t.utilities.bunch_saving:save_bunch_to_file'
READ = 'wake_t.utilities.bunch_generation:get_from_file'
ATTR = ('x', 'y', 'z', 'px', 'py', 'pz', 'w', 'q_species', 'm_species')
OF = dict(x='x', y='y', z='xi', px='px', py='py', pz='pz', w='w')


class Files:
    """aptools and h5py: files keep what is written to them."""

    def __init__(self, x, species=None):
        self.x, self.species = x, species
        self.saved, self.read, self.h5 = [], [], {}
        self.cond = []
        x.I.finite = True
        x.I.ext_hook = self.hook

    def dist(self, it, st, d, node):
        t = TreeV(it.new(st, ('obj', None, {})), ())
        for k in ATTR:
            it.setattr(st, t, k, d[k], node)
        it.setattr(st, t, 'q', it.ew(st, lambda a, b: a*b, [
            d['w'], d['q_species']]), node)
        return t

    def hook(self, it, st, path, args, kw, node):
        top, name = path.split('.')[0], path.rsplit('.', 1)[1]
        if top == 'aptools':
            if name == 'ParticleDistribution':
                d = dict(zip(ATTR, args))
                d.update(kw)
                return self.dist(it, st, d, node)
            if name == 'save_distribution':
                d = dict(zip(('distribution', 'file_path', 'data_format'),
                             args))
                d.update(kw)
                o = d['distribution']
                d['data'] = {k: it.getattr(st, o, k, node) for k in ATTR}
                d['data'] = {k: elements(it, st, v) if isinstance(v, ArrV)
                             else v for k, v in d['data'].items()}
                d['pc'] = st.pc
                self.saved.append(d)
                return None
            if name == 'read_distribution':
                d = dict(zip(('file_path', 'data_format'), args))
                d.update(kw)
                d['pc'] = st.pc
                self.read.append(d)
                return self.dist(it, st, self.content, node)
            if name == 'get_available_species' and \
                    self.species is not None:
                self.asked = (list(args) + list(kw.values()))[0]
                return it.list_(st, self.species)
        if path == 'h5py.File':
            d = dict(zip(('name', 'mode'), args))
            d.update(kw)
            return self.file(it, st, d, node)
        if path == 'os.path.join' and all(isinstance(a, str) for a in args):
            return '/'.join(args)
        if path == 'os.path.exists':
            return self.exists
        if path == 'os.makedirs':
            return None
        return NotImplemented

    exists = T.FALSE

    def file(self, it, st, d, node):
        f, mode = d['name'], d.get('mode', 'r')
        if not isinstance(f, str):
            return NotImplemented
        c = {} if mode in ('w', 'w-', 'x') else self.stored(st, f)
        t = TreeV(it.new(st, ('obj', None, {})), (), ('attrs',))
        self.h5[f] = t

        def create(it, st, args, kw, node):
            a = dict(zip(('name', 'shape', 'dtype', 'data'), args))
            a.update(kw)
            self.cond.append((a['name'], st.pc))
            it.tree_set(st, t, a['name'], a['data'], node)

        def get(it, st, args, kw, node):
            return it.getitem(st, t, args[0], node)

        def keys(it, st, args, kw, node):
            return it.list_(st, list(c))

        def items(it, st, args, kw, node):
            return it.list_(st, [TupleV((k, self.ds(it, st, v)))
                                 for k, v in c.items()])
        for k, f in (('create_dataset', create), ('get', get),
                     ('keys', keys), ('items', items)):
            it.setattr(st, t, k, NativeV(k, f), node)
        for k, v in c.items():
            it.tree_set(st, t, k, self.ds(it, st, v), node)
        self.tree = t
        return t

    def stored(self, st, f):
        if f not in self.h5:
            return {}
        c = st.heap[self.h5[f].cell][-1]
        c = {k[0]: v for k, v in c.items() if len(k) == 1 and
             not k[0].startswith('.')}
        return {k: v.data if isinstance(v, Data) else v
                for k, v in c.items()}

    def ds(self, it, st, v):
        def read(it, st, path):
            k = str(path[-1])
            if k in (repr(TupleV(())), repr(Ellipsis)) or \
                    'ellipsis' in k.lower():
                return v
            if k == ':' or 'slice' in k.lower():
                if not isinstance(v, ArrV):
                    raise Dead()
                return v
        o = Data(it.new(st, ('obj', None, {})), (), (), read)
        o.data = v
        return o


class Data(TreeV):
    pass


def run(chk):
    chk.rules = {
        'saved': 'arguments that reach the writer of the distribution',
        'read': 'the bunch built from the distribution of the file',
        'round trip': 'reading what was saved',
        'species': 'choice and rejection of the species of an openPMD file',
        'parameters': 'parameters in the file and read back',
        'diagnostics file': 'datasets of the bunch file',
        'kept': 'the bunch after saving'}
    chk.need('saved', 60)
    chk.need('read', 60)
    chk.need('round trip', 60)
    chk.need('species', 8)
    chk.need('parameters', 4)
    chk.need('diagnostics file', 20)
    for fmt in ('openpmd', 'astra', 'csrtrack'):
        for sn in (None, 'Sp') if fmt == 'openpmd' else (None,):
            chk.part('saved', fmt, save, chk, fmt, sn)
        for keep in (False, True):
            for nm in (None, 'Bob'):
                chk.part('read', fmt, read, chk, fmt, keep, nm)
    for sp in ((), ('one',), ('one', 'two'), ('a', 'b', 'c')):
        for sn in (None, 'two'):
            for nm in (None, 'Bob'):
                chk.part('species', str(sp), species, chk, sp, sn, nm)
    chk.part('parameters', 'h5', parameters, chk)
    chk.part('diagnostics file', 'h5', diag_file, chk)


def kept(chk, x, b, d, wh, tag):
    for k in COORDS + ('w',):
        for i, u in enumerate(elements(x.I, x.st, x.attr(b, k))):
            chk.equal('kept', '%s: %s[%d]' % (tag, k, i), wh, u, d[k][i])


def save(chk, fmt, sn):
    x = chk.ctx()
    F = Files(x)
    b, d, q, prop = particles(x, '')
    kw = {} if sn is None else {'species_name': sn}
    x.call(SAVE, b, fmt, 'file', **kw)
    tag = '%s, species_name=%s' % (fmt, sn)
    wh = 'wake_t/utilities/bunch_saving.py:save_bunch_to_file'
    if len(F.saved) != 1:
        return chk.bad('saved', tag, wh, '%d files written' % len(F.saved))
    s = F.saved[0]
    for k, o in OF.items():
        for i in range(N):
            chk.equal('saved', '%s: %s[%d]' % (tag, k, i), wh,
                      s['data'][k][i], d[o][i])
    chk.equal('saved', tag + ': q_species', wh, s['data']['q_species'], q)
    chk.equal('saved', tag + ': m_species', wh, s['data']['m_species'],
              x.attr(b, 'm_species'))
    want = {'file_path': 'file', 'data_format': fmt}
    if fmt == 'openpmd':
        want['species_name'] = sn or 'b'
    for k, v in want.items():
        same(chk, 'saved', '%s: %s' % (tag, k), wh, s.get(k), v)
    extra = set(s) - set(want) - {'distribution', 'data', 'pc'}
    extra = {k for k in extra if s[k] is not None}
    chk.expect(not extra, 'saved', tag + ': options', wh,
               'unexpected options %s' % sorted(extra))
    always(chk, 'saved', tag, wh, s['pc'])
    kept(chk, x, b, d, wh, tag)
    # read back
    F.content = {k: vec(x, v) if isinstance(v, list) else v
                 for k, v in s['data'].items()}
    F.species = (s.get('species_name', 'b'),)
    r = x.call(READ, 'file', fmt)
    back(chk, x, 'round trip', tag, r, d, q, x.attr(b, 'm_species'))
    if fmt == 'openpmd':
        same(chk, 'round trip', tag + ': name', wh, x.attr(r, 'name'),
             sn or 'b')


RW = 'wake_t/utilities/bunch_generation.py:get_from_file'


def same(chk, rule, inst, wh, got, want):
    if isinstance(got, str) or got is None:
        chk.expect(got == want, rule, inst, wh, '%r instead of %r' % (
            got, want))
    else:
        chk.equal(rule, inst, wh, got, want)


def back(chk, x, rule, tag, r, d, q, m, z='xi'):
    mean = avg(d['xi'], d['w'])
    for k in COORDS + ('w',):
        for i, u in enumerate(elements(x.I, x.st, x.attr(r, k))):
            chk.equal(rule, '%s: %s[%d]' % (tag, k, i), RW, u,
                      d[k][i] - mean if k == 'xi' else d[k][i])
    chk.equal(rule, tag + ': q_species', RW, x.attr(r, 'q_species'), q)
    chk.equal(rule, tag + ': m_species', RW, x.attr(r, 'm_species'), m)


def always(chk, rule, inst, wh, pc):
    chk.equal(rule, inst + ': written for every bunch', wh,
              T.ite(pc, C(1), C(0)), C(1))


def source(x, F):
    """The distribution in the file."""
    d = {k: [T.sym('%s_%d' % (k, i), 'pos' if k in ('w', 'pz') else 'real')
             for i in range(N)] for k in COORDS + ('w',)}
    q, m = T.sym('q'), T.sym('m', 'pos')
    F.content = {k: vec(x, d[o]) for k, o in OF.items()}
    F.content.update(q_species=q, m_species=m)
    return d, q, m


def read(chk, fmt, keep, nm):
    x = chk.ctx()
    F = Files(x, ('sp',))
    d, q, m = source(x, F)
    kw = {} if nm is None else {'name': nm}
    if fmt == 'astra':
        kw['remove_non_standard'] = T.FALSE
    r = x.call(READ, 'file', fmt, preserve_prop_dist=keep, **kw)
    tag = '%s, preserve_prop_dist=%s, name=%s' % (fmt, keep, nm)
    back(chk, x, 'read', tag, r, d, q, m)
    chk.equal('read', tag + ': prop_distance', RW,
              x.attr(r, 'prop_distance'), avg(d['xi'], d['w']) if keep
              else C(0))
    if nm or fmt == 'openpmd':
        same(chk, 'read', tag + ': name', RW, x.attr(r, 'name'), nm or 'sp')
    want = {'file_path': 'file', 'data_format': fmt}
    if fmt == 'openpmd':
        want['species_name'] = 'sp'
    if fmt == 'astra':
        want['remove_non_standard'] = T.FALSE
    for s in F.read:
        for k, v in want.items():
            if v is T.FALSE:
                chk.expect(s.get(k) is v, 'read', '%s: %s' % (tag, k), RW,
                           'option %s is %s' % (k, s.get(k)))
            else:
                same(chk, 'read', '%s: %s' % (tag, k), RW, s.get(k), v)
        extra = {k for k in set(s) - set(want) - {'pc'} if s[k] is not None}
        chk.expect(not extra, 'read', tag + ': options', RW,
                   'unexpected options %s' % sorted(extra))


def species(chk, sp, sn, nm):
    x = chk.ctx()
    F = Files(x, sp)
    source(x, F)
    kw = {k: v for k, v in (('species_name', sn), ('name', nm)) if v}
    tag = 'file with %d species, species_name=%s, name=%s' % (
        len(sp), sn, nm)
    try:
        r = x.call(READ, 'file', 'openpmd', **kw)
    except Dead:
        r = None
    if sn is None and len(sp) != 1:
        return chk.expect(r is None, 'species', tag, RW, 'accepted')
    if r is None:
        return chk.bad('species', tag, RW, 'rejected')
    pick = sn or sp[0]
    same(chk, 'species', tag + ': species', RW,
         F.read[0].get('species_name'), pick)
    same(chk, 'species', tag + ': name', RW, x.attr(r, 'name'), nm or pick)


PW = 'wake_t/diagnostics/bunch_analysis.py:'


def parameters(chk):
    for ex in (False, True):
        x = chk.ctx()
        F = Files(x)
        F.exists = T.TRUE if ex else T.FALSE
        vals = {'x_avg': T.sym('xa'), 'beta_x': T.sym('bx'),
                'other': vec(x, [T.sym('o%d' % i) for i in range(N)])}
        d = DictV(x.I.new(x.st, ('dict', dict(vals))))
        x.call('wake_t.diagnostics.bunch_analysis:save_parameters_to_file',
               d, 'dir', 'name')
        tag = 'folder %s' % ('exists' if ex else 'is new')
        wh = PW + 'save_parameters_to_file'
        chk.expect(list(F.h5) == ['dir/name.h5'], 'parameters', tag + ': file',
                   wh, 'files %s' % list(F.h5))
        for k, pc in F.cond:
            always(chk, 'parameters', '%s: %s' % (tag, k), wh, pc)
        for f in list(F.h5):
            try:
                r = x.call('wake_t.diagnostics.bunch_analysis:'
                           'read_parameters_from_file', f)
            except Dead:
                chk.bad('parameters', tag + ': reading', wh, 'fails')
                continue
            got = dict(x.st.heap[r.id][-1])
            chk.expect(set(got) == set(vals), 'parameters', tag + ': names',
                       wh, 'names %s' % sorted(map(str, got)))
            for k in set(got) & set(vals):
                chk.equal('parameters', '%s: %s' % (tag, k), wh,
                          x.term(got[k]), x.term(vals[k]))


def diag_file(chk):
    x = chk.ctx()
    F = Files(x)
    b, d, q, prop = particles(x, '')
    x.call('wake_t.diagnostics.bunch_analysis:save_bunch_to_file', b, 'dir',
           'name')
    wh = PW + 'save_bunch_to_file'
    rule = 'diagnostics file'
    chk.expect(list(F.h5) == ['dir/name.h5'], rule, 'file', wh,
               'files %s' % list(F.h5))
    for f in F.h5:
        c = F.stored(x.st, f)
        for k in COORDS + ('q',):
            if k not in c:
                chk.bad(rule, k, wh, 'dataset not written')
                continue
            want = [q*u for u in d['w']] if k == 'q' else d[k]
            for i, u in enumerate(elements(x.I, x.st, c[k])):
                chk.equal(rule, '%s[%d]' % (k, i), wh, u, want[i])
    v = x.st.heap[F.tree.cell][-1].get(('attrs', 'prop_dist'))
    if v is None:
        chk.bad(rule, 'prop_dist', wh, 'attribute not written')
    else:
        chk.equal(rule, 'prop_dist', wh, x.term(v), prop)
    for k, pc in F.cond:
        always(chk, rule, k, wh, pc)
    kept(chk, x, b, d, wh, 'diagnostics file')
