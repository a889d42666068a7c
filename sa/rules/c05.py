"""C05: saving and pickling lose nothing.

(a) explicit state dictionaries (getstate/setstate, save/load): each recorded field goes out under a key and comes back
    from that same key; (b) state made from __dict__: only run-time-only fields are left out, and those are re-created;
(c) __reduce__: rebuilds the same class and hands each constructor parameter the field that parameter set; (d) array
    streams are read in the order written; (e) the JSON/msgpack codec decodes every tag it emits, to the same type, and no
    type test is shadowed by an earlier one; (f) directory format: writer and reader agree per file type; declared
    auxiliary members exist, members needing a file keep it, members not stored are re-created; (g) parents are re-linked.
"""
import ast
from ..index import Index, AnalysisBroken, Func, Cls, dotted, walk_own
from ..calls import all_functions
from ..flow import Flow, U
from ..prov import Prov, closure_funcs, init_attrs, self_assigned
from ..report import Result

DS_FIELDS = ('cirIndex', 'olIndex', 'olIndex_max', 'ol', 'bStatic', 'oliType', 'timeType', 'repType',
             'collisionAction', 'uuid', 'auxInfo', 'comment')
DS_ARRAYS = ('oliData', 'timeData', 'repData')
MDS_FIELDS = ('cirIndex', 'olIndex', 'collisionActions', 'comments', 'comment', 'auxInfo')
MDS_ARRAYS = ('oliDict', 'timeDict', 'repDict')

# run-time-only members a pickle may leave out (communicators, links to the owner, recomputed caches)
DROPPABLE = {'comm', '_comm', 'parent', '_parent', '_cachedrep', '_passdatas', 'cache', 'outargs', 'goparameters',
             'unpickleable'}
# constructor-set members that are caches / work areas, not recorded state
TRANSIENT = {('CompilationLibrary', 'templates'), ('CompilationLibrary', 'connectivity'), ('DataSet', 'ffdata'),
             ('DataSet', 'cnt_cache'),
             ('OrderedMemberDict', 'parent')}
# report-page objects: links to the workspace that displays them are re-made by Workspace.load_cache
NOT_DATA = ('pygsti.report.workspace',)


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    state_dicts(ix, res)
    dict_states(ix, res)
    reduces(ix, res)
    streams(ix, res)
    codec(ix, res)
    metadir(ix, res)
    auxfiles(ix, res)
    relink(ix, res)
    unfinished(ix, res)
    res.explanation = __doc__
    res.assumptions = ['values themselves pickle/JSON-encode faithfully (numpy, json and pickle libraries)',
                       'the compiled extension classes are not analysed']
    return res


# ---- (a) ------------------------------------------------------------------------------------------------------------
def state_dicts(ix, res):
    n = 0
    for qual, fields, arrays in (('pygsti.objects.dataset.DataSet', DS_FIELDS, DS_ARRAYS),
                                 ('pygsti.objects.multidataset.MultiDataSet', MDS_FIELDS, MDS_ARRAYS)):
        c = ix.cls(qual)
        for w, r, need in (('__getstate__', '__setstate__', fields + arrays), ('save', 'load', fields)):
            fw, fr = c.lookup(w), c.lookup(r)
            if fw is None or fr is None:
                res.add('C05.gone', '%s.%s/%s' % (c.name, w, r), c.path, 'no longer defined by the class')
                continue
            wk = Prov(ix, fw, c).written_keys()
            rs = Prov(ix, fr, c).restored()
            for x in need:
                n += 1
                outk = {k for k, v in wk.items() if x in v[0]}
                ink = rs.get(x, set())
                if not outk:
                    res.add('C05.not-written', '%s.%s %s' % (c.name, w, x), fw.loc(fw.node),
                            'the state written by %s holds nothing computed from %s' % (w, x))
                elif not (outk & ink):
                    res.add('C05.not-restored', '%s.%s %s' % (c.name, r, x), fr.loc(fr.node),
                            '%s is written under %s but restored from %s' % (x, sorted(outk), sorted(ink) or 'nothing'))
                else:
                    # a key that names another recorded field means two fields were swapped
                    for k in outk & ink:
                        others = {y for y in need if y != x and k == y}
                        if others and x not in wk[k][0]:
                            res.add('C05.swapped', '%s.%s %s' % (c.name, w, x), fw.loc(fw.node), 'written under %s' % k)
            for k, (attrs, f, e) in sorted(wk.items()):
                if k in need and k not in attrs and attrs:
                    res.add('C05.swapped', '%s.%s key %s' % (c.name, w, k), f.loc(e),
                            'key %r is filled from %s' % (k, sorted(attrs)))
            back = self_assigned_any(ix, fr, c)
            for x, node in sorted(init_attrs(ix, c).items()):
                if (c.name, x) in TRANSIENT or x in back or c.class_attr(x) is not None:
                    continue
                res.add('C05.not-restored', '%s.%s %s' % (c.name, r, x), fr.loc(fr.node),
                        'the constructor sets %s but an object made by %s does not have it' % (x, r))
    res.count('recorded fields traced through getstate/setstate and save/load', n, 40)


def self_assigned_any(ix, f, c):
    out = set()
    for g in closure_funcs(ix, f, c):
        out |= set(self_assigned(g))
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


# ---- (b) ------------------------------------------------------------------------------------------------------------
def dict_states(ix, res):
    n = 0
    for c in ix.classes:
        g = c.methods.get('__getstate__') or c.methods.get('__pygsti_getstate__')
        if g is None or c.module.name in NOT_DATA:
            continue
        aliases, fullcopy = set(), False
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and _is_dict_copy(x.value, g):
                aliases.add(x.targets[0].id)
                fullcopy = True
            if isinstance(x, ast.Return) and x.value is not None and _is_dict_copy(x.value, g):
                fullcopy = True
        if not fullcopy:
            continue
        n += 1
        dropped = {}
        for x in ast.walk(g.node):
            tgt = []
            if isinstance(x, ast.Delete):
                tgt = x.targets
            elif isinstance(x, ast.Assign):
                tgt = x.targets
            for t in tgt:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in aliases and \
                        isinstance(t.slice, ast.Constant):
                    if isinstance(x, ast.Assign) and not (isinstance(x.value, ast.Constant)):
                        a, _, _ = Prov(ix, g, c).mentions(x.value, g)
                        if t.slice.value in a:
                            continue
                    dropped[t.slice.value] = (x, isinstance(x, ast.Delete))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id in aliases and x.args and \
                    isinstance(x.args[0], ast.Constant):
                dropped[x.args[0].value] = (x, True)
            if isinstance(x, (ast.DictComp,)):
                for cond in x.generators[0].ifs:
                    for q in ast.walk(cond):
                        if isinstance(q, ast.Constant) and isinstance(q.value, str):
                            dropped[q.value] = (x, True)
        s = c.lookup('__setstate__')
        back = self_assigned_any(ix, s, c) if s is not None else set()
        for k, (node, gone) in sorted(dropped.items(), key=str):
            if k not in DROPPABLE:
                res.add('C05.dropped', '%s.%s drops %s' % (c.name, g.name, k), g.loc(node),
                        'a pickled object silently loses its %r' % (k,))
            elif gone and k not in back and c.class_attr(k) is None:
                res.add('C05.not-recreated', '%s %s' % (c.name, k), g.loc(node),
                        '%r is left out of the pickle and __setstate__ does not set it again' % (k,))
    res.count('classes whose state is their __dict__', n, 9)
    # __setstate__ of such classes takes everything over
    m = 0
    for c in ix.classes:
        s = c.methods.get('__setstate__')
        if s is None or c.qual in ('pygsti.objects.dataset.DataSet', 'pygsti.objects.multidataset.MultiDataSet'):
            continue
        if not c.module.name.startswith('pygsti.') or 'legacy' in c.module.name or \
                c.module.name in NOT_DATA or s.parent is not None:
            continue
        m += 1
        fl = TakesOver(ix, s.params[1])
        rets, _ = fl.run(s, c)
        for (st, v, node) in rets:
            if not st.dead and ('all',) not in st.must:
                res.add('C05.not-restored', '%s.__setstate__' % c.name, s.loc(node),
                        'can return without taking over the whole saved state')
    res.count('__setstate__ methods that take over the whole state', m, 12)


class TakesOver(Flow):
    def __init__(self, ix, p):
        Flow.__init__(self, ix)
        self.p = p

    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if path[:2] == ('self', '__dict__'):
            st.must = st.must | {('all',)}
        # loop over the state's items: self.__dict__[k] = v / setattr(self, k, v)
        if path[0] == 'self' and len(path) == 2 and path[1] == '?':
            st.must = st.must | {('all',)}

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                node.func.attr in ('update', '__setstate__'):
            if any(r[0] == 'A' and r[1][:2] == ('self', '__dict__') for r in (recv or ())) or \
                    node.func.attr == '__setstate__':
                st.must = st.must | {('all',)}

    def _loop(self, s, st, pre, always):
        out = Flow._loop(self, s, st, pre, always)
        it = getattr(s, 'iter', None)
        if it is not None and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and \
                it.func.attr == 'items' and isinstance(it.func.value, ast.Name):
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and x.attr == '__dict__' or \
                        isinstance(x, ast.Call) and dotted(x.func) == 'setattr':
                    out.must = out.must | {('all',)}
        return out


def _is_dict_copy(e, f):
    """self.__dict__, self.__dict__.copy(), dict(self.__dict__), super().__getstate__(), X.__getstate__(self)"""
    if isinstance(e, ast.Attribute) and e.attr == '__dict__':
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr == '__getstate__':
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return _is_dict_copy(e.func.value, f)
        if dotted(e.func) in ('dict', 'vars', 'copy.copy', '_copy.copy') and e.args:
            return _is_dict_copy(e.args[0], f) or dotted(e.func) == 'vars'
        return False
    if isinstance(e, ast.DictComp):
        return any(isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(e.generators[0].iter))
    return False


# ---- (c) ------------------------------------------------------------------------------------------------------------
def reduces(ix, res):
    n = na = 0
    for c in ix.classes:
        for nm in ('__reduce__', '__pygsti_reduce__'):
            f = c.methods.get(nm)
            if f is None:
                continue
            pr = Prov(ix, f, c)
            isnew = '__new__' in c.methods and '__init__' not in c.methods
            ini = c.methods.get('__new__') if isnew else c.lookup('__init__') or c.lookup('__new__')
            ia = init_attrs(ix, c)
            fa = dict(ia)
            for r in [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]:
                v = r.value
                if isinstance(v, ast.Name):
                    ds = pr.defs[f].get(v.id, [])
                    v = ds[0] if len(ds) == 1 else v
                if not isinstance(v, ast.Tuple) or len(v.elts) < 2:
                    continue
                n += 1
                k = v.elts[0]
                same = False
                if isinstance(k, (ast.Attribute, ast.Call)):
                    same = (isinstance(k, ast.Attribute) and k.attr == '__class__') or dotted(getattr(k, 'func', None)) == 'type'
                tgt = ix.resolve_expr(k, f.module, f)
                if isinstance(tgt, Cls):
                    same = same or tgt is c
                elif isinstance(tgt, Func):
                    continue
                if not same:
                    res.add('C05.wrong-class', '%s.%s' % (c.name, nm), f.loc(r),
                            'rebuilds a %s, not a %s' % (ast.unparse(k), c.name))
                if ini is None or not isinstance(v.elts[1], ast.Tuple):
                    continue
                params = ini.params[1:]
                args = v.elts[1].elts
                req = [p for p in params if p not in ini.defaults]
                if len(args) < len(req) or (len(args) > len(params) and not ini.vararg):
                    res.add('C05.wrong-arity', '%s.%s' % (c.name, nm), f.loc(r),
                            'passes %d arguments to a constructor taking %s' % (len(args), params))
                statekeys = set()
                wholedict = False
                if len(v.elts) > 2:
                    a, kk, _ = pr.mentions(v.elts[2], f)
                    wholedict = '__dict__' in a
                    if isinstance(v.elts[2], ast.Dict):
                        statekeys = {q.value for q in v.elts[2].keys if isinstance(q, ast.Constant)}
                for i, p in enumerate(params):
                    fields = {x for x, ps in ia.items() if p in ps and (c.name, x) not in TRANSIENT}
                    own = {x for x in fields if ia[x] == {p}} or fields
                    if i >= len(args):
                        lost = {x for x in own if x not in statekeys} if not wholedict else set()
                        if lost and not any(x in DROPPABLE for x in lost) and c.name != 'ProtectedArray':
                            res.add('C05.not-restored', '%s.%s %s' % (c.name, nm, p), f.loc(r),
                                    'constructor parameter %s (field %s) is not passed on' % (p, sorted(lost)))
                        continue
                    a, _, _ = pr.mentions(args[i], f)
                    a = {x for x in a if c.lookup(x) is None or c.lookup(x).is_property}
                    na += 1
                    if fields and a and not (a & fields) and not wholedict:
                        # fields reached through a differently named property or base class attribute
                        if any(x in ia and ia[x] and p not in ia[x] for x in a):
                            res.add('C05.swapped', '%s.%s %s' % (c.name, nm, p), f.loc(r),
                                    'parameter %s is given %s but the constructor keeps it in %s'
                                    % (p, sorted(a), sorted(fields)))
                    for x in a:
                        if x not in fa and c.lookup(x) is None and c.class_attr(x) is None and not c.all_ext() and \
                                not any(x in self_assigned_all(b) for b in c.mro()):
                            res.add('C05.no-such-field', '%s.%s %s' % (c.name, nm, x), f.loc(r),
                                    'reads self.%s, which no method of the class ever sets' % x)
                    if fields and not a and isinstance(args[i], ast.Constant) and not wholedict and \
                            not (fields & DROPPABLE):
                        res.add('C05.not-restored', '%s.%s %s' % (c.name, nm, p), f.loc(r),
                                'parameter %s is replaced by a constant' % p)
            # label classes: contents and time travel
            if isnew and 'time' in ini.params:
                allr = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == 'time'] or \
                    [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                     and x.func.attr == '__reduce__']
                if not allr:
                    res.add('C05.not-restored', '%s.%s time' % (c.name, nm), f.loc(f.node), 'the time is not stored')
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and dotted(x.func) in ('str', 'repr'):
                        res.add('C05.swapped', '%s.%s text' % (c.name, nm), f.loc(x),
                                'stores the printed form (which includes the time) as the contents')
    res.count('__reduce__ results', n, 45)
    res.count('__reduce__ arguments traced to the field they set', na, 100)


def self_assigned_all(cls):
    out = set()
    for m in list(cls.methods.values()) + list(cls.setters.values()):
        out |= set(self_assigned(m))
    return out


# ---- (d) ------------------------------------------------------------------------------------------------------------
SAVERS = ('numpy.save', 'numpy.lib.format.write_array')
LOADERS = ('numpy.load', 'numpy.lib.format.read_array')


class Order(Flow):
    """which field's array precedes which in the stream"""
    loops_run = True

    def __init__(self, ix, fields):
        Flow.__init__(self, ix)
        self.fields = fields
        self.pairs = set()
        self.site = {}
        self.sites = set()

    def should_inline(self, f, recv, args):
        return True if f.module is self.entry.func.module else False

    def roots(self, v):
        out = set()
        for r in v:
            if r[0] in ('A', 'S', 'I') and r[1][0] == 'self' and len(r[1]) > 1 and r[1][1] in self.fields:
                out.add(r[1][1])
        return out

    def event(self, key, st):
        for x in st.may:
            if x[0] == 'ev' and x[1] != key:
                self.pairs.add((x[1], key))
        st.may = st.may | {('ev', key)}

    def on_call(self, node, callee, recv, args, kwargs, st):
        nm = callee[1] if isinstance(callee, tuple) and callee[0] == 'ext' else None
        if nm in SAVERS and len(args) > 1:
            self.sites.add(node.lineno)
            for x in sorted(self.roots(args[1])):
                self.event(x, st)
                st.must = st.must | {('saved', x)}
        if nm in LOADERS:
            self.sites.add(node.lineno)
            key = '@%d:%d' % (node.lineno, node.col_offset)
            if len(self.frame.chain()) > 1:
                key += '/' + '/'.join(str(getattr(n, 'lineno', 0)) for n in self.callsites())
            self.event(key, st)
            return frozenset([('A', (key,))])
        return None

    def callsites(self):
        out, f = [], self.frame
        while f is not None:
            if f.callnode is not None:
                out.append(f.callnode)
            f = f.caller
        return out

    def on_fact(self, atom, pol, st):
        # a field that is None / absent has nothing to store
        if atom[0] in ('none', 't') and isinstance(atom[1], tuple) and atom[1][:1] == ('self',) and \
                len(atom[1]) == 2 and pol == (atom[0] == 'none'):
            st.must = st.must | {('saved', atom[1][1])}

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] == 'self' and len(path) == 2 and how == 'set':
            st.must = st.must | {('set', path[1])}
        if path[0] == 'self' and len(path) > 1 and path[1] in self.fields:
            if value == frozenset([('C', None)]) or any(r[0] in ('A', 'S') and r[1][0].startswith('@')
                                                        for r in self._deep(value)):
                st.must = st.must | {('got', path[1])}
            for r in self._deep(value):
                if r[0] in ('A', 'S') and r[1][0].startswith('@'):
                    self.site.setdefault(r[1][0], set()).add(path[1])

    def _deep(self, v):
        out = set()
        for r in v:
            out.add(r)
            if r[0] == 'T':
                for x in r[1]:
                    out |= self._deep(x)
            elif r[0] in ('L', 'Z') and isinstance(r[1], frozenset):
                out |= self._deep(r[1])
        return out


def streams(ix, res):
    for qual, arrays in (('pygsti.objects.dataset.DataSet', DS_ARRAYS),
                         ('pygsti.objects.multidataset.MultiDataSet', MDS_ARRAYS)):
        c = ix.cls(qual)
        s, l = c.lookup('save'), c.lookup('load')
        if s is None or l is None:
            continue
        ws = Order(ix, arrays)
        for (st, v, node) in ws.run(s, c)[0]:
            for x in arrays:
                if not st.dead and ('saved', x) not in st.must:
                    res.add('C05.not-written', '%s.save %s' % (c.name, x), s.loc(node), 'can return without storing the array(s) of %s' % x)
        rs = Order(ix, arrays)
        for (st, v, node) in rs.run(l, c)[0]:
            for x in arrays:
                if not st.dead and ('set', x) not in st.must:
                    res.add('C05.not-restored', '%s.load %s' % (c.name, x), l.loc(node), 'can return without setting %s' % x)
                elif not st.dead and ('got', x) not in st.must:
                    res.add('C05.not-restored', '%s.load %s left empty' % (c.name, x), l.loc(node),
                            'can return without reading the stored %s back' % x)
        stream_flags(ix, c, s, l, arrays, res)
        wrote = {x for p in ws.pairs for x in p}
        rp = set()
        for a, b in rs.pairs:
            for x in rs.site.get(a, ()):
                for y in rs.site.get(b, ()):
                    if x != y:
                        rp.add((x, y))
        read = {x for v in rs.site.values() for x in v}
        res.count('%s stream: save sites' % c.name, len(ws.sites))
        res.count('%s stream: load sites' % c.name, len(rs.sites))
        for x in arrays:
            if x not in wrote:
                res.add('C05.not-written', '%s.save %s' % (c.name, x), s.loc(s.node), 'the array(s) of %s are not stored' % x)
            if x not in read:
                res.add('C05.not-restored', '%s.load %s' % (c.name, x), l.loc(l.node), 'the array(s) of %s are not read back' % x)
        for i, x in enumerate(arrays):
            for y in arrays[i + 1:]:
                w = {p for p in ws.pairs if set(p) == {x, y}}
                r = {p for p in rp if set(p) == {x, y}}
                if x in wrote and y in wrote and x in read and y in read and w != r:
                    res.add('C05.stream-order', '%s %s/%s' % (c.name, x, y), l.loc(l.node),
                            'stored as %s but read as %s' % (sorted(w), sorted(r)))


def _expand(f, e, depth=0):
    """text of `e` with bool(..) dropped and locals that are assigned once replaced by their value"""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
        e = e.args[0]
    if isinstance(e, ast.Name) and depth < 4:
        d = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(d) == 1:
            return _expand(f, d[0], depth + 1)
    return e


def _closure(ix, f, c):
    out, todo = [f], [f]
    while todo:
        g = todo.pop()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id in ('self', c.name):
                h = c.lookup(n.func.attr)
                if h is not None and h not in out:
                    out.append(h)
                    todo.append(h)
    return out


def stream_flags(ix, c, s, l, arrays, res):
    """a flag kept with the data that tells the reader whether an array follows is the writer's own condition"""
    keys = {}
    wguards = {}
    for g in _closure(ix, s, c):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        keys[k.value] = _expand(g, v)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(
                    n.targets[0].slice, ast.Constant) and isinstance(n.targets[0].slice.value, str):
                keys[n.targets[0].slice.value] = _expand(g, n.value)
            elif isinstance(n, ast.If):
                for x in arrays:
                    if any(isinstance(y, ast.Call) and 'save' in ast.unparse(y.func) and 'self.%s' % x in ast.unparse(z)
                           for z in n.body for y in ast.walk(z)) and not any(
                            'self.%s' % o in ast.unparse(z) for o in arrays if o != x for z in n.body):
                        wguards.setdefault(x, []).append(_expand(g, n.test))
    n_f = 0
    for g in _closure(ix, l, c):
        for n in ast.walk(g.node):
            if not isinstance(n, ast.If):
                continue
            xs = [x for x in arrays if any(isinstance(y, ast.Attribute) and y.attr == x for z in n.body for y in ast.walk(z))]
            if len(xs) != 1 or xs[0] not in wguards:
                continue
            t = _expand(g, n.test)
            ks = [y for y in ast.walk(t) if isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value in keys]
            if not ks:
                continue
            n_f += 1
            k = ks[0].value
            plain = isinstance(t, ast.Subscript) or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and \
                t.func.attr == 'get'
            if not plain:
                res.add('C05.stream-flag', '%s.load %s' % (c.name, xs[0]), g.loc(n),
                        'whether %s is read depends on more than the stored %r' % (xs[0], k))
                continue
            for w in wguards[xs[0]]:
                if ast.unparse(w) != ast.unparse(keys[k]) and not _same_test(w, keys[k]):
                    res.add('C05.stream-flag', '%s.save %s' % (c.name, xs[0]), s.loc(s.node),
                            '%s is stored if `%s`, but the flag %r the reader goes by is `%s`' % (
                                xs[0], ast.unparse(w), k, ast.unparse(keys[k])))
                    break
    res.count('%s stream: flags compared' % c.name, n_f)


def _same_test(a, b):
    """the same test written with/without `is not None` / negated twice"""
    def norm(e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool':
            return norm(e.args[0])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            i = e.operand
            if isinstance(i, ast.Compare) and len(i.ops) == 1 and isinstance(i.ops[0], ast.Is):
                return ('isnot', ast.unparse(i.left), ast.unparse(i.comparators[0]))
            return ('not', norm(i))
        if isinstance(e, ast.IfExp) and isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant):
            if e.body.value is True and e.orelse.value is False:
                return norm(e.test)
            if e.body.value is False and e.orelse.value is True:
                return norm(ast.UnaryOp(op=ast.Not(), operand=e.test))
        if isinstance(e, ast.IfExp) and isinstance(e.orelse, ast.Constant) and not e.orelse.value:
            return norm(e.test)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.IsNot):
            return ('isnot', ast.unparse(e.left), ast.unparse(e.comparators[0]))
        return ast.unparse(e)
    return norm(a) == norm(b)


# ---- (e) ------------------------------------------------------------------------------------------------------------
SUPER = {'OrderedDict': {'dict'}, 'Counter': {'dict'}, 'defaultdict': {'dict'}, 'bool': {'int'}}
CTOR_OF = {'tuple', 'list', 'set', 'slice', 'range', 'OrderedDict', 'Counter', 'dict', 'UUID', 'complex', 'frozenset'}


def _last(n):
    d = dotted(n)
    return d.split('.')[-1] if d else None


def mod_closure(ix, f):
    return closure_funcs(ix, f, None, depth=6)


def codec(ix, res):
    m = ix.mod('pygsti.io.jsoncodec')
    enc, dec = m.functions.get('encode_obj'), m.functions.get('decode_obj')
    if enc is None or dec is None:
        raise AnalysisBroken('jsoncodec.encode_obj/decode_obj are gone')
    ef, df = mod_closure(ix, enc), mod_closure(ix, dec)
    consts = set()
    for f in df:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                consts.add(n.value)
    emitted = {}
    for f in ef:
        for n in ast.walk(f.node):
            ks = []
            if isinstance(n, ast.Dict):
                ks = n.keys
            elif isinstance(n, ast.Assign):
                ks = [t.slice for t in n.targets if isinstance(t, ast.Subscript)]
            for k in ks:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    emitted[k.value] = (f, n)
    for k, (f, n) in sorted(emitted.items()):
        if k not in consts:
            res.add('C05.undecoded-tag', 'jsoncodec %s' % k, f.loc(n), 'written by the encoder, never read by the decoder')
    res.count('codec tags and keys', len(emitted), 18)
    # types per tag
    etype, dtype = {}, {}
    seen = []
    for f in ef:
        if f.parent is not None:
            continue
        seen = []
        for test, body, node in _branches(f.node.body):
            ts = _isinst_types(test)
            for t in ts:
                for (t0, n0) in seen:
                    if t0 == t or t0 in SUPER.get(t, ()):
                        if not _qualified(test) or t0 != t:
                            res.add('C05.shadowed-type', 'jsoncodec %s after %s' % (t, t0), f.loc(node),
                                    'an earlier test for %s already takes every %s' % (t0, t))
            if ts and not _qualified(test):
                seen += [(t, node) for t in ts]
            for tag in _tags_in(body):
                for t in ts:
                    etype.setdefault(tag, set()).add(t)
    for f in df:
        for n in ast.walk(f.node):
            if isinstance(n, ast.If):
                tags = {x.value for x in ast.walk(n.test) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                for r in _own_returns(n.body):
                    if isinstance(r.value, ast.Call):
                        for t in tags:
                            dtype.setdefault(t, {})[_last(r.value.func)] = (f, r)
                    elif isinstance(r.value, (ast.List, ast.ListComp)):
                        for t in tags:
                            dtype.setdefault(t, {})['list'] = (f, r)
                    elif isinstance(r.value, (ast.Dict, ast.DictComp)):
                        for t in tags:
                            dtype.setdefault(t, {})['dict'] = (f, r)
                    elif isinstance(r.value, (ast.Set, ast.SetComp)):
                        for t in tags:
                            dtype.setdefault(t, {})['set'] = (f, r)
    k = 0
    for tag, ts in sorted(etype.items()):
        for t in ts & CTOR_OF:
            k += 1
            for d, (f, r) in dtype.get(tag, {}).items():
                if d in CTOR_OF and d != t:
                    res.add('C05.decoded-type', 'jsoncodec %s' % tag, f.loc(r), 'a %s is decoded as a %s' % (t, d))
    res.count('codec container types matched', k, 8)


def _branches(body):
    """(test, body, node) of the alternatives of if-chains and of consecutive `if ...: return`"""
    out = []
    for s in body:
        while isinstance(s, ast.If):
            out.append((s.test, s.body, s))
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
            else:
                out += _branches(s.orelse)
                break
    return out


def _isinst_types(test):
    out = []
    for n in ast.walk(test):
        if isinstance(n, ast.Call) and dotted(n.func) == 'isinstance' and len(n.args) == 2:
            ts = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
            out += [_last(t) for t in ts if _last(t)]
    return out


def _qualified(test):
    return isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And)


def _tags_in(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Dict):
                for k in n.keys:
                    if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.startswith('__'):
                        out.add(k.value)
    return out


def _own_returns(body):
    out = []
    for s in body:
        if isinstance(s, ast.Return) and s.value is not None:
            out.append(s)
        elif isinstance(s, ast.If):
            out += _own_returns(s.body) + _own_returns(s.orelse)
    return out


# ---- (f) ------------------------------------------------------------------------------------------------------------
IOPAIR = {'dump': 'load', 'write_circuit_list': 'load_circuit_list', 'write': 'from_dir'}


def metadir(ix, res):
    m = ix.mod('pygsti.io.metadir')
    names = {'w': 'write_meta_based_dir', 'r': 'load_meta_based_dir', 'x': '_get_auxfile_ext'}
    fs = {}
    for k, v in names.items():
        if v not in m.functions:
            if k == 'x':
                fs[k] = None
                continue
            raise AnalysisBroken('metadir.%s is gone' % v)
        fs[k] = m.functions[v]
    types = {}
    ops = {}
    for k in ('w', 'r'):
        types[k], ops[k] = {}, {}
        for f in [g for g in mod_closure(ix, fs[k]) if g is not fs['x']]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.If):
                    for t in _type_consts(n.test):
                        types[k][t] = (f, n)
                        ops[k].setdefault(t, set()).update(_io_ops(n.body))
    ext = set()
    if fs['x'] is not None:
        for n in ast.walk(fs['x'].node):
            if isinstance(n, ast.Compare):
                ext |= _type_consts(n)
            elif isinstance(n, ast.Dict):
                ext |= {q.value for q in n.keys if isinstance(q, ast.Constant)}
    for t, (f, n) in sorted(types['w'].items()):
        if t not in types['r']:
            res.add('C05.unread-type', 'metadir %s' % t, f.loc(n), 'files of this type are written but no reader branch exists')
    for t, (f, n) in sorted(types['r'].items()):
        if t not in types['w']:
            res.add('C05.unwritten-type', 'metadir %s' % t, f.loc(n), 'a reader branch exists but nothing writes this type')
        elif t in ops['w']:
            for w, r in IOPAIR.items():
                if any(o.split('.')[-1] == w for o in ops['w'][t]) != any(o.split('.')[-1] == r for o in ops['r'].get(t, ())):
                    res.add('C05.file-format', 'metadir %s' % t, f.loc(n), 'written with %s but read with %s'
                            % (sorted(ops['w'][t]), sorted(ops['r'].get(t, ()))))
            mods = [{o.split('.')[0] for o in ops[k].get(t, ()) if o.split('.')[-1] in ('dump', 'load')} for k in 'wr']
            if mods[0] != mods[1]:
                res.add('C05.file-format', 'metadir %s' % t, f.loc(n), 'written by %s, read by %s' % tuple(map(sorted, mods)))
    if ext:
        for t in sorted((set(types['w']) | set(types['r'])) - ext):
            res.add('C05.unread-type', 'metadir extension of %s' % t, fs['x'].loc(fs['x'].node), 'has no file extension')
    # file names
    for t in sorted(set(types['w']) & set(types['r'])):
        sk = []
        for k in 'wr':
            f, n = types[k][t]
            sk.append(_paths(f, n))
        if sk[0] and sk[1] and sk[0] != sk[1]:
            res.add('C05.file-name', 'metadir %s' % t, types['r'][t][0].loc(types['r'][t][1]),
                    'written to %s but read from %s' % (sorted(sk[0]), sorted(sk[1])))
    res.count('directory file types', len(types['w']), 7)
    # meta.json members
    for k, fn in (('w', ('write_meta_based_dir',)), ('r', ('load_meta_based_dir',))):
        pass
    allt = set(types['w']) | set(types['r'])
    res.meta_types = allt


def _type_consts(test):
    out = set()
    for n in ast.walk(test):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and len(n.ops) == 1 and \
                isinstance(n.ops[0], (ast.Eq, ast.In)):
            for x in ast.walk(n.comparators[0]):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.add(x.value)
    return out


def _io_ops(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('dump', 'load', 'write', 'from_dir',
                                                                        'write_circuit_list', 'load_circuit_list'):
                    if n.func.attr == 'write' and not isinstance(n.func.value, ast.Name):
                        continue
                    out.add((dotted(n.func.value) or '?') + '.' + n.func.attr)
    return out


def _paths(f, branch):
    """shape of the file names built in a branch: constants kept, names abstracted"""
    out = set()

    def shape(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return shape(e.left) + shape(e.right)
        if isinstance(e, ast.Constant):
            return [repr(e.value)]
        if isinstance(e, ast.JoinedStr):
            r = []
            for v in e.values:
                r += [repr(v.value)] if isinstance(v, ast.Constant) else ['N']
            return r
        return ['N']
    locs = Prov._defs(f.node)

    def consider(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            r = e.right
            if isinstance(r, ast.Name):
                for v in locs.get(r.id, []):
                    if isinstance(v, (ast.BinOp, ast.JoinedStr)):
                        out.add('+'.join(shape(v)))
                return
            out.add('+'.join(shape(r)))
    for s in branch.body:
        for n in ast.walk(s):
            consider(n)
    return out


AUX_REQUIRED = {
    # attributes that hold objects JSON cannot represent: they must be declared as stored in (or kept out of) files
    'all_circuits_needing_data': 'text-circuit-list', 'alt_actual_circuits_executed': 'text-circuit-list',
    'circuit_lists': None, 'circuit_structs': None, 'target_model': None, 'initial_model': None,
    'model_to_test': None, 'models_to_test': None, 'gaugeopt_suite': None, 'gaugeopt_target': None,
    'advancedOptions': None, 'prep_fiducials': None, 'meas_fiducials': None, 'germs': None, 'germ_length_limits': None,
    'fiducial_pairs': None, 'estimates': None, 'stabilityanalyzer': None, 'dscomparator': None, 'custom_data_src': None,
    'rescale_function': None, 'fits': None, 'volumetric_benchmarks': None, 'failure_counts': None,
    'sin_prep': None, 'sin_meas': None, 'cos_prep': None, 'cos_meas': None, 'protocol': None, 'data': None,
    'default_protocols': None, '_vals': None, '_dirs': None, 'idealout_lists': None, 'postproc': None, 'passes': None,
    'gate': None, 'comm': None}


def auxfiles(ix, res):
    n = na = 0
    for c in ix.classes:
        if not c.module.name.startswith('pygsti.protocols.'):
            continue
        decl, where = {}, {}
        has = False
        attrs = {}
        for b in reversed(c.mro()):
            f = b.methods.get('__init__')
            if f is None:
                continue
            for g in closure_funcs(ix, f, b):
                attrs.update({k: (g, v) for k, v in self_assigned(g).items()})
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr == 'auxfile_types' and isinstance(x.value, ast.Dict):
                                has = True
                                for kk, vv in zip(x.value.keys, x.value.values):
                                    if isinstance(kk, ast.Constant):
                                        decl[kk.value] = getattr(vv, 'value', None)
                                        where[kk.value] = (g, x)
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and \
                                    t.value.attr == 'auxfile_types' and isinstance(t.slice, ast.Constant):
                                decl[t.slice.value] = getattr(x.value, 'value', None)
                                where[t.slice.value] = (g, x)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and \
                            isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'auxfile_types':
                        for a in x.args:
                            if isinstance(a, ast.Dict):
                                for kk, vv in zip(a.keys, a.values):
                                    if isinstance(kk, ast.Constant):
                                        decl[kk.value] = getattr(vv, 'value', None)
                                        where[kk.value] = (g, x)
                        for kw in x.keywords:
                            decl[kw.arg] = getattr(kw.value, 'value', None)
                            where[kw.arg] = (g, x)
        if not has:
            continue
        n += 1
        late = set()
        for nm in ('from_dir', '_init_unserialized_attributes', '_init_children'):
            for f in [b.methods[nm] for b in c.mro() if nm in b.methods]:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        late.add(x.attr)
                for g in closure_funcs(ix, f, c):
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            late.add(x.attr)
        for k, t in sorted(decl.items()):
            na += 1
            g, x = where[k]
            if k not in attrs:
                res.add('C05.aux-unknown-member', '%s %s' % (c.name, k), g.loc(x),
                        'declared as a stored member but never set by the constructor')
            if t is not None and t not in res.meta_types:
                res.add('C05.aux-unknown-type', '%s %s' % (c.name, k), g.loc(x), 'file type %r has no reader/writer' % t)
            if t == 'none' and k not in late:
                res.add('C05.not-recreated', '%s %s' % (c.name, k), g.loc(x),
                        'kept out of the files, and loading from a directory does not set it')
        ownattrs = set()
        for k, (g, x) in attrs.items():
            if k in AUX_REQUIRED and k not in decl:
                v = x.value if isinstance(x, ast.Assign) else None
                if isinstance(v, ast.Constant):
                    continue
                res.add('C05.aux-undeclared', '%s %s' % (c.name, k), g.loc(x),
                        'holds objects that the JSON member file cannot represent, but has no file type')
    res.count('protocol/design/result classes stored as directories', n, 25)
    res.count('declared stored members', na, 80)


# ---- (g) ------------------------------------------------------------------------------------------------------------
RELINK = [
    ('pygsti.objects.results.Results', '__setstate__', ('estimates',)),
    ('pygsti.protocols.gst.ModelEstimateResults', '__setstate__', ('estimates',)),
    ('pygsti.protocols.gst.ModelEstimateResults', 'from_dir', ('estimates',)),
    ('pygsti.objects.estimate.Estimate', '__setstate__', ('confidence_region_factories',)),
    ('pygsti.objects.explicitmodel.ExplicitOpModel', '__setstate__',
     ('preps', 'povms', 'operations', 'instruments')),
    ('pygsti.objects.implicitmodel.ImplicitOpModel', '__setstate__',
     ('prep_blks', 'povm_blks', 'operation_blks', 'instrument_blks', 'factories')),
]
LINKERS = ('set_parent', 'relink_parent')


class Linked(Flow):
    def __init__(self, ix):
        Flow.__init__(self, ix)
        self.linked = set()

    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ())) and f.name not in LINKERS

    def note(self, v):
        for r in v or ():
            if r[0] in ('A', 'S') and len(r[1]) > 1:
                self.linked.add(r[1][1])

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in LINKERS:
            self.note(recv)

    def on_mutate(self, path, how, node, st, value=U):
        if path[-1] in ('parent', '_parent') and len(path) > 2 and how == 'set':
            self.linked.add(path[1])


def relink(ix, res):
    n = 0
    for qual, meth, fields in RELINK:
        c = ix.cls(qual)
        f = c.lookup(meth)
        if f is None:
            res.add('C05.gone', '%s.%s' % (c.name, meth), c.path, 'no longer defined')
            continue
        fl = LinkedRoots(ix) if meth == 'from_dir' else Linked(ix)
        fl.run(f, c)
        for x in fields:
            n += 1
            if x not in fl.linked:
                res.add('C05.not-relinked', '%s.%s %s' % (c.name, meth, x), f.loc(f.node),
                        'members of %s come back without a link to their owner' % x)
    res.count('owner links restored', n, 14)


class LinkedRoots(Linked):
    """links made on a local object: `for e in ret.estimates.values(): e.set_parent(ret)` / `e.parent = ret`"""

    def on_precall(self, node, callee, recv, args, kwargs, st):
        Linked.on_precall(self, node, callee, recv, args, kwargs, st)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in LINKERS:
            self.roots(node.func.value, self.frame.func)

    def run(self, f, c):
        for g in closure_funcs(self.ix, f, c):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ('parent', '_parent'):
                    self.roots(n.value, g)
        return Linked.run(self, f, c)

    def roots(self, expr, f):
        ds = Prov._defs(f.node)
        todo, seen = [expr], set()
        while todo:
            e = todo.pop()
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute):
                    self.linked.add(x.attr)
                if isinstance(x, ast.Name) and x.id not in seen:
                    seen.add(x.id)
                    todo += ds.get(x.id, [])


# ---- (h) ------------------------------------------------------------------------------------------------------------
def unfinished(ix, res):
    """a reader that gives up before the statements that would do the reading"""
    n = 0
    for f in all_functions(ix):
        if f.name not in ('from_dir', 'load', '__setstate__', 'read', 'load_meta_based_dir'):
            continue
        n += 1
        for x in walk_own(f.node):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(x, fld, None)
                if isinstance(b, list):
                    for a, c in zip(b, b[1:]):
                        if isinstance(a, ast.Raise):
                            res.add('C05.unfinished', '%s' % (f.name if f.cls is None else '%s.%s' % (f.cls.name, f.name)), f.loc(a),
                                    'refuses to read what is written, in front of the code that reads it')
    res.count('readers', n, 30)
