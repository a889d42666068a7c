"""C07: changing a model member is always noticed.

(a) Every public operation of a ModelMember that changes one of the fields its from_vector sets (its parameters or
    its numerical representation) marks the member dirty on every path before it returns (a change made through a
    child's own public mutator is marked by the child, which shares the parent).
(b) A member whose from_vector refreshes its numerical representation has it refreshed, after the change, by every
    public operation that changes its parameters or its children.
(c) the dirty setter hands a True value on to the parent.
(d) what a member keeps that refers to its place in the model's parameter vector, or to its factors, is dropped or
    renewed when the place (the factors) changes.
"""
import ast
from ..index import Index, AnalysisBroken
from ..flow import Flow, fact, U
from ..cachesync import CacheSync
from ..report import Result
from .c01 import entry_points

MM = 'pygsti.objects.modelmember.ModelMember'
REP = {'_rep', 'base', 'base1D', '_ptr'}
CHILDMUT = {'from_vector', 'set_value', 'transform', 'spam_transform', 'depolarize', 'rotate', 'set_coeffs',
            'set_error_rates', 'set_errgen_coeffs'}
SKIP = {'__init__', '__new__', '__setstate__', '__reduce__', '__deepcopy__', 'copy', 'set_gpindices', 'clear_gpindices',
        'allocate_gpindices', 'relink_parent', 'unlink_parent', '__getstate__', 'parent', 'gpindices', 'dirty',
        '__pygsti_reduce__', 'set_time', 'base', 'compile_operations', 'compile_effects', 'simplify_operations',
        'simplify_effects'}
# caches filled lazily: not parameters
# classes whose from_vector has to bring their own numerical representation up to date
REFRESH = {'_BasePOVM', 'UnconstrainedPOVM', 'TPPOVM', 'TPInstrument', 'CPTPSPAMVec', 'ComplementSPAMVec', 'ComposedDenseOp', 'ComposedOp', 'DepolarizeOp', 'EigenvalueParamDenseOp',
           'EmbeddedDenseOp', 'EmbeddedOp', 'FullDenseOp', 'FullSPAMVec', 'LindbladDenseOp', 'LindbladErrorgen',
           'LindbladOp', 'LindbladSPAMVec', 'LinearlyParamDenseOp', 'StochasticNoiseOp', 'TPDenseOp', 'TPInstrumentOp',
           'TPSPAMVec', 'TensorProdPOVM', 'TensorProdSPAMVec'}


def _t(a, pol=True):
    return ('f', ('t', ('self', a)), pol)


def _e(a, v):
    return ('f', ('eq', ('self', a), v), True)


# situations in which the class holds numbers of its own that depend on its parameters or children
PRE = {}
for _c in ('ComposedOp', 'ComposedDenseOp', 'EmbeddedOp', 'EmbeddedDenseOp'):
    PRE[_c] = [[_e('_evotype', ev), _t('dense_rep')] for ev in ('densitymx', 'statevec')]
for _c in ('LindbladOp', 'LindbladDenseOp'):
    PRE[_c] = [[_e('_evotype', 'densitymx'), _t('dense_rep', x)] for x in (True, False)]
PRE['LindbladErrorgen'] = [[_e('_evotype', 'densitymx'), _t('sparse', x)] for x in (True, False)]
PRE['LindbladSPAMVec'] = [[_e('_evotype', 'densitymx'), _e('_prep_or_effect', 'prep')]]
PRE['TensorProdSPAMVec'] = [[_e('_evotype', ev), _e('_prep_or_effect', 'prep')]
                            for ev in ('densitymx', 'statevec', 'stabilizer')]
for _c in ('_BasePOVM', 'TPPOVM'):
    PRE[_c] = [[_t('complement_label')]]
PRE['UnconstrainedPOVM'] = []
# situations in which the representation only refers to the children's: it needs renewing when children come or go
STRUCT = {'ComposedOp': [[_e('_evotype', ev), _t('dense_rep', False),
                         ('f', ('none', ('self', '_rep')), False)] for ev in ('densitymx', 'statevec', 'stabilizer')],
          'ComposedErrorgen': [[_e('_evotype', 'densitymx'), ('f', ('none', ('self', '_rep')), False)]]}
STRUCT['ComposedDenseOp'] = STRUCT['ComposedOp']
PLUMBING = {'dim', '_evotype', '_gpindices', 'gpindices', '_readonly', 'parent', '_parent', '_prep_or_effect', 'Np', 'complement_label',
            '[]'}
EVOTYPES = ('densitymx', 'statevec', 'stabilizer', 'svterm', 'cterm')
LAZY = {'terms', 'direct_terms', 'local_term_poly_coeffs', 'direct_terms_poly_coeffs', 'exp_terms_cache',
        '_gpindices', '_gplabels', '_parent', '_dirty', 'dirty'}
NODIRTY = frozenset([('f', ('t', ('nodirty',)), False), ('f', ('t', ('close',)), False)])
# facts the constructor establishes for good (an assert there refuses anything else)
CONST = {'EmbeddedErrorgen': frozenset([('f', ('t', ('self', 'dense_rep')), False)])}


def grp(a):
    return '_rep' if a in REP else a


class Base(Flow):
    loops_run = True

    def __init__(self, ix, cls):
        Flow.__init__(self, ix)
        self.cls = cls

    def should_inline(self, f, recv, args):
        if f.name in ('dirty', '_ptr') or f.name in REP:
            return False
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def child_call(self, node, recv, args, kwargs):
        """call of a mutator on something below self -> (path, nodirty is literally True)"""
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in CHILDMUT):
            return None
        for r in recv or ():
            if r[0] in ('A', 'S') and r[1][0] == 'self' and len(r[1]) >= 2:
                nd = any(k.arg == 'nodirty' and isinstance(k.value, ast.Constant) and k.value.value is True
                         for k in node.keywords)
                if node.func.attr == 'from_vector' and len(node.args) >= 3 and \
                        isinstance(node.args[2], ast.Constant) and node.args[2].value is True:
                    nd = True
                return r[1], nd
        return None

    def rep_call(self, node, recv):
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute)):
            return False
        n = node.func.attr
        if n in ('_update_rep', '_construct_vector', '_construct_matrix') and recv and not any(r[0] == 'A' and r[1] == ('self',) for r in recv):
            return True
        for r in recv or ():
            if r[0] != 'A' or r[1][0] != 'self' or len(r[1]) < 2:
                continue
            if r[1][1] in REP and (n.startswith('set_') or n.startswith('reinit') or n.startswith('update')):
                return True
            if n == '_update_rep' and len(r[1]) >= 2:
                return True
        return False


class Fields(Base):
    """fields from_vector writes, and the contexts in which it writes the representation"""

    def __init__(self, ix, cls):
        Base.__init__(self, ix, cls)
        self.fields = set()
        self.ctx = set()
        self.children = False

    def ctxnow(self, st):
        self.ctx.add(frozenset(f for f in st.must if f[0] == 'f' and _about_self(f)))

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] != 'self' or len(path) < 2 or path[1] in LAZY or path[1] == '[]' or path[1] == '__dict__':
            return
        self.fields.add(grp(path[1]))
        if path[1] in REP:
            self.ctxnow(st)

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if self.child_call(node, recv, args, kwargs):
            self.children = True
        if self.rep_call(node, recv):
            self.fields.add('_rep')
            self.ctxnow(st)


def _about_self(f):
    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'self' and all(isinstance(y, str) for y in x):
                yield x
            else:
                for y in x:
                    for z in walk(y):
                        yield z
    ps = list(walk(f[1]))
    return bool(ps) and all(p[1] not in REP for p in ps if len(p) > 1)


class Reads(Base):
    """fields to_vector reads"""

    def __init__(self, ix, cls):
        Base.__init__(self, ix, cls)
        self.fields = set()

    children = False

    def on_read(self, path, node, st):
        if path[0] == 'self' and len(path) > 1:
            self.fields.add(grp(path[1]))

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'to_vector' and \
                any(r[0] in 'AS' and r[1][0] == 'self' and len(r[1]) > 1 for r in recv or ()):
            self.children = True


class Dirty(Base):
    def __init__(self, ix, cls, fields):
        Base.__init__(self, ix, cls)
        self.fields = fields
        self.writes = set()

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] != 'self' or len(path) < 2:
            return
        if len(path) == 2 and path[1] in ('dirty',) and how == 'set':
            if value == frozenset([('C', True)]):
                st.may = frozenset(x for x in st.may if x[0] != 'undirty')
                st.must = st.must | {('ev', 'dirtied')}
            elif value == frozenset([('C', False)]):
                st.must = st.must - {('ev', 'dirtied')}
            return
        if grp(path[1]) in self.fields:
            self.note(node, st, path[1])

    def note(self, node, st, what):
        self.writes.add((self.frame.func.qual, node.lineno))
        if ('ev', 'dirtied') not in st.must:
            st.may = st.may | {('undirty', self.frame.func.qual, what, self.frame.func.path, node.lineno)}

    def on_precall(self, node, callee, recv, args, kwargs, st):
        c = self.child_call(node, recv, args, kwargs)
        if c and c[1]:
            self.note(node, st, c[0][1])
        elif c:
            self.writes.add((self.frame.func.qual, node.lineno))
            st.may = frozenset(x for x in st.may if x[0] != 'undirty')
            st.must = st.must | {('ev', 'dirtied')}
        elif self.rep_call(node, recv) and '_rep' in self.fields:
            self.note(node, st, '_rep')
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == '_mark_for_rebuild':
            st.may = frozenset(x for x in st.may if x[0] != 'undirty')   # a stronger notice: the number may have changed
            st.must = st.must | {('ev', 'dirtied')}


class Stale(Base):
    def __init__(self, ix, cls, fields, values):
        Base.__init__(self, ix, cls)
        self.fields = fields - {'_rep'}
        self.values = values          # changes of children's values count, not only of their number
        self.changes = set()

    def change(self, node, st, what):
        self.changes.add((self.frame.func.qual, node.lineno))
        st.may = st.may | {('stale', self.frame.func.qual, what, self.frame.func.path, node.lineno)}

    def fresh(self, st):
        st.may = frozenset(x for x in st.may if x[0] != 'stale')

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] != 'self' or len(path) < 2:
            return
        if path[1] in REP:
            if 'flags' not in path:
                self.fresh(st)
        elif path[1] in self.fields:
            self.change(node, st, path[1])

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if self.rep_call(node, recv):
            self.fresh(st)
            return
        c = self.child_call(node, recv, args, kwargs)
        if c and self.values:
            self.change(node, st, '.'.join(c[0][1:]))


def methods(C):
    for (kind, n), f in sorted(entry_points(C).items()):
        if n in SKIP or f.is_static or f.is_classmethod:
            continue
        if n.startswith('__') and n not in ('__setitem__', '__setslice__', '__delitem__', '__iadd__', '__imul__',
                                            '__isub__', '__setattr__'):
            continue
        yield kind, n, f


class Wrote(Base):
    """does every normal exit of from_vector/set_value come after a write of what to_vector reads?"""

    def __init__(self, ix, cls, fields):
        Base.__init__(self, ix, cls)
        self.fields = fields

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] == 'self' and len(path) >= 2 and grp(path[1]) in self.fields and 'flags' not in path:
            st.must = st.must | {('ev', 'wrote')}

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if self.child_call(node, recv, args, kwargs):
            st.must = st.must | {('ev', 'wrote')}


class Renewed(Base):
    """does every return come after the representation was written?"""

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] == 'self' and len(path) >= 2 and path[1] in REP and 'flags' not in path:
            st.must = st.must | {('ev', 'renewed')}

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if self.rep_call(node, recv):
            st.must = st.must | {('ev', 'renewed')}


class Lends(Base):
    """does every return come after dirty=True?"""

    def on_mutate(self, path, how, node, st, value=U):
        if path == ('self', 'dirty') and how == 'set' and value == frozenset([('C', True)]):
            st.must = st.must | {('ev', 'dirtied')}


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    M = ix.cls(MM)
    refreshed = ncls = neps = nw = nch = nctx = nset = nlend = 0
    seen = set()
    for C in [M] + M.all_subclasses():
        fv = C.lookup('from_vector')
        if fv is None:
            continue
        ff = Fields(ix, C)
        ff.run(fv, C, must=NODIRTY)
        ctx = set()
        for ev in EVOTYPES:
            fe = Fields(ix, C)
            evf = frozenset([_e('_evotype', ev)])
            fe.run(fv, C, must=NODIRTY | evf)
            ctx |= set(c | evf for c in fe.ctx)
        tv = C.lookup('to_vector')
        rd = Reads(ix, C)
        if tv is not None:
            rd.run(tv, C)
        state = ff.fields & rd.fields
        if C.name in REFRESH and '_rep' not in state:
            ctx |= set(frozenset(k) for k in PRE.get(C.name, [[]]))
            ff.fields.add('_rep')
            refreshed += 1
        if rd.children and not ff.children:
            res.add('C07.not-set', '%s.from_vector' % C.name, '%s:%d' % (fv.path, fv.node.lineno),
                    'to_vector is made of the children\'s vectors but from_vector does not pass anything on to them')
        const = CONST.get(C.name, frozenset())
        ncls += 1
        for kind, n, f in methods(C):
            d = Dirty(ix, C, state)
            rets, _ = d.run(f, C, must=NODIRTY)
            neps += 1
            nw += len(d.writes)
            for st, v, node in rets:
                if st.dead:
                    continue
                for x in sorted(x for x in st.may if x[0] == 'undirty'):
                    res.add('C07.not-dirty', '%s changes %s' % (x[1].replace('pygsti.objects.', ''), x[2]),
                            '%s:%d' % (x[3], x[4]),
                            '%s.%s can return having changed the member without marking it dirty' % (C.name, n))
            if kind == 'm' and n in CHILDMUT and rd.fields - PLUMBING:
                nset += 1
                w = Wrote(ix, C, rd.fields - PLUMBING)
                m = NODIRTY
                if C.name == 'TensorProdSPAMVec':
                    m = m | {_e('_prep_or_effect', 'prep')}    # effects are set through their POVM
                rets, _ = w.run(f, C, must=m)
                for st, v, node in rets:
                    if not st.dead and ('ev', 'wrote') not in st.must:
                        res.add('C07.not-set', '%s.%s' % (C.name, n), '%s:%d' % (f.path, node.lineno),
                                '%s can return without having changed what to_vector reads (%s)'
                                % (n, ', '.join(sorted(rd.fields - PLUMBING))))
        if '_rep' in state:
            for n in ('__getitem__', '__getslice__', '__getattr__'):
                f = C.lookup(n)
                if f is None:
                    continue
                nlend += 1
                rets, _ = Lends(ix, C).run(f, C)
                for st, v, node in rets:
                    if not st.dead and ('ev', 'dirtied') not in st.must:
                        res.add('C07.not-dirty', '%s.%s lends its numbers' % (C.name, n), '%s:%d' % (f.path, node.lineno),
                                'the array handed out can be written to without the member being marked dirty')
        runs = []
        if '_rep' in ff.fields and (state - {'_rep'} or ff.children):
            runs += [(k, state, True) for k in sorted(ctx, key=repr)
                     if not any((a[0], a[1], not a[2]) in k for a in const)]
        lists = set()
        if C.name in STRUCT:
            rs = Reads(ix, C)
            rs.run(C.lookup('submembers'), C)
            lists = rs.fields - PLUMBING
            runs += [(frozenset(k), lists, False) for k in STRUCT[C.name]]
            runs = [(k, st_ | lists, v) for (k, st_, v) in runs]
        if C.name in REFRESH and not runs and not (state - {'_rep'}) and not ff.children:
            # all that it shows is made from members which somebody else has brought up to date
            nctx += 1
            rets, _ = Renewed(ix, C).run(fv, C, must=NODIRTY)
            for st, v, node in rets:
                if not st.dead and ('ev', 'renewed') not in st.must:
                    res.add('C07.stale-rep', '%s.from_vector leaves the representation as it was' % C.name,
                            '%s:%d' % (fv.path, node.lineno), 'from_vector can return without renewing the representation')
        for k, fields, values in runs:
            nctx += 1
            for kind, n, f in methods(C):
                s = Stale(ix, C, fields, values)
                rets, _ = s.run(f, C, must=k | NODIRTY)
                nch += len(s.changes)
                seen |= s.changes
                for st, v, node in rets:
                    if st.dead:
                        continue
                    for x in sorted(x for x in st.may if x[0] == 'stale'):
                        res.add('C07.stale-rep', '%s.%s leaves the representation as it was' % (C.name, n),
                                '%s:%d' % (x[3], x[4]),
                                'after changing %s in %s the representation is not refreshed' % (x[2], x[1]))
    dirty_chain(ix, res, M)
    rebuilds(ix, res)
    place_caches(ix, res)
    res.count('classes_with_own_representation', refreshed, len(REFRESH) - 4)
    res.count('member_classes', ncls, 40)
    res.count('entry_points_analysed', neps, 300)
    res.count('state_changes_seen', nw, 80)
    res.count('setters_checked', nset, 40)
    res.count('array_lending_methods', nlend, 8)
    res.count('representation_contexts', nctx, 20)
    res.count('changes_needing_refresh', len(seen), 15)
    res.explanation = ('For each ModelMember class the fields its to_vector reads and its from_vector writes were computed; '
                       'every public operation was then interpreted path by path: a change of such a field must be '
                       'accompanied by dirty=True (or go through a child that does so), and where from_vector refreshes '
                       'the representation every operation that changes parameters or children must refresh it '
                       'afterwards.')
    res.assumptions = ['loops over the children/parameters of a member run at least once',
                       'children of a member share its parent (claimed separately, C10)',
                       'the refreshed representation is numerically right (not decided)']
    return res


class Marks(Flow):
    """`_need_to_rebuild = True` and `dirty = True` on the model"""

    def should_inline(self, f, recv, args):
        return not f.name.startswith('_iter') and any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if len(path) == 2 and path[0] == 'self' and path[1] in ('_need_to_rebuild', 'dirty') and how == 'set':
            if value == frozenset([('C', True)]):
                st.must = st.must | {('ev', path[1])}
                st.may = st.may | {('ev', path[1])}


def rebuilds(ix, res):
    """a model that is to rebuild its parameter vector is also marked dirty: members put in with values of their own
    are reconciled with the vector"""
    n = 0
    M = ix.cls('pygsti.objects.model.OpModel')
    for C in [M] + M.all_subclasses():
        for nm, f in sorted(C.methods.items()):
            if nm in ('__init__', '__setstate__') or not any(
                    isinstance(x, ast.Attribute) and x.attr == '_need_to_rebuild' and isinstance(x.ctx, ast.Store)
                    and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(f.node)):
                continue
            rets, _ = Marks(ix).run(f, C)
            for st, v, node in rets:
                if st.dead or ('ev', '_need_to_rebuild') not in st.may:
                    continue
                n += 1
                if ('ev', 'dirty') not in st.must:
                    res.add('C07.not-dirty', '%s.%s asks for a rebuild' % (C.name, nm), '%s:%d' % (f.path, node.lineno),
                            'the parameter vector is to be rebuilt but the model is not marked dirty on every path')
    res.count('rebuild_requests', n, 1)


class Place(CacheSync):
    """a change of the member's place in the parameter vector (or of its factors) drops what refers to it"""
    loops_run = True
    items = False

    def should_inline(self, f, recv, args):
        return f.name not in ('dirty',) and any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if self.items and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                node.func.attr in ('_set_only_my_gpindices', 'set_gpindices') and recv and \
                not any(r[0] == 'A' and r[1][0] == 'self' and (len(r[1]) == 1 or r[1][1] != '[]') for r in recv):
            if isinstance(node.func.value, ast.Name) or isinstance(node.func.value, ast.Subscript):
                self.resets.add((self.frame.func.qual, node.lineno))
                st.may = frozenset(x for x in st.may if x[0] != 'stale')
                st.must = st.must | {('ev', 'reset')}


PLACE = [('pygsti.objects.operation.LindbladOp', ('terms', 'exp_terms_cache', 'local_term_poly_coeffs')),
         ('pygsti.objects.operation.ComposedOp', ('terms', 'local_term_poly_coeffs')),
         ('pygsti.objects.spamvec.LindbladSPAMVec', ('terms', 'local_term_poly_coeffs')),
         ('pygsti.objects.povm.LindbladPOVM', (None,))]


def place_caches(ix, res):
    nw = nr = 0
    for q, caches in PLACE:
        C0 = ix.cls(q)
        for C in [C0] + C0.all_subclasses():
            for cache in caches:
                for n, state in (('set_gpindices', '_gpindices'), ('allocate_gpindices', '_gpindices'),
                                 ('append', 'factorops'), ('remove', 'factorops')):
                    f = C.lookup(n)
                    if f is None:
                        continue
                    p = Place(ix, C, (state,), cache or '#items')
                    p.items = cache is None
                    must = frozenset([('f', ('none', ('memo',)), True)])
                    for x in sorted(p.stale_at_exit(f, C, must)):
                        res.add('C07.stale-place', '%s.%s keeps %s' % (C.name, n, cache or 'effects with the old indices'),
                                '%s:%d' % (x[3], x[4]), 'when %s changes, %s still refers to the former ones (path %s)'
                                % (state, cache or 'the effects handed out', x[5]))
                    nw += len(p.writes)
                    nr += len(p.resets)
    class Sets(Place):
        def on_mutate(self, path, how, node, st, value=U):
            if len(path) == 2 and path[0] == 'self' and path[1] in ('_gpindices', '_parent') and how == 'set':
                st.must = st.must | {('ev', path[1])}
    M = ix.cls(MM)
    for C in [M] + M.all_subclasses():
        f = C.lookup('set_gpindices')
        rets, _ = Sets(ix, C, (), '#').run(f, C, must=frozenset([('f', ('none', ('memo',)), True)]))
        for st, v, node in rets:
            if not st.dead and not {('ev', '_gpindices'), ('ev', '_parent')} <= st.must:
                res.add('C07.stale-place', '%s.set_gpindices does not record the new place' % C.name,
                        '%s:%d' % (f.path, node.lineno), 'a path leaves the indices or the parent as they were')
    res.count('place_changes_checked', nw, 20)
    res.count('place_cache_resets', nr, 20)


class Chain(Flow):
    def __init__(self, ix, cls):
        Flow.__init__(self, ix)
        self.cls = cls

    def should_inline(self, f, recv, args):
        return False

    def on_mutate(self, path, how, node, st, value=U):
        if path == ('self', '_dirty'):
            st.must = st.must | {('ev', 'own')}
        if len(path) == 3 and path[0] == 'self' and path[1] in ('parent', '_parent') and path[2] == 'dirty':
            st.must = st.must | {('ev', 'up')}


class Chain2(Chain):
    def should_inline(self, f, recv, args):
        return True


def dirty_chain(ix, res, M):
    """the dirty setter records the value and hands True on to the parent"""
    n = 0
    for C in [M] + M.all_subclasses():
        f = C.setters.get('dirty')
        if f is None:
            continue
        n += 1
        v = f.params[1] if len(f.params) > 1 else 'value'
        fl = Chain(ix, C)
        rets, _ = fl.run(f, C, must=frozenset([('f', ('t', (v,)), True), ('f', ('t', ('self', 'parent')), True),
                                               ('f', ('t', ('self', '_parent')), True)]))
        for st, val, node in rets:
            if st.dead:
                continue
            if C is M and not (('ev', 'own') in st.must and ('ev', 'up') in st.must):
                res.add('C07.dirty-not-propagated', C.name, '%s:%d' % (f.path, f.node.lineno),
                        'setting dirty does not always record the flag and hand it on to the parent')
        if C is not M:
            ok = False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and ast.unparse(x.func).endswith('dirty.fset') and len(x.args) == 2:
                    ok = True
                if isinstance(x, ast.Attribute) and x.attr == 'dirty' and isinstance(x.value, ast.Attribute) and \
                        x.value.attr in ('parent', '_parent') and isinstance(x.ctx, ast.Store):
                    ok = True
            if not ok:
                res.add('C07.dirty-not-propagated', C.name, '%s:%d' % (f.path, f.node.lineno), 'an overriding dirty setter drops the base behaviour')
    if n == 0:
        raise AnalysisBroken('no dirty setter found')
