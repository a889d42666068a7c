"""C04: derived tables and cached results are never out of step with what they were computed from.

Table of (class, source fields, derived field, what counts as refreshing) obligations.  For each public entry point
of the class, every path that writes a source field also refreshes/invalidates the derived field before returning
(either order); where the derived field is consumed lazily, each read is dominated by the refresh call or by the
emptiness test.
"""
import ast
from ..index import Index, AnalysisBroken
from ..flow import Flow, fact, U
from ..cachesync import CacheSync
from ..report import Result
from .c01 import entry_points

CTOR = ('__init__', '__new__', '__setstate__', '_bare_init')


def set_true(fl, path, how, value, node, st):
    return len(path) == 2 and how == 'set' and value == frozenset([('C', True)])


def set_none(fl, path, how, value, node, st):
    return len(path) == 2 and how in ('set', 'del') and value == frozenset([('C', None)])


def set_any(fl, path, how, value, node, st):
    return len(path) == 2 and how == 'set'


class Sync(CacheSync):
    """CacheSync plus: calls of state-changing methods on a state field's object count as writes"""
    mutating_calls = ()
    star_defaults = ('update_ol',)      # documented opt-out; never forwarded positionally through *args
    allow = ()

    def on_precall(self, node, callee, recv, args, kwargs, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in self.mutating_calls:
            for r in recv or ():
                if r[0] == 'A' and len(r[1]) == 2 and r[1][0] == 'self' and r[1][1] in self.state:
                    self.on_mutate(self.ext(r[1], '[]'), 'call:' + node.func.attr, node, st)

    def write_ok(self, path, how, node, st, value):
        return self.permit(path, how, node, st) if self.permit else False

    permit = None


def olindex_permit(path, how, node, st):
    return False


SPECS = [
    # class, sources, derived, refresh predicate, methods treated as mutating the source object, floor on writes
    ('pygsti.objects.qubitgraph.QubitGraph', ('_connectivity',), '_dirty', set_true, (), 4),
    ('pygsti.objects.dataset.DataSet', ('olIndex',), 'ol', set_any, (), 2),
    ('pygsti.objects.dataset.DataSet', ('olIndex',), 'olIndex_max', set_any, (), 1),
]


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    n_eps = n_w = n_st = 0
    # --- QubitGraph: distance tables ------------------------------------------------------------
    Q = ix.cls('pygsti.objects.qubitgraph.QubitGraph')
    n_w += sync(ix, res, Q, ('_connectivity', 'directed', '_nodeinds'), '_dirty', set_true, (), 4, 'QubitGraph')
    lazy_reads(ix, res, Q, ('_distance_matrix', '_predecessors'), '_dirty')
    # --- DataSet: outcome-label reverse table, counts cache -------------------------------------
    D = ix.cls('pygsti.objects.dataset.DataSet')
    n_w += sync(ix, res, D, ('olIndex',), 'ol', set_any, (), 2, 'DataSet', skip=('load',),
                assume=lambda f: frozenset([('f', ('t', ('update_ol',)), True)]) if 'update_ol' in f.params else
                frozenset())
    n_w += sync(ix, res, D, ('olIndex',), 'olIndex_max', set_any, (), 1, 'DataSet',
                skip=('load', 'rename_outcome_labels'))
    # a static data set must not keep counts cached under former labels / circuits
    n_w += sync(ix, res, D, ('olIndex', 'oliData', 'repData', 'timeData', 'cirIndex'), 'cnt_cache', set_any, (), 3,
                'DataSet', skip=('load',), static=True)
    n_w += loads(ix, res, D)
    # --- gauge group elements: cached inverse ---------------------------------------------------
    G = ix.cls('pygsti.objects.gaugegroup.OpGaugeGroupElement')
    for c in [G] + G.all_subclasses():
        n_w += sync(ix, res, c, ('gate',), '_inv_matrix', set_none,
                    ('from_vector', 'set_value', 'transform', 'depolarize', 'rotate', 'set_dense'), 1, c.name)
        lazy_reads(ix, res, c, ('_inv_matrix',), None, floor=1)
    res.count('source_writes_found', n_w, 20)
    res.explanation = ('For each (class, source, derived) obligation every public entry point was interpreted path by path; a '
                       'write of the source must be paired with a refresh of the derived value, and lazily consumed values '
                       'must be refreshed or tested before use.')
    res.assumptions = ['derived values are recomputed correctly once refreshed (numerical correctness not decided)']
    return res


def sync(ix, res, C, state, cache, pred, calls, floor, label, skip=(), assume=None, static=False):
    writes, resets = set(), set()
    for (kind, n), f in sorted(entry_points(C).items()):
        if f.is_static or f.is_classmethod or n in CTOR or n in skip:
            continue
        fl = Sync(ix, C, state, cache, pred)
        fl.mutating_calls = calls
        must = assume(f) if assume else frozenset()
        if static:
            must = must | {('f', ('t', ('self', 'bStatic')), True)}
        for s in sorted(fl.stale_at_exit(f, C, must)):
            res.add('C04.stale', '%s.%s writes %s without refreshing %s' % (label, s[1], s[2], cache),
                    '%s:%d' % (s[3], s[4]), 'public %s.%s can return with a stale %s (path %s)' % (C.name, n, cache, s[5]))
        if static:
            fl2 = Sync(ix, C, state, cache, pred)
            fl2.stale_at_exit(f, C)
            writes |= fl2.writes
        writes |= fl.writes
        resets |= fl.resets
    res.count('writes %s %s->%s' % (C.name, '/'.join(state), cache), len(writes), floor)
    res.count('refreshes %s %s' % (C.name, cache), len(resets), 1)
    return len(writes)


class Lazy(Flow):
    """every read of a lazily computed field happens after the field was refreshed or tested"""

    def __init__(self, ix, cls, fields, flag):
        Flow.__init__(self, ix)
        self.cls, self.fields, self.flag = cls, fields, flag
        self.bad, self.reads = [], set()

    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] == 'self' and len(path) == 2 and path[1] in self.fields and how == 'set':
            st.must = st.must | {('fresh', path[1])}
        if path[0] == 'self' and len(path) == 2 and path[1] == self.flag and value == frozenset([('C', True)]):
            st.must = frozenset(x for x in st.must if x[0] != 'fresh')

    def on_fact(self, atom, pol, st):
        p = ('self', self.flag) if self.flag else None
        if p and atom == ('t', p) and pol is False:
            st.must = st.must | {('fresh', x) for x in self.fields}
        if atom[0] == 'none' and atom[1][0] == 'self' and len(atom[1]) == 2 and atom[1][1] in self.fields:
            if pol is False and not self.flag:
                st.must = st.must | {('fresh', atom[1][1])}

    testing = 0

    def formula(self, e, st, keep=None):
        # reads inside a test of the field itself are not uses
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Attribute) and e.left.attr in self.fields:
            self.testing += 1
            r = Flow.formula(self, e, st, keep)
            self.testing -= 1
            return r
        return Flow.formula(self, e, st, keep)

    def on_read(self, path, node, st):
        if path[0] == 'self' and len(path) == 2 and path[1] in self.fields and not self.testing:
            if isinstance(getattr(node, 'ctx', None), ast.Store):
                return
            self.reads.add((self.frame.func.qual, node.lineno))
            if ('fresh', path[1]) not in st.must:
                self.bad.append((self.frame.func, node, path[1], self.frame.chain()))


def lazy_reads(ix, res, C, fields, flag, floor=2):
    reads = set()
    for (kind, n), f in sorted(entry_points(C).items()):
        if f.is_static or f.is_classmethod or n in CTOR:
            continue
        fl = Lazy(ix, C, fields, flag)
        fl.run(f, C)
        reads |= fl.reads
        for (wf, node, fld, chain) in fl.bad:
            res.add('C04.unrefreshed-read', '%s.%s reads %s' % (C.name, wf.name, fld), wf.loc(node),
                    'reached from %s via %s without refreshing or testing the lazily computed value'
                    % (n, ' > '.join(chain)))
    res.count('lazy reads %s' % C.name, len(reads), floor)


class Assigned(Flow):
    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] == 'self' and len(path) == 2 and how == 'set':
            st.must = st.must | {('w', path[1])}


def loads(ix, res, D):
    """loading replaces the recorded data: the counts cache must be rebuilt on every path"""
    n = 0
    for name in ('load', '__setstate__'):
        f = D.lookup(name)
        if f is None:
            raise AnalysisBroken('DataSet.%s is gone' % name)
        fl = Assigned(ix)
        rets, _ = fl.run(f, D)
        for (st, v, node) in rets:
            if st.dead:
                continue
            n += 1
            for fld in ('cnt_cache', 'ol', 'olIndex'):
                if ('w', fld) not in st.must:
                    res.add('C04.stale', 'DataSet.%s leaves %s' % (name, fld), f.loc(node),
                            'can return without resetting %s for the newly loaded data' % fld)
    return n
