"""C03: a static data set's recorded data never changes.

Obligation (every public method, special method and property of DataSet and DataSetRow, every path, helpers
inlined): a write to the circuit index, the outcome/time/repetition arrays or the outcome-label index happens
only where `bStatic` is known False on every path.  Further clauses: the flag is raised by done_adding_data on
every path that found it down and is never lowered; nothing outside the class writes those fields; the public
getters do not hand out the dictionary of cached counts.
"""
import ast
from ..index import Index, AnalysisBroken
from ..flow import Flow, fact, U
from ..guards import GuardFlow
from ..report import Result
from .c01 import entry_points

STATE = ('cirIndex', 'oliData', 'timeData', 'repData', 'olIndex', 'olIndex_max')
ROWSTATE = ('oli', 'time', 'reps')
CTOR = ('__init__', '__new__', '__setstate__', 'load')
# rename_outcome_labels relabels outcomes by documented design, on static and non-static sets alike
RELABEL = {('rename_outcome_labels', 'olIndex')}


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    D = ix.cls('pygsti.objects.dataset.DataSet')
    R = ix.cls('pygsti.objects.dataset.DataSetRow')
    writes, nst, neps = set(), 0, 0
    for (C, flag, state, paths) in ((D, ('self', 'bStatic'), STATE, {}),
                                    (R, ('self', 'dataset', 'bStatic'), ROWSTATE, {('self', 'dataset'): D})):
        for (kind, n), f in sorted(entry_points(C).items()):
            if f.is_static or f.is_classmethod or n in CTOR:
                continue
            neps += 1
            g = GuardFlow(ix, C, flag, state, paths)
            if C is R:
                g.is_state = lambda p: p[0] == 'self' and len(p) > 1 and (
                    (p[1] in ROWSTATE and len(p) > 2) or (p[1] == 'dataset' and len(p) > 2 and p[2] in STATE))
            g.run(f, C)
            writes |= g.writes
            nst += g.stats['statements']
            for (wf, path, how, node, chain) in g.bad:
                if (n, path[1]) in RELABEL:
                    continue
                res.add('C03.unguarded-edit', '%s.%s writes %s' % (C.name, wf.name, '.'.join(
                    x for x in path[1:] if x != '[]')), wf.loc(node),
                    'reached from public %s.%s via %s without the static flag known to be down on every path'
                    % (C.name, n, ' > '.join(chain)))
            for (wf, node, val, chain) in g.flags:
                if val is not True:
                    res.add('C03.flag-cleared', '%s.%s' % (C.name, wf.name), wf.loc(node),
                            'lowers or overwrites the static flag of an existing data set (via %s)' % ' > '.join(chain))
    freeze(ix, D, res)
    outside(ix, D, res)
    leaks(ix, R, res)
    own_index(ix, D, res)
    res.count('entry_points_analysed', neps, 60)
    res.count('write_sites_found', len(writes), 20)
    res.count('statements_interpreted', nst)
    res.coverage['write_sites'] = sorted('%s:%d %s' % w for w in writes)
    res.explanation = ('Every public method, special method and accessor of DataSet and DataSetRow was interpreted path by '
                       'path with helpers inlined; each write of recorded data is an obligation that the static flag is '
                       'known down there.')
    res.assumptions = ['callers do not write into the numpy arrays a row exposes', 'rename_outcome_labels and auxiliary '
                       'info are outside the protected data']
    return res


class Raises(Flow):
    def __init__(self, ix, field):
        Flow.__init__(self, ix)
        self.field = field

    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if len(path) == 2 and path[0] == 'self' and how == 'set':
            st.must = frozenset(x for x in st.must if not (x[0] == 'w' and x[1] == path[1]))
            v = next(iter(value))[1] if len(value) == 1 and next(iter(value))[0] == 'C' else '?'
            st.must = st.must | {('w', path[1], v)}


def freeze(ix, D, res):
    f = D.lookup('done_adding_data')
    if f is None:
        raise AnalysisBroken('DataSet.done_adding_data is gone')
    fl = Raises(ix, 'bStatic')
    rets, _ = fl.run(f, D, must=frozenset([('f', ('t', ('self', 'bStatic')), False)]))
    n = 0
    for (st, v, node) in rets:
        if st.dead:
            continue
        n += 1
        if ('w', 'bStatic', True) not in st.must:
            res.add('C03.not-frozen', 'DataSet.done_adding_data flag', f.loc(node),
                    'can return without raising the static flag')
        for fld in ('oliData', 'timeData', 'cnt_cache'):
            if not any(x[0] == 'w' and x[1] == fld for x in st.must):
                res.add('C03.not-frozen', 'DataSet.done_adding_data ' + fld, f.loc(node),
                        'can return with %s still in its editable form' % fld)
    res.count('freeze_exits', n, 1)


def outside(ix, D, res):
    n = 0
    for m in ix.modules.values():
        if m is D.module:
            continue
        for node in ast.walk(m.tree):
            ts = []
            if isinstance(node, (ast.Assign, ast.Delete)):
                ts = node.targets
            elif isinstance(node, ast.AugAssign):
                ts = [node.target]
            for t in ts:
                b = t
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and b.attr in ('cirIndex', 'oliData', 'timeData', 'repData', 'olIndex',
                                                               'olIndex_max', 'bStatic'):
                    n += 1
                    if isinstance(b.value, ast.Name) and b.value.id == 'self' and m.name.endswith('multidataset'):
                        continue
                    res.add('C03.outside-writer', '%s assigns %s' % (m.name, b.attr), '%s:%d' % (m.relpath, node.lineno),
                            'assigns recorded data of a DataSet from outside the class')
    res.count('outside_assignments_scanned', n, 3)


def leaks(ix, R, res):
    """no public accessor of a row returns the shared cache dictionary itself"""
    n = 0
    for (kind, name), f in sorted(entry_points(R).items()):
        if f.is_static or f.is_classmethod or name == '__init__':
            continue
        fl = Leak(ix)
        rets, _ = fl.run(f, R)
        for (st, v, node) in rets:
            if st.dead:
                continue
            n += 1
            if any(r[0] == 'A' and r[1][:2] == ('self', '_cntcache') and len(r[1]) == 2 for r in v):
                res.add('C03.leaks-cache', 'DataSetRow.%s' % name, f.loc(node),
                        'hands out the cached counts dictionary; editing the result edits the data set')
    res.count('row_accessor_exits', n, 30)


class Leak(Flow):
    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))


def own_index(ix, D, res):
    """the data set keeps its own outcome-label table (a table shared with the caller could change a static set)"""
    f = D.lookup('__init__')
    fl = Adopt(ix)
    fl.run(f, D)
    res.count('index_tables_assigned_in_init', fl.n, 4)
    for (node, fld, arg) in fl.bad:
        res.add('C03.shared-index', 'DataSet.__init__ %s' % fld, f.loc(node),
                'adopts the caller\'s `%s` object itself as %s' % (arg, fld))


class Adopt(Flow):
    n = 0

    def __init__(self, ix):
        Flow.__init__(self, ix)
        self.bad, self.n, self.seen = [], 0, set()

    def on_mutate(self, path, how, node, st, value=U):
        if len(path) == 2 and path[0] == 'self' and path[1] in ('cirIndex', 'olIndex', 'auxInfo') and how == 'set':
            if node.lineno in self.seen:
                return
            self.seen.add(node.lineno)
            self.n += 1
            for r in value:
                if r[0] == 'A' and len(r[1]) == 1 and r[1][0] in ('circuitIndices', 'outcomeLabelIndices', 'auxInfo'):
                    self.bad.append((node, path[1], r[1][0]))
