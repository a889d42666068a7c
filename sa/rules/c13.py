"""C13: inputs are left as they were.

argument  a public function changes an object it was given in place (directly, through an alias, or through a function it calls)
receiver  asking an object something (printing, comparing, copying, pickling, reading values, running a protocol) changes it
default   a mutable default value is changed, so that one call leaks into the next
shared    a function that hands out, or keeps, a copy of data (reviewed list sa/data/c13_fresh.txt) shares the data itself
"""
import ast
import fnmatch
import os
import re
from ..index import Index
from ..effects import Effects
from ..report import Result

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
# package methods that change the object they are called on, whatever its class
METHODS = {'from_vector', 'set_all_parameterizations', 'set_simtype', 'set_value', 'set_dense', 'set_gpindices', 'set_operation',
           'add_count_dict', 'add_raw_series_data', 'add_series_data', 'done_adding_data', 'add_counts_from_dataset'}
# parameters whose purpose is to be filled or kept up to date by the callee
OUT = ('evaltree_cache', 'cache', 'repcache', 'circuitsetup_cache', 'data_cache', 'memo', '*ToFill', 'outvec', 'probs_out', 'md5',
       'timeDict', 'timeCallback', 'profiler', 'opcache')
QUERY = re.compile(
    r'^(__(str|repr|len|eq|ne|lt|gt|le|ge|hash|iter|contains|getstate|reduce|copy|deepcopy|add|mul|sub|pow|neg|abs|radd|rmul|call)__'
    r'|copy|copy_into|get_.*|to_.*|num_.*|is_.*|has_.*|as_.*|write.*|save.*|print.*|view|keys|values|items|simulate|probs|dprobs'
    r'|hprobs|product|dproduct|hproduct|depth|size|width|compute.*|extract.*|frobeniusdist.*|jtracedist|diamonddist|residuals'
    r'|serialize|truncate|time_slice|.*_str|nodes_.*|shortest.*|run|todense|tosparse|to_vector|deriv_wrt_params|hessian_wrt_params'
    r'|has_nonzero_hessian|get_taylor_order_terms|total_term_magnitude.*|bulk_.*|chi2_terms'
    r'|logl_terms|expand_.*|factorize|parallelize|serialize|replace_.*_layers|truncate.*|map_.*_copy|difference|union|without.*)$')


def rows():
    out = []
    with open(os.path.join(HERE, 'c13_allow.txt')) as f:
        for line in f:
            line = line.split('#')[0].strip()
            if line:
                out.append([x.strip() for x in line.split('|')])
    return out


def scope():
    out = {}
    with open(os.path.join(HERE, 'c13_scope.txt')) as f:
        for line in f:
            w = line.split()
            if w:
                out[w[0]] = set(w[1:])
    return out


def short(f):
    q = f.qual
    return q[7:] if q.startswith('pygsti.') else q


def public(f):
    n = f.name
    if n.startswith('__') and n.endswith('__'):
        return True
    return not n.startswith('_')


def scope_of(ix_funcs):
    for f in ix_funcs:
        if not public(f):
            continue
        ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if f.has_self or f.is_classmethod:
            ps = ps[1:]
        if f.cls is not None and f.selfname and (QUERY.match(f.name) or (
                'Model' in f.cls.name and f.name in ('depolarize', 'rotate', 'randomize_with_unitary', 'kick'))):
            ps.append('SELF')
        if ps:
            yield short(f), ps


class Allow(object):
    def __init__(self):
        self.two = [r for r in rows() if len(r) == 2]
        self.three = [r for r in rows() if len(r) == 3]
        self.seen = set()

    def documented(self, fn, p):
        return any(fnmatch.fnmatchcase(fn, r[0]) and fnmatch.fnmatchcase(p, r[1]) for r in self.two)

    def construct(self, f, root, what):
        fn = short(f)
        p = 'SELF' if root == f.selfname else root
        for r in self.three:
            if fnmatch.fnmatchcase(fn, r[0]) and fnmatch.fnmatchcase(p, r[1]) and (r[2] == '*' or r[2] in what):
                self.seen.add(tuple(r))
                return True
        return False


def least(pairs):
    out = {}
    for r, l in pairs:
        out[r] = min(out.get(r, 9), l)
    return out


def copies(ix):
    """(function, 'returns' or 'keeps', root, level without the copy): where a copy is all that separates two objects"""
    a, b = Effects(ix, (), content=True), Effects(ix, (), content=True, identity=True)
    a.solve(8)
    b.solve(8)
    for f in a.funcs:
        for kind, attr, top in (('returns', 'returns', 0), ('keeps', 'kept', 1)):
            x, y = (least(getattr(e.sum[id(f.node)], attr)) for e in (a, b))
            for r in y:
                if any(y[r] <= t < x.get(r, 9) for t in ([0, 1] if 'copy' in f.name else [top])):
                    yield short(f), kind, 'SELF' + r[len(f.selfname):] if f.selfname and r.split('.')[0] == f.selfname else r, y[r]


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and
                                                           (d.func.id if isinstance(d.func, ast.Name) else d.func.attr) in
                                                           ('dict', 'list', 'set', 'OrderedDict', 'defaultdict'))


def check(repo, tier='quick'):
    res = Result()
    ix = Index(repo)
    allow = Allow()
    eff = Effects(ix, METHODS, allow.construct)
    eff.solve(8)
    sc = scope()
    nfun = npar = nself = ndef = 0
    for f in eff.funcs:
        s = eff.sum[id(f.node)]
        fn = short(f)
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and mutable(d):
                ndef += 1
                if p.arg in s.mutates and not allow.documented(fn, p.arg + '='):
                    node, what = s.mutates[p.arg]
                    res.add('C13.default', '%s %s' % (fn, p.arg), f.loc(node),
                            'the default value of %s is changed (%s): one call affects the next' % (p.arg, what))
        ps = sc.get(fn)
        if not ps:
            continue
        nfun += 1
        for p in ps:
            if p == 'SELF':
                nself += 1
                if f.selfname in s.mutates and not allow.documented(fn, 'SELF'):
                    node, what = s.mutates[f.selfname]
                    res.add('C13.receiver', fn, f.loc(node), 'calling it changes the object: %s' % what)
                continue
            npar += 1
            if p in s.mutates and not any(fnmatch.fnmatchcase(p, o) for o in OUT) and not allow.documented(fn, p):
                node, what = s.mutates[p]
                res.add('C13.argument', '%s %s' % (fn, p), f.loc(node), 'changes its argument %s in place: %s' % (p, what))
    fresh = {}
    with open(os.path.join(HERE, 'c13_fresh.txt')) as fh:
        for line in fh:
            w = line.split('#')[0].split()
            if w:
                fresh.setdefault(w[0], []).append(w[1:])
    con = Effects(ix, (), content=True)
    con.solve(8)
    nfresh = 0
    for f in con.funcs:
        for kind, root, lev in fresh.get(short(f), ()):
            nfresh += 1
            r = f.selfname + root[4:] if root.split('.')[0] == 'SELF' and f.selfname else root
            got = least(con.sum[id(f.node)].returns if kind == 'returns' else con.sum[id(f.node)].kept).get(r, 9)
            if got <= int(lev):
                res.add('C13.shared', '%s %s %s' % (short(f), kind, root), f.loc(),
                        'the result shares data with %s instead of holding a copy' % (root.replace('SELF', 'the object'))
                        if kind == 'returns' else 'the object keeps %s itself instead of a copy' % root)
    res.count('copies_separating_objects', nfresh, 245)
    res.count('functions_analysed', len(eff.funcs), 3900)
    res.count('public_functions', nfun, 3000)
    res.count('parameters', npar, 8000)
    res.count('query_methods', nself, 1000)
    res.count('mutable_defaults', ndef, 30)
    res.count('fixpoint_rounds', eff.rounds)
    res.explanation = ('Every function of pygsti was analysed (forward may-alias analysis of its parameters, summaries of what it '
                       'changes in place and what its result shares, iterated to a fixpoint over resolved calls). Reported: a public '
                       'function changing an argument, a query method changing its object, a changed mutable default; apart from '
                       'output parameters and the reviewed list sa/data/c13_allow.txt.')
    res.assumptions = ['calls that cannot be resolved change nothing except for the named mutating methods of lists, dicts, sets, '
                       'arrays and the METHODS list', 'data reached through attributes of self is tracked as part of self only']
    return res
