"""C14: options reach the code they are meant for.

dropped   a function that accepts (or works out) an option calls another function accepting the option of the same name without passing it
mixed     an argument named like one parameter of the called function is passed for another one
ignored   an option a function accepts is never read, or overwritten before it is read
constant  it passes a constant instead (options standing for data, tolerances or resources)
stored    a constructor keeps one argument under the name of another
"""
import ast
import fnmatch
import os
from ..index import Index, walk_own
from ..calls import resolve, bind, all_functions
from ..report import Result

# options whose omission is not an error anywhere: how much is printed / how something looks
COSMETIC = {'verbosity', 'title', 'size', 'figpath', 'xlim', 'ylim', 'legend', 'label', 'color', 'boxLabels', 'labels', 'name',
            'parent', 'debug', 'fmt', 'formatters', 'bgcolor', 'figsize', 'colorbar', 'tips', 'caption', 'scale', 'args',
            'embed_figures', 'brevity'}
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'c14_allow.txt')


# options that stand for data, tolerances or resources: replacing them by a constant loses them as well
SUBSTANCE = {'comm', 'memLimit', 'memlimit', 'minProbClip', 'minProbClipForWeighting', 'probClipInterval', 'radius', 'clipTo',
             'seed', 'randState', 'dataset', 'opLabelAliases', 'weights', 'wildcard', 'times', 'sparse', 'evotype', 'tol',
             'maxiter', 'maxfev', 'circuit_list', 'poissonPicture', 'wrtFilter', 'mxBasis', 'qubit_labels', 'profiler',
             'collisionAction', 'lineLabels', 'itemWeights', 'useFreqWeightedChiSq', 'evaltree_cache', 'returnPr'}


def allow_list():
    out = []
    with open(DATA) as f:
        for line in f:
            line = line.split('#')[0].strip()
            if line:
                out.append(tuple(x.strip() for x in line.split('|')))
    return out


class Allow(object):
    def __init__(self):
        self.rows = allow_list()

    def __call__(self, *key):
        return any(len(r) == len(key) and all(fnmatch.fnmatchcase(k, p) for k, p in zip(key, r)) for r in self.rows)


def short(f):
    return f.name if f.cls is None else '%s.%s' % (f.cls.name, f.name)


def trivial(f):
    """nothing but constants, warnings, printing and raising"""
    body = [s for s in f.node.body if not isinstance(s, ast.Expr)]
    return all(isinstance(s, (ast.Pass, ast.Raise)) or (isinstance(s, ast.Return) and
               (s.value is None or isinstance(s.value, (ast.Constant, ast.Name)))) for s in body)


def visible(f):
    out = set()
    while f is not None:
        out |= set(f.call_params) | set(f.kwonly)
        f = f.parent
    return out


def tail(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        return e.attr.lstrip('_')
    return None


def reads(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Load, ast.Del)) for x in ast.walk(node))


def refused(f, p):
    """the function raises or asserts depending on p: a given value is refused, not ignored"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Assert) and reads(n.test, p):
            return True
        if isinstance(n, ast.If) and reads(n.test, p) and any(isinstance(x, ast.Raise) for x in n.body):
            return True
    return False


def guarded(f, node, p):
    """the call sits under a test of the option itself (the case in which the constant is its value)"""
    for n in walk_own(f.node):
        if isinstance(n, (ast.If, ast.IfExp)) and reads(n.test, p) and any(x is node for x in ast.walk(n)):
            return True
    return False


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    ok = Allow()
    ncalls = nfwd = nopt = nargs = 0
    family = {}
    for f in all_functions(ix):
        mod = f.module.name.split('.', 1)[-1]
        vis = visible(f)
        local = {}
        for st in f.node.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id not in vis:
                        local.setdefault(t.id, st.lineno)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                ts = resolve(ix, f, n)
                if not ts:
                    continue
                ncalls += 1
                bs = [bind(n, t) for t in ts]
                g = ts[0].func
                for p in sorted(vis | set(local)):
                    if p in local and n.lineno <= local[p]:
                        continue
                    if p in COSMETIC or not all(p in t.params + t.func.kwonly for t in ts):
                        continue
                    if not all(p in t.func.defaults for t in ts):
                        continue
                    nfwd += 1
                    if p in SUBSTANCE and p in vis and all(isinstance(b.get(p), ast.Constant) for b, _ in bs):
                        if not (ok('constant', p, mod, short(g)) or refused(f, p) or guarded(f, n, p)):
                            res.add('C14.constant', '%s in %s -> %s' % (p, short(f), short(g)), f.loc(n),
                                    '%s has the option %s but gives %s a constant for it' % (short(f), p, short(g)))
                    if all(p not in b and whole for b, whole in bs):
                        if ok('dropped', p, mod, short(g)) or refused(f, p):
                            continue
                        res.add('C14.dropped', '%s in %s -> %s' % (p, short(f), short(g)), f.loc(n),
                                '%s has the option %s but does not pass it on to %s, which uses its default instead'
                                % (short(f), p, short(g)))
                for t, (b, whole) in zip(ts[:1], bs[:1]):
                    names = set(t.params + t.func.kwonly)
                    for p, a in b.items():
                        nargs += 1
                        x = tail(a)
                        if x is None or x == p or x not in names or p == '#excess':
                            continue
                        if len(ts) > 1 and not all(p in t2.params and x in t2.params and b2.get(p) is a
                                                   for t2, (b2, _) in zip(ts, bs)):
                            continue
                        own = b.get(x)
                        if own is not None and tail(own) == x and p not in vis:
                            continue        # passed twice, to itself as well: deliberate
                        if own is not None and tail(own) == x and p not in t.func.defaults:
                            continue
                        if ok('mixed', p, mod, short(t.func)):
                            continue
                        res.add('C14.mixed', '%s given for %s in %s -> %s' % (x, p, short(f), short(t.func)), f.loc(n),
                                '%s is passed for the parameter %s of %s, which has a parameter %s of its own'
                                % (x, p, short(t.func), x))
        # ignored options
        if not trivial(f) and not (f.name.startswith('__') and f.name not in ('__init__', '__new__', '__call__')):
            for p in f.call_params + f.kwonly:
                if p in COSMETIC or p not in f.defaults:
                    continue
                nopt += 1
                if not reads(f.node, p) and not reads(f.node, 'locals'):
                    if f.cls is not None:
                        fam = set(f.cls.mro()) | set(s for c in f.cls.mro() for s in c.all_subclasses())
                        if any(f.name in c.methods and c.methods[f.name] is not f and p in c.methods[f.name].params
                               for c in fam):
                            continue        # part of an interface others use
                    if ok('ignored', p, mod, short(f)):
                        continue
                    res.add('C14.ignored', '%s of %s' % (p, short(f)), f.loc(),
                            '%s accepts the option %s and never reads it' % (short(f), p))
                    continue
                for s in f.node.body:
                    if reads(s, p):
                        break
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == p
                                                         for t in s.targets for x in ast.walk(t)):
                        if not ok('ignored', p, mod, short(f)):
                            res.add('C14.ignored', '%s of %s overwritten' % (p, short(f)), f.loc(s),
                                    '%s replaces its option %s before reading it' % (short(f), p))
                        break
        # constructors
        if f.name in ('__init__', 'simple_init'):
            ps = set(f.call_params + f.kwonly)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps:
                    for t in n.targets:
                        x = tail(t) if isinstance(t, ast.Attribute) else None
                        if x in ps and x != n.value.id:
                            res.add('C14.stored', '%s.%s = %s' % (short(f), x, n.value.id), f.loc(n),
                                    'the argument %s is kept as %s' % (n.value.id, x))
    res.count('calls_resolved', ncalls, 7000)
    res.count('forwarding_obligations', nfwd, 1200)
    res.count('arguments_matched', nargs, 12000)
    res.count('options_checked_for_use', nopt, 3000)
    res.explanation = __doc__
    res.assumptions = ['options that only steer printing or layout are left out',
                       'a call through a dictionary, **kwargs or a bound callback is not followed',
                       'the deliberate exceptions listed in sa/data/c14_allow.txt']
    return res
