"""C06: copies are complete and independent.

For every copy method of the package that builds its result itself (rather than deep-copying the object or its whole
__dict__): (a) the result is of the object's own class, also for subclasses that inherit the method; (b) every constructor
parameter that ends in a field is passed on from that field, or the field is set on the result afterwards, and every other
field the constructor initialises that the class's methods change is carried over; (c) a container field that the class
changes in place is not handed to the result as is; (d) members are linked to the copied owner, not the original.
"""
import ast
from ..index import Index, AnalysisBroken, Func, Cls, dotted
from ..prov import Prov, closure_funcs, init_attrs, self_assigned
from ..report import Result

NAMES = ('copy', 'copy_nonstatic', '__copy__', '__deepcopy__', '_init_copy')
MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'pop', 'popitem', 'clear', 'setdefault', 'remove', 'discard',
            'sort', 'reverse', 'fill'}
# fields that are work areas / lazily rebuilt caches, reserved and unused (Circuit._times, auxinfo), or that a copy
# deliberately starts afresh
TRANSIENT = {
    ('DataSet', 'cnt_cache'), ('DataSet', 'ffdata'), ('DataSet', 'uuid'), ('DataSet', 'bStatic'), ('MultiDataSet', 'datasets'),
    ('Circuit', '_str'), ('Circuit', '_times'), ('Circuit', 'auxinfo'), ('StochasticNoiseOp', 'stochastic_superops'),
    ('MultiDataSet', '_datasets'), ('QubitGraph', '_distance_matrix'), ('QubitGraph', '_predecessors'),
}
# copy method, member whose elements must be linked to the copy
OWNED = [('pygsti.objects.results.Results', 'copy', 'estimates'),
         ('pygsti.protocols.gst.ModelEstimateResults', 'copy', 'estimates'),
         ('pygsti.objects.estimate.Estimate', 'copy', 'confidence_region_factories')]
# containers of objects that other code changes in place (rows are views of a data set's arrays; plaquettes and sub-trees
# have changing methods), so that copying the outer container alone leaves original and copy entangled
CONTAINED = {'DataSet': ('oliData', 'timeData', 'repData'), 'LsGermsStructure': ('_plaquettes',),
             'LsGermsSerialStructure': ('_plaquettes',), 'EvalTree': ('subTrees',), 'Results': ('estimates',),
             'ModelEstimateResults': ('estimates',), 'Estimate': ('confidence_region_factories', 'parameters', 'meta')}
TRANSIENT_ATTRS = {'parent', '_parent', 'comm', '_comm', 'cache', '_cachedrep', 'uuid', 'gpindices', '_gpindices', '_dirty',
                   'dirty', '_rep', '_paramvec', 'dim', '_evotype', 'evotype', '_paramlbls', 'auxfile_types',
                   'terms', 'direct_terms', 'direct_term_poly_coeffs', 'exp_terms_cache', 'local_term_poly_coeffs'}


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    n = {'copy methods': 0, 'fields': 0, 'whole': 0}
    for c in ix.classes:
        if c.module.name.startswith('pygsti.report') or not c.module.name.startswith('pygsti.'):
            continue
        for nm in NAMES:
            f = c.methods.get(nm)
            if f is None or (is_stub(f) and nm != '_init_copy'):
                continue
            n['copy methods'] += 1
            if nm == '_init_copy':
                base = [b for b in c.mro()[1:] if '_init_copy' in b.methods]
                if base and not calls_super(f):
                    res.add('C06.dropped', '%s._init_copy' % c.name, f.loc(f.node),
                            'does not let the base class make its own members (%s._init_copy)' % base[0].name)
            elif falls_through(f.node.body):
                res.add('C06.unknown', '%s.%s' % (c.name, nm), f.loc(f.node), 'a path returns nothing')
            one(ix, res, c, f, n)
    for qual, meth, field in OWNED:
        c = ix.cls(qual)
        f = c.lookup(meth)
        if f is None:
            raise AnalysisBroken('%s.%s is gone' % (qual, meth))
        if not linked(ix, f, c, field):
            res.add('C06.wrong-owner', '%s.%s %s' % (c.name, meth, field), f.loc(f.node),
                    'the copied %s still belong to the original' % field)
    res.count('copy methods analysed', n['copy methods'], 45)
    res.count('of these, whole-object (deepcopy / all of __dict__)', n['whole'], 12)
    res.count('field carry-over obligations', n['fields'], 100)
    res.explanation = __doc__
    res.assumptions = ['copy.deepcopy copies faithfully', 'in-place change of a field from outside its class is not seen']
    return res


# state that other modules fill or change: never to be left behind
REQUIRED = {'Estimate': ('parameters', 'goparameters', 'models', 'confidence_region_factories', 'meta'),
            'Results': ('dataset', 'circuit_lists', 'circuit_structs', 'estimates'),
            'ModelEstimateResults': ('circuit_lists', 'circuit_structs', 'estimates')}
# members owned by a model: made with the copy as their owner
MEMBERS = {'ExplicitOpModel': ('preps', 'povms', 'operations', 'instruments', '_shlp'),
           'ImplicitOpModel': ('prep_blks', 'povm_blks', 'operation_blks', 'instrument_blks', 'factories', '_shlp')}


def must_sets(ix, f, c, seen=()):
    """fields set on some object other than self on every path that returns such an object"""
    if f in seen:
        return set()
    outs = []

    def stores(s):
        out = set()
        for x in ast.walk(s):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                b = x
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id != f.selfname:
                    out.add(b.attr)
            elif isinstance(x, ast.Call):
                if dotted(x.func) == 'setattr' and len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
                    out.add(x.args[1].value)
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and \
                        isinstance(x.func.value, ast.Attribute) and isinstance(x.func.value.value, ast.Name) and \
                        x.func.value.value.id != f.selfname:
                    out.add(x.func.value.attr)
                if isinstance(x.func, ast.Attribute) and x.func.attr in NAMES and not (
                        isinstance(x.func.value, ast.Name) and x.func.value.id == f.selfname) and not x.args:
                    continue            # a member's copy(), not this object's
                for g in closure_funcs(ix, f, c, depth=1)[1:]:
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)
                    if g.name == nm:
                        out |= must_sets(ix, g, c, seen + (f,))
        return out

    def walk(body, cur):
        for s in body:
            if isinstance(s, ast.If):
                cur = cur | stores(s.test)
                a, b = walk(s.body, cur), walk(s.orelse, cur)
                if a is None and b is None:
                    return None
                cur = b if a is None else a if b is None else a & b
            elif isinstance(s, (ast.For, ast.While)):
                r = walk(s.body, cur | stores(s.iter if isinstance(s, ast.For) else s.test))
                cur = r if r is not None else cur
            elif isinstance(s, ast.With):
                cur = walk(s.body, cur)
            elif isinstance(s, ast.Try):
                r = walk(s.body + s.orelse + s.finalbody, cur)
                cur = r if r is not None else cur
            elif isinstance(s, ast.Return):
                cur = cur | stores(s)
                if not (isinstance(s.value, ast.Name) and s.value.id == f.selfname):
                    outs.append(cur)
                return None
            elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
                return None
            else:
                cur = cur | stores(s)
            if cur is None:
                return None
        return cur
    end = walk(f.node.body, set())
    if end is not None:
        outs.append(end)
    r = None
    for o in outs:
        r = o if r is None else r & o
    return r or set()


def calls_super(f):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and
               not (isinstance(x.func.value, ast.Name) and x.func.value.id == f.selfname) for x in ast.walk(f.node))


def falls_through(body):
    """can the end of the body be reached?"""
    for s in body:
        if isinstance(s, ast.Return):
            return s.value is None
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, ast.If) and s.orelse and not falls_through(s.body) and not falls_through(s.orelse):
            return False
        if isinstance(s, ast.With) and not falls_through(s.body):
            return False
        if isinstance(s, ast.Try) and not falls_through(s.body + s.orelse + s.finalbody) and \
                all(not falls_through(h.body) for h in s.handlers):
            return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
            return False
    return True


def is_stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in body)


def mutated_in_place(ix, c):
    """fields of c that its own (or inherited / subclass) methods change in place or re-assign outside the constructor"""
    key = c.qual
    memo = ix.__dict__.setdefault('_c06mut', {})
    if key in memo:
        return memo[key]
    inplace, assigned = set(), set()
    for b in c.mro():
        for m in list(b.methods.values()):
            sn = m.selfname
            if not sn or m.name in ('__init__', '__new__', '__setstate__', 'copy', '__deepcopy__', '__copy__'):
                continue
            for x in ast.walk(m.node):
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b2, sub = x, False
                    while isinstance(b2, ast.Subscript):
                        b2, sub = b2.value, True
                    if isinstance(b2, ast.Attribute) and isinstance(b2.value, ast.Name) and b2.value.id == sn:
                        (inplace if sub else assigned).add(b2.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    b2 = x.func.value
                    while isinstance(b2, ast.Subscript):
                        b2 = b2.value
                    if isinstance(b2, ast.Attribute) and isinstance(b2.value, ast.Name) and b2.value.id == sn:
                        inplace.add(b2.attr)
    memo[key] = (inplace, assigned)
    return memo[key]


def nested_changes(ix, c):
    """fields whose contained objects the class's methods change in place: self.X[i][j] = .., self.X[i].append(..), or
    the same through a local bound to an element of self.X"""
    memo = ix.__dict__.setdefault('_c06nest', {})
    if c.qual in memo:
        return memo[c.qual]
    out = set()
    for b in c.mro():
        for m in b.methods.values():
            sn = m.selfname
            if not sn or m.name in ('__init__', '__new__', '__setstate__', 'copy', '__deepcopy__', '__copy__'):
                continue
            elem = {}

            def root(e):
                """(field, subscript depth) an expression is rooted in"""
                d = 0
                while True:
                    if isinstance(e, ast.Subscript):
                        if not isinstance(e.slice, ast.Slice):
                            d += 1
                        e = e.value
                    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                            e.func.attr in ('values', 'items', 'keys') and not e.args:
                        e = e.func.value
                    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get':
                        d += 1
                        e = e.func.value
                    else:
                        break
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == sn:
                    return e.attr, d
                if isinstance(e, ast.Name) and e.id in elem:
                    return elem[e.id][0], elem[e.id][1] + d
                return None, 0
            for x in ast.walk(m.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                        isinstance(x.value, (ast.Subscript, ast.Attribute)):
                    r, d = root(x.value)
                    if r and d:
                        elem[x.targets[0].id] = (r, d)
                elif isinstance(x, ast.For):
                    it, t = x.iter, x.target
                    if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and it.args and \
                            isinstance(t, ast.Tuple):
                        it, t = it.args[0], t.elts[-1]
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys':
                        continue
                    r, d = root(it)
                    if isinstance(t, ast.Tuple) and isinstance(it, ast.Call) and \
                            getattr(it.func, 'attr', '') == 'items':
                        t = t.elts[-1]
                    if r and isinstance(t, ast.Name):
                        elem[t.id] = (r, d + 1)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r, d = root(x.value)
                    if r and d >= 1:
                        out.add(r)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    r, d = root(x.func.value)
                    if r and d >= 1:
                        out.add(r)
    memo[c.qual] = out
    return out


def shallow(v, g, pr, field):
    v = expand(v, g, pr)

    def is_field(e):
        e = expand(e, g, pr)
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == g.selfname and \
            e.attr == field
    if is_field(v):
        return True
    if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and is_field(v.value):
        return True
    if isinstance(v, ast.Call):
        d = (dotted(v.func) or '').split('.')[-1].strip('_')
        if d in ('list', 'dict', 'OrderedDict', 'copy', 'tuple') and len(v.args) == 1 and is_field(v.args[0]):
            return True
        if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args and is_field(v.func.value):
            return True
    if isinstance(v, ast.IfExp):
        return any(shallow(e, g, pr, field) for e in (v.body, v.orelse))
    if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
        e = v.elt if isinstance(v, ast.ListComp) else v.value
        it = v.generators[0].iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'values'):
            it = it.func.value
        if isinstance(e, ast.Name) and is_field(it) and any(isinstance(y, ast.Name) and y.id == e.id for y in
                                                           ast.walk(v.generators[0].target)):
            return True
    return False


def element_of(v, g, pr, field):
    """v is an element (or part) of self.field itself, not a copy of one"""
    v = expand(v, g, pr)

    def is_field(e):
        e = expand(e, g, pr)
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == g.selfname and e.attr == field
    e = v
    while isinstance(e, ast.Subscript):
        e = e.value
    if isinstance(v, ast.Subscript) and is_field(e):
        return True
    if isinstance(v, ast.Name):
        for x in ast.walk(g.node):
            if isinstance(x, ast.For):
                it, t = x.iter, x.target
                if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and it.args and isinstance(t, ast.Tuple):
                    it, t = it.args[0], t.elts[-1]
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'values'):
                    if it.func.attr == 'items' and isinstance(t, ast.Tuple):
                        t = t.elts[-1]
                    it = it.func.value
                if isinstance(t, ast.Name) and t.id == v.id and is_field(it):
                    return True
    return False


def is_whole(ix, c, f, pr):
    """deepcopy(self), or all of self.__dict__ transferred"""
    for g in pr.funcs:
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                d = dotted(x.func) or ''
                if d.split('.')[-1].strip('_') in ('deepcopy', 'copy') and x.args and isinstance(x.args[0], ast.Name) and \
                        x.args[0].id == g.selfname:
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and x.args and \
                        isinstance(x.args[0], ast.Attribute) and x.args[0].attr == '__dict__':
                    return True
            if isinstance(x, ast.For):
                if any(isinstance(y, ast.Attribute) and y.attr == '__dict__' for y in ast.walk(x.iter)) and \
                        any(isinstance(y, ast.Call) and dotted(y.func) == 'setattr' for y in ast.walk(x)):
                    return True
    return False


def all_names(ix, c, expr, f, pr, seen=None):
    """attribute names an expression reads, through locals and the object's own properties/methods"""
    seen = seen if seen is not None else set()
    out = set()
    a, _, _ = pr.mentions(expr, f)
    todo = list(a)
    for x in ast.walk(expr):
        if isinstance(x, ast.Attribute):
            todo.append(x.attr)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        m = c.lookup(x)
        if m is not None and m.selfname:
            for y in ast.walk(m.node):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == m.selfname and \
                        isinstance(y.ctx, ast.Load):
                    todo.append(y.attr)
    # the object itself (e.g. self[:], dict(self)) for container classes
    for x in ast.walk(expr):
        if isinstance(x, ast.Name) and x.id == f.selfname:
            out.add('<self>')
    return out


def expand(expr, f, pr):
    """expression with single-definition locals replaced (one step deep is enough for aliases)"""
    hop = 0
    while isinstance(expr, ast.Name) and hop < 4:
        ds = pr.defs[f].get(expr.id, [])
        if len(ds) != 1:
            break
        expr = ds[0]
        hop += 1
    return expr


def ctor_calls(ix, c, f, pr):
    """(call, class or 'own', func) for calls in the copy method that build an object of the family"""
    out = []
    fam = set(x.name for x in c.mro()) | {c.name}
    for g in pr.funcs:
        for x in ast.walk(g.node):
            if not isinstance(x, ast.Call):
                continue
            fn = expand(x.func, g, pr)
            if isinstance(fn, ast.Attribute) and fn.attr == '__class__' and isinstance(fn.value, ast.Name):
                out.append((x, 'own', g))
                continue
            if isinstance(fn, ast.Call) and dotted(fn.func) == 'type':
                out.append((x, 'own', g))
                continue
            t = ix.resolve_expr(fn, g.module, g)
            if isinstance(t, Cls) and (t in c.mro() or c in t.mro()):
                out.append((x, t, g))
    return out


def one(ix, res, c, f, n):
    pr = Prov(ix, f, c)
    inplace, assigned = mutated_in_place(ix, c)
    # what the method (and helpers) set on an object other than self
    sets = {}
    for g in pr.funcs:
        for x in ast.walk(g.node):
            tv = []
            if isinstance(x, ast.Assign):
                tv = [(t, x.value) for t in x.targets]
                tv = [(e, v) for t, v in tv for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
            elif isinstance(x, ast.AnnAssign) and x.value is not None:
                tv = [(x.target, x.value)]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and \
                    isinstance(x.func.value, ast.Attribute) and x.args:
                tv = [(x.func.value, x.args[-1])]
                if x.func.attr in ('append', 'insert', 'add', 'setdefault'):
                    tv = [(ast.Subscript(value=x.func.value, slice=ast.Constant(0), ctx=ast.Store()), x.args[-1])]
            elif isinstance(x, ast.Call) and dotted(x.func) == 'setattr' and len(x.args) == 3 and \
                    isinstance(x.args[1], ast.Constant):
                sets.setdefault(x.args[1].value, []).append((x.args[2], g, x, False))
            for t, v in tv:
                b, sub = t, False
                while isinstance(b, ast.Subscript):
                    b, sub = b.value, True
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id != g.selfname:
                    sets.setdefault(b.attr, []).append((v, g, x, sub))
    whole = is_whole(ix, c, f, pr)
    if whole:
        n['whole'] += 1
    # (c) sharing through plain assignment on the result
    for x, vs in sorted(sets.items()):
        for v, g, node, sub in vs:
            v2 = expand(v, g, pr)
            if isinstance(v2, ast.Attribute) and isinstance(v2.value, ast.Name) and v2.value.id == g.selfname and not sub:
                if v2.attr in inplace and x == v2.attr and x not in TRANSIENT_ATTRS:
                    res.add('C06.shared', '%s.%s %s' % (c.name, f.name, x), g.loc(node),
                            'the copy keeps the very container that %s changes in place' % c.name)
                elif x != v2.attr and v2.attr in init_attrs(ix, c) and x in init_attrs(ix, c):
                    res.add('C06.swapped', '%s.%s %s' % (c.name, f.name, x), g.loc(node), 'set from %s' % v2.attr)
    # (c2) containers of containers: nested change needs more than a shallow copy
    nested = nested_changes(ix, c) | {x for b in c.mro() for x in CONTAINED.get(b.name, ())}
    for x in sorted(set(sets) & nested):
        for v, g, node, sub in sets[x]:
            if not sub and x not in TRANSIENT_ATTRS and shallow(v, g, pr, x):
                res.add('C06.shared', '%s.%s %s' % (c.name, f.name, x), g.loc(node),
                        'shallow copy, but %s changes the contained objects in place' % c.name)
        for v, g, node, sub in sets[x]:
            if sub and x not in TRANSIENT_ATTRS and element_of(v, g, pr, x):
                res.add('C06.shared', '%s.%s %s' % (c.name, f.name, x), g.loc(node),
                        'an element is put into the copy as it is, but %s changes the contained objects in place' % c.name)
    # (d) links
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'copy' and len(x.args) == 1 \
                and isinstance(x.args[0], ast.Name) and x.args[0].id == f.selfname and f.name in NAMES and \
                not isinstance(x.func.value, ast.Name) and not (isinstance(x.func.value, ast.Attribute) and
                                                                dotted(x.func.value) in [b.name for b in c.mro()]):
            res.add('C06.wrong-owner', '%s.%s' % (c.name, f.name), f.loc(x),
                    'the copied member is linked to the original, not to the copy')
    must = must_sets(ix, f, c)
    for x in REQUIRED.get(c.name, ()):
        n['fields'] += 1
        if x not in must and f.name == 'copy' and not whole:
            res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, x), f.loc(f.node), 'not carried over to the copy')
    calls = ctor_calls(ix, c, f, pr)
    if f.name == '_init_copy' or whole or not calls:
        if not whole and f.name != '_init_copy' and not calls and not delegates(f, c):
            res.add('C06.unknown', '%s.%s' % (c.name, f.name), f.loc(f.node), 'does not build an object of the class')
        if f.name == '_init_copy':
            other = f.params[1] if len(f.params) > 1 else None
            for x in MEMBERS.get(c.name, ()):
                n['fields'] += 1
                if x not in must:
                    res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, x), f.loc(f.node),
                            'a member owned by the model is not re-made for the copy')
                elif not any(isinstance(y, ast.Name) and y.id == h.params[1] for v, h, _, _ in sets[x]
                             if len(h.params) > 1 for y in ast.walk(v)):
                    res.add('C06.wrong-owner', '%s.%s %s' % (c.name, f.name, x), f.loc(f.node),
                            'made without the copy as its owner')
            if c.name == 'Model' and ('uuid' not in must or any('uuid' in all_names(ix, c, v, h, pr) - {'uuid4'} and
                                                              mentions_self(v, h) for v, h, _, _ in sets['uuid'])):
                res.add('C06.shared', 'Model._init_copy uuid', f.loc(f.node), 'the copy has the identity of the original')
            for x, vs in sorted(sets.items()):
                for v, g, node, sub in vs:
                    n['fields'] += 1
                    if isinstance(v, ast.Constant) or x in TRANSIENT_ATTRS or x in ('_opcache', '_shlp', '_need_to_rebuild'):
                        continue
                    if x not in all_names(ix, c, v, g, pr):
                        res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, x), g.loc(node),
                                'the copy\'s %s is not made from the original\'s' % x)
        return
    # (a) class
    for call, t, g in calls:
        if t == 'own':
            continue
        # a class written out: inherited by subclasses that add fields
        if t is not c and t in c.mro() and t is not c:
            res.add('C06.wrong-class', '%s.%s' % (c.name, f.name), g.loc(call), 'builds a %s' % t.name)
        for s in ix.classes:
            if s is not c and c in s.mro() and s.lookup(f.name) is f and t is c:
                res.add('C06.wrong-class', '%s.%s for %s' % (c.name, f.name, s.name), g.loc(call),
                        'copying a %s yields a %s' % (s.name, c.name))
    # (b) fields
    ini = c.lookup('__init__')
    if ini is None:
        return
    ia = init_attrs(ix, c)
    derived = computed_in_init(ix, c, strict=True)
    for call, t, g in calls:
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return
        got = {}
        params = ini.params[1:]
        for p, a in zip(params, call.args):
            got[p] = a
        if len(call.args) > len(params) and not ini.vararg:
            res.add('C06.bad-call', '%s.%s' % (c.name, f.name), g.loc(call), 'too many constructor arguments')
        for k in call.keywords:
            got[k.arg] = k.value
        for p in params:
            if p not in ini.defaults and p not in got:
                res.add('C06.bad-call', '%s.%s %s' % (c.name, f.name, p), g.loc(call),
                        'required constructor argument %s is not passed' % p)
        for p in params:
            fields = {x for x, ps in ia.items() if p in ps}
            own = {x for x in fields if ia[x] == {p}} or fields
            own = {x for x in own if (c.name, x) not in TRANSIENT and x not in TRANSIENT_ATTRS and x not in derived}
            n['fields'] += 1
            if p not in got:
                lost = {x for x in own if x not in must}
                # fields that are set from other parameters as well
                lost = {x for x in lost if not any(q in got for q in ia[x])}
                if lost:
                    res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, '/'.join(sorted(lost))), g.loc(call),
                            'constructor parameter %s is left at its default' % p)
                continue
            a = got[p]
            if isinstance(a, ast.Constant):
                lost = {x for x in own if x not in must and not any(q in got and q != p and
                                                                    not isinstance(got[q], ast.Constant) for q in ia[x])}
                if lost:
                    res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, '/'.join(sorted(lost))), g.loc(call),
                            'constructor parameter %s gets the constant %r' % (p, a.value))
                continue
            names = all_names(ix, c, a, g, pr)
            known = {x for x in names if x in ia}
            if fields and known and not (names & (fields | {p, '_' + p})) and not (fields & must):
                if any(ia[x] and p not in ia[x] for x in known):
                    res.add('C06.swapped', '%s.%s %s' % (c.name, f.name, p), g.loc(call),
                            'parameter %s (field %s) is filled from %s' % (p, sorted(fields), sorted(known)))
            # (c) sharing through the constructor
            a2 = expand(a, g, pr)
            if isinstance(a2, ast.Attribute) and isinstance(a2.value, ast.Name) and a2.value.id == g.selfname and \
                    a2.attr in inplace and a2.attr not in TRANSIENT_ATTRS and stores_bare(ix, c, ini, p, a2.attr) and a2.attr not in must:
                res.add('C06.shared', '%s.%s %s' % (c.name, f.name, a2.attr), g.loc(call),
                        'the copy keeps the very container that %s changes in place' % c.name)
        # state not fed by any parameter
        for x, ps in sorted(ia.items()):
            if ps or x in must or (c.name, x) in TRANSIENT or x in TRANSIENT_ATTRS:
                continue
            if x in inplace or x in assigned or x in blank_in_init(ix, c):
                if x in computed_in_init(ix, c):
                    continue
                n['fields'] += 1
                res.add('C06.dropped', '%s.%s %s' % (c.name, f.name, x), g.loc(call),
                        'state kept in %s is not carried over to the copy' % x)


def mentions_self(v, h):
    return any(isinstance(y, ast.Name) and y.id == h.selfname for y in ast.walk(v))


def delegates(f, c):
    """calls copy / a factory of the class on itself or on a base class"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                ('copy' in x.func.attr or x.func.attr.startswith('from')):
            return True
    return False


def stores_bare(ix, c, ini, p, attr):
    for x in ast.walk(ini.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p:
            for t in x.targets:
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    return True
    return False


def computed_in_init(ix, c, strict=False):
    """fields that the constructor fills by a method of the object or from other fields (so the copy computes its own)"""
    out = set()
    ini = c.lookup('__init__')
    for g in closure_funcs(ix, ini, c):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == g.selfname:
                            if strict:
                                # always: every assignment in the constructor is made from another field
                                if any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and
                                       y.value.id == g.selfname for y in ast.walk(x.value)):
                                    out.add(e.attr)
                            elif g is not ini and g.name != '__init__':
                                out.add(e.attr)
                            elif any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and
                                     y.value.id == g.selfname for y in ast.walk(x.value)):
                                out.add(e.attr)
    return out


def linked(ix, f, c, field):
    """some element of <copy>.<field> gets its owner set to an object that is not self"""
    pr = Prov(ix, f, c)
    for g in pr.funcs:
        for x in ast.walk(g.node):
            tgt = owner = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'set_parent' and x.args:
                tgt, owner = x.func.value, x.args[0]
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr in ('parent', '_parent'):
                        tgt, owner = t.value, x.value
            if tgt is None or not isinstance(owner, ast.Name) or owner.id == g.selfname:
                continue
            names = set()
            todo, seen = [tgt], set()
            while todo:
                e = todo.pop()
                for y in ast.walk(e):
                    if isinstance(y, ast.Attribute):
                        names.add(y.attr)
                    elif isinstance(y, ast.Name) and y.id not in seen:
                        seen.add(y.id)
                        todo += pr.defs[g].get(y.id, [])
            if field in names:
                return True
    return False


def blank_in_init(ix, c):
    """fields the constructor starts with an empty container or None"""
    out = set()
    ini = c.lookup('__init__')
    for g in closure_funcs(ix, ini, c):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign):
                v = x.value
                blank = (isinstance(v, ast.Constant) and v.value is None) or \
                    (isinstance(v, (ast.List, ast.Dict, ast.Set)) and not (getattr(v, 'elts', None) or
                                                                             getattr(v, 'keys', None))) or \
                    (isinstance(v, ast.Call) and not v.args and not v.keywords and
                     (dotted(v.func) or '').split('.')[-1] in ('OrderedDict', 'dict', 'list', 'set'))
                for t in x.targets:
                    if blank and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                            t.value.id == g.selfname:
                        out.add(t.attr)
    return out
