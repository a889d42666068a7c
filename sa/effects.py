"""What a function does to the objects it is given: which parameters it may change in place, and which its result may share
data with. A forward may-alias analysis per function (branches joined, loops run twice), with summaries iterated to a fixpoint
over the call graph.

A value is a set of (root, level): root a parameter, level 0 the object itself, -1 something reachable inside it, k > 0 data of
the parameter under k layers of new containers (a shallow copy of it has level 1).
"""
import ast
from .index import Func, Cls, walk_own
from .calls import resolve, bind, all_functions

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard',
            'popitem', 'fill', 'resize', 'put', 'itemset', 'move_to_end', 'appendleft', 'popleft', 'extendleft',
            'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__',
            'setflags', 'partition', 'byteswap', 'subtract'}
NPMUT = {'copyto', 'fill_diagonal', 'put', 'place', 'putmask', 'put_along_axis', 'shuffle'}
SAME = {'asarray', 'ravel', 'reshape', 'transpose', 'squeeze', 'atleast_1d', 'atleast_2d', 'swapaxes', 'moveaxis',
        'asanyarray', 'diagonal', 'rollaxis', 'expand_dims', 'ascontiguousarray', 'asfarray', 'require', 'real', 'imag',
        'iter', 'next', 'cast_to_array'}
SHALLOW = {'list', 'tuple', 'dict', 'sorted', 'OrderedDict', 'set', 'frozenset', 'reversed', 'enumerate', 'zip', 'defaultdict',
           'deque', 'filter', 'chain', 'product', 'islice'}
INNER = {'items', 'values', 'get', 'iteritems', 'itervalues'}
PLAIN = {'shape', 'dtype', 'size', 'ndim', 'name', 'dim', 'nnz', 'keys', '__class__', '__name__', 'str', 'tup', 'sslbls'}
VIEWATTR = {'T', 'real', 'imag', 'flat', 'A', 'base'}

NONE = frozenset()


DEEP = 3


def inner(v):
    return frozenset((r, l - 1 if l > 0 else -1) for r, l in v)


def shallow(v):
    return frozenset((r, min(DEEP, max(l, 0) + 1)) for r, l in v)


def copied(v):
    """a shallow copy: the outermost layer is new"""
    return frozenset((r, max(l, 1)) for r, l in v)


class Summary(object):
    __slots__ = ('mutates', 'returns', 'kept')

    def __init__(self):
        self.mutates = {}     # param -> (node, text)
        self.returns = frozenset()
        self.kept = frozenset()   # what the object itself holds on to afterwards

    def key(self):
        return (frozenset(self.mutates), self.returns, self.kept)


class Effects(object):
    def __init__(self, ix, methods=(), quiet=None, content=False, identity=False):
        # content: also follow what is stored inside local objects and self; identity: pretend that copying does nothing
        self.content, self.identity = content, identity
        self.quiet = quiet                # quiet(function, root, what): a reviewed change that does not count
        self.ix = ix
        self.methods = set(methods)       # names of package methods that change their receiver
        self.funcs = [f for f in all_functions(ix, nested=False)]
        self.sum = {}
        self.bysrc = {}
        self.resolved = {}
        for f in self.funcs:
            self.sum[id(f.node)] = Summary()
            self.bysrc[id(f.node)] = f

    def solve(self, rounds=6):
        dirty = None
        for i in range(rounds):
            changed = set()
            for f in self.funcs:
                if dirty is not None and not (self.callees(f) & dirty):
                    continue
                old = self.sum[id(f.node)].key()
                a = Walk(self, f)
                a.run()
                s = self.sum[id(f.node)]
                for p, w in a.mutated.items():
                    s.mutates.setdefault(p, w)
                s.returns = s.returns | a.returned
                s.kept = s.kept | a.kept
                if s.key() != old:
                    changed.add(id(f.node))
            if not changed:
                break
            dirty = changed
        self.rounds = i + 1

    def callees(self, f):
        k = ('c', id(f.node))
        if k not in self.resolved:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    out |= set(id(t.func.node) for t in self.targets(f, n))
            self.resolved[k] = out
        return self.resolved[k]

    def targets(self, f, call):
        k = id(call)
        if k not in self.resolved:
            ts = resolve(self.ix, f, call)
            self.resolved[k] = ts
        return self.resolved[k]


class Dead(Exception):
    pass


class Walk(object):
    def __init__(self, eff, func):
        self.eff, self.f = eff, func
        self.mutated = {}
        self.returned = frozenset()
        self.kept = frozenset()
        self.inner_funcs = {}
        a = func.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if func.is_classmethod:
            ps = ps[1:]
        self.env = {p: frozenset([(p, 0)]) for p in ps}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = frozenset([(x.arg, 1)])
        self.arrayish = self.find_arrayish()

    def find_arrayish(self):
        """names used as containers somewhere (so that += changes them in place)"""
        out = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in (
                    'shape', 'T', 'append', 'extend', 'dtype', 'ndim', 'flatten', 'reshape', 'items', 'dot', 'conj'):
                out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'zip'):
                out |= set(x.id for x in n.args if isinstance(x, ast.Name))
        return out

    def run(self):
        self.block(self.f.node.body)

    def mutate(self, v, node, what):
        for r, l in v:
            if l <= 0 and not (self.eff.quiet is not None and self.eff.quiet(self.f, r, what)):
                self.mutated.setdefault(r, (node, what))

    def put_in(self, target, v, layers=1):
        """v becomes part of the object that target is rooted in"""
        if not self.eff.content:
            return
        for i in range(layers):
            v = shallow(v)
        while isinstance(target, (ast.Attribute, ast.Subscript, ast.Call)):
            target = target.func if isinstance(target, ast.Call) else target.value
        if isinstance(target, ast.Name):
            if target.id == self.f.selfname:
                self.kept |= frozenset(x for x in v if x[0].split('.')[0] != self.f.selfname)
            elif self.env is not None:
                cur = self.env.get(target.id, NONE)
                if any(r == self.f.selfname and l <= 0 for r, l in cur):
                    self.kept |= frozenset(x for x in v if x[0].split('.')[0] != self.f.selfname)
                self.env[target.id] = cur | v

    # ---- statements
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, NONE) | v
        return out

    def block(self, body):
        for st in body:
            if self.env is None:
                return
            self.stmt(st)

    def branch(self, bodies):
        base = self.env
        res = None
        for b in bodies:
            self.env = dict(base)
            self.block(b)
            res = self.join(res, self.env)
        self.env = res

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            if isinstance(st.target, ast.Name):
                cur = self.env.get(st.target.id, NONE)
                if cur and (st.target.id in self.arrayish or isinstance(st.value, (ast.List, ast.ListComp))):
                    self.mutate(cur, st, '%s changed in place' % st.target.id)
                self.env[st.target.id] = cur
            else:
                self.store(st.target, st)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    self.store(t, st)
        elif isinstance(st, (ast.Return,)):
            if st.value is not None:
                self.returned |= self.ev(st.value)
            self.env = None
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc)
            self.env = None
        elif isinstance(st, (ast.Break, ast.Continue)):
            self.loops[-1].append(self.env) if getattr(self, 'loops', None) else None
            self.env = None
        elif isinstance(st, ast.If):
            self.ev(st.test)
            tr, fa = self.refine(st.test)
            base = self.env
            self.env = dict(base)
            for n in tr:
                self.env[n] = NONE
            self.block(st.body)
            a = self.env
            self.env = dict(base)
            for n in fa:
                self.env[n] = NONE
            self.block(st.orelse)
            self.env = self.join(a, self.env)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            self.loops = getattr(self, 'loops', [])
            outs = None
            for k in range(2):
                if self.env is None:
                    break
                base = dict(self.env)
                if isinstance(st, ast.While):
                    self.ev(st.test)
                else:
                    v = self.ev(st.iter)
                    self.assign(st.target, self.iterated(st.iter, v), None)
                self.loops.append([])
                self.block(st.body)
                js = self.loops.pop()
                for j in js:
                    self.env = self.join(self.env, j)
                self.env = self.join(base, self.env)
            self.block(st.orelse) if self.env is not None else None
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, NONE, None)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            base = dict(self.env)
            self.block(st.body)
            after = self.env
            mid = self.join(base, after)
            if after is not None:
                self.block(st.orelse)
                after = self.env
            for h in st.handlers:
                self.env = dict(mid)
                self.block(h.body)
                after = self.join(after, self.env)
            self.env = after if after is not None else None
            if st.finalbody:
                dead = self.env is None
                if dead:
                    self.env = dict(mid)
                self.block(st.finalbody)
                if dead:
                    self.env = None
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(st)
            self.env[st.name] = NONE
        elif isinstance(st, ast.Assert):
            self.ev(st.test)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Match):
            self.ev(st.subject)
            self.branch([c.body for c in st.cases] + [[]])

    def refine(self, t):
        """(names that are None in the true branch, names that are None in the false branch)"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], ast.Is):
                return [t.left.id], []
            if isinstance(t.ops[0], ast.IsNot):
                return [], [t.left.id]
        if isinstance(t, ast.Name):
            return [], []
        return [], []

    def nested(self, st):
        """a nested function runs with what the enclosing variables may hold here (and is assumed to be called)"""
        save, ret, loops = self.env, self.returned, getattr(self, 'loops', [])
        self.env = dict(save)
        self.loops = []
        a = st.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            self.env[x.arg] = NONE
        self.block(st.body)
        self.env, self.returned, self.loops = save, ret, loops

    def iterated(self, e, v):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'keys':
            return NONE
        return inner(v)

    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vs = [self.ev(x) for x in src.elts]
                for x, y, s in zip(t.elts, vs, src.elts):
                    self.assign(x, y, s)
            else:
                for x in t.elts:
                    self.assign(x, inner(v), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, copied(v), None)
        else:
            self.store(t, t)
            self.put_in(t.value, v)

    def store(self, t, node):
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Subscript):
                self.ev(t.slice)
            self.mutate(self.ev(t.value), node, 'assignment to %s' % ast.unparse(t)[:50])

    # ---- expressions
    def ev(self, e):
        if e is None or self.env is None:
            return NONE
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NONE)
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value)
            if not v or e.attr in PLAIN:
                return NONE
            if self.eff.content and isinstance(e.value, ast.Name) and e.value.id == self.f.selfname and v == frozenset([(e.value.id, 0)]):
                return frozenset([('%s.%s' % (e.value.id, e.attr), 0)])
            if e.attr in VIEWATTR:
                return v
            if self.eff.content:
                return inner(v)
            return frozenset((r, -1) for r, l in v if l <= 0)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            self.ev(e.slice)
            if not v:
                return NONE
            if isinstance(e.slice, ast.Slice):
                if self.eff.identity and e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
                    return v
                return copied(v)      # a list's slice is a copy
            return inner(v)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            tr, fa = self.refine(e.test)
            a, b = self.ev(e.body), self.ev(e.orelse)
            if isinstance(e.body, ast.Name) and e.body.id in tr:
                a = NONE
            if isinstance(e.orelse, ast.Name) and e.orelse.id in fa:
                b = NONE
            return a | b
        if isinstance(e, ast.BoolOp):
            out = NONE
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = NONE
            for x in e.elts:
                out |= copied(self.ev(x.value)) if isinstance(x, ast.Starred) else shallow(self.ev(x))
            return out
        if isinstance(e, ast.Dict):
            out = NONE
            for k, x in zip(e.keys, e.values):
                out |= shallow(self.ev(x)) if k is not None else copied(self.ev(x))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            for g in e.generators:
                v = self.ev(g.iter)
                self.assign(g.target, self.iterated(g.iter, v), None)
                for c in g.ifs:
                    self.ev(c)
            out = shallow(self.ev(e.value if isinstance(e, ast.DictComp) else e.elt))
            self.env = save
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.Add):
                return NONE
            return NONE
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            if e.value is not None:
                self.returned |= shallow(self.ev(e.value))
            return NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NONE

    def call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        name = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else None)
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else NONE
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate(kws['out'], e, 'out= of %s' % name)
        if isinstance(fn, ast.Attribute):
            if name in MUTATORS or name in self.eff.methods:
                self.mutate(recv, e, '%s(...)' % ast.unparse(fn)[:50])
                if name in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                    for a in args:
                        self.put_in(fn.value, a)
                elif name in ('extend', 'update'):
                    for a in args:
                        self.put_in(fn.value, copied(a), 0)
            if name in NPMUT and args:
                self.mutate(args[0], e, '%s(...)' % ast.unparse(fn)[:50])
        ts = self.eff.targets(self.f, e)
        if self.eff.identity and name in ('copy', 'deepcopy') and isinstance(fn, ast.Attribute):
            return recv or (args[0] if args else NONE)
        if self.eff.content and name == 'copy' and isinstance(fn, ast.Attribute) and recv:
            return copied(recv)
        if ts:
            out = NONE
            exact = all(t.exact for t in ts)
            common = None
            for t in ts:
                s = self.eff.sum.get(id(t.func.node))
                if s is None:
                    common = {}
                    continue
                b, _ = bind(e, t)
                amap = {}
                for p, x in b.items():
                    for i, a in enumerate(e.args):
                        if x is a:
                            amap[p] = args[i]
                    for k in e.keywords:
                        if x is k.value:
                            amap[p] = kws[k.arg]
                if len(e.args) and amap == {} and b:
                    for p, x in b.items():
                        amap[p] = self.ev(x)
                mut = {p: s.mutates[p] for p in s.mutates if amap.get(p)}
                if exact:
                    for p, w in mut.items():
                        self.mutate(amap[p], e, 'passed to %s, which changes its %s' % (t.func.name, p))
                else:
                    common = set(mut) if common is None else common & set(mut)
                    last = (t, amap)
                if t.bound and t.func.selfname and isinstance(fn, ast.Attribute):
                    r = recv
                    if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                        r = self.env.get(self.f.selfname, NONE)
                    amap[t.func.selfname] = r
                    if r and exact and t.func.selfname in s.mutates:
                        self.mutate(r, e, '%s(), which changes the object (%s)' % (t.func.name, s.mutates[t.func.selfname][1]))
                if self.eff.content and exact and s.kept:
                    got = NONE
                    for r, l in s.kept:
                        v = amap.get(r, NONE)
                        for i in range(l):
                            v = shallow(v)
                        got |= v
                    if got and t.func.name == '__init__' and not (isinstance(fn, ast.Attribute) and fn.attr == '__init__'):
                        out |= got
                    elif got and isinstance(fn, ast.Attribute):
                        self.put_in(ast.Name(id=self.f.selfname or '', ctx=ast.Load()) if isinstance(fn.value, ast.Call) else fn.value,
                                    got, 0)
                if exact and t.func.name not in ('__init__', '__new__'):
                    for r, l in s.returns:
                        v = amap.get(r, NONE)
                        if '.' in r:
                            own = amap.get(r.split('.')[0], NONE)
                            v = inner(own)
                            if self.f.selfname and own == frozenset([(self.f.selfname, 0)]):
                                v = frozenset([('%s.%s' % (self.f.selfname, r.split('.')[1]), 0)])
                        if l < 0:
                            v = inner(v)
                        for i in range(l):
                            v = shallow(v)
                        out |= v
            if not exact and common:
                for p in common:
                    self.mutate(last[1].get(p, NONE), e, 'passed to %s, which changes its %s' % (last[0].func.name, p))
            return out
        if isinstance(fn, ast.Name):
            if name.lstrip('_') in ('zip', 'enumerate', 'product'):
                return frozenset().union(*[shallow(copied(a)) for a in args])
            if name.lstrip('_') in SHALLOW:
                if self.eff.identity and name in ('list', 'dict', 'tuple', 'set', 'OrderedDict') and len(args) == 1:
                    return args[0]
                return frozenset().union(*[copied(a) for a in args])
            return NONE
        if isinstance(fn, ast.Attribute):
            if recv:
                if name in ('copy', '__copy__'):
                    return recv if self.eff.identity else copied(recv)
                if name in ('items', 'iteritems'):
                    return shallow(recv)
                if name in ('values', 'itervalues'):
                    return recv
                if name in INNER or name in ('pop', 'setdefault', 'popitem', '__getitem__'):
                    return inner(recv)
                if name in SAME:
                    return recv
                return NONE
            if name in SAME and args:
                return args[0]
            if name in ('array', 'matrix') and args and any(
                    k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return args[0]
            if name.lstrip('_') in ('zip', 'enumerate', 'product'):
                return frozenset().union(*[shallow(copied(a)) for a in args])
            if name in ('copy', 'deepcopy', 'array') and args and self.eff.identity:
                return args[0]
            if (name in SHALLOW or name == 'copy') and args:
                return copied(args[0])
        return NONE
