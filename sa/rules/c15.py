"""C15 Equality, order and hashing agree.

For every class of the package with its own equality: what its hash reads (through properties, helpers and str(self)) is
determined by what every equality that may be asked about it compares; for two objects of one class that differ in one of the
values that tell its objects apart, no path of __eq__ answers True (the comparison is evaluated with that one difference,
everything else unknown); the two sides of a comparison are the same value of the two objects; sequences compared element by
element are also compared in length; the values a hash is made of are not reassigned once the object exists.
"""
import ast
from ..index import Index, Cls, walk_own, AnalysisBroken
from ..report import Result

# what tells two objects of the class apart (by documentation)
IDENTITY = {
    'Circuit': ('_labels', '_line_labels'),
    'NQOutcome': ('rep',), 'NQPauliState': ('rep', 'signs'), 'NQPauliOp': ('rep', 'sign'),
    'CompositeScore': ('major', 'minor'),
    'Basis': ('elements', 'sparse'), 'BuiltinBasis': ('name', 'cargs', 'sparse'),
    'DirectSumBasis': ('component_bases',), 'TensorProdBasis': ('component_bases',),
    'EmbeddedBasis': ('target_labels', 'state_space_labels', 'embedded_basis'),
}
# values that follow from the compared ones
FOLLOWS = {
    'Basis': {'elements': ('size', 'elshape', '_elements'), '_elements': ('size', 'elshape')},
    'BuiltinBasis': {'cargs': ('size', 'elshape', 'dim'), '_elements': ('size', 'elshape')},
    'DirectSumBasis': {'component_bases': ('size', 'elshape', 'sparse', 'dim')},
    'TensorProdBasis': {'component_bases': ('size', 'elshape', 'sparse', 'dim')},
    'EmbeddedBasis': {'embedded_basis': ('size', 'elshape', 'sparse', 'dim')},
}
NATIVE = {'tuple', 'str', 'list', 'dict', 'frozenset', 'int', 'float'}
ARRAYLIKE = {'DenseOperatorInterface', 'ProtectedArray', 'DenseSPAMVec', 'BasedDenseOperatorInterface'}   # == is elementwise


def native_of(c):
    for m in c.mro():
        for b in m.node.bases:
            if isinstance(b, ast.Name) and b.id in NATIVE:
                return b.id
    return None


def own_attr(c, name):
    """what the class body binds to name last: a Func, an expression or None"""
    out = None
    for s in c.node.body:
        if isinstance(s, (ast.FunctionDef,)) and s.name == name:
            out = c.methods.get(name)
        elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            out = s.value
    return out


def find_hash(c):
    """(class, Func | expression | None)"""
    for m in c.mro():
        h = own_attr(m, '__hash__')
        if h is not None:
            return m, h
        if own_attr(m, '__eq__') is not None:
            return m, None                # Python sets __hash__ to None
    return None, None


class Reads(object):
    """fields of `self` a method depends on (leaves)"""

    def __init__(self, ix, cls):
        self.ix, self.cls = ix, cls

    def prop(self, name):
        g = self.cls.lookup(name)
        return g if g is not None and any(getattr(d, 'id', getattr(d, 'attr', '')) in ('property', 'cached_property', 'getter')
                                          for d in g.node.decorator_list) else None

    def leaves(self, f, root, seen=None):
        seen = set() if seen is None else seen
        if (f, root) in seen:
            return set()
        seen.add((f, root))
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == root:
                p = self.prop(n.attr)
                g = self.cls.lookup(n.attr)
                if '_lazy' in n.attr:
                    continue
                if p is not None:
                    out |= self.leaves(p, p.selfname, seen)
                elif g is not None:
                    out |= self.leaves(g, g.selfname or 'self', seen)
                else:
                    out.add(n.attr)
            elif isinstance(n, ast.Call):
                for a_i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id == root:
                        out |= self.call(f, n, a_i, seen)
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(
                        n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and root == f.selfname:
                    g = self.cls.lookup_after(f.cls, n.func.attr)
                    if g is not None:
                        out |= self.leaves(g, g.selfname, seen)
            elif isinstance(n, ast.FormattedValue) and isinstance(n.value, ast.Name) and n.value.id == root:
                out |= self.dunder('__str__', seen)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and any(
                    isinstance(x, ast.Name) and x.id == root for x in ([n.right] + list(getattr(n.right, 'elts', [])))):
                out |= self.dunder('__str__', seen)
        return out

    def dunder(self, name, seen):
        g = self.cls.lookup(name)
        if g is None and name == '__str__':
            g = self.cls.lookup('__repr__')
        return self.leaves(g, g.selfname, seen) if g is not None else set()

    def call(self, f, n, pos, seen):
        fn = n.func
        if isinstance(fn, ast.Name):
            d = {'str': '__str__', 'repr': '__repr__', 'len': '__len__', 'tuple': '__iter__', 'list': '__iter__', 'hash': '__hash__'}
            if fn.id == 'id':
                return {'<identity>'}
            if fn.id in d:
                return self.dunder(d[fn.id], seen)
            r = self.ix.resolve_name(fn.id, f.module, f)
            if r is not None and not isinstance(r, Cls) and hasattr(r, 'node') and hasattr(r, 'params'):
                ps = [a.arg for a in r.node.args.args]
                if pos < len(ps):
                    return self.leaves(r, ps[pos], seen)
        elif isinstance(fn, ast.Attribute):
            r = self.ix.resolve_expr(fn.value, f.module, f)
            if isinstance(r, Cls):
                g = r.lookup(fn.attr)
                if g is not None and pos == 0:
                    return self.leaves(g, g.selfname or 'self', seen)
        return set()


# ------------------------------------------------------------------ evaluation of __eq__ with one difference
T, F, U = 'T', 'F', 'U'


class Differ(object):
    """evaluates __eq__(self, other) for two objects of class cls that differ in `field` (all else unknown)"""

    def __init__(self, ix, cls, field):
        self.ix, self.cls, self.field = ix, cls, field
        self.depth = 0
        self.reads = Reads(ix, cls)
        self.wit = None

    def neg(self, v):
        return {T: F, F: T, U: U}[v]

    def run(self, f, s, o):
        """possible answers of the method on all paths: set of T/F/U"""
        self.depth += 1
        if self.depth > 6:
            self.depth -= 1
            return {U}
        out = set()
        saved = getattr(self, 's', None), getattr(self, 'o', None), getattr(self, 'f', None)

        def block(stmts, env):
            """list of envs that fall through"""
            envs = [env]
            for st in stmts:
                nxt = []
                for e in envs:
                    nxt.extend(stmt(st, e))
                envs = nxt[:64]
                if not envs:
                    break
            return envs

        def stmt(st, env):
            self.s, self.o, self.f = s, o, f
            if isinstance(st, ast.Return):
                v = F if st.value is None else self.ev(st.value, env)
                out.add(v)
                if v != F and self.wit is None:
                    self.wit = st.lineno
                return []
            if isinstance(st, ast.Raise):
                return []
            if isinstance(st, ast.If):
                c = self.ev(st.test, env)
                r = []
                if c != F:
                    r += block(st.body, dict(env))
                if c != T:
                    r += block(st.orelse, dict(env))
                return r
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = self.ev(st.value, env)
                env = dict(env)
                env[st.targets[0].id] = self.expand(st.value, env)
                env['=' + st.targets[0].id] = v
                return [env]
            if isinstance(st, (ast.For,)):
                # for a, b in zip(self.X, other.X): if a != b: return False
                if self.zipped(st.iter, env) == self.field:
                    names = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]
                    e = dict(env)
                    e['pair'] = tuple(names)
                    before = set(out)
                    rest = block(st.body, e)
                    if F in out and len(rest) == 0:
                        return []          # some pair differs: the loop returns False there
                    return [env] if rest else []
                r = block(st.body, dict(env))
                return [env] + r
            if isinstance(st, ast.Try):
                return block(st.body, env) + [e for h in st.handlers for e in block(h.body, dict(env))]
            if isinstance(st, ast.With):
                return block(st.body, env)
            if isinstance(st, ast.Assert):
                return [] if self.ev(st.test, env) == F else [env]
            return [env]

        for e in block(f.node.body, {}):
            out.add(F)                      # returns None
        self.s, self.o, self.f = saved
        self.depth -= 1
        return out

    # -- one side of a comparison
    def side(self, e, env):
        """('self'|'other', text of the expression with the root replaced) if e is about one of the two objects"""
        e = self.expand(e, env)
        roots = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and n.id in (self.s, self.o)}
        if len(roots) != 1:
            return None
        r = roots.pop()
        txt = ast.dump(e).replace("id='%s'" % r, "id='@'")
        return ('self' if r == self.s else 'other'), txt, e

    def expand(self, e, env):
        class X(ast.NodeTransformer):
            def visit_Name(s, n):
                v = env.get(n.id)
                return s.visit(v) if isinstance(v, ast.AST) and v is not n else n

            def visit_IfExp(s, n):
                c = self.ev(n.test, env)
                return s.visit(n.body) if c == T else s.visit(n.orelse) if c == F else s.generic_visit(n)
        import copy
        try:
            return X().visit(copy.deepcopy(e))
        except RecursionError:
            return e

    def carries(self, e, root, depth=0):
        """does the value of e tell two different values of the field apart?"""
        if depth > 14:
            return False
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == root:
            if e.attr == self.field:
                return True
            p = self.reads.prop(e.attr)
            return p is not None and self.prop_carries(p, depth + 1)
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name) and e.func.id in (
                'tuple', 'list', 'str', 'frozenset', 'hash', 'repr', 'dict'):
            if isinstance(e.args[0], ast.Name) and e.args[0].id == root:
                d = {'str': '__str__', 'tuple': '__iter__', 'list': '__iter__', 'repr': '__repr__'}.get(e.func.id)
                g = self.cls.lookup(d) if d else None
                return g is not None and self.prop_carries(g, depth + 1)
            return self.carries(e.args[0], root, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.carries(e.left, root, depth + 1) or self.carries(e.right, root, depth + 1)
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.carries(x, root, depth + 1) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            return bool(tn & {x.id for x in ast.walk(e.elt) if isinstance(x, ast.Name)}) and self.carries(g.iter, root, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.carries(e.body, root, depth + 1) and self.carries(e.orelse, root, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == root:
            g = self.cls.lookup(e.func.attr)
            return g is not None and self.prop_carries(g, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'flatten', 'tolist', 'todense', 'join'):
            return self.carries(e.func.value, root, depth + 1) or any(self.carries(a, root, depth + 1) for a in e.args)
        return False

    def prop_carries(self, p, depth):
        """on every path of the property the field is part of the value, or has been compared with constants (where it is not)"""
        ok = [True]
        root = p.selfname

        def pins(t):
            return any(isinstance(c, ast.Compare) and any(self.carries(x, root, depth) for x in [c.left] + c.comparators)
                       for c in ast.walk(t))

        def block(stmts, pinned, env):
            for s in stmts:
                if isinstance(s, ast.Return):
                    v = s.value
                    while isinstance(v, ast.Name) and isinstance(env.get(v.id), ast.AST):
                        v = env[v.id]
                    if isinstance(v, ast.BinOp) or isinstance(v, (ast.Tuple, ast.List)):
                        v = self.expand(v, env)
                    if not pinned and not (v is not None and self.carries(v, root, depth)):
                        ok[0] = False
                    return False
                if isinstance(s, ast.Raise):
                    return False
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    env[s.targets[0].id] = self.expand(s.value, env)
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    old = env.get(s.target.id)
                    env[s.target.id] = ast.BinOp(left=old, op=s.op, right=s.value) if isinstance(old, ast.AST) else s.value
                if isinstance(s, ast.If):
                    pos = pins(s.test) and not any(isinstance(c.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)) for c in ast.walk(s.test)
                                                   if isinstance(c, ast.Compare)) and not isinstance(s.test, ast.UnaryOp)
                    negd = pins(s.test) and not pos
                    e1, e2 = dict(env), dict(env)
                    a = block(s.body, pinned or pos, e1)
                    b = block(s.orelse, pinned or negd, e2)
                    if not a and not b:
                        return False
                    if not a:
                        env.clear(); env.update(e2)
                        pinned = pinned or negd
                    elif not b:
                        env.clear(); env.update(e1)
                        pinned = pinned or pos
                    else:
                        for k in set(e1) | set(e2):
                            x, y = e1.get(k), e2.get(k)
                            if (pos or negd) and x is not None and y is not None:
                                env[k] = y if pos else x        # where it is not part of the value it is known
                            elif x is not y and x is not None and y is not None:
                                env[k] = ast.IfExp(test=s.test, body=x, orelse=y)
            return True
        if block(p.node.body, False, {}):
            ok[0] = False
        return ok[0]

    def zipped(self, e, env):
        """field A if e is zip(self.A, other.A) (or enumerate of it)"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'zip' and len(e.args) == 2:
            a, b = self.side(e.args[0], env), self.side(e.args[1], env)
            if a and b and a[0] != b[0] and a[1] == b[1] and self.carries(a[2], self.s if a[0] == 'self' else self.o):
                return self.field
        return None

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return T if e.value else F
        if isinstance(e, ast.Name):
            return env.get('=' + e.id, U)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.neg(self.ev(e.operand, env))
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(v, env) for v in e.values]
            dom = F if isinstance(e.op, ast.And) else T
            oth = T if dom == F else F
            return dom if dom in vs else oth if all(v == oth for v in vs) else U
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            vs = [self.ev(e.left, env), self.ev(e.right, env)]
            dom = F if isinstance(e.op, ast.BitAnd) else T
            return dom if dom in vs else U
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if c == T else b if c == F else a if a == b else U
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            if isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.left, ast.Name) \
                    and e.left.id in (self.s, self.o):
                return F if isinstance(op, (ast.Is, ast.Eq)) else T
            names = {getattr(e.left, 'id', ''), getattr(e.comparators[0], 'id', '')}
            if env.get('pair') and names == set(env['pair']):
                return {ast.Eq: F, ast.NotEq: T}.get(type(op), U)
            if names == {self.s, self.o}:
                if isinstance(op, ast.Is):
                    return F
                if isinstance(op, ast.IsNot):
                    return T
            v = self.same(e.left, e.comparators[0], env)
            if isinstance(op, (ast.Eq, ast.Is)):
                return F if v else U
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return T if v else U
            return U
        if isinstance(e, ast.Call):
            fn = e.func
            name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
            if name == 'isinstance' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and e.args[0].id in (self.s, self.o):
                ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                for t in ts:
                    r = self.ix.resolve_expr(t, self.f.module, self.f)
                    if isinstance(r, Cls) and self.cls.is_sub(r):
                        return T
                return F
            if name in ('array_equal', 'array_equiv', 'sparse_equal', '_sparse_equal', 'allclose') and len(e.args) >= 2:
                return F if self.same(e.args[0], e.args[1], env) else U
            if name == 'bool' and len(e.args) == 1:
                return self.ev(e.args[0], env)
            if name in ('all', 'any') and len(e.args) == 1 and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)):
                c = e.args[0]
                g = c.generators[0]
                if len(c.generators) == 1 and not g.ifs and self.zipped(g.iter, env):
                    en = dict(env)
                    en['pair'] = tuple(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
                    v = self.pairtest(c.elt, en)
                    if name == 'all' and v == F:
                        return F
                    if name == 'any' and v == T:
                        return T
                return U
            if name == '__eq__' or name.startswith('__eq__'):
                g = None
                if isinstance(fn.value, ast.Call):
                    g = self.cls.lookup_after(self.f.cls, '__eq__')
                else:
                    r = self.ix.resolve_expr(fn.value, self.f.module, self.f)
                    g = r.lookup('__eq__') if isinstance(r, Cls) else None
                    if isinstance(fn.value, ast.Attribute) or len(e.args) == 1:
                        if len(e.args) == 1 and not isinstance(fn.value, ast.Call):
                            return F if self.same(fn.value, e.args[0], env) else U
                if g is not None:
                    ps = [a.arg for a in g.node.args.args]
                    rs = self.run(g, ps[0], ps[1])
                    return F if rs == {F} else U
                return U
            g = None
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.s:
                g = self.cls.lookup(fn.attr)
                ps = [a.arg for a in g.node.args.args] if g else []
                if g is not None and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == self.o and len(ps) == 2:
                    rs = self.run(g, ps[0], ps[1])
                    return F if rs == {F} else T if rs == {T} else U
            if isinstance(fn, ast.Name):
                g = self.ix.resolve_name(fn.id, self.f.module, self.f)
                if g is not None and not isinstance(g, Cls) and hasattr(g, 'node') and hasattr(g, 'params') and [
                        getattr(a, 'id', None) for a in e.args] in ([self.s, self.o],):
                    ps = [a.arg for a in g.node.args.args]
                    rs = self.run(g, ps[0], ps[1])
                    return F if rs == {F} else T if rs == {T} else U
            return U
        return U

    def pairtest(self, e, env):
        """truth of the test for the pair that differs"""
        if isinstance(e, ast.Compare):
            return self.ev(e, env)
        if isinstance(e, ast.Call) and len(e.args) >= 2 and {getattr(a, 'id', '') for a in e.args[:2]} == set(env['pair']):
            return F
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.neg(self.pairtest(e.operand, env))
        if isinstance(e, ast.BoolOp):
            vs = [self.pairtest(v, env) for v in e.values]
            dom = F if isinstance(e.op, ast.And) else T
            return dom if dom in vs else U
        return U

    def same(self, a, b, env):
        """are a and b the same value of the two objects, one that carries the field?"""
        if isinstance(a, ast.Tuple) and isinstance(b, ast.Tuple) and len(a.elts) == len(b.elts):
            return any(self.same(x, y, env) for x, y in zip(a.elts, b.elts))
        x, y = self.side(a, env), self.side(b, env)
        if not x or not y or x[0] == y[0] or x[1] != y[1]:
            return False
        return self.carries(x[2], self.s if x[0] == 'self' else self.o)


def crossed(ix, c, f):
    """comparisons of different values of the two objects, or of a value with itself"""
    ps = [a.arg for a in f.node.args.args]
    if len(ps) != 2:
        return
    s, o = ps

    def root(e):
        while isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name):
            e = e.args[0]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in (s, o):
            return e.value.id, e.attr
        return None
    for n in walk_own(f.node):
        pairs = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            pairs.append((n.left, n.comparators[0]))
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (
                getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('zip', 'array_equal', 'allclose', '_sparse_equal')) and len(n.args) >= 2:
            pairs.append((n.args[0], n.args[1]))
        for a, b in pairs:
            x, y = root(a), root(b)
            if x and y and (x[0] == y[0] and x[1] == y[1] or x[0] != y[0] and x[1] != y[1]):
                yield n, x, y


def unmeasured(f):
    """zip(self.A, other.A) in an equality without a comparison of the lengths of A"""
    ps = [a.arg for a in f.node.args.args]
    if len(ps) != 2:
        return
    s, o = ps
    alias = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            alias.setdefault(n.targets[0].id, []).append(ast.dump(n.value))

    def names(e):
        return {ast.dump(e)} | set(alias.get(e.id, ()) if isinstance(e, ast.Name) else ())
    lens = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            ab = [n.left, n.comparators[0]]
            if all(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args for x in ab):
                lens.append([names(x.args[0]) for x in ab])
            elif all(isinstance(x, ast.Attribute) and x.attr in ('size', 'shape', 'dim') for x in ab):
                lens.append(None)
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'zip' and len(n.args) == 2:
            if any(k.arg == 'strict' for k in n.keywords):
                continue
            x, y = names(n.args[0]), names(n.args[1])
            if not any(l is None or (l[0] & x and l[1] & y) or (l[0] & y and l[1] & x) for l in lens):
                yield n


def check(repo, tier='quick'):
    ix = Index(repo)
    R = Result()
    R.explanation = ('Classes with their own __eq__/__hash__: fields a hash depends on (closure over properties and helpers) are '
                     'determined by what equality compares; __eq__ evaluated in three-valued logic for two objects that differ '
                     'in one identifying field must answer False on every path; sides of comparisons, lengths of zipped '
                     'sequences and later writes of hashed fields are checked.')
    R.assumptions = ['identifying fields and which fields follow from them: reviewed tables in sa/rules/c15.py',
                     'array-like members (== is elementwise) and classes compared by identity are out of scope']
    classes = [c for m in ix.modules.values() for c in m.classes.values()]
    neq = nhash = nfield = 0
    seen = set()
    for c in classes:
        eqs = [(m, own_attr(m, '__eq__')) for m in c.mro() if own_attr(m, '__eq__') is not None]
        nat = native_of(c)
        hc, h = find_hash(c)
        if c.name in ARRAYLIKE or any(m.name in ARRAYLIKE for m, _ in eqs):
            continue
        if not eqs and h is None:
            continue
        if nat:
            # equality and hash of the built-in value itself
            for m, e in eqs[:1]:
                neq += 1
                if not isinstance(e, ast.AST) and e is not None:
                    ps = [a.arg for a in e.node.args.args]
                    rets = [n for n in walk_own(e.node) if isinstance(n, ast.Return)]
                    for r in rets:
                        v = r.value
                        good = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == '__eq__' or (
                            isinstance(v, ast.Compare) and isinstance(v.ops[0], ast.Eq)) or isinstance(v, ast.Constant) and not v.value \
                            or isinstance(v, ast.Name) and v.id == 'NotImplemented' or isinstance(v, ast.BoolOp)
                        if good and isinstance(v, ast.Call) and isinstance(v.func.value, ast.Name) and v.func.value.id in NATIVE \
                                and v.func.value.id != nat:
                            good = False
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == '__eq__':
                            good = good and ps == [getattr(a, 'id', None) for a in v.args] or (
                                isinstance(v.func.value, ast.Call) and [ps[1]] == [getattr(a, 'id', None) for a in v.args])
                        if isinstance(v, (ast.Compare, ast.BoolOp)):
                            # a hand-written comparison: must not leave out anything of the value
                            good = any(isinstance(x, ast.Name) and x.id == ps[0] for x in ast.iter_child_nodes(v)) or any(
                                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == nat for x in ast.walk(v))
                        if not good:
                            R.add('C15.not-the-value', '%s.__eq__' % m.name, e.loc(r),
                                  'equality of %s does not compare the whole %s it is' % (m.name, nat))
                if h is None:
                    R.add('C15.unhashable', m.name, '%s:%d' % (m.module.relpath, m.node.lineno),
                          '%s is used as a key but defines __eq__ without __hash__' % m.name)
                elif isinstance(h, ast.AST):
                    nhash += 1
                    if not (isinstance(h, ast.Attribute) and h.attr == '__hash__' and isinstance(h.value, ast.Name) and h.value.id == nat):
                        R.add('C15.foreign-hash', hc.name, '%s:%d' % (hc.module.relpath, h.lineno),
                              '__hash__ of %s is not that of the %s it is compared as' % (hc.name, nat))
                else:
                    nhash += 1
                    ls = Reads(ix, c).leaves(h, h.selfname)
                    ls -= {'name', 'sslbls', 'args', 'components'}
                    if ls:
                        R.add('C15.hash-of-more', '%s.__hash__' % hc.name, h.loc(),
                              'the hash depends on %s, which equality of the %s does not compare' % (', '.join(sorted(ls)), nat))
            continue
        rd = Reads(ix, c)
        for m, e in eqs:
            if isinstance(e, ast.AST):
                continue
            ps = [a.arg for a in e.node.args.args]
            if len(ps) != 2:
                continue
            if e not in seen:
                seen.add(e)
                neq += 1
                for n, x, y in crossed(ix, c, e):
                    R.add('C15.crossed', '%s.__eq__ %s/%s' % (m.name, x[1], y[1]), e.loc(n),
                          'compares %s.%s with %s.%s' % (x + y))
                for n in unmeasured(e):
                    R.add('C15.prefix-equal', '%s.__eq__' % m.name, e.loc(n),
                          'compares sequences element by element only as far as the shorter one goes')
            # hash against every equality that may be asked
            if h is not None and not isinstance(h, ast.AST):
                nhash += 1
                hl = rd.leaves(h, h.selfname)
                el = rd.leaves(e, ps[0])
                follow = set()
                for k in {m.name, c.name}:
                    for src, ds in FOLLOWS.get(k, {}).items():
                        if src in el:
                            follow |= set(ds)
                # the lazily built field behind a property counts as the property
                bad = {x for x in hl if x not in el and x not in follow}
                if bad:
                    R.add('C15.hash-of-more', '%s.__hash__ vs %s.__eq__' % (hc.name, m.name), h.loc(),
                          'the hash of %s depends on %s, which %s.__eq__ does not compare: equal objects hash differently'
                          % (c.name, ', '.join(sorted(bad)), m.name))
        # identity
        own = eqs[0] if eqs else None
        if own and not isinstance(own[1], ast.AST):
            for k, fields in IDENTITY.items():
                if k != c.name:
                    continue
                for fld in fields:
                    nfield += 1
                    d = Differ(ix, c, fld)
                    ps = [a.arg for a in own[1].node.args.args]
                    rs = d.run(own[1], ps[0], ps[1])
                    if rs != {F}:
                        R.add('C15.overlooked', '%s.%s' % (c.name, fld), own[1].loc(),
                              'two %s objects that differ in %s may be found equal (return at line %s)' % (c.name, fld, d.wit))
        # values of a hash that change later
        if h is not None and not isinstance(h, ast.AST) and eqs and c.name != 'Circuit':
            hl = rd.leaves(h, h.selfname)
            for mn in c.method_names():
                g = c.lookup(mn)
                if g is None or mn in ('__init__', '__setstate__', '__new__', '__deepcopy__', '_copyInto', 'copy') or g.selfname is None \
                        or '_lazy' in mn or mn.startswith('_init'):
                    continue
                for n in walk_own(g.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == g.selfname and t.attr in hl:
                            R.add('C15.hash-changes', '%s.%s %s' % (g.cls.name, mn, t.attr), g.loc(n),
                                  '%s, from which %s objects are hashed, is reassigned: keys that were stored are lost' % (t.attr, c.name))
        if h is not None and not isinstance(h, ast.AST) and not eqs:
            nhash += 1
            hl = rd.leaves(h, h.selfname)
            if not hl:
                R.add('C15.hash-changes', '%s.__hash__' % hc.name, h.loc(), 'the hash depends on nothing of the object')
        # order
        fl = own_attr(c, '__lt__')
        if fl is not None and not isinstance(fl, ast.AST) and own and not isinstance(own[1], ast.AST):
            more = rd.leaves(fl, fl.selfname) - rd.leaves(own[1], own[1].selfname)
            if more:
                R.add('C15.order', '%s.__lt__' % c.name, fl.loc(), 'the order compares %s, which equality does not' % ', '.join(sorted(more)))
        for a, b in (('__lt__', '__gt__'), ('__le__', '__ge__')):
            fa, fb = own_attr(c, a), own_attr(c, b)
            if fa is not None and fb is not None and not isinstance(fa, ast.AST) and not isinstance(fb, ast.AST):
                la, lb = rd.leaves(fa, fa.selfname), rd.leaves(fb, fb.selfname)
                if la != lb:
                    R.add('C15.order', '%s.%s/%s' % (c.name, a, b), fa.loc(), 'the two orders compare different values')
    R.count('equalities analysed', neq, 15)
    R.count('hash/equality pairs', nhash, 15)
    R.count('identifying fields', nfield, 15)
    for k in ('Circuit', 'Basis', 'BuiltinBasis', 'LabelTup', 'NQPauliOp'):
        if not any(c.name == k for c in classes):
            raise AnalysisBroken('class %s not found' % k)
    return R
