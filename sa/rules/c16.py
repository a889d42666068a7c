"""C16: a gauge transformation, depolarisation or rotation reaches every part of an object.

product   every transform / spam_transform that computes a matrix or vector stores S^-1 G S for a map, S^-1 v for a preparation and
          S^T v for an effect (S^-1 G and G S for the map in front of a preparation or an effect)
reach     the transform, spam_transform, depolarize and rotate methods of a composite object pass the request on to each of its
          members, with the same arguments, whatever the path through the method
model     a model passes it on to all of its preparations, POVMs, operations and instruments
inverse   the inverse matrix of a gauge group element is that of its current matrix
"""
import ast
import builtins
from ..index import Index, Func, Cls, dotted
from ..paths import PathWalk, State
from ..report import Result

VALUE = {'todense', 'tosparse', 'asarray', 'array', 'toarray', 'get_unitary', 'copy', 'ascontiguousarray'}
DOTS = {'dot', 'safedot', 'matmul', 'multi_dot', 'safe_dot'}
SINKS = {'set_value', '_set_params_from_matrix'}
PASS = {'list', 'tuple', 'iter', 'sorted', 'reversed', 'set'}
# members of objects that are dictionaries themselves
OWN = {'Instrument': 'self', 'TPInstrument': 'self.param_ops', '_BasePOVM': 'self', 'UnconstrainedPOVM': 'self', 'TPPOVM': 'self',
       'TensorProdPOVM': 'self.factorPOVMs'}
# fields holding a matrix that is part of the value
FIELDS = {'LindbladOp': ['unitary_postfactor']}
METHODS = ('transform', 'spam_transform', 'depolarize', 'rotate')


def prod(xs):
    out = []
    for x in xs:
        if x is None:
            return None
        out += list(x[1]) if x[0] == 'prod' else [x]
    return ('prod', tuple(out)) if len(out) > 1 else out[0]


def transpose(v):
    if v is None:
        return None
    if v[0] == 'prod':
        return ('prod', tuple(transpose(x) for x in reversed(v[1])))
    if v[0] == 'T':
        return v[1]
    return ('T', v)


def root(v):
    """the collection a value is an element of, 'self' for the object's own entries"""
    return v[1] if v and v[0] in ('elem', 'item') else None


class Walk(PathWalk):
    ZERO_TRIP = False

    def __init__(self, ix, cls, f, binds, depth=0):
        PathWalk.__init__(self)
        self.ix = ix
        self.cls = cls
        self.f = f
        self.binds = binds
        self.level = depth
        self.ends = []           # (state, value)
        self.stack = []

    # ------------------------------------------------ expressions
    def ev(self, e, st):
        try:
            return self.ev_(e, st)
        except RecursionError:
            return None

    def ev_(self, e, st):
        if isinstance(e, ast.Name):
            return st.env.get(e.id)
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, st)
            if e.attr == 'T':
                return transpose(b)
            if b == ('self',):
                if e.attr == 'base':
                    return ('value', 'self')
                got = st.env.get('self.' + e.attr)
                return got if got is not None else ('f', 'self.' + e.attr)
            if b and b[0] == 'elem':
                return None
            return None
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, st), self.ev(e.right, st)
            if isinstance(e.op, ast.MatMult):
                return prod([l, r])
            if isinstance(e.op, ast.Add) and l and r and l[0] == r[0] == 'all':
                return ('all', l[1] | r[1])
            return ('op', type(e.op).__name__, l, r) if l and r and 'arg' in (l[0], r[0]) else None
        if isinstance(e, ast.IfExp):
            k = self.known(e.test, st)
            if k is not None:
                return self.ev(e.body if k else e.orelse, st)
            a, b = self.ev(e.body, st), self.ev(e.orelse, st)
            return a if a == b else None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('seq', tuple(self.ev(x, st) for x in e.elts))
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value, st), None
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                if sl.lower is None and sl.upper is None and (sl.step is None or ast.unparse(sl.step) == '-1'):
                    return b
                return ('part',) if b and b[0] in ('f', 'all', 'self') else None
            i = self.ev(e.slice, st)
            if b and b[0] == 'seq' and i and i[0] == 'const' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                return b[1][i[1]]
            if b == ('self',) or b and b[0] == 'f':
                r = 'self' if b == ('self',) else b[1]
                if i and i[0] in ('idx', 'item', 'key') and i[1] == r:
                    return ('elem', r)
                if i and i[0] in ('idx', 'item', 'key'):
                    return ('elem', r) if self.same_keys(i[1], r) else ('part',)
                if i and i[0] == 'const':
                    return ('part',)
                return ('part',) if i is None else None
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            b = st.copy()
            full = True
            for g in e.generators:
                self.assign(g.target, self.item(self.ev(g.iter, b)), b, e)
                full = full and not g.ifs
            v = self.ev(e.elt, b)
            fx = b.env.get('$fx', ())
            if full:
                st.env['$fx'] = fx
            else:
                st.env['$fx'] = st.env.get('$fx', ()) + tuple(('part',) + x[1:] if x[0] == 'reach' else x
                                                              for x in fx[len(st.env.get('$fx', ())):])
            r = root(v)
            return ('all', frozenset([r])) if r and full else None
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.BoolOp,)):
            for x in e.values:
                self.ev(x, st)
            return None
        if isinstance(e, ast.Compare):
            self.ev(e.left, st)
            for x in e.comparators:
                self.ev(x, st)
            return None
        if isinstance(e, ast.UnaryOp):
            self.ev(e.operand, st)
            return None
        return None

    def same_keys(self, a, b):
        return False

    def call(self, e, st):
        fn = (dotted(e.func) or '').split('.')[-1]
        recv = None
        if isinstance(e.func, ast.Attribute):
            fn = e.func.attr
            recv = self.ev(e.func.value, st)
        args = [self.ev(x, st) for x in e.args if not isinstance(x, ast.Starred)]
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords if k.arg}
        if fn == 'get_transform_matrix' and recv == ('S',):
            return ('Smx',)
        if fn == 'get_transform_matrix_inverse' and recv == ('S',):
            return ('Sinv',)
        if fn in ('inv', 'pinv') and args and args[0] == ('Smx',):
            return ('Sinv',)
        if fn in ('transpose',):
            x = args[0] if args else recv
            if recv is not None and args and args[0] and args[0][0] in ('seq', 'const'):
                return None
            return transpose(x)
        if fn in DOTS:
            if fn == 'multi_dot' and args and args[0] and args[0][0] == 'seq':
                return prod(args[0][1])
            if recv is not None and len(args) == 1:
                return prod([recv, args[0]])
            if len(args) >= 2:
                return prod(args[:2])
            return None
        if fn in VALUE:
            x = recv if recv is not None else args[0] if args else None
            if fn == 'copy' and x == ('self',):
                return ('self',)
            if x == ('self',):
                return ('value', 'self')
            return x
        if fn == 'submembers' and recv == ('self',) and self.binds.get('roots'):
            return ('all', frozenset(self.binds['roots']))
        if fn in ('values',) and recv and recv[0] == 'anyof':
            return ('all', recv[1])
        if any(isinstance(x, ast.Lambda) and set(y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute)) & set(METHODS)
               for x in list(e.args) + [k.value for k in e.keywords]):
            st.env['$fx'] = st.env.get('$fx', ()) + (('reach', '?', '?', ()), ('store', '?', None))
            return None
        if fn in ('values', 'items', 'keys') and (recv == ('self',) or recv and recv[0] == 'f'):
            r = 'self' if recv == ('self',) else recv[1]
            return {'values': ('all', frozenset([r])), 'items': ('pairs', r), 'keys': ('keys', r)}[fn]
        if fn == 'chain':
            if all(a and a[0] in ('all', 'f') for a in args):
                return ('all', frozenset(x for a in args for x in (a[1] if a[0] == 'all' else [a[1]])))
            return None
        if fn in PASS and len(args) >= 1 and recv is None:
            return args[0]
        if fn == 'enumerate' and args:
            return ('enum', args[0])
        if fn == 'zip':
            return ('zip', tuple(args))
        if fn == 'len' and args and (args[0] == ('self',) or args[0] and args[0][0] == 'f'):
            return ('len', 'self' if args[0] == ('self',) else args[0][1])
        if fn == 'range' and args:
            if len(args) == 1 and args[0] and args[0][0] == 'len':
                return ('range', args[0][1])
            if len(args) >= 2 and args[0] == ('const', 0) and args[1] and args[1][0] == 'len' and len(args) == 2:
                return ('range', args[1][1])
            return None
        if recv is not None and fn in METHODS and recv != ('self',):
            targets = self.targets(recv)
            given = tuple(args) + tuple(v for k, v in sorted(kw.items()))
            for t in targets:
                st.env['$fx'] = st.env.get('$fx', ()) + ((('reach' if t != '(part)' else 'part'), t, fn, given),)
            return None
        if recv is None and fn in ('map',) and len(args) > 1:
            st.env['$fx'] = st.env.get('$fx', ()) + (('reach', '?', '?', ()),)
            return None
        if fn in SINKS and recv == ('self',):
            st.env['$fx'] = st.env.get('$fx', ()) + (('store', 'self', args[0] if args else None),)
            return None
        got = self.inline(e, fn, recv, args, kw, st)
        if got is not NotImplemented:
            return got
        if isinstance(e.func, ast.Name) and any(a and a[0] in ('self', 'f', 'all', 'elem', 'item', 'anyof') for a in args) and not (
                hasattr(builtins, fn) or isinstance(self.ix.resolve_name(fn, self.f.module, self.f), (Cls, tuple))):
            # an unknown function may do it
            st.env['$fx'] = st.env.get('$fx', ()) + (('reach', '?', '?', ()), ('store', '?', None))
        return None

    def targets(self, recv):
        if recv is None:
            return ['?']
        if recv[0] in ('elem', 'item'):
            return [recv[1]]
        if recv[0] == 'anyof':
            return sorted(recv[1])
        if recv[0] == 'f':
            return [recv[1]]
        if recv[0] == 'part':
            return ['(part)']
        return ['?']

    def inline(self, e, fn, recv, args, kw, st):
        f = None
        if recv == ('self',):
            f = self.cls.lookup(fn)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == 'super':
            f = self.cls.lookup_after(self.f.cls, fn) if self.f.cls else None
            recv = ('self',)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and recv is None:
            r = self.ix.resolve_expr(e.func, self.f.module, self.f)
            if isinstance(r, Func):
                f = r
                if r.cls is not None and args and args[0] == ('self',):
                    recv, args = args[0], args[1:]
        elif isinstance(e.func, ast.Name):
            r = self.ix.resolve_name(e.func.id, self.f.module, self.f)
            f = r if isinstance(r, Func) else None
        if f is None or self.level > 2:
            return NotImplemented
        if not (set(x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)) & (
                set(METHODS) | SINKS | DOTS | {'T', 'transpose', 'get_transform_matrix', 'get_transform_matrix_inverse', 'values', 'items'}
                | set(y for v in FIELDS.values() for y in v)) or any(isinstance(x, ast.MatMult) for x in ast.walk(f.node))):
            return None
        ps = list(f.node.args.args)
        env = {}
        if f.cls is not None and ps and not f.is_static:
            env[ps[0].arg] = recv or ('self',)
            ps = ps[1:]
        for p, a in zip(ps, args):
            env[p.arg] = a
        for k, v in kw.items():
            env[k] = v
        env['$fx'] = st.env.get('$fx', ())
        for k, v in st.env.items():
            if k.startswith('self.'):
                env[k] = v
        w = Walk(self.ix, self.cls, f, self.binds, self.level + 1)
        w.run(f, State(env, {k: v for k, v in st.facts.items() if any(isinstance(x, str) and x.startswith('self.') for x in k[1:])}))
        outs = set((s.env.get('$fx', ()), v) for s, v in w.ends)
        if len(set(x for x, v in outs)) == 1:
            fx = next(iter(outs))[0]
            v = next(iter(outs))[1] if len(outs) == 1 else None
            st.env['$fx'] = fx
            s = w.ends[0][0]
            for k in s.env:
                if k.startswith('self.'):
                    st.env[k] = s.env[k]
            return v
        if not outs:
            return None
        before = st.env.get('$fx', ())
        if set(x for x, v in outs) == {before}:
            return None
        st.env['$fx'] = before + (('reach', '?', '?', ()), ('store', '?', None))
        return None

    # ------------------------------------------------ statements
    def item(self, v):
        if v is None:
            return None
        if v[0] == 'f':
            return ('item', v[1])
        if v == ('self',):
            return ('key', 'self')
        if v[0] == 'all':
            return ('elem', next(iter(v[1]))) if len(v[1]) == 1 else ('anyof', v[1])
        if v[0] == 'keys':
            return ('key', v[1])
        if v[0] == 'range':
            return ('idx', v[1])
        if v[0] == 'part':
            return ('part',)
        if v[0] == 'pairs':
            return ('seq', (('key', v[1]), ('elem', v[1])))
        if v[0] == 'enum':
            i = self.item(v[1])
            return ('seq', (('idx', root(i)) if root(i) else None, i))
        if v[0] == 'zip':
            return ('seq', tuple(self.item(x) for x in v[1]))
        if v[0] == 'seq':
            roots = [self.targets(x) for x in v[1]]
            if all(len(r) == 1 and r[0] not in ('?', '(part)') for r in roots):
                return ('anyof', frozenset(r[0] for r in roots))
        return None

    def stmt(self, s, st):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.IfExp):
            v = s.value
            return PathWalk.stmt(self, ast.copy_location(ast.If(v.test, [ast.copy_location(ast.Expr(v.body), s)],
                                                                [ast.copy_location(ast.Expr(v.orelse), s)]), s), st)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.BoolOp) and len(s.value.values) == 2:
            v = s.value
            inner = [ast.copy_location(ast.Expr(v.values[1]), s)]
            both = (inner, []) if isinstance(v.op, ast.And) else ([], inner)
            return PathWalk.stmt(self, ast.copy_location(ast.If(v.values[0], both[0] or [ast.copy_location(ast.Pass(), s)], both[1]), s), st)
        if isinstance(s, (ast.Break, ast.Return)) and self.stack:
            for rs in (self.stack[-1:] if isinstance(s, ast.Break) else self.stack):
                for r in rs:
                    st.env['$fx'] = st.env.get('$fx', ()) + (('broke', r),)
        return PathWalk.stmt(self, s, st)

    def loop(self, s, st):
        it = self.item(self.ev(s.iter, st.copy())) if not isinstance(s, ast.While) else None
        rs = set()
        for x in (it[1] if it and it[0] == 'seq' else [it]):
            if x and x[0] in ('elem', 'item', 'idx', 'key'):
                rs.add(x[1])
            elif x and x[0] == 'anyof':
                rs |= set(x[1])
        self.stack.append(sorted(rs))
        try:
            return PathWalk.loop(self, s, st)
        finally:
            self.stack.pop()

    def loop_item(self, s, itv, st):
        return self.item(itv)

    def assign(self, target, value, st, node):
        if isinstance(target, (ast.Tuple, ast.List)) and value and value[0] == 'seq' and len(value[1]) == len(target.elts):
            for t, v in zip(target.elts, value[1]):
                self.assign(t, v, st, node)
            return
        if isinstance(target, ast.Attribute) and self.ev(target.value, st) == ('self',):
            if target.attr in [y for v in FIELDS.values() for y in v]:
                st.env['$fx'] = st.env.get('$fx', ()) + (('store', 'self.' + target.attr, value),)
                st.env['self.' + target.attr] = value
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.assign(t, None, st, node)
            return
        if isinstance(target, ast.Subscript) and self.ev(target.value, st) in (('self',), ('value', 'self')):
            st.env['$fx'] = st.env.get('$fx', ()) + (('store', 'self', value),)
        PathWalk.assign(self, target, value, st, node)

    def assume(self, t, truth, st):
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = self.ev(t.left, st), self.ev(t.comparators[0], st), t.ops[0]
            if a and a[0] == 'const' and b and b[0] == 'const' and isinstance(op, (ast.Eq, ast.NotEq)):
                return ((a[1] == b[1]) == isinstance(op, ast.Eq)) == truth
            if a and a[0] == 'const' and b and b[0] == 'seq' and all(x and x[0] == 'const' for x in b[1]) and \
                    isinstance(op, (ast.In, ast.NotIn)):
                return ((a[1] in [x[1] for x in b[1]]) == isinstance(op, ast.In)) == truth
            if isinstance(op, (ast.In, ast.NotIn)) and 'id(' in ast.unparse(t.left):
                st.facts[('seen', ast.unparse(t))] = truth
            if isinstance(op, (ast.Eq, ast.NotEq)) and 'complement_label' in ast.unparse(t):
                st.facts[('seen', 'complement')] = truth == isinstance(op, ast.Eq)
            if a and b and 'len' in (a[0], b[0]) and ('const', 0) in (a, b) and truth == isinstance(op, (ast.Eq, ast.LtE)):
                return False     # objects without members need nothing
        if isinstance(t, ast.Name) or isinstance(t, ast.Attribute):
            v = self.ev(t, st)
            if v and v[0] == 'const':
                return bool(v[1]) == truth
            if v and v[0] in ('f', 'all') and not truth and self.needs_truth(v):
                return False
        return PathWalk.assume(self, t, truth, st)

    def needs_truth(self, v):
        return any(x in self.binds.get('roots', ()) for x in (v[1] if v[0] == 'all' else [v[1]]))

    def on_return(self, s, st):
        v = self.ev(s.value, st) if s is not None and s.value is not None else None
        self.ends.append((st, v))


def walk(ix, c, f, roots, **params):
    ps = [a.arg for a in f.node.args.args]
    env = {ps[0]: ('self',)}
    for p in ps[1:]:
        if p == 'S' or p.lower() in ('s', 'gauge_el', 'gaugegroupel'):
            env[p] = ('S',)
        elif p in params:
            env[p] = ('const', params[p])
        else:
            env[p] = ('arg', p)
    if 'S' not in ps and f.name in ('transform', 'spam_transform') and len(ps) > 1:
        env[ps[1]] = ('S',)
    w = Walk(ix, c, f, {'roots': roots})
    w.run(f, State(env, {}))
    return w


def show(v):
    if v is None:
        return '(unknown)'
    if v[0] == 'prod':
        return ' '.join(show(x) for x in v[1])
    if v[0] == 'T':
        return show(v[1]) + '^T'
    return {'Smx': 'S', 'Sinv': 'S^-1', 'value': 'value'}.get(v[0]) or (v[1] if len(v) > 1 else v[0])


def expected(kind, typ, what):
    if kind == 'op':
        return ('prod', (('Sinv',), what, ('Smx',)))
    if kind == 'map':
        return ('prod', (('Sinv',), what)) if typ == 'prep' else ('prod', (what, ('Smx',)))
    return ('prod', (('Sinv',), what)) if typ == 'prep' else ('prod', (('T', ('Smx',)), what))


def members(ix, c):
    from .c10 import Walk as W10, contained
    for k in c.mro():
        if k.name in OWN:
            return [OWN[k.name]]
        if 'submembers' in k.methods:
            break
    sm = c.lookup('submembers')
    out = set()
    if sm is not None:
        for v, conds, st in W10(ix, c, 'sub').run(sm).rets:
            out |= contained(v)
    return sorted(x for x in out if x.startswith('self.') and '[' not in x and '(' not in x)


def excused(st):
    for k, v in st.facts.items():
        if k[0] == 'seen' and v:
            return True
    return False


def variants(f):
    ps = [a.arg for a in f.node.args.args]
    return [('prep', {'typ': 'prep'}), ('effect', {'typ': 'effect'})] if 'typ' in ps else [('', {})]


def check_classes(ix, res):
    nprod = nreach = ncls = 0
    done = set()
    for c in ix.classes:
        for name in METHODS:
            f = c.lookup(name)
            if f is None or any(k.name == 'Model' or k.name == 'ExplicitOpModel' for k in c.mro()):
                continue
            roots = members(ix, c)
            key = (f.qual, tuple(roots), tuple(x for k in c.mro() for x in FIELDS.get(k.name, ())))
            if key in done:
                continue
            done.add(key)
            cname = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
            own = f.cls is c or f.cls in c.mro()
            for typ, params in variants(f):
                w = walk(ix, c, f, roots, **params)
                if w.capped or not w.ends:
                    continue
                ncls += 1
                label = '%s.%s%s' % (cname, name, ' (%s)' % typ if typ else '')
                generic = f.cls is not None and f.cls.name in ('LinearOperator', 'SPAMVec') and name in ('transform', 'depolarize', 'rotate')
                if roots and not generic:
                    for r in roots:
                        nreach += 1
                        for st, _ in w.ends:
                            fx = st.env.get('$fx', ())
                            hit = reached(fx, r)
                            if not hit:
                                if excused(st):
                                    continue
                                res.add('C16.reach', '%s %s' % (label, r), f.loc(),
                                        '%s does not reach %s on every path' % (
                                            label, 'every entry' if r == 'self' else 'every element of ' + r))
                                break
                            bad = arguments(hit, f, name, c, typ)
                            if bad:
                                res.add('C16.reach', '%s %s arguments' % (label, r), f.loc(),
                                        '%s passes %s on to %s' % (label, bad, r))
                                break
                if name not in ('transform', 'spam_transform'):
                    continue
                spam = any(k.name == 'SPAMVec' for k in c.mro())
                kind = 'map' if name == 'spam_transform' else 'spam' if spam else 'op'
                for st, _ in w.ends:
                    fx = st.env.get('$fx', ())
                    if roots and not generic:
                        for k in c.mro():
                            for fl in FIELDS.get(k.name, ()):
                                if st.facts.get(('none', 'self.' + fl)) is True or not field(c, fl):
                                    continue
                                nprod += 1
                                v = [x[2] for x in fx if x[0] == 'store' and x[1] == 'self.' + fl]
                                product(res, label, 'self.' + fl, v, expected(kind, typ, ('f', 'self.' + fl)), f)
                    elif not roots or generic:
                        stores = [x[2] for x in fx if x[0] == 'store' and x[1] == 'self']
                        if any(x[0] == 'store' and x[1] == '?' for x in fx):
                            continue
                        nprod += 1
                        product(res, label, 'value', stores, expected(kind, typ, ('value', 'self')), f)
    res.count('methods_walked', ncls, 18)
    res.count('member_obligations', nreach, 9)
    res.count('products_checked', nprod, 8)


def reached(fx, r):
    return [] if ('broke', r) in fx else [x for x in fx if x[0] == 'reach' and x[1] in (r, '?')]


def field(c, fl):
    for k in c.mro():
        m = k.methods.get('__init__')
        if m is not None and any(isinstance(x, ast.Attribute) and x.attr == fl and isinstance(x.ctx, ast.Store) for x in ast.walk(m.node)):
            return True
    return False


def product(res, label, what, vals, want, f):
    if not vals:
        res.add('C16.product', '%s %s' % (label, what), f.loc(), '%s leaves %s untransformed on some path' % (label, what))
    elif vals[-1] is None:
        return
    elif vals[-1] != want:
        res.add('C16.product', '%s %s' % (label, what), f.loc(), '%s makes %s %s, not %s' % (label, what, show(vals[-1]), show(want)))


def arguments(hit, f, name, c, given):
    """the members get the same request"""
    for x in hit:
        if x[1] == '?':
            return None
    ok = {name}
    want = None
    pov = any(k.name == '_BasePOVM' or k.name == 'POVM' for k in c.mro())
    for x in hit:
        if name in ('transform', 'spam_transform') and x[2] in ('transform', 'spam_transform'):
            if ('S',) not in x[3]:
                want = 'another gauge element'
            typ = [y for y in x[3] if y and y[0] == 'const']
            if pov and typ and typ[0][1] != 'effect':
                want = 'the transformation of a preparation'
            if given and (not typ or typ[0][1] != given):
                want = 'a request of another kind'
            if pov and x[2] == 'transform' and x[1] != 'self' and not typ:
                want = 'a request of another kind'
        elif x[2] not in ok:
            want = 'another request (%s)' % x[2]
        else:
            ps = [a.arg for a in f.node.args.args][1:]
            args = [y for y in x[3]]
            for y in args:
                if y and y[0] == 'const' and y[1] is not None:
                    want = 'a constant'
            if len(ps) == 1 and args and args[0] is not None and args[0] != ('arg', ps[0]):
                want = 'something else than its argument'
    return want


def check_models(ix, res):
    n = 0
    for c in ix.classes:
        g = c.methods.get('_iter_parameterized_objs')
        f = c.lookup('transform')
        if g is None or f is None:
            continue
        cont = sorted(set('self.' + x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and
                          x.value.id == g.selfname and x.attr not in ('items',)))
        cname = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
        w = walk(ix, c, f, cont)
        for r in cont:
            n += 1
            for st, _ in w.ends:
                fx = st.env.get('$fx', ())
                hit = reached(fx, r)
                if not hit:
                    res.add('C16.model', '%s.transform %s' % (cname, r), f.loc(), '%s.transform leaves the members in %s as they are' % (cname, r))
                    break
                for x in hit:
                    if x[1] == '?':
                        continue
                    cs = [y[1] for y in x[3] if y and y[0] == 'const']
                    if x[2] != 'transform' or ('S',) not in x[3] or r == 'self.preps' and cs != ['prep']:
                        res.add('C16.model', '%s.transform %s arguments' % (cname, r), f.loc(),
                                '%s.transform does not pass its gauge element on to %s as such' % (cname, r))
        for name, need in (('depolarize', {'op_noise': ('self.operations', 'self.instruments'), 'max_op_noise': ('self.operations', 'self.instruments'),
                                           'spam_noise': ('self.preps',), 'max_spam_noise': ('self.preps', 'self.povms')}),
                           ('rotate', {'rotate': ('self.operations', 'self.instruments'),
                                       'max_rotate': ('self.operations', 'self.instruments')})):
            f = c.lookup(name)
            if f is None:
                continue
            ps = [a.arg for a in f.node.args.args]
            for p, rs in sorted(need.items()):
                if p not in ps:
                    continue
                rest = dict((q, None) for q in ps[1:] if q != p)
                w = walk(ix, c, f, cont, **rest)
                ends = [st for st, _ in w.ends if st.facts.get(('none', p)) is False]
                for r in rs:
                    n += 1
                    for st in ends:
                        if not any(x[2] in (name, '?') for x in reached(st.env.get('$fx', ()), r)):
                            res.add('C16.model', '%s.%s(%s) %s' % (cname, name, p, r), f.loc(),
                                    '%s.%s(%s=...) leaves the members in %s as they are' % (cname, name, p, r))
                            break
    res.count('model_obligations', n, 12)


def check_inverse(ix, res):
    n = 0
    for c in ix.classes:
        a, b = c.lookup('get_transform_matrix'), c.lookup('get_transform_matrix_inverse')
        if a is None or b is None or not ('get_transform_matrix' in c.methods or 'get_transform_matrix_inverse' in c.methods):
            continue
        ra = [x.value for x in ast.walk(a.node) if isinstance(x, ast.Return) and x.value is not None]
        if len(ra) != 1 or isinstance(ra[0], ast.Constant):
            continue
        src = ast.unparse(ra[0])
        cname = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
        invs = [x for x in ast.walk(b.node) if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('inv', 'pinv')]
        rb = [x.value for x in ast.walk(b.node) if isinstance(x, ast.Return) and x.value is not None]
        n += 1
        calls = [x for x in ast.walk(b.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                 isinstance(x.func.value, ast.Name) and x.func.value.id == b.selfname and x.func.attr != 'get_transform_matrix']
        if not invs and not calls:
            if not (rb and all(ast.unparse(r) == src for r in rb) and identity(c, src)):
                res.add('C16.inverse', cname, b.loc(), '%s: the inverse matrix is not computed from the matrix' % cname)
        for x in invs:
            arg = x.args[0] if x.args else None
            t = ast.unparse(arg) if arg is not None else ''
            for y in ast.walk(b.node):
                if isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name) and y.targets[0].id == t:
                    t = ast.unparse(y.value)
            if t not in (src, 'self.get_transform_matrix()'):
                res.add('C16.inverse', cname, b.loc(x), '%s: the inverse is that of %s, not of %s' % (cname, t, src))
    res.count('inverses', n, 3)


def identity(c, src):
    m = c.lookup('__init__')
    for x in ast.walk(m.node) if m else ():
        if isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == src and isinstance(x.value, ast.Call) and \
                (dotted(x.value.func) or '').split('.')[-1] in ('identity', 'eye'):
            return True
    return False


def check(repo, tier='quick'):
    ix = Index(repo)
    res = Result()
    check_classes(ix, res)
    check_models(ix, res)
    check_inverse(ix, res)
    res.explanation = __doc__
    return res
