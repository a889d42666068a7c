"""C10: parameter vectors round-trip.

vector    for every parameterised class: what to_vector reads (which field or member, which part, at which position, under which
          condition) is what from_vector writes from the same positions, and num_params counts
members   every member whose parameters make up an object's vector is one of its submembers (and the other way round), and
          the walks over submembers (indices, parents, reference counts) leave none out
model     every container of members of a model is walked by _iter_parameterized_objs, is passed on to its simulators, and
          what a simulator holds is brought up to date by its from_vector
"""
import ast
import re
from ..index import Index, dotted
from ..report import Result

STRIP = {'copy', 'flatten', 'ravel', 'reshape', 'view', 'squeeze', 'astype'}
NPID = {'array', 'asarray', 'ascontiguousarray', 'reshape', 'ravel', 'copy', 'require', 'atleast_1d', 'real_if_close', 'squeeze'}


def txt(e):
    return ast.unparse(e)


WALKS = ('relink_parent', 'unlink_parent', 'clear_gpindices', 'set_gpindices', 'allocate_gpindices', '_obj_refcount')
TRACKED = ('from_vector', 'num_params', 'submembers', 'deriv_wrt_params', 'has_nonzero_hessian') + WALKS


class Gone(Exception):
    pass


class Sym(object):
    """a value: kind, data"""
    __slots__ = ('k', 'd')

    def __init__(self, k, *d):
        self.k = k
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.k, self.d))

    def __repr__(self):
        return str(self)

    def __str__(self):
        k, d = self.k, self.d
        if k == 'path':
            return d[0]
        if k == 'elem':
            return 'each of %s' % (d[0],)
        if k == 'key':
            return 'key in %s' % (d[0],)
        if k == 'V':
            return 'v'
        if k == 'take':
            return '%s[%s]' % (d[0], d[1])
        if k == 'idx':
            return '%s.gpindices' % (d[0],)
        if k == 'rel':
            return 'relative(%s.gpindices)' % (d[0],)
        if k == 'vec':
            return '%s.to_vector()' % (d[0],)
        if k == 'slice':
            return '%s[%s:%s]' % (d[0], d[1], d[2])
        if k == 'rows':
            return '%s[%s:%s, :]' % (d[0], d[1], d[2])
        return '%s(%s)' % (k, ', '.join(str(x) for x in d))


def flat(b):
    return Sym('flat', b) if b.k == 'path' and b.d[0].split('.')[-1] in ('base', '_base', 'mx') else b


def has_v(s):
    if not isinstance(s, Sym):
        return False
    if s.k == 'V':
        return True
    return any(has_v(x) or (isinstance(x, tuple) and any(has_v(y) for y in x)) for x in s.d)


class Walk(object):
    """symbolic walk through to_vector / from_vector / submembers of one class"""

    def __init__(self, ix, cls, mode):
        self.ix = ix
        self.cls = cls
        self.mode = mode
        self.sinks = []          # from: (target kind, target, value, conds, node)
        self.rets = []           # (value, conds, node)
        self.stores = []         # to: (local, index, value, conds)
        self.raises = False
        self.cuts = []
        self.calls = []          # member calls: (name, object, conds, node)
        self.depth = 0
        self.early = False

    def run(self, f):
        ps = [a.arg for a in f.node.args.args]
        env = {}
        if ps:
            env[ps[0]] = Sym('path', 'self')
        if self.mode == 'from' and len(ps) > 1:
            env[ps[1]] = Sym('V')
        self.f = f
        self.block(f.node.body, env, (), [])
        return self

    # ------------------------------------------------ expressions
    def ev(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id) or Sym('text', e.id)
        if isinstance(e, ast.Constant):
            return Sym('const', e.value)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if e.attr in ('gpindices', '_gpindices'):
                return Sym('idx', b)
            if e.attr in ('real', 'imag'):
                return Sym(e.attr, b)
            if e.attr == 'T':
                return Sym('T', b)
            if e.attr == 'flat':
                return flat(b)
            if b.k == 'path':
                p = b.d[0] + '.' + e.attr
                if b.d[0] == 'self':
                    g = self.cls.lookup(e.attr)
                    if g is not None and g.is_property:
                        r = self.inline(g, [b], {})
                        if r is not None and r.k in ('path', 'elem'):
                            return r
                return Sym('path', p)
            return Sym('attr', b, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            i = e.slice
            if isinstance(i, ast.Tuple) and all(isinstance(x, ast.Slice) for x in i.elts):
                if all(x.lower is None and x.upper is None for x in i.elts):
                    return b
                if all(x.lower is None and x.upper is None for x in i.elts[1:]) and i.elts[0].step is None:
                    return Sym('rows', b, self.bound(i.elts[0].lower, env, '0'), self.bound(i.elts[0].upper, env, 'end'))
                return Sym('part', b, txt(i))
            if isinstance(i, ast.Slice):
                if i.lower is None and i.upper is None and i.step is None:
                    return b
                if i.step is not None:
                    return Sym('part', b, txt(i))
                lo, hi = self.bound(i.lower, env, '0'), self.bound(i.upper, env, 'end')
                if b.k == 'path' and b.d[0].split('.')[-1] in ('base', '_base', 'mx'):
                    return Sym('rows', b, lo, hi)
                return Sym('slice', b.d[0] if b.k == 'flat' else b, lo, hi)
            j = self.ev(i, env)
            if j.k == 'index' and j.d[0] == b:
                return Sym('elem', b)
            if j.k == 'key' and j.d[0] == b:
                return Sym('elem', b)
            return Sym('take', b, j)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add):
                for x, y in ((a, b), (b, a)):
                    if y.k == 'imagpart':
                        return Sym('complex', x, y.d[0])
            if isinstance(e.op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if x.k == 'const' and x.d[0] == 1j:
                        return Sym('imagpart', y)
            return Sym('op', type(e.op).__name__, a, b)
        if isinstance(e, (ast.Tuple, ast.List)):
            return Sym('seq', tuple(self.ev(x, env) for x in e.elts))
        if isinstance(e, ast.IfExp):
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if a == b else Sym('if', self.cond(e.test, env, True), a, b)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            out = []
            for bind in self.iterate(g.target, g.iter, env):
                en = dict(env)
                en.update(bind[0])
                conds = bind[1] + tuple(self.cond(c, en, True) for c in g.ifs)
                out.append(Sym('map', self.ev(e.elt, en), bind[2], conds))
            return out[0] if len(out) == 1 else Sym('chain', tuple(out))
        if isinstance(e, ast.UnaryOp):
            return Sym('un', type(e.op).__name__, self.ev(e.operand, env))
        # anything else: its text with the known names put in
        vals = [self.ev(x, env) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        return Sym('expr', re.sub(r'\s+', ' ', txt(e)), tuple(vals))

    def bound(self, e, env, default):
        if e is None:
            return default
        return self.num(e, env)

    def num(self, e, env):
        """text of an index bound over self.dim (locals replaced by what they stand for)"""
        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                v = env.get(n.id)
                if v is not None and v.k == 'numtext':
                    return ast.parse('(%s)' % v.d[0], mode='eval').body
                return n
        import copy
        t = txt(R().visit(copy.deepcopy(e)))
        return t

    def call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kws = dict((k.arg, self.ev(k.value, env)) for k in e.keywords if k.arg)
        fn = e.func
        if isinstance(fn, ast.Attribute):
            n = fn.attr
            base = dotted(fn.value)
            r = self.ix.resolve_expr(fn.value, self.f.module, self.f) if base and base.split('.')[0] not in env else None
            if isinstance(r, tuple) and r[0] == 'ext' and r[1].split('.')[0] in ('numpy', 'scipy'):
                if n in NPID and args:
                    if len(args) > 1 and n in ('ravel', 'reshape') and isinstance(e.args[-1], ast.Constant) and e.args[-1].value == 'F' \
                            or 'order' in kws and kws['order'].d[:1] != ('C',):
                        return Sym('order', args[0])
                    return flat(args[0]) if n == 'ravel' else args[0]
                if n in ('concatenate', 'hstack', 'r_', 'append'):
                    x = args[0] if n != 'append' else Sym('seq', tuple(args))
                    return Sym('concat', x)
                if n in ('empty', 'zeros', 'ones', 'full'):
                    return Sym('fresh', n, self.num(e.args[0], env) if e.args else '')
                if n == 'real':
                    return Sym('real', args[0])
                if n == 'imag':
                    return Sym('imag', args[0])
                return Sym('call', n, tuple(args))
            if r is not None and isinstance(r, tuple):
                if n == 'chain':
                    return Sym('chain', tuple(args))
                return Sym('call', n, tuple(args))
            if hasattr(r, 'node'):      # a module or class of the package
                g = self.ix.resolve_expr(fn, self.f.module, self.f)
            else:
                g = None
            if n == '_decompose_gpindices' and len(args) == 2:
                return Sym('rel', args[1].d[0]) if args[1].k == 'idx' else Sym('rel', args[1])
            if args and args[0] == Sym('path', 'self') and (hasattr(r, 'methods') or (g is not None and getattr(g, 'cls', None))):
                g = r.lookup(n) if hasattr(r, 'methods') else g       # Class.method(self, v, ...)
                if g is not None and hasattr(g, 'node') and self.depth < 6:
                    x = self.inline(g, args, kws)
                    if x is not None:
                        return x
            obj = self.ev(fn.value, env)
            if n == 'to_vector' and not args:
                return Sym('vec', obj)
            if n in TRACKED and obj != Sym('path', 'self'):
                self.calls.append((n, obj, self.conds, e))
                if n == 'from_vector' and args:
                    self.sinks.append(('member', obj, args[0], self.conds, e))
                if n == 'from_vector' and base in ('super',):
                    raise Gone()
                return Sym(n, obj)
            if n in STRIP:
                if n in ('flatten', 'ravel', 'reshape', 'copy') and any(isinstance(a, ast.Constant) and a.value == 'F' for a in e.args) \
                        or 'order' in kws and kws['order'].d[:1] != ('C',):
                    return Sym('order', obj)
                return flat(obj) if n in ('flatten', 'ravel') or n == 'reshape' and txt(e).endswith('(-1)') else obj
            if n in ('items', 'values', 'keys') and not args:
                return Sym(n, obj)
            if obj == Sym('path', 'self'):
                g = self.cls.lookup(n)
                if g is not None and n not in ('from_vector', 'to_vector', 'submembers', 'num_params') and \
                        (any(has_v(a) for a in args) or n.startswith('_') or self.mode == 'to'):
                    r = self.inline(g, [obj] + args, kws)
                    if r is not None:
                        return r
                if n in ('num_params', 'submembers', 'gpindices_as_array'):
                    return Sym(n, obj)
                if n == 'from_vector' and args and self.mode == 'from':
                    raise Gone()
            if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super' and self.f.cls is not None:
                g = self.cls.lookup_after(self.f.cls, n)
                if g is not None:
                    r = self.inline(g, [Sym('path', 'self')] + args, kws)
                    if r is not None:
                        return r
            return Sym('meth', n, obj, tuple(args))
        d = dotted(fn) or txt(fn)
        if d in ('enumerate', 'zip', 'reversed', 'list', 'tuple', 'sorted', 'range', 'len', 'sum', 'any', 'all', 'iter', 'map'):
            return Sym(d, *args)
        if d.endswith('_decompose_gpindices') and len(args) == 2:
            return Sym('rel', args[1].d[0]) if args[1].k == 'idx' else Sym('rel', args[1])
        if d.endswith('chain'):
            return Sym('chain', tuple(args))
        if True:
            g = self.ix.resolve_expr(fn, self.f.module, self.f)
            if hasattr(g, 'params') and g.cls is None:
                r = self.inline(g, args, kws)
                if r is not None:
                    return r
        return Sym('call', d, tuple(args))

    def inline(self, g, args, kws):
        if self.depth > 5 or getattr(g, 'vararg', None):
            return None
        ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        if g.is_static:
            args = args[1:]
        env = dict(zip(ps, args))
        for k, v in kws.items():
            env[k] = v
        sf, sd, sr = self.f, self.depth, self.rets
        self.f, self.depth, self.rets = g, self.depth + 1, []
        try:
            self.block(g.node.body, env, self.conds, [])
            rets = self.rets
        finally:
            self.f, self.depth, self.rets = sf, sd, sr
        if len(rets) == 1:
            return rets[0][0]
        if not rets:
            return Sym('const', None)
        vals = [r[0] for r in rets]
        if all(v == vals[0] for v in vals):
            return vals[0]
        out = vals[-1]
        for v, c, _ in reversed(rets[:-1]):
            out = Sym('if', c[-1] if c else '', v, out)
        return out

    conds = ()

    def cond(self, e, env, truth):
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e = e.operand
            truth = not truth
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = str(self.ev(e.left, env)), str(self.ev(e.comparators[0], env))
            op = type(e.ops[0]).__name__
            neg = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In', 'GtE': 'Lt', 'LtE': 'Gt'}
            if op in neg:
                op = neg[op]
                truth = not truth
            if op in ('Eq', 'Is') and a > b:
                a, b = b, a
            if op == 'Gt':
                pass
            t = '%s %s %s' % (a, op, b)
        else:
            t = str(self.ev(e, env))
        return ('' if truth else 'not ') + t

    # ------------------------------------------------ loops
    def iterate(self, target, it, env):
        """-> [(bindings, conds, container)]"""
        s = it if isinstance(it, Sym) else self.ev(it, env)
        return self.iterate_sym(target, s)

    def iterate_sym(self, target, s):
        if s.k in ('list', 'tuple', 'reversed', 'sorted', 'iter') and len(s.d) == 1:
            return self.iterate_sym(target, s.d[0])
        if s.k == 'chain':
            out = []
            for x in s.d[0]:
                out += self.iterate_sym(target, x)
            return out
        if s.k == 'seq':
            out = []
            for x in s.d[0]:
                b = self.bindt(target, x)
                out.append((b, (), x))
            return out
        if s.k == 'items':
            x = s.d[0]
            if isinstance(target, ast.Tuple) and len(target.elts) == 2:
                b = self.bindt(target.elts[0], Sym('key', x))
                b.update(self.bindt(target.elts[1], Sym('elem', x)))
                return [(b, (), x)]
        if s.k == 'values':
            return [(self.bindt(target, Sym('elem', s.d[0])), (), s.d[0])]
        if s.k == 'keys':
            return [(self.bindt(target, Sym('key', s.d[0])), (), s.d[0])]
        if s.k == 'enumerate' and s.d and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            out = []
            for b, c, x in self.iterate_sym(target.elts[1], s.d[0]):
                b.update(self.bindt(target.elts[0], Sym('index', x)))
                out.append((b, c, x))
            return out
        if s.k == 'range' and len(s.d) == 1 and s.d[0].k == 'len':
            x = s.d[0].d[0]
            return [(self.bindt(target, Sym('index', x)), (), x)]
        if s.k == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(s.d):
            b, first = {}, None
            for t, x in zip(target.elts, s.d):
                r = self.iterate_sym(t, x)
                b.update(r[0][0])
                first = first or r[0][2]
            return [(b, (), first)]
        if s.k == 'map' and len(s.d) == 3:
            b = self.bindt(target, s.d[0])
            return [(b, s.d[2], s.d[1])]
        if isinstance(target, ast.Tuple):
            b = {}
            for i, t in enumerate(target.elts):
                b.update(self.bindt(t, Sym('elem%d' % i, s)))
            return [(b, (), s)]
        return [(self.bindt(target, Sym('elem', s)), (), s)]

    def bindt(self, t, v):
        if isinstance(t, ast.Name):
            return {t.id: v}
        if isinstance(t, ast.Tuple):
            b = {}
            for i, x in enumerate(t.elts):
                b.update(self.bindt(x, v.d[0][i] if v.k == 'seq' and i < len(v.d[0]) else Sym('item%d' % i, v)))
            return b
        return {}

    # ------------------------------------------------ statements
    def block(self, body, env, conds, loop):
        """runs the statements; returns (conditions that hold afterwards, whether the end is reached)"""
        for st in body:
            self.conds = conds
            if isinstance(st, ast.If):
                c = self.cond(st.test, env, True)
                nc = c[4:] if c.startswith('not ') else 'not ' + c
                e1, e2 = dict(env), dict(env)
                c1, a1 = self.block(st.body, e1, conds + (c,), loop)
                c2, a2 = self.block(st.orelse, e2, conds + (nc,), loop)
                if a1 and a2:
                    for k in set(e1) | set(e2):
                        if e1.get(k) == e2.get(k):
                            env[k] = e1.get(k)
                        elif k in e1 and k in e2 and e1[k] is not None and e2[k] is not None:
                            env[k] = Sym('if', c, e1[k], e2[k])
                        else:
                            env[k] = e1.get(k) or e2.get(k)
                elif a1:
                    env.clear()
                    env.update(e1)
                    conds = c1
                elif a2:
                    env.clear()
                    env.update(e2)
                    conds = c2
                else:
                    return conds, False
            elif isinstance(st, ast.For):
                for b, cs, x in self.iterate(st.target, st.iter, env):
                    env.update(b)
                    before = len(self.sinks), len(self.stores), len(self.calls)
                    cut = []
                    self.block(st.body, env, conds + cs, cut)
                    self.early = self.early or bool(cut)
                    for c in cut:
                        for lst, k in zip((self.sinks, self.stores, self.calls), before):
                            for i in range(k, len(lst)):
                                r = list(lst[i])
                                r[-2] = r[-2] + ('only until ' + ' and '.join(c),)
                                lst[i] = tuple(r)
                self.block(st.orelse, env, conds, loop)
            elif isinstance(st, ast.While):
                self.block(st.body, env, conds + ('while',), loop)
            elif isinstance(st, (ast.With,)):
                conds, alive = self.block(st.body, env, conds, loop)
                if not alive:
                    return conds, False
            elif isinstance(st, ast.Try):
                conds, alive = self.block(st.body, env, conds, loop)
                self.block(st.finalbody, env, conds, loop)
                if not alive:
                    return conds, False
            elif isinstance(st, ast.Return):
                v = self.ev(st.value, env) if st.value is not None else Sym('const', None)
                self.rets.append((v, conds, st))
                if loop is not None and getattr(self, '_inloop', None):
                    loop.append(conds)
                loop.append(conds)
                return conds, False
            elif isinstance(st, ast.Raise):
                self.raises = True
                return conds, False
            elif isinstance(st, ast.Continue):
                return conds, False
            elif isinstance(st, ast.Break):
                loop.append(conds)
                return conds, False
            elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if st.value is None:
                    continue
                v = self.ev(st.value, env)
                if isinstance(st, ast.AugAssign):
                    old = self.ev(st.target, env)
                    v = Sym('op', type(st.op).__name__, old, v)
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    self.assign(t, v, env, conds, st)
            elif isinstance(st, ast.Expr):
                if isinstance(st.value, ast.Yield) and st.value.value is not None:
                    self.rets.append((Sym('yield', self.ev(st.value.value, env)), conds, st))
                else:
                    self.ev(st.value, env)
        return conds, True

    def assign(self, t, v, env, conds, st):
        if isinstance(t, ast.Name):
            if v.k in ('op', 'const', 'path', 'expr', 'num_params', 'len') and not has_v(v):
                try:
                    env[t.id] = Sym('numtext', self.num(st.value, env)) if isinstance(st, ast.Assign) and isinstance(
                        st.value, (ast.BinOp,)) else v
                except Exception:
                    env[t.id] = v
            else:
                env[t.id] = v
        elif isinstance(t, ast.Tuple):
            if v.k == 'seq' and len(v.d[0]) == len(t.elts):
                for x, y in zip(t.elts, v.d[0]):
                    self.assign(x, y, env, conds, st)
            else:
                env.update(self.bindt(t, v))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if b.k == 'path':
                if has_v(v):
                    self.sinks.append(('field', Sym('path', b.d[0] + '.' + t.attr), v, conds, st))
        elif isinstance(t, ast.Subscript):
            tgt = unflat(self.ev(t, env))
            root = tgt
            while root.k in ('slice', 'rows', 'take', 'part', 'real', 'imag'):
                root = root.d[0]
            if root.k == 'fresh' or self.mode == 'to':
                b = t.value.id if isinstance(t.value, ast.Name) else txt(t.value)
                if not isinstance(t.slice, ast.Slice):
                    idx = self.ev(t.slice, env)
                else:
                    idx = Sym('at', self.bound(t.slice.lower, env, '0'), self.bound(t.slice.upper, env, 'end'))
                self.stores.append((b, idx, v, conds, st))
                return
            if has_v(v):
                self.sinks.append(('field', tgt, v, conds, st))
            elif tgt.k in ('slice', 'rows', 'take', 'part') and root.k == 'path':
                self.sinks.append(('const', tgt, v, conds, st))


# ---------------------------------------------------------------- regions
# has a member outside the model's index space (its parameters are simply its own)
OWN = ('objects.spamvec.PureStateSPAMVec',)
# owners that answer to_vector with a remembered vector: their members must be given their parts nevertheless
REMEMBERED = ('objects.instrument.Instrument', 'objects.model.OpModel', 'objects.forwardsim.ForwardSimulator')


def num_at(t, dim, size):
    t = re.sub(r'self\.dim\b|self\.dmDim\s*\*\*\s*2', str(dim), t)
    t = re.sub(r'self\.size\b|self\.base\.size\b', str(size), t)
    if not re.match(r'^[-+*/0-9 ()]+$', t):
        return None
    try:
        return eval(t, {'__builtins__': {}})       # plain integer arithmetic, as the pattern above ensures
    except Exception:
        return None


SHAPE = {'two': True}


def region(s, dim):
    """flat index range of (part of) a field -> (path, start, stop) at this dimension"""
    if s.k == 'path':
        if s.d[0].split('.')[-1] in ('base', '_base', 'mx'):
            return s.d[0], 0, dim * dim if SHAPE['two'] else dim
        return s.d[0], 0, None
    if s.k in ('slice', 'rows'):
        r = region(s.d[0], dim)
        if r is None or r[1] != 0:
            return None
        p, _, n = r
        unit = dim if s.k == 'rows' and SHAPE['two'] else 1
        size = dim * dim if n is None else n
        a = num_at(s.d[1], dim, size)
        if a is None:
            return None
        if a < 0:
            if n is None:
                return None
            a = a * unit + n
        else:
            a = a * unit
        if s.d[2] == 'end':
            b = n
        else:
            b = num_at(s.d[2], dim, size)
            if b is None:
                return None
            b = b * unit
            if b < 0:
                if n is None:
                    return None
                b += n
            if n is not None:
                b = min(b, n)
        return p, a, b
    return None


def relevant(conds, ev=('self._evotype',)):
    return frozenset(c for c in conds if not c.startswith('only until'))


def sources(w):
    """what a to_vector walk reads -> list of (kind, object, position, conds) or None when it cannot be told"""
    out = []
    for v, conds, st in w.rets:
        r = source(w, v, conds)
        if r is None:
            return None
        out += r
    return out


def unflat(v):
    if isinstance(v, Sym):
        if v.k == 'flat':
            return v.d[0]
        return Sym(v.k, *[unflat(x) for x in v.d])
    if isinstance(v, tuple):
        return tuple(unflat(x) for x in v)
    return v


def source(w, v, conds):
    v = unflat(v)
    if v.k == 'if':
        c = v.d[0]
        nc = c[4:] if c.startswith('not ') else 'not ' + c
        a, b = source(w, v.d[1], conds + (c,)), source(w, v.d[2], conds + (nc,))
        return None if a is None or b is None else a + b
    if v.k == 'vec':
        return [('member', v.d[0], 'whole', conds)]
    if v.k == 'path' or v.k in ('slice', 'rows'):
        r = v
        while r.k in ('slice', 'rows'):
            r = r.d[0]
        return [('field', v, 'whole', conds)] if r.k == 'path' else None
    if v.k in ('order', 'T'):
        r = source(w, v.d[0], conds)
        return None if r is None else [(a, b, v.k + ' ' + c, d) for a, b, c, d in r]
    if v.k == 'fresh':
        if not w.stores:
            if v.d[1] in ('0', '(0,)'):
                return []
            return None
        out = []
        for b, idx, x, cs, st in w.stores:
            if x.k != 'vec':
                return None
            out.append(('member', x.d[0], str(idx), cs))
        return out
    if v.k == 'seq' and not v.d[0]:
        return []
    if v.k == 'concat':
        x = v.d[0]
        if x.k == 'map' and x.d[0].k == 'vec':
            return [('member', x.d[0].d[0], 'in turn', conds + x.d[2])]
        if x.k == 'seq' and len(x.d[0]) == 2 and x.d[0][0].k == 'real' and x.d[0][1].k == 'imag' \
                and x.d[0][0].d[0] == x.d[0][1].d[0]:
            return [('field', x.d[0][0].d[0], 'real and imaginary', conds)]
        if x.k == 'seq' and len(x.d[0]) == 2 and x.d[0][0].k == 'imag' and x.d[0][1].k == 'real':
            return [('field', x.d[0][0].d[0], 'imaginary and real', conds)]
        if x.k == 'seq' and all(y.k == 'vec' for y in x.d[0]):
            return [('member', y.d[0], 'in turn', conds) for y in x.d[0]]
    return None


def position(v):
    """how much of the vector a value is -> description"""
    if v.k == 'V':
        return 'whole'
    if v.k in ('order', 'T'):
        p = position(v.d[0])
        return None if p is None else v.k + ' ' + p
    if v.k == 'take' and v.d[0].k == 'V':
        return str(v.d[1]) if v.d[1].k in ('idx', 'rel') else None
    if v.k == 'slice' and v.d[0].k == 'V':
        return 'at(%s, %s)' % (v.d[1], v.d[2])
    if v.k == 'complex':
        a, b = v.d
        if a.k == 'slice' and b.k == 'slice' and a.d[0].k == 'V' and b.d[0].k == 'V':
            if a.d[1] == '0' and b.d[2] == 'end' and a.d[2] == b.d[1]:
                return 'real and imaginary'
            if b.d[1] == '0' and a.d[2] == 'end' and b.d[2] == a.d[1]:
                return 'imaginary and real'
            return 'mixed parts'
        if a.k == 'take' or b.k == 'take' or a.k == 'V' or b.k == 'V':
            return 'mixed parts'
    return None


def sinks(w):
    out = []
    for kind, tgt, v, conds, st in w.sinks:
        if kind == 'const':
            continue
        p = position(v)
        out.append((kind, tgt, p, conds, st))
    return out


def same_region(a, b):
    """True / False / None (cannot tell)"""
    if a == b:
        return True
    for dim in (4, 16):
        ra, rb = region(a, dim), region(b, dim)
        if ra is None or rb is None:
            return None
        if ra[0] != rb[0]:
            return False
        if ra[1:] != rb[1:]:
            return False
    return True


def root_of(s):
    while s.k in ('slice', 'rows', 'take', 'part', 'elem', 'real', 'imag') and isinstance(s.d[0], Sym):
        s = s.d[0]
    return s


def same_pos(a, b, obj):
    if a == b:
        return True
    rel = ('%s.gpindices' % obj, 'relative(%s.gpindices)' % obj)
    if a == 'in turn' and b in rel:
        return True
    if a in rel and b in rel:
        return False
    return False


def compare(to, fr):
    """the parts read and written do not fit -> list of messages"""
    bad = []
    sk = sinks(fr)
    used = set()
    for kind, obj, pos, conds in to:
        hits = [(i, x) for i, x in enumerate(sk) if x[0] == kind and
                (x[1] == obj if kind == 'member' else root_of(x[1]) == root_of(obj))]
        if not hits:
            other = [x for x in sk if x[2] is None]
            if other and kind == 'field':
                continue
            bad.append('%s, which to_vector reads, is not set by from_vector' % obj)
            continue
        ok = False
        why = None
        for i, x in hits:
            if x[2] is None:
                ok = True
                used.add(i)
                continue
            if kind == 'field':
                r = same_region(obj, x[1])
                if r is False:
                    why = 'to_vector reads %s but from_vector writes %s' % (obj, x[1])
                    continue
            if not same_pos(pos, x[2], obj):
                why = 'to_vector puts %s at %s but from_vector takes it from %s' % (obj, pos, x[2])
                if any(relevant(x[3]) - relevant(conds)):
                    why = why or None
                continue
            cut = [c for c in x[3] if c.startswith('only until')]
            if cut:
                why = 'from_vector stops before it has set all of %s (%s)' % (obj, cut[0])
                continue
            cut = [c for c in conds if c.startswith('only until')]
            if cut:
                why = 'to_vector stops before it has read all of %s (%s)' % (obj, cut[0])
                continue
            a, b = relevant(conds), relevant(x[3])
            if a != b and b - a:
                why = 'from_vector sets %s only if %s' % (obj, ' and '.join(sorted(b - a)))
                continue
            if a - b and any('each of' in c or 'key in' in c for c in a - b):
                why = 'to_vector reads %s only if %s, from_vector sets it regardless' % (obj, ' and '.join(sorted(a - b)))
                continue
            ok = True
            used.add(i)
        if not ok:
            bad.append(why or 'from_vector does not set %s' % obj)
    remembered = any(x[0] == 'field' and x[2] == 'whole' and any(k == 'field' and o == x[1] for k, o, _, _ in to) for x in sk)
    for i, x in enumerate(sk):
        if i in used or x[2] is None:
            continue
        if x[0] == 'member' and remembered:
            if x[2] != 'whole' and x[2] not in ('%s.gpindices' % x[1], 'relative(%s.gpindices)' % x[1]):
                bad.append('from_vector gives %s the values at %s' % (x[1], x[2]))
            continue
        if x[0] == 'member' and not any(k == 'member' and o == x[1] for k, o, _, _ in to):
            bad.append('from_vector sets %s, which to_vector does not read' % x[1])
        elif x[0] == 'field' and not any(k == 'field' and root_of(o) == root_of(x[1]) for k, o, _, _ in to):
            # a remembered copy of the whole vector is fine
            if x[2] != 'whole':
                bad.append('from_vector sets %s from part of the vector, which to_vector does not read' % x[1])
    return bad


def counts(w, to):
    """num_params against the parts to_vector reads -> message"""
    vals = []

    def leaves(v, conds):
        if v.k == 'if':
            c = v.d[0]
            leaves(v.d[1], conds + (c,))
            leaves(v.d[2], conds + ((c[4:] if c.startswith('not ') else 'not ' + c),))
        else:
            vals.append((v, conds))
    for v, conds, st in w.rets:
        leaves(v, conds)
    for v, conds in vals:
        if any(c.startswith('not ') and c[4:] in conds for c in conds):
            continue
        match = [t for t in to if not any((c[4:] if c.startswith('not ') else 'not ' + c) in conds for c in t[3])]
        if not match:
            continue
        if v.k == 'num_params' and v.d[0] != Sym('path', 'self'):
            if not any(t[0] == 'member' and t[1] == v.d[0] for t in match):
                return 'num_params is that of %s, to_vector is that of %s' % (v.d[0], match[0][1])
        elif v.k == 'len' and v.d and v.d[0].k == 'path' or v.k == 'path' and v.d[0].endswith('.size') and v.d[0].count('.') == 2:
            f = v.d[0].d[0] if v.k == 'len' else v.d[0][:-5]
            if len(match) == 1 and match[0][0] == 'field' and match[0][1].k == 'path' and match[0][1].d[0] != f \
                    and match[0][1].d[0].split('.')[-1] != f.split('.')[-1]:
                return 'num_params counts %s, to_vector is %s' % (f, match[0][1])
            if len(match) == 1 and match[0][0] == 'member':
                return 'num_params counts %s, to_vector is that of %s' % (f, match[0][1])
        elif v.k in ('op', 'const', 'path') and len(match) == 1 and match[0][0] == 'field':
            for dim in (4, 16):
                r = region(match[0][1], dim)
                if r is None or r[1] is None or r[2] is None:
                    break
                n = (r[2] - r[1]) * (2 if 'real' in match[0][2] else 1)
                two = region(root_of(match[0][1]), dim)[2]
                t = expr_text(v)
                k = num_at(t, dim, two) if t else None
                if k is None:
                    break
                if k != n:
                    return 'num_params is %s, to_vector has %d entries in dimension %d' % (t, n, dim)
    return None


def expr_text(v):
    ops = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Pow': '**', 'FloorDiv': '//'}
    if v.k == 'const':
        return repr(v.d[0])
    if v.k == 'path':
        return v.d[0]
    if v.k == 'op' and v.d[0] in ops:
        a, b = expr_text(v.d[1]), expr_text(v.d[2])
        return '(%s %s %s)' % (a, ops[v.d[0]], b) if a and b else None
    return None


def member_roots(items):
    """the containers (fields of self) the members come from"""
    out = set()
    for obj in items:
        s = obj
        while s.k in ('elem', 'elem0', 'elem1', 'item0', 'item1', 'take', 'slice', 'items', 'values') and isinstance(s.d[0], Sym):
            s = s.d[0]
        out.add(str(s))
    return out


def contained(v):
    """containers a submembers() value stands for"""
    if v.k in ('list', 'tuple', 'values') and v.d and isinstance(v.d[0], Sym):
        return contained(v.d[0])
    if v.k == 'seq':
        out = set()
        for x in v.d[0]:
            out |= contained(x)
        return out
    if v.k == 'op' and v.d[0] == 'Add':
        return contained(v.d[1]) | contained(v.d[2])
    if v.k == 'chain':
        out = set()
        for x in v.d[0]:
            out |= contained(x)
        return out
    if v.k == 'map':
        return member_roots([v.d[0]])
    if v.k == 'path':
        return {v.d[0]}
    return {str(v)}


def ignores(f):
    """the vector only has its length looked at, and is not known to be empty"""
    ps = [a.arg for a in f.node.args.args]
    if len(ps) < 2 or abstract(f) or f.cls.name in NOTHING:
        return False
    v, used, empty = ps[1], False, False
    skip = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len':
            skip |= set(id(y) for y in ast.walk(x))
        if isinstance(x, ast.Assert) or isinstance(x, ast.If):
            t = x.test
            if isinstance(t, ast.Compare) and 'len(%s)' % v in (txt(t.left), txt(t.comparators[0])) and \
                    '0' in (txt(t.left), txt(t.comparators[0])):
                empty = True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in skip:
            used = True
    return not used and not empty


# objects without parameters of their own, whose from_vector has nothing to do
NOTHING = {'ModelMember', 'GaugeGroupElement', 'SPAMVec', 'POVM', 'ComplementSPAMVec', 'ComputationalSPAMVec'}


def check_vectors(ix, res):
    n = dec = comp = np_ = 0
    seen = set()
    for c in ix.classes:
        ms = [c.lookup(x) for x in ('to_vector', 'from_vector', 'num_params', 'submembers')]
        if ms[0] is None or ms[1] is None:
            continue
        if not any(x in c.methods for x in ('to_vector', 'from_vector', 'num_params', 'submembers')):
            continue
        if isinstance(ms[0].cls, type(None)):
            continue
        key = (c.qual,)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        SHAPE['two'] = not any(x.name == 'SPAMVec' for x in c.mro())
        name = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
        if ignores(ms[1]):
            res.add('C10.vector', '%s ignores' % name, ms[1].loc(), '%s.from_vector does not use the vector it is given' % name)
        try:
            wt = Walk(ix, c, 'to').run(ms[0])
        except Gone:
            continue
        if not wt.rets and wt.raises:
            continue
        to = sources(wt)
        try:
            wf = Walk(ix, c, 'from').run(ms[1])
        except Gone:
            continue
        if to is not None and not any('while' in t[3] for t in to) and not any('while' in x[3] for x in wf.sinks):
            dec += 1
            if not (ms[1].name == 'from_vector' and not wf.sinks and abstract(ms[1])):
                for msg in compare(to, wf):
                    res.add('C10.vector', '%s %s' % (name, msg.split(',')[0][:60]), ms[1].loc(), '%s: %s' % (name, msg))
                if name in REMEMBERED:
                    good = [x for x in wf.sinks if x[0] == 'member' and not [y for y in x[3] if y.startswith('only until') or
                                                                             'each of' in y or 'key in' in y or 'elem' in y]]
                    if not good:
                        res.add('C10.vector', '%s members' % name, ms[1].loc(),
                                '%s.from_vector remembers the vector without giving every member its part' % name)
            if ms[2] is not None:
                wn = Walk(ix, c, 'num').run(ms[2])
                np_ += 1
                msg = counts(wn, to)
                if msg:
                    res.add('C10.vector', '%s.num_params' % name, ms[2].loc(), '%s: %s' % (name, msg))
        # members
        if ms[3] is not None and 'submembers' in dir(c) or ms[3] is not None:
            ws = Walk(ix, c, 'sub').run(ms[3])
            subs = set()
            for v, conds, st in ws.rets:
                subs |= contained(v)
            mine = member_roots([x[1] for x in wf.sinks if x[0] == 'member'])
            mine |= member_roots([x[1] for x in (to or []) if x[0] == 'member'])
            subs = set(s for s in subs if s.startswith('self.'))
            inner = any(x[0] == 'member' and (x[2] == 'whole' or 'relative(' in x[2]) and str(x[1]).lstrip('each of ') != 'self'
                        for x in (to or [])) and name not in OWN
            if subs or inner:
                comp += 1
                for s in sorted(subs - mine):
                    res.add('C10.members', '%s %s' % (name, s), ms[1].loc(),
                            '%s: %s are submembers, but their parameters are not part of its vector' % (name, s))
                for s in sorted(mine - subs):
                    if s.startswith('self.'):
                        res.add('C10.members', '%s %s' % (name, s), ms[3].loc(),
                                '%s: the parameters of %s are part of its vector, but they are not submembers' % (name, s))
    res.count('parameterised_classes', n, 50)
    res.count('vector_layouts_decided', dec, 40)
    res.count('parameter_counts_compared', np_, 30)
    res.count('composite_classes', comp, 8)


def whole(conds, search=False):
    """a call under these conditions is made for every member"""
    for c in conds:
        if c.startswith('only until'):
            if search:
                continue
            return False
        if ('each of' in c or 'key in' in c or 'index(' in c or 'elem' in c) and 'memo' not in c and 'call(id, ' not in c \
                and 'num_params(' not in c:
            return False
    return True


def touches(obj, root):
    t = str(obj)
    if root.startswith('self.'):
        return re.search(r'(?<![\w.])%s(?![\w\[])' % re.escape(root), t) is not None
    return re.search(r'%s(?!\[)' % re.escape(root), t) is not None


def check_walks(ix, res):
    """the methods that go through the submembers leave none out"""
    n = nd = 0
    done = set()
    for c in ix.classes:
        sm = c.lookup('submembers')
        if sm is None:
            continue
        name = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
        ws = Walk(ix, c, 'sub').run(sm)
        subs = set()
        for v, conds, st in ws.rets:
            subs |= contained(v)
        subs = set(x for x in subs if x.startswith('self.'))
        for meth in WALKS:
            g = c.lookup(meth)
            if g is None or not subs and not any('submembers' in ast.unparse(x) for x in g.node.body):
                continue
            if (g.qual, tuple(sorted(subs))) in done:
                continue
            done.add((g.qual, tuple(sorted(subs))))
            w = Walk(ix, c, 'walk').run(g)
            calls = [x for x in w.calls if x[0] == meth or x[0] in WALKS and meth == 'set_gpindices']
            n += 1
            for r in sorted(subs) or ['submembers(self)']:
                hit = [x for x in calls if touches(x[1], r) or touches(x[1], 'submembers(self)')]
                if not hit:
                    res.add('C10.members', '%s.%s %s' % (name, meth, r), g.loc(),
                            '%s.%s does not go on to the members in %s' % (name, meth, r))
                elif not any(whole(x[2]) for x in hit):
                    res.add('C10.members', '%s.%s %s' % (name, meth, r), g.loc(hit[0][3]),
                            '%s.%s leaves out members in %s: %s' % (name, meth, r, ' and '.join(hit[0][2])))
        # derivative of a composite: every member contributes, and shared parameters add up
        tv = c.lookup('to_vector')
        if tv is None:
            continue
        to = sources(Walk(ix, c, 'to').run(tv)) or []
        roots = set()
        for x in to:
            if x[0] == 'member' and x[1].k == 'elem':
                roots.add(str(x[1].d[0]))
        for meth in ('deriv_wrt_params', 'has_nonzero_hessian'):
            g = c.lookup(meth)
            if g is None or (g.qual, meth, tuple(sorted(roots))) in done:
                continue
            done.add((g.qual, meth, tuple(sorted(roots))))
            w = Walk(ix, c, 'walk').run(g)
            calls = [x for x in w.calls if x[0] == meth]
            if calls and roots:
                nd += 1
                for r in sorted(roots):
                    hit = [x for x in calls if touches(x[1], r)]
                    if not hit or not any(whole(x[2], meth == 'has_nonzero_hessian') for x in hit):
                        res.add('C10.members', '%s.%s %s' % (name, meth, r), g.loc(),
                                '%s.%s does not take every member of %s into account' % (name, meth, r))
            if meth == 'deriv_wrt_params':
                for x in ast.walk(g.node):
                    if not isinstance(x, (ast.For,)):
                        continue
                    check_adds(x, g, name, res, Walk(ix, c, 'walk'))
    res.count('walks_over_members', n, 8)
    res.count('derivatives_of_composites', nd, 4)


def check_adds(loop, g, name, res, w):
    """inside a loop over members: columns of one member are added to the matrix (members may share parameters)"""
    local = set()
    for x in ast.walk(loop):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and (
                '_decompose_gpindices' in txt(x.value) or txt(x.value).endswith('.gpindices')):
            local.add(x.targets[0].id)
    for x in ast.walk(loop):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript):
            t = x.targets[0]
            names = set(y.id for y in ast.walk(t.slice) if isinstance(y, ast.Name))
            direct = '_decompose_gpindices' in txt(t.slice) or '.gpindices' in txt(t.slice)
            if (names & local or direct) and txt(t) not in txt(x.value):
                res.add('C10.members', '%s.%s overwrites' % (name, g.name), g.loc(x),
                        '%s.%s overwrites the columns of parameters that members may share instead of adding to them'
                        % (name, g.name))


def containers(ix, c):
    """fields of the class (and its bases and subclasses) that hold members"""
    out = set()
    for k in set(c.mro()) | set(c.all_subclasses()):
        for f in k.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and (dotted(x.value.func) or '').split('.')[-1] == \
                        'OrderedMemberDict':
                    for t in x.targets:
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                            out.add(t.attr)
    return out


def check_models(ix, res):
    n = nl = 0
    for c in ix.classes:
        g = c.methods.get('_iter_parameterized_objs')
        if g is not None and not abstract(g):
            name = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
            fields = containers(ix, c)
            w = Walk(ix, c, 'to').run(g)
            for fl in sorted(fields):
                n += 1
                hit = [r for r in w.rets if ('self.' + fl) in re.findall(r'self\.\w+', str(r[0]))]
                if not hit:
                    res.add('C10.model', '%s._iter_parameterized_objs %s' % (name, fl), g.loc(),
                            '%s: the members in %s are not part of the parameter vector' % (name, fl))
                elif not any(whole(r[1]) for r in hit) or w.early:
                    res.add('C10.model', '%s._iter_parameterized_objs %s' % (name, fl), g.loc(),
                            '%s: some of the members in %s are left out of the parameter vector' % (name, fl))
            s = c.lookup('__setstate__')
            if s is not None:
                ws = Walk(ix, c, 'walk').run(s)
                for fl in sorted(fields):
                    hit = [x for x in ws.calls if x[0] == 'relink_parent' and ('self.' + fl) in re.findall(r'self\.\w+', str(x[1]))]
                    if not any(whole(x[2]) for x in hit):
                        res.add('C10.model', '%s.__setstate__ %s' % (name, fl), s.loc(),
                                '%s: a restored model does not become the parent of its members in %s' % (name, fl))
        # simulators
        if c.name.endswith('LayerLizard') and 'from_vector' in c.methods and not abstract(c.methods['from_vector']):
            fv = c.methods['from_vector']
            name = c.qual[7:] if c.qual.startswith('pygsti.') else c.qual
            used = set()
            for k in [c] + list(c.all_subclasses()):
                for m in k.methods.values():
                    if m.name.startswith('get_'):
                        for x in [y for r in ast.walk(m.node) if isinstance(r, ast.Return) for y in ast.walk(r)]:
                            if isinstance(x, ast.Subscript) and isinstance(x.value, (ast.Attribute, ast.Subscript)):
                                t = x.value
                                while isinstance(t, ast.Subscript):
                                    t = t.value
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.selfname:
                                    used.add(t.attr)
            w = Walk(ix, c, 'from').run(fv)
            for fl in sorted(used & lizard_fields(c) | {'opcache'}):
                nl += 1
                hit = [x for x in w.sinks if x[0] == 'member' and ('self.' + fl) in re.findall(r'self\.\w+', str(x[1]))]
                if not any(whole(x[3]) and position(x[2]) == '%s.gpindices' % x[1] for x in hit):
                    res.add('C10.model', '%s.from_vector %s' % (name, fl), fv.loc(),
                            '%s: objects in %s are used for simulating but not brought up to date by from_vector' % (name, fl))
    # the loops over all parameterised objects of a model
    k = 0
    for q in ('_clean_paramvec', '_rebuild_paramvec', '_obj_refcount', 'from_vector'):
        for c in ix.classes:
            f = c.methods.get(q)
            if f is None:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.For) and any(y in txt(x.iter) for y in ('_iter_parameterized_objs(', 'submembers(')):
                    k += 1
                    if any(isinstance(y, ast.Subscript) for y in ast.walk(x.iter)):
                        res.add('C10.model', '%s.%s' % (c.qual[7:], q), f.loc(x),
                                '%s.%s does not go through all members' % (c.qual[7:], q))
                    for b in ends(x):
                        res.add('C10.model', '%s.%s' % (c.qual[7:], q), f.loc(b),
                                '%s.%s stops before it has gone through all members' % (c.qual[7:], q))
    res.count('member_containers_of_models', n, 8)
    res.count('containers_of_simulators', nl, 4)
    res.count('loops_over_all_members', k, 6)


def ends(loop):
    """break / return statements that end this loop"""
    out = []

    def rec(body, inner):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.Return) or isinstance(st, ast.Break) and not inner:
                out.append(st)
            for fld in ('body', 'orelse', 'finalbody'):
                rec(getattr(st, fld, []) or [], inner or isinstance(st, (ast.For, ast.While)))
            for h in getattr(st, 'handlers', []):
                rec(h.body, inner)
    rec(loop.body, False)
    return out


def lizard_fields(c):
    out = {'opcache'}
    for k in c.mro():
        f = k.methods.get('__init__')
        if f is None:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
                out.add(x.attr)
    return out - {'model'}


def abstract(f):
    return all(isinstance(x, (ast.Expr, ast.Raise, ast.Pass)) for x in f.node.body)


def check(repo, tier='quick'):
    ix = Index(repo)
    res = Result()
    check_vectors(ix, res)
    check_walks(ix, res)
    check_models(ix, res)
    res.explanation = __doc__
    return res
