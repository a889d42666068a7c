"""Flow-insensitive provenance inside one function and the helpers it calls on self / in its module:
which object attributes and which string keys an expression is computed from."""
import ast
from .index import Func, Cls, dotted


def closure_funcs(ix, func, cls, depth=4, stop=()):
    """func plus every method of `cls` called through self and every module-level function it calls (same module)"""
    out, todo = [], [(func, 0)]
    while todo:
        f, d = todo.pop(0)
        if f in out:
            continue
        out.append(f)
        if d >= depth:
            continue
        sn = f.selfname
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            g = None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and sn and \
                    n.func.value.id == sn and cls is not None:
                g = cls.lookup(n.func.attr)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                    dotted(n.func.value.func) == 'super' and f.cls is not None and cls is not None:
                g = cls.lookup_after(f.cls, n.func.attr)
            elif isinstance(n.func, ast.Name):
                r = ix.resolve_name(n.func.id, f.module, f)
                g = r if isinstance(r, Func) and r.module is f.module else None
            if g is not None and g.name not in stop:
                todo.append((g, d + 1))
    return out


class Prov(object):
    def __init__(self, ix, func, cls, depth=4, stop=()):
        self.ix, self.cls = ix, cls
        self.funcs = closure_funcs(ix, func, cls, depth, stop)
        self.defs = {}
        for f in self.funcs:
            self.defs[f] = self._defs(f.node)

    @staticmethod
    def _defs(node):
        d = {}

        def bind(t, v):
            if isinstance(t, ast.Name):
                d.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    bind(x, v)
            elif isinstance(t, ast.Starred):
                bind(t.value, v)
            elif isinstance(t, ast.Subscript):
                b = t.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    d.setdefault(b.id, []).append(v)
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bind(n.optional_vars, n.context_expr)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'extend', 'update', 'add',
                                                                           'insert', 'setdefault'):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    d.setdefault(n.func.value.id, []).append(a)
        return d

    def mentions(self, e, f, seen=None):
        """(self attributes, constant string keys, parameter names) an expression derives from"""
        seen = seen if seen is not None else set()
        attrs, keys, params = set(), set(), set()
        sn = f.selfname
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and sn:
                m = self.cls.lookup(n.attr) if self.cls is not None else None
                if m is not None and (m.is_property or True) and m in self.funcs and (f, m) not in seen:
                    seen.add((f, m))
                    for r in ast.walk(m.node):
                        if isinstance(r, ast.Return) and r.value is not None:
                            a, k, p = self.mentions(r.value, m, seen)
                            attrs |= a
                            keys |= k
                else:
                    attrs.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                keys.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and \
                    n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                keys.add(n.args[0].value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = self.ix.resolve_name(n.func.id, f.module, f)
                if isinstance(r, Func) and r in self.funcs and (f, r) not in seen:
                    seen.add((f, r))
                    for q in ast.walk(r.node):
                        if isinstance(q, ast.Return) and q.value is not None:
                            a, k, p = self.mentions(q.value, r, seen)
                            attrs |= a
                            keys |= k
            elif isinstance(n, ast.Name) and n.id != sn:
                if n.id in f.params or n.id in f.kwonly:
                    params.add(n.id)
                key = (id(f), n.id)
                if key not in seen:
                    seen.add(key)
                    for v in self.defs[f].get(n.id, []):
                        a, k, p = self.mentions(v, f, seen)
                        attrs |= a
                        keys |= k
                        params |= p
        return attrs, keys, params

    def written_keys(self):
        """{key: (attrs, func, node)} for every constant key put into a dictionary"""
        out = {}

        def add(k, e, f):
            a, _, _ = self.mentions(e, f)
            o = out.setdefault(k, (set(), f, e))
            o[0].update(a)
        for f in self.funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Dict):
                    for k, v in zip(n.keys, n.values):
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            add(k.value, v, f)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and \
                                isinstance(t.slice.value, str):
                            add(t.slice.value, n.value, f)
                elif isinstance(n, ast.Call) and (dotted(n.func) == 'dict' or (isinstance(n.func, ast.Attribute) and
                                                                              n.func.attr == 'update')):
                    for k in n.keywords:
                        if k.arg:
                            add(k.arg, k.value, f)
                elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) == 2 and isinstance(n.elts[0], ast.Constant) \
                        and isinstance(n.elts[0].value, str):
                    add(n.elts[0].value, n.elts[1], f)      # [('key', value), ...]
        return out

    def restored(self):
        """{attribute: keys} for every assignment self.X = <something from state['K']>"""
        out = {}
        for f in self.funcs:
            sn = f.selfname
            for n in ast.walk(f.node):
                tv = []
                if isinstance(n, ast.Assign):
                    tv = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tv = [(n.target, n.value)]
                elif isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) == 3 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id == sn and isinstance(n.args[1], ast.Constant):
                    out.setdefault(n.args[1].value, set()).update(self.mentions(n.args[2], f)[1])
                for t, v in tv:
                    flat = [(t, v)]
                    if isinstance(t, (ast.Tuple, ast.List)):
                        vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else \
                            [v] * len(t.elts)
                        flat = list(zip(t.elts, vs))
                    for t2, v2 in flat:
                        b = t2
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == sn and sn:
                            out.setdefault(b.attr, set()).update(self.mentions(v2, f)[1])
        return out


def self_assigned(f):
    """attributes assigned on self in f"""
    out = {}
    sn = f.selfname
    for n in ast.walk(f.node):
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn and \
                        isinstance(x.ctx, ast.Store):
                    out.setdefault(x.attr, n)
    return out


def init_attrs(ix, cls):
    """{attr: set(ctor params it is computed from)} for cls.__init__ and the helpers / base __init__s it runs
    (parameters are followed through those calls)"""
    memo = ix.__dict__.setdefault('_init_attrs', {})
    if cls.qual in memo:
        return memo[cls.qual]
    f = cls.lookup('__init__')
    out = {}
    memo[cls.qual] = out
    if f is None:
        return out
    todo = [(f, {p: {p} for p in list(f.params) + list(f.kwonly)}, 0)]
    seen = set()
    while todo:
        g, penv, depth = todo.pop(0)
        if (g, tuple(sorted((k, tuple(sorted(v))) for k, v in penv.items()))) in seen or depth > 5:
            continue
        seen.add((g, tuple(sorted((k, tuple(sorted(v))) for k, v in penv.items()))))
        pv = Prov(ix, g, cls, depth=0)

        def params_of(e):
            r = set()
            for q in pv.mentions(e, g)[2]:
                r |= penv.get(q, set())
            return r
        for n in ast.walk(g.node):
            tv = []
            if isinstance(n, ast.Assign):
                tv = [(t, n.value) for t in n.targets]
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                tv = [(n.target, n.value)]
            for t, v in tv:
                ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                vs = v.elts if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and \
                    len(v.elts) == len(ts) else [v] * len(ts)
                for x, y in zip(ts, vs):
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == g.selfname:
                        out.setdefault(x.attr, set()).update(params_of(y))
            if isinstance(n, ast.Call):
                h, args = None, list(n.args)
                fn = n.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == g.selfname:
                    h = cls.lookup(fn.attr)
                elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
                        dotted(fn.value.func) == 'super' and g.cls is not None:
                    h = cls.lookup_after(g.cls, fn.attr)
                elif isinstance(fn, ast.Attribute) and args and isinstance(args[0], ast.Name) and \
                        args[0].id == g.selfname:
                    b = ix.resolve_expr(fn.value, g.module, g)
                    if isinstance(b, Cls) and b in cls.mro():
                        h = b.lookup(fn.attr)
                        args = args[1:]
                if h is None or not h.selfname:
                    continue
                e2 = {}
                ps = h.params[1:]
                for q, a in zip(ps, args):
                    if not isinstance(a, ast.Starred):
                        e2[q] = params_of(a)
                for k in n.keywords:
                    if k.arg:
                        e2[k.arg] = params_of(k.value)
                todo.append((h, e2, depth + 1))
    return out
