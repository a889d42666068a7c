"""Resolution of call sites: which functions of the package a call may reach, and which argument lands on which parameter."""
import ast
from .index import Func, Cls, dotted, walk_own

# methods of builtin and numpy objects: never resolved by name alone
BUILTIN = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(tuple)) | set(dir(bytes)) | {
    'all', 'any', 'argmax', 'argmin', 'argsort', 'astype', 'conj', 'conjugate', 'cumsum', 'diagonal', 'dot', 'dump', 'dumps',
    'fill', 'flat', 'flatten', 'item', 'load', 'loads', 'max', 'mean', 'min', 'nonzero', 'prod', 'put', 'ravel', 'real', 'imag',
    'reshape', 'resize', 'round', 'save', 'searchsorted', 'squeeze', 'std', 'sum', 'swapaxes', 'take', 'tobytes', 'todense',
    'toarray', 'tolist', 'tostring', 'trace', 'transpose', 'var', 'view', 'write', 'read', 'close', 'open', 'Split', 'random',
    'minimize', 'norm', 'seed', 'choice', 'normal', 'multinomial', 'power', 'kron', 'time', 'show', 'plot', 'figure'}


APPLY = {'smart', '_ccompute'}


def applied(call):
    """f(g, args) -> g(args)"""
    c = ast.Call(func=call.args[0], args=call.args[1:], keywords=[k for k in call.keywords if k.arg != '_filledarrays'])
    return ast.copy_location(c, call)


class Target(object):
    def __init__(self, func, bound, exact):
        self.func, self.bound, self.exact = func, bound, exact    # bound: first parameter is supplied implicitly

    @property
    def params(self):
        return self.func.params[1:] if self.bound else list(self.func.params)


def ctor(c):
    f = c.lookup('__init__')
    n = c.lookup('__new__')
    if f is None and n is not None:
        return n
    return f


def overrides(c, name):
    out = []
    m = c.lookup(name)
    if m is not None:
        out.append(m)
    for s in c.all_subclasses():
        if name in s.methods and s.methods[name] not in out:
            out.append(s.methods[name])
    return out


def resolve(ix, f, call):
    """list of Targets (all may be meant); [] when unknown or outside the package"""
    fn = call.func
    if isinstance(fn, (ast.Name, ast.Attribute)) and (fn.id if isinstance(fn, ast.Name) else fn.attr) in APPLY \
            and call.args and isinstance(call.args[0], (ast.Name, ast.Attribute)):
        return resolve(ix, f, applied(call))       # smart(function, arguments...)
    owner = f
    while owner is not None and owner.parent is not None:
        owner = owner.parent
    cls = owner.cls if owner is not None else None
    me = owner.selfname if owner is not None else None
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
            base = cls
            if v.args:
                r = ix.resolve_expr(v.args[0], f.module, f)
                base = r if isinstance(r, Cls) else cls
            m = cls.lookup_after(base, fn.attr) if base in cls.mro() else None
            return [Target(m, True, True)] if m is not None else []
        if isinstance(v, ast.Name) and me is not None and v.id == me and cls is not None:
            return [Target(m, not m.is_static and m.name != '__new__', True) for m in overrides(cls, fn.attr)
                    if not m.is_property]
    if isinstance(fn, ast.Name) and fn.id == 'cls' and owner is not None and owner.is_classmethod and cls is not None:
        c = ctor(cls)
        return [Target(c, True, True)] if c is not None else []
    r = ix.resolve_expr(fn, f.module, f)
    if r is None and isinstance(fn, ast.Name):
        for st in walk_own(f.node):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and st.targets[0].id == fn.id and not isinstance(st.value, ast.Call):
                alts = [st.value.body, st.value.orelse] if isinstance(st.value, ast.IfExp) else [st.value]
                out = []
                for a in alts:
                    if not isinstance(a, (ast.Name, ast.Attribute)) or dotted(a) == fn.id:
                        return []
                    out += resolve(ix, f, ast.Call(func=a, args=call.args, keywords=call.keywords))
                return out
    if isinstance(r, Func):
        if r.cls is not None and isinstance(fn, ast.Attribute):
            return [Target(r, r.is_classmethod, True)]      # Class.method(obj, ...)
        return [Target(r, False, True)]
    if isinstance(r, Cls):
        c = ctor(r)
        return [Target(c, True, True)] if c is not None else []
    if r is not None:
        return []
    if isinstance(fn, ast.Attribute):
        root = fn.value
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        if isinstance(root, ast.Name):
            rr = ix.resolve_name(root.id, f.module, f)
            if isinstance(rr, tuple) and rr[0] == 'ext':
                return []
        if fn.attr in BUILTIN or fn.attr.startswith('__'):
            return []
        return [Target(m, not m.is_static, False) for m in ix.by_method.get(fn.attr, []) if not m.is_property]
    return []


def bind(call, t):
    """{parameter: argument expression}, and whether every argument is known"""
    fn = call.func
    if isinstance(fn, (ast.Name, ast.Attribute)) and (fn.id if isinstance(fn, ast.Name) else fn.attr) in APPLY \
            and call.args and t.func.name not in APPLY:
        call = applied(call)
    out, whole = {}, True
    ps = t.params
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            whole = False
            break
        if i < len(ps):
            out[ps[i]] = a
        elif t.func.vararg is None:
            out['#excess'] = a
    for k in call.keywords:
        if k.arg is None:
            whole = False
        else:
            if k.arg in out:
                out['#twice'] = k.value
            out[k.arg] = k.value
    return out, whole


def all_functions(ix, nested=True):
    for m in ix.modules.values():
        tops = list(m.functions.values()) + [x for c in m.classes.values() for x in
                                             list(c.methods.values()) + list(c.setters.values())]
        for f in tops:
            for g in (with_nested(f) if nested else [f]):
                yield g


def with_nested(f):
    yield f
    for g in f.nested.values():
        for h in with_nested(g):
            yield h
