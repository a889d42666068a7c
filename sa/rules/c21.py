"""C21: every path can execute.

name       a name that is bound nowhere (local, enclosing, module, import, builtin)
unbound    a local variable read where no path has assigned it yet
literal    an attribute that the built-in type of a local value does not have
import     a name imported from, or looked up in, a module (of the package, or numpy) that does not define it
attribute  an attribute or method of self (or of a class of the package) that no class of the family ever defines
member     an attribute name that nothing in the package nor in the libraries it uses defines
arity      a call whose arguments do not fit the parameters of the function it reaches (of the package, or of a library)
format     a format string whose fields do not fit its arguments
raise      something that is not an exception is raised
"""
import ast
import builtins
import glob
import os
import re
import string
import sys
import warnings
from ..index import Index, Func, Cls, Module, walk_own, dotted
from ..calls import resolve, bind, all_functions
from ..report import Result
from ..mustbound import MustBound

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', 'unicode', 'long',
                                 'basestring', 'raw_input', 'xrange', 'WindowsError'}
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
OBJATTRS = set(dir(object)) | {'__dict__', '__name__', '__class__', '__doc__', '__module__', '__slots__', '__weakref__',
                               '__mro__', '__bases__', '__qualname__'}


def memo(fn):
    def g(tree):
        k = '_memo_' + fn.__name__
        r = getattr(tree, k, None)
        if r is None:
            r = fn(tree)
            setattr(tree, k, r)
        return r
    return g


@memo
def dead_nodes(tree):
    """ids of nodes in statements that follow a raise or return in their block, or under an if whose test is False"""
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            stores, off = {}, set()
            for n in walk_own(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stores[n.id] = stores.get(n.id, 0) + 1
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                        isinstance(n.value, ast.Constant) and n.value.value is False:
                    off.add(n.targets[0].id)
            off = set(x for x in off if stores[x] == 1)
            for n in walk_own(f):
                if isinstance(n, ast.If) and (isinstance(n.test, ast.Name) and n.test.id in off or
                                              isinstance(n.test, ast.Constant) and not n.test.value):
                    for st in n.body:
                        out.update(id(x) for x in ast.walk(st))
    for n in ast.walk(tree):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            gone = False
            for st in b:
                if gone:
                    out.update(id(x) for x in ast.walk(st))
                elif isinstance(st, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                    gone = True
    return out


@memo
def tolerated(tree):
    """ids of nodes whose failure is provided for: under a version test, or in a try that catches AttributeError/ImportError"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(catches(h, x) for h in n.handlers for x in ('AttributeError', 'ImportError')):
            for b in n.body:
                out.update(id(x) for x in ast.walk(b))
        elif isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Attribute) and x.attr == 'version_info' or
                                                        isinstance(x, ast.Call) and dotted(x.func) == 'hasattr'
                                                        for x in ast.walk(n.test)):
            out.update(id(x) for x in ast.walk(n))
    return out


def short(f):
    return f.name if f.cls is None else '%s.%s' % (f.cls.name, f.name)


# ---------------------------------------------------------------- names
def targets(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x.id


def bound_in(node):
    """names bound in the function's own scope (comprehension variables and lambda arguments included)"""
    out = set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x is not None]:
            out.add(p.arg)
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out


def module_names(ix, m, seen=None):
    """(names bound in a module, whether a star import from outside makes the set open)"""
    seen = seen if seen is not None else set()
    if m.name in seen:
        return set(), False
    seen.add(m.name)
    out, opn = bound_in(m.tree), False
    for g in ast.walk(m.tree):
        if isinstance(g, ast.Global):
            out.update(g.names)
    for s in m.stars:
        if s in ix.modules:
            o, p = module_names(ix, ix.modules[s], seen)
            out |= set(x for x in o if not x.startswith('_'))
            opn = opn or p
        else:
            opn = True
    for sub in ix.modules:
        if sub.startswith(m.name + '.') and '.' not in sub[len(m.name) + 1:]:
            out.add(sub[len(m.name) + 1:])
    out |= {'__all__', '__version__'} & out
    return out, opn


def catches(h, name):
    return h.type is None or any(dotted(x) in (name, 'Exception', 'BaseException')
                                 for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts))


def check_names(ix, res):
    n = 0
    cache = {}
    for m in ix.modules.values():
        names, opn = module_names(ix, m)
        cache[m.name] = (names, opn)
        if opn:
            continue

        def rec(node, scope, qual):
            nonlocal n
            own = [x for x in walk_scope(node)]
            tried = set(id(y) for x in own if isinstance(x, ast.Try) and any(catches(h, 'NameError') for h in x.handlers)
                        for b in x.body for y in ast.walk(b))
            for x in own:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    n += 1
                    if x.id not in scope and x.id not in BUILTINS and id(x) not in tried:
                        res.add('C21.name', '%s in %s' % (x.id, qual), '%s:%d' % (m.relpath, x.lineno),
                                'the name %s is not bound anywhere' % x.id)
            for x in own:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    rec(x, scope | bound_in(x), qual + '.' + x.name)
                elif isinstance(x, ast.ClassDef):
                    # names bound in the class body are visible in the body only
                    body = scope | bound_in(x)
                    for st in x.body:
                        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            for d in st.decorator_list + st.args.defaults:
                                for y in ast.walk(d):
                                    if isinstance(y, ast.Name) and y.id not in body and y.id not in BUILTINS:
                                        res.add('C21.name', '%s in %s.%s' % (y.id, qual, x.name),
                                                '%s:%d' % (m.relpath, y.lineno), 'the name %s is not bound anywhere' % y.id)
                            rec(st, scope | bound_in(st), qual + '.' + x.name + '.' + st.name)
                        else:
                            for y in ast.walk(st):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in body \
                                        and y.id not in BUILTINS:
                                    res.add('C21.name', '%s in %s.%s' % (y.id, qual, x.name), '%s:%d' % (m.relpath, y.lineno),
                                            'the name %s is not bound anywhere' % y.id)
        rec(m.tree, names, m.name.split('.', 1)[-1])
    res.count('name_uses', n, 80000)
    return cache


def walk_scope(node):
    """like walk_own but yields the nested definitions themselves"""
    todo = list(ast.iter_child_nodes(node))
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
            continue
        if isinstance(n, ast.ClassDef):
            todo.extend(n.decorator_list + n.bases)
            continue
        todo.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- locals read before any assignment
class MayBound(object):
    """names that may have been assigned; a read of a local not among them can only fail"""

    def __init__(self, f, report):
        self.f, self.report = f, report
        self.locals = set()
        a = f.node.args
        self.start = set(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x])
        glob = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
        comp = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp.update(targets(g.target))
            if isinstance(n, ast.Lambda):
                comp.update(x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg))
        self.comp = comp
        for st in walk_own(f.node):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                self.locals.add(st.id)
            elif isinstance(st, ast.ExceptHandler) and st.name:
                self.locals.add(st.name)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.locals.update(x.asname or x.name.split('.')[0] for x in st.names)
        self.locals.update(x.name for x in direct(f.node))
        self.locals -= glob | comp

    def run(self):
        self.block(self.f.node.body, set(self.start))

    def expr(self, e, s):
        if e is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                if n.id in self.locals and n.id not in s:
                    self.report(n)
            if isinstance(n, ast.NamedExpr):
                s.add(n.target.id)
            todo.extend(ast.iter_child_nodes(n))

    def block(self, body, s):
        """s is updated; returns None if the end is not reached"""
        for st in body:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    def stmt(self, st, s):
        if isinstance(st, ast.Assign):
            self.expr(st.value, s)
            for t in st.targets:
                self.tgt(t, s)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name) and st.target.id in self.locals and st.target.id not in s:
                self.report(st.target)
            self.expr(st.value, s)
            self.tgt(st.target, s)
        elif isinstance(st, ast.AnnAssign):
            self.expr(st.value, s)
            if st.value is not None:
                self.tgt(st.target, s)
        elif isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.expr(c, s)
            self.exits(s)
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            self.exits(s)
            return None
        elif isinstance(st, ast.If):
            self.expr(st.test, s)
            a, b = self.block(st.body, set(s)), self.block(st.orelse, set(s))
            if a is None and b is None:
                return None
            return (a or set()) | (b or set())
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            self.expr(st.iter if not isinstance(st, ast.While) else st.test, s)
            pre = set(s)
            inner = set(s) | set(x for b in st.body for x in self.stores(b))      # later iterations
            if not isinstance(st, ast.While):
                self.tgt(st.target, inner)
            first = set(s)
            if not isinstance(st, ast.While):
                self.tgt(st.target, first)
            self.block(st.body, inner)
            out = pre | inner
            r = self.block(st.orelse, set(out)) if st.orelse else out
            infinite = isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value
            if infinite and not any(isinstance(x, ast.Break) for b in st.body for x in ast.walk(b)):
                return None
            return out if r is None else out | r
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.expr(it.context_expr, s)
                if it.optional_vars is not None:
                    self.tgt(it.optional_vars, s)
            return self.block(st.body, s)
        elif isinstance(st, ast.Try):
            entry = set(s)
            every = set(s) | set(x for b in st.body for x in self.stores(b))
            a = self.block(st.body, set(s))
            outs = []
            if a is not None:
                a = self.block(st.orelse, a) if st.orelse else a
            if a is not None:
                outs.append(a)
            for h in st.handlers:
                hs = set(every)
                if h.type is not None:
                    self.expr(h.type, hs)
                if h.name:
                    hs.add(h.name)
                r = self.block(h.body, hs)
                if r is not None:
                    outs.append(r)
            if st.finalbody:
                fs = set(every)
                for o in outs:
                    fs |= o
                r = self.block(st.finalbody, fs)
                if r is None or not outs:
                    return None
                return set().union(*outs) | r
            return set().union(*outs) if outs else None
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list + st.args.defaults:
                self.expr(d, s)
            s.add(st.name)
        elif isinstance(st, ast.ClassDef):
            s.add(st.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            s.update(x.asname or x.name.split('.')[0] for x in st.names)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.expr(t, s)
                    s.discard(t.id)
                else:
                    self.expr(t, s)
        elif isinstance(st, ast.Match):
            self.expr(st.subject, s)
            out = set(s)
            for c in st.cases:
                r = self.block(c.body, set(s) | set(x.name for x in ast.walk(c.pattern) if getattr(x, 'name', None)))
                out |= r or set()
            return out
        else:
            for c in ast.iter_child_nodes(st):
                self.expr(c, s)
        return s

    def exits(self, s):
        pass

    @staticmethod
    def stores(node):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                yield x.id
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                yield x.name
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    yield a.asname or a.name.split('.')[0]

    def tgt(self, t, s):
        if isinstance(t, ast.Name):
            s.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.tgt(e, s)
        elif isinstance(t, ast.Starred):
            self.tgt(t.value, s)
        else:
            self.expr(t, s)


def direct(node):
    from ..index import direct_defs
    return direct_defs(node)


def pkgpath(f):
    return f.loc(f.node).rsplit(':', 1)[0].replace('pygsti/', '', 1)


def check_unbound(ix, res):
    n = given_up = 0
    reviewed = set(tuple(l.split()[:2]) for l in open(os.path.join(DATA, 'c21_unbound.txt')) if l.strip() and l[0] != '#')
    for f in all_functions(ix):
        n += 1

        def rep(x, f=f):
            res.add('C21.unbound', '%s in %s' % (x.id, short(f)), f.loc(x),
                    'the local variable %s is read where nothing can have been assigned to it' % x.id)
        mb = MayBound(f, rep)
        mb.run()
        if pkgpath(f).startswith('extras/rb/'):
            continue            # cannot be imported at all: C21.module
        seen = set()

        def some(x, f=f, seen=seen):
            path = pkgpath(f)
            if x.id in seen or (path, x.id) in reviewed:
                return
            seen.add(x.id)
            res.add('C21.unbound', '%s in %s' % (x.id, short(f)), f.loc(x),
                    'a path to here assigns nothing to the local variable %s' % x.id)
        if not MustBound(f.node, mb.locals, mb.start, some).run():
            given_up += 1
    res.count('functions_checked_for_unbound_locals', n, 3500)
    res.count('functions_with_too_many_paths', given_up)


# ---------------------------------------------------------------- methods of built-in values
LITERALS = {ast.List: list, ast.ListComp: list, ast.Dict: dict, ast.DictComp: dict, ast.Set: set, ast.SetComp: set,
            ast.Tuple: tuple, ast.JoinedStr: str}


def literal_type(v):
    if type(v) in LITERALS:
        return LITERALS[type(v)]
    if isinstance(v, ast.Constant) and isinstance(v.value, (str, bytes, bool, int, float, complex)):
        return type(v.value)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set', 'tuple', 'str', 'sorted',
                                                                                 'range', 'len', 'int', 'float', 'frozenset'):
        return {'sorted': list, 'len': int}.get(v.func.id) or getattr(builtins, v.func.id)
    return None


def check_literals(ix, res):
    n = 0
    for f in all_functions(ix):
        a = f.node.args
        types = dict.fromkeys([x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x])
        simple = set()
        for st in walk_own(f.node):
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        simple.add(id(t))
                        ty = literal_type(st.value)
                        if ty is None or (t.id in types and types[t.id] is None):
                            types[t.id] = None
                        else:
                            types.setdefault(t.id, set()).add(ty)
            elif isinstance(st, (ast.Global, ast.Nonlocal)):
                for x in st.names:
                    types[x] = None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in simple:
                types[x.id] = None          # loop variable, unpacked, augmented, assigned in an inner function ...
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for y in x.names:
                    types[y.asname or y.name.split('.')[0]] = None
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f.node:
                types[x.name] = None
            elif isinstance(x, ast.ExceptHandler) and x.name:
                types[x.name] = None
        dead = dead_nodes(f.node)
        for x in walk_own(f.node):
            if not isinstance(x, ast.Attribute) or id(x) in dead:
                continue
            if isinstance(x.value, ast.Name):
                tys = types.get(x.value.id)
            else:
                ty = literal_type(x.value)
                tys = set([ty]) if ty else None
            if not tys:
                continue
            n += 1
            if not any(hasattr(ty, x.attr) for ty in tys):
                res.add('C21.literal', '%s in %s' % (ast.unparse(x)[:60], short(f)), f.loc(x),
                        'a %s has no attribute %s' % (' or '.join(sorted(ty.__name__ for ty in tys)), x.attr))
    res.count('uses_of_builtin_values', n, 1700)


# ---------------------------------------------------------------- imports and module attributes
def numpy_names():
    p = '/opt/venv/lib/python3.12/site-packages/numpy/__init__.pyi'
    removed = {'int', 'float', 'bool', 'object', 'complex', 'str', 'long', 'unicode', 'asscalar', 'loads', 'alen',
               'asmatrix_', 'rank', 'typeDict'}
    if not os.path.exists(p):
        return None, removed
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = ast.parse(open(p, encoding='utf-8').read())
    except SyntaxError:
        return None, removed
    names = set()
    for st in ast.walk(t):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            names.add(st.name)
        elif isinstance(st, ast.ImportFrom):
            names.update(a.asname or a.name for a in st.names)
        elif isinstance(st, ast.Import):
            names.update((a.asname or a.name).split('.')[-1] for a in st.names)
        elif isinstance(st, ast.Assign):
            for x in st.targets:
                names.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            names.add(st.target.id)
    # not in the stubs, but present (deprecated) in numpy 1.26
    return names | {'matlib', 'array_api', 'product', 'cumproduct', 'sometrue', 'alltrue', 'round_', 'math', 'msort'}, removed


def check_imports(ix, res, names):
    n = 0
    npn, removed = numpy_names()
    for m in ix.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ImportFrom):
                base = ix._absbase(m, node)
                if base.split('.')[0] != ix.pkg:
                    continue
                if base not in ix.modules:
                    if not os.path.isdir(os.path.join(ix.repo, *base.split('.'))) and not compiled(ix, base):
                        res.add('C21.import', '%s in %s' % (base, m.name), '%s:%d' % (m.relpath, node.lineno),
                                'the module %s does not exist' % base)
                    continue
                for a in node.names:
                    n += 1
                    if a.name == '*':
                        continue
                    nm, opn = names[base]
                    if not opn and a.name not in nm and not compiled(ix, base + '.' + a.name) \
                            and not os.path.isdir(os.path.join(ix.repo, *(base + '.' + a.name).split('.'))):
                        res.add('C21.import', '%s from %s in %s%s' % (a.name, base, m.name, ' (module)' if node in m.tree.body
                                                                      else ''), '%s:%d' % (m.relpath, node.lineno),
                                '%s defines no %s' % (base, a.name))
    patched = set(x.attr for m in ix.modules.values() for x in ast.walk(m.tree)
                  if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and dotted(x.value) in ('_np', 'np', 'numpy'))
    for m in ix.modules.values():
        dead = dead_nodes(m.tree)

        def rec(node, func):
            nonlocal n
            for x in ast.walk(node):
                if not isinstance(x, ast.Attribute) or not isinstance(x.value, (ast.Name, ast.Attribute)) or id(x) in dead:
                    continue
                d = dotted(x.value)
                if d is None:
                    continue
                root = d.split('.')[0]
                if func is not None and shadowed(func, root):
                    continue
                r = ix.resolve_expr(x.value, m, func)
                if isinstance(r, Module):
                    n += 1
                    nm, opn = names[r.name]
                    if not opn and x.attr not in nm and not x.attr.startswith('__') and not isinstance(x.ctx, ast.Store) \
                            and not compiled(ix, r.name + '.' + x.attr):
                        if hasattr_guard(func, x.attr):
                            continue
                        res.add('C21.import', '%s of %s in %s' % (x.attr, r.name, short(func) if func else m.name),
                                '%s:%d' % (m.relpath, x.lineno), 'the module %s defines no %s' % (r.name, x.attr))
                elif r == ('ext', 'numpy'):
                    n += 1
                    if x.attr in patched or not isinstance(x.ctx, ast.Load):
                        continue
                    if x.attr in removed or (npn is not None and x.attr not in npn and not x.attr.startswith('__')):
                        if hasattr_guard(func, x.attr):
                            continue
                        res.add('C21.import', 'numpy.%s in %s' % (x.attr, short(func) if func else m.name),
                                '%s:%d' % (m.relpath, x.lineno), 'numpy has no %s' % x.attr)
        for st in m.tree.body:
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                rec(st, None)
        for f in m.functions.values():
            recf(f, rec)
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                if f.module is m:
                    recf(f, rec)
    res.count('imports_and_module_lookups', n, 9000)


def recf(f, rec):
    rec(f.node, f)


def hasattr_guard(f, attr):
    return f is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr'
                                 and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == attr
                                 for x in ast.walk(f.node))


def shadowed(f, name):
    while f is not None:
        if '_bound' not in f._cache:
            b = bound_in(f.node)
            for n in walk_own(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    b -= set(a.asname or a.name.split('.')[0] for a in n.names)
            f._cache['_bound'] = b
        if name in f._cache['_bound']:
            return True
        f = f.parent
    return False


def compiled(ix, modname):
    p = os.path.join(ix.repo, *modname.split('.'))
    return any(os.path.exists(p + e) for e in ('.pyx', '.pxd', '.py'))


# ---------------------------------------------------------------- attributes of self
DYNAMIC = ('setattr', 'exec', '__dict__', 'vars')


def family(c):
    fam = []
    for x in [c] + c.all_subclasses():
        for y in x.mro():
            if y not in fam:
                fam.append(y)
    return fam


def open_class(ix, c):
    """instances may have attributes that cannot be enumerated"""
    for x in c.mro():
        if '__getattr__' in x.methods or '__getattribute__' in x.methods:
            return True
    return False


EXT_DIR = {'object': OBJATTRS, 'dict': set(dir(dict)), 'list': set(dir(list)), 'tuple': set(dir(tuple)), 'str': set(dir(str)),
           'int': set(dir(int)), 'float': set(dir(float)), 'Exception': set(dir(Exception)), 'ValueError': set(dir(ValueError)),
           'KeyError': set(dir(KeyError)), '_collections.OrderedDict': set(dir(dict)) | {'move_to_end'},
           '_OrderedDict': set(dir(dict)) | {'move_to_end'}, 'OrderedDict': set(dir(dict)) | {'move_to_end'},
           'ABC': set(), '_ABC': set(), 'collections.OrderedDict': set(dir(dict)) | {'move_to_end'},
           '_collections_abc.Mapping': set(dir(dict)), '_abc.ABC': set(), 'abc.ABC': set()}


def fields(ix):
    """class -> names its instances may have through assignments anywhere in its methods"""
    out = {}
    for c in ix.classes:
        s = set(c.attrs) | set(c.methods) | set(c.setters)
        for f in list(c.methods.values()) + list(c.setters.values()):
            for g in [f] + list(nested(f)):
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        s.add(n.attr)      # self.x = .., and newobj.x = .. in factory methods
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                        pass
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant):
                            s.add(n.args[1].value)
                        else:
                            s.add('*')
                    if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        s.add('*') if f.name not in ('__setstate__', '__getstate__', 'copy', '__copy__') else None
        sl = c.attrs.get('__slots__')
        if sl is not None:
            s.update(x.value for x in ast.walk(sl) if isinstance(x, ast.Constant))
        out[c] = s
    return out


def nested(f):
    for g in f.nested.values():
        yield g
        for h in nested(g):
            yield h


def outside_stores(ix):
    """attribute names assigned on something other than self anywhere (x.attr = ...)"""
    out = set()
    for m in ix.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    out.add(n.attr)
    return out


def check_attributes(ix, res):
    flds = fields(ix)
    outs = outside_stores(ix)
    n = 0
    for c in ix.classes:
        if open_class(ix, c):
            continue
        fam = family(c)
        ext = set(e for x in fam for e in x.extbases)
        known = set(OBJATTRS) | outs
        opn = False
        for e in ext:
            if e in EXT_DIR:
                known |= EXT_DIR[e]
            else:
                opn = True
        for x in fam:
            known |= flds[x]
        if opn or '*' in known:
            continue
        for f in list(c.methods.values()) + list(c.setters.values()):
            me = f.selfname
            dead = dead_nodes(f.node)
            if me is None or f.cls is not c or any(not plain(d) for d in f.decorators):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me \
                        and isinstance(x.ctx, ast.Load) and id(x) not in dead:
                    n += 1
                    if x.attr in known or hasattr_guard(f, x.attr):
                        continue
                    if any(isinstance(t, ast.Try) and any(y is x for b in t.body for y in ast.walk(b))
                           for t in ast.walk(f.node)):
                        continue
                    res.add('C21.attribute', '%s.%s in %s' % (c.name, x.attr, short(f)), f.loc(x),
                            'no class of the family of %s ever defines %s' % (c.name, x.attr))
    # Class.attr
    for f in all_functions(ix):
        dead = dead_nodes(f.node)
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) \
                    and id(x) not in dead:
                d = dotted(x.value)
                if d is None or shadowed(f, d.split('.')[0]):
                    continue
                r = ix.resolve_expr(x.value, f.module, f)
                if isinstance(r, Cls):
                    n += 1
                    known = set(OBJATTRS) | outs
                    for y in r.mro():
                        known |= set(y.attrs) | set(y.methods) | set(y.setters) | flds[y]
                    if any(e not in EXT_DIR for e in r.all_ext()):
                        continue
                    for e in r.all_ext():
                        known |= EXT_DIR[e]
                    if x.attr not in known and '*' not in known:
                        res.add('C21.attribute', '%s.%s in %s' % (r.name, x.attr, short(f)), f.loc(x),
                                '%s has no attribute %s' % (r.name, x.attr))
    res.count('attribute_uses_of_self_and_classes', n, 6500)
    return flds, outs


# ---------------------------------------------------------------- arity
def check_arity(ix, res):
    n = 0
    foreign = foreign_names()
    # names under which functions are kept in attributes, so that x.name(...) need not reach a method of that name
    held = set(x.attr for m in ix.modules.values() for x in ast.walk(m.tree)
               if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
    for f in all_functions(ix):
        dead = dead_nodes(f.node)
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call) or id(c) in dead:
                continue
            d = dotted(c.func)
            if d is not None and '.' not in d and shadowed(f, d) and not any(d in g.nested for g in chain(f)):
                continue
            if d is not None and '.' in d and d.split('.')[0] != 'self' and shadowed(f, d.split('.')[0]) \
                    and not (f.selfname == d.split('.')[0]) and \
                    (c.func.attr in foreign or c.func.attr not in ix.by_method or c.func.attr in held):
                continue
            if d is None and isinstance(c.func, ast.Attribute) and c.func.attr in held:
                continue
            ts = resolve(ix, f, c)
            if not ts:
                continue
            ts = [t for t in ts if not any(x in ('lru_cache', 'smart_cached', 'contextmanager') for x in t.func.decorators)
                  and not t.func.decorators_unknown] if hasattr(ts[0].func, 'decorators_unknown') else ts
            n += 1
            bad = [misfit(c, t) for t in ts]
            exact = ts and ts[0].exact
            if exact:
                # the class's own method must fit (overrides in subclasses may be reached through other types)
                why = bad[0] if len(ts) == 1 else (bad[0] if all(bad) else None)
            else:
                why = bad[0] if all(bad) else None
            if why:
                res.add('C21.arity', '%s -> %s' % (short(f), short(ts[0].func)), f.loc(c),
                        '%s calls %s, %s' % (short(f), short(ts[0].func), why))
    res.count('calls_matched_with_their_parameters', n, 7000)


def chain(f):
    while f is not None:
        yield f
        f = f.parent


def plain(d):
    """a decorator that leaves the first argument of the method what it was"""
    return d in ('property', '_property', 'classmethod', 'staticmethod') or d.endswith(('.setter', '.deleter', 'deprecated_fn',
                                                                                       'smart_cached', 'abstractmethod'))


def misfit(c, t):
    b, whole = bind(c, t)
    g = t.func
    if any(not plain(d) for d in g.decorators):
        return None
    if '#excess' in b:
        return 'which takes fewer positional arguments'
    ok = set(t.params) | set(g.kwonly)
    if b.pop('#twice', None) is not None:
        return 'giving one of its parameters twice'
    for k in b:
        if k not in ok and g.kwarg is None:
            return 'which has no parameter %s' % k
    if not whole:
        return None
    for p in t.params + g.kwonly:
        if p not in g.defaults and p not in b:
            return 'whose parameter %s gets no value' % p
    return None


# ---------------------------------------------------------------- format strings
PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>[diouxXeEfFgGcrsa%])')


def const_str(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(e.left), const_str(e.right)
        return a + b if a is not None and b is not None else None
    return None


def check_format(ix, res):
    n = 0
    for m in ix.modules.values():
        owner = {}
        for f in all_functions_of(ix, m):
            for x in walk_own(f.node):
                owner[id(x)] = f
        for x in ast.walk(m.tree):
            q = owner.get(id(x))
            qn = short(q) if q is not None else m.name
            loc = '%s:%d' % (m.relpath, getattr(x, 'lineno', 0))
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                s = const_str(x.left)
                if s is None:
                    continue
                n += 1
                specs = [g for g in PCT.finditer(s) if g.group('c') != '%']
                if any(g.group('key') for g in specs) or any('*' in (g.group('w') or '', g.group('p') or '') for g in specs):
                    continue
                k = len(specs)
                if isinstance(x.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in x.right.elts):
                        continue
                    if len(x.right.elts) != k:
                        res.add('C21.format', '%s in %s' % (s[:40].replace('\n', ' '), qn), loc,
                                'the format has %d fields and gets %d values' % (k, len(x.right.elts)))
                elif isinstance(x.right, (ast.Constant, ast.Attribute, ast.Subscript, ast.JoinedStr, ast.ListComp)) and k != 1 \
                        and not isinstance(x.right, (ast.Attribute, ast.Subscript)):
                    res.add('C21.format', '%s in %s' % (s[:40].replace('\n', ' '), qn), loc,
                            'the format has %d fields and gets one value' % k)
                elif isinstance(x.right, ast.Call) and dotted(x.right.func) in ('str', 'len', 'repr', 'type') and k != 1:
                    res.add('C21.format', '%s in %s' % (s[:40].replace('\n', ' '), qn), loc,
                            'the format has %d fields and gets one value' % k)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
                s = const_str(x.func.value)
                if s is None:
                    continue
                n += 1
                if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                try:
                    flds = [fn for _, fn, _, _ in string.Formatter().parse(s) if fn is not None]
                except ValueError:
                    res.add('C21.format', '%s in %s' % (s[:40], qn), loc, 'the format string is malformed')
                    continue
                auto, kws, mx = 0, set(k.arg for k in x.keywords), -1
                for fn in flds:
                    h = re.split(r'[.\[]', fn)[0]
                    if h == '':
                        auto += 1
                    elif h.isdigit():
                        mx = max(mx, int(h))
                    elif h not in kws:
                        res.add('C21.format', '%s in %s' % (s[:40].replace('\n', ' '), qn), loc, 'the field %s gets no value' % h)
                if max(auto, mx + 1) > len(x.args):
                    res.add('C21.format', '%s in %s' % (s[:40].replace('\n', ' '), qn), loc,
                            'the format needs %d values and gets %d' % (max(auto, mx + 1), len(x.args)))
            elif isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc
                if isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp)) or \
                        (isinstance(e, ast.Name) and e.id in ('NotImplemented',)) or \
                        (isinstance(e, ast.Call) and dotted(e.func) in ('NotImplemented', 'str')):
                    res.add('C21.raise', 'raise in %s' % qn, loc, 'what is raised is not an exception')
            elif isinstance(x, ast.Assert) and isinstance(x.test, ast.Tuple) and x.test.elts:
                res.add('C21.raise', 'assert in %s' % qn, loc, 'the assertion is a tuple and can never fail')
    res.count('format_strings', n, 700)


def all_functions_of(ix, m):
    for f in list(m.functions.values()) + [x for c in m.classes.values() for x in
                                           list(c.methods.values()) + list(c.setters.values())]:
        yield f
        for g in nested(f):
            yield g


def std_has(dottedname):
    """does the standard library define it? (its own modules are consulted, nothing of the repository is)"""
    import importlib
    parts = dottedname.split('.')
    obj, i = None, 0
    for i in range(len(parts), 0, -1):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                obj = importlib.import_module('.'.join(parts[:i]))
            break
        except ImportError:
            continue
        except Exception:
            return True
    if obj is None:
        return True
    for a in parts[i:]:
        if isinstance(obj, type(sys)) or isinstance(obj, type):
            if not hasattr(obj, a):
                return False
            obj = getattr(obj, a)
        else:
            return True
    return True


def check_stdlib(ix, res):
    n = 0
    for m in ix.modules.values():
        fine = tolerated(m.tree) | dead_nodes(m.tree)
        done = set()
        for f in [None] + list(all_functions_of(ix, m)):
            nodes = walk_own(f.node) if f is not None else walk_scope(m.tree)
            for x in nodes:
                if not isinstance(x, ast.Attribute) or id(x) in done:
                    continue
                done.add(id(x))
                d = dotted(x)
                if d is None or (f is not None and shadowed(f, d.split('.')[0])):
                    continue
                r = ix.resolve_expr(x, m, f)
                if isinstance(r, tuple) and r[0] == 'ext' and r[1].split('.')[0] in sys.stdlib_module_names:
                    n += 1
                    if id(x) not in fine and not std_has(r[1]):
                        res.add('C21.import', '%s in %s' % (r[1], short(f) if f else m.name), '%s:%d' % (m.relpath, x.lineno),
                                'the standard library (Python %d.%d) has no %s' % (sys.version_info[0], sys.version_info[1], r[1]))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and x.level == 0 and (x.module or '').split('.')[0] in sys.stdlib_module_names:
                for a in x.names:
                    n += 1
                    if a.name != '*' and id(x) not in fine and not std_has(x.module + '.' + a.name):
                        res.add('C21.import', '%s.%s in %s' % (x.module, a.name, m.name), '%s:%d' % (m.relpath, x.lineno),
                                'the standard library (Python %d.%d) has no such name' % sys.version_info[:2])
    res.count('standard_library_lookups', n, 1200)


def signatures():
    out = {}
    with open(os.path.join(DATA, 'c21_signatures.txt')) as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('#') or ':' not in line:
                continue
            name, sig = line.split(':', 1)
            vk = sig.endswith('**')
            if vk:
                sig = sig[:-2]
            pos, kw = (sig.split('|') + [''])[:2]
            pos = pos.split()
            va = '*' in pos
            pos = [x for x in pos if x != '*']
            out[name] = (pos, va, kw.split(), vk)
    return out


# positional arguments of built-in functions and types: (least, most)
BUILTIN_ARGS = {'tuple': (0, 1), 'list': (0, 1), 'set': (0, 1), 'frozenset': (0, 1), 'dict': (0, 1), 'len': (1, 1), 'int': (0, 2), 'float': (0, 1),
                'complex': (0, 2), 'bool': (0, 1), 'str': (0, 3), 'repr': (1, 1), 'hash': (1, 1), 'id': (1, 1), 'abs': (1, 1), 'all': (1, 1),
                'any': (1, 1), 'sum': (1, 2), 'sorted': (1, 1), 'reversed': (1, 1), 'enumerate': (1, 2), 'range': (1, 3), 'round': (1, 2),
                'isinstance': (2, 2), 'issubclass': (2, 2), 'callable': (1, 1), 'chr': (1, 1), 'ord': (1, 1), 'divmod': (2, 2), 'pow': (2, 3),
                'hasattr': (2, 2), 'getattr': (2, 3), 'setattr': (3, 3), 'delattr': (2, 2), 'next': (1, 2), 'iter': (1, 2), 'filter': (2, 2),
                'map': (2, 99), 'bin': (1, 1), 'hex': (1, 1), 'slice': (1, 3), 'min': (1, 99), 'max': (1, 99)}


def check_external(ix, res):
    sigs = signatures()
    n = 0
    for m in ix.modules.values():
        fine = tolerated(m.tree) | dead_nodes(m.tree)
        for f in list(all_functions_of(ix, m)):
            for c in walk_own(f.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in BUILTIN_ARGS and id(c) not in fine \
                        and id(c.func) not in fine and not any(isinstance(a, ast.Starred) for a in c.args) \
                        and not shadowed(f, c.func.id) and ix.resolve_name(c.func.id, m, f) is None:
                    n += 1
                    lo, hi = BUILTIN_ARGS[c.func.id]
                    k = len(c.args) + (len(c.keywords) if lo > len(c.args) else 0)
                    if k < lo or len(c.args) > hi:
                        res.add('C21.arity', '%s -> %s' % (short(f), c.func.id), '%s:%d' % (m.relpath, c.lineno),
                                '%s calls %s with %d arguments' % (short(f), c.func.id, len(c.args)))
    res.count('calls_of_builtins_matched', n, 3000)
    n = 0
    for m in ix.modules.values():
        fine = tolerated(m.tree) | dead_nodes(m.tree)
        done = set()
        for f in list(all_functions_of(ix, m)) + [None]:
            for c in (walk_own(f.node) if f is not None else walk_scope(m.tree)):
                if not isinstance(c, ast.Call) or id(c) in done:
                    continue
                done.add(id(c))
                d = dotted(c.func)
                if d is None or id(c) in fine or id(c.func) in fine or (f is not None and shadowed(f, d.split('.')[0])):
                    continue
                r = ix.resolve_expr(c.func, m, f)
                if not (isinstance(r, tuple) and r[0] == 'ext' and r[1] in sigs):
                    continue
                n += 1
                pos, va, kw, vk = sigs[r[1]]
                star = any(isinstance(a, ast.Starred) for a in c.args)
                dstar = any(k.arg is None for k in c.keywords)
                why = None
                names = [x.strip('/=') for x in pos]
                if not star and len(c.args) > len(pos) and not va:
                    why = 'takes at most %d positional arguments' % len(pos)
                given = set(names[:len(c.args)]) if not star else set()
                for k in c.keywords:
                    if k.arg is None:
                        continue
                    byname = [x.strip('=') for x in pos if not x.startswith('/')] + [x.strip('!') for x in kw]
                    if k.arg not in byname and not vk:
                        why = 'has no parameter %s' % k.arg
                    elif k.arg in given and not vk:
                        why = 'gets %s twice' % k.arg
                    given.add(k.arg)
                if why is None and not star and not dstar:
                    for x in [y.strip('/') for y in pos if not y.endswith('=')] + [y[:-1] for y in kw if y.endswith('!')]:
                        if x not in given:
                            why = 'needs a value for %s' % x
                if why:
                    res.add('C21.arity', '%s -> %s' % (short(f) if f else m.name, r[1]), '%s:%d' % (m.relpath, c.lineno),
                            '%s calls %s, which %s' % (short(f) if f else m.name, r[1], why))
    res.count('library_calls_matched_with_their_parameters', n, 2000)


def foreign_names():
    """names that the standard library, numpy, scipy, plotly, ... define"""
    with open(os.path.join(DATA, 'c21_names.txt')) as f:
        return set(f.read().split())


def universe(ix):
    """attribute names something defines: the package, builtin types, numpy, and the reviewed list of foreign names"""
    import collections
    import pathlib
    known = set(OBJATTRS)
    for t in (str, list, dict, set, tuple, bytes, int, float, complex, frozenset, OSError, type(sys), type(len), type(std_has),
              type, range, slice, memoryview, super, property, collections.OrderedDict, collections.defaultdict,
              collections.deque, collections.Counter, pathlib.Path, type(re.compile('')), type(re.match('', '')), type(sys.stdout)):
        known |= set(dir(t))
    known |= foreign_names()
    own = set()
    for m in ix.modules.values():
        known |= set(m.name.split('.')) | set(m.assigns)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                known.add(n.name)
                if isinstance(n, ast.ClassDef):
                    for st in n.body:
                        if isinstance(st, ast.Assign):
                            known.update(targets(st))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                known.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                own.add(n.value)       # setattr / named tuples / __dict__.update
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and ' ' in n.value and len(n.value) < 200:
                own.update(w for w in n.value.split() if w.isidentifier())     # namedtuple field lists
            elif isinstance(n, ast.keyword) and n.arg:
                own.add(n.arg)
    with open(os.path.join(DATA, 'c21_foreign.txt')) as f:
        for line in f:
            known.update(line.split('#')[0].split())
    for d, _, fs in os.walk(os.path.join(ix.repo, ix.pkg)):
        for fn in fs:
            if fn.endswith('.pyx'):
                known.update(re.findall(r'def(?: public| readonly| [a-z_\[\]]+)* (\w+)', open(os.path.join(d, fn), encoding='utf-8').read()))
    return known | own


def check_members(ix, res):
    known = universe(ix)
    n = 0
    for m in ix.modules.values():
        fine = tolerated(m.tree) | dead_nodes(m.tree)
        for f in all_functions_of(ix, m):
            for x in walk_own(f.node):
                if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load) or id(x) in fine:
                    continue
                root = x.value
                while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                if isinstance(root, ast.Name) and not shadowed(f, root.id):
                    r = ix.resolve_name(root.id, m, f)
                    if isinstance(r, tuple) and r[0] == 'ext':
                        continue
                n += 1
                if x.attr not in known and not hasattr_guard(f, x.attr):
                    res.add('C21.member', '%s in %s' % (x.attr, short(f)), f.loc(x),
                            'nothing in the package or the libraries it uses defines an attribute %s' % x.attr)
    res.count('attribute_names_looked_up', n, 25000)


def check(repo, tier='quick'):
    ix = Index(repo)
    res = Result()
    check_stdlib(ix, res)
    check_members(ix, res)
    names = check_names(ix, res)
    check_unbound(ix, res)
    check_literals(ix, res)
    check_imports(ix, res, names)
    check_attributes(ix, res)
    check_arity(ix, res)
    check_external(ix, res)
    check_format(ix, res)
    # a module that cannot be imported is one finding
    bad = set(x.where.split(':')[0] for x in res.findings if x.rule == 'C21.import' and x.construct.endswith(' (module)'))
    res.findings = [x for x in res.findings if x.where.split(':')[0] not in bad or
                    x.rule == 'C21.import' and x.construct.endswith(' (module)')]
    res.explanation = __doc__
    res.assumptions = ['attributes set by other modules on an object are taken to exist on all objects',
                       'code that asks hasattr() for a name is taken to cope with its absence']
    return res
