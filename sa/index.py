"""Index of the pygsti source tree: modules, classes, functions, imports, MRO.

Everything is computed from the current text of the tree on every run; nothing
of pygsti is imported or executed.
"""
import ast
import os
import warnings


class AnalysisBroken(Exception):
    """An anchor the analysis relies on is gone: the check cannot decide."""


class Func(object):
    __slots__ = ('node', 'module', 'cls', 'name', 'qual', 'parent', 'decorators', 'is_static',
                 'is_classmethod', 'is_property', 'is_setter', 'params', 'kwonly', 'vararg', 'kwarg',
                 'ndefaults', 'nested', 'defaults', 'posonly_n', '_cache')

    def __init__(self, node, module, cls, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name
        base = parent.qual + '.<locals>' if parent is not None else (cls.qual if cls is not None else module.name)
        self.qual = base + '.' + node.name
        self.decorators = [deco_name(d) for d in node.decorator_list]
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.is_property = any(d in ('property', '_property', 'lazy_property') for d in self.decorators)
        a = node.args
        self.posonly_n = len(a.posonlyargs)
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ndefaults = len(a.defaults)
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self.nested = {}
        self._cache = {}

    @property
    def is_method(self):
        return self.cls is not None and self.parent is None

    @property
    def has_self(self):
        return self.is_method and not self.is_static and bool(self.params)

    @property
    def selfname(self):
        return self.params[0] if self.has_self else None

    @property
    def call_params(self):
        """positional params as seen by a bound caller"""
        return self.params[1:] if self.has_self else self.params

    def doc(self):
        return ast.get_docstring(self.node) or ''

    @property
    def path(self):
        return self.module.relpath

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.relpath, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.qual


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return dotted(d) or '?'


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class Cls(object):
    def __init__(self, node, module, parent=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = (parent.qual if parent else module.name) + '.' + node.name
        self.methods = {}      # name -> Func (last plain definition / getter)
        self.setters = {}      # name -> Func
        self.attrs = {}        # class-level assigned names -> value node
        self.base_exprs = node.bases
        self.bases = []        # resolved Cls
        self.extbases = []     # names of unresolved bases
        self._mro = None
        self.subclasses = []

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def lookup_after(self, cls, name):
        """super(cls, self).name with self of this class"""
        m = self.mro()
        i = m.index(cls) if cls in m else -1
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def all_ext(self):
        s = []
        for c in self.mro():
            s.extend(c.extbases)
        return s

    def all_subclasses(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out

    def is_sub(self, other):
        return other in self.mro()

    def method_names(self):
        s = []
        for c in self.mro():
            for m in c.methods:
                if m not in s:
                    s.append(m)
        return s

    @property
    def path(self):
        return self.module.relpath

    def __repr__(self):
        return '<Cls %s>' % self.qual


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro() for b in cls.bases] + [cls.bases])


class Module(object):
    def __init__(self, name, path, relpath, is_pkg, tree, text):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        self.tree = tree
        self.text = text
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # module-level name -> list of value nodes
        self.imports = {}      # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []        # dotted modules star-imported
        self.local_imports = {}

    def __repr__(self):
        return '<Module %s>' % self.name


class Index(object):
    def __init__(self, repo='/repo', pkg='pygsti', skip_dirs=()):
        self.repo = repo
        self.pkg = pkg
        self.modules = {}
        self.funcs = []        # all Funcs including methods and nested
        self.classes = []
        root = os.path.join(repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory %s is missing' % root)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__',) + tuple(skip_dirs))
            for f in sorted(fs):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        self._link()

    # ------------------------------------------------------------------
    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(text)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (rel, e))
        m = Module(name, path, rel, is_pkg, tree, text)
        self.modules[name] = m
        self._scan_block(m, tree.body)

    def _scan_block(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(st, m, None)
                m.functions[st.name] = f
            elif isinstance(st, ast.ClassDef):
                self._mkcls(st, m)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self._imp(m, st, m.imports, m.stars)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.assigns.setdefault(n.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scan_block(m, getattr(st, fld, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._scan_block(m, h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            m.assigns.setdefault(n.id, []).append(None)
                if isinstance(st, ast.With):
                    for it in st.items:
                        if it.optional_vars is not None:
                            for n in ast.walk(it.optional_vars):
                                if isinstance(n, ast.Name):
                                    m.assigns.setdefault(n.id, []).append(None)

    def _mkfunc(self, node, m, cls, parent=None):
        f = Func(node, m, cls, parent)
        self.funcs.append(f)
        for sub in direct_defs(node):
            f.nested[sub.name] = self._mkfunc(sub, m, cls, f)
        return f

    def _mkcls(self, node, m, parent=None):
        c = Cls(node, m, parent)
        self.classes.append(c)
        if parent is None:
            m.classes[c.name] = c
        self._cls_body(c, m, node.body)

    def _cls_body(self, c, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(st, m, c)
                if f.is_setter:
                    c.setters[st.name] = f
                elif any(d.endswith('.deleter') for d in f.decorators):
                    pass
                else:
                    c.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
                        v = st.value
                        if isinstance(v, ast.Call) and dotted(v.func) == 'property':
                            if v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods:
                                g = c.methods[v.args[0].id]
                                c.methods[t.id] = g
                            if len(v.args) > 1 and isinstance(v.args[1], ast.Name) and v.args[1].id in c.methods:
                                c.setters[t.id] = c.methods[v.args[1].id]
                        elif isinstance(v, ast.Name) and v.id in c.methods:
                            c.methods[t.id] = c.methods[v.id]
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self._mkcls(st, m, c)
            elif isinstance(st, ast.If):
                self._cls_body(c, m, st.body)
                self._cls_body(c, m, st.orelse)

    def _imp(self, m, st, imports, stars):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    imports[a.asname] = ('mod', a.name)
                else:
                    imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            base = self._absbase(m, st)
            for a in st.names:
                if a.name == '*':
                    stars.append(base)
                else:
                    imports[a.asname or a.name] = ('from', base, a.name)

    def _absbase(self, m, st):
        if st.level == 0:
            return st.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts = parts + st.module.split('.')
        return '.'.join(parts)

    # ------------------------------------------------------------------
    def _link(self):
        for c in self.classes:
            for b in c.base_exprs:
                r = self.resolve_expr(b, c.module)
                if isinstance(r, Cls):
                    c.bases.append(r)
                else:
                    c.extbases.append(dotted(b) or '?')
        for c in self.classes:
            for b in c.bases:
                b.subclasses.append(c)
        self.by_method = {}
        for c in self.classes:
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)

    def func_imports(self, f):
        """imports made inside a function body (and its enclosing functions)"""
        key = 'imports'
        if key not in f._cache:
            imps, stars = {}, []
            if f.parent is not None:
                imps.update(self.func_imports(f.parent))
            for n in walk_own(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imp(f.module, n, imps, stars)
            f._cache[key] = imps
        return f._cache[key]

    def module_attr(self, modname, attr, _seen=None):
        """Resolve attribute `attr` of module `modname` -> Func/Cls/Module/('assign',mod,name)/None"""
        _seen = _seen or set()
        if (modname, attr) in _seen:
            return None
        _seen.add((modname, attr))
        m = self.modules.get(modname)
        if m is None:
            return None
        if attr in m.classes:
            return m.classes[attr]
        if attr in m.functions:
            return m.functions[attr]
        if attr in m.assigns:
            vals = m.assigns[attr]
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(vals[0], m, _seen=_seen)
                if r is not None:
                    return r
            return ('assign', m, attr)
        if attr in m.imports:
            return self._resolve_import(m.imports[attr], _seen)
        for s in reversed(m.stars):
            if not attr.startswith('_'):
                r = self.module_attr(s, attr, _seen)
                if r is not None:
                    return r
        sub = modname + '.' + attr
        if sub in self.modules:
            return self.modules[sub]
        return None

    def _resolve_import(self, imp, _seen=None):
        if imp[0] == 'mod':
            return self.modules.get(imp[1]) or ('ext', imp[1])
        base, name = imp[1], imp[2]
        if base in self.modules:
            sub = base + '.' + name
            r = self.module_attr(base, name, _seen)
            if r is None and sub in self.modules:
                r = self.modules[sub]
            return r
        if base.split('.')[0] == self.pkg:
            return None
        return ('ext', base + '.' + name)

    def resolve_name(self, name, module, func=None, _seen=None):
        f = func
        while f is not None:
            if name in f.nested:
                return f.nested[name]
            f = f.parent
        if func is not None:
            imps = self.func_imports(func)
            if name in imps:
                return self._resolve_import(imps[name], _seen)
        return self.module_attr(module.name, name, _seen)

    def resolve_expr(self, e, module, func=None, _seen=None):
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, module, func, _seen)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, module, func, _seen)
            if isinstance(b, Module):
                return self.module_attr(b.name, e.attr, _seen)
            if isinstance(b, Cls):
                m = b.lookup(e.attr)
                if m is not None:
                    return m
                return None
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # convenience ------------------------------------------------------
    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s is gone' % name)
        return m

    def cls(self, qual):
        for c in self.classes:
            if c.qual == qual:
                return c
        # moved class: fall back on a unique class of the same name
        nm = qual.rsplit('.', 1)[-1]
        cs = [c for c in self.classes if c.name == nm]
        if len(cs) == 1:
            return cs[0]
        raise AnalysisBroken('class %s is gone' % qual)

    def func(self, qual):
        for f in self.funcs:
            if f.qual == qual:
                return f
        nm = qual.rsplit('.', 1)[-1]
        mod, _, _ = qual.rpartition('.')
        r = self.module_attr(mod, nm) if mod in self.modules else None
        if isinstance(r, Func):
            return r
        raise AnalysisBroken('function %s is gone' % qual)


def direct_defs(node):
    """FunctionDefs nested directly in `node` (any statement depth, not inside other defs/classes)"""
    out = []

    def rec(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(st)
            elif isinstance(st, ast.ClassDef):
                continue
            else:
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(st, fld, None)
                    if isinstance(b, list):
                        rec(b)
                for h in getattr(st, 'handlers', []) or []:
                    rec(h.body)
    rec(node.body)
    return out


def walk_own(node):
    """ast.walk limited to a function's own scope (not nested defs/classes; lambdas & comprehensions included)"""
    if not isinstance(node, ast.FunctionDef):
        return _walk_own(node)
    r = getattr(node, '_own_nodes', None)
    if r is None:
        r = node._own_nodes = list(_walk_own(node))
    return r


def _walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                todo.append(d)
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def own_statements(node):
    for n in walk_own(node):
        if isinstance(n, ast.stmt):
            yield n
