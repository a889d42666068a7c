"""A path-aware abstract interpreter over Python syntax trees.

It walks a function's body statement by statement, keeping, for every program
point, (1) which access paths (``self._labels``, ``self.d[]`` ...) each local may
alias, (2) must-facts (branch conditions known true/false, events that have
happened on *every* path) and (3) may-events (happened on *some* path).  Calls to
methods of the analysed object, to nested functions and to helpers are inlined
(bounded depth, recursion cut), so a guard or an effect moved into a helper is
still seen.  Nothing is executed: conditions are kept as closed formulas over
access paths and only contradictory branches are pruned.
"""
import ast
from .index import Func, Cls, Module, dotted, direct_defs

U = frozenset([('U',)])
MAXPATH = 5
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'sort',
            'reverse', 'add', 'discard', 'fill', 'resize', 'itemset', 'appendleft', 'popleft', 'extendleft',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'move_to_end', 'rotate',
            'setflags', '__setitem__', '__delitem__', 'partition', 'subtract'}
ELEM_METHODS = {'get', 'values', 'setdefault', 'pop', 'popitem', 'items', '__getitem__', 'popleft', 'itervalues'}
VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'diagonal'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}
SHALLOW_CALLS = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'iter',
                 'collections.OrderedDict', 'OrderedDict', 'copy.copy', 'itertools.chain', 'filter', 'OutcomeLabelDict'}
VIEW_CALLS = {'numpy.asarray', 'numpy.reshape', 'numpy.ravel', 'numpy.transpose', 'numpy.squeeze', 'numpy.asanyarray',
              'numpy.atleast_1d', 'numpy.ascontiguousarray', 'numpy.require', 'numpy.diag_view'}
ARG0_MUTATING_CALLS = {'numpy.fill_diagonal', 'numpy.copyto', 'numpy.put', 'numpy.random.shuffle', 'random.shuffle',
                       'numpy.place', 'numpy.putmask', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify',
                       'bisect.insort', 'dict.__setitem__', 'dict.update', 'list.append'}


class State(object):
    __slots__ = ('env', 'must', 'may', 'dead')

    def __init__(self, env=None, must=frozenset(), may=frozenset(), dead=False):
        self.env = env if env is not None else {}
        self.must = must
        self.may = may
        self.dead = dead

    def copy(self):
        return State(dict(self.env), self.must, self.may, self.dead)

    def assign(self, o):
        self.env, self.must, self.may, self.dead = o.env, o.must, o.may, o.dead

    def same(self, o):
        return self.dead == o.dead and self.must == o.must and self.may == o.may and self.env == o.env


def join(a, b):
    if a is None or a.dead:
        return b.copy() if b is not None else None
    if b is None or b.dead:
        return a.copy()
    env = {}
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k), b.env.get(k)
        if x is None or y is None:
            env[k] = (x or y) | U
        else:
            env[k] = x | y
    return State(env, a.must & b.must, a.may | b.may)


def joinall(ss):
    r = None
    for s in ss:
        r = join(r, s) if r is not None else (s.copy() if s is not None and not s.dead else r)
    return r if r is not None else State(dead=True)


class Frame(object):
    _n = 0

    def __init__(self, func, dyncls, callnode=None, caller=None):
        Frame._n += 1
        self.fid = Frame._n
        self.func = func
        self.dyncls = dyncls
        self.callnode = callnode
        self.caller = caller
        self.returns = []      # (state, aval, node)
        self.loops = []        # dicts with 'breaks','continues'
        self.globals_ = set()

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.func.name)
            f = f.caller
        return list(reversed(out))


class Flow(object):
    loops_run = False      # True: `for` loops are taken to run at least once
    """Subclass and override the on_* hooks."""
    max_depth = 6
    inline_init = False
    star_defaults = ()     # parameters taken at their default when a call forwards *args/**kwargs

    def __init__(self, index):
        self.ix = index
        self.frame = None
        self.closures = {}
        self.raise_stack = [[]]
        self.memo = {}
        self.stack = []
        self.newcls = {}       # root -> Cls
        self.stats = {'inlined': 0, 'statements': 0, 'calls': 0}
        self._fid = 0
        self._active = {}

    # ---- hooks --------------------------------------------------------
    def on_mutate(self, path, how, node, st, value=U):
        pass

    def on_call(self, node, callee, recv, args, kwargs, st):
        """called for calls that are not inlined.  callee: resolved Func/Cls/('ext',name)/None."""
        return None

    def on_precall(self, node, callee, recv, args, kwargs, st):
        """called for every call before inlining"""
        return None

    def on_return(self, node, aval, st):
        pass

    def on_raise(self, node, st):
        pass

    def on_read(self, path, node, st):
        pass

    def on_assert(self, node, st):
        pass

    def should_inline(self, func, recv, args):
        return False

    def path_class(self, path):
        """class of the object at `path`, if known"""
        return None

    # ---- driving ------------------------------------------------------
    def run(self, func, dyncls=None, binds=None, must=frozenset(), may=frozenset()):
        """Analyse `func` as an entry point; returns (list of (state, aval, node) normal exits, raise states)"""
        self.memo = {}
        self.newcls = dict(self.newcls)
        st = State({}, must, may)
        fr = Frame(func, dyncls)
        fr.fid = 0
        for p in self._allparams(func):
            st.env[p] = frozenset([('A', (p,))])
        if func.vararg:
            st.env[func.vararg] = frozenset([('A', (func.vararg,))])
        if func.kwarg:
            st.env[func.kwarg] = frozenset([('A', (func.kwarg,))])
        if binds:
            st.env.update(binds)
        self.frame = fr
        self.entry = fr
        self.entry_cls = dyncls
        self.raise_stack = [[]]
        self.stack = [func]
        out = self.block(func.node.body, st)
        if not out.dead:
            fr.returns.append((out, frozenset([('C', None)]), func.node))
            self.on_return(func.node, frozenset([('C', None)]), out)
        return fr.returns, self.raise_stack[-1]

    def _allparams(self, f):
        return list(f.params) + list(f.kwonly)

    # ---- statements ---------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st.dead:
                break
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.stats['statements'] += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(s):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st)
            return st
        r = m(s, st)
        return r if r is not None else st

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if st.dead:
            return st
        for t in s.targets:
            self.assign(t, v, st, s, s.value)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s, s.value)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id, U)
            if self.aug_inplace(s, cur, v):
                for r in cur:
                    if r[0] == 'A':
                        self.mutate(r[1], 'aug', s, st, v)
                # value stays the same object (or a fresh one for immutables)
                st.env[t.id] = cur | U
            else:
                st.env[t.id] = U
            self.kill_local(t.id, st)
        else:
            self.ev(t, st, load_aug=True)
            self.assign(t, U, st, s, s.value, aug=True)
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                for p in self.target_paths(t, st):
                    self.mutate(p, 'aug', s, st, v)
        return st

    def aug_inplace(self, s, cur, v):
        return True

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
                self.kill_local(t.id, st)
            elif isinstance(t, ast.Attribute):
                for r in self.ev(t.value, st):
                    if r[0] == 'A':
                        self.mutate(self.ext(r[1], t.attr), 'del', s, st)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                self.ev(t.slice, st)
                self.user_item_op(t, '__delitem__', base, [U], st)
                for r in base:
                    if r[0] == 'A':
                        self.mutate(self.ext(r[1], '[]'), 'delitem', s, st)
        return st

    def s_If(self, s, st):
        f = self.formula(s.test, st)
        a, b = st.copy(), st.copy()
        self.assume(f, True, a)
        self.assume(f, False, b)
        if not a.dead:
            a = self.block(s.body, a)
        if not b.dead:
            b = self.block(s.orelse, b)
        return joinall([a, b])

    def _loop(self, s, st, pre, always):
        """pre(state)->(in-state, exit-state)"""
        fr = self.frame
        cur = st.copy()
        exits = []
        for it in range(5):
            lp = {'breaks': [], 'continues': []}
            fr.loops.append(lp)
            ins, exi = pre(cur.copy())
            out = ins if ins.dead else self.block(s.body, ins)
            fr.loops.pop()
            exits = lp['breaks']
            nxt = joinall([cur, out] + lp['continues'])
            if nxt.same(cur):
                cur = nxt
                break
            cur = nxt
        ins, exi = pre(cur.copy())
        if self.loops_run and isinstance(s, (ast.For, ast.AsyncFor)) and not ins.dead:
            lp = {'breaks': [], 'continues': []}     # judge what a loop over a non-empty collection leaves behind
            fr.loops.append(lp)
            out = self.block(s.body, ins)
            fr.loops.pop()
            exi = joinall([out] + lp['continues'])
        if not exi.dead and s.orelse:
            exi = self.block(s.orelse, exi)
        return joinall([exi] + exits)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)

        def pre(c):
            i = c.copy()
            self.assign(s.target, self.elements(it, s.iter, i), i, s, None)
            return i, c
        return self._loop(s, st, pre, False)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        def pre(c):
            f = self.formula(s.test, c)
            a, b = c.copy(), c.copy()
            self.assume(f, True, a)
            self.assume(f, False, b)
            return a, b
        return self._loop(s, st, pre, False)

    def s_Break(self, s, st):
        if self.frame.loops:
            self.frame.loops[-1]['breaks'].append(st.copy())
        return State(dead=True)

    def s_Continue(self, s, st):
        if self.frame.loops:
            self.frame.loops[-1]['continues'].append(st.copy())
        return State(dead=True)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else frozenset([('C', None)])
        if st.dead:
            return st
        if self.frame is self.entry:
            self.on_return(s, v, st)
        self.frame.returns.append((st.copy(), v, s))
        return State(dead=True)

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.on_raise(s, st)
        self.raise_stack[-1].append(st.copy())
        return State(dead=True)

    def s_Assert(self, s, st):
        f = self.formula(s.test, st)
        b = st.copy()
        self.assume(f, False, b)
        if not b.dead:
            self.on_raise(s, b)
            self.raise_stack[-1].append(b)
        self.assume(f, True, st)
        self.on_assert(s, st)
        return st

    def s_Try(self, s, st):
        nret = len(self.frame.returns)
        self.raise_stack.append([])
        cur = st.copy()
        bounds = [cur.copy()]
        for x in s.body:
            if cur.dead:
                break
            cur = self.stmt(x, cur)
            if not cur.dead:
                bounds.append(cur.copy())
        raised = self.raise_stack.pop()
        hstate = joinall(bounds + raised)
        outs = []
        if not cur.dead and s.orelse:
            cur = self.block(s.orelse, cur)
        outs.append(cur)
        self.raise_stack.append([])
        catches_all = False
        for h in s.handlers:
            if h.type is None or dotted(h.type) in ('Exception', 'BaseException', 'AssertionError'):
                catches_all = True
            hs = hstate.copy()
            if h.name:
                hs.env[h.name] = U
            outs.append(self.block(h.body, hs))
        rr = self.raise_stack.pop()
        if not catches_all:
            rr = rr + raised
        out = joinall(outs)
        if s.finalbody:
            newr = self.frame.returns[nret:]
            del self.frame.returns[nret:]
            for (rs, v, n) in newr:
                r2 = self.block(s.finalbody, rs)
                if not r2.dead:
                    self.frame.returns.append((r2, v, n))
            rr = [x for x in (self.block(s.finalbody, r.copy()) for r in rr) if not x.dead]
            if not s.handlers:
                implicit = self.block(s.finalbody, hstate.copy())
            if not out.dead:
                out = self.block(s.finalbody, out)
        self.raise_stack[-1].extend(rr)
        return out

    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s, it.context_expr)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_FunctionDef(self, s, st):
        f = self.frame.func.nested.get(s.name)
        # nested defs of same name in different branches: find by node
        if f is None or f.node is not s:
            f = Func(s, self.frame.func.module, self.frame.func.cls, self.frame.func)
        key = (id(s), self.frame.fid)
        self.closures[key] = (f, dict(st.env), self.frame)
        st.env[s.name] = frozenset([('F', key)])
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = U
        return st

    def s_Import(self, s, st):
        return st

    s_ImportFrom = s_Import
    s_Pass = s_Import

    def s_Global(self, s, st):
        self.frame.globals_.update(s.names)
        return st

    s_Nonlocal = s_Import

    # ---- assignment -----------------------------------------------------
    def kill_local(self, name, st):
        key = '%%%d:%s' % (self.frame.fid, name)
        st.must = frozenset(f for f in st.must if not (f[0] == 'f' and _mentions(f[1], key)))

    def kill_path(self, path, st):
        n = len(path)
        st.must = frozenset(f for f in st.must if not (f[0] == 'f' and _touches(f[1], path)))

    def ext(self, path, a):
        if len(path) >= MAXPATH:
            return path if path[-1] == '*' else path + ('*',)
        return path + (a,)

    def assign(self, t, v, st, node, valnode, aug=False):
        if isinstance(t, ast.Name):
            if t.id in self.frame.globals_:
                self.mutate(('global:' + self.frame.func.module.name + '.' + t.id,), 'set', node, st, v)
                return
            self.kill_local(t.id, st)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            if isinstance(valnode, (ast.Tuple, ast.List)) and len(valnode.elts) == len(t.elts) and \
                    not any(isinstance(e, ast.Starred) for e in list(valnode.elts) + list(t.elts)):
                vals = [self.ev(e, st) for e in valnode.elts]
            tups = [r[1] for r in v if r[0] == 'T' and len(r[1]) == len(t.elts)]
            for i, e in enumerate(t.elts):
                if vals is not None:
                    x = vals[i]
                elif tups:
                    x = frozenset().union(*[tp[i] for tp in tups])
                    if len(tups) != len(v):
                        x = x | self.elements(frozenset(r for r in v if r[0] != 'T'), None, st)
                else:
                    x = self.elements(v, None, st)
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, node, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            for r in sorted(base, key=repr):
                if r[0] == 'A':
                    c = self.class_of(r[1])
                    setter = c.lookup_setter(t.attr) if c is not None else None
                    if setter is not None and self.can_inline(setter, base, [v]):
                        self.inline(setter, frozenset([r]), [v], {}, node, st, c)
                        continue
                    if aug:
                        continue
                    p = self.ext(r[1], t.attr)
                    self.kill_path(p, st)
                    self.mutate(p, 'set', node, st, v)
                    self.record_const(p, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            if aug:
                return
            self.user_item_op(t, '__setitem__', base, [U, v], st)
            for r in sorted(base, key=repr):
                if r[0] == 'A':
                    self.mutate(self.ext(r[1], '[]'), 'setitem', node, st, v)
                elif r[0] == 'S':
                    pass

    def record_const(self, p, v, st):
        """an attribute set to a constant: later tests of it are decided"""
        if len(v) == 1:
            r = next(iter(v))
            if r[0] == 'C' and '[]' not in p and '*' not in p and '?' not in p:
                if r[1] is None:
                    st.must = st.must | {('f', ('none', p), True)}
                elif isinstance(r[1], bool):
                    st.must = st.must | {('f', ('t', p), r[1])}

    def user_item_op(self, node, name, base, args, st):
        for r in base:
            if r[0] == 'A':
                c = self.class_of(r[1])
                f = c.lookup(name) if c is not None else None
                if f is not None and self.can_inline(f, base, args):
                    self.inline(f, frozenset([r]), args, {}, node, st, c)

    def target_paths(self, t, st):
        if isinstance(t, ast.Attribute):
            return [self.ext(r[1], t.attr) for r in self.ev(t.value, st) if r[0] == 'A']
        return [self.ext(r[1], '[]') for r in self.ev(t.value, st) if r[0] == 'A']

    def mutate(self, path, how, node, st, value=U):
        self.on_mutate(path, how, node, st, value)

    def class_of(self, path):
        if path[0] in self.newcls and len(path) == 1:
            return self.newcls[path[0]]
        if path == ('self',) or (self.entry.func.has_self and path == (self.entry.func.params[0],)):
            if not self.entry.func.is_classmethod:
                return self.entry_cls
        return self.path_class(path)

    # ---- expressions ----------------------------------------------------
    def ev(self, e, st, load_aug=False):
        if e is None:
            return U
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st)
            return U
        return m(e, st)

    def e_Constant(self, e, st):
        return frozenset([('C', e.value)]) if isinstance(e.value, (str, int, float, bool, bytes, type(None))) else U

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if e.id == 'self' and False:
            return U
        r = self.ix.resolve_name(e.id, self.frame.func.module, self.frame.func)
        if isinstance(r, Func):
            return frozenset([('G', r.qual)])
        if isinstance(r, Cls):
            return frozenset([('K', r.qual)])
        if isinstance(r, tuple) and r[0] == 'assign':
            return frozenset([('A', ('global:%s.%s' % (r[1].name, r[2]),))])
        if e.id in ('True', 'False', 'None'):
            return frozenset([('C', {'True': True, 'False': False, 'None': None}[e.id])])
        return U

    def e_Attribute(self, e, st):
        # fully resolved module attributes
        if isinstance(e.value, (ast.Name, ast.Attribute)):
            d = e.value
            root = d
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                r = self.ix.resolve_expr(e, self.frame.func.module, self.frame.func)
                if isinstance(r, Func):
                    return frozenset([('G', r.qual)])
                if isinstance(r, Cls):
                    return frozenset([('K', r.qual)])
                if isinstance(r, tuple) and r[0] == 'assign':
                    return frozenset([('A', ('global:%s.%s' % (r[1].name, r[2]),))])
                if isinstance(r, tuple) and r[0] == 'ext':
                    return frozenset([('E', r[1])])
        base = self.ev(e.value, st)
        if st.dead:
            return U
        out = set()
        for r in sorted(base, key=repr):
            if r[0] in ('A', 'S'):
                path = r[1]
                if r[0] == 'A':
                    c = self.class_of(path)
                    if c is not None:
                        f = c.lookup(e.attr)
                        if f is not None and (f.is_property):
                            if self.can_inline(f, frozenset([r]), []):
                                out |= self.inline(f, frozenset([r]), [], {}, e, st, c)
                                continue
                            self.on_call(e, f, frozenset([r]), [], {}, st)
                        elif f is not None:
                            out.add(('M', path, f.qual))
                            continue
                    if e.attr in VIEW_ATTRS:
                        out.add(('A', path))
                        continue
                p = self.ext(path, e.attr)
                self.on_read(p, e, st)
                out.add(('A', p))
            else:
                out.add(('U',))
        return frozenset(out) or U

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        self.ev(e.slice, st)
        out = set()
        full = isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None
        isslice = isinstance(e.slice, ast.Slice) or (isinstance(e.slice, ast.Tuple) and
                                                     any(isinstance(x, ast.Slice) for x in e.slice.elts))
        for r in base:
            if r[0] == 'A':
                c = self.class_of(r[1])
                f = c.lookup('__getitem__') if c is not None else None
                if f is not None and self.can_inline(f, frozenset([r]), [U]):
                    out |= self.inline(f, frozenset([r]), [U], {}, e, st, c)
                    continue
                if full:
                    out.add(('S', r[1]))
                elif isslice:
                    out.add(('A', r[1]))
                else:
                    out.add(('A', self.ext(r[1], '[]')))
            elif r[0] == 'S':
                if isslice:
                    out.add(r)
                else:
                    out.add(('A', self.ext(r[1], '[]')))
            elif r[0] == 'T':
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                        -len(r[1]) <= e.slice.value < len(r[1]):
                    out |= r[1][e.slice.value]
                else:
                    for x in r[1]:
                        out |= x
            else:
                out.add(('U',))
        return frozenset(out) or U

    def elements(self, v, iternode, st):
        out = set()
        for r in v:
            if r[0] in ('A', 'S'):
                out.add(('A', self.ext(r[1], '[]')))
            elif r[0] == 'T':
                for x in r[1]:
                    out |= x
            elif r[0] == 'I':      # items(): tuple (key, value)
                out.add(('T', (U, frozenset([('A', self.ext(r[1], '[]'))]))))
            elif r[0] == 'Z':      # zip / enumerate
                out.add(('T', tuple(self.elements(x, None, st) if x != 'n' else U for x in r[1])))
            else:
                out.add(('U',))
        return frozenset(out) or U

    def e_Tuple(self, e, st):
        xs = tuple(self.ev(x, st) for x in e.elts)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return frozenset(r for x in xs for r in x) or U
        if len(xs) <= 8:
            return frozenset([('T', xs)])
        return U

    e_List = e_Tuple

    def e_Set(self, e, st):
        for x in e.elts:
            self.ev(x, st)
        return U

    def e_Dict(self, e, st):
        for k in e.keys:
            if k is not None:
                self.ev(k, st)
        vals = [self.ev(v, st) for v in e.values]
        out = set()
        for v in vals:
            out |= v
        # container holding these values
        if vals and len(vals) <= 40:
            return frozenset([('T', tuple(vals))]) if False else U | frozenset(
                r for r in () )
        return U

    def e_Starred(self, e, st):
        return self.elements(self.ev(e.value, st), None, st)

    def e_BinOp(self, e, st):
        self.ev(e.left, st)
        self.ev(e.right, st)
        return U

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return frozenset([('B', ('not', self.formula(e.operand, st)))])
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub) and len(v) == 1:
            c = next(iter(v))
            if c[0] == 'C' and isinstance(c[1], (int, float)):
                return frozenset([('C', -c[1])])
        return U

    def e_BoolOp(self, e, st):
        vals = []
        fs = []
        for x in e.values:
            fs.append(self.formula(x, st, keep=vals))
        out = set()
        for v in vals:
            out |= v
        kind = 'and' if isinstance(e.op, ast.And) else 'or'
        if all(all(r[0] in ('B', 'C') for r in v) for v in vals):
            return frozenset([('B', (kind, tuple(fs)))])
        return frozenset(r for r in out) or U

    def e_Compare(self, e, st):
        return frozenset([('B', self.formula(e, st))])

    def e_IfExp(self, e, st):
        f = self.formula(e.test, st)
        a, b = st.copy(), st.copy()
        self.assume(f, True, a)
        self.assume(f, False, b)
        va = self.ev(e.body, a) if not a.dead else frozenset()
        vb = self.ev(e.orelse, b) if not b.dead else frozenset()
        st.assign(joinall([a, b]))
        return (va | vb) or U

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e, e.value)
        return v

    def e_Lambda(self, e, st):
        key = (id(e), self.frame.fid)
        self.closures[key] = (e, dict(st.env), self.frame)
        return frozenset([('F', key)])

    def _comp(self, e, elts, st):
        saved = dict(st.env)
        pre = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, st)
            self.assign(g.target, self.elements(it, g.iter, st), st, g, None) if not st.dead else None
            for c in g.ifs:
                f = self.formula(c, st)
                self.assume(f, True, st)
        vals = []
        if not st.dead:
            vals = [self.ev(x, st) for x in elts]
        for n in list(st.env):
            if n in saved:
                st.env[n] = saved[n]
            elif not st.dead:
                del st.env[n]
        # zero-iteration path
        out = joinall([pre, st])
        st.assign(out)
        return vals

    def e_ListComp(self, e, st):
        v = self._comp(e, [e.elt], st)
        return self.contain(v[0] if v else U)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        v = self._comp(e, [e.key, e.value], st)
        return self.contain(v[1] if v else U)

    def contain(self, elt):
        """abstract value for a fresh container whose elements are `elt`"""
        out = set()
        for r in elt:
            if r[0] == 'A' and r[1][-1] == '[]':
                out.add(('S', r[1][:-1]))
            elif r[0] == 'A':
                out.add(('T', (frozenset([r]),)))
            else:
                out.add(('U',))
        return frozenset(out) or U

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else U
        self.on_yield(e, v, st)
        return U

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.on_yield(e, self.elements(v, None, st), st)
        return U

    def on_yield(self, e, v, st):
        pass

    def e_JoinedStr(self, e, st):
        for x in ast.walk(e):
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, st)
        return U

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return U

    # ---- calls ------------------------------------------------------------
    def can_inline(self, f, recv, args):
        if len(self.stack) > self.max_depth:
            return False
        if f in self.stack:
            return False
        return self.should_inline(f, recv, args)

    def funcs_by_qual(self, q):
        c = self.ix.__dict__.setdefault('_byqual', None)
        if c is None:
            c = {}
            for f in self.ix.funcs:
                c.setdefault(f.qual, f)
            for k in self.ix.classes:
                c.setdefault(k.qual, k)
            self.ix._byqual = c
        return c.get(q)

    def extname(self, fn):
        r = self.ix.resolve_expr(fn, self.frame.func.module, self.frame.func) \
            if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(r, tuple) and r[0] == 'ext':
            return r[1]
        if isinstance(fn, ast.Name) and r is None:
            return fn.id
        d = dotted(fn)
        return d

    def e_Call(self, e, st):
        self.stats['calls'] += 1
        fn = e.func
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super':
            args, kwargs = self.evargs(e, st)
            if st.dead:
                return U
            f = self.frame.func
            while f.parent is not None:
                f = f.parent
            if f.cls is not None:
                selfv = st.env.get(f.params[0], U) if f.params else U
                res = set()
                for r in selfv:
                    dyn = self.class_of(r[1]) if r[0] == 'A' else (self.funcs_by_qual(r[1]) if r[0] == 'K' else None)
                    base = dyn if (dyn is not None and f.cls in dyn.mro()) else f.cls
                    tgt = base.lookup_after(f.cls, fn.attr)
                    if tgt is not None:
                        res |= self.docall(e, tgt, frozenset([r]), args, kwargs, st, base)
                    else:
                        self.on_precall(e, None, frozenset([r]), args, kwargs, st)
                        res |= self.builtin_method(e, fn.attr, frozenset([r]), args, kwargs, st, super_ext=True)
                return frozenset(res) or U
            return U
        if isinstance(fn, ast.Name) and fn.id in ('isinstance', 'hasattr', 'callable', 'len', 'str', 'repr', 'id',
                                                  'hash', 'bool', 'int', 'float', 'abs') and fn.id not in st.env:
            args, kwargs = self.evargs(e, st)
            if fn.id == 'isinstance':
                return frozenset([('B', self.inst_formula(e, st))])
            if fn.id == 'bool' and len(e.args) == 1:
                return frozenset([('B', self.formula(e.args[0], st))])
            if fn.id in ('len', 'str', 'repr', 'hash'):
                self.dunder_call(e, '__%s__' % fn.id, args[0] if args else U, st)
            self.on_precall(e, ('ext', fn.id), U, args, kwargs, st)
            return U
        fv = None
        recv = U
        if isinstance(fn, ast.Attribute):
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            resolved = None
            if isinstance(root, ast.Name) and root.id not in st.env:
                resolved = self.ix.resolve_expr(fn, self.frame.func.module, self.frame.func)
            if isinstance(resolved, (Func, Cls)):
                args, kwargs = self.evargs(e, st)
                if st.dead:
                    return U
                if isinstance(resolved, Cls):
                    return self.construct(e, resolved, args, kwargs, st)
                # Class.method(self, ...) or module function
                cexpr = self.ix.resolve_expr(fn.value, self.frame.func.module, self.frame.func)
                if isinstance(cexpr, Cls):
                    if resolved.is_classmethod:
                        return self.docall(e, resolved, frozenset([('K', cexpr.qual)]), args, kwargs, st, cexpr)
                    if resolved.is_static:
                        return self.docall(e, resolved, None, args, kwargs, st, None)
                    rv = args[0] if args else U
                    return self.docall(e, resolved, rv, args[1:], kwargs, st, None)
                return self.docall(e, resolved, None, args, kwargs, st, None)
            if isinstance(resolved, tuple) and resolved[0] == 'ext':
                args, kwargs = self.evargs(e, st)
                if st.dead:
                    return U
                return self.ext_call(e, resolved[1], args, kwargs, st)
            # method on a value
            recv = self.ev(fn.value, st)
            args, kwargs = self.evargs(e, st)
            if st.dead:
                return U
            if fn.attr == '__new__':
                for r in recv:
                    if r[0] == 'K':
                        return self.newobj(e, self.funcs_by_qual(r[1]))
                if args:
                    for r in args[0]:
                        if r[0] == 'K':
                            return self.newobj(e, self.funcs_by_qual(r[1]))
                return U
            if fn.attr == '__class__':
                pass
            res = set()
            anyuser = False
            for r in sorted(recv, key=repr):
                if r[0] == 'A':
                    if fn.attr == '__class__':
                        c = self.class_of(r[1])
                        if c is not None:
                            res |= self.construct(e, c, args, kwargs, st)
                            anyuser = True
                            continue
                    c = self.class_of(r[1])
                    f = c.lookup(fn.attr) if c is not None else None
                    if f is not None:
                        anyuser = True
                        if f.is_property:
                            self.ev(fn, st)
                            self.on_precall(e, None, frozenset([r]), args, kwargs, st)
                        elif f.is_static:
                            res |= self.docall(e, f, None, args, kwargs, st, None)
                        elif f.is_classmethod:
                            res |= self.docall(e, f, frozenset([('K', c.qual)]), args, kwargs, st, c)
                        else:
                            res |= self.docall(e, f, frozenset([r]), args, kwargs, st, c)
                        continue
                elif r[0] == 'K':
                    k = self.funcs_by_qual(r[1])
                    f = k.lookup(fn.attr)
                    if f is not None:
                        anyuser = True
                        if f.is_classmethod:
                            res |= self.docall(e, f, frozenset([r]), args, kwargs, st, k)
                        elif f.is_static:
                            res |= self.docall(e, f, None, args, kwargs, st, None)
                        else:
                            res |= self.docall(e, f, args[0] if args else U, args[1:], kwargs, st, None)
                        continue
                elif r[0] == 'E':
                    res |= self.ext_call(e, r[1] + '.' + fn.attr, args, kwargs, st)
                    anyuser = True
                    continue
                res |= self.builtin_method(e, fn.attr, frozenset([r]), args, kwargs, st)
            if not anyuser:
                self.on_precall(e, None, recv, args, kwargs, st)
                v = self.on_call(e, None, recv, args, kwargs, st)
                if v is not None:
                    res = set(v)
            return frozenset(res) or U
        # plain name or other callable expression
        fv = self.ev(fn, st)
        args, kwargs = self.evargs(e, st)
        if st.dead:
            return U
        res = set()
        done = False
        for r in sorted(fv, key=repr):
            if r[0] == 'G':
                f = self.funcs_by_qual(r[1])
                res |= self.docall(e, f, None, args, kwargs, st, None)
                done = True
            elif r[0] == 'K':
                res |= self.construct(e, self.funcs_by_qual(r[1]), args, kwargs, st)
                done = True
            elif r[0] == 'F':
                res |= self.call_closure(e, r[1], args, kwargs, st)
                done = True
            elif r[0] == 'M':
                f = self.funcs_by_qual(r[2])
                c = self.class_of(r[1])
                res |= self.docall(e, f, frozenset([('A', r[1])]), args, kwargs, st, c)
                done = True
            elif r[0] == 'E':
                res |= self.ext_call(e, r[1], args, kwargs, st)
                done = True
            elif r[0] == 'A' and r[1][-1] == '__class__':
                c = self.class_of(r[1][:-1])
                if c is not None:
                    res |= self.construct(e, c, args, kwargs, st)
                    done = True
        if not done:
            # cls(...) in a classmethod, builtins, externals
            if isinstance(fn, ast.Name) and fn.id not in st.env:
                nm = self.extname(fn)
                return self.ext_call(e, nm, args, kwargs, st)
            if isinstance(fn, ast.Name) and self.frame.func.is_classmethod and fn.id == self.frame.func.params[0]:
                c = self.frame.dyncls or self.frame.func.cls
                return self.construct(e, c, args, kwargs, st)
            if isinstance(fn, ast.Call) and dotted(fn.func) == 'type':
                v = self.ev(fn.args[0], st) if fn.args else U
                for r in v:
                    if r[0] == 'A':
                        c = self.class_of(r[1])
                        if c is not None:
                            return self.construct(e, c, args, kwargs, st)
            self.on_precall(e, None, U, args, kwargs, st)
            v = self.on_call(e, None, fv, args, kwargs, st)
            self.callbacks(e, args, kwargs, st)
            return v if v is not None else U
        return frozenset(res) or U

    def dunder_call(self, e, name, v, st):
        for r in v:
            if r[0] == 'A':
                c = self.class_of(r[1])
                f = c.lookup(name) if c is not None else None
                if f is not None and self.can_inline(f, frozenset([r]), []):
                    self.inline(f, frozenset([r]), [], {}, e, st, c)

    def evargs(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                args.append(('*', v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        clean = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                clean.append(self.elements(a[1], None, st))
                kwargs.setdefault('*', True)
            else:
                clean.append(a)
        return clean, kwargs

    def newobj(self, e, c):
        root = 'new:%s:%d:%d:%s' % (self.frame.func.name, e.lineno, e.col_offset, c.name)
        self.newcls[root] = c
        return frozenset([('A', (root,))])

    def construct(self, e, c, args, kwargs, st):
        self.on_precall(e, c, None, args, kwargs, st)
        v = self.on_construct(e, c, args, kwargs, st)
        if v is not None:
            return v
        obj = self.newobj(e, c)
        init = c.lookup('__init__')
        if self.inline_init and init is not None and self.can_inline(init, obj, args):
            self.inline(init, obj, args, kwargs, e, st, c)
        else:
            self.on_call(e, c, None, args, kwargs, st)
            self.callbacks(e, args, kwargs, st)
        return obj

    def on_construct(self, e, c, args, kwargs, st):
        return None

    def docall(self, e, f, recv, args, kwargs, st, dyncls):
        self.on_precall(e, f, recv, args, kwargs, st)
        if self.can_inline(f, recv, args):
            return self.inline(f, recv, args, kwargs, e, st, dyncls)
        v = self.on_call(e, f, recv, args, kwargs, st)
        self.callbacks(e, args, kwargs, st)
        return v if v is not None else U

    def callbacks(self, e, args, kwargs, st):
        """local functions passed as arguments may be invoked by the callee"""
        for a in list(args) + [v for k, v in kwargs.items() if isinstance(v, frozenset)]:
            for r in a:
                if r[0] == 'F':
                    s2 = st.copy()
                    self.call_closure(e, r[1], [], {}, s2, unknown_args=True)
                    st.assign(joinall([st, s2]))

    def call_closure(self, e, key, args, kwargs, st, unknown_args=False):
        f, env, fr = self.closures[key]
        if isinstance(f, ast.Lambda):
            if len(self.stack) > self.max_depth + 2 or f in self.stack:
                return U
            saved = st.env
            st.env = dict(env)
            ps = [p.arg for p in f.args.posonlyargs + f.args.args]
            for i, p in enumerate(ps):
                st.env[p] = args[i] if i < len(args) else kwargs.get(p, U)
            self.stack.append(f)
            v = self.ev(f.body, st)
            self.stack.pop()
            st.env = saved
            return v
        if len(self.stack) > self.max_depth + 2 or f in self.stack:
            return U
        return self.inline(f, None, args, kwargs, e, st, self.frame.dyncls, closure_env=(
            st.env if fr is self.frame else env))

    def ext_call(self, e, name, args, kwargs, st):
        self.on_precall(e, ('ext', name), U, args, kwargs, st)
        v = self.on_call(e, ('ext', name), U, args, kwargs, st)
        if v is not None:
            return v
        if name is None:
            return U
        a0 = args[0] if args else U
        if 'out' in kwargs:
            for r in kwargs['out']:
                if r[0] == 'A':
                    self.mutate(r[1], 'out=', e, st)
        if name in ARG0_MUTATING_CALLS:
            for r in a0:
                if r[0] == 'A':
                    self.mutate(self.ext(r[1], '[]'), 'call:' + name, e, st)
            return U
        if name == 'setattr' and len(e.args) >= 2:
            nm = e.args[1].value if isinstance(e.args[1], ast.Constant) else '?'
            for r in a0:
                if r[0] == 'A':
                    self.mutate(self.ext(r[1], nm), 'set', e, st, args[2] if len(args) > 2 else U)
            return U
        if name == 'delattr' and len(e.args) >= 2:
            nm = e.args[1].value if isinstance(e.args[1], ast.Constant) else '?'
            for r in a0:
                if r[0] == 'A':
                    self.mutate(self.ext(r[1], nm), 'del', e, st)
            return U
        if name == 'getattr' and len(e.args) >= 2:
            if isinstance(e.args[1], ast.Constant):
                fake = ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load())
                ast.copy_location(fake, e)
                return self.e_Attribute(fake, st)
            return frozenset(('A', self.ext(r[1], '?')) if r[0] == 'A' else ('U',) for r in a0)
        if name == 'vars':
            return frozenset(('A', self.ext(r[1], '__dict__')) if r[0] == 'A' else ('U',) for r in a0)
        if name in ('next', 'max', 'min'):
            return self.elements(a0, None, st) if len(args) == 1 or name == 'next' else U
        if name in ('enumerate',):
            return frozenset([('Z', ('n', a0))])
        if name == 'zip':
            return frozenset([('Z', tuple(args))]) if len(args) <= 6 else U
        if name == 'map' and args:
            for r in a0:
                if r[0] in ('F', 'M', 'G'):
                    els = [self.elements(a, None, st) for a in args[1:]]
                    s2 = st.copy()
                    v = U
                    if r[0] == 'F':
                        v = self.call_closure(e, r[1], els, {}, s2)
                    elif r[0] == 'M':
                        v = self.docall(e, self.funcs_by_qual(r[2]), frozenset([('A', r[1])]), els, {}, s2,
                                        self.class_of(r[1]))
                    else:
                        v = self.docall(e, self.funcs_by_qual(r[1]), None, els, {}, s2, None)
                    st.assign(joinall([st, s2]))
                    return self.contain(v)
            return U
        if name in SHALLOW_CALLS:
            out = set()
            for r in a0:
                if r[0] in ('A', 'S'):
                    out.add(('S', r[1]))
                elif r[0] in ('T', 'I', 'Z'):
                    out.add(r)
                else:
                    out.add(('U',))
            self.callbacks(e, args, kwargs, st)
            return frozenset(out) or U
        if name in VIEW_CALLS:
            return a0
        if name == 'functools.partial' or name == 'partial':
            return U
        self.callbacks(e, args, kwargs, st)
        return U

    def builtin_method(self, e, attr, recv, args, kwargs, st, super_ext=False):
        out = set()
        for r in recv:
            if r[0] == 'A':
                p = r[1]
                if super_ext and attr in ('__init__',):
                    continue
                if attr in MUTATORS and self.mutator_ok(attr, p, e, args):
                    self.mutate(p if p and p[-1] == '__dict__' else self.ext(p, '[]'), 'call:' + attr, e, st,
                                args[-1] if args else U)
                if attr in VIEW_METHODS:
                    out.add(r)
                elif attr == 'items':
                    out.add(('I', p))
                elif attr in ELEM_METHODS:
                    if attr == 'values':
                        out.add(('S', p))
                    else:
                        out.add(('A', self.ext(p, '[]')))
                elif attr == 'copy':
                    out.add(('S', p) if self.copy_is_shallow(p) else ('U',))
                elif attr in ('keys',):
                    out.add(('U',))
                else:
                    out.add(('U',))
                if 'out' in kwargs:
                    for q in kwargs['out']:
                        if q[0] == 'A':
                            self.mutate(q[1], 'out=', e, st)
            elif r[0] == 'S':
                if attr == 'items':
                    out.add(('I', r[1]))
                elif attr == 'values':
                    out.add(r)
                elif attr in ELEM_METHODS:
                    out.add(('A', self.ext(r[1], '[]')))
                elif attr == 'copy':
                    out.add(r)
                else:
                    out.add(('U',))
            else:
                out.add(('U',))
        self.callbacks(e, args, kwargs, st)
        return frozenset(out) or U

    def mutator_ok(self, attr, path, e, args):
        return True

    def copy_is_shallow(self, path):
        return False

    def inline(self, f, recv, args, kwargs, node, st, dyncls, closure_env=None):
        """abstractly execute f's body in the current state; returns the abstract return value"""
        self.stats['inlined'] += 1
        env = dict(closure_env) if closure_env is not None else {}
        params = list(f.params)
        a = list(args)
        if f.has_self and recv is not None:
            env[params[0]] = recv
            params = params[1:]
        star = kwargs.get('*') or '**' in kwargs
        bound = set()
        for i, p in enumerate(params):
            if i < len(a):
                env[p] = a[i]
                bound.add(p)
            elif p in kwargs:
                env[p] = kwargs[p]
                bound.add(p)
        for p in f.kwonly:
            if p in kwargs:
                env[p] = kwargs[p]
                bound.add(p)
        for p in params + f.kwonly:
            if p not in bound:
                d = f.defaults.get(p)
                if star and p not in self.star_defaults:
                    env[p] = U
                elif isinstance(d, ast.Constant):
                    env[p] = frozenset([('C', d.value)])
                else:
                    env[p] = U
        if f.vararg:
            env[f.vararg] = U
        if f.kwarg:
            env[f.kwarg] = U
        key = None
        try:
            key = (f.qual, dyncls.qual if dyncls else None, tuple(sorted(env.items())), st.must, st.may)
            hit = self.memo.get(key)
        except TypeError:
            hit = None
            key = None
        if hit is not None:
            must, may, dead, ret, raises = hit
            for (m, y) in raises:
                self.raise_stack[-1].append(State(dict(st.env), m, y))
            st.must, st.may, st.dead = must, may, dead
            return ret
        saved_env = st.env
        caller = self.frame
        fr = Frame(f, dyncls, node, caller)
        self._fid += 1
        fr.fid = self._fid
        self.frame = fr
        self.stack.append(f)
        self.raise_stack.append([])
        inner = State(env, st.must, st.may)
        out = self.block(f.node.body, inner)
        rets = list(fr.returns)
        if not out.dead:
            rets.append((out, frozenset([('C', None)]), f.node))
        self.stack.pop()
        self.frame = caller
        raises = self.raise_stack.pop()
        pre = '%%%d:' % fr.fid
        drop = lambda m: frozenset(x for x in m if not (x[0] == 'f' and _mentions_prefix(x[1], pre)))
        rs = [(drop(r.must), r.may) for r in raises if not r.dead]
        for (m, y) in rs:
            self.raise_stack[-1].append(State(dict(saved_env), m, y))
        ret = set()
        if rets:
            j = joinall([r[0] for r in rets])
            st.must, st.may, st.dead = drop(j.must), j.may, j.dead
            for r in rets:
                ret |= r[1]
        else:
            st.dead = True
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            ret = set(U)
        st.env = saved_env
        ret = frozenset(ret) or U
        if key is not None and not any(r[0] == 'F' for r in ret):
            self.memo[key] = (st.must, st.may, st.dead, ret, rs)
        return ret

    # ---- conditions ----------------------------------------------------------
    def keyof(self, e, v):
        """a stable key for the value of expression e, or None"""
        if len(v) == 1:
            r = next(iter(v))
            if r[0] == 'A' and '[]' not in r[1] and '*' not in r[1] and '?' not in r[1] and not (
                    isinstance(e, ast.Call)):
                return r[1]
            if r[0] == 'A' and isinstance(e, ast.Call) and '[]' not in r[1]:
                return r[1]
        if isinstance(e, ast.Name):
            return ('%%%d:%s' % (self.frame.fid, e.id),)
        return None

    def formula(self, e, st, keep=None):
        """closed formula for the truth of e"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if keep is not None:
                keep.append(frozenset([('B', ('?',))]))
            return ('not', self.formula(e.operand, st))
        if isinstance(e, ast.BoolOp):
            if keep is not None:
                keep.append(self.ev(e, st))
            # evaluate later operands under the assumption of earlier ones
            s2 = st.copy()
            fs = []
            for x in e.values:
                f = self.formula(x, s2)
                fs.append(f)
                self.assume(f, isinstance(e.op, ast.And), s2)
                if s2.dead:
                    s2 = st.copy()
            st.may = st.may | s2.may
            return ('and' if isinstance(e.op, ast.And) else 'or', tuple(fs))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            lv = self.ev(e.left, st)
            rv = self.ev(e.comparators[0], st)
            if keep is not None:
                keep.append(frozenset([('B', ('?',))]))
            op = e.ops[0]
            neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
            l, r, le, re_ = lv, rv, e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                lc = [x for x in l if x[0] == 'C']
                if len(l) == 1 and lc and not (len(r) == 1 and next(iter(r))[0] == 'C'):
                    l, r, le, re_ = r, l, re_, le
                if len(r) == 1 and next(iter(r))[0] == 'C':
                    c = next(iter(r))[1]
                    if l and all(x[0] == 'C' for x in l):
                        res = set(x[1] == c and type(x[1]) == type(c) or (x[1] == c and c is not None) for x in l)
                        if len(res) == 1:
                            return ('const', res.pop() != neg)
                    if c is None and l and all(x[0] in ('T', 'F', 'K', 'M', 'G', 'B') or
                                               (x[0] == 'C' and x[1] is not None) for x in l):
                        return ('const', neg)
                    # mixed constant possibilities fall through to a keyed atom
                    k = self.keyof(le, l)
                    if k is not None:
                        f = ('atom', ('none', k)) if c is None else ('atom', ('eq', k, c))
                        return ('not', f) if neg else f
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(re_, (ast.Tuple, ast.List, ast.Set)) and \
                    all(isinstance(x, ast.Constant) for x in re_.elts):
                if l and all(x[0] == 'C' for x in l):
                    vals = set(x[1] in [y.value for y in re_.elts] for x in l)
                    if len(vals) == 1:
                        return ('const', vals.pop() != neg)
                k = self.keyof(le, l)
                if k is not None:
                    f = ('or', tuple(('atom', ('none', k) if x.value is None else ('eq', k, x.value)) for x in re_.elts))
                    return ('not', f) if neg else f
            kl, kr = self.keyof(le, l), self.keyof(re_, r)
            if kl is not None and kr is not None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                f = ('atom', ('same', kl, kr))
                return ('not', f) if neg else f
            return ('?',)
        if isinstance(e, ast.Compare):
            self.ev(e.left, st)
            for x in e.comparators:
                self.ev(x, st)
            if keep is not None:
                keep.append(frozenset([('B', ('?',))]))
            return ('?',)
        if isinstance(e, ast.Call) and dotted(e.func) == 'isinstance' and len(e.args) == 2:
            self.evargs(e, st)
            if keep is not None:
                keep.append(frozenset([('B', ('?',))]))
            return self.inst_formula(e, st)
        v = self.ev(e, st)
        if keep is not None:
            keep.append(v)
        return self.truth(e, v)

    def truth(self, e, v):
        if v and all(r[0] in ('C', 'B') for r in v):
            fs = [('const', bool(r[1])) if r[0] == 'C' else r[1] for r in v]
            if len(fs) == 1:
                return fs[0]
            if all(f[0] == 'const' for f in fs) and len(set(f[1] for f in fs)) == 1:
                return fs[0]
            if isinstance(e, ast.Name):
                return ('atom', ('t', ('%%%d:%s' % (self.frame.fid, e.id),)))
            return ('?',)
        if v and all(r[0] in ('F', 'K', 'M', 'G') for r in v):
            return ('const', True)
        k = self.keyof(e, v)
        return ('atom', ('t', k)) if k is not None else ('?',)

    def inst_formula(self, e, st):
        v = self.ev(e.args[0], st)
        k = self.keyof(e.args[0], v)
        d = ast.dump(e.args[1])
        if k is None:
            return ('?',)
        return ('atom', ('inst', k, d))

    def known(self, atom, st):
        m = st.must
        if ('f', atom, True) in m:
            return True
        if ('f', atom, False) in m:
            return False
        kind = atom[0]
        if kind == 't':
            if ('f', ('none', atom[1]), True) in m:
                return False
            for f in m:
                if f[0] == 'f' and f[2] is True and f[1][0] == 'eq' and f[1][1] == atom[1]:
                    return bool(f[1][2])
        elif kind == 'none':
            if ('f', ('t', atom[1]), True) in m:
                return False
            for f in m:
                if f[0] == 'f' and f[2] is True and f[1][0] in ('eq', 'inst') and f[1][1] == atom[1]:
                    return False
        elif kind == 'eq':
            if ('f', ('none', atom[1]), True) in m:
                return False
            for f in m:
                if f[0] == 'f' and f[2] is True and f[1][0] == 'eq' and f[1][1] == atom[1] and f[1][2] != atom[2]:
                    return False
            if atom[2] and ('f', ('t', atom[1]), False) in m:
                return False
        elif kind == 'inst':
            if ('f', ('none', atom[1]), True) in m:
                return False
        return None

    def assume(self, f, pol, st):
        k = f[0]
        if st.dead or k == '?':
            return
        if k == 'const':
            if f[1] != pol:
                st.dead = True
        elif k == 'not':
            self.assume(f[1], not pol, st)
        elif k == 'atom':
            v = self.known(f[1], st)
            if v is not None:
                if v != pol:
                    st.dead = True
                return
            st.must = st.must | {('f', f[1], pol)}
            self.on_fact(f[1], pol, st)
        elif (k == 'and') == pol:
            for x in f[1]:
                self.assume(x, pol, st)
        else:
            outs = []
            cur = st.copy()
            for x in f[1]:
                alt = cur.copy()
                self.assume(x, pol, alt)
                outs.append(alt)
                self.assume(x, not pol, cur)
                if cur.dead:
                    break
            st.assign(joinall(outs))

    def on_fact(self, atom, pol, st):
        pass


def _paths(atom):
    for x in atom[1:]:
        if isinstance(x, tuple):
            yield x


def _mentions(atom, key):
    return any(key in p for p in _paths(atom))


def _mentions_prefix(atom, pre):
    return any(isinstance(c, str) and c.startswith(pre) for p in _paths(atom) for c in p)


def _touches(atom, path):
    n = len(path)
    return any(p[:n] == path for p in _paths(atom))


def fact(st, kind, path, *rest):
    """True/False/None"""
    atom = (kind, path) + rest
    if ('f', atom, True) in st.must:
        return True
    if ('f', atom, False) in st.must:
        return False
    return None
