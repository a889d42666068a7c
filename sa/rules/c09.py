"""C09: derivative routines honour their parameter filters, on every path, each on its own axis.

Every function taking a parameter filter (wrtFilter*, wrtSlice*) is walked path by path with labels: which filter a value
depends on, whether its columns were already selected, and (for arrays made with a shape) which filter each axis belongs to.
"""
import ast
import re
from collections import namedtuple
from ..index import Index, Func, AnalysisBroken
from ..paths import PathWalk, State
from ..report import Result

FILTER = re.compile(r'^wrt(Filter|Slice|_filter|Indices)\d?$')
DIGIT = re.compile(r'^(\D*.*?)([12])(\D*)$')
V = namedtuple('V', 'dep lanes sel axes')     # filters depended on; lanes (1/2); filters already applied; axis lanes
NONE = V(frozenset(), frozenset(), frozenset(), None)
CONVERT = {'list_to_slice', 'indices', 'length', 'len', 'isinstance', '_setParamBlockSize', 'print', 'warn', 'shift', 'str', 'list',
           'range', 'array', 'asarray', 'int'}
GP = '#gpindices'
PRODUCTS = {'dot', 'einsum', 'multiply', 'matmul', 'tensordot', 'outer', 'kron'}
KEEP = {'view', 'copy', 'real', 'imag', 'conj', 'conjugate', 'astype', 'array', 'asarray', 'ascontiguousarray'}


def lane(n):
    """the number of a numbered name (wrtFilter1, blk2Owners)"""
    m = re.match(r'^(.*\D)([12])$', n) or re.match(r'^([^\d]+)([12])([^\d]+)$', n)
    return m.group(2) if m else None


def sibling(n):
    m = re.match(r'^(.*\D)([12])()$', n) or re.match(r'^([^\d]+)([12])([^\d]+)$', n)
    return m.group(1) + ('2' if m.group(2) == '1' else '1') + m.group(3)


def isnone(t):
    """name tested for None by the test"""
    if isinstance(t, ast.UnaryOp):
        return isnone(t.operand)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.left, ast.Name):
        return t.left.id
    return None


def union(vals):
    vals = [v for v in vals if isinstance(v, V)]
    if not vals:
        return NONE
    return V(frozenset().union(*[v.dep for v in vals]), frozenset().union(*[v.lanes for v in vals]),
             frozenset().union(*[v.sel for v in vals]), None)


class Walk(PathWalk):
    ZERO_TRIP = False     # the derivative of nothing at all is not interesting

    def __init__(self, ix, f, res, sigs):
        PathWalk.__init__(self)
        self.ix, self.f, self.res, self.sigs = ix, f, res, sigs
        self.member = f.name.endswith(('deriv_wrt_params', 'hessian_wrt_params'))
        self.filters = [p for p in f.params + f.kwonly if FILTER.match(p)]
        self.pairs = set()
        names = set(f.params + f.kwonly)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                names.add(n.id)
        for n in names:
            if lane(n) and sibling(n) in names:
                self.pairs.add(n)
        own = [p for p in self.pairs if FILTER.match(p)]
        self.pairs |= {n for n in names if any(n.endswith('_' + p) for p in own)}
        self.compared = any(isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(n.left, ast.Name) and
                            n.left.id in self.pairs and 'wrt' in n.left.id for n in ast.walk(f.node))
        self.calls = self.fills = self.returns = 0
        self.nothing_to_filter = f.name in ('deriv_wrt_params', 'hessian_wrt_params') and no_params(f.cls)
        self.fn = f.name if f.cls is None else '%s.%s' % (f.cls.name, f.name)

    def initial(self):
        st = State()
        for p in self.f.params + self.f.kwonly:
            st.env[p] = self.own(p)
        st.env['#used'] = NONE
        return st

    def own(self, n):
        d = frozenset([n]) if n in self.filters else frozenset()
        l = frozenset([lane(n)]) if n in self.pairs and 'comm' not in n.lower() else frozenset()
        return V(d, l, frozenset(), None)

    def bad(self, rule, node, what, msg):
        if rule == 'ignored' and self.nothing_to_filter:
            return
        self.res.add('C09.' + rule, '%s %s' % (self.fn, what), self.f.loc(node), msg)

    # ---- evaluation
    def ev(self, e, st):
        if e is None:
            return NONE
        if isinstance(e, ast.Name):
            if 'comm' in e.id.lower():
                return NONE          # processors are shared out by both filters
            v = st.env.get(e.id)
            if isinstance(v, V):
                if not v.lanes and not v.dep and e.id in self.pairs and e.id not in self.f.params and FILTER.match(e.id):
                    return self.own(e.id)
                return v
            return self.own(e.id) if e.id in self.pairs and e.id not in st.env else NONE
        if isinstance(e, ast.IfExp):
            self.tested_lane(e, st)
            vs = []
            for br, truth in ((e.body, True), (e.orelse, False)):
                b = st.copy()
                if self.assume(e.test, truth, b):
                    vs.append(self.ev(br, b))
            return vs[0] if len(vs) == 1 else union(vs)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            u = union([a, b])
            if isinstance(e.op, (ast.Add, ast.Sub)):
                self.agree(a, b, e, st)
                return u._replace(axes=a.axes or b.axes)
            if isinstance(e.op, ast.Mult):
                self.outer(e, st)
            if isinstance(e.op, (ast.Mult, ast.Div)):
                return u._replace(axes=a.axes or b.axes)
            return u
        if isinstance(e, ast.UnaryOp):
            return self.ev(e.operand, st)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, st)
            idx = self.ev(e.slice, st)
            self.element(e.value, e.slice, e, st)
            if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) > 1:
                out = union([base, idx])
                self.crossed([self.ev(i, st) for i in e.slice.elts], e)
                for k, i in enumerate(e.slice.elts):
                    iv = self.ev(i, st)
                    if iv.dep:
                        out = out._replace(sel=out.sel | self.select(base, iv, k, e, st))
                return out
            return union([base, idx])
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, st)
            if e.attr == 'gpindices':
                return b._replace(dep=b.dep | {GP})
            if e.attr in ('shape', 'size', 'T'):
                return b._replace(axes=tuple(reversed(b.axes)) if e.attr == 'T' and b.axes else None)
            if isinstance(e.value, ast.Name) and e.value.id == 'self':
                v = st.env.get('self.' + e.attr)
                return v if isinstance(v, V) else b
            return b
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = st.copy()
            self.depth += 1
            for g in e.generators:
                self.assign(g.target, self.ev(g.iter, b), b, e)
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            u = union([self.ev(p, b) for p in parts])
            self.depth -= 1
            return u
        if isinstance(e, ast.Lambda):
            return self.ev(e.body, st)
        if isinstance(e, ast.Tuple) and isinstance(e.ctx, ast.Load):
            self.twice(e.elts, e, st)
        return union([self.ev(c, st) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    def same(self, st):
        """the two filters are known to be the same on this path"""
        for k, v in st.facts.items():
            if v and k[0] == 'eq':
                a, b = [set(re.findall(r"id='(\w+)'", d)) for d in k[1:3]]
                if any('wrt' in n and n in self.pairs and sibling(n) in b for n in a):
                    return True
            if k[0] == 'true' and v:
                t = st.env.get(k[1])
                if isinstance(t, tuple) and t and t[0] == 'test':
                    ids = {n.id for n in ast.walk(self.tests[t[1]]) if isinstance(n, ast.Name)}
                    if any('wrt' in n and n in self.pairs and sibling(n) in ids for n in ids):
                        return True
        return False

    def agree(self, a, b, node, st):
        if a.axes and b.axes and len(a.axes) == len(b.axes) and not self.same(st):
            for k, (x, y) in enumerate(zip(a.axes, b.axes)):
                if x and y and not (x & y):
                    self.bad('axes', node, 'adds arrays whose axes %d belong to different filters' % k,
                             'one runs over filter %s, the other over filter %s' % ('/'.join(sorted(x)), '/'.join(sorted(y))))

    def crossed(self, idx, node):
        n = sum(1 for i in idx if i.dep)
        if n > 1:
            self.bad('paired', node, 'indexes two axes with index arrays at once',
                     'numpy pairs the two index arrays instead of taking their product')

    def select(self, base, iv, axis, node, st, bare=None):
        for p in sorted(iv.dep - {GP}):
            if self.member and bare == p and st.facts.get(('none', p)) is not False and st.facts.get(('true', p)) is not True:
                self.bad('unasked', node, 'selects by %s without having asked whether there is one' % p,
                         'without a filter there is nothing to select by')
            if p in base.sel and self.member and len(iv.dep - {GP}) == 1:
                self.bad('twice', node, 'selects columns by %s twice' % p,
                         'the value was already restricted to the filter')
            want = int(lane(p) or 1)
            if axis is not None and self.member and len(iv.dep - {GP}) == 1:
                n = 3 if lane(p) else 2
                if axis < 0:
                    axis += n
                if axis != want:
                    self.bad('axis', node, 'applies %s to axis %d' % (p, axis),
                             'filter %s selects along axis %d' % (p, want))
        return iv.dep

    def call(self, e, st):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        recv = self.ev(f.value, st) if isinstance(f, ast.Attribute) else NONE
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, st) for a in e.args]
        kws = {k.arg: self.ev(k.value, st) for k in e.keywords}
        allv = union([recv] + args + list(kws.values()))
        if isinstance(f, ast.Name) and isinstance(st.env.get(f.id), V):
            allv = union([allv, st.env[f.id]])
        if name not in CONVERT:
            st.env['#used'] = union([st.env['#used'], allv])
        np_call = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('_np', 'np', 'numpy')
        if name == 'take':
            if np_call and len(args) > 1:
                base, iv = args[0], args[1]
                axn = e.args[2] if len(e.args) > 2 else next((k.value for k in e.keywords if k.arg == 'axis'), None)
            elif not np_call and args:
                base, iv = recv, args[0]
                axn = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'axis'), None)
            else:
                return allv
            ax = None
            try:
                ax = ast.literal_eval(axn) if axn is not None else None
            except ValueError:
                pass
            if axn is None and iv.dep - {GP} and self.member:
                self.bad('axis', e, 'takes %s from the flattened array' % '/'.join(sorted(iv.dep)), 'no axis given')
            x = e.args[1] if np_call and len(e.args) > 1 else e.args[0] if e.args else None
            return allv._replace(sel=base.sel | self.select(base, iv, ax, e, st, x.id if isinstance(x, ast.Name) else None), axes=base.axes)
        if name in ('zeros', 'empty', 'ones') and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
            sh = [self.ev(x, st) for x in e.args[0].elts]
            if any(x.lanes for x in sh):
                self.shape(sh, e, st)
                return allv._replace(axes=tuple(x.lanes for x in sh))
            return allv
        if name in ('zeros', 'empty', 'ones', 'zeros_like', 'empty_like') and len(allv.lanes) > 1:
            return allv._replace(axes=())
        if name == 'reshape' and e.args:
            sh = e.args[-1].elts if isinstance(e.args[-1], (ast.Tuple, ast.List)) else e.args
            self.shape([self.ev(x, st) for x in sh], e, st)
        if name == 'gather_slices' and len(args) > 1 and len(args[0].lanes) == len(args[1].lanes) == 1 and args[0].lanes != args[1].lanes:
            self.bad('lane', e, 'gathers the blocks of one filter as owned for the other', 'first and second derivative index are mixed up')
        if name in PRODUCTS:
            self.product([x for x in e.args if isinstance(x, ast.Name)], e, st)
        if name in ('transpose', 'swapaxes'):
            arr, rest = (args[0], e.args[1:]) if np_call and args else (recv, e.args)
            kw = next((k.value for k in e.keywords if k.arg == 'axes'), None)
            if kw is not None:
                rest = [kw]
            ax = None
            if arr.axes:
                try:
                    if name == 'transpose':
                        p = ast.literal_eval(rest[0]) if len(rest) == 1 else tuple(ast.literal_eval(r) for r in rest)
                        ax = tuple(arr.axes[i] for i in p) if p else tuple(reversed(arr.axes))
                    else:
                        i, j = ast.literal_eval(rest[0]), ast.literal_eval(rest[1])
                        l = list(arr.axes)
                        l[i], l[j] = l[j], l[i]
                        ax = tuple(l)
                except (ValueError, IndexError, TypeError):
                    ax = None
            return allv._replace(axes=ax)
        if name in ('_fas', 'fancy_assign') or (name == 'assign' and len(e.args) == 3):
            if len(e.args) >= 3 and isinstance(e.args[1], (ast.List, ast.Tuple)):
                self.fills += 1
                idx = [self.ev(x, st) for x in e.args[1].elts]
                self.place(args[0], idx, e, st, args[2], e.args[0])
                if isinstance(e.args[0], ast.Name) and isinstance(st.env.get(e.args[0].id), V):
                    o = st.env[e.args[0].id]
                    st.env[e.args[0].id] = V(o.dep | allv.dep, o.lanes | args[2].lanes, o.sel | args[2].sel, o.axes)
                return NONE
        if name in ('_decompose_gpindices', 'gpindices_as_array'):
            return allv._replace(dep=allv.dep | {GP})
        if name == 'ix_':
            return NONE
        if name in ('deriv_wrt_params', 'hessian_wrt_params'):
            given = args + list(kws.values())
            if self.member and self.depth > 0 and any(g.dep - {GP} for g in given):
                self.bad('member', e, 'gives its filter to each of its members',
                         'the filter counts the parameters of the whole object, not of one member')
            allv = allv._replace(sel=allv.sel | frozenset().union(frozenset(), *[g.dep for g in given]))
        # lanes of numbered parameters
        self.pair_args(e, name, args, kws, st)
        if name in KEEP and np_call and args:
            return allv._replace(axes=args[0].axes)
        if name in KEEP and not np_call:
            return allv._replace(axes=recv.axes)
        return allv

    def pair_args(self, e, name, args, kws, st):
        sig = self.sigs.get(name)
        if sig is None and self.f.cls is not None and isinstance(e.func, ast.Attribute) and \
                isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            m = self.f.cls.lookup(name)
            sig = m.call_params if m is not None else None
        if sig is None:
            r = self.ix.resolve_expr(e.func, self.f.module, self.f)
            sig = r.call_params if isinstance(r, Func) else None
        slots = []
        if sig:
            for k, v in enumerate(args):
                if k < len(sig):
                    slots.append((sig[k], v))
        for k, v in kws.items():
            if k:
                slots.append((k, v))
        self.sized(e, name, sig or (), args, kws, st)
        self.none_given(e, name, [(sig[k], x) for k, x in enumerate(e.args) if sig and k < len(sig)] +
                        [(k.arg, k.value) for k in e.keywords if k.arg], st)
        if name not in PRODUCTS:
            self.twice(e.args, e, st)
        for n, v in slots:
            l = lane(n)
            if not l or not v.lanes:
                continue
            other = sibling(n)
            if sig is None or other not in sig:
                continue
            self.calls += 1
            if v.lanes != frozenset([l]) and not v.axes and not self.same(st):
                self.bad('lane', e, 'passes a filter-%s value as %s of %s' % ('/'.join(sorted(v.lanes)), n, name),
                         'first and second derivative index are mixed up')

    def sized(self, e, name, sig, args, kws, st):
        """arrays to be filled by a filtered call have the filter's size"""
        if 'mxToFill' not in sig:
            return
        given = dict(zip(sig, zip(e.args, args)))
        given.update({k.arg: (k.value, kws[k.arg]) for k in e.keywords if k.arg})
        for n, (x, v) in given.items():
            if n not in ('mxToFill', 'deriv1MxToFill', 'deriv2MxToFill') or not isinstance(x, ast.Name) or \
                    x.id in self.f.params or st.facts.get(('none', x.id)) is True:
                continue
            for p in self.filters:
                l = lane(p)
                if (n[5:6] in '12' and n.startswith('deriv') and l != n[5]) or st.facts.get(('none', p)) is True or p not in sig:
                    continue
                if p not in v.dep and not self.same(st):
                    self.bad('size', e, 'has %s fill an array not sized by %s' % (name, p), '%s (%s)' % (x.id, n))

    def named(self, n, v, node, st):
        """x1 = something that depends on the second filter only"""
        if n in self.pairs and 'comm' not in n.lower() and v.lanes and not self.same(st) and (
                lane(n) not in v.lanes or len(v.lanes) > 1 and v.axes is None and self.plain(n)):
            self.bad('lane', node, 'stores a filter-%s value in %s' % ('/'.join(sorted(v.lanes)), n),
                     'first and second derivative index are mixed up')

    def plain(self, n):
        """an index, size, filter or first derivative (not an array over both filters)"""
        return not re.match(r'^_*(d2|h)', n)

    def shape(self, sh, node, st):
        own = [min(x.lanes) for x in sh if len(x.lanes) == 1]
        if len(own) == 2 and own[0] == own[1] and not self.same(st):
            self.bad('size', node, 'sizes two axes by filter %s' % own[0], 'first and second derivative index are mixed up')

    def product(self, xs, node, st):
        """the product of two first derivatives takes one of each"""
        ls = [x.id for x in xs if x.id in self.pairs and x.id.startswith('d') and not x.id.startswith('d2')]
        if len(ls) == 2 and lane(ls[0]) == lane(ls[1]) and not self.same(st):
            self.bad('lane', node, 'multiplies %s by %s' % tuple(ls), 'two derivatives by the same filter')

    def outer(self, e, st):
        xs = [x.value for x in (e.left, e.right) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Tuple) and
              any(isinstance(y, ast.Constant) and y.value is None for y in x.slice.elts)]
        if len(xs) == 2 and all(isinstance(x, ast.Name) for x in xs):
            self.product(xs, e, st)

    def element(self, base, idx, node, st):
        """blocks1[iBlk2]"""
        if isinstance(base, ast.Name) and base.id in self.pairs and not isinstance(idx, ast.Tuple):
            v = self.ev(idx, st)
            if v.lanes and lane(base.id) not in v.lanes and not self.same(st):
                self.bad('lane', node, 'looks up %s in %s' % (ast.unparse(idx), base.id), 'first and second derivative index are mixed up')

    def twice(self, elts, node, st):
        """(hGs, dGs1, dGs1): one of a pair twice and the other not at all"""
        names = []
        for x in elts:
            while isinstance(x, ast.Subscript):
                x = x.value
            names.append(x.id if isinstance(x, ast.Name) and x.id in self.pairs else None)
        for a, b, x, y in zip(names, names[1:], elts, elts[1:]):
            if a and a == b and ast.dump(x) == ast.dump(y) and sibling(a) not in names and not self.same(st):
                self.bad('lane', node, 'gives %s twice' % a, '%s belongs in one of the two places' % sibling(a))

    def none_given(self, e, name, slots, st):
        for n, x in slots if not self.member else ():
            if FILTER.match(n) and isinstance(x, ast.Constant) and x.value is None:
                for q in self.filters:
                    if lane(n) in (None, lane(q)) and st.facts.get(('none', q)) is not True:
                        self.bad('ignored', e, 'gives %s no %s' % (name, n), 'the filter %s it was given itself is not passed on' % q)

    def tested_lane(self, e, st):
        """a1 if b2 is None else c1"""
        n = isnone(e.test)
        if n in self.pairs and n in self.filters:
            for br in (e.body, e.orelse):
                v = self.ev(br, st.copy())
                if v.lanes and lane(n) not in v.lanes:
                    self.bad('lane', e, 'chooses a filter-%s value by asking about %s' % ('/'.join(sorted(v.lanes)), n),
                             'first and second derivative index are mixed up')

    def place(self, arr, idx, node, st, val=NONE, target=None):
        if self.same(st):
            return
        mixed = 'first and second derivative index are mixed up'
        if not arr.axes:
            ls = [min(i.lanes) for i in idx if len(i.lanes) == 1]
            if ls != sorted(ls):
                self.bad('axes', node, 'fills an array at swapped positions', mixed)
            if ls and len(set(ls)) == 1 and isinstance(target, ast.Name) and lane(target.id) == ls[0] and \
                    target.id in self.pairs and val.lanes - {ls[0]}:
                self.bad('lane', node, 'fills %s with a value of the other filter' % target.id, mixed)
            return
        want = frozenset().union(*arr.axes)
        if val.lanes and want - val.lanes:
            self.bad('lane', node, 'fills an array over filters %s with a value that does not depend on filter %s'
                     % ('/'.join(sorted(want)), '/'.join(sorted(want - val.lanes))), mixed)
        if len(arr.axes) != len(idx):
            return
        for k, (a, i) in enumerate(zip(arr.axes, idx)):
            if a and i.lanes and not (a & i.lanes):
                self.bad('axes', node, 'fills axis %d (filter %s) at the positions of filter %s'
                         % (k, '/'.join(sorted(a)), '/'.join(sorted(i.lanes))), mixed)

    # ---- statements
    def assign(self, target, value, st, node):
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(node, ast.Assign) and \
                isinstance(node.value, (ast.Tuple, ast.List)) and len(node.value.elts) == len(target.elts):
            for t, v in zip(target.elts, node.value.elts):
                self.assign(t, self.ev(v, st), st, node)
            return
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, V) and len(value.lanes) > 1:
            for t in target.elts:        # a list of one value per filter: each to its own
                if isinstance(t, ast.Name) and t.id in self.pairs:
                    self.assign(t, value._replace(lanes=frozenset([lane(t.id)]), axes=None), st, node)
                else:
                    self.assign(t, value, st, node)
            return
        if isinstance(target, ast.Subscript):
            val = value if isinstance(value, V) else NONE
            if isinstance(target.slice, ast.Tuple):
                self.fills += 1
                idx = [self.ev(x, st) for x in target.slice.elts]
                self.crossed(idx, node)
                self.place(self.ev(target.value, st), idx, node, st, val, target.value)
            elif isinstance(target.value, ast.Name):
                self.element(target.value, target.slice, node, st)
                self.named(target.value.id, val, node, st)
            b = target.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                old = st.env.get(b.id)
                old = old if isinstance(old, V) else NONE
                st.env[b.id] = V(old.dep | val.dep, old.lanes | val.lanes, old.sel, old.axes)
            return
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == 'self':
            if isinstance(value, V) and value.dep and self.member:
                self.bad('kept', node, 'keeps a filtered result in %s' % target.attr,
                         'a later call with another filter would be answered with it')
            st.env['self.' + target.attr] = value
            self.forget('self.' + target.attr, st)
            return
        if isinstance(target, ast.Name) and target.id in self.pairs:
            v = value if isinstance(value, V) else NONE
            if not (self.compared and isinstance(node, ast.Assign) and isinstance(node.value, ast.Name) and
                    node.value.id == sibling(target.id)):
                self.named(target.id, v, node, st)
            if not v.lanes:
                value = v._replace(lanes=frozenset([lane(target.id)]))
        PathWalk.assign(self, target, value, st, node)

    def augassign(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(s.target, ast.Subscript):
            self.assign(s.target, v, st, s)
        elif isinstance(s.target, ast.Name):
            old = st.env.get(s.target.id)
            old = old if isinstance(old, V) else NONE
            self.agree(old, v, s, st)
            st.env[s.target.id] = union([old, v])._replace(axes=old.axes or v.axes)

    def on_def(self, s, st):
        names = [n.id for n in ast.walk(s) if isinstance(n, ast.Name)]
        vs = [st.env[n] for n in names if isinstance(st.env.get(n), V)]
        b = st.copy()
        for a in s.args.args + s.args.kwonlyargs:
            b.env[a.arg] = self.own(a.arg)
        out = self.block(s.body, [b])     # checks inside
        del out
        return union(vs)

    def on_return(self, s, st):
        if s is not None and self.func is not self.f:
            return
        self.returns += 1
        v = self.ev(s.value, st) if s is not None and s.value is not None else None
        for p in self.filters:
            if st.facts.get(('none', p)) is True or any(
                    k[0] == 'none' and v0 is True and isinstance(st.env.get(k[1]), V) and p in st.env[k[1]].dep for k, v0 in st.facts.items()):
                continue
            if self.f.name.startswith('_') and p in self.tested:
                continue
            if v is None or self.hasfill or self.f.name.startswith('_') or \
                    (s is not None and isinstance(s.value, ast.Constant) and s.value.value is None):
                if p in st.env['#used'].dep:
                    self.usedonce.add(p)
                elif self.f.name.startswith('_'):
                    self.unused.setdefault(p, s or self.f.node)
                elif self.hasfill:
                    self.bad('ignored', s or self.f.node, 'ignores %s' % p, 'a path that fills the result never uses the filter')
            elif p not in v.dep and not self.nothing(s.value):
                self.bad('ignored', s, 'ignores %s' % p, 'on some path the returned value does not depend on the filter given')

    @staticmethod
    def nothing(e):
        """an array without columns"""
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('zeros', 'empty') and \
            e.args and any(isinstance(x, ast.Constant) and x.value == 0 for x in ast.walk(e.args[0]))

    def walk(self):
        tests = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Compare) and any(isinstance(c, ast.Constant) and c.value is None for c in n.comparators):
                tests |= {id(x) for x in ast.walk(n)}
        # helpers that only ask whether there is a filter
        self.tested = {p for p in self.filters if all(id(n) in tests for n in ast.walk(self.f.node)
                                                      if isinstance(n, ast.Name) and n.id == p)}
        self.hasfill = any(('Fill' in p or 'fill' in p) for p in self.f.params)
        self.usedonce, self.unused = set(), {}
        self.run(self.f, self.initial())
        for p, node in self.unused.items():
            if p not in self.usedonce:
                self.bad('ignored', node, 'ignores %s' % p, 'no path uses the filter')

    def stmt(self, s, st):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            self.tested_lane(s.value, st)
        if isinstance(s, ast.FunctionDef):
            save = self.on_return
            self.on_return = lambda *a: None
            try:
                return PathWalk.stmt(self, s, st)
            finally:
                self.on_return = save
        return PathWalk.stmt(self, s, st)



def no_params(C):
    f = C.lookup('num_params') if C is not None else None
    if f is None:
        return False
    rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    return bool(rets) and all(isinstance(r, ast.Constant) and r.value == 0 for r in rets)


def signatures(ix):
    """parameters (without self) of functions whose name is unique or whose definitions agree"""
    sig = {}
    for m in ix.modules.values():
        for f in list(m.functions.values()) + [x for c in m.classes.values() for x in c.methods.values()]:
            ps = list(f.call_params)
            if f.name in sig and sig[f.name] != ps:
                a = sig[f.name]
                sig[f.name] = a if a and a[:len(ps)] == ps else ps if ps[:len(a or ())] == a and a else None
            else:
                sig[f.name] = ps
    return {k: v for k, v in sig.items() if v}


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    sigs = signatures(ix)
    nf = nr = nc = nfl = 0
    for m in ix.modules.values():
        for f in list(m.functions.values()) + [x for c in m.classes.values() for x in c.methods.values()]:
            lanes = [p for p in f.params + f.kwonly if FILTER.match(p)]
            byname = not lanes and any(isinstance(n, ast.Name) and FILTER.match(n.id) for n in ast.walk(f.node))
            if not lanes and not byname:
                continue
            nf += 1
            w = Walk(ix, f, res, sigs)
            w.walk()
            if w.capped:
                res.coverage['capped_functions'] = res.coverage.get('capped_functions', 0) + 1
            nr += w.returns
            nc += w.calls
            nfl += w.fills
    res.count('functions_with_filters', nf, 50)
    res.count('returning_paths', nr, 150)
    res.count('numbered_arguments', nc, 60)
    res.count('array_fills', nfl, 40)
    res.explanation = __doc__
    res.assumptions = ['numbered names (x1/x2) belong to the filter of the same number',
                       'loops over factors, effects or circuits run at least once', 'numpy axis semantics as documented']
    return res
