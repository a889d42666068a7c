"""C01: a read-only circuit never changes.

Obligation (per public entry point of Circuit, on every path, helpers inlined): a
write to the circuit's layers or line labels is reached only where the read-only flag
is known to be False on *every* path, or the object is being constructed.
Further clauses: done_editing()/construction leave a read-only circuit with an
immutable (tuple) layer container, the flag is only ever set, never cleared on an
existing circuit, and no method hands out or adopts the internal mutable list.
"""
import ast
from ..index import Index, AnalysisBroken
from ..flow import Flow, fact, U
from ..report import Result

STATE = ('_labels', '_line_labels')
FLAG = '_static'
CTOR = ('__init__', '_fastinit', '__new__', '__setstate__', '_bare_init', '__reduce__')


class Guard(Flow):
    def __init__(self, ix, cls, flag, state, ctor=(), ignore=()):
        Flow.__init__(self, ix)
        self.cls, self.flag, self.state, self.ctor = cls, flag, state, ctor
        self.bad = []
        self.writes = set()
        self.ignore = ignore

    def should_inline(self, f, recv, args):
        if f.cls is None and f.module is self.cls.module and any(
                r[0] == 'A' and r[1][0] == 'self' and len(r[1]) > 1 and r[1][1] in self.state
                for a in args for r in (a if isinstance(a, frozenset) else ())):
            return True
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def construct_class(self, path):
        return None

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] != 'self' or len(path) < 2:
            return
        if path[1] == '__dict__':
            return
        if path[1] in self.state:
            self.writes.add((self.frame.func.qual, node.lineno, path[1]))
            if fact(st, 't', ('self', self.flag)) is not False:
                self.bad.append((self.frame.func, path, how, node, self.frame.chain()))
        elif path[1] == self.flag and len(path) == 2:
            self.flagwrite(node, st, value)

    def flagwrite(self, node, st, value):
        # record what is known about the flag after the write
        p = ('self', self.flag)
        if value == frozenset([('C', False)]):
            was = fact(st, 't', p)
            st.must = st.must | {('f', ('t', p), False)}
            self.flags.append((self.frame.func, node, False, was, self.frame.chain()))
        elif value == frozenset([('C', True)]):
            # `True` is written before the final freeze of the layers inside done_editing; the
            # write itself happens under "not static", which stays valid for the rest of the call
            self.flags.append((self.frame.func, node, True, fact(st, 't', p), self.frame.chain()))
        else:
            self.flags.append((self.frame.func, node, None, None, self.frame.chain()))

    def record_const(self, p, v, st):
        if p != ('self', self.flag):
            Flow.record_const(self, p, v, st)

    def kill_path(self, path, st):
        if path == ('self', self.flag):
            # keep the entry-state knowledge of the flag: edits made after the flag is raised in the
            # same call that found it lowered belong to the freeze itself
            return
        Flow.kill_path(self, path, st)

    flags = None


def entry_points(cls):
    """methods callable from outside: public names, dunders, property getters and setters"""
    seen = {}
    for c in cls.mro():
        for n, f in list(c.methods.items()):
            if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
                continue
            seen.setdefault(('m', n), f)
        for n, f in c.setters.items():
            seen.setdefault(('s', n), f)
    return seen


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    C = ix.cls('pygsti.objects.circuit.Circuit')
    eps = entry_points(C)
    nwrites = set()
    stats = [0, 0]
    for (kind, n), f in sorted(eps.items()):
        if f.is_classmethod or f.is_static:
            continue
        g = Guard(ix, C, FLAG, STATE)
        g.flags = []
        g.run(f, C)
        nwrites |= g.writes
        stats[0] += g.stats['statements']
        stats[1] += g.stats['inlined']
        if n in CTOR:
            continue
        for (wf, path, how, node, chain) in g.bad:
            res.add('C01.unguarded-edit', '%s.%s writes %s' % (C.name, wf.name, path[1]), wf.loc(node),
                    'reached from public %s %s via %s without the read-only flag known to be False on every path'
                    % ('setter' if kind == 's' else 'method', n, ' > '.join(chain)))
        for (wf, node, val, was, chain) in g.flags:
            if val is False or val is None:
                res.add('C01.flag-cleared', '%s.%s' % (C.name, wf.name), wf.loc(node),
                        'clears or overwrites the read-only flag of an existing circuit (via %s)' % ' > '.join(chain))
    frozen_clauses(ix, C, res)
    sharing_clauses(ix, C, res)
    res.count('entry_points_analysed', len(eps), 60)
    res.count('write_sites_found', len(nwrites), 12)
    res.count('statements_interpreted', stats[0])
    res.count('calls_inlined', stats[1])
    res.coverage['write_sites'] = sorted('%s:%d %s' % w for w in nwrites)
    res.explanation = ('Every public method, special method and property accessor of Circuit was abstractly interpreted '
                       'path by path (helpers inlined); each write of the layer list or line labels is an obligation that '
                       'the read-only flag is known False there.')
    res.assumptions = ['code outside the Circuit class does not assign Circuit private attributes (checked by the '
                       'outside-writer clause for the pygsti package itself)',
                       'no reflection (exec, ctypes) is used to alter circuits']
    return res


class Freeze(Flow):
    """tracks whether `_labels` is a tuple when the flag says read-only"""

    def should_inline(self, f, recv, args):
        return any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ()))

    def on_mutate(self, path, how, node, st, value=U):
        if path == ('self', '_labels') and how == 'set':
            v = self.valnode(node)
            kind = self.container_kind(v)
            st.must = frozenset(x for x in st.must if x[0] != 'lab') | {('lab', kind)}
        elif path == ('self', FLAG) and how == 'set':
            st.must = frozenset(x for x in st.must if x[0] != 'flag')
            if value == frozenset([('C', True)]):
                st.must = st.must | {('flag', True)}
            elif value == frozenset([('C', False)]):
                st.must = st.must | {('flag', False)}
            else:
                vals = set()
                for r in value:
                    if r[0] == 'B':
                        # e.g. `not editable`: evaluate under the known facts
                        a, b = st.copy(), st.copy()
                        self.assume(r[1], True, a)
                        self.assume(r[1], False, b)
                        if a.dead:
                            vals.add(False)
                        elif b.dead:
                            vals.add(True)
                        else:
                            vals.add('?')
                    else:
                        vals.add('?')
                st.must = st.must | {('flag', vals.pop() if len(vals) == 1 else '?')}

    def valnode(self, node):
        return node.value if isinstance(node, (ast.Assign, ast.AnnAssign)) else None

    def container_kind(self, v, depth=0):
        if v is None:
            return '?'
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, ast.Tuple):
            return 'tuple'
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            if v.func.id == 'tuple':
                return 'tuple'
            if v.func.id in ('list', 'sorted'):
                return 'list'
        if isinstance(v, ast.BinOp):
            a, b = self.container_kind(v.left), self.container_kind(v.right)
            return a if a == b else (a if b == '?' else b)
        if isinstance(v, ast.IfExp):
            a, b = self.container_kind(v.body, depth), self.container_kind(v.orelse, depth)
            return a if a == b else 'list' if 'list' in (a, b) else '?'
        if isinstance(v, ast.Name):
            kinds = set()
            for n in ast.walk(self.frame.func.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                        continue
                    if depth < 3:
                        kinds.add(self.container_kind(n.value, depth + 1))
            if len(kinds) == 1:
                return kinds.pop()
        return '?'


def adopts(ix, f, v, at, depth=0):
    """why the container `v` may be one the caller still holds (or a mutable one): a parameter, a list, ... or None"""
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'a list'
    if isinstance(v, ast.IfExp):
        return adopts(ix, f, v.body, at, depth) or adopts(ix, f, v.orelse, at, depth)
    if isinstance(v, ast.BoolOp):
        for x in v.values:
            r = adopts(ix, f, x, at, depth)
            if r:
                return r
        return None
    if isinstance(v, ast.Call):
        if isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted', 'set', 'dict'):
            return 'a %s' % ('list' if v.func.id == 'sorted' else v.func.id)
        if isinstance(v.func, ast.Name) and v.func.id in ('tuple', 'frozenset'):
            return None
        g = ix.resolve_expr(v.func, f.module, f)
        if g is None and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and f.cls is not None \
                and f.params and v.func.value.id == f.params[0]:
            g = f.cls.lookup(v.func.attr)
        if g is not None and hasattr(g, 'node') and isinstance(g.node, ast.FunctionDef) and depth < 3:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    r = adopts(ix, g, n.value, n, depth + 1)
                    if r and r.startswith('a '):
                        return r
        return None
    if isinstance(v, ast.Name):
        defs = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
        for n in defs:
            if depth < 3:
                r = adopts(ix, f, n.value, n, depth + 1)
                if r:
                    return r
        if v.id in f.params[1:] + f.kwonly:
            # re-bound before the use, in the same block or one around it?
            blocks = [b for s_ in ast.walk(f.node) for fld, b in ast.iter_fields(s_) if isinstance(b, list) and any(
                isinstance(x, ast.stmt) and any(y is at for y in ast.walk(x)) for x in b)]
            if any(n in b and n.lineno < at.lineno for n in defs for b in blocks):
                return None
            return "the caller's `%s`" % v.id
    return None


def frozen_clauses(ix, C, res):
    """wherever a circuit is left read-only, its layers are held in a tuple, never a list"""
    n = 0
    for name in ('__init__', 'done_editing'):
        f = C.lookup(name)
        if f is None:
            raise AnalysisBroken('Circuit.%s is gone' % name)
        fl = Freeze(ix)
        rets, _ = fl.run(f, C)
        for (st, v, node) in rets:
            if st.dead:
                continue
            lab = [x[1] for x in st.must if x[0] == 'lab']
            flag = [x[1] for x in st.must if x[0] == 'flag']
            n += 1
            if name == 'done_editing':
                already = fact(st, 't', ('self', FLAG)) is True
                if not already and (not flag or flag[0] is not True):
                    # flag may be set on only some joined paths: re-check path facts below
                    pass
            if flag and flag[0] is True and lab and lab[0] == 'list':
                res.add('C01.mutable-layers', 'Circuit.%s' % name, f.loc(node),
                        'leaves a read-only circuit holding its layers in a mutable list')
    # done_editing must raise the flag and freeze the layers whenever it found the circuit editable
    f = C.lookup('done_editing')
    fl = Freeze(ix)
    rets, _ = fl.run(f, C, must=frozenset([('f', ('t', ('self', FLAG)), False)]))
    for (st, v, node) in rets:
        if st.dead:
            continue
        if ('flag', True) not in st.must:
            res.add('C01.not-frozen', 'Circuit.done_editing flag', f.loc(node),
                    'can return without marking an editable circuit read-only')
        lab = [x[1] for x in st.must if x[0] == 'lab']
        if not lab or lab[0] == 'list':
            res.add('C01.not-frozen', 'Circuit.done_editing layers', f.loc(node),
                    'can return without converting the layers of an editable circuit to an immutable tuple')
    # construction: flag follows the `editable` argument, layers follow the flag
    f = C.lookup('__init__')
    for ed in (True, False):
        fl = Freeze(ix)
        if 'editable' not in f.params + f.kwonly:
            raise AnalysisBroken('Circuit.__init__ has no `editable` argument')
        rets, _ = fl.run(f, C, binds={'editable': frozenset([('C', ed)])})
        for (st, v, node) in rets:
            if st.dead:
                continue
            flag = [x[1] for x in st.must if x[0] == 'flag']
            lab = [x[1] for x in st.must if x[0] == 'lab']
            if not flag or flag[0] is not (not ed):
                res.add('C01.not-frozen', 'Circuit.__init__ flag', f.loc(node),
                        'with editable=%s the read-only flag is not %s on every path' % (ed, not ed))
            if not ed and (not lab or lab[0] == 'list'):
                res.add('C01.mutable-layers', 'Circuit.__init__', f.loc(node),
                        'with editable=False the layers may end up in a mutable list')
            if ed and lab and lab[0] == 'tuple':
                pass
    res.count('construction_and_freeze_exits', n, 2)
    # nothing mutable, and nothing the caller still holds, becomes the container of the lines (or of frozen layers)
    nad = 0
    for f in ix.funcs:
        if f.cls is not C:
            continue
        for a in ast.walk(f.node):
            if not isinstance(a, ast.Assign):
                continue
            for t in a.targets:
                if isinstance(t, ast.Attribute) and t.attr == '_line_labels' or (
                        isinstance(t, ast.Attribute) and t.attr == '_labels' and f.name in ('__init__', 'done_editing')):
                    nad += 1
                    why = adopts(ix, f, a.value, a)
                    if why and (t.attr == '_line_labels' or why.startswith('the caller')):
                        res.add('C01.mutable-container', 'Circuit.%s %s' % (f.name, t.attr), f.loc(a),
                                'takes %s as the container of the circuit' % why)
    res.count('container_assignments', nad, 6)


def sharing_clauses(ix, C, res):
    """who-may-write: no code outside Circuit assigns a circuit's private layer state"""
    n = 0
    for m in ix.modules.values():
        for node in ast.walk(m.tree):
            tgt = None
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = node.targets if not isinstance(node, ast.AugAssign) else [node.target]
                for t in ts:
                    b = t
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute) and b.attr in ('_line_labels', FLAG):
                        tgt = b
                    elif isinstance(b, ast.Attribute) and b.attr == '_labels' and not (
                            isinstance(b.value, ast.Name) and b.value.id == 'self'):
                        tgt = b
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in (
                    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
                b = node.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and b.attr == '_labels' and not (
                        isinstance(b.value, ast.Name) and b.value.id == 'self'):
                    tgt = b
            if tgt is None:
                continue
            n += 1
            if m is C.module:
                continue
            if isinstance(tgt.value, ast.Name) and tgt.value.id == 'self':
                continue
            res.add('C01.outside-writer', '%s assigns %s' % (m.name, tgt.attr), '%s:%d' % (m.relpath, node.lineno),
                    'assigns circuit-private state from outside the Circuit class')
    res.count('private_state_writes_scanned', n, 8)
