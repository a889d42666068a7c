"""C11: work shared between processes stays in step and is put back together.

step      what a process does with a communicator does not depend on which process it is: where a branch, a loop or an early exit
          depends on the rank, on the process's own share of the work, or on something only some processes know, all the ways
          through make the same collective calls on that communicator, in the same order
gather    what is computed for a process's own share of distributed work is collected, for every array written, with the owners
          and on the communicator of that distribution, outside the loop over the share and under no further condition
known     a collective's result, or a value read by every process, is not used before it has been made the same everywhere
          (a root's value reaches the other processes before they use it)
"""
import ast
import copy
import os
from ..index import Index, Func, Cls, dotted, walk_own
from ..calls import resolve, bind, all_functions
from ..report import Result

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
COLL = {'bcast', 'allgather', 'allreduce', 'reduce', 'gather', 'scatter', 'Bcast', 'barrier', 'Barrier', 'Split', 'Allreduce',
        'Allgather', 'Gather', 'Scatter', 'Reduce', 'alltoall', 'Alltoall', 'Allgatherv', 'Gatherv', 'Dup', 'Create'}
SAME = {'bcast', 'allgather', 'allreduce', 'Split'}                    # the result is the same on every process of the communicator
INPLACE = {'Bcast': 0, 'Allreduce': 1, 'Allgather': 1}                 # the argument that is
DIST = {'distribute_indices': (1, 'comm'), 'distribute_slice': (1, 'comm'), 'distribute': (0, 'comm'), 'distribute_for_dot': (1, 'comm')}
GATHER = {'gather_slices': ('slice_owners', 'arToFill', 'comm'), 'gather_indices': ('index_owners', 'arToFill', 'comm')}
GPOS = {'gather_slices': {'slices': 0, 'slice_owners': 1, 'arToFill': 2, 'arToFillInds': 3, 'axes': 4, 'comm': 5},
        'gather_indices': {'indices': 0, 'index_owners': 1, 'arToFill': 2, 'arToFillInds': 3, 'axes': 4, 'comm': 5}}
PLAIN = {'print', 'str', 'repr', 'isinstance', 'id', 'type', 'len', 'hasattr', 'getattr', 'dict', 'format', 'log', 'pop'}
E = frozenset()


def rootname(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def last(fn):
    return fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None


def commname(n):
    return n is not None and n.split('.')[-1].lower().strip('_').endswith('comm')


def arg(call, pos, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[pos] if pos < len(call.args) else None


class Summary(object):
    def __init__(self):
        self.coll, self.ret, self.ctrl = set(), set(), {}
        self.ret0 = set()      # without a communicator as well

    def key(self):
        return (frozenset(self.coll), frozenset(self.ret), frozenset(self.ret0), frozenset((k, frozenset(v)) for k, v in self.ctrl.items()))


class State(object):
    def __init__(self, env=None, synced=None):
        self.env = dict(env or {})
        self.synced = {k: set(v) for k, v in (synced or {}).items()}

    def copy(self):
        return State(self.env, self.synced)


class Walk(object):
    def __init__(self, prog, f, outer=None):
        self.prog, self.ix, self.f = prog, prog.ix, f
        self.sum = Summary()
        self.parent = dict(outer.parent) if outer else {}      # sub-communicator -> communicator
        self.alias = dict(outer.alias) if outer else {}
        self.dists = dict(outer.dists) if outer else {}
        self.trace = []
        self.findings = []
        self.loops = []            # labels of the enclosing loops
        self.guards = []
        self.gathers = []          # (array, owners, comm, node, guards, loop labels)
        self.writes = []           # (array, labels, node)
        self.used = {}             # distribution -> combined
        self.div = set()           # labels under which a process may already have left the function
        self.ncoll = 0
        self.st = State(outer.st.env if outer else None)
        ps = f.params
        for p in ps:
            self.st.env[p] = frozenset([('P', p)]) if not commname(p) else E
        self.nested = {}
        self.derived = {}          # vector -> the object it was read from
        self.distvars = {}

    # ---- communicators
    def comm(self, e):
        if isinstance(e, ast.Name) and e.id in self.alias:
            return self.alias[e.id]
        d = dotted(e)
        if d is not None and commname(d):
            return d
        if isinstance(e, ast.IfExp):
            a, b = self.comm(e.body), self.comm(e.orelse)
            c = a or b
            if c is not None and (a is None or b is None or a != b):
                h = self.hit(self.ev(e.test), [x for x in (a, b) if x])
                if h:
                    self.bad('step', e, 'which communicator is used is decided by "%s", which differs from process to process of %s'
                             % (short(e.test), '/'.join(sorted(h))))
            return c
        return None

    def up(self, c):
        out = []
        while c is not None and c not in out:
            out.append(c)
            c = self.parent.get(c)
        return out

    def comms(self, labels):
        out = set()
        for lb in labels:
            if lb[0] in ('D', 'R'):
                out |= set(self.up(lb[-1]))
            elif lb[0] == 'T':
                out.add('*')
        return out

    def hit(self, labels, touched):
        cs = self.comms(labels)
        return set(touched) if '*' in cs else set(touched) & cs

    # ---- reporting
    def bad(self, kind, node, msg):
        self.findings.append((kind, node, msg))

    def emit(self, op, comms, node, root=None):
        self.ncoll += 1
        self.trace.append((op, frozenset(comms), root, node))
        for p in comms:
            q = p.split('.')[0]
            if p in self.f.params or (q == self.f.selfname):
                self.sum.coll.add(p)
            elif q not in self.parent and self.f.parent is not None:
                self.sum.coll.add(p)
        for labels, what in self.loops:
            h = self.hit(labels, comms)
            if h:
                self.bad('step', node, '%s on %s runs inside %s, which differs from process to process' % (op, '/'.join(sorted(h)), what))
            for lb in labels:
                if lb[0] == 'P':
                    self.sum.ctrl.setdefault(lb[1], set()).update(comms)
        h = self.hit(self.div, comms)
        if h:
            self.bad('step', node, '%s on %s comes after a point where only some of the processes leave' % (op, '/'.join(sorted(h))))
        for lb in self.div:
            if lb[0] == 'P':
                self.sum.ctrl.setdefault(lb[1], set()).update(comms)

    # ---- traces
    def filt(self, tr, cs):
        out = []
        for t in tr:
            if t[0] == 'if':
                a, b = self.filt(t[2], cs), self.filt(t[3], cs)
                if a == b:
                    out += a
                else:
                    out.append(('if', t[1], tuple(a), tuple(b)))
            elif t[0] == 'loop':
                a = self.filt(t[2], cs)
                if a:
                    out.append(('loop', tuple(a)))
            elif '*' in cs or t[1] & cs:
                out.append((t[0], t[1] if '*' in cs else t[1] & cs, t[2]))
        return out

    def touched(self, tr):
        out = set()
        for t in tr:
            if t[0] in ('if', 'loop'):
                for b in t[2:]:
                    out |= self.touched(b)
            else:
                out |= t[1]
        return out

    # ---- statements
    def run(self):
        body = self.f.node.body if not isinstance(self.f.node, ast.Lambda) else [ast.Expr(self.f.node.body)]
        self.block(body, top=True)
        return self

    def block(self, body, top=False):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and leaves(s.body):
                self.branch(s, s.body, body[i + 1:], top)
                return
            self.stmt(s)

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    r = rootname(n)
                    if r:
                        out.add(r)
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and not n.value.func.attr.startswith(('print', 'log', 'show', 'warn', 'write', 'add_time', 'mem_check')):
                    r = rootname(n.value.func.value)
                    if r and r != self.f.selfname and r in self.st.env and self.comm(n.value.func.value) is None:
                        out.add(r)
        return out

    def branch(self, s, body, orelse, top=False):
        lt = self.ev(s.test)
        none = self.nonetest(s.test)
        st0, tr0 = self.st, self.trace
        g = ast.dump(s.test)
        self.guards.append((g, True, s.test))
        if raises(body):
            self.guards[-1] = (g, False, ast.Constant(True))
        self.st, self.trace = st0.copy(), []
        keep = set(self.sum.ret), set(self.div)
        self.block(body)
        if none is True:        # not what happens with a communicator
            self.sum.ret, self.div = set(keep[0]), set(keep[1])
        st1, tr1 = self.st, self.trace
        self.guards[-1] = (g, False, s.test) if not raises(body) else (None, True, None)
        self.st, self.trace = st0.copy(), []
        keep = set(self.sum.ret), set(self.div)
        self.block(orelse)
        if none is False:
            self.sum.ret, self.div = set(keep[0]), set(keep[1])
        st2, tr2 = self.st, self.trace
        self.guards.pop()
        self.trace = tr0
        r1, r2 = raises(body), raises(orelse)
        if r1 != r2:            # an error ends the run: the other way is the only one
            self.st = st2 if r1 else st1
            self.trace += tr2 if r1 else tr1
            return
        if none is True:        # the communicator is None in the body: only the other way matters
            self.st = st2
            self.trace += tr2
            return
        if none is False:
            self.st = st1
            self.trace += tr1
            return
        self.trace.append(('if', g, tr1, tr2))
        self.differ(s, lt, tr1, tr2)
        k1, k2 = exits(body), exits(orelse)
        e1, e2 = leaves(body), leaves(orelse)
        if e1 and not e2:
            self.st = st2
        elif e2 and not e1:
            self.st = st1
        else:
            self.st = join(st1, st2)
        if lt:
            names = self.assigned(body) | self.assigned(orelse) if not (e1 or e2) else \
                self.assigned(orelse if e1 else body)
            for n in names:
                add = set(lt)
                for lb in lt:
                    if lb[0] in ('R', 'D') and lb[-1] in (st1.synced.get(n, set()) | (st2.synced.get(n, set()) if e1 else set())) \
                            and lb[-1] in (st2.synced.get(n, set()) | (st1.synced.get(n, set()) if e2 else set())):
                        add.discard(lb)
                    if e1 or e2:
                        add.discard(lb)
                both = st1.synced.get(n, set()) & st2.synced.get(n, set()) if not (e1 or e2) else set()
                self.st.env[n] = frozenset(x for x in self.st.env.get(n, E) if not (x[0] in 'DR' and both & set(self.up(x[-1])))) \
                    | frozenset(add)
            if (k1 or k2) and not (e1 and e2 and k1 == k2) and not top:
                if 'return' in k1 | k2:
                    self.div |= set(lt)
                if (k1 | k2) & {'break', 'continue'} and self.loopdiv:
                    self.loopdiv[-1][1].update(lt)
                    if 'break' in k1 | k2:
                        self.loopdiv[-1][0].update(lt)

    loopdiv = ()

    def differ(self, s, lt, tr1, tr2):
        if not lt:
            return
        t = self.touched(tr1) | self.touched(tr2)
        h = self.hit(lt, t)
        if h:
            a, b = self.filt(tr1, h), self.filt(tr2, h)
            if a != b:
                self.bad('step', s, 'the two ways of "%s", which differs from process to process, do not make the same collective '
                         'calls on %s (%s / %s)' % (short(s.test), '/'.join(sorted(h)), seq(a), seq(b)))
        for lb in lt:
            if lb[0] == 'P':
                for c in t:
                    if self.filt(tr1, {c}) != self.filt(tr2, {c}):
                        self.sum.ctrl.setdefault(lb[1], set()).add(c)

    def nonetest(self, t):
        """True/False when the test says that a communicator is None / is not None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.nonetest(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None and self.comm(t.left) is not None:
            return True if isinstance(t.ops[0], (ast.Is, ast.Eq)) else False
        if self.comm(t) is not None:
            return False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt) and isinstance(t.left, ast.Call) \
                and isinstance(t.left.func, ast.Attribute) and t.left.func.attr == 'Get_size' \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 1:
            return False        # a communicator of one process is as good as none
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and all(self.nonetest(v) is False for v in t.values):
            return False
        return None

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            m(s)
            return
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.ev(ch)

    def s_If(self, s):
        self.branch(s, s.body, s.orelse)

    def loop(self, s, labels, what, pre):
        self.loopdiv = list(self.loopdiv) + [(set(), set())]
        self.loops.append((frozenset(labels), what))
        nf, nw, ng = len(self.findings), len(self.writes), len(self.gathers)
        tr0 = self.trace
        for _ in range(3):
            st0 = self.st.copy()
            pre()
            self.trace = []
            del self.findings[nf:], self.writes[nw:], self.gathers[ng:]
            self.block(s.body)
            new = join(self.st, st0)
            for n in self.st.synced:        # made the same in the loop
                if n not in st0.synced:
                    new.env[n] = self.st.env.get(n, E)
                    new.synced[n] = set(self.st.synced[n])
            same = new.env == st0.env
            self.st = new
            if same:
                break
        tr1 = self.trace
        self.loops.pop()
        brk, cont = self.loopdiv[-1]
        self.loopdiv = self.loopdiv[:-1]
        t = self.touched(tr1)
        h = self.hit(brk | cont, t) if (brk | cont) else set()
        if h and self.hit(brk, t):
            self.bad('step', s, 'a loop with collective calls on %s is left early by some of the processes only'
                     % '/'.join(sorted(self.hit(brk, t))))
        for lb in brk:
            if lb[0] == 'P':
                self.sum.ctrl.setdefault(lb[1], set()).update(t)
        if labels:
            for n in self.assigned(s.body):
                self.st.env[n] = self.st.env.get(n, E) | frozenset(labels)
        self.trace = tr0
        self.trace.append(('loop', None, tr1))
        self.block(s.orelse)

    def s_For(self, s):
        if isinstance(s.iter, (ast.Tuple, ast.List)) and 0 < len(s.iter.elts) <= 8 and not s.orelse and not exits(s.body):
            for v in s.iter.elts:       # written out
                m = None
                if isinstance(s.target, ast.Name):
                    m = {s.target.id: v}
                elif isinstance(s.target, ast.Tuple) and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(s.target.elts) \
                        and all(isinstance(t, ast.Name) for t in s.target.elts):
                    m = {t.id: x for t, x in zip(s.target.elts, v.elts)}
                if m is None or set(m) & self.assigned(s.body):
                    break
                self.block([Subst(m).visit(copy.deepcopy(x)) for x in s.body])
            else:
                return
        labels = self.ev(s.iter)
        self.loop(s, labels, 'a loop over "%s"' % short(s.iter), lambda: self.bindto(s.target, labels))

    def s_While(self, s):
        labels = set()
        st = self.st.copy()
        labels = self.ev(s.test)
        w = ast.While(test=s.test, body=s.body, orelse=s.orelse)
        ast.copy_location(w, s)
        probe = set(labels)
        self.loop(s, probe, 'a loop while "%s"' % short(s.test), lambda: None)
        more = self.ev(s.test) - frozenset(probe)
        if more:
            self.st = st
            self.loop(s, probe | more, 'a loop while "%s"' % short(s.test), lambda: None)

    def s_Try(self, s):
        self.block(s.body)
        for h in s.handlers:
            st, tr = self.st.copy(), self.trace
            self.trace = []
            self.block(h.body)
            self.trace = tr
            self.st = join(st, self.st)
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_With(self, s):
        for i in s.items:
            lb = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bindto(i.optional_vars, lb)
        self.block(s.body)

    def s_FunctionDef(self, s):
        g = self.f.nested.get(s.name)
        if g is None or g.node is not s:
            for x in self.f.nested.values():
                if x.node is s:
                    g = x
        if g is not None:
            w = Walk(self.prog, g, self)
            w.run()
            self.nested[s.name] = w
            self.findings += w.findings
            self.ncoll += w.ncoll

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        pass

    def s_Return(self, s):
        if s.value is not None:
            lb = set(self.ev(s.value))
            self.sum.ret |= lb
            self.sum.ret0 |= lb

    def s_Raise(self, s):
        pass

    def s_Assert(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_AugAssign(self, s):
        lb = self.ev(s.value)
        r = rootname(s.target)
        if isinstance(s.target, ast.Name):
            self.st.env[s.target.id] = self.st.env.get(s.target.id, E) | lb
        elif r is not None:
            self.written(s.target, lb)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign([s.target], s.value, s)

    def s_Assign(self, s):
        self.assign(s.targets, s.value, s)

    def assign(self, targets, value, s):
        d = self.distribution(value)
        if d is not None:
            self.distribute(targets[0], value, d)
            return
        if len(targets) == 1 and isinstance(targets[0], ast.Tuple) and isinstance(value, ast.Tuple) \
                and len(targets[0].elts) == len(value.elts):
            ls = [self.ev(v) for v in value.elts]
            for t, lb in zip(targets[0].elts, ls):
                self.bindto(t, lb)
            return
        if isinstance(value, ast.Name) and value.id in self.distvars and isinstance(targets[0], ast.Tuple):
            call, d = self.distvars[value.id]
            self.distribute(targets[0], call, d, again=True)
            return
        lb = self.ev(value)
        for t in targets:
            self.bindto(t, lb)
            if isinstance(t, ast.Name):
                for v in ([value.body, value.orelse] if isinstance(value, ast.IfExp) else [value]):
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'to_vector' \
                            and isinstance(v.func.value, ast.Name):
                        self.derived[t.id] = v.func.value.id
                c = self.comm(value) if isinstance(value, (ast.Name, ast.Attribute)) else None
                if c is not None:
                    self.alias[t.id] = c
                elif t.id in self.alias:
                    del self.alias[t.id]
                v = value.body if isinstance(value, ast.IfExp) and self.nonetest(value.test) is False else \
                    value.orelse if isinstance(value, ast.IfExp) and self.nonetest(value.test) is True else value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in SAME:
                    c = self.comm(v.func.value)
                    if c is not None:
                        self.st.synced[t.id] = {c}
                        if v.func.attr == 'Split':
                            self.parent[t.id] = c

    def bindto(self, t, lb):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = frozenset(lb)
            self.st.synced.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bindto(x, lb)
        elif isinstance(t, ast.Starred):
            self.bindto(t.value, lb)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.written(t, lb)

    def written(self, t, lb):
        r = rootname(t)
        idx = self.ev(t.slice) if isinstance(t, ast.Subscript) else E
        if r is None:
            return
        if r != self.f.selfname:
            self.st.env[r] = self.st.env.get(r, E) | lb | idx
        if isinstance(t, ast.Subscript):
            self.write(r, idx, t)

    def write(self, name, labels, node):
        ds = frozenset(x for x in labels if x[0] == 'D')
        if ds:
            self.writes.append((name, ds, node))

    # ---- distribution
    def distribution(self, v):
        if not isinstance(v, ast.Call):
            return None
        n = last(v.func)
        if n is None or n.lstrip('_') not in DIST:
            return None
        n = n.lstrip('_')
        pos, key = DIST[n]
        a = arg(v, pos, key)
        if a is None:
            return None
        c = self.comm(a)
        if c is None:
            return None
        return n, c

    def distribute(self, target, call, d, again=False):
        n, c = d
        if not again:
            for a in call.args:
                self.ev(a)
            self.emit(n, [c], call)
            if isinstance(target, ast.Name):
                self.distvars[target.id] = (call, d)
        lab = ('D', call.lineno, call.col_offset, c)
        names = [dotted(x) if not isinstance(x, ast.Name) else x.id for x in target.elts] if isinstance(target, (ast.Tuple, ast.List)) else None
        info = {'comm': c, 'node': call, 'kind': n, 'owners': None, 'sub': None, 'guards': list(self.guards), 'slices': None,
                'loops': list(self.loops)}
        if names is None:
            self.bindto(target, [lab])
        else:
            order = {'distribute_slice': ('slices', 'loc', 'owners', 'sub')}.get(n, ('loc', 'owners', 'sub'))
            for role, x, t in zip(order, names, target.elts):
                if role == 'loc':
                    self.bindto(t, [lab])
                else:
                    self.bindto(t, [])
                    info[role] = x
            if info['sub'] not in (None, '_'):
                self.parent[info['sub']] = c
        self.dists[lab] = info
        self.used.setdefault(lab, False)

    def combined(self, labels, c):
        for lb in labels:
            if lb[0] == 'D' and c == lb[-1]:
                self.used[lb] = True

    # ---- expressions
    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return E
        if isinstance(e, ast.Name):
            return self.st.env.get(e.id, E)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            none = self.nonetest(e.test)
            lt = self.ev(e.test)
            tr0 = self.trace
            self.trace = []
            a = self.ev(e.body)
            ta, self.trace = self.trace, []
            b = self.ev(e.orelse)
            tb, self.trace = self.trace, tr0
            if none is True:
                self.trace += tb
            elif none is False:
                self.trace += ta
            else:
                self.differ(e, lt, ta, tb)
                self.trace.append(('if', ast.dump(e.test), ta, tb))
            return a | b | lt
        if isinstance(e, ast.Lambda):
            return E
        if isinstance(e, ast.Attribute):
            if e.attr == 'rank' and self.comm(e.value) is not None:
                return frozenset([('R', self.comm(e.value))])
            d = dotted(e)
            if d is not None and d in self.st.env:
                return self.st.env[d]
            return self.ev(e.value) if self.comm(e) is None else E
        if self.nonetest(e) is not None:
            return E
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            return frozenset(x for x in self.ev(e.left) if x[0] != 'D')     # every process has a share, however small
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = E
            n = 0
            for g in e.generators:
                lb = self.ev(g.iter)
                self.bindto(g.target, lb)
                out |= lb
                self.loops.append((lb, 'a loop over "%s"' % short(g.iter)))
                n += 1
                for c in g.ifs:
                    out |= self.ev(c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                out |= self.ev(x)
            del self.loops[-n:]
            return out
        out = E
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                out |= self.ev(ch)
            elif isinstance(ch, ast.keyword):
                out |= self.ev(ch.value)
        return out

    def call(self, e):
        fn = e.func
        n = last(fn)
        if isinstance(fn, ast.Attribute):
            c = self.comm(fn.value)
            if c is not None:
                if fn.attr in ('Get_rank', 'Get_name'):
                    return frozenset([('R', c)])
                if fn.attr in ('recv', 'Recv', 'irecv'):
                    for a in e.args:
                        r = rootname(a)
                        if r:
                            self.st.env[r] = self.st.env.get(r, E) | frozenset([('R', c)])
                    return frozenset([('R', c)])
                if fn.attr in COLL:
                    return self.collective(e, fn.attr, c)
                return E
        # time
        d = dotted(fn)
        if d in ('_time.time', 'time.time', '_time.perf_counter', '_time.clock', 'time.perf_counter'):
            return frozenset([('T', 0)])
        nm = n.lstrip('_') if n else None
        dd = self.distribution(e)
        if dd is not None:
            lab = ('D', e.lineno, e.col_offset, dd[1])
            for a in e.args:
                self.ev(a)
            self.emit(dd[0], [dd[1]], e)
            self.dists[lab] = {'comm': dd[1], 'node': e, 'kind': dd[0], 'owners': None, 'sub': None, 'guards': list(self.guards),
                               'slices': None, 'loops': list(self.loops)}
            self.used.setdefault(lab, False)
            return frozenset([lab])
        if nm in GATHER:
            return self.gathering(e, nm)
        labels = E
        recv = E
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
            labels |= recv
        args = [(None, a.value if isinstance(a, ast.Starred) else a) for a in e.args] + [(k.arg, k.value) for k in e.keywords
                                                                                         if k.arg != 'callback']
        lab = {}
        for _, a in args:
            lab[id(a)] = E if self.comm(a) is not None else self.ev(a)
            labels |= lab[id(a)]
        passed = [a for _, a in args if self.comm(a) is not None]
        # writes through package functions: an array handed over together with where to write
        if nm == 'fas' and len(e.args) >= 2:
            r = rootname(e.args[0])
            if r is not None:
                self.write(r, self.ev(e.args[1]), e)
                self.st.env[r] = self.st.env.get(r, E) | self.ev(e.args[1]) | (self.ev(e.args[2]) if len(e.args) > 2 else E)
            return E
        if isinstance(fn, ast.Name) and fn.id in self.nested:
            w = self.nested[fn.id]
            if w.sum.coll:
                self.emit(fn.id, self.mapped(w.sum.coll, e, w.f, False), e)
            return labels | frozenset(x for x in w.sum.ret if x[0] != 'P')
        if nm in PLAIN or n in PLAIN:
            return labels
        for k, a in args:            # local functions called back
            if isinstance(a, ast.Name) and a.id in self.nested:
                self.callback(e, a.id, args, lab)
        for _, a in args:
            if isinstance(a, ast.Name) and a.id.lower().endswith('tofill'):
                others = E.union(*[lab[id(x)] for _, x in args if x is not a])
                self.write(a.id, others, e)
                self.st.env[a.id] = self.st.env.get(a.id, E) | others
        if passed or (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.f.selfname) \
                or any(commname(k) for k, _ in args):
            ts = resolve(self.ix, self.f, e)
            ret = E
            if ts:
                comms = set()
                for t in ts:
                    sm = self.prog.summary(t.func)
                    b, whole = bind(e, t)
                    for p in sm.coll:
                        a = b.get(p)
                        if a is not None and self.comm(a) is not None:
                            comms.add(self.comm(a))
                        elif p.startswith('self.') and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) \
                                and fn.value.id == self.f.selfname:
                            comms.add(p)
                    for x in (sm.ret if passed else sm.ret0):
                        if x[0] == 'R' and x[1] in b and self.comm(b[x[1]]) is not None:
                            ret |= frozenset([('R', self.comm(b[x[1]]))])
                        elif x[0] == 'P' and x[1] in b:
                            ret |= lab.get(id(b[x[1]]), E)
                        elif x[0] == 'T':
                            ret |= frozenset([x])
                    for p, cs in sm.ctrl.items():
                        if p in b:
                            act = [self.comm(b[q]) for q in cs if q in b and self.comm(b[q]) is not None]
                            h = self.hit(lab.get(id(b[p]), E), act)
                            if h:
                                self.bad('step', e, '%s() decides by "%s" which collective calls to make on %s, and it is given a value '
                                         'that differs from process to process' % (n, p, '/'.join(sorted(h))))
                            for lb in lab.get(id(b[p]), E):
                                if lb[0] == 'P':
                                    for x in act:
                                        self.sum.ctrl.setdefault(lb[1], set()).add(x)
                if comms:
                    self.emit(n, comms, e)
                if all(t.exact for t in ts):
                    return ret | recv
            elif passed and not self.store(fn):
                self.emit(n or 'call', [self.comm(a) for a in passed], e)
                self.combine_by_args(lab, [self.comm(a) for a in passed])
        if isinstance(fn, ast.Attribute) and fn.attr in ('from_vector',) and isinstance(fn.value, ast.Name) and e.args:
            r = rootname(e.args[0])
            if r is not None and r in self.st.synced:
                self.st.synced[fn.value.id] = set(self.st.synced[r])
        return labels

    def combine_by_args(self, lab, cs):
        for c in cs:
            for lb in lab.values():
                self.combined(lb, c)

    def store(self, fn):
        r = self.ix.resolve_expr(fn, self.f.module, self.f)
        return isinstance(r, Cls) or (isinstance(r, tuple) and r[0] == 'ext')

    def mapped(self, coll, e, f, bound):
        out = set()
        for p in coll:
            if p in f.params:
                i = f.params.index(p)
                a = arg(e, i, p)
                if a is not None and self.comm(a) is not None:
                    out.add(self.comm(a))
            else:
                out.add(p)
        return out

    def callback(self, e, name, args, lab):
        """a local function handed to a package function: where it writes, by the arguments it is called with"""
        w = self.nested[name]
        ts = resolve(self.ix, self.f, e)
        ps = w.f.params
        plab = {p: E for p in ps}
        for t in ts:
            b, _ = bind(e, t)
            formal = [p for p, a in b.items() if isinstance(a, ast.Name) and a.id == name]
            if not formal:
                continue
            deps = depends(t.func)
            for c in ast.walk(t.func.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == formal[0]:
                    for i, a in enumerate(c.args):
                        if i < len(ps):
                            for x in ast.walk(a):
                                if isinstance(x, ast.Name):
                                    for q in deps.get(x.id, {x.id}):
                                        if q in b:
                                            plab[ps[i]] |= lab.get(id(b[q]), E)
        for arr, idx, node in w.paramwrites():
            labels = E
            for x in idx:
                labels |= plab.get(x, E)
            self.write(arr, labels, node)

    def paramwrites(self):
        """(array, names in the index, node) of what a local function writes"""
        for c in ast.walk(self.f.node):
            if isinstance(c, ast.Call) and (last(c.func) or '').lstrip('_') == 'fas' and len(c.args) >= 2:
                r = rootname(c.args[0])
                if r:
                    yield r, names(c.args[1]), c
            elif isinstance(c, ast.Subscript) and isinstance(c.ctx, ast.Store):
                r = rootname(c)
                if r:
                    yield r, names(c.slice), c

    def collective(self, e, op, c):
        labels = E
        for a in list(e.args) + [k.value for k in e.keywords]:
            labels |= self.ev(a)
        root = arg(e, 1, 'root') if op in ('bcast', 'Bcast', 'gather', 'scatter', 'reduce') else None
        self.emit(op, [c], e, short(root) if root is not None else None)
        if root is not None:
            h = self.hit(self.ev(root), [c])
            if h:
                self.bad('step', e, 'the root of %s on %s differs from process to process' % (op, c))
        self.combined(labels, c)
        if op in INPLACE and len(e.args) > INPLACE[op]:
            r = rootname(e.args[INPLACE[op]])
            if r is not None:
                src = labels if op != 'Bcast' else self.st.env.get(r, E)
                self.st.env[r] = frozenset(x for x in src if x[0] == 'P' or (x[0] in 'DR' and c not in self.up(x[-1])))
                self.st.synced.setdefault(r, set()).add(c)
            return E
        if op == 'bcast' and e.args:
            r = rootname(e.args[0])
            if r is not None:
                self.st.synced.setdefault(r, set()).add(c)
                if r in self.derived:
                    self.st.synced.setdefault(self.derived[r], set()).add(c)
        rest = frozenset(x for x in labels if x[0] in ('P',) or (x[0] in 'DR' and c not in self.up(x[-1])))
        if op in ('gather', 'reduce', 'scatter'):
            return rest | frozenset([('R', c)])
        return rest

    def gathering(self, e, nm):
        P = GPOS[nm]
        ow, ar, ca = (arg(e, P[x], x) for x in GATHER[nm])
        sl = arg(e, 0, 'slices' if nm == 'gather_slices' else 'indices')
        c = self.comm(ca) if ca is not None else None
        for a in list(e.args) + [k.value for k in e.keywords]:
            if self.comm(a) is None:
                self.ev(a)
        if c is None:
            return E
        self.emit(nm + '(%s)' % (rootname(ar) or short(ar)), [c], e)
        r = rootname(ar)
        idx = self.ev(arg(e, P['arToFillInds'], 'arToFillInds'))
        self.gathers.append((r, short(ow), c, e, list(self.guards), list(self.loops), short(sl), idx))
        for lb in self.dists:
            if self.dists[lb]['owners'] == short(ow):
                self.used[lb] = True
        if r is not None:
            self.st.env[r] = frozenset(x for x in self.st.env.get(r, E) if not (x[0] == 'D' and self.dists.get(x, {}).get('owners') == short(ow)))
        return E

    # ---- the end of a function
    def judge(self):
        """the gather rule"""
        out = []
        for lb, d in self.dists.items():
            if d['node'] not in self.prog.nodes_of(self.f):
                continue
            mine = [g for g in self.gathers if d['owners'] is not None and g[1] == d['owners']]
            wr = {}
            for name, labels, node in self.writes:
                if lb in labels:
                    wr.setdefault(name, node)
            for g in mine:
                if g[2] != d['comm']:
                    out.append((g[3], 'the share of "%s" is distributed on %s but collected on %s' % (g[0], d['comm'], g[2])))
                if any(lb in ls for ls, _ in g[5]):
                    out.append((g[3], '"%s" is collected inside the loop over the process\'s own share' % g[0]))
                if d['slices'] not in (None, '_') and g[6] != d['slices']:
                    out.append((g[3], '"%s" is collected by %s, not by the slices of the distribution (%s)' % (g[0], g[6], d['slices'])))
                if lb in g[7]:
                    out.append((g[3], '"%s" is collected from a place that is itself part of the share' % g[0]))
                extra = [x for x in g[4] if (x[0], x[1]) not in [(y[0], y[1]) for y in d['guards']]]
                for x in extra:
                    if x[0] is not None and not self.okguard(x, g[0], d['comm']):
                        out.append((g[3], 'collecting "%s" depends on "%s"' % (g[0], short(x[2]))))
            for name, node in sorted(wr.items()):
                if name in [g[0] for g in mine]:
                    gs = [g for g in mine if g[0] == name]
                    if not any(pos(g[3]) > pos(d['node']) for g in gs):
                        out.append((node, '"%s" is collected before the work is distributed' % name))
                    continue
                same = self.sources(name)
                if same and all(x in [g[0] for g in mine] for x in same):
                    continue
                if self.used.get(lb) and name not in self.f.params and not name.lower().endswith('tofill'):
                    continue
                if name in self.f.params or name.lower().endswith('tofill') or d['owners'] not in (None, '_'):
                    out.append((node, '"%s" is filled for the process\'s own share of the work (%s on %s) and never collected on %s'
                                % (name, d['kind'], d['comm'], d['comm'])))
            if not mine and not wr and not self.used.get(lb):
                out.append((d['node'], 'the work is distributed on %s, and what the processes compute is never brought together' % d['comm']))
        for node, msg in out:
            self.bad('gather', node, msg)

    def sources(self, name):
        """the arrays a local name stands for"""
        out = set()
        if name in self.f.params:
            return out
        for s in walk_own(self.f.node):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                for v in ([s.value.body, s.value.orelse] if isinstance(s.value, ast.IfExp) else [s.value]):
                    if isinstance(v, ast.Name) and v.id in self.f.params:
                        out.add(v.id)
        return out

    def okguard(self, g, name, c):
        test, pol = g[2], g[1]
        if isinstance(test, ast.Name):
            ds = [s.value for s in walk_own(self.f.node) if isinstance(s, ast.Assign)
                  and any(isinstance(t, ast.Name) and t.id == test.id for t in s.targets)]
            if len(ds) == 1:
                test = ds[0]
        parts = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and pol else [test]
        for t in parts:
            none = self.nonetest(t)
            if none is not None:
                if none is pol:
                    return False
                continue
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) \
                    and t.comparators[0].value is None and isinstance(t.left, ast.Name) and t.left.id == name \
                    and isinstance(t.ops[0], ast.IsNot) == pol:
                continue
            return False
        return True


def pos(n):
    return (n.lineno, n.col_offset)


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


_deps = {}


def depends(f):
    """local name -> parameters of f its value comes from"""
    if f in _deps:
        return _deps[f]
    out = {p: {p} for p in f.params}
    for _ in range(4):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                src = set().union(*[out.get(x, set()) for x in names(n.value)]) if names(n.value) else set()
                for t in n.targets:
                    for x in names(t):
                        out[x] = out.get(x, set()) | src
            elif isinstance(n, ast.For):
                src = set().union(*[out.get(x, set()) for x in names(n.iter)]) if names(n.iter) else set()
                for x in names(n.target):
                    out[x] = out.get(x, set()) | src
    _deps[f] = out
    return out


def short(e):
    try:
        s = ast.unparse(e)
    except Exception:
        s = '?'
    s = ' '.join(s.split())
    return s if len(s) < 70 else s[:67] + '...'


def seq(tr):
    out = []
    for t in tr:
        if t[0] == 'if':
            out.append('either ' + seq(t[2]) + ' or ' + seq(t[3]))
        elif t[0] == 'loop':
            out.append('loop of ' + seq(t[1]))
        else:
            out.append(t[0] + ('(root=%s)' % t[2] if t[2] else ''))
    return ', '.join(out) or 'none'


def leaves(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return leaves(s.body) and leaves(s.orelse)
    return False


def raises(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, ast.If):
        return raises(s.body) and raises(s.orelse)
    return isinstance(s, ast.Raise)


def exits(body):
    out = set()

    def rec(ss, inloop):
        for s in ss:
            if isinstance(s, ast.Return):
                out.add('return')
            elif isinstance(s, ast.Break) and not inloop:
                out.add('break')
            elif isinstance(s, ast.Continue) and not inloop:
                out.add('continue')
            elif isinstance(s, ast.If):
                rec(s.body, inloop)
                rec(s.orelse, inloop)
            elif isinstance(s, (ast.For, ast.While)):
                rec(s.body, True)
                rec(s.orelse, inloop)
            elif isinstance(s, ast.Try):
                rec(s.body, inloop)
                rec(s.orelse, inloop)
                rec(s.finalbody, inloop)
            elif isinstance(s, ast.With):
                rec(s.body, inloop)
    rec(body, False)
    return out


def join(a, b):
    out = State(a.env)
    for k, v in b.env.items():
        out.env[k] = out.env.get(k, E) | v
    for k in a.synced:
        if k in b.synced:
            out.synced[k] = a.synced[k] & b.synced[k]
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return self.m[n.id] if n.id in self.m and isinstance(n.ctx, ast.Load) else n


class Program(object):
    def __init__(self, ix):
        self.ix = ix
        self.sums = {}
        self.funcs = [f for f in all_functions(ix, nested=False) if self.relevant(f)]
        self._nodes = {}

    def relevant(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and commname(n.id) or isinstance(n, ast.arg) and commname(n.arg) \
                    or isinstance(n, ast.Attribute) and commname(n.attr):
                return True
        return False

    def nodes_of(self, f):
        if f not in self._nodes:
            self._nodes[f] = set(walk_own(f.node))
        return self._nodes[f]

    def summary(self, f):
        s = self.sums.get(f)
        if s is None:
            s = Summary()
        return s

    def solve(self):
        for r in range(8):
            changed = False
            for f in self.funcs:
                w = Walk(self, f).run()
                old = self.sums.get(f)
                if old is None or old.key() != w.sum.key():
                    changed = True
                self.sums[f] = w.sum
            if not changed:
                break


def check(repo, tier='quick'):
    ix = Index(repo)
    res = Result()
    p = Program(ix)
    p.solve()
    ncoll = ndist = ngath = nwr = 0
    with open(os.path.join(HERE, 'c11_allow.txt')) as fh:
        allow = [tuple(y.strip() for y in x.split('|')) for x in fh if x.strip() and not x.startswith('#')]
    for f in p.funcs:
        w = Walk(p, f).run()
        w.judge()
        ncoll += w.ncoll
        ndist += len(w.dists)
        ngath += len(w.gathers)
        nwr += len(w.writes)
        rs = sorted({x[1] for x in w.sum.ret if x[0] == 'R' and x[1] in f.params})
        if rs:
            w.bad('known', f.node, 'what the function returns differs from process to process of %s: a value only some of the '
                  'processes know was not passed on to the others' % '/'.join(rs))
        for kind, node, msg in w.findings:
            q = f.qual[7:] if f.qual.startswith('pygsti.') else f.qual
            if any(a[0] == kind and a[1] == q and a[2] in msg for a in allow):
                continue
            res.add('C11.' + kind, '%s: %s' % (q, msg), f.loc(node), msg)
    res.count('functions that handle a communicator', len(p.funcs), 300)
    res.count('collective calls', ncoll, 300)
    res.count('distributions of work', ndist, 40)
    res.count('gathers', ngath, 50)
    res.count('writes of a share', nwr, 40)
    res.explanation = __doc__
    return res


if __name__ == '__main__':
    import sys
    r = check(sys.argv[1])
    for x in r.findings:
        print(x.text())
    print(r.coverage)
