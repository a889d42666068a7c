"""Locals that some path reads without having assigned them.

Paths are followed with what their branch conditions say: a condition (its text) decided on one branch stays decided until one
of its names is assigned, so that `if a: x = 1 ... if a: use(x)` is one path. Loops are taken to run at least once, a try body
either completes or fails at its first statement. A chain of tests of one subject (if x == 'a': ... elif x == 'b': ...) is taken
to list every value the subject can have. A function with too many distinct paths is given up (not reported).
"""
import ast
from .index import walk_own

LIMIT = 400


class GaveUp(Exception):
    pass


class State(object):
    __slots__ = ('b', 'k')

    def __init__(self, b, k):
        self.b, self.k = b, k          # bound names, known conditions {text: bool}

    def copy(self):
        return State(set(self.b), dict(self.k))

    def key(self):
        return (frozenset(self.b), frozenset(self.k.items()))


def names_in(e):
    return set(x.id for x in ast.walk(e) if isinstance(x, ast.Name)) | \
        set('.' + x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute))


class MustBound(object):
    def __init__(self, func, locals_, start, report):
        self.f, self.locals, self.start, self.report = func, locals_, start, report
        self.texts = {}
        # only the variables assigned in some branch matter
        tests = [n.test for n in walk_own(func) if isinstance(n, (ast.If, ast.IfExp, ast.While))]
        cnt = {}
        for t in tests:
            for a in self.atoms(t):
                cnt[self.norm(a)[0]] = cnt.get(self.norm(a)[0], 0) + 1
        self.live = set(k for k, v in cnt.items() if v > 1)

    def atoms(self, t):
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                for a in self.atoms(v):
                    yield a
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            for a in self.atoms(t.operand):
                yield a
        else:
            yield t

    def norm(self, a):
        """(text, polarity)"""
        pol = True
        if isinstance(a, ast.Compare) and len(a.ops) == 1:
            op = a.ops[0]
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.Lt: None, ast.LtE: None}
            if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                a2 = ast.Compare(left=a.left, ops=[flip[type(op)]()], comparators=a.comparators)
                return ast.unparse(a2), False
            if isinstance(op, ast.GtE):        # a >= b  ==  not a < b
                return ast.unparse(ast.Compare(left=a.left, ops=[ast.Lt()], comparators=a.comparators)), False
            if isinstance(op, ast.Gt):         # a > b  ==  b < a
                return ast.unparse(ast.Compare(left=a.comparators[0], ops=[ast.Lt()], comparators=[a.left])), True
            if isinstance(op, ast.LtE):        # a <= b  ==  not b < a
                return ast.unparse(ast.Compare(left=a.comparators[0], ops=[ast.Lt()], comparators=[a.left])), False
        return ast.unparse(a), pol

    def split(self, t, sts):
        """-> (states where t holds, states where it does not)"""
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                yes, no = sts, []
                for v in t.values:
                    yes, n = self.split(v, yes)
                    no += n
                return yes, self.dedup(no)
            yes, no = [], sts
            for v in t.values:
                y, no = self.split(v, no)
                yes += y
            return self.dedup(yes), no
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            y, n = self.split(t.operand, sts)
            return n, y
        if isinstance(t, ast.Constant):
            return (sts, []) if t.value else ([], sts)
        for s in sts:
            self.reads(t, s)
        k, pol = self.norm(t)
        yes, no = [], []
        for s in sts:
            v = s.k.get(k)
            if v is None and isinstance(t, ast.Name):
                v = s.k.get(k)
            if v is not None:
                (yes if v == pol else no).append(s)
                continue
            # x == 'a' known true decides x == 'b'
            d = self.exclusive(t, s)
            if d is not None:
                (yes if d else no).append(s)
                continue
            a, b = s.copy(), s.copy()
            self.texts[k] = names_in(t)
            if k in self.live or self.cmpconst(t) is not None:
                a.k[k], b.k[k] = pol, not pol
            yes.append(a)
            no.append(b)
        return yes, no

    @staticmethod
    def cmpconst(t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and \
                isinstance(t.comparators[0], ast.Constant):
            return ast.unparse(t.left), t.comparators[0].value
        return None

    def exclusive(self, t, s):
        c = self.cmpconst(t)
        if c is None:
            return None
        neg = isinstance(t.ops[0], (ast.NotEq, ast.IsNot))
        for op in ('==', 'is'):
            for k, v in s.k.items():
                if v and k.startswith('%s %s ' % (c[0], op)):
                    try:
                        o = ast.literal_eval(k[len(c[0]) + len(op) + 2:])
                    except (ValueError, SyntaxError):
                        continue
                    if o != c[1] or type(o) is not type(c[1]):
                        return neg
        return None

    def dedup(self, sts):
        out = {}
        for s in sts:
            out.setdefault(s.key(), s)
        if len(out) > LIMIT:
            raise GaveUp()
        return list(out.values())

    def reads(self, e, s):
        if e is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id in self.locals and n.id not in s.b:
                self.report(n)
                s.b.add(n.id)
            if isinstance(n, ast.NamedExpr):
                s.b.add(n.target.id)
            if isinstance(n, (ast.IfExp, ast.BoolOp)):
                # the parts are evaluated under conditions
                if isinstance(n, ast.IfExp):
                    y, no = self.split(n.test, [s.copy()])
                    for q in y:
                        self.reads(n.body, q)
                    for q in no:
                        self.reads(n.orelse, q)
                else:
                    cur = [s.copy()]
                    for v in n.values:
                        for q in cur:
                            self.reads(v, q)
                        y, no = self.split(v, cur)
                        cur = y if isinstance(n.op, ast.And) else no
                continue
            todo.extend(ast.iter_child_nodes(n))

    def assign(self, name, s):
        s.b.add(name)
        for k in [k for k in s.k if name in self.texts.get(k, ())]:
            del s.k[k]

    def tgt(self, t, s):
        if isinstance(t, ast.Name):
            self.assign(t.id, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.tgt(e, s)
        elif isinstance(t, ast.Starred):
            self.tgt(t.value, s)
        else:
            self.reads(t, s)
            if isinstance(t, ast.Attribute):
                for k in [k for k in s.k if '.' + t.attr in self.texts.get(k, ())]:
                    del s.k[k]

    def run(self):
        s = State(set(self.start), {})
        self.loops = []
        try:
            self.block(self.f.body, [s])
        except GaveUp:
            return False
        return True

    def subject(self, t):
        """what a test compares with a value (None when it is something else)"""
        if isinstance(t, ast.BoolOp):
            ss = set(self.subject(v) for v in t.values)
            if isinstance(t.op, ast.And):
                ss.discard(None)
            return ss.pop() if len(ss) == 1 else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Gt, ast.Lt)):
            return ast.unparse(t.left)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and t.args:
            return ast.unparse(t.args[0])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.Is)):
            return '?none'
        return None

    def chain(self, st):
        """the (test, body) of an if/elif chain without else, or None"""
        out = []
        while True:
            out.append(st)
            if not st.orelse:
                return out
            if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
                st = st.orelse[0]
            else:
                return None

    def block(self, body, sts):
        i = 0
        while i < len(body):
            if not sts:
                return []
            st = body[i]
            group = []
            if isinstance(st, ast.If):
                subj = None
                while i + len(group) < len(body) and isinstance(body[i + len(group)], ast.If):
                    g = body[i + len(group)]
                    c = self.chain(g)
                    if c is None:
                        break
                    ss = set(self.subject(x.test) for x in c)
                    if None in ss or len(ss) != 1 or (subj is not None and ss != subj):
                        break
                    subj = ss
                    group.append(g)
            arms = [x for g in group for x in self.chain(g)]
            if len(arms) > 1:
                for g in group:
                    sts = self.dedup(self.stmt(g, sts))
                common = None
                for x in arms:
                    if isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        continue
                    a = self.stores(x.body)
                    common = a if common is None else common & a
                for s in sts:
                    s.b |= (common or set())
                i += len(group)
                continue
            sts = self.dedup(self.stmt(st, sts))
            i += 1
        return sts

    @staticmethod
    def stores(body):
        return set(x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

    def stmt(self, st, sts):
        if isinstance(st, ast.Assign):
            for s in sts:
                self.reads(st.value, s)
                for t in st.targets:
                    self.tgt(t, s)
                if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    self.learn(st.targets[0].id, st.value, s)
            return sts
        if isinstance(st, ast.AugAssign):
            for s in sts:
                if isinstance(st.target, ast.Name):
                    self.reads(ast.Name(id=st.target.id, ctx=ast.Load(), lineno=st.lineno, col_offset=0), s)
                self.reads(st.value, s)
                self.tgt(st.target, s)
            return sts
        if isinstance(st, ast.AnnAssign):
            for s in sts:
                self.reads(st.value, s)
                if st.value is not None:
                    self.tgt(st.target, s)
            return sts
        if isinstance(st, (ast.Return, ast.Raise)):
            for s in sts:
                for c in ast.iter_child_nodes(st):
                    self.reads(c, s)
            return []
        if isinstance(st, ast.Break):
            self.loops[-1].extend(sts)
            return []
        if isinstance(st, ast.Continue):
            self.loops[-1].extend(sts)
            return []
        if isinstance(st, ast.Assert):
            y, _ = self.split(st.test, sts)
            if isinstance(st.test, ast.Constant) and not st.test.value:
                return []
            return y
        if isinstance(st, ast.If):
            y, n = self.split(st.test, sts)
            return self.block(st.body, y) + self.block(st.orelse, n)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                y, n = self.split(st.test, sts)
                run = y
                skip = n if not y else []
            else:
                for s in sts:
                    self.reads(st.iter, s)
                run, skip = sts, []
            # a loop that may run zero times is taken to run (its variables are meant to be there afterwards)
            if not isinstance(st, ast.While):
                for s in run:
                    self.tgt(st.target, s)
            self.loops.append([])
            outs = self.block(st.body, run)
            for s in [x for x in outs]:
                pass
            jumped = self.loops.pop()
            outs = self.dedup(outs + jumped)
            # what the loop body decides may differ between iterations
            stores = set(x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            if not isinstance(st, ast.While):
                stores |= set(x.id for x in ast.walk(st.target) if isinstance(x, ast.Name))
            allb = set().union(*[s.b for s in outs]) if outs else set()
            for s in outs:
                for k in [k for k in s.k if self.texts.get(k, set()) & stores]:
                    del s.k[k]
                s.b |= allb & stores            # assigned in some iteration
            outs = self.dedup(outs)
            return self.block(st.orelse, outs + skip) if st.orelse else outs + skip
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for s in sts:
                for it in st.items:
                    self.reads(it.context_expr, s)
                    if it.optional_vars is not None:
                        self.tgt(it.optional_vars, s)
            return self.block(st.body, sts)
        if isinstance(st, ast.Try):
            pre = [s.copy() for s in sts]
            body = self.block(st.body, sts)
            if st.orelse:
                body = self.block(st.orelse, body)
            outs = body
            for h in st.handlers:
                hs = [s.copy() for s in pre]
                for s in hs:
                    if h.name:
                        s.b.add(h.name)
                outs = outs + self.block(h.body, hs)
            outs = self.dedup(outs)
            if st.finalbody:
                outs = self.block(st.finalbody, outs if outs else pre)
            return outs
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for s in sts:
                self.assign(st.name, s)
            return sts
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for s in sts:
                for x in st.names:
                    s.b.add(x.asname or x.name.split('.')[0])
            return sts
        if isinstance(st, ast.Delete):
            for s in sts:
                for t in st.targets:
                    self.reads(t, s)
                    if isinstance(t, ast.Name):
                        s.b.discard(t.id)
            return sts
        if isinstance(st, ast.Match):
            outs = []
            for c in st.cases:
                ss = [s.copy() for s in sts]
                for s in ss:
                    s.b.update(x.name for x in ast.walk(c.pattern) if getattr(x, 'name', None))
                outs += self.block(c.body, ss)
            return outs + sts
        for s in sts:
            for c in ast.iter_child_nodes(st):
                self.reads(c, s)
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and \
                st.value.func.attr in ('exit', '_exit', 'fail'):
            return []
        return sts

    def learn(self, name, v, s):
        if isinstance(v, ast.Constant):
            for k, val in (('%s is None' % name, v.value is None), (name, bool(v.value))):
                if k in self.live:
                    s.k[k] = val
                    self.texts.setdefault(k, {name})
