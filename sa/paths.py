"""A small path-sensitive walker over function bodies (statement by statement, both branches, loops 0-2 times).

States carry an environment (local name -> abstract value of the client) and facts about which names are None, are
True/False or are (not) instances.  The client evaluates expressions; the walker knows control flow only.
"""
import ast


class State(object):
    __slots__ = ('env', 'facts')

    def __init__(self, env=None, facts=None):
        self.env = dict(env or {})
        self.facts = dict(facts or {})

    def copy(self):
        return State(self.env, self.facts)

    def key(self):
        return (tuple(sorted((k, v) for k, v in self.env.items() if v is not None)), tuple(sorted(self.facts.items())))


def test_key(t):
    """(key, polarity) of an atomic test, or None"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k = test_key(t.operand)
        return (k[0], not k[1]) if k else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op, a, b = t.ops[0], t.left, t.comparators[0]
        if isinstance(a, ast.Constant) and a.value is None:
            a, b = b, a
        if isinstance(b, ast.Constant) and b.value is None and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            n = name_of(a)
            return (('none', n), isinstance(op, (ast.Is, ast.Eq))) if n else None
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            d = tuple(sorted([ast.dump(a), ast.dump(b)]))
            return ('eq',) + d, isinstance(op, (ast.Eq, ast.Is))
    n = name_of(t)
    if n:
        return ('true', n), True
    return None


def name_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        return 'self.' + e.attr
    return None


class PathWalk(object):
    CAP = 300
    ZERO_TRIP = True      # also consider loops over nothing

    def __init__(self):
        self.capped = False
        self.depth = 0            # loops around the current statement

    # ---- client interface
    def ev(self, e, st):
        return None

    def assign(self, target, value, st, node):
        if isinstance(target, ast.Name):
            st.env[target.id] = value
            self.forget(target.id, st)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.assign(t, value, st, node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, value, st, node)

    def augassign(self, s, st):
        self.ev(s.value, st)

    def on_return(self, s, st):
        pass

    def on_yield(self, e, st):
        pass

    def on_raise(self, s, st):
        pass

    # ---- facts
    def forget(self, name, st):
        for k in [k for k in st.facts if name in k[1:] or any(isinstance(x, str) and ("id='%s'" % name) in x for x in k[1:])]:
            del st.facts[k]

    def assume(self, t, truth, st):
        """True/False if the fact contradicts the path; refines st"""
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == truth:
                return all(self.assume(v, truth, st) for v in t.values)
            vals = [self.known(v, st) for v in t.values]
            if all(v is (not truth) for v in vals):
                return False
            und = [v for v, k in zip(t.values, vals) if k is None]
            if len(und) == 1 and all(k is (not truth) for v, k in zip(t.values, vals) if v is not und[0]):
                return self.assume(und[0], truth, st)
            return True
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not truth, st)
        if isinstance(t, ast.Constant):
            return bool(t.value) == truth
        k = test_key(t)
        if k is None:
            return True
        key, pol = k
        val = truth if pol else not truth
        if key[0] == 'true' and key[1] in st.env and isinstance(st.env[key[1]], tuple) and st.env[key[1]][:1] == ('test',):
            return self.assume(self.tests[st.env[key[1]][1]], val, st)
        if key in st.facts:
            return st.facts[key] == val
        if key[0] == 'true' and val and st.facts.get(('none', key[1])) is True:
            return False
        if key[0] == 'none' and val and st.facts.get(('true', key[1])) is True:
            return False
        st.facts[key] = val
        return True

    def known(self, t, st):
        a, b = st.copy(), st.copy()
        ya, yb = self.assume(t, True, a), self.assume(t, False, b)
        if ya and not yb:
            return True
        if yb and not ya:
            return False
        return None

    # ---- walking
    def run(self, func, st=None):
        st = st or State()
        self.func = func
        self.tests = {}
        out = self.block(func.node.body, [st])
        for s in out['next']:
            self.on_return(None, s)

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.CAP:
            self.capped = True
            out = out[:self.CAP]
        return out

    def block(self, stmts, states):
        res = {'next': states, 'break': [], 'continue': []}
        for s in stmts:
            nxt = []
            for st in res['next']:
                r = self.stmt(s, st)
                nxt += r.get('next', [])
                res['break'] += r.get('break', [])
                res['continue'] += r.get('continue', [])
            res['next'] = self.dedupe(nxt)
            if not res['next']:
                break
        return res

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is not None and isinstance(s.value, ast.IfExp):
                for br, truth in ((s.value.body, True), (s.value.orelse, False)):
                    b = st.copy()
                    if self.assume(s.value.test, truth, b):
                        self.on_return(ast.copy_location(ast.Return(br), s), b)
                return {}
            self.on_return(s, st)
            return {}
        if isinstance(s, ast.Raise):
            self.on_raise(s, st)
            return {}
        if isinstance(s, ast.Break):
            return {'break': [st]}
        if isinstance(s, ast.Continue):
            return {'continue': [st]}
        if isinstance(s, ast.If):
            self.ev(s.test, st)
            out = {'next': [], 'break': [], 'continue': []}
            for body, truth in ((s.body, True), (s.orelse, False)):
                b = st.copy()
                if self.assume(s.test, truth, b):
                    r = self.block(body, [b])
                    for k in out:
                        out[k] += r.get(k, [])
            return out
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            r = self.block(s.body, [st])
            out = {'next': [], 'break': list(r['break']), 'continue': list(r['continue'])}
            r2 = self.block(s.orelse, r['next']) if s.orelse else {'next': r['next'], 'break': [], 'continue': []}
            for k in out:
                out[k] += r2[k]
            for h in s.handlers:
                b = before.copy()
                r3 = self.block(h.body, [b])
                for k in out:
                    out[k] += r3[k]
            if s.finalbody:
                r4 = self.block(s.finalbody, self.dedupe(out['next']))
                out['next'] = r4['next']
                out['break'] += r4['break']
                out['continue'] += r4['continue']
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, s)
            return self.block(s.body, [st])
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                res = []
                for br, truth in ((s.value.body, True), (s.value.orelse, False)):
                    b = st.copy()
                    if self.assume(s.value.test, truth, b):
                        v = self.ev(br, b)
                        self.assign(s.targets[0], v, b, s)
                        self.note(s.targets, br, b)
                        res.append(b)
                return {'next': res}
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s)
            self.note(s.targets, s.value, st)
            return {'next': [st]}
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s)
            return {'next': [st]}
        if isinstance(s, ast.AugAssign):
            self.augassign(s, st)
            return {'next': [st]}
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
            return {'next': [st]}
        if isinstance(s, ast.Assert):
            self.ev(s.test, st)
            b = st.copy()
            return {'next': [b] if self.assume(s.test, True, b) else []}
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.env[s.name] = self.on_def(s, st)
            return {'next': [st]}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
            return {'next': [st]}
        return {'next': [st]}

    def note(self, targets, value, st):
        """facts that follow from an assignment"""
        if len(targets) != 1 or not isinstance(targets[0], ast.Name):
            return
        n = targets[0].id
        if isinstance(value, ast.Constant):
            if value.value is None:
                st.facts[('none', n)] = True
            elif isinstance(value.value, bool):
                st.facts[('true', n)] = value.value
        elif isinstance(value, (ast.Compare, ast.BoolOp)) or \
                (isinstance(value, ast.UnaryOp) and isinstance(value.op, ast.Not)):
            self.tests[value.lineno, value.col_offset] = value
            st.env[n] = ('test', (value.lineno, value.col_offset))
        elif isinstance(value, ast.Name):
            for k, v in list(st.facts.items()):
                if k[0] in ('none', 'true') and k[1] == value.id:
                    st.facts[(k[0], n)] = v

    def on_def(self, s, st):
        return None

    def loop(self, s, st):
        isfor = not isinstance(s, ast.While)
        infinite = not isfor and isinstance(s.test, ast.Constant) and s.test.value
        out, cur = [], [st]
        if isfor:
            itv = self.ev(s.iter, st)
        ends = [] if infinite or (isfor and not self.ZERO_TRIP) else [st.copy()]
        for _ in range(2):
            nxt = []
            for c in cur:
                b = c.copy()
                if isfor:
                    self.assign(s.target, self.loop_item(s, itv, b), b, s)
                else:
                    self.ev(s.test, b)
                    if not self.assume(s.test, True, b):
                        continue
                self.depth += 1
                r = self.block(s.body, [b])
                self.depth -= 1
                out += r['break']
                nxt += r['next'] + r['continue']
            cur = self.dedupe([n.copy() for n in nxt])
            if not infinite:
                ends += [c.copy() for c in cur]
        ends = self.dedupe(ends)
        if not isfor and not infinite:
            ends = [e for e in ends if self.assume(s.test, False, e)]
        if s.orelse:
            r = self.block(s.orelse, ends)
            return {'next': self.dedupe(r['next'] + out), 'break': r['break'], 'continue': r['continue']}
        return {'next': self.dedupe(ends + out)}

    def loop_item(self, s, itv, st):
        return itv
