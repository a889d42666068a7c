"""C12 The same inputs and seed give the same result.

Draws: every function that takes a seed or a random generator is interpreted under the assumption that one of them is given
(branches on `seed is None` decided accordingly) and everything it calls in the package under the arguments it passes on.
Every draw reached must come from a generator made from the given seed (or from the given generator), or from a global
generator that has been seeded with it before on that path.  A generator made anew from an unchanged seed in every round of a
loop (or an unchanged integer seed passed on in every round) repeats the same numbers.  A seed may not be overwritten by a
value that has nothing to do with it, and the global generators are not reseeded with a constant.

Order: where a function walks through a set (of labels, strings, circuits: an order that changes from run to run with the hash
seed) or the entries of a directory, the order must not reach a result: the elements are sorted, or only what does not depend
on the order is done with them.
"""
import ast
from ..index import Index, Func, Cls, walk_own, dotted
from ..calls import resolve, bind, all_functions
from ..report import Result
import os

SEEDS = {'seed', 'randState', 'rand_state', 'randstate', 'random_state', 'rndm', 'rng', 'keepSeed', 'startSeed', 'seedStart', 'candidateSeed',
         'pseed', 'prng', 'generator', 'rand_seed', 'random_seed'}
DRAWS = {'rand', 'randn', 'randint', 'random', 'random_sample', 'ranf', 'sample', 'choice', 'shuffle', 'permutation', 'binomial', 'multinomial',
         'normal', 'uniform', 'standard_normal', 'poisson', 'beta', 'gamma', 'exponential', 'dirichlet', 'chisquare', 'bytes',
         'random_integers', 'integers', 'choices', 'gauss', 'randrange', 'betavariate', 'getrandbits', 'multivariate_normal', 'triangular'}
MAKERS = {'RandomState', 'default_rng', 'Random', 'Generator', 'PCG64', 'MT19937', 'SeedSequence'}
HERE = os.path.dirname(os.path.abspath(__file__))

# kinds of a value that seeds: 'int' derived from a given seed (a plain value), 'gen' a generator made from it, 'none' None,
# 'np' / 'py' the global generators, 'fresh' an unseeded generator, 'other' anything else
NONEISH = {'none', 'np', 'py', 'fresh'}


def load_allow(name):
    out = set()
    p = os.path.join(os.path.dirname(HERE), 'data', name)
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.split('#')[0].strip()
            if ln:
                out.add(tuple(x.strip() for x in ln.split('|')))
    return out


class Prog(object):
    def __init__(self, ix):
        self.ix = ix
        self.funcs = list(all_functions(ix))
        self.memo = {}
        self.ncalls = self.ndraws = 0
        self.extname = {}
        self.nonedefs = {}
        self.drawing = self.may_draw()

    def may_draw(self):
        """functions from which a draw or a generator can be reached"""
        callers, todo = {}, []
        for f in self.funcs:
            own = False
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and n.attr in ('random', 'rvs') or isinstance(n, ast.Call) and (
                        isinstance(n.func, ast.Attribute) and n.func.attr in DRAWS | MAKERS | {'seed'}):
                    own = True
                if isinstance(n, ast.Call):
                    for t in resolve(self.ix, f, n):
                        callers.setdefault(t.func, set()).add(f)
            if own:
                todo.append(f)
            if f.parent is not None:
                callers.setdefault(f, set()).add(f.parent)
        out = set(todo)
        while todo:
            for c in callers.get(todo.pop(), ()):
                if c not in out:
                    out.add(c)
                    todo.append(c)
        return out

    def never_none(self, g):
        rs = [n for n in walk_own(g.node) if isinstance(n, ast.Return)]
        return g.name == '__init__' or bool(rs) and g.node.body[-1] in rs and all(
            r.value is not None and isinstance(r.value, (ast.Name, ast.List, ast.Dict, ast.Tuple, ast.Call, ast.BinOp)) for r in rs)

    def nonedef(self, g):
        if g not in self.nonedefs:
            tested = {dotted(n.left) for n in walk_own(g.node) if isinstance(n, ast.Compare)}
            self.nonedefs[g] = [q for q in g.params if q in tested and default_none(g, q)]
        return self.nonedefs[g]

    def ext(self, e, f):
        """dotted name of an external thing an expression names ('numpy.random.rand'), or None"""
        d = dotted(e)
        if d is None:
            return None
        root = d.split('.')[0]
        k = (root, f)
        if k not in self.extname:
            r = self.ix.resolve_name(root, f.module, f)
            self.extname[k] = r[1] if isinstance(r, tuple) and r[0] == 'ext' else None
        x = self.extname[k]
        if x is None:
            return None
        return '.'.join([x] + d.split('.')[1:])

    def seed_params(self, f):
        return [p for p in f.params if p in SEEDS]

    def analyse(self, f, given):
        """given: frozenset of (param, kind).  -> frozenset of (source kind, loc, text), bool draws at all"""
        key = (f, given)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (frozenset(), False, frozenset())
        if self.drawing is not None and f not in self.drawing:
            return self.memo[key]
        for _ in range(2):
            w = Interp(self, f, dict(given))
            w.run()
            new = (frozenset(w.out), w.draws, frozenset(w.repeats))
            if new == self.memo[key]:
                break
            self.memo[key] = new
        return self.memo[key]


class Interp(object):
    """one pass over a function body; env: name -> frozenset of kinds"""

    def __init__(self, p, f, given):
        self.p, self.f, self.given = p, f, given
        self.out, self.draws, self.repeats = set(), False, set()
        self.loops = []

    def run(self):
        f = self.f
        env = {}
        defaults = {}
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for q in f.params:
            if q in self.given:
                env[q] = frozenset([self.given[q]])
            elif q in SEEDS:
                d = defaults.get(q)
                env[q] = frozenset(['none' if d is not None and isinstance(d, ast.Constant) and d.value is None
                                    else 'int' if isinstance(d, ast.Constant) else 'other'])
        st = {'env': env, 'np': False, 'py': False}
        self.block(f.node.body, st)

    # -- states --------------------------------------------------------------------------
    @staticmethod
    def copy(st):
        return {'env': dict(st['env']), 'np': st['np'], 'py': st['py']}

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a['env']) | set(b['env']):
            env[k] = a['env'].get(k, frozenset()) | b['env'].get(k, frozenset())
        return {'env': env, 'np': a['np'] and b['np'], 'py': a['py'] and b['py']}

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global,
                          ast.Nonlocal, ast.Pass)):
            return st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            t = self.truth(s.test, st)
            a = self.block(s.body, self.narrow(s.test, True, self.copy(st))) if t is not False else None
            b = self.block(s.orelse, self.narrow(s.test, False, self.copy(st))) if t is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st)
            self.loops.append(self.assigned(s))
            cur = st
            for _ in range(2):
                c = self.copy(cur)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        k = self.kind(s.iter, cur) & {'int', 'gen'}
                        c['env'][n.id] = frozenset(k or ['other'])
                c = self.block(s.body, c)
                cur = self.join(cur, c)
            self.loops.pop()
            for n in ast.walk(s):                     # for key in d: x[key] = d[key] (for keys not there yet)
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Subscript, ast.Name)):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Constant):
                            src = dotted(n.value.value) if isinstance(n.value, ast.Subscript) else \
                                next((dotted(y.func.value) for y in ast.walk(s.iter) if isinstance(y, ast.Call)
                                      and isinstance(y.func, ast.Attribute) and y.func.attr == 'items'), None)
                            nm = dotted(t.value)
                            for q in SEEDS:
                                if (src, q) in cur['env'] and nm:
                                    v = cur['env'][src, q]
                                    if v != {'none'}:
                                        cur['env'][nm, q] = v | (cur['env'].get((nm, q), frozenset()) - {'none'})
            return self.block(s.orelse, cur)
        if isinstance(s, ast.While):
            self.expr(s.test, st)
            self.loops.append(self.assigned(s))
            cur = st
            for _ in range(2):
                c = self.block(s.body, self.copy(cur))
                cur = self.join(cur, c)
            self.loops.pop()
            return self.block(s.orelse, cur)
        if isinstance(s, ast.Try):
            a = self.block(s.body, self.copy(st))
            out = self.block(s.orelse, a) if a is not None else None
            for h in s.handlers:
                b = self.block(h.body, self.join(self.copy(st), self.copy(a) if a is not None else None))
                out = self.join(out, b)
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else self.copy(st))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.expr(s.value, st)
                k = self.kind(s.value, st)
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(s.value.elts):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                st['env'][x.id] = self.kind(v, st)
                    elif isinstance(t, ast.Subscript):
                        self.store(t, s.value, st)
                    elif isinstance(t, ast.Name):
                        self.dictval(t.id, s.value, st)
                        st['env'][t.id] = k if not isinstance(s, ast.AugAssign) else \
                            (k | st['env'].get(t.id, frozenset(['other'])))
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st

    def dictval(self, nm, v, st):
        """what a dictionary of arguments holds under the names of seeds"""
        env = st['env']
        for q in SEEDS:
            env.pop((nm, q), None)
        if isinstance(v, ast.Dict) and None not in v.keys:
            for q in SEEDS:
                env[nm, q] = frozenset(['none'])
            for k, x in zip(v.keys, v.values):
                if isinstance(k, ast.Constant) and k.value in SEEDS:
                    env[nm, k.value] = self.kind(x, st)
        elif isinstance(v, ast.Call):
            src = None
            if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy':
                src = dotted(v.func.value)
            elif dotted(v.func) in ('dict', 'OrderedDict') and len(v.args) <= 1:
                src = dotted(v.args[0]) if v.args else ''
            if src is not None:
                for q in SEEDS:
                    if (src, q) in env or src == '':
                        env[nm, q] = env.get((src, q), frozenset(['none']))
                for k in v.keywords:
                    if k.arg in SEEDS:
                        env[nm, k.arg] = self.kind(k.value, st)
        elif isinstance(v, ast.Name):
            for q in SEEDS:
                if (v.id, q) in env:
                    env[nm, q] = env[v.id, q]

    def store(self, t, v, st):
        nm = dotted(t.value)
        env = st['env']
        if nm is None:
            return
        if isinstance(t.slice, ast.Constant):
            if t.slice.value in SEEDS:
                env[nm, t.slice.value] = self.kind(v, st)
        elif isinstance(v, ast.Subscript) and dotted(v.value):
            for q in SEEDS:                                   # filled from another dictionary, key by key
                if (dotted(v.value), q) in env:
                    old = env.get((nm, q), frozenset())
                    env[nm, q] = env[dotted(v.value), q] | (old - {'none'})

    @staticmethod
    def assigned(loop):
        out = set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    # -- conditions ----------------------------------------------------------------------
    def truth(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, st)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v, st) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else True if all(t is True for t in ts) else None
            return True if True in ts else False if all(t is False for t in ts) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            k = self.kind(e.left, st)
            if k == {'none'}:
                r = True
            elif k and 'none' not in k and 'other' not in k:
                r = False
            else:
                return None
            return r if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not r
        if isinstance(e, ast.Name):
            k = self.kind(e, st)
            if k == {'none'}:
                return False
        if isinstance(e, ast.Call) and dotted(e.func) == 'isinstance' and len(e.args) == 2:
            k = self.kind(e.args[0], st)
            if any(m in ast.unparse(e.args[1]) for m in ('RandomState', 'Generator')):
                if k == {'gen'} or k == {'fresh'}:
                    return True
                if k and not (k & {'gen', 'fresh', 'other', 'given'}):
                    return False
        return None

    def narrow(self, e, val, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.narrow(e.operand, not val, st)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for v in e.values:
                    st = self.narrow(v, val, st)
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None and isinstance(e.left, ast.Name) and e.left.id in st['env']:
            isnone = isinstance(e.ops[0], (ast.Is, ast.Eq)) == val
            k = st['env'][e.left.id]
            if isnone and 'none' in k:
                st['env'][e.left.id] = frozenset(['none'])
            elif not isnone:
                st['env'][e.left.id] = frozenset(k - {'none'}) or k
        if isinstance(e, ast.Call) and dotted(e.func) == 'isinstance' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) \
                and e.args[0].id in st['env'] and any(m in ast.unparse(e.args[1]) for m in ('RandomState', 'Generator')):
            k = st['env'][e.args[0].id]
            if 'given' in k:
                st['env'][e.args[0].id] = frozenset((k - {'given'}) | {'gen' if val else 'int'})
        return st

    # -- values --------------------------------------------------------------------------
    def kind(self, e, st):
        env = st['env']
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
        if isinstance(e, ast.Constant):
            return frozenset(['none' if e.value is None else 'other'])
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, st)
            out = frozenset()
            if t is not False:
                out |= self.kind(e.body, self.narrow(e.test, True, self.copy(st)))
            if t is not True:
                out |= self.kind(e.orelse, self.narrow(e.test, False, self.copy(st)))
            return out
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for i, v in enumerate(e.values):
                k = self.kind(v, st)
                if isinstance(e.op, ast.Or) and i < len(e.values) - 1:
                    k -= {'none'}
                out |= k
                if isinstance(e.op, ast.Or) and not (self.kind(v, st) & {'none', 'other'}):
                    break
            return out
        if isinstance(e, (ast.Attribute, ast.Name)):
            x = self.p.ext(e, self.f)
            if x == 'numpy.random':
                return frozenset(['np'])
            if x == 'random':
                return frozenset(['py'])
            return frozenset(['other'])
        if isinstance(e, ast.Call):
            x = self.p.ext(e.func, self.f)
            if x is not None and x.split('.')[-1] in MAKERS and ('random' in x):
                return frozenset([self.made(e, st)])
            if isinstance(e.func, ast.Attribute) and e.func.attr in DRAWS:
                k = self.kind(e.func.value, st)
                if 'gen' in k or 'given' in k:
                    return frozenset(['int'])
            ks = frozenset()
            for a in e.args:
                ks |= self.kind(a, st)
            for k in e.keywords:
                ks |= self.kind(k.value, st)
            if dotted(e.func) in ('int', 'str', 'abs', 'float', 'hash', 'range', 'list', 'tuple', 'zip', 'enumerate', 'max', 'min') \
                    or x is not None:
                return frozenset(['int']) if ks & {'int', 'given'} else frozenset(['other'])
            ts = resolve(self.p.ix, self.f, e)
            return frozenset(['val' if ts and all(self.p.never_none(t.func) for t in ts) else 'other'])
        if isinstance(e, ast.Name):
            return frozenset(['other'])
        ks = frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                ks |= self.kind(c, st)
        if isinstance(e, (ast.List, ast.Dict, ast.ListComp, ast.Tuple, ast.BinOp)) and not ks & {'int', 'given', 'gen'}:
            return frozenset(['val'])
        if isinstance(e, (ast.Compare,)):
            return frozenset(['other'])
        if ks & {'int', 'given'}:
            return frozenset(['int'])
        if 'gen' in ks and isinstance(e, (ast.Subscript, ast.Starred, ast.Tuple, ast.List)):
            return frozenset(['gen'])
        return frozenset(['other'])

    def made(self, e, st):
        args = list(e.args) + [k.value for k in e.keywords]
        if not args:
            return 'fresh'
        ks = frozenset()
        for a in args:
            ks |= self.kind(a, st)
        if ks & {'none', 'fresh', 'np', 'py'}:
            return 'fresh'
        if ks <= {'other'}:
            return 'fixed' if all(isinstance(a, ast.Constant) for a in args) else 'other'
        if self.loops and self.invariant(e):
            self.repeats.add((self.f.loc(e), self.f, 'a generator is made again from the same seed in every round of the loop'))
        return 'gen'

    def invariant(self, e):
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        return not (names & self.loops[-1])

    # -- uses ----------------------------------------------------------------------------
    def expr(self, e, st):
        if isinstance(e, ast.Lambda):
            self.expr(e.body, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.expr(g.iter, st)
            loc = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            self.loops.append(loc)
            c = self.copy(st)
            for g in e.generators:
                k = self.kind(g.iter, st) & {'int', 'gen'}
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        c['env'][n.id] = frozenset(k or ['other'])
                for t in g.ifs:
                    self.expr(t, c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, c)
            st['np'] = st['np'] or c['np']
            self.loops.pop()
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            t = self.truth(e.test, st)
            if t is not False:
                self.expr(e.body, self.narrow(e.test, True, self.copy(st)))
            if t is not True:
                self.expr(e.orelse, self.narrow(e.test, False, self.copy(st)))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('update', 'setdefault') and isinstance(e.func.value, ast.Name):
                nm = e.func.value.id
                if e.func.attr == 'update' and e.args and isinstance(e.args[0], (ast.Name, ast.Dict)):
                    c = self.copy(st)
                    self.dictval('#', e.args[0], c)
                    for q in SEEDS:
                        if ('#', q) in c['env'] and c['env']['#', q] != {'none'}:
                            st['env'][nm, q] = c['env']['#', q]
                elif e.func.attr == 'setdefault' and len(e.args) == 2 and isinstance(e.args[0], ast.Constant) and e.args[0].value in SEEDS:
                    st['env'][nm, e.args[0].value] = self.kind(e.args[1], st)
            self.call(e, st)

    def unseeded(self, kind, node, text, st):
        if kind == 'np' and st['np'] or kind == 'py' and st['py']:
            return
        self.out.add((kind, self.f.loc(node), text))

    def call(self, e, st):
        p, f = self.p, self.f
        x = p.ext(e.func, f)
        last = x.split('.')[-1] if x else None
        if x and x.startswith('numpy.random.') and last in DRAWS:
            self.draws = True
            p.ndraws += 1
            self.unseeded('np', e, 'numpy.random.%s' % last, st)
            return
        if x and x.startswith('random.') and last in DRAWS:
            self.draws = True
            p.ndraws += 1
            self.unseeded('py', e, 'random.%s' % last, st)
            return
        if x in ('numpy.random.seed', 'random.seed'):
            ks = frozenset()
            for a in e.args:
                ks |= self.kind(a, st)
            ok = bool(e.args) and not (ks & NONEISH)
            which = 'np' if x.startswith('numpy') else 'py'
            if ok and self.loops and (ks & {'int', 'given'}) and self.invariant(e):
                self.repeats.add((f.loc(e), f, 'the generator is reseeded with the same seed in every round of the loop'))
            if ok:
                st[which] = True
            elif not e.args or ks & {'none'}:
                st[which] = False
            return
        if x and last == 'rvs' and x.startswith('scipy.stats') and not any(k.arg == 'random_state' for k in e.keywords):
            self.draws = True
            self.unseeded('np', e, x, st)
            return
        if x:
            if last in MAKERS and 'random' in x:
                self.made(e, st)
            # a generator used by an external function
            return
        if isinstance(e.func, ast.Attribute) and e.func.attr in DRAWS:
            ks = self.kind(e.func.value, st)
            if ks & {'np', 'py', 'fresh', 'gen', 'given', 'fixed'}:
                self.draws = True
                p.ndraws += 1
                for k in sorted(ks & {'np', 'py', 'fresh'}):
                    self.unseeded(k, e, ast.unparse(e.func), st)
                return
        for t in resolve(p.ix, f, e):
            g = t.func
            if g.module.name.startswith('pygsti') and g is not f or g is f:
                self.into(e, t, st)

    def into(self, e, t, st):
        p, f, g = self.p, self.f, t.func
        args, whole = bind(e, t)
        sp = p.seed_params(g)
        given = {}
        for q in sp:
            if q in args:
                ks = self.kind(args[q], st)
                if not ks:
                    continue
                bad = ks & NONEISH
                if bad:
                    given[q] = 'none' if 'none' in bad else sorted(bad)[0]
                elif ks & {'gen'} and ks & {'int', 'given'}:
                    given[q] = 'given'
                elif ks & {'gen', 'int', 'given'}:
                    given[q] = sorted(ks & {'gen', 'int', 'given'})[0]
                else:
                    given[q] = 'int'
            elif not whole:
                given[q] = self.packed(e, q, st)
        if g in p.drawing:
            for q in p.nonedef(g):
                if q in sp:
                    continue
                if q not in args:
                    if whole:
                        given[q] = 'none'
                else:
                    ks = self.kind(args[q], st)
                    if ks == {'none'}:
                        given[q] = 'none'
                    elif ks == {'val'}:
                        given[q] = 'val'
        if not t.exact and not sp:
            # methods found by name only: all must draw, or nothing is said
            pass
        p.ncalls += 1
        out, draws, _ = p.analyse(g, frozenset(given.items()))
        if not t.exact and len(resolve(p.ix, f, e)) > 1:
            return
        self.draws = self.draws or draws
        for kind, loc, text in out:
            if kind == 'np' and st['np'] or kind == 'py' and st['py']:
                continue
            if len(self.out) < 40:
                self.out.add((kind, f.loc(e), '%s -> %s' % (g.name, text if len(text) < 160 else text[-160:])))
        if self.loops and draws:
            for q in sp:
                if q in args and given.get(q) in ('int', 'given') and self.kind(args[q], st) & {'int', 'given'} \
                        and not (self.kind(args[q], st) & {'gen'}) and self.invariant_arg(args[q]) and not self.varies(args[q]):
                    self.repeats.add((f.loc(e), f, '%s() is given the same seed in every round of the loop' % g.name))

    def packed(self, e, q, st):
        """the kind of argument q when it comes from a dictionary"""
        known = [st['env'][dotted(k.value), q] for k in e.keywords if k.arg is None and (dotted(k.value), q) in st['env']]
        if known:
            ks = frozenset().union(*known)
            if len(known) > 1 or any(k.arg is None and (dotted(k.value), q) not in st['env'] for k in e.keywords):
                ks -= {'none'}
            for k in ('none', 'np', 'py', 'fresh', 'given', 'gen', 'int'):
                if k in ks:
                    return k
            return 'int'
        vals = []
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Dict):
                vals += [v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and k.value == q]
            elif isinstance(n, ast.Assign):
                vals += [n.value for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == q]
            elif isinstance(n, ast.Call) and dotted(n.func) == 'dict':
                vals += [k.value for k in n.keywords if k.arg == q]
        ks = frozenset()
        for v in vals:
            ks |= self.kind(v, st)
        if not vals:
            own = self.f.node.args.kwarg
            if own is None or any(k.arg is None and dotted(k.value) != own.arg for k in e.keywords):
                return 'none'
            return 'int'
        for k in ('none', 'np', 'py', 'fresh', 'given', 'gen', 'int'):
            if k in ks:
                return k
        return 'int'

    def invariant_arg(self, a):
        names = {n.id for n in ast.walk(a) if isinstance(n, ast.Name)}
        return not (names & self.loops[-1])

    @staticmethod
    def varies(a):
        return any(isinstance(n, ast.Call) for n in ast.walk(a))


def overwritten(p, f):
    """a seed parameter rebound to something that does not derive from it"""
    out = []
    sp = set(p.seed_params(f))
    for st in walk_own(f.node):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                for nm in names:
                    if nm in sp:
                        used = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                        if nm not in used and not guarded_none(f.node, st, nm) and not derives(f.node, used, nm):
                            out.append((st, nm))
        elif isinstance(st, (ast.For,)):
            for x in ast.walk(st.target):
                if isinstance(x, ast.Name) and x.id in sp:
                    out.append((st, x.id))
    return out


def derives(fn, used, nm, depth=3):
    """some name used holds something computed from nm"""
    if depth == 0 or not used:
        return False
    nxt = set()
    for st in walk_own(fn):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id in used:
                        u = {y.id for y in ast.walk(st.value) if isinstance(y, ast.Name)}
                        if nm in u:
                            return True
                        nxt |= u
    return derives(fn, nxt - used, nm, depth - 1)


def guarded_none(fn, st, nm):
    """st sits in the branch where nm is None"""
    def rec(body, ok):
        for s in body:
            if s is st:
                return ok
            if isinstance(s, ast.If):
                isn = test_none(s.test, nm)
                r = rec(s.body, ok or isn is True)
                if r is not None:
                    return r
                r = rec(s.orelse, ok or isn is False)
                if r is not None:
                    return r
            else:
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        r = rec(b, ok)
                        if r is not None:
                            return r
                for h in getattr(s, 'handlers', []):
                    r = rec(h.body, ok)
                    if r is not None:
                        return r
        return None
    return bool(rec(fn.body, False))


def test_none(e, nm):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = test_none(e.operand, nm)
        return None if r is None else not r
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id == nm \
            and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        return isinstance(e.ops[0], (ast.Is, ast.Eq))
    if isinstance(e, ast.Name) and e.id == nm:
        return False
    return None


# ---------------------------------------------------------------------------------------------------------------------------
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference'}
INSENSITIVE = {'sorted', 'set', 'frozenset', 'len', 'min', 'max', 'any', 'all', 'isinstance', 'bool', 'repr', 'str', 'print', 'dict', 'Counter'}
ORDERED = {'list', 'tuple', 'enumerate', 'zip', 'array', 'fromiter', 'OrderedDict', 'chain', 'join', 'map', 'filter', 'iter', 'product',
           'combinations', 'permutations', 'asarray', 'concatenate', 'reversed'}
UNORDERED_METHODS = {'add', 'update', 'discard', 'remove', 'difference_update', 'intersection_update', 'setdefault', 'log', 'warn',
                     'warning', 'debug', 'info', 'isdisjoint', 'issubset', 'issuperset', 'write'}
INTY = {'range', 'len', 'as_array', 'gpindices', 'arange', 'argwhere', 'where', 'argsort', 'nonzero', 'shape', 'unique', 'indices'}


class SetOrder(object):
    def __init__(self, p):
        self.p = p
        self.nsets = self.nwalks = 0
        self.found = []
        self.retset = {}
        self.attrset = {}
        for m in p.ix.modules.values():
            for c in m.classes.values():
                kinds = {}
                for f in c.methods.values():
                    if not f.selfname:
                        continue
                    for st in walk_own(f.node):
                        if isinstance(st, ast.Assign):
                            for t in st.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                                    kinds.setdefault(t.attr, []).append(self.isset(st.value, {}, f))
                for a, ks in kinds.items():
                    if ks and all(ks):
                        self.attrset[(c.name, a)] = True
        for f in p.funcs:
            rs = [s.value for s in walk_own(f.node) if isinstance(s, ast.Return) and s.value is not None]
            if rs:
                env = self.locals_(f)
                if all(self.isset(r, env, f) for r in rs):
                    self.retset[f] = True

    def isset(self, e, env, f):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return e.id in env
        if isinstance(e, ast.Call):
            d = e.func.id if isinstance(e.func, ast.Name) else None
            if d in ('set', 'frozenset'):
                return True
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in SETOPS:
                    v = e.func.value
                    return not (isinstance(v, ast.Name) and self.p.ext(v, f)) and not self.p.ext(e.func, f) \
                        and not resolve(self.p.ix, f, e)
                if e.func.attr == 'copy':
                    return self.isset(e.func.value, env, f)
            ts = resolve(self.p.ix, f, e)
            return bool(ts) and all(t.func in self.retset for t in ts)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.isset(e.left, env, f) or self.isset(e.right, env, f) and not isinstance(e.op, ast.Sub)
        if isinstance(e, ast.IfExp):
            return self.isset(e.body, env, f) or self.isset(e.orelse, env, f)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and e.value.id == f.selfname:
            return (f.cls.name, e.attr) in self.attrset
        return False

    def locals_(self, f):
        """names that only ever hold sets"""
        vals = {}
        for st in walk_own(f.node):
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, []).append(st.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                vals.setdefault(x.id, []).append(None)
            elif isinstance(st, (ast.For,)):
                for x in ast.walk(st.target):
                    if isinstance(x, ast.Name):
                        vals.setdefault(x.id, []).append(None)
        env = set()
        for _ in range(3):
            for n, vs in vals.items():
                if any(v is not None and self.isset(v, env, f) for v in vs):
                    env.add(n)
        return env

    def inty(self, e, f, depth=3):
        """elements are integers as far as one can see (their order does not change from run to run)"""
        if depth == 0:
            return False
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}
        if names & INTY or any('ind' in n.lower() and 'kind' not in n.lower() or 'param' in n.lower() for n in names):
            return True
        if isinstance(e, ast.Call) and any(isinstance(a, (ast.List, ast.Tuple)) and a.elts and
                                           all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in a.elts) for a in e.args):
            return True
        for nm in names:
            for st in walk_own(f.node):
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets) \
                        and st.value is not e and self.inty(st.value, f, depth - 1):
                    return True
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                        and st.value.func.attr in ('update', 'add') and dotted(st.value.func.value) == nm and st.value.args \
                        and self.inty(st.value.args[0], f, depth - 1):
                    return True
        return False

    def run(self, f):
        env = self.locals_(f)
        par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        dirs = set()
        for n in walk_own(f.node):
            src = None
            if isinstance(n, ast.expr) and self.isset(n, env, f):
                self.nsets += 1
                src = 'the set "%s"' % ast.unparse(n)[:60]
            elif isinstance(n, ast.Call):
                x = self.p.ext(n.func, f)
                if x in ('os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk') or \
                        isinstance(n.func, ast.Attribute) and n.func.attr in ('glob', 'rglob', 'iterdir'):
                    src = 'the directory listing "%s"' % ast.unparse(n)[:60]
            if src is None:
                continue
            self.seen = set()
            how = self.use(n, par, f, env)
            if how and not (src.startswith('the set') and self.inty(n, f)):
                self.found.append((f, n, '%s: %s' % (src, how)))

    def use(self, n, par, f, env):
        """how the order of n reaches something ordered, or None"""
        u = par.get(n)
        if isinstance(u, ast.Starred):
            u = par.get(u)
        if isinstance(u, ast.Call) and n is not u.func:
            d = u.func.id if isinstance(u.func, ast.Name) else u.func.attr if isinstance(u.func, ast.Attribute) else ''
            if d in INSENSITIVE:
                return None
            if d in ORDERED:
                self.nwalks += 1
                return self.result(u, par, f, 'put in a sequence in an order that changes from run to run')
            return None
        if isinstance(u, (ast.For,)) and u.iter is n:
            self.nwalks += 1
            return self.body(u, f)
        if isinstance(u, ast.comprehension) and u.iter is n:
            self.nwalks += 1
            comp = par.get(u)
            if isinstance(comp, (ast.SetComp,)):
                return None
            if isinstance(comp, ast.DictComp):
                return None
            return self.result(comp, par, f, 'put in a sequence in an order that changes from run to run')
        if isinstance(u, ast.Attribute) and u.attr == 'pop' and isinstance(par.get(u), ast.Call) and not par[u].args:
            return None
        return None

    def result(self, e, par, f, what):
        """an expression whose value is ordered as the set was: harmless when it is consumed without regard to order"""
        if e in self.seen:
            return None
        self.seen.add(e)
        u = par.get(e)
        while isinstance(u, (ast.Starred, ast.keyword)):
            u = par.get(u)
        if isinstance(u, ast.Call) and e is not u.func:
            d = u.func.id if isinstance(u.func, ast.Name) else u.func.attr if isinstance(u.func, ast.Attribute) else ''
            if d in INSENSITIVE or d in UNORDERED_METHODS or d == 'sum' or d.endswith('Error') or d.endswith('Exception'):
                return None
            if d in ORDERED:
                return self.result(u, par, f, what)
            return what
        if isinstance(u, ast.Compare) or isinstance(u, (ast.Raise, ast.Assert)):
            return None
        if isinstance(u, ast.BinOp) and isinstance(u.op, (ast.Mod, ast.Add)):
            return self.result(u, par, f, what)
        if isinstance(u, (ast.JoinedStr, ast.FormattedValue)):
            return self.result(u, par, f, what)
        if isinstance(u, ast.comprehension):
            comp = par.get(u)
            if isinstance(comp, (ast.SetComp, ast.DictComp)):
                return None
            return self.result(comp, par, f, what)
        if isinstance(u, ast.For) and u.iter is e:
            return self.body(u, f)
        if isinstance(u, ast.Assign) and len(u.targets) == 1 and isinstance(u.targets[0], ast.Name):
            nm = u.targets[0].id
            # sorted before anything else happens to it, or only used without regard to order
            bad = None
            for x in walk_own(f.node):
                if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and x.lineno >= u.lineno:
                    v = par.get(x)
                    if isinstance(v, ast.Attribute) and v.attr == 'sort':
                        return None
                    r = self.named(x, par, f, what)
                    if r:
                        bad = r
            return bad
        return what

    def named(self, x, par, f, what):
        u = par.get(x)
        if isinstance(u, ast.Call) and x is not u.func:
            d = u.func.id if isinstance(u.func, ast.Name) else u.func.attr if isinstance(u.func, ast.Attribute) else ''
            if d in INSENSITIVE or d in UNORDERED_METHODS:
                return None
            return self.result(x, par, f, what)
        if isinstance(u, (ast.If, ast.While, ast.IfExp, ast.UnaryOp)):
            return None
        if isinstance(u, ast.Attribute):
            return None
        return self.result(x, par, f, what)

    def body(self, loop, f):
        tv = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        for _ in range(2):
            for st in ast.walk(loop):
                if isinstance(st, ast.Assign):
                    if {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)} & tv:
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                tv.add(t.id)
        for st in loop.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert'):
                    v = n.func.value
                    if isinstance(v, ast.Subscript) and {x.id for x in ast.walk(v.slice) if isinstance(x, ast.Name)} & tv:
                        continue
                    nm = dotted(v)
                    if nm and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and dotted(x.func.value) == nm
                                                               or dotted(x.func) in ('sorted', 'set', 'frozenset') and x.args and dotted(x.args[0]) == nm)
                                  for x in walk_own(f.node)):
                        continue
                    return 'appended to "%s" in an order that changes from run to run' % (nm or ast.unparse(v)[:40])
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    return 'yielded in an order that changes from run to run'
        return None


def check(repo, tier='quick'):
    res = Result()
    ix = Index(repo)
    p = Prog(ix)
    allow = load_allow('c12_allow.txt')

    def bad(kind, f, loc, msg):
        q = f.qual[7:] if f.qual.startswith('pygsti.') else f.qual
        if any(a[0] == kind and a[1] == q and a[2] in msg for a in allow):
            return
        res.add('C12.' + kind, '%s: %s' % (q, msg), loc, msg)
    nseed = 0
    for f in p.funcs:
        sp = p.seed_params(f)
        for q in sp:
            nseed += 1
            # a seed and a generator are alternatives; several seeds are for different things and all given
            given = [(r, 'none' if alternative(q) != alternative(r) else 'int') for r in sp if r != q and default_none(f, r)]
            out, draws, rep = p.analyse(f, frozenset(given + [(q, 'given')]))
            for kind, loc, text in sorted(out):
                bad('draw', f, loc, 'with "%s" given, %s still draws from %s' % (
                    q, text, {'np': "numpy's global generator", 'py': "python's global generator", 'fresh': 'an unseeded generator'}[kind]))
            for loc, g, text in sorted(rep, key=str):
                bad('repeat', f, loc, text)
        for st, nm in overwritten(p, f):
            bad('lost', f, f.loc(st), 'the seed "%s" is replaced by a value that does not come from it' % nm)
    for f in p.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                x = p.ext(n.func, f)
                if x in ('numpy.random.seed', 'random.seed') and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value is not None:
                    bad('constant', f, f.loc(n), 'the global generator is set to a fixed state: later draws of the caller repeat')
                if x and x.split('.')[-1] in ('RandomState', 'default_rng') and n.args and isinstance(n.args[0], ast.Call) \
                        and (p.ext(n.args[0].func, f) or '').startswith('time'):
                    if p.seed_params(f):
                        bad('draw', f, f.loc(n), 'seeded from the clock')
                if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'min', 'max') or isinstance(n.func, ast.Attribute) and n.func.attr == 'sort':
                    for k in n.keywords:
                        if k.arg == 'key' and any(isinstance(y, ast.Name) and y.id in ('id', 'hash') for y in ast.walk(k.value)):
                            bad('order', f, f.loc(n), 'sorted by a key that changes from run to run')
    so = SetOrder(p)
    for f in p.funcs:
        so.run(f)
    for f, n, msg in so.found:
        bad('order', f, f.loc(n), msg)
    res.count('functions read', len(p.funcs), 3000)
    res.count('seed or generator parameters', nseed, 30)
    res.count('calls followed under a given seed', p.ncalls, 200)
    res.count('draws reached', p.ndraws, 20)
    res.count('sets looked at', so.nsets, 200)
    res.count('walks through sets and directories', so.nwalks, 40)
    res.explanation = __doc__
    return res


def alternative(q):
    return q.lower() in ('randstate', 'rand_state', 'random_state', 'rndm', 'rng', 'prng', 'generator')


def default_none(f, q):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == q:
            return isinstance(d, ast.Constant) and d.value is None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == q and d is not None:
            return isinstance(d, ast.Constant) and d.value is None
    return False


if __name__ == '__main__':
    import sys
    r = check(sys.argv[1])
    for x in r.findings:
        print(x.text())
    print(r.coverage)
