"""Generic rule: a cached value derived from some state is dropped/refreshed on every
path on which that state is written (order within the call does not matter)."""
import ast
from .flow import Flow, fact, U
from .index import Func


class CacheSync(Flow):
    """state: attribute names whose writes make the cache stale.
    cache: attribute holding the cached value.
    is_reset(flow, path, how, value, node, st) -> True when a write of `cache` drops/refreshes it.
    resetters: method names whose call refreshes the cache."""

    def __init__(self, ix, cls, state, cache, is_reset=None, exempt=(), inline_mod=True, deep=None):
        Flow.__init__(self, ix)
        self.cls, self.state, self.cache = cls, state, cache
        self.is_reset = is_reset or (lambda fl, path, how, value, node, st: how in ('set', 'del') and len(path) == 2)
        self.exempt = exempt
        self.writes = set()
        self.resets = set()
        self.deep = deep

    def should_inline(self, f, recv, args):
        if any(r[0] == 'A' and r[1] == ('self',) for r in (recv or ())):
            return True
        if f.cls is None and f.module is self.cls.module:
            for a in args:
                if isinstance(a, frozenset):
                    for r in a:
                        if r[0] == 'A' and r[1][0] == 'self':
                            return True
        return False

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] != 'self' or len(path) < 2:
            return
        if path == ('self', '__dict__'):
            # wholesale replacement of the state: everything is as the other object had it
            return
        if path[1] == self.cache:
            if self.is_reset(self, path, how, value, node, st):
                self.resets.add((self.frame.func.qual, node.lineno))
                st.may = frozenset(x for x in st.may if x[0] != 'stale')
                st.must = st.must | {('ev', 'reset')}
            elif how == 'set' and len(path) == 2:
                st.must = st.must - {('ev', 'reset')}
            return
        if path[1] in self.state:
            if self.frame.func.name in self.exempt:
                return
            self.writes.add((self.frame.func.qual, node.lineno, path[1]))
            if ('ev', 'reset') not in st.must and not self.write_ok(path, how, node, st, value):
                st.may = st.may | {('stale', self.frame.func.name, path[1], self.frame.func.path, node.lineno,
                                    ' > '.join(self.frame.chain()))}

    def s_Assign(self, s, st):
        # `added = True` next to the write: a later `if added:` correlates with it
        r = Flow.s_Assign(self, s, st)
        for t in s.targets:
            if isinstance(t, ast.Name):
                key = ('%%%d:%s' % (self.frame.fid, t.id),)
                st.may = frozenset(self._tag(x, key, isinstance(s.value, ast.Constant) and s.value.value is True)
                                   for x in st.may)
        return r

    @staticmethod
    def _tag(x, key, on):
        if x[0] != 'stale':
            return x
        tags = x[6] if len(x) > 6 else ()
        tags = tuple(sorted(set(tags) | {key})) if on else tuple(k for k in tags if k != key)
        return x[:6] + (tags,) if tags else x[:6]

    def on_fact(self, atom, pol, st):
        if atom[0] == 't' and pol is False:
            st.may = frozenset(x for x in st.may if not (x[0] == 'stale' and len(x) > 6 and atom[1] in x[6]))

    def write_ok(self, path, how, node, st, value):
        return False

    def stale_at_exit(self, func, dyncls=None, must=frozenset()):
        rets, raises = self.run(func, dyncls or self.cls, must=must)
        out = set()
        for (st, v, n) in rets:
            if not st.dead:
                out |= set(x[:6] for x in st.may if x[0] == 'stale')
        return out
