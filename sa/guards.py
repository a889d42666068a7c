"""Generic rule: state of an object is written only where a flag is known to be down on every path."""
from .flow import Flow, fact, U


class GuardFlow(Flow):
    """flag: access path of the flag (('self','_static')); state: attribute names (or predicate on the path);
    inline_cls: path -> Cls for objects reachable from self whose methods are followed."""

    def __init__(self, ix, cls, flag, state, paths=None, roots=('self',)):
        Flow.__init__(self, ix)
        self.cls, self.flag, self.state = cls, tuple(flag), state
        self.paths = paths or {}
        self.bad, self.flags, self.writes = [], [], set()
        self.roots = roots

    def path_class(self, path):
        return self.paths.get(path)

    def should_inline(self, f, recv, args):
        if f.cls is None and f.module is self.cls.module and any(
                r[0] == 'A' and r[1][0] == 'self'
                for a in args for r in (a if isinstance(a, frozenset) else ())):
            return True
        return any(r[0] == 'A' and (r[1] == ('self',) or r[1] in self.paths) for r in (recv or ()))

    def is_state(self, path):
        return path[0] == 'self' and len(path) > 1 and path[1] in self.state

    def on_mutate(self, path, how, node, st, value=U):
        if path[-1] == '__dict__' or (len(path) > 1 and path[1] == '__dict__'):
            return
        if self.is_state(path):
            self.writes.add((self.frame.func.qual, node.lineno, path[1]))
            if fact(st, 't', self.flag) is not False:
                self.bad.append((self.frame.func, path, how, node, self.frame.chain()))
        elif path == self.flag:
            val = None
            if value == frozenset([('C', False)]):
                val = False
            elif value == frozenset([('C', True)]):
                val = True
            self.flags.append((self.frame.func, node, val, self.frame.chain()))

    def record_const(self, p, v, st):
        if p != self.flag:
            Flow.record_const(self, p, v, st)

    def kill_path(self, path, st):
        if path == self.flag:
            # edits made after the flag is raised, in the same call that found it lowered, belong to the freeze
            return
        Flow.kill_path(self, path, st)
