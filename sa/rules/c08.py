"""C08: what a caller hands to an object stays the caller's.

(a) from_vector/set_value never keep the caller's array (or a view of it) in the object, and never write to it.
(b) A constructor does not keep an array or container of the caller in a field whose contents the object changes in
    place later, and does not change the caller's object itself.
"""
import ast
from ..index import Index, AnalysisBroken, dotted
from ..flow import Flow, U, MUTATORS, VIEW_METHODS
from ..report import Result
from .c06 import nested_changes

VECTOR = ('from_vector', 'set_value', '_set_params', 'set_time')
OK_NAMES = {'memo', 'printer', 'parent', 'comm'}
# what an owner records on the members it is given (membership, not value)
OWNER = {'_prep_or_effect', 'parent', '_parent', 'gpindices', '_gpindices', 'flags'}
# classes that by their documentation are a view of, or take over, what they are given
ADOPTS = {('_DataSetRow', None): 'a view of a data set\'s rows', ('DataSetRow', None): 'a view of a data set\'s rows',
          ('DataSet', 'oliData'): 'the tables are taken over un-copied (fast construction)',
          ('DataSet', 'timeData'): '', ('DataSet', 'repData'): '',
          ('MultiDataSet', 'cirIndex'): '', ('MultiDataSet', 'olIndex'): '',
          ('ProtectedArray', None): 'a view of an array', ('TermForwardSimulator', 'cache'): 'a cache shared on purpose',
          ('DenseOperator', '_rep'): 'abstract: its concrete classes are checked', ('DenseSPAMVec', '_rep'): '',
          ('TreeNode', '_vals'): 'only ever filled after being replaced', ('ExperimentDesign', '_vals'): '',
          ('CombinedExperimentDesign', '_vals'): '',
          ('Notebook', 'cells'): 'an under-construction document'}
NOTLIST = {'rotate'}     # ModelMember methods that share their name with a container's


class Alias(Flow):
    def __init__(self, ix, cls, params, arrays=False):
        Flow.__init__(self, ix)
        self.arrays = arrays      # the parameters are arrays: v[:] is a view
        self.cls = cls
        self.params = params
        self.kept = []
        self.changed = []
        self.reps = 0

    def should_inline(self, f, recv, args):
        if f.name.startswith('__') and f.name != '__init__':
            return False
        if recv and any(r[0] == 'A' and r[1] == ('self',) for r in recv):
            return f.name not in ('from_vector', 'dirty') or f.cls in self.cls.mro()
        # helpers of the same file given the caller's object
        return any(isinstance(a, frozenset) and any(self.theirs(r) for r in a) for a in args) and \
            (f.is_static or f.is_classmethod or f.cls is None)

    def theirs(self, r):
        return r[0] == 'A' and r[1][0] in self.params

    def e_Subscript(self, e, st):
        r = Flow.e_Subscript(self, e, st)
        if self.arrays and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
            return frozenset(('A', x[1]) if x[0] == 'S' else x for x in r)     # a view of an array
        return r

    def on_construct(self, e, c, args, kwargs, st):
        # a representation made from an array refers to that array
        if '.replib' in c.module.name and c.name.startswith(('DMState', 'DMEffect', 'DMOp', 'SVState', 'SVEffect', 'SVOp')):
            self.reps += 1
            return frozenset(r for r in args[0] if self.theirs(r)) or U if args else U
        return None

    def on_mutate(self, path, how, node, st, value=U):
        if path[0] in self.params and len(path) > 1 and path[-1] not in OWNER:
            self.changed.append((path, how, node, self.frame.func))
            return
        if path[0] == 'self' and len(path) == 2 and how == 'set':
            for r in value:
                if self.theirs(r) and len(r[1]) == 1:
                    self.kept.append((path[1], r[1][0], node, self.frame.func))


def inplace_fields(ix, C):
    """fields of self whose contents some method (not the constructor) changes in place"""
    memo = ix.__dict__.setdefault('_c08inpl', {})
    if C.qual in memo:
        return memo[C.qual]
    out = {}
    classes = set(C.mro()) | set(C.all_subclasses())
    for b in C.mro():
        for m in b.methods.values():
            if m.name in ('__init__', '__new__', '__setstate__') or not m.selfname:
                continue
            sn = m.selfname

            def fld(e):
                while isinstance(e, ast.Subscript) or (isinstance(e, ast.Attribute) and e.attr in ('flat', 'T')):
                    e = e.value
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == sn:
                    return e.attr
            for x in ast.walk(m.node):
                f = None
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    f = fld(x)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript):
                    f = fld(x.target)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and \
                        x.func.attr not in NOTLIST:
                    f = fld(x.func.value)
                if f:
                    out.setdefault(f, '%s.%s' % (b.name, m.name))
        for f in nested_changes(ix, b):
            out.setdefault(f, b.name)
    if any(x in out for x in ('base', 'base1D', '_ptr')):
        out.setdefault('_rep', out.get('base') or out.get('base1D') or out.get('_ptr'))
    memo[C.qual] = out
    return out


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    nv = nc = np = nr = 0
    for m in ix.modules.values():
        for C in m.classes.values():
            for n in VECTOR:
                f = C.methods.get(n)
                if f is None or not f.has_self or len(f.params) < 2:
                    continue
                nv += 1
                a = Alias(ix, C, set(f.params[1:2]), True)
                a.run(f, C)
                for fld, p, node, fn in a.kept:
                    res.add('C08.kept', '%s.%s keeps %s in %s' % (C.name, n, p, fld), '%s:%d' % (fn.path, node.lineno),
                            'the array the caller passed (or a view of it) becomes part of the object')
                for path, how, node, fn in a.changed:
                    res.add('C08.changed', '%s.%s changes %s' % (C.name, n, path[0]), '%s:%d' % (fn.path, node.lineno),
                            "the caller's object is written to (%s %s)" % (how, '.'.join(path)))
            f = C.methods.get('__init__')
            if f is None or len(f.params) < 2:
                continue
            nc += 1
            a = Alias(ix, C, set(f.params[1:] + f.kwonly) - OK_NAMES)
            a.run(f, C)
            nr += a.reps
            inpl = inplace_fields(ix, C)
            for fld, p, node, fn in a.kept:
                np += 1
                if fld in inpl and (C.name, fld) not in ADOPTS and (C.name, None) not in ADOPTS:
                    res.add('C08.kept', '%s.__init__ keeps %s in %s' % (C.name, p, fld), '%s:%d' % (fn.path, node.lineno),
                            "%s later changes in place what is still the caller's" % inpl[fld])
            for path, how, node, fn in a.changed:
                res.add('C08.changed', '%s.__init__ changes %s' % (C.name, path[0]), '%s:%d' % (fn.path, node.lineno),
                        "the caller's object is written to (%s %s)" % (how, '.'.join(path)))
    res.count('vector_setters', nv, 50)
    res.count('constructors', nc, 330)
    res.count('arguments_kept', np, 800)
    res.count('representations_made', nr, 50)
    res.explanation = ('Every from_vector/set_value method and every constructor was interpreted path by path with its '
                       'parameters as alias roots; conversions that copy end the alias, views and numpy.asarray keep it. '
                       'A field assigned such an alias is reported for setters always, for constructors when a method of '
                       'the class changes that field in place.')
    res.assumptions = ['numpy copies/views as documented', 'classes listed in ADOPTS take over or view their data on purpose']
    return res
