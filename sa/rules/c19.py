"""C19 Rewriting a label or circuit changes nothing else.

Labels: every method of a label class that returns a label built from self carries over every part of it (name, qubits, arguments,
time, repetitions, components) on every path, except the part it is asked to replace.  Anywhere in the package, a label rebuilt
from another one's name and qubits takes that one's arguments and time along (a sub-circuit label also its repetitions).
Circuits: a circuit made from the layers of another keeps that one's line labels (or takes the ones it is given), no layer is
skipped on the way, and a mapping of qubits is applied to the layers and to the lines alike.
"""
import ast
from ..index import Index, Cls, walk_own, AnalysisBroken
from ..calls import all_functions
from ..report import Result

PARTS = {
    'LabelTup': {'name', 'sslbls', 'time'}, 'LabelStr': {'name', 'time'}, 'LabelTupTup': {'components', 'time'},
    'CircuitLabel': {'name', 'components', 'sslbls', 'reps', 'time'}, 'LabelTupWithArgs': {'name', 'args', 'sslbls', 'time'},
    'LabelTupTupWithArgs': {'components', 'args', 'time'},
}
CTORS = set(PARTS) | {'Label'}
METHODS = ('map_state_space_labels', 'replacename', '__add__', '__reduce__', '__pygsti_reduce__', '__copy__', '__deepcopy__', 'copy')
ATTR = {'name': 'name', 'time': 'time', 'args': 'args', 'reps': 'reps', 'sslbls': 'sslbls', 'qubits': 'sslbls', 'components': 'components'}
LAYERS = {'layertup', '_labels', 'tup'}
LINES = {'line_labels', '_line_labels', 'tup'}
# labels rebuilt on purpose without arguments/times
ALLOW = {'pygsti.objects.opfactory.op_from_factories': 'the factory is looked up by the label without its arguments, which it then gets',
         'pygsti.objects.compilationlibrary': 'template labels name primitive gates, which have neither arguments nor times'}


def ctor_name(ix, f, call):
    fn = call.func
    if isinstance(fn, ast.Attribute) and fn.attr == 'init' or isinstance(fn, ast.Attribute) and fn.attr == '__new__':
        fn = fn.value
    r = ix.resolve_expr(fn, f.module, f)
    if isinstance(r, Cls) and r.name in CTORS:
        return r.name
    if isinstance(fn, ast.Name) and fn.id == 'cls' or isinstance(fn, ast.Attribute) and fn.attr == '__class__':
        return f.cls.name if f.cls is not None and f.cls.name in PARTS else None
    return None


class Local(object):
    """expressions that may reach a local name (all assignments of it in the function)"""

    def __init__(self, f):
        self.defs = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bind(n.target, n.iter)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add') \
                    and n.args:
                b = n.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    self.defs.setdefault(b.id, []).append(n.args[-1])

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.bind(e, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else v)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            self.defs.setdefault(t.value.id, []).append(v)

    def closure(self, e, seen=None):
        """all nodes e is made of, locals expanded"""
        seen = set() if seen is None else seen
        for n in ast.walk(e):
            yield n
            if isinstance(n, ast.Name) and n.id not in seen and n.id in self.defs:
                seen.add(n.id)
                for d in self.defs[n.id]:
                    for x in self.closure(d, seen):
                        yield x


def parts_of(cls, nodes, root):
    """parts of the label `root` (of class cls) that the nodes take"""
    out, allt = set(), PARTS[cls] - {'time'}
    nodes = list(nodes)
    inner = set()
    for n in nodes:
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name) and n.value.id == root:
            inner.add(id(n.value))
            if isinstance(n, ast.Attribute):
                if n.attr in ATTR:
                    out.add(ATTR[n.attr])
                elif n.attr in ('tonative',):
                    out |= allt
            else:
                out |= sliced(cls, n.slice, root, allt)
    for n in nodes:
        if isinstance(n, ast.Name) and n.id == root and id(n) not in inner:
            out |= allt
    return out


def sliced(cls, s, root, allt):
    def const(x, d):
        if x is None:
            return d
        if isinstance(x, ast.Constant) and isinstance(x.value, int):
            return x.value
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == root and isinstance(
                x.slice, ast.Constant) and x.slice.value in (0, 1):
            return 'K'
        return '?'
    if isinstance(s, ast.Slice):
        a, b = const(s.lower, 0), const(s.upper, None)
        if a == 0 and b is None:
            return set(allt)
        if cls == 'LabelTup':
            return ({'name'} if a == 0 else set()) | ({'sslbls'} if b is None and a in (0, 1) else set())
        if cls == 'CircuitLabel':
            hi = 99 if b is None else b
            if isinstance(a, int) and isinstance(hi, int):
                return {nm for i, nm in enumerate(('name', 'sslbls', 'reps')) if a <= i < hi} | ({'components'} if a <= 3 and hi > 3 else set())
        if cls == 'LabelTupWithArgs':
            o = {'name'} if a == 0 else set()
            if b is None:
                o |= {'args', 'sslbls'} if a in (0, 1, 2) else {'sslbls'} if a == 'K' else set()
            elif b == 'K':
                o |= {'args'} if a in (0, 1, 2) else set()
            return o
        if cls == 'LabelTupTupWithArgs':
            if b is None:
                return {'components'} if a == 'K' else {'components', 'args'} if a in (0, 1) else set()
            return {'args'} if b == 'K' and a in (0, 1) else set()
        return set()
    if isinstance(s, ast.Constant):
        if cls in ('LabelTup', 'LabelTupWithArgs') and s.value == 0:
            return {'name'}
        if cls == 'CircuitLabel' and s.value in (0, 1, 2):
            return {('name', 'sslbls', 'reps')[s.value]}
    return set()


def label_methods(ix, R):
    n = 0
    for cname, parts in PARTS.items():
        c = ix.cls('pygsti.objects.label.' + cname)
        for mn in METHODS:
            f = c.methods.get(mn)
            if f is None:
                continue
            root = f.selfname
            loc = Local(f)
            params = [a.arg for a in f.node.args.args][1:]
            for r in walk_own(f.node):
                if not isinstance(r, ast.Return) or r.value is None:
                    continue
                for e in loc.closure(r.value):
                    if mn in ('__reduce__', '__pygsti_reduce__') and isinstance(e, ast.Tuple) and len(e.elts) >= 2 and isinstance(
                            e.elts[0], ast.Name) and e.elts[0].id in PARTS and isinstance(e.elts[1], ast.Tuple):
                        args, made = list(e.elts[1].elts), e.elts[0].id
                        if made != cname:
                            R.add('C19.label-class', '%s.%s' % (cname, mn), f.loc(r), 'the label is restored as a %s' % made)
                    elif isinstance(e, ast.Call) and ctor_name(ix, f, e) and mn not in ('__reduce__', '__pygsti_reduce__'):
                        args = list(e.args) + [k.value for k in e.keywords]
                    else:
                        continue
                    n += 1
                    nodes = [x for a in args for x in loc.closure(a)]
                    got = parts_of(cname, nodes, root)
                    new = {x.id for x in nodes if isinstance(x, ast.Name)} & set(params)
                    if mn == 'replacename' and 'newname' in new or mn == '__add__' and new:
                        got.add('name')
                    miss = sorted(parts - got)
                    if miss:
                        R.add('C19.label-part', '%s.%s %s' % (cname, mn, ','.join(miss)), f.loc(r),
                              '%s of a %s builds the new label without the %s of the old one' % (mn, cname, ' and '.join(miss)))
    return n


def rebuilt_labels(ix, R):
    n = 0
    for f in all_functions(ix):
        if f.cls is not None and f.cls.name in PARTS and f.name in METHODS:
            continue
        loc = None
        for call in walk_own(f.node):
            if not isinstance(call, ast.Call) or not call.args:
                continue
            a0 = call.args[0]
            if not (isinstance(a0, ast.Attribute) and a0.attr == 'name'):
                continue
            cn = ctor_name(ix, f, call)
            if cn is None:
                continue
            src = ast.dump(a0.value)
            loc = loc or Local(f)

            def takes(args, attrs):
                for a in args:
                    for x in loc.closure(a):
                        if isinstance(x, ast.Attribute) and x.attr in attrs and ast.dump(x.value) == src:
                            return True
                return False
            rest = list(call.args[1:]) + [k.value for k in call.keywords]
            if cn == 'CircuitLabel':
                need = [('components', ('components',)), ('repetitions', ('reps',)), ('time', ('time',))]
                sub = ast.Subscript
                sliced_any = any(isinstance(x, sub) and ast.dump(x.value) == src for a in rest for x in loc.closure(a))
                if sliced_any:
                    need = [x for x in need if x[0] == 'time']
            elif len(call.args) >= 2 or call.keywords:
                # qubits taken from the same label, from a mapping of them, or filled in for it
                need = [('arguments', ('args',)), ('time', ('time',))]
            else:
                continue
            key = f.qual
            if any(key == k or key.startswith(k + '.') for k in ALLOW):
                continue
            n += 1
            miss = [nm for nm, at in need if not takes(rest, at)]
            if miss:
                R.add('C19.label-rebuilt', '%s %s' % (key.replace('pygsti.', '', 1), ','.join(miss)), f.loc(call),
                      'a label is rebuilt from %s.name without the %s of that label' % (ast.unparse(a0.value), ' and '.join(miss)))
    return n


def circuits(ix, R):
    n = 0
    cir = ix.cls('pygsti.objects.circuit.Circuit')
    fs = [f for f in all_functions(ix) if f.cls is cir or (f.cls is None and f.module.name in (
        'pygsti.construction.circuitconstruction', 'pygsti.objects.circuit'))
        or (f.cls is not None and f.cls.name == 'CompressedCircuit')]
    for f in fs:
        if f.name == '__init__':
            continue
        loc = Local(f)
        params = set(a.arg for a in f.node.args.args) - {f.selfname}
        owner = {f.selfname} if f.cls is not None else set()
        cname = [p for p in params if p in ('circuit', 'opstr', 'circuitList', 'circuits')]
        for call in walk_own(f.node):
            if not isinstance(call, ast.Call):
                continue
            r = ix.resolve_expr(call.func, f.module, f)
            if r is not cir:
                continue
            args = {p: a for p, a in zip(('layer_labels', 'line_labels'), call.args)}
            args.update({k.arg: k.value for k in call.keywords if k.arg})
            la = args.get('layer_labels')
            if la is None:
                continue
            nodes = list(loc.closure(la))
            fromself = any(isinstance(x, ast.Attribute) and x.attr in LAYERS | {'_tup'} and isinstance(x.value, ast.Name) and x.value.id in owner
                           or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                           and x.func.value.id in owner and x.func.attr.startswith(('get_', 'layer'))
                           for x in nodes)
            fromparam = f.cls is None and any(isinstance(x, ast.Name) and x.id in cname for x in nodes) and not isinstance(la, ast.Name) \
                or (f.cls is None and isinstance(la, ast.Name) and any(isinstance(x, ast.Name) and x.id in cname for x in nodes)
                    and f.name.startswith(('filter', 'translate', 'manipulate')))
            if not fromself and not fromparam:
                continue
            n += 1
            ll = args.get('line_labels')
            ok = False
            if ll is not None:
                for x in loc.closure(ll):
                    if isinstance(x, ast.Attribute) and x.attr in LINES:
                        ok = True
                    if isinstance(x, ast.Name) and x.id in params and ('line' in x.id or 'sslbl' in x.id or 'lbls' in x.id):
                        ok = True
            if not ok:
                R.add('C19.lines-lost', '%s.%s' % (f.cls.name if f.cls else f.module.name.split('.')[-1], f.name), f.loc(call),
                      'a circuit is made from the layers of another without its line labels')
            # layers skipped
            for x in ast.walk(la):
                if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(g.ifs for g in x.generators[:1]) and any(
                        isinstance(y, ast.Attribute) and y.attr in LAYERS for y in ast.walk(x.generators[0].iter)):
                    R.add('C19.layers-skipped', '%s.%s' % (f.cls.name if f.cls else f.module.name, f.name), f.loc(x),
                          'layers of the circuit are left out of the new one')
            # a mapping applied to the layers must be applied to the lines
            maps = [x for x in ast.walk(la) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                    and x.func.attr == 'map_state_space_labels']
            if maps and ll is not None:
                m = {y.id for x in maps for a in x.args for y in loc.closure(a) if isinstance(y, ast.Name)} & params
                got = {y.id for y in loc.closure(ll) if isinstance(y, ast.Name)}
                if m and not m & got:
                    R.add('C19.lines-not-mapped', '%s.%s' % (f.cls.name if f.cls else f.module.name, f.name), f.loc(call),
                          'the qubits of the layers are mapped, the line labels are not')
    # in-place mappings
    for mn in ('map_state_space_labels_inplace',):
        f = cir.methods.get(mn)
        if f is None:
            raise AnalysisBroken('Circuit.%s not found' % mn)
        wr = {t.attr for x in walk_own(f.node) if isinstance(x, ast.Assign) for t in x.targets
              if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
        n += 1
        if not ({'_labels'} & wr and {'_line_labels', 'line_labels'} & wr):
            R.add('C19.lines-not-mapped', 'Circuit.%s' % mn, f.loc(), 'maps only %s' % ', '.join(sorted(wr)))
    return n


def check(repo, tier='quick'):
    ix = Index(repo)
    R = Result()
    R.explanation = ('Label methods that build a label from self: parts carried over on every return; labels rebuilt from another '
                     'label\'s name anywhere in the package: arguments and time taken along; circuits built from another\'s '
                     'layers: line labels passed on, no layer skipped, mappings applied to layers and lines.')
    R.assumptions = ['layout of the label tuples: table PARTS and slices in sa/rules/c19.py', 'reviewed exceptions: ALLOW in sa/rules/c19.py']
    R.count('label constructions in label methods', label_methods(ix, R), 18)
    R.count('labels rebuilt elsewhere', rebuilt_labels(ix, R), 4)
    R.count('circuits made from the layers of another', circuits(ix, R), 12)
    return R
