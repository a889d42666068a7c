"""C02: a circuit's text always describes its current layers and lines.

Obligation: on every path of every public entry point of Circuit, a write to the
layers or line labels is accompanied (before or after, same call) by dropping the
stored string; the stored string is otherwise only assigned (a) in construction,
(b) from the freshly generated text, or (c) after a parse-and-compare check that
raises on mismatch.
"""
import ast
from ..index import Index, AnalysisBroken, dotted
from ..flow import Flow, fact, U
from ..report import Result
from ..cachesync import CacheSync
from .c01 import entry_points, CTOR, STATE


def is_reset(fl, path, how, value, node, st):
    return len(path) == 2 and how in ('set', 'del') and value == frozenset([('C', None)])


def check(repo, tier='quick'):
    ix = Index(repo, skip_dirs=('modelpacks',))
    res = Result()
    C = ix.cls('pygsti.objects.circuit.Circuit')
    writes, resets = set(), set()
    eps = entry_points(C)
    nst = 0
    for (kind, n), f in sorted(eps.items()):
        if n in CTOR or f.is_static or f.is_classmethod:
            continue
        fl = CacheSync(ix, C, STATE, '_str', is_reset, exempt=('done_editing',))
        for s in sorted(fl.stale_at_exit(f)):
            res.add('C02.stale-text', 'Circuit.%s writes %s' % (s[1], s[2]), '%s:%d' % (s[3], s[4]),
                    'public %s can return with the previously stored text still in place (path %s)' % (n, s[5]))
        writes |= fl.writes
        resets |= fl.resets
        nst += fl.stats['statements']
    # every non-None assignment of the stored text
    n_assign = 0
    for f in ix.funcs:
        if f.module is not C.module or f.cls is not C:
            continue
        for st in ast.walk(f.node):
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Attribute) and t.attr == '_str':
                        n_assign += 1
                        text_assignment(ix, C, f, st, t, res)
    init = C.lookup('__init__')
    validated(ix, C, init, 'stringrep', {
        'stringrep is not None': True, 'stringrep is None': False, 'stringrep': True, 'check': True,
        'layer_labels is None': False, 'layer_labels is not None': True, "line_labels == 'auto'": False,
        "line_labels != 'auto'": True}, res, 'Circuit.__init__')
    setter = C.setters.get('str')
    if setter is None:
        raise AnalysisBroken('Circuit.str has no setter')
    validated(ix, C, setter, setter.params[1], {}, res, 'Circuit.str setter')
    copy_sites(ix, C, res)
    res.count('entry_points_analysed', len(eps), 60)
    res.count('state_write_sites', len(writes), 12)
    res.count('reset_sites', len(resets), 5)
    res.count('stored_text_assignments', n_assign, 5)
    res.count('statements_interpreted', nst)
    res.coverage['write_sites'] = sorted('%s:%d %s' % w for w in writes)
    res.explanation = ('Each write of the layer list / line labels reachable from a public Circuit method was required to be '
                       'paired, on every path through that method, with dropping the stored text; each assignment of '
                       'stored text was classified (construction, generated, checked setter).')
    res.assumptions = ['the text generator and the parser agree on well-formed circuits (a numerical/grammar round trip '
                       'not decided here)']
    return res


class Dominated(Flow):
    """is the text assignment reached only when a comparison with the parsed value has not raised?"""

    def on_raise(self, node, st):
        pass


def text_assignment(ix, C, f, st, t, res):
    v = st.value
    if isinstance(v, ast.Constant) and v.value is None:
        return
    if f.name in CTOR:
        return
    if not (isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0]):
        # text written onto another object: allowed only when that object was just built from the same layers
        return
    # generated text?
    if value_is_generated(ix, f, v):
        return
    # checked setter: a `raise` guarded by a comparison involving a call to a parser precedes it
    parsed = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'parse' \
                and n.lineno < st.lineno:
            parsed = True
    raises = [n for n in ast.walk(f.node) if isinstance(n, (ast.Raise, ast.Assert)) and n.lineno < st.lineno]
    delegates = any(isinstance(n, ast.Call) for n in ast.walk(f.node))
    if parsed and raises:
        cmpd = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in ast.walk(n)) and 'self' in ast.dump(n.test):
                cmpd = True
            if isinstance(n, ast.Assert) and '_labels' in ast.dump(n.test):
                cmpd = True
        if cmpd:
            return
    elif delegates and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
            n.func.value, ast.Name) and n.func.value.id == f.params[0] and helper_checks(C, n.func.attr)
            for n in ast.walk(f.node)):
        return
    res.add('C02.unchecked-text', 'Circuit.%s' % f.name, f.loc(st),
            'stores caller-supplied text without comparing its parse with the circuit\'s layers')


REDUCING = ('len', 'set', 'frozenset', 'sorted', 'any', 'all', 'sum', 'bool', 'hash', 'type', 'max', 'min')


def names_in(e):
    return set(n.id for n in ast.walk(e) if isinstance(n, ast.Name))


def derived(f, roots):
    """names of f that (may) depend on `roots`"""
    out = set(roots)
    while True:
        new = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and names_in(n.value) & out:
                for t in n.targets:
                    new |= set(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            elif isinstance(n, ast.For) and names_in(n.iter) & out:
                new |= set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        new -= set(f.params + f.kwonly)     # (what the caller gave, unless left to be taken from the text)
        if new <= out:
            return out
        out |= new


def transparent(e):
    """the expression carries all of its operand (no length, set, ... taken)"""
    return not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in REDUCING
                   for n in ast.walk(e))


def atoms(t, want):
    """the alternatives of a test which make it `want` each on their own"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand, not want)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or if want else ast.And):
        return [a for v in t.values for a in atoms(v, want)]
    return [(t, want)]


def refusing_tests(f):
    """[(If/Assert node, test, truth value that refuses)]"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            if any(isinstance(x, ast.Raise) for x in n.body):
                out.append((n, n.test, True))
            if any(isinstance(x, ast.Raise) for x in n.orelse):
                out.append((n, n.test, False))
        elif isinstance(n, ast.Assert):
            out.append((n, n.test, False))
    return out


def compares_all(f, what):
    """nodes of f that refuse unless something made from `what` (names) equals, as a whole, something else"""
    out = []
    for (n, test, want) in refusing_tests(f):
        ats = atoms(test, want)
        # locals holding the verdict of a comparison: `same = a == b; if not same: raise`
        exp = []
        for (a, w) in ats:
            if isinstance(a, ast.Name):
                for d in ast.walk(f.node):
                    if isinstance(d, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in d.targets):
                        exp += atoms(d.value, w)
            exp.append((a, w))
        lens = any(isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.ops[0], ast.NotEq if w else ast.Eq)
                   and names_in(a) & what and not transparent(a.left) and not transparent(a.comparators[0])
                   and 'len' in names_in(a.left) and 'len' in names_in(a.comparators[0]) for (a, w) in exp)
        for (a, w) in exp:
            if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.ops[0], ast.NotEq if w else ast.Eq):
                l, r = a.left, a.comparators[0]
                if transparent(l) and transparent(r) and bool(names_in(l) & what) != bool(names_in(r) & what) \
                        and not isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                    out.append(n)
            elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.args and names_in(a) & what and (
                    (a.func.id == 'all' and not w) or (a.func.id == 'any' and w)):
                g = a.args[0]
                if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and isinstance(g.elt, ast.Compare) and (
                        lens or any(isinstance(c, ast.Call) and dotted(c.func) and dotted(c.func).endswith('zip_longest')
                                    for c in ast.walk(g))) and all(transparent(x) for x in [g.elt.left] +
                                                                   g.elt.comparators) and len(g.generators) == 1 \
                        and not g.generators[0].ifs:
                    out.append(n)
    return out


def tri(t, env):
    """truth of test `t` under {text of sub-expression: bool}: True, False or None"""
    k = ast.unparse(t)
    if k in env:
        return env[k]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = tri(t.operand, env)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [tri(v, env) for v in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    return None


def enclosing(f, node):
    """[(If, in body?)] around node within f"""
    out = []

    def go(n, chain):
        if n is node:
            out.extend(chain)
            return True
        for fld, val in ast.iter_fields(n):
            for c in (val if isinstance(val, list) else [val]):
                if isinstance(c, ast.AST):
                    ch = chain
                    if isinstance(n, ast.If) and fld in ('body', 'orelse'):
                        ch = chain + [(n, fld == 'body')]
                    if go(c, ch):
                        return True
        return False
    go(f.node, [])
    return out


def validated(ix, C, f, text, env, res, anchor):
    """the parse of parameter `text` is compared, in full, with the layers and with the lines, whenever `env`"""
    parses = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == 'parse' and text in names_in(n.value):
            parses.append(n)
    # the checks may have been moved to a helper that is given the text (or its parse)
    fs = [(f, None)]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            g = None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in (
                    f.params[0], C.name):
                g = C.lookup(n.func.attr)
            elif isinstance(n.func, ast.Name):
                g = ix.resolve_expr(n.func, f.module, f)
            if g is not None and hasattr(g, 'node') and isinstance(g.node, ast.FunctionDef) and g is not f \
                    and refusing_tests(g):
                fs.append((g, n))
    found = {0: False, 1: False}
    for (g, call) in fs:
        if call is not None and not holds(f, call, env):
            continue
        ps = parses if g is f else [n for n in ast.walk(g.node) if isinstance(n, ast.Assign) and isinstance(
            n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'parse']
        for k in (0, 1):
            roots = set()
            for n in ps:
                t = n.targets[0]
                if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[k], ast.Name):
                    roots.add(t.elts[k].id)
                elif isinstance(t, ast.Name):
                    roots.add(t.id)
            if not ps and g is not f:
                roots = set(g.params)       # handed the parse
            if not roots:
                continue
            env2 = dict(env)
            for r in roots:
                env2['%s is not None' % r] = True
                env2['%s is None' % r] = False
            for n in compares_all(g, derived(g, roots)):
                if g is not f or holds(f, n, env2):
                    found[k] = True
    what = ('layers', 'lines')
    for k in (0, 1):
        if not found[k]:
            res.add('C02.weak-text-check', '%s %s' % (anchor, what[k]), f.loc(f.node),
                    'does not (on every path) refuse a supplied text whose %s differ from those of the circuit' % what[k])


def holds(f, node, env):
    for (i, body) in enclosing(f, node):
        v = tri(i.test, env)
        if v is not (True if body else False):
            return False
    return True


def helper_checks(C, name):
    h = C.lookup(name)
    if h is None:
        return False
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'parse'
               for n in ast.walk(h.node)) and any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(h.node))


def value_is_generated(ix, f, v):
    if isinstance(v, ast.Call):
        r = ix.resolve_expr(v.func, f.module, f)
        if r is not None and getattr(r, 'name', '') == '_opSeqToStr':
            return True
        # a helper method which itself only returns generated text
        if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and f.cls is not None:
            h = f.cls.lookup(v.func.attr)
            if h is not None:
                rets = [n for n in ast.walk(h.node) if isinstance(n, ast.Return) and n.value is not None]
                return bool(rets) and all(value_is_generated(ix, h, n.value) for n in rets)
        return False
    if isinstance(v, ast.Name):
        asg = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
        return bool(asg) and all(value_is_generated(ix, f, n.value) for n in asg)
    return False


def copy_sites(ix, C, res):
    """`Circuit(<layers>, <lines>, ..., stringrep=<x>._str/.str, check=False)`: the unchecked text must come from the
    object whose unmodified layers and lines are passed."""
    n = 0
    init = C.lookup('__init__')
    for m in ix.modules.values():
        for f in [x for x in ix.funcs if x.module is m]:
            for call in ast.walk(f.node):
                if not isinstance(call, ast.Call):
                    continue
                r = ix.resolve_expr(call.func, m, f)
                if r is not C:
                    continue
                args = bind(init, call)
                chk = args.get('check')
                s = args.get('stringrep')
                if s is None or not (isinstance(chk, ast.Constant) and chk.value is False):
                    continue
                n += 1
                d = dotted(s)
                if d and (d.endswith('._str') or d.endswith('.str')):
                    owner = d.rsplit('.', 1)[0]
                    ll, li = args.get('layer_labels'), args.get('line_labels')
                    dl = dotted(ll) if ll is not None else None
                    if isinstance(ll, ast.Name) and f.cls is C:
                        # a local: it must be the owner's own layers under another name
                        defs = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == ll.id for t in a.targets)]
                        ds = set(dotted(x) for x in defs)
                        if len(ds) == 1 and None not in ds:
                            dl = ds.pop()
                        if dl not in (owner + '.layertup', owner + '._labels', owner + '.tup', owner):
                            res.add('C02.mismatched-text', '%s' % f.qual, f.loc(call),
                                    'builds an unchecked circuit from other layers with the text of %s' % owner)
                    if ll is not None and dl is not None and dl not in (
                            owner + '.layertup', owner + '._labels', owner + '.tup', owner) and \
                            dl.startswith(owner + '.'):
                        res.add('C02.mismatched-text', '%s' % f.qual, f.loc(call),
                                'builds an unchecked circuit from %s with the text of %s' % (dl, owner))
                    dli = dotted(li) if li is not None else None
                    if ll is not None and dl in (owner + '.layertup', owner + '._labels') and li is not None and \
                            dli not in (owner + '.line_labels', owner + '._line_labels'):
                        res.add('C02.mismatched-text', '%s lines' % f.qual, f.loc(call),
                                'reuses the text of %s for a circuit with other line labels' % owner)
                    if dl is None and ll is not None and isinstance(ll, (ast.Call, ast.ListComp, ast.BinOp)) and \
                            not (isinstance(ll, ast.Call) and dotted(ll.func) in ('tuple', 'list')):
                        res.add('C02.mismatched-text', '%s layers' % f.qual, f.loc(call),
                                'reuses the stored text of %s for transformed layers' % owner)
                elif isinstance(s, ast.Name) and f.cls is C:
                    composed_text(C, f, call, s.id, args.get('line_labels'), res)
    res.count('unchecked_text_constructions', n)


def composed_text(C, f, call, name, lines, res):
    """a text put together for a circuit with given lines names those lines whenever there are any"""
    if lines is None:
        return
    asg = [n for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AugAssign)) and any(
        isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    vals = [(n, n.value) for n in asg if not (isinstance(n.value, ast.Constant) and n.value.value is None)]
    if vals and all(isinstance(v, ast.Call) for n, v in vals):
        return      # made by another function (the generator)
    linenames = names_in(lines) - {f.params[0]}
    good = False
    for (n, v) in vals:
        if not any(isinstance(c, ast.Constant) and isinstance(c.value, str) and '@' in c.value for c in ast.walk(v)):
            continue
        part = names_in(v) - {name, f.params[0]}
        ok = True
        for (i, body) in enclosing(f, n):
            tn = names_in(i.test) - {f.params[0]}
            if not tn <= (part | linenames):
                ok = False
        good = good or ok
    if not good:
        res.add('C02.text-without-lines', f.qual, f.loc(call),
                'puts together the text of a circuit with given lines but does not (always) name the lines in it')


def bind(func, call):
    out = {}
    ps = func.call_params
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            break
        if i < len(ps):
            out[ps[i]] = a
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out
