"""C20: results do not depend on hidden or shared state."""
import ast
from pa.check import *
from pa.programs import cheap_handlers
from checks.C01 import CASES

ALLOWED_RANDOM = ('pympc.geometry.utils.plane_through_points',)


def is_global(o):
    return isinstance(o, tuple) and bool(o) and o[0] == 'global'


def state_effects(k, I, what, done):
    seen = set()
    n = 0
    for e in I.events:
        bad = None
        n += 1
        if e.kind == 'global_write':
            bad = 'assigns the module- or class-level name %s' % e.name
        elif e.kind in ('wcell', 'wfield') and is_global(e.origin):
            bad = 'modifies module- or class-level data or a default argument (%s)' % e.origin[1]
        elif e.kind == 'warray':
            g = [x for x in e.storage if is_global(x)]
            if g:
                bad = 'overwrites a module- or class-level array or a default argument (%s)' % g[0][1]
        elif e.kind == 'random':
            if not any(f in ALLOWED_RANDOM or f.rsplit('.', 1)[-1].startswith('plot') for f in e.stack) or 'seed' in str(e.path):
                bad = 'uses %s' % e.path
        if bad and (e.fn, bad) not in seen:
            seen.add((e.fn, bad))
            k.violation('%s in %s' % (bad, e.fn), e.fn, 'called from %s: %s %s' % (what, e.fn, bad), {'stack': e.stack, 'site': e.site})
    if not seen and done:
        k.ok('no hidden state written, no randomness (%d events examined)' % n)


def reach(I, v, cells, stor):
    """Mutable cells and storages reachable from a value."""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.id in cells or x.id not in I.st.heap:
                continue
            cells.add(x.id)
            c = I.cell(x)
            if isinstance(c, ArrC):
                stor.update(c.st)
            elif isinstance(c, ObjC):
                todo += list(c.f.values())
            elif isinstance(c, ListC):
                for sg in c.segs or ():
                    todo.append(sg.v if isinstance(sg, One) else sg.val)
            elif isinstance(c, DictC):
                todo += list(c.d.values())
        elif isinstance(x, Gamma):
            todo += [x.a, x.b]
        elif isinstance(x, Tup):
            todo += list(x.items)
        elif isinstance(x, FArr):
            stor.update(x.st)
        elif isinstance(x, FObj):
            todo += [y for _, y in x.items]
        elif isinstance(x, (list, tuple)):
            todo += list(x)


for name, anchor, setup, go, opaque, thorough in CASES:
    @ob("C20", name, [anchor], thorough=thorough, limit=250)
    def _(k, name=name, setup=setup, go=go, opaque=opaque):
        h = opaque() if callable(opaque) else opaque
        I = k.interp(dict(cheap_handlers(), **(h or {})))
        args = setup(I)
        args = args if isinstance(args, tuple) else (args,)
        done = False
        try:
            r1 = go(I, *args)
            done = True
        finally:
            k.note(I)
            state_effects(k, I, name, done)
        if r1.dead:
            return
        # a second, separate call on separate arguments shares nothing with the first
        c1, s1 = set(), set()
        reach(I, r1.val, c1, s1)
        for a in args:
            reach(I, a, c1, s1)
        args2 = setup(I)
        args2 = args2 if isinstance(args2, tuple) else (args2,)
        c2, s2 = set(), set()
        for a in args2:
            reach(I, a, c2, s2)
        r2 = go(I, *args2)
        if r2.dead:
            return
        reach(I, r2.val, c2, s2)
        for a in args2:
            reach(I, a, c2, s2)
        st = {x for x in s1 & s2 if not (isinstance(x, tuple) and x[0] == 'in')}
        both = {x for x in c1 & c2}
        if st or both:
            org = [I.orig(x) for x in both if is_global(I.orig(x))] + [x for x in st if is_global(x)]
            k.violation('shared state', k.where(), '%s: two separate calls return objects that share mutable state %s' % (name, org or (sorted(both) + sorted(map(str, st)))))
        else:
            k.ok('results of two separate calls share no mutable state (%d and %d cells)' % (len(c1), len(c2)))


@ob('C20', 'syntactic scan of all modules')
def _(k):
    """Statements that keep or change state outside objects, in every non-test module (also code no obligation reaches)."""
    bad_calls = {'seed', 'set_state', 'seterr', 'setrecursionlimit', 'set_printoptions', 'filterwarnings', 'simplefilter'}
    nf = 0
    for mod in k.prog.mods.values():
        if '.test' in mod.name or not mod.name.startswith('pympc') or mod.tree is None:
            continue
        top = {t.id for st in mod.tree.body if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign))
               for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) if isinstance(t, ast.Name)}
        classes = {st.name for st in mod.tree.body if isinstance(st, ast.ClassDef)}
        for fn in [x for x in ast.walk(mod.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            nf += 1
            q = mod.name + '.' + fn.name
            local = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for d in fn.decorator_list:
                nm = d.func if isinstance(d, ast.Call) else d
                nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', '')
                if nm in ('lru_cache', 'cache', 'memoize', 'memoized'):
                    k.violation('memoized function %s' % q, q, '%s keeps its results between calls (decorator %s)' % (q, nm))
            for x in ast.walk(fn):
                if isinstance(x, ast.Global):
                    k.violation('global statement in %s' % q, q, 'line %d rebinds %s' % (x.lineno, x.names))
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, ast.AugAssign):
                    tg = [x.target]
                for t in tg:
                    for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        base, depth = y, 0
                        while isinstance(base, (ast.Attribute, ast.Subscript)):
                            base, depth = base.value, depth + 1
                        if depth and isinstance(base, ast.Name) and base.id not in local and (base.id in top or base.id in classes):
                            k.violation('module-level data written in %s' % q, q, 'line %d writes into the module- or class-level %s' % (x.lineno, base.id))
                        if isinstance(y, ast.Attribute) and ((isinstance(y.value, ast.Attribute) and y.value.attr == '__class__') or
                                                             (isinstance(y.value, ast.Call) and getattr(y.value.func, 'id', '') == 'type')):
                            k.violation('class attribute written in %s' % q, q, 'line %d writes a class attribute' % x.lineno)
                if isinstance(x, ast.Call):
                    f = x.func
                    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
                    if nm in bad_calls and isinstance(f, ast.Attribute):
                        k.violation('global setting changed in %s' % q, q, 'line %d calls %s' % (x.lineno, ast.unparse(f)))
                    if nm == 'append' or nm in ('extend', 'insert', 'update', 'setdefault', 'pop', 'clear', 'add', 'remove', 'sort', 'reverse'):
                        b = f.value if isinstance(f, ast.Attribute) else None
                        if isinstance(b, ast.Name) and b.id not in local and b.id in top:
                            k.violation('module-level data written in %s' % q, q, 'line %d: %s of the module-level %s' % (x.lineno, nm, b.id))
    k.ok('%d functions scanned' % nf)


PLANE = '''
import numpy as np
from pympc.geometry.utils import plane_through_points
def f(%s):
    a, d = plane_through_points([%s])
    return [a.dot(p) - d for p in [%s]]
'''
for n in (1, 2, 3):
    @ob('C20', 'plane through %d points does not depend on the random offset' % n, ['pympc.geometry.utils.plane_through_points'])
    def _(k, n=n):
        ar = ', '.join('v%d' % i for i in range(n))
        pts = lambda I: tuple(mat(I, 'v%d' % i, P(n)) for i in range(n))
        a = k.actual(lambda I: run(I, snippet(k.prog, PLANE % (ar, ar, ar)), *pts(I)))
        e = k.spec('def f(*a):\n    return [0. for x in a]\n', pts)
        k.same(a, e, 'the plane passes through the points', n=40, vocab=('rand', 'inv', 'solve', 'norm'))
