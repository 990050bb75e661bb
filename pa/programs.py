"""Abstract results of the optimisation programs, for callers of pympc.optimization.programs.

The feasible set is represented by the condition "x satisfies every row", which does not depend on the order of
the rows or on whether an equality is given as such or as two inequalities.  A program without optimum returns
None in every field; otherwise the fields are functions of the program.
"""
from .poly import Poly, P, ZERO, ONE, CTX, fresh, assuming
from .alg import Mat
from . import alg
from .vals import *
from .npmodel import push, scal

X = '$x'


def region(A, b, C=None, d=None, x=None):
    """Condition that x (default: the symbolic point $x) satisfies A x <= b, C x = d."""
    n = A.shape[1]
    if x is None:
        x = Mat.atom(X, (n,))
    out = []
    r = b - alg.dot(A, x)
    v = fresh('r')
    with assuming({v: (ZERO, A.shape[0])}):
        out.append(forall(A.shape[0], v, rge(push(r.row(Poly.atom(v))))))
    if C is not None:
        r = d - alg.dot(C, x)
        v = fresh('r')
        with assuming({v: (ZERO, C.shape[0])}):
            out.append(forall(C.shape[0], v, rge(push(r.row(Poly.atom(v))))))
            out.append(forall(C.shape[0], v, rge(push((-r).row(Poly.atom(v))))))
    return cand(*out)


def getm(I, env, name, nd):
    v = env.get(name)
    if v is None or v == NONE:
        return NONE
    m = I.arr(v)
    if isinstance(m, Mat) and m.ndim == nd:
        return m
    return None


FIELDS = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')


def handler(kind):
    def h(I, fi, env):
        return I.lift(lambda *vs: solve(I, kind, fi, dict(zip(names, vs))), *[env.get(x, NONE) for x in names])
    names = {'LP': ['f', 'A', 'b', 'C', 'd', 'solver'], 'QP': ['H', 'f', 'A', 'b', 'C', 'd', 'solver'],
             'MIQP': ['nc', 'H', 'f', 'A', 'b', 'C', 'd', 'solver']}[kind]
    return h


def solve(I, kind, fi, env):
    for x in ('f', 'A', 'b') + (('H',) if kind != 'LP' else ()):
        if env.get(x) == NONE:
            I.none_use('None passed as %s to %s' % (x, fi.name))
    f, A, b = getm(I, env, 'f', 1), getm(I, env, 'A', 2), getm(I, env, 'b', 1)
    H = getm(I, env, 'H', 2) if kind != 'LP' else NONE
    C, d = getm(I, env, 'C', 2), getm(I, env, 'd', 1)
    if (C == NONE) != (d == NONE):
        I.do_raise('ValueError', 'missing C or d')
    ok = None not in (f, A, b, H, C, d)
    if ok:
        n, m = A.shape[1], A.shape[0]
        shapes = [f.shape[0] - n, b.shape[0] - m]
        if C != NONE:
            shapes += [C.shape[1] - n, d.shape[0] - C.shape[0]]
        if H != NONE:
            shapes += [H.shape[0] - n, H.shape[1] - n]
        bad = [s for s in shapes if CTX.is_zero(s) is False]
        unk = [s for s in shapes if CTX.is_zero(s) is None]
        if bad:
            I.ev('shape_error', what='program %s: inconsistent sizes %s' % (fi.name, bad), size=bad[0])
            I.do_raise('ValueError', 'sizes', True)
        for s in unk:
            I.assume(ieq(s))
    e = I.ev('program', prog=kind, ok=ok, f=f, A=A, b=b, C=C, d=d, H=H, nc=env.get('nc'), solver=env.get('solver'))
    if not ok:
        key = ('?', next(I.ids))
        none = Cond(('noopt', key))
        vals = {x: I.top('solution of unknown program') for x in FIELDS}
        e.set = None
    else:
        S = region(A, b, C if C != NONE else None, d if d != NONE else None)
        nc = env.get('nc')
        e.set = S
        if kind == 'LP':
            key = ('LP', f, S)
            none = cor(empty(S), Cond(('unbdir', f, S)))
        elif kind == 'QP':
            key = ('QP', H, f, S)
            none = empty(S)
        else:
            ncv = nc if isinstance(nc, Poly) else ZERO
            key = ('MIQP', nc, H, f, S)
            none = Cond(('empty', S, ncv))
        v = fresh('a')
        CTX.ranges[v] = (ZERO, m)
        okey = key + (A, b)
        vals = {'min': scal(Mat.fn(('optmin', key), ())), 'argmin': I.new_arr(Mat.fn(('optarg', key), (n,))),
                'multiplier_inequality': I.new_arr(Mat.fn(('optmul', okey), (m,))),
                'active_set': I.new_list([Rep(m, v, Poly.atom(v), Cond(('active', okey, Poly.atom(v))))]),
                'multiplier_equality': NONE}
        if C != NONE:
            vals['multiplier_equality'] = I.new_arr(Mat.fn(('optmule', okey + (C, d)), (C.shape[0],)))
        e.key = key
    e.none = none
    rec = I.alloc(DictC({Const(x): gamma(none, NONE, vals[x]) for x in FIELDS}))
    return rec


def empty(S):
    if S.is_true():
        return FALSE
    if S.is_false():
        return TRUE
    return Cond(('empty', S, ZERO))


def handlers():
    p = 'pympc.optimization.programs.'
    return {p + 'linear_program': handler('LP'), p + 'quadratic_program': handler('QP'),
            p + 'mixed_integer_quadratic_program': handler('MIQP')}


def cheap(kind):
    """Solution identified by the call site and the cost only: for analyses of effects, not of values."""
    def solve1(I, f, A):
        A, f = I.arr(A), I.arr(f)
        n, m = (A.shape[1], A.shape[0]) if isinstance(A, Mat) and A.ndim == 2 else (Poly.atom(('dim', 'n?')), Poly.atom(('dim', 'm?')))
        key = (I.site, f if isinstance(f, Mat) else '?')
        none = Cond(('noopt', key))
        v = fresh('a')
        CTX.ranges[v] = (ZERO, m)
        vals = {'min': scal(Mat.fn(('smin', key), ())), 'argmin': I.new_arr(Mat.fn(('sarg', key), (n,))),
                'multiplier_inequality': I.new_arr(Mat.fn(('smul', key), (m,))),
                'active_set': I.new_list([Rep(m, v, Poly.atom(v), Cond(('sactive', key, Poly.atom(v))))]), 'multiplier_equality': NONE}
        return I.alloc(DictC({Const(x): gamma(none, NONE, vals[x]) for x in FIELDS}))

    def h(I, fi, env):
        return I.lift(lambda f, A: solve1(I, f, A), env.get('f', NONE), env.get('A', NONE))
    return h


def cheap_handlers():
    p = 'pympc.optimization.programs.'
    return {p + 'linear_program': cheap('LP'), p + 'quadratic_program': cheap('QP'), p + 'mixed_integer_quadratic_program': cheap('MIQP')}
