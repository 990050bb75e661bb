"""C02: facts remembered by a polyhedron are never stale."""
from pa.check import *

DIMS = dict(SMALL, nx=(1, 2, 3))
KW = dict(dims=DIMS, n=120)
Q = ('empty', 'bounded', 'radius', 'center', 'vertices')
HEAD = 'from pympc.geometry.polyhedron import Polyhedron\nimport numpy as np\n'
MUT = {
    'add_inequality': ('P.add_inequality(G, h)', 'np.vstack((A, G)), np.concatenate((b, h)), C, d'),
    'add_equality': ('P.add_equality(G, h)', 'A, b, np.vstack((C, G)), np.concatenate((d, h))'),
    'add_lower_bound': ('P.add_lower_bound(l)', 'np.vstack((A, -np.eye(l.size))), np.concatenate((b, -l)), C, d'),
    'add_upper_bound': ('P.add_upper_bound(l)', 'np.vstack((A, np.eye(l.size))), np.concatenate((b, l)), C, d'),
    'add_bounds': ('P.add_bounds(l, v)', 'np.vstack((A, -np.eye(l.size), np.eye(l.size))), np.concatenate((b, -l, v)), C, d'),
}


def data(I, eq):
    a = [mat(I, 'PA', m, nx), mat(I, 'Pb', m)]
    a += [mat(I, 'PC', p, nx), mat(I, 'Pd', p)] if eq else [I.new_arr(Mat.zeros((ZERO, nx))), I.new_arr(Mat.zeros((ZERO,)))]
    return tuple(a) + (mat(I, 'G', s, nx), mat(I, 'h', s), mat(I, 'l', nx), mat(I, 'v', nx))


def shrink(I, fi, env):
    """remove_redundant_inequalities: the rows it keeps are a function of the constraints (C21 decides which)."""
    o = env['self']

    def f(o):
        ms = [I.arr(I.getattr(o, x)) for x in ('A', 'b', 'C', 'd')]
        if not all(isinstance(x, Mat) for x in ms):
            return I.top('polyhedron')
        k = Poly.atom(('int', 'kept', region(*ms))) + 1
        I.setattr(o, 'A', I.new_arr(Mat.fn(('keptA', region(*ms)), (k, ms[0].shape[1]))))
        I.setattr(o, 'b', I.new_arr(Mat.fn(('keptb', region(*ms)), (k,))))
        return NONE
    return I.lift(f, o)


def null(I, fi, env):
    A = I.arr(env['A'])
    if not isinstance(A, Mat):
        return I.top('nullspace')
    return I.new_arr(Mat.fn(('nullb', A), (A.shape[1], A.shape[1] - Poly.atom(('len', 'rank', A)))))


OP = {'pympc.geometry.utils.nullspace_basis': null, PO + '.remove_redundant_inequalities': shrink}


def act(I, k, src, eq):
    return run(I, snippet(k.prog, src), *data(I, eq))


for mut, (do, fresh_) in MUT.items():
    for eq in (False, True):
        for q2 in Q:
            @ob('C02', '%s then %s%s' % (mut, q2, ' equalities' if eq else ''), [PO + '.' + mut, PO + '.' + q2])
            def _(k, mut=mut, do=do, fresh_=fresh_, eq=eq, q2=q2):
                for q1 in Q:
                    a = k.actual(lambda I: act(I, k, HEAD + '''
def f(A, b, C, d, G, h, l, v):
    P = Polyhedron(A, b, C, d)
    P.%s
    %s
    return P.%s
''' % (q1, do, q2), eq), opaque=OP)
                    e = k.spec(HEAD + '''
def f(A, b, C, d, G, h, l, v):
    P = Polyhedron(A, b, C, d)
    P.%s
    P = Polyhedron(%s)
    return P.%s
''' % (q1, fresh_, q2), lambda I: data(I, eq), opaque=OP)
                    k.same(a, e, '%s, %s, %s' % (q1, mut, q2), construct=PO + '.' + mut, rule='stale', dims=DIMS, n=40 if q2 == 'vertices' and eq else 80)


# ------------------------------------------------------------------ other histories: (setup and queries, fresh polyhedron to compare with)
HIST = {
    'no change': ('P.%(q1)s', 'A, b, C, d', 'P'),
    'intersection, receiver queried': ('P.%(q1)s\n    P = P.intersection(Polyhedron(G, h, H, k))', 'np.vstack((G, A)), np.concatenate((h, b)), np.vstack((H, C)), np.concatenate((k, d))', 'P'),
    'intersection, argument queried': ('O = Polyhedron(G, h, H, k)\n    O.%(q1)s\n    P = P.intersection(O)', 'np.vstack((G, A)), np.concatenate((h, b)), np.vstack((H, C)), np.concatenate((k, d))', 'P'),
    'argument of an intersection': ('O = Polyhedron(G, h, H, k)\n    O.%(q1)s\n    P.intersection(O)', 'G, h, H, k', 'O'),
    'receiver of an intersection': ('P.%(q1)s\n    P.intersection(Polyhedron(G, h, H, k))', 'A, b, C, d', 'P'),
    'copy, original changed': ('P.%(q1)s\n    O = copy(P)\n    P.add_inequality(G, h)', 'A, b, C, d', 'O'),
    'copy changed': ('P.%(q1)s\n    O = copy(P)\n    O.add_equality(G, h)', 'A, b, C, d', 'P'),
    'changed copy': ('P.%(q1)s\n    O = copy(P)\n    O.add_inequality(G, h)', 'np.vstack((A, G)), np.concatenate((b, h)), C, d', 'O'),
    'inequality form': ('P.%(q1)s\n    P = P.inequality_form()', 'np.vstack((A, C, -C)), np.concatenate((b, d, -d)), np.zeros((0, A.shape[1])), np.zeros(0)', 'P'),
    'changed twice': ('P.%(q1)s\n    P.add_inequality(G, h)\n    P.%(q2)s\n    P.add_equality(H, k)', 'np.vstack((A, G)), np.concatenate((b, h)), np.vstack((C, H)), np.concatenate((d, k))', 'P'),
    'inclusion and membership tested': ('P.%(q1)s\n    P.is_included_in(Polyhedron(G, h))\n    P.contains(l)\n    P.add_lower_bound(l)', 'np.vstack((A, -np.eye(l.size))), np.concatenate((b, -l)), C, d', 'P'),
}


def data2(I, eq):
    return data(I, eq)[:6] + (mat(I, 'HH', q, nx), mat(I, 'kk', q), mat(I, 'l', nx))


for hist, (do, fresh_, obj) in HIST.items():
    for q2 in Q:
        for eq in ((False, True) if q2 in ('empty', 'radius') else (False,)):
            if hist == 'changed twice' and eq:
                continue
            @ob('C02', '%s: %s%s' % (hist, q2, ' equalities' if eq else ''), [PO + '.' + q2])
            def _(k, hist=hist, do=do, fresh_=fresh_, q2=q2, eq=eq, obj=obj):
                for q1 in Q:
                    if q1 == 'vertices' and q2 == 'vertices' and eq:
                        continue
                    body = do % dict(q1=q1, q2=q2)
                    sig = 'from copy import copy\n' + HEAD + 'def f(A, b, C, d, G, h, H, k, l):\n    P = Polyhedron(A, b, C, d)\n    '
                    a = k.actual(lambda I: run(I, snippet(k.prog, sig + body + '\n    return %s.%s\n' % (obj, q2)), *data2(I, eq)), opaque=OP)
                    e = k.spec(sig + body + '\n    return Polyhedron(%s).%s\n' % (fresh_, q2), lambda I: data2(I, eq), opaque=OP)
                    k.same(a, e, '%s: %s, %s' % (hist, q1, q2), construct=PO + '.' + q2, rule='stale', dims=DIMS, n=40)

FACET = HEAD + '''
from pympc.optimization.parametric_programs import CriticalRegion
def f(A, b, i):
    P = Polyhedron(A, b)
    P.%s
'''


def fdata(I):
    n2 = nx + 1
    ELEM_RANGE['fi'] = lambda pt, idx: (0, pt.int(m, {}))
    return mat(I, 'PA', m, n2), mat(I, 'Pb', m), elem('fi', ZERO)


for q1 in Q:
    @ob('C02', 'facet center after ' + q1, [PP + 'CriticalRegion.facet_center'])
    def _(k, q1=q1):
        a = k.actual(lambda I: run(I, snippet(k.prog, FACET % q1 + '    return CriticalRegion([], {}, {}, {}, P).facet_center(i)\n'), *fdata(I)), opaque=OP)
        e = k.spec(FACET % q1 + '    return CriticalRegion([], {}, {}, {}, Polyhedron(A, b)).facet_center(i)\n', fdata, opaque=OP)
        k.same(a, e, 'facet center', rule='stale', dims=DIMS, n=40)

PROJ = HEAD + '''
from pympc.geometry.polyhedron import convex_hull_method
def f(A, b, r):
    P = Polyhedron(A, b)
    P.%s
    if P.empty or not P.bounded:
        raise ValueError()
'''


def hull(I, fi, env):
    A, b = I.arr(env['A']), I.arr(env['b'])
    if not isinstance(A, Mat) or not isinstance(b, Mat):
        return I.top('hull')
    n, r = dim('hn'), Poly.atom(('int', 'hullrows', A, b)) + 1
    return Tup([I.new_arr(Mat.fn(('hullE', A, b), (r, n))), I.new_arr(Mat.fn(('hullf', A, b), (r,))), I.new_arr(Mat.fn(('hullv', A, b), (r, n)))])


OPH = dict(OP, **{'pympc.geometry.polyhedron.convex_hull_method': hull})
for q1 in Q:
    for q2 in Q[:4]:
        @ob('C02', '%s of a projection after %s' % (q2, q1), [PO + '.project_to', 'pympc.geometry.polyhedron.convex_hull_method'])
        def _(k, q1=q1, q2=q2):
            dat = lambda I: (mat(I, 'PA', m, nx), mat(I, 'Pb', m), I.new_list([One(ZERO)]))
            a = k.actual(lambda I: run(I, snippet(k.prog, PROJ % q1 + '    return P.project_to(r).%s\n' % q2), *dat(I)), opaque=OPH)
            e = k.spec(PROJ % q1 + '    E, f, V = convex_hull_method(A, b, r)\n    return Polyhedron(E, f).%s\n' % q2, dat, opaque=OPH)
            k.same(a, e, 'query of a projection', rule='stale', dims=dict(DIMS, hn=(1, 2)), n=40, scales={'?empty': .2})
