"""C19: Chebyshev data, equality elimination, vertices and projection agree."""
from pa.check import *
from pa import exact
from pa.point import F, Arr, sqrtq, rref, pinvq, mmul
from checks.C21 import rows, independent
from checks.C18 import around, rhs

SC = {'?exact': 1, '?ortho': 1, 'PA': around, 'Pb': rhs, 'PC': ('unit', 'mix'), 'Pd': ('zero', 'unit')}
EPS = F(1, 10 ** 6)
G = geo_handlers()
GEO = {PO + '.empty': G[PO + '.empty'], PO + '.bounded': G[PO + '.bounded']}


def simplex(q, r, c):
    """Rows around a simplex, most of the time."""
    base = [[F(-int(i == j)) for j in range(c)] for i in range(c)] + [[F(1)] * c]
    q.shuffle(base)
    M = [list(base[i % len(base)]) if q.random() < .97 else [F(q.randint(-1, 1)) for _ in range(c)] for i in range(r)]
    return [[x * k + e * F(q.randint(-1, 1), 4) for x, e in zip(row, [q.random() < .3 for _ in row])] for row in M for k in (q.choice((1, 1, 2)),)]


def data(pt, k, q):
    A, b = pt.mat(Mat.atom('PA', (P(k), nx)), {}), pt.mat(Mat.atom('Pb', (P(k),)), {})
    if not q:
        return A, b, None, None
    return A, b, pt.mat(Mat.atom('PC', (P(q), nx)), {}), pt.mat(Mat.atom('Pd', (P(q),)), {})


def tangent(A, C, n):
    """Row norms of A on the subspace C x = 0."""
    if C is None:
        R = A.m
    else:
        K = mmul(pinvq(C.m, n), C.m)
        R = [[x - y for x, y in zip(r, s)] for r, s in zip(A.m, mmul(A.m, K))]
    return [sqrtq(sum((x * x for x in r), F(0))) for r in R]


def ball(A, b, C, d, n):
    """(status, radius) of the largest ball (largest violation, negative, for an empty set)."""
    w = tangent(A, C, n)
    R = [(y[0], tuple(-x for x in r) + (-wi,)) for r, y, wi in zip(A.m, b.m, w)]
    if C is not None:
        for s in (1, -1):
            R += [(s * y[0], tuple(-s * x for x in r) + (F(0),)) for r, y in zip(C.m, d.m)]
    z = exact.solve([F(0)] * n + [F(-1)], R)
    return (z[0], -z[1] if z[0] == 'opt' else None, w)


def cheb(k, q, n):
    def oracle(pt, v):
        A, b, C, d = data(pt, k, q)
        if q and (not independent(C) or C.shape[0] >= n):
            return J.SKIP
        if v[0] == 'raise':
            return 'raises ' + v[1]
        st, rad, w = ball(A, b, C, d, n)
        r, c = v[1][2]
        if st != 'opt':
            return None if r is None and c is None else 'a value for an unbounded set'
        if r is None or c is None:
            return 'None for a bounded set'
        if not isinstance(c, Arr) or c.shape != (n,):
            return 'the center is not a point of the space of the polyhedron'
        if abs(r - rad) > EPS:
            return 'the radius is not %s, that of the largest ball' % float(rad)
        x = [z[0] for z in c.m]
        for row, y, wi in zip(A.m, b.m, w):
            if sum((a * e for a, e in zip(row, x)), F(0)) + rad * wi > y[0] + EPS:
                return 'the ball around the center is not in the polyhedron'
        if C is not None:
            for row, y in zip(C.m, d.m):
                if abs(sum((a * e for a, e in zip(row, x)), F(0)) - y[0]) > EPS:
                    return 'the center does not satisfy the equalities'
        return None
    return oracle


def corners(k, q, n):
    def oracle(pt, v):
        A, b, C, d = data(pt, k, q)
        if q and (not independent(C) or C.shape[0] >= n):
            return J.SKIP
        R = rows(A, b, C, d)
        if exact.empty(R, n) or not exact.bounded(R, n):
            return None if v == ('value', None, {}) else 'not None for an empty or unbounded set'
        st, rad, w = ball(A, b, C, d, n)
        if abs(rad) < EPS:
            return J.SKIP
        if v[0] == 'raise':
            return 'raises ' + v[1]
        eqs = [(y[0], tuple(-x for x in r)) for r, y in zip(C.m, d.m)] if q else []
        true = exact.vertices(rows(A, b), n, eqs)
        if not (isinstance(v[1], tuple) and v[1][0] == 'list'):
            return 'no vertices for a bounded set' if v[1] is None else J.SKIP
        got = []
        for x in v[1][2]:
            if not isinstance(x, Arr) or x.shape != (n,):
                return 'a vertex is not a point of the space of the polyhedron'
            got.append([z[0] for z in x.m])
        near = lambda x, y: max(abs(a - c) for a, c in zip(x, y)) < EPS
        if any(not any(near(x, y) for y in got) for x in true):
            return 'a vertex is missing'
        if any(not any(near(x, y) for y in true) for x in got):
            return 'a point that is not a vertex'
        return None
    return oracle


for k, q, n in ((2, 0, 1), (3, 0, 1), (3, 0, 2), (2, 1, 2), (3, 1, 2), (3, 1, 3), (2, 2, 3), (3, 2, 3)):
    pq = 'm=%d p=%d n=%d' % (k, q, n)
    sc = dict(SC)
    if n - q == 2 and q:
        sc['PA'] = ('unit',)

    @ob('C19', 'radius, center ' + pq, [PO + '.radius', PO + '.center'])
    def _(kit, k=k, q=q, n=n, sc=sc):
        def act(I):
            P1 = poly(I, bool(q), mm=P(k), pp=P(max(q, 1)))
            return run(I, lambda: Tup([I.getattr(P1, 'radius'), I.getattr(P1, 'center')]))
        kit.judge(kit.actual(act), cheb(k, q, n), dims={'nx': (n,)}, scales=sc, n=50)

for k, q, n in ((2, 0, 1), (3, 0, 1), (3, 0, 2), (4, 0, 2), (2, 1, 2), (3, 1, 2), (3, 1, 3), (2, 2, 3), (3, 2, 3), (4, 2, 4)):
    pq = 'm=%d p=%d n=%d' % (k, q, n)
    sc = dict(SC)

    @ob('C19', 'vertices ' + pq, [PO + '.vertices'])
    def _(kit, k=k, q=q, n=n, sc=sc):
        def act(I):
            P1 = poly(I, bool(q), mm=P(k), pp=P(max(q, 1)))
            return run(I, lambda: I.getattr(P1, 'vertices'))
        kit.judge(kit.actual(act, GEO), corners(k, q, n), dims={'nx': (n,)}, scales=sc, n=50)


def pairs(q, r, c):
    """Opposite rows."""
    M = []
    for i in range(r):
        M.append([-x for x in M[-1]] if i % 2 else [F(q.randint(-1, 1)) for _ in range(c)])
    return M


def axes(q, r, c):
    """Signed, scaled coordinate rows."""
    pos = list(range(c))
    q.shuffle(pos)
    return [[F(q.choice((-1, 1, 1, 2))) * int(j == pos[i % c]) for j in range(c)] for i in range(r)]


AX = dict(SC, PA=pairs, Pb=('upos', 'pos'), PC=axes, Pd=('zero', 'unit', 'unit'))
for k, q, n in ((2, 1, 2), (2, 2, 3), (4, 1, 3), (4, 2, 4)):
    @ob('C19', 'sections of strips m=%d p=%d n=%d' % (k, q, n), [PO + '.vertices'])
    def _(kit, k=k, q=q, n=n):
        def act(I):
            P1 = poly(I, bool(q), mm=P(k), pp=P(max(q, 1)))
            return run(I, lambda: I.getattr(P1, 'vertices'))
        kit.judge(kit.actual(act, GEO), corners(k, q, n), 'vertices', dims={'nx': (n,)}, scales=AX, n=60)

        def both(I):
            P1 = poly(I, bool(q), mm=P(k), pp=P(max(q, 1)))
            return run(I, lambda: Tup([I.getattr(P1, 'radius'), I.getattr(P1, 'center')]))
        kit.judge(kit.actual(both), cheb(k, q, n), 'radius, center', dims={'nx': (n,)}, scales=AX, n=40)


def shadow(k, n, dims_):
    """The set of the result is the projection of the polyhedron on the coordinates dims_."""
    def oracle(pt, v):
        A, b = pt.mat(Mat.atom('PA', (P(k), P(n))), {}), pt.mat(Mat.atom('Pb', (P(k),)), {})
        R = rows(A, b)
        if exact.empty(R, n) or not exact.bounded(R, n):
            return None if v == ('raise', 'ValueError') else 'no ValueError for an empty or unbounded set'
        st, rad, w = ball(A, b, None, None, n)
        if abs(rad) < EPS:
            return J.SKIP
        if v[0] == 'raise':
            return 'raises ' + v[1]
        g = v[1][2]
        if g['A'].shape[1] != len(dims_):
            return 'the projection is not in the space of the requested coordinates'
        if g['C'].shape[0]:
            return J.SKIP
        pts = [[x[i] for i in dims_] for x in exact.vertices(R, n)]
        for r, y in zip(g['A'].m, g['b'].m):
            h = max(sum((a * e for a, e in zip(r, x)), F(0)) for x in pts)
            if h > y[0] + EPS:
                return 'a point of the projection is cut off'
        G = [(y[0], tuple(-x for x in r)) for r, y in zip(g['A'].m, g['b'].m)]
        if not exact.bounded(G, len(dims_)):
            return 'the projection is unbounded'
        V = exact.vertices(G, len(dims_), tol=F(1, 10 ** 9))
        for x in V:
            if not in_hull(x, pts):
                return 'a point that is not in the projection'
        if V and v[2].get('vertices') is not None:
            L = v[2]['vertices']
            xs = L[2] if isinstance(L, tuple) else [Arr((L.shape[1],), [[z] for z in r]) for r in L.m]
            xs = [[z[0] for z in x.m] for x in xs]
            if any(len(x) != len(dims_) or not in_hull(x, pts) for x in xs):
                return 'a stored vertex is not in the projection'
            if any(not any(max(abs(a - c) for a, c in zip(x, y)) < EPS for y in xs) for x in V):
                return 'a vertex is not stored'
        return None
    return oracle


def in_hull(x, pts):
    """x is a convex combination of pts, up to EPS."""
    k = len(pts)
    R = [(F(0), tuple(F(int(i == j)) for i in range(k))) for j in range(k)]
    for s in (1, -1):
        R += [(EPS - s * xi, tuple(s * p[j] for p in pts)) for j, xi in enumerate(x)]
        R += [(F(-s), tuple(F(s) for _ in pts))]
    return not exact.empty(R, k)


for k, n, dd in ((2, 1, (0,)), (3, 2, (0,)), (3, 2, (1,)), (4, 2, (0,)), (4, 2, (1,)), (4, 3, (1,)), (4, 3, (2,))):
    @ob('C19', 'project_to %s m=%d n=%d' % (list(dd), k, n), [PO + '.project_to'])
    def _(kit, k=k, n=n, dd=dd):
        def act(I):
            P1 = poly(I, False, n=P(n), mm=P(k))
            r = method(I, P1, 'project_to', I.new_list([One(P(i)) for i in dd]))
            return r if r.dead else (r, {'vertices': I.getattr(r.val, '_vertices')})
        kit.judge(kit.actual(act, GEO), shadow(k, n, dd), dims={}, scales=SC if n < 3 else dict(SC, PA=simplex), n=60)
