"""C26: controllability and the Riccati feedback."""
from pa.check import *
from pa import exact

DARE = '''
import numpy as np
from scipy.linalg import solve_discrete_are
def f(A, B, Q, R):
    n = A.shape[0]
    W = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(n)])
    if np.linalg.matrix_rank(W) < n:
        raise ValueError()
    P = solve_discrete_are(A, B, Q, R)
    return P, - np.linalg.solve(R + B.T.dot(P).dot(B), B.T.dot(P).dot(A))
'''
SC = {'A': ('unit', 'unit', 'mix', 'zero'), 'B': ('unit', 'unit', 'mix', 'zero'), 'Q': ('spd',), 'R': ('spd',)}
SIZES = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1)]


def rank(rows):
    from pa.point import rref
    return len(rref(rows, len(rows[0]))[1]) if rows else 0


def mul(A, B):
    return [[sum(a * B[k][j] for k, a in enumerate(r)) for j in range(len(B[0]))] for r in A]


def reach(pt):
    A, B = pt.mat(Mat.atom('A', (nx, nx)), {}).m, pt.mat(Mat.atom('B', (nx, nu)), {}).m
    W, X = [list(r) for r in B], [list(r) for r in B]
    for _ in range(len(A) - 1):
        X = mul(A, X)
        W = [w + x for w, x in zip(W, X)]
    return rank(W) == len(A)


def decided(pt, v):
    if v[0] == 'raise':
        return 'raises ' + v[1]
    if not isinstance(v[1], bool):
        return J.SKIP
    want = reach(pt)
    return None if v[1] == want else 'a%s system reported %scontrollable' % (' controllable' if want else 'n uncontrollable', '' if v[1] else 'not ')


def rejected(pt, v):
    want = reach(pt)
    if not want and v != ('raise', 'ValueError'):
        return 'no ValueError for an uncontrollable system'
    if want and v[0] == 'raise':
        return 'raises %s for a controllable system' % v[1]
    return None


for n, m in SIZES:
    @ob('C26', 'controllable n=%d m=%d' % (n, m), [DS + 'LinearSystem.controllable'])
    def _(k, n=n, m=m):
        def act(I):
            I.unroll = 6
            S = lin(I)
            return run(I, lambda: I.getattr(S, 'controllable'))
        k.judge(k.actual(act), decided, dims={'nx': (n,), 'nu': (m,)}, scales=dict(SC, **{'?exact': 1}), n=60)

    @ob('C26', 'solve_dare rejects n=%d m=%d' % (n, m), [DS + 'LinearSystem.solve_dare'])
    def _(k, n=n, m=m):
        k.judge(k.actual(lambda I: method(I, lin(I), 'solve_dare', mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu))), rejected,
                dims={'nx': (n,), 'nu': (m,)}, scales=SC, vocab=('dare',), n=60)


@ob('C26', 'solve_dare', [DS + 'LinearSystem.solve_dare'])
def _(k):
    a = k.actual(lambda I: method(I, lin(I), 'solve_dare', mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu)))
    e = k.spec(DARE, lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu)))
    k.same(a, e, dims=SMALL, n=80, scales=SC)
