"""C18: the maximal constraint-admissible invariant set keeps every needed constraint."""
from pa.check import *
from pa import exact
from pa.point import F, Arr, eig2, mmul
from checks.C21 import rows

MC = DS + 'mcais'
UNWIND = 4


def noop(I, fi, env):
    """The set does not change when redundant inequalities are removed (decided by C21)."""
    return NONE


OPQ = {PO + '.remove_redundant_inequalities': noop}


def stableish(q, r, c):
    """Matrices of all kinds, most of them contracting."""
    k = q.choice((1, 2, 2, 4, 4))
    M = [[F(q.randint(-3, 3), k * 2) for _ in range(c)] for _ in range(r)]
    if q.random() < .5 and r == 2:
        a, b = F(q.choice((-8, -4, -3, 3, 4, 8)), 4), F(q.choice((-3, -2, 2, 3)), 4)
        b = b / max(1, abs(a))
        M = [[F(0), a], [b, F(0)]]
        if q.random() < .5:
            M = [[F(0), b], [a, F(0)]]
    return M


def around(q, r, c):
    """Rows that surround the origin, most of the time."""
    base = [[F(int(i == j)) * s for j in range(c)] for i in range(c) for s in (1, -1)]
    if r == 3 and c == 2:
        base = [[F(1), F(0)], [F(-1), F(1)], [F(0), F(-1)]]
    q.shuffle(base)
    M = [list(base[i % len(base)]) if q.random() < .97 else [F(q.randint(-1, 1)) for _ in range(c)] for i in range(r)]
    return [[x * k + e * F(q.randint(-1, 1), 4) for x, e in zip(row, [q.random() < .2 for _ in row])] for row in M for k in (q.choice((1, 1, 2)),)]


def rhs(q, r, c):
    return [[F(q.choice((1, 1, 2, 3, 6)), q.choice((1, 2)))] if q.random() < .97 else [F(q.choice((-1, 0)))] for _ in range(r)]


SC = {'?exact': 1, 'A': stableish, 'PA': around, 'Pb': rhs, 'PC': ('unit',), 'Pd': ('zero',)}


def truth(A, b, M, steps=10):
    """Rows of the set of x with M^t x in X for all t, or None when not reached."""
    R = rows(A, b)
    cur = [list(r) for r in A.m]
    for t in range(steps):
        cur = mmul(cur, M)
        new = [(y[0], tuple(-x for x in r)) for r, y in zip(cur, b.m)]
        if all(exact.implies(R, r) for r in new):
            return R
        R = R + new
    return None


def oracle(k, n, eq=False):
    def f(pt, v):
        M = pt.mat(Mat.atom('A', (nx, nx)), {}).m
        A, b = pt.mat(Mat.atom('PA', (P(k), nx)), {}), pt.mat(Mat.atom('Pb', (P(k),)), {})
        rad = max(a for _, a in eig2(M))
        if abs(rad - 1) < F(1, 1000):
            return J.SKIP
        why = None
        if rad > 1:
            why = 'unstable dynamics'
        elif eq:
            why = 'a set with equalities'
        elif any(y[0] < 0 for y in b.m):
            why = 'a set without the origin'
        elif not exact.bounded(rows(A, b), n):
            why = 'an unbounded set'
        if why:
            return None if v == ('raise', 'ValueError') else 'no ValueError for ' + why
        if v[0] == 'raise':
            return 'raises %s for a contained origin, a bounded set and stable dynamics' % v[1]
        if not (isinstance(v[1], tuple) and v[1][0] == 'obj'):
            return J.SKIP
        T = truth(A, b, M)
        if T is None:
            return J.SKIP
        g = v[1][2]
        G = rows(g['A'], g['b'], g['C'], g['d'])
        if not exact.subset(G, T):
            return 'a state that leaves X is in the set'
        if not exact.subset(T, G):
            return 'a state that stays in X is not in the set'
        return None
    return f


for eq in (False, True):
    @ob('C18', 'mcais%s' % (' equalities' if eq else ''), [MC], limit=300)
    def _(kit, eq=eq):
        def act(I):
            I.unwind = UNWIND + (kit.tier == "thorough")
            return run(I, I.prog.find(MC), mat(I, 'A', nx, nx), poly(I, eq, pp=ONE))
        h = dict(OPQ)
        h[PO + '.bounded'] = geo_handlers()[PO + '.bounded']
        a = kit.actual(act, h)
        for k, n, cnt in ((2, 1, 40), (3, 1, 40), (3, 2, 80), (4, 2, 80)):
            kit.judge(a, oracle(k, n, eq), 'm=%d n=%d' % (k, n), dims={'nx': (n,), 'm': (k,)}, scales=SC, n=cnt)
        bad = {'unstable': {'A': ('mix',)}, 'unbounded': {'PA': ('unit',)}, 'origin outside': {'Pb': ('unit', 'mix')}}
        for what, sc in bad.items():
            kit.judge(a, oracle(3, 2, eq), what, dims={'nx': (2,), 'm': (3,)}, scales=dict(SC, **sc), n=40)


def pose(I, fi, env):
    """mcais(A, X) of the caller: its arguments."""
    return Tup([env['A'], env['X']])


CL = '''
def f(A, B, K, E, e, C, d, n):
    return A + B.dot(K), (E[:, :n] + E[:, n:].dot(K), e, C[:, :n] + C[:, n:].dot(K), d)
'''
for eq in (False, True):
    @ob('C18', 'LinearSystem.mcais%s' % (' equalities' if eq else ''), [DS + 'LinearSystem.mcais'])
    def _(kit, eq=eq):
        def act(I):
            return method(I, lin(I), 'mcais', mat(I, 'K', nu, nx), poly(I, eq, n=nx + nu))

        def args(I):
            z = [mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'K', nu, nx), mat(I, 'PA', m, nx + nu), mat(I, 'Pb', m)]
            return tuple(z + [mat(I, 'PC', p if eq else ZERO, nx + nu), mat(I, 'Pd', p if eq else ZERO), nx])
        kit.same(kit.actual(act, {MC: pose}), kit.spec(CL, args), dims=SMALL, n=50, view=J.set_view)
