"""C03: programs without a solution, empty and unbounded sets and uncovered points surface as documented."""
from checks.sets import *
from checks import backends as B
import checks.C10, checks.C11, checks.C14, checks.C16
from checks.C19 import ball as largest
from checks.C04 import STATUS
from checks.C16 import ctl, NOP, Q, M1, E

G = geo_handlers()
GEO = {PO + '.empty': G[PO + '.empty'], PO + '.bounded': G[PO + '.bounded']}


def missing(v):
    """None occurs in a concrete outcome."""
    if v is None:
        return True
    if isinstance(v, tuple):
        return any(missing(x) for x in v[1:])
    if isinstance(v, list):
        return any(missing(x) for x in v)
    if isinstance(v, dict):
        return any(missing(x) for x in v.values())
    return False


def odd(v):
    return v[0] == 'raise' or missing(v[1])


def when(ve, va):
    """Only the outcomes in which something is missing: a None, a refusal, an exception."""
    return odd(ve) or odd(va)


again('C03', 'C16', lambda n: not n.startswith('store'), when)
again('C03', 'C14', lambda n: n.startswith('feedforward') or n.startswith('missing') or n.startswith('mixed'), when)
again('C03', 'C10', lambda n: n.startswith('get_mode') or n.startswith('is_well_posed'))
again('C03', 'C11', lambda n: n.startswith('PieceWiseAffineSystem.simulate'), when)


# ------------------------------------------------------------------ polyhedra of every kind
def full_rank(C, n):
    return C is None or (independent(C) and C.shape[0] < n)


def vertices(k, q, n):
    def f(pt, v):
        z = data(pt, k, q)
        R = rows(*z)
        if exact.empty(R, n) or not exact.bounded(R, n):
            return None if v == ('value', None, {}) else 'not None for an %s set' % ('empty' if exact.empty(R, n) else 'unbounded')
        if not full_rank(z[2], n) or largest(*z, n)[1] <= F(1, 10 ** 6):
            return J.SKIP
        return 'raises ' + v[1] if v[0] == 'raise' else None
    return f


def ball(k, q, n):
    def f(pt, v):
        z = data(pt, k, q)
        if not full_rank(z[2], n):
            return J.SKIP
        if v[0] == 'raise':
            return 'raises ' + v[1]
        r, c = v[1][2]
        if largest(*z, n)[0] != 'opt':
            return None if r is None and c is None else 'a ball for a set that contains arbitrarily large ones'
        return 'None for a set with a largest ball' if r is None or c is None else None
    return f


def facets(k, q, n, mode):
    def f(pt, v):
        z = data(pt, k, q)
        if not full_rank(z[2], n):
            return J.SKIP
        if exact.empty(rows(*z), n):
            if mode == 'minimal_facets':
                return None if v == ('value', None, {}) else 'not None for an empty set'
            return None if v == ('raise', 'ValueError') else 'no ValueError for an empty set'
        if v[0] == 'raise':
            return 'raises ' + v[1]
        return 'None for a set that is not empty' if mode == 'minimal_facets' and v[1] is None else None
    return f


def inclusion(k, q, k2, q2, n):
    def f(pt, v):
        R1, R2 = rows(*data(pt, k, q)), rows(*data(pt, k2, q2, 'Q'))
        if v[0] == 'raise':
            return 'raises ' + v[1]
        none = exact.empty(R1, n)
        if not none and exact.bounded(R1, n):
            return None if isinstance(v[1], bool) else 'no answer'
        want = none or exact.subset(R1, R2)
        return None if v[1] is want else 'the inclusion of an %s set is answered with %s' % ('empty' if none else 'unbounded', v[1])
    return f


KIND = (('sets of any kind', SC), ('sets around the origin', dict(SC, PA=around, Pb=('upos', 'upos', 'unit'))))
for eqs in (False, True):
    for k, q, n in sizes(eqs):
        if n - q == 0 or n - q > 2 or n == 3 and k > 3:
            continue
        pq = ' m=%d p=%d n=%d' % (k, q, n)

        @ob('C03', 'vertices' + pq, [PO + '.vertices'])
        def _(kit, k=k, q=q, n=n):
            def act(I):
                P1 = obj(I, k, q)
                return run(I, lambda: I.getattr(P1, 'vertices'))
            a = kit.actual(act, GEO)
            for kind, sc in KIND:
                kit.judge(a, vertices(k, q, n), kind, dims={'nx': (n,)}, scales=sc, n=30)

        @ob('C03', 'radius, center' + pq, [PO + '.radius', PO + '.center'])
        def _(kit, k=k, q=q, n=n):
            def act(I):
                P1 = obj(I, k, q)
                return run(I, lambda: Tup([I.getattr(P1, 'radius'), I.getattr(P1, 'center')]))
            a = kit.actual(act)
            for kind, sc in KIND:
                kit.judge(a, ball(k, q, n), kind, dims={'nx': (n,)}, scales=sc if n - q < 2 else dict(sc, PA=('unit',)), n=30)

        for mode in ('minimal_facets', 'remove_redundant_inequalities'):
            if n == 3 or k > 3:
                continue

            @ob('C03', mode + pq, [PO + '.' + mode])
            def _(kit, k=k, q=q, n=n, mode=mode):
                def act(I):
                    I.unroll = 6
                    return method(I, obj(I, k, q), mode)
                kit.judge(kit.actual(act), facets(k, q, n, mode), dims={'nx': (n,)}, scales=SC, n=60)

for k, q, k2, q2, n in ((2, 0, 1, 0, 1), (2, 0, 2, 0, 2), (3, 0, 2, 0, 2), (2, 1, 1, 0, 2), (2, 0, 1, 1, 2), (2, 1, 2, 1, 2), (3, 0, 1, 0, 3)):
    @ob('C03', 'is_included_in m=%d p=%d, m=%d p=%d, n=%d' % (k, q, k2, q2, n), [PO + '.is_included_in'])
    def _(kit, k=k, q=q, k2=k2, q2=q2, n=n):
        def act(I):
            I.unroll = 6
            return method(I, obj(I, k, q), 'is_included_in', obj(I, k2, q2, 'Q'))
        kit.judge(kit.actual(act), inclusion(k, q, k2, q2, n), dims={'nx': (n,)}, scales=SC, n=60)


def projected(k, q, n):
    def f(pt, v):
        R = rows(*data(pt, k, q))
        if q or exact.empty(R, n) or not exact.bounded(R, n):
            return None if v == ('raise', 'ValueError') else 'no ValueError'
        return J.SKIP
    return f


def h_hull(I, fi, env):
    """The projection of a bounded set that is not empty (decided by C19)."""
    return Tup([I.new_arr(Mat.fn(('hullA',), (s, ONE))), I.new_arr(Mat.fn(('hullb',), (s,))), I.new_list([])])


for k, q, n in ((2, 0, 2), (3, 0, 2), (4, 0, 2), (2, 1, 2), (3, 0, 3)):
    @ob('C03', 'project_to m=%d p=%d n=%d' % (k, q, n), [PO + '.project_to'])
    def _(kit, k=k, q=q, n=n):
        a = kit.actual(lambda I: method(I, obj(I, k, q), 'project_to', I.new_list([One(ZERO)])), dict(GEO, **{'pympc.geometry.polyhedron.convex_hull_method': h_hull}))
        kit.judge(a, projected(k, q, n), dims={'nx': (n,)}, scales=SC, n=60)


@ob('C03', 'plot without vertices', [PO + '.plot'])
def _(kit):
    a = kit.actual(lambda I: method(I, poly(I, False, n=P(2)), 'plot'), {PO + '.vertices': lambda I, fi, env: NONE})
    e = kit.spec('def f():\n    return None\n', lambda I: ())
    kit.same(a, e, n=10)


# ------------------------------------------------------------------ critical regions
def interior(k, n, i):
    def f(pt, v):
        A, b, _, _ = data(pt, k, 0)
        facet = Arr((1, n), [A.m[i]]), Arr((1,), [b.m[i]])
        R = rows(A, b, *facet)
        if not any(A.m[i]) or exact.empty(R, n):
            return J.SKIP
        if v[0] == 'raise':
            return 'raises ' + v[1]
        x = [v[1]] if isinstance(v[1], F) else ([z[0] for z in v[1].m] if isinstance(v[1], Arr) else None)
        if x is None:
            return 'no point of a facet that is not empty'
        eps = F(1, 10 ** 6)
        for j, (row, y) in enumerate(zip(A.m, b.m)):
            s = sum((p * z for p, z in zip(row, x)), F(0)) - y[0]
            if s > eps or (j == i and s < -eps):
                return 'the point is not in the facet'
        return None
    return f


def signs(q, r, c):
    return [[F(q.choice((-2, -1, 1, 2))) for _ in range(c)] for _ in range(r)]


for k, n, i in ((2, 1, 0), (2, 1, 1), (1, 2, 0), (2, 2, 0), (2, 2, 1), (3, 2, 0)):
    @ob('C03', 'facet_center %d of %d, n=%d' % (i, k, n), [PP + 'CriticalRegion.facet_center'])
    def _(kit, k=k, n=n, i=i):
        def act(I):
            CR = new(I, PP + 'CriticalRegion', I.new_list([]), NONE, NONE, NONE, poly(I, False, mm=P(k), n=P(n))).val
            return method(I, CR, 'facet_center', P(i))
        kit.judge(kit.actual(act), interior(k, n, i), dims={'nx': (n,)}, scales=dict(SC, PA=('unit',) if n > 1 else signs, Pb=('upos', 'unit')), n=30)


@ob('C03', 'plot_state_space_partition with the active sets', [M1 + '.plot_state_space_partition'])
def _(kit):
    def act(I):
        c = ctl(I, 1)
        I.setattr(I.getattr(c, 'S'), 'nx', P(2))
        regs = [new(I, PP + 'CriticalRegion', I.new_list([]), NONE, NONE, NONE, poly(I, False, mm=P(k), n=P(2), pre=pre)).val for k, pre in ((1, 'P'), (3, 'Q'))]
        I.setattr(c, 'explicit_solution', new(I, E, I.new_list([One(r) for r in regs])).val)
        return method(I, c, 'plot_state_space_partition', Const(True))

    def quiet(pt, v):
        return 'raises ' + v[1] if v[0] == 'raise' else None
    kit.judge(kit.actual(act, dict(NOP, **{PO + '.plot': lambda I, fi, env: NONE})), quiet, dims={'nx': (2,)}, scales=SC, n=30)


SOLVE = '''
from pympc.optimization.programs import quadratic_program
def f(Huu, Hux, Hxx, fu, fx, g, Au, Ax, b, x):
    sol = quadratic_program(Huu, Hux.dot(x) + fu, Au, b - Ax.dot(x))
    if sol['min'] is None:
        return None, None, None
    return sol['min'] + .5*x.dot(Hxx).dot(x) + fx.dot(x) + g, sol['argmin'], sol['multiplier_inequality']
'''


@ob('C03', 'parametric program solved at a point', [Q + '.solve'])
def _(kit):
    a = kit.actual(lambda I: run(I, snippet(kit.prog, '''
def f(M, x):
    sol = M.solve(x)
    return sol['min'], sol['argmin'], sol['multiplier_inequality']
'''), mpqp(I), mat(I, 'x', nx)))
    e = kit.spec(SOLVE, lambda I: (mat(I, 'Huu', nu, nu), mat(I, 'Hux', nu, nx), mat(I, 'Hxx', nx, nx), mat(I, 'fu', nu), mat(I, 'fx', nx), mat(I, 'g'),
                                   mat(I, 'Au', m, nu), mat(I, 'Ax', m, nx), mat(I, 'b', m), mat(I, 'x', nx)))
    kit.same(a, e, n=150, dims=SMALL, scales=SPD)


# ------------------------------------------------------------------ solvers
def unsolved(fn, eq, forced):
    def f(pt, v):
        if v[0] == 'raise':
            return 'raises ' + v[1]
        d = v[1][1]
        sol = None if forced else B.solution(B.data(pt, fn, eq))
        if forced or sol == 'none':
            left = [k for k in B.KEYS[fn] if d.get(k) is not None]
            return 'the record of a program without solution holds a value for %s' % left[0] if left else None
        if sol is None:
            return J.SKIP
        gone = [k for k in B.KEYS[fn] if d.get(k) is None and not (k == 'multiplier_equality' and sol[k] in (None, []))]
        return 'the record of a solved program holds None for %s' % gone[0] if gone else None
    return f


for mod, fn in B.BACKENDS:
    for eq in (False, True):
        @ob('C03', 'record of %s.%s%s' % (mod, fn, ' with equalities' if eq else ''), [B.SV + mod + '.' + fn])
        def _(kit, mod=mod, fn=fn, eq=eq):
            a = B.outcome(kit, mod, fn, eq)
            kit.judge(a, unsolved(fn, eq, False), 'solvable and unsolvable programs', dims=B.DIMS, scales=B.SC, n=60)
            if mod != 'pnnls':
                kit.judge(a, unsolved(fn, eq, True), 'no optimum', dims=B.DIMS, scales=dict(B.SC, **{'?status': STATUS}), n=20)
