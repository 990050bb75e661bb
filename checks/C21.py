"""C21: only redundant inequalities are removed."""
from pa.check import *
from pa import exact
from pa.point import F, Arr

MF = PO + '.minimal_facets'
RM = PO + '.remove_redundant_inequalities'
SC = {'?exact': 1, 'PA': ('unit', 'unit', 'mix'), 'Pb': ('upos', 'upos', 'unit', 'mix', 'far'), 'PC': ('unit', 'mix'), 'Pd': ('zero', 'unit')}


def rows(A, b, C=None, d=None):
    out = [(y[0], tuple(-x for x in r)) for r, y in zip(A.m, b.m)]
    for s in (1, -1):
        if C is not None:
            out += [(s * y[0], tuple(-s * x for x in r)) for r, y in zip(C.m, d.m)]
    return out


def data(pt, k, eq, n):
    A, b = pt.mat(Mat.atom('PA', (P(k), nx)), {}), pt.mat(Mat.atom('Pb', (P(k),)), {})
    if not eq:
        return A, b, None, None
    return A, b, pt.mat(Mat.atom('PC', (P(eq), nx)), {}), pt.mat(Mat.atom('Pd', (P(eq),)), {})


def sub(A, idx):
    return Arr((len(idx),) + A.shape[1:], [A.m[i] for i in idx])


def check_set(A, b, C, d, idx):
    """idx describes the same set with no redundant inequality."""
    full, kept = rows(A, b, C, d), rows(sub(A, idx), sub(b, idx), C, d)
    if not exact.subset(kept, full):
        return 'an inequality that the kept ones do not imply is dropped'
    eqs = rows(sub(A, []), sub(b, []), C, d)
    for i in idx:
        if not exact.implies(eqs, (b.m[i][0], tuple(-x for x in A.m[i]))):
            rest = [j for j in idx if j != i]
            if exact.implies(rows(sub(A, rest), sub(b, rest), C, d), (b.m[i][0], tuple(-x for x in A.m[i]))):
                return 'a redundant inequality is kept'
        else:
            return 'a redundant inequality is kept'
    return None


def scene(k, eq, n, run1):
    def oracle(pt, v):
        A, b, C, d = data(pt, k, eq, n)
        if eq and not independent(C):
            return J.SKIP
        if exact.empty(rows(A, b, C, d), n):
            return run1(True, A, b, C, d, v)
        return run1(False, A, b, C, d, v)
    return oracle


def independent(C):
    from pa.point import rref
    return len(rref(C.m, C.shape[1])[1]) == C.shape[0] if C.shape[0] else True


def facets(is_empty, A, b, C, d, v):
    if v[0] == 'raise':
        return 'raises ' + v[1]
    if is_empty:
        return None if v[1] is None else 'facets of an empty set'
    if v[1] is None:
        return 'None for a set that is not empty'
    if not (isinstance(v[1], tuple) and v[1][0] == 'list'):
        return J.SKIP
    idx = [int(x) for x in v[1][2]]
    if len(set(idx)) != len(idx) or not all(0 <= x < A.shape[0] for x in idx):
        return 'not a list of distinct rows'
    return check_set(A, b, C, d, idx)


def removed(is_empty, A, b, C, d, v):
    if is_empty:
        return None if v == ('raise', 'ValueError') else 'no ValueError for an empty set'
    if v[0] == 'raise':
        return 'raises ' + v[1]
    f = v[1][2]
    A2, b2 = f['A'], f['b']
    if A2.shape[0] != b2.shape[0]:
        return 'sizes of A and b differ'
    if C is not None and (f['C'].m != C.m or f['d'].m != d.m) or C is None and f['C'].shape[0]:
        return 'the equalities change'
    idx, left = [], list(range(A.shape[0]))
    for r, y in zip(A2.m, b2.m):
        i = next((i for i in left if A.m[i] == r and b.m[i] == y), None)
        if i is None:
            return 'a row that is not one of the given inequalities'
        left.remove(i)
        idx.append(i)
    return check_set(A, b, C, d, idx)


for k in (1, 2, 3, 4):
    for eq in (0, 1, 2):
        for n in (1, 2, 3):
            if eq >= n or k > 3 and (n == 1 or eq != n - 2):
                continue

            @ob('C21', 'minimal_facets m=%d p=%d n=%d' % (k, eq, n), [MF])
            def _(kit, k=k, eq=eq, n=n):
                def act(I):
                    I.unroll = 6
                    return method(I, poly(I, bool(eq), mm=P(k), pp=P(max(eq, 1))), 'minimal_facets')
                kit.judge(kit.actual(act), scene(k, eq, n, facets), dims={'nx': (n,)}, scales=SC, n=150)

            @ob('C21', 'remove_redundant_inequalities m=%d p=%d n=%d' % (k, eq, n), [RM])
            def _(kit, k=k, eq=eq, n=n):
                def act(I):
                    I.unroll = 6
                    P1 = poly(I, bool(eq), mm=P(k), pp=P(max(eq, 1)))
                    r = method(I, P1, 'remove_redundant_inequalities')
                    return r if r.dead else Result(I, P1, r.st, r.raises, False)
                kit.judge(kit.actual(act), scene(k, eq, n, removed), dims={'nx': (n,)}, scales=SC, n=150)
