"""Exact linear programs over the rationals, used to interpret the terms empty(S), unbdir(f, S), optmin, optarg at a point.

A set is given by its canonical region (point.Point.region): rows ('ge0', c0, c1..cn) meaning c0 + c.x >= 0.
"""
from fractions import Fraction as F


class NotLinear(Exception):
    pass


def rows_of(R, n=None):
    """Rows (c0, c) of a conjunctive region; None when it is the empty set."""
    if R is True:
        return []
    if R is False:
        return None
    if not isinstance(R, tuple):
        raise NotLinear(str(R)[:60])
    if R[0] == 'and':
        out = []
        for x in R[1]:
            y = rows_of(x)
            if y is None:
                return None
            out += y
        return sorted(out)
    if R[0] == 'ge0':
        return [(R[1], tuple(R[2:]))]
    if R[0] == 'req':
        return [(R[1], tuple(R[2:])), (-R[1], tuple(-x for x in R[2:]))]
    raise NotLinear(str(R[0]))


def solve(f, rows):
    """min f.x over c0 + c.x >= 0, x free: ('opt', value, x), ('empty',) or ('unb', x)."""
    n = len(f)
    if rows is None:
        return ('empty',)
    m = len(rows)
    # variables: x+ (n), x- (n), slack (m), artificial (k)
    T, basis, art = [], [], []
    nv = 2 * n + m
    need = [i for i in range(m) if rows[i][0] < 0]
    for i, (c0, c) in enumerate(rows):
        c = list(c) + [F(0)] * (n - len(c))
        # c.x - s = -c0   <=>  -c.x + s = c0
        r = [-x for x in c] + [x for x in c] + [F(int(j == i)) for j in range(m)]
        rhs = c0
        if c0 < 0:
            r = [-x for x in r]
            rhs = -c0
        r += [F(int(c0 < 0 and need.index(i) == j)) if c0 < 0 else F(0) for j in range(len(need))] + [rhs]
        T.append(r)
        basis.append(nv + need.index(i) if c0 < 0 else 2 * n + i)
    tot = nv + len(need)

    def run(cost, allowed):
        z = list(cost) + [F(0)]
        for i, b in enumerate(basis):
            if z[b]:
                k = z[b]
                z = [a - k * t for a, t in zip(z, T[i])]
        it = 0
        while True:
            it += 1
            if it > 3000:
                raise NotLinear('simplex')
            e = next((j for j in range(allowed) if z[j] < 0), None)
            if e is None:
                return -z[-1]
            best = None
            for i in range(m):
                if T[i][e] > 0:
                    q = (T[i][-1] / T[i][e], basis[i], i)
                    if best is None or q < best:
                        best = q
            if best is None:
                return None
            i = best[2]
            p = T[i][e]
            T[i] = [x / p for x in T[i]]
            for j in range(m):
                if j != i and T[j][e]:
                    k = T[j][e]
                    T[j] = [a - k * t for a, t in zip(T[j], T[i])]
            k = z[e]
            z = [a - k * t for a, t in zip(z, T[i])]
            basis[i] = e

    if need:
        v = run([F(0)] * nv + [F(1)] * len(need), tot)
        if v > 0:
            return ('empty',)
        for i in range(m):
            if basis[i] >= nv:
                e = next((j for j in range(nv) if T[i][j]), None)
                if e is None:
                    continue
                p = T[i][e]
                T[i] = [x / p for x in T[i]]
                for j in range(m):
                    if j != i and T[j][e]:
                        k = T[j][e]
                        T[j] = [a - k * t for a, t in zip(T[j], T[i])]
                basis[i] = e
    v = run([F(x) for x in f] + [-F(x) for x in f] + [F(0)] * (m + len(need)), nv)
    val = [F(0)] * (tot + 1)
    for i, b in enumerate(basis):
        val[b] = T[i][-1]
    x = [val[j] - val[n + j] for j in range(n)]
    if v is None:
        return ('unb', x)
    return ('opt', v, x)


def empty(rows, n):
    return solve([F(0)] * n, rows)[0] == 'empty'


def unbdir(f, rows):
    """A recession direction of the rows decreases f."""
    n = len(f)
    return solve(f, [(F(0), c) for _, c in rows])[0] == 'unb'


def bounded(rows, n):
    if rows is None or empty(rows, n):
        return True
    for j in range(n):
        for s in (1, -1):
            if unbdir([F(s * int(i == j)) for i in range(n)], rows):
                return False
    return True


def implies(rows, r):
    """c0 + c.x >= 0 for every x of the set."""
    z = solve(list(r[1]), rows)
    return z[0] == 'empty' or (z[0] == 'opt' and z[1] + r[0] >= 0)


def subset(a, b):
    """{a} in {b}."""
    if a is None:
        return True
    if b is None:
        n = len(a[0][1]) if a else 0
        return empty(a, n)
    return all(implies(a, r) for r in b)


def linsolve(M, y):
    """Unique solution of a square system, or None."""
    n = len(M)
    T = [list(r) + [v] for r, v in zip(M, y)]
    for i in range(n):
        p = next((k for k in range(i, n) if T[k][i]), None)
        if p is None:
            return None
        T[i], T[p] = T[p], T[i]
        k = T[i][i]
        T[i] = [x / k for x in T[i]]
        for j in range(n):
            if j != i and T[j][i]:
                k = T[j][i]
                T[j] = [a - k * b for a, b in zip(T[j], T[i])]
    return [r[-1] for r in T]


def vertices(rows, n, eqs=(), tol=F(1, 10 ** 15)):
    """Vertices of c0 + c.x >= 0 with the rows of eqs tight."""
    from itertools import combinations
    out = []
    for S in combinations(range(len(rows)), n - len(eqs)):
        R = [rows[i] for i in S] + list(eqs)
        x = linsolve([list(c) for _, c in R], [-c0 for c0, _ in R])
        if x is None or any(c0 + sum(a * b for a, b in zip(c, x)) < -tol for c0, c in rows):
            continue
        if not any(max(abs(a - b) for a, b in zip(x, y)) < F(1, 10 ** 9) for y in out):
            out.append(x)
    return sorted(out)


# ---------------------------------------------------------------- quadratic and mixed-integer programs
def posdef(Q):
    M = [list(r) for r in Q]
    n = len(M)
    for i in range(n):
        if M[i][i] <= 0:
            return False
        for r in range(i + 1, n):
            k = M[r][i] / M[i][i]
            M[r] = [a - k * b for a, b in zip(M[r], M[i])]
    return True


def dual(g, rows, eqs, act):
    """Multipliers (one per row, one per equality) with g = sum lam_i c_i + sum nu_j e_j, lam >= 0 on the rows act."""
    from itertools import combinations
    n = len(g)
    for k in range(len(act) + 1):
        for S in combinations(act, k):
            cols = [rows[i][1] for i in S] + [e[1] for e in eqs]
            z = solve_cols(cols, g)
            if z is not None and all(x >= 0 for x in z[:k]):
                lam = [F(0)] * len(rows)
                for i, x in zip(S, z):
                    lam[i] = x
                return lam, z[k:]
    return None


def solve_cols(cols, g):
    """One solution z of sum z_i cols_i = g (free ones zero), or None."""
    n, k = len(g), len(cols)
    M = [[cols[j][i] for j in range(k)] + [g[i]] for i in range(n)]
    piv, r = [], 0
    for c in range(k):
        q = next((i for i in range(r, n) if M[i][c]), None)
        if q is None:
            continue
        M[r], M[q] = M[q], M[r]
        f = M[r][c]
        M[r] = [x / f for x in M[r]]
        for i in range(n):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    if any(M[i][-1] for i in range(r, n)):
        return None
    z = [F(0)] * k
    for i, c in enumerate(piv):
        z[c] = M[i][-1]
    return z


def program(Q, q, rows, eqs):
    """min 1/2 x'Qx + q'x over rows (c0 + c.x >= 0) and eqs (c0 + c.x = 0).

    ('opt', value, x, lam, nu) with Qx + q = sum lam c + sum nu e; ('empty',); ('unb',)."""
    from itertools import combinations
    n = len(q)
    both = list(rows) + list(eqs) + [(-c0, tuple(-x for x in c)) for c0, c in eqs]
    if not any(x for r in Q for x in r):
        z = solve(q, both)
        if z[0] != 'opt':
            return ('empty',) if z[0] == 'empty' else ('unb',)
        x = z[2]
        act = [i for i, (c0, c) in enumerate(rows) if c0 + sum(a * b for a, b in zip(c, x)) == 0]
        d = dual(q, rows, eqs, act)
        return ('opt', z[1], x) + d
    if empty(both, n):
        return ('empty',)
    if not posdef(Q):
        return ('unb',)
    for k in range(min(n, len(rows)) + 1):
        for S in combinations(range(len(rows)), k):
            cs = [rows[i] for i in S] + list(eqs)
            # Q x - C' z = -q ; C x = -c0
            cols = [[Q[i][j] for i in range(n)] + [c[j] for _, c in cs] for j in range(n)] + \
                   [[-c[i] for i in range(n)] + [F(0)] * len(cs) for _, c in cs]
            z = solve_cols(cols, [-x for x in q] + [-c0 for c0, _ in cs])
            if z is None:
                continue
            x, lam = z[:n], z[n:n + k]
            if any(y < 0 for y in lam) or any(c0 + sum(a * b for a, b in zip(c, x)) < 0 for c0, c in rows):
                continue
            full = [F(0)] * len(rows)
            for i, y in zip(S, lam):
                full[i] = y
            val = sum(x[i] * Q[i][j] * x[j] for i in range(n) for j in range(n)) / 2 + sum(a * b for a, b in zip(q, x))
            return ('opt', val, x, full, z[n + k:])
    raise NotLinear('no optimum found')


def mixed(Q, q, rows, eqs, bins):
    if not bins:
        return program(Q, q, rows, eqs)
    from itertools import product
    best = None
    n = len(q)
    for v in product((0, 1), repeat=len(bins)):
        fix = [(F(-x), tuple(F(int(i == j)) for i in range(n))) for j, x in zip(bins, v)]
        z = program(Q, q, rows, list(eqs) + fix)
        if z[0] == 'unb':
            return z
        if z[0] == 'opt' and (best is None or z[1] < best[1]):
            best = z
    return best or ('empty',)


def cholesky(H, sqrt):
    n = len(H)
    L = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            t = H[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if t <= 0:
                    raise NotLinear('not positive definite')
                L[i][i] = sqrt(t)
            else:
                L[i][j] = t / L[j][j]
    return L


def nnls(A, b, n):
    """Lawson and Hanson: x >= 0 that minimizes |A x - b|, and the squared residual."""
    m = len(b)
    eps = F(1, 10 ** 15)
    x, S = [F(0)] * n, []
    col = [[A[i][j] for i in range(m)] for j in range(n)]
    res = lambda y: [b[i] - sum(A[i][j] * y[j] for j in range(n) if y[j]) for i in range(m)]
    for _ in range(200):
        r = res(x)
        w = [(sum(a * c for a, c in zip(col[j], r)), -j) for j in range(n) if j not in S]
        if not w or max(w)[0] <= eps:
            return x, sum(a * a for a in r)
        S.append(-max(w)[1])
        while S:
            G = [[sum(a * c for a, c in zip(col[i], col[j])) for i in S] for j in S]
            z = solve_cols(G, [sum(a * c for a, c in zip(col[j], b)) for j in S])
            if z is None:
                raise NotLinear('nnls')
            if min(z) > 0:
                x = [F(0)] * n
                for j, y in zip(S, z):
                    x[j] = y
                break
            al = min(x[j] / (x[j] - y) for j, y in zip(S, z) if y <= 0 and x[j] != y) if any(x[j] != y for j, y in zip(S, z) if y <= 0) else F(0)
            s = dict(zip(S, z))
            x = [v + al * (s[j] - v) if j in s else v for j, v in enumerate(x)]
            S = [j for j in S if x[j] > 0]
    raise NotLinear('nnls')
