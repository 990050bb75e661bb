"""Shared by C04 and C17: the outcome of a backend on every program, and the exact solution of the given program."""
from pa.check import *
from pa import exact
from pa.point import F, Arr, rref

SV = 'pympc.optimization.solvers.'
KEYS = {'linear_program': ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality'),
        'quadratic_program': ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality'),
        'mixed_integer_quadratic_program': ('min', 'argmin')}
BACKENDS = [('gurobi', f) for f in KEYS] + [('drake', f) for f in KEYS] + [('pnnls', f) for f in list(KEYS)[:2]]


def spd(q, r, c):
    L = [[F(q.randint(-2, 2), q.choice((1, 2))) if j < i else (F(q.randint(1, 3)) if i == j else F(0)) for j in range(c)] for i in range(r)]
    return [[sum(L[i][k] * L[j][k] for k in range(c)) for j in range(c)] for i in range(r)]


SC = {'?exact': 1, 'H': spd, 'A': ('mix', 'mix', 'unit'), 'b': ('mix', 'mix', 'pos', 'pos', 'unit'), 'C': ('mix', 'unit'),
      'd': ('mix', 'unit', 'zero'), 'f': ('mix', 'mix', 'unit')}
DIMS = {'nx': (1, 2, 2, 3), 'm': (1, 2, 3, 4), 'p': (0, 1, 1, 2), 'nc': (0, 1, 1, 2)}


def names(fn, eq):
    return (['nc'] if fn.startswith('mixed') else []) + (['H'] if not fn.startswith('linear') else []) + ['f', 'A', 'b'] + \
        (['C', 'd'] if eq else [])


def outcome(kit, mod, fn, eq):
    def act(I):
        a = {'nc': dim('nc', 0), 'H': mat(I, 'H', nx, nx), 'f': mat(I, 'f', nx), 'A': mat(I, 'A', m, nx), 'b': mat(I, 'b', m),
             'C': mat(I, 'C', p, nx), 'd': mat(I, 'd', p)}
        I.hide = ()
        return run(I, kit.need(SV + mod + '.' + fn), *[a[x] for x in names(fn, eq)])
    CTX.low[('dim', 'p')] = CTX.low[('dim', 'nc')] = 0
    return kit.actual(act, {k: None for k in ()})


def data(pt, fn, eq):
    val = lambda n, *s: pt.mat(Mat.atom(n, s), {})
    n = pt.int(nx, {})
    z = {'n': n, 'f': [x[0] for x in val('f', nx).m], 'A': val('A', m, nx), 'b': val('b', m)}
    z['H'] = [[F(0)] * n for _ in range(n)] if fn.startswith('linear') else val('H', nx, nx).m
    z['C'], z['d'] = (val('C', p, nx), val('d', p)) if eq else (None, None)
    z['mip'] = fn.startswith('mixed')
    z['nc'] = pt.int(dim('nc', 0), {}) if fn.startswith('mixed') else n
    return z


def solution(z):
    """Exact record of the program, 'none', or None when it is degenerate."""
    n = z['n']
    rows = [(b[0], tuple(-x for x in a)) for a, b in zip(z['A'].m, z['b'].m)]
    eqs = [(-d[0], tuple(c)) for c, d in zip(z['C'].m, z['d'].m)] if z['C'] is not None else []
    bins = list(range(z['nc'], n))
    mip = z['mip']
    if z['nc'] > n:
        return None
    if len(rref([list(c) for _, c in eqs], n)[1]) < len(eqs):
        return None
    s = exact.mixed(z['H'], z['f'], rows, eqs, bins)
    if s[0] != 'opt':
        return 'none'
    x = s[2]
    if mip:
        from itertools import product
        vals = []
        for v in product((0, 1), repeat=len(bins)):
            fix = [(F(-y), tuple(F(int(i == j)) for i in range(n))) for j, y in zip(bins, v)]
            t = exact.program(z['H'], z['f'], rows, eqs + fix)
            vals += [t[1]] if t[0] == 'opt' else []
        if sorted(vals)[1:2] == [s[1]]:
            return None
        return {'min': s[1], 'argmin': x}
    act = [i for i, (c0, c) in enumerate(rows) if c0 + sum(a * b for a, b in zip(c, x)) == 0]
    G = [list(rows[i][1]) for i in act] + [list(c) for _, c in eqs]
    if len(rref(G, n)[1]) < len(G) or any(s[3][i] == 0 for i in act):
        return None
    if not any(y for r in z['H'] for y in r) and len(G) < n:
        return None
    return {'min': s[1], 'argmin': x, 'active_set': act, 'multiplier_inequality': s[3],
            'multiplier_equality': [-y for y in s[4]] if eqs else None}


def vec(v):
    if isinstance(v, Arr):
        return [x for r in v.m for x in r]
    if isinstance(v, tuple) and v[0] in ('list', 'tup'):
        return list(v[2])
    return v if not isinstance(v, Fraction) else [v]


from fractions import Fraction


def close(a, b):
    return len(a) == len(b) and all(isinstance(x, Fraction) and abs(x - y) <= F(1, 10 ** 9) * (1 + abs(y)) for x, y in zip(a, b))


def same_record(d, e):
    for k, w in e.items():
        v = d.get(k)
        if w is None or v is None:
            if not (w is None and v is None):
                return '%s is %s' % (k, 'missing' if v is None else 'not None')
            continue
        v, w = vec(v), vec(w) if not isinstance(w, list) else w
        if not isinstance(v, list) or not close(v, [F(x) for x in w]):
            return 'the record does not hold the %s of the given program' % k
    return None
