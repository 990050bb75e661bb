"""Shared by C03, C05 and C25: polyhedra of every kind (empty, unbounded, flat, full dimensional) and exact decisions on them."""
from pa.check import *
from pa import exact
from pa.point import F, Arr, rref
from checks.C21 import rows, independent

SC = {'?exact': 1, '?ortho': 1, 'PA': ('unit', 'unit', 'mix'), 'Pb': ('unit', 'upos', 'mix', 'mix'), 'PC': ('unit', 'mix'), 'Pd': ('zero', 'unit', 'mix'),
      'QA': ('unit', 'unit', 'mix'), 'Qb': ('unit', 'upos', 'mix', 'upos'), 'QC': ('unit', 'mix'), 'Qd': ('zero', 'unit', 'mix')}


def data(pt, k, q, pre='P'):
    val = lambda n, *s: pt.mat(Mat.atom(pre + n, s), {})
    A, b = val('A', P(k), nx), val('b', P(k))
    return (A, b, val('C', P(q), nx), val('d', P(q))) if q else (A, b, None, None)


def around(q, r, c):
    """Rows around the origin, or missing a direction, or of any kind."""
    base = [[F(int(i == j)) * s for j in range(c)] for i in range(c) for s in (1, -1)]
    if r == c + 1:
        base = [[F(-int(i == j)) for j in range(c)] for i in range(c)] + [[F(1)] * c]
    q.shuffle(base)
    odd = q.random() < .3
    M = [list(base[i % len(base)]) if not (odd and q.random() < .3) else [F(q.randint(-1, 1)) for _ in range(c)] for i in range(r)]
    return [[x * k for x in row] for row in M for k in (q.choice((1, 1, 2)),)]


def sizes(eqs):
    for k, q, n in ((1, 0, 1), (2, 0, 1), (3, 0, 1), (2, 0, 2), (3, 0, 2), (4, 0, 2), (1, 1, 2), (2, 1, 2), (3, 1, 2), (2, 2, 2), (4, 0, 3), (2, 1, 3), (3, 1, 3), (3, 2, 3)):
        if bool(q) == eqs:
            yield k, q, n


def obj(I, k, q, pre='P'):
    return poly(I, bool(q), mm=P(k), pp=P(max(q, 1)), pre=pre)
