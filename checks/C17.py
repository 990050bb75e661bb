"""C17: solver backends pose exactly the given program."""
from pa.check import *
from checks.backends import *


def oracle(fn, eq):
    def f(pt, v):
        z = data(pt, fn, eq)
        e = solution(z)
        if e is None:
            return J.SKIP
        if v[0] == 'raise':
            return 'raises %s for a well-formed program' % v[1]
        if not (isinstance(v[1], tuple) and v[1][0] == 'dict'):
            return 'no record'
        if e == 'none':
            return None if v[1][1].get('argmin') is None and v[1][1].get('min') is None else 'a solution of a program that has none'
        return same_record(v[1][1], e)
    return f


for mod, fn in BACKENDS:
    for eq in (False, True):
        @ob('C17', '%s.%s%s' % (mod, fn, ' with equalities' if eq else ''), [SV + mod + '.' + fn])
        def _(kit, mod=mod, fn=fn, eq=eq):
            kit.judge(outcome(kit, mod, fn, eq), oracle(fn, eq), dims=DIMS, scales=SC, n=120)
