"""C04: every solver returns the same, well-formed solution record."""
from pa.check import *
from checks.backends import *


def oracle(fn, eq, forced):
    def f(pt, v):
        if v[0] == 'raise':
            return J.SKIP          # which data are rejected is decided by C07
        if not (isinstance(v[1], tuple) and v[1][0] == 'dict'):
            return 'no record'
        d = v[1][1]
        if set(d) != set(KEYS[fn]):
            return 'keys %s' % sorted(map(str, d))
        z = data(pt, fn, eq)
        e = solution(z)
        if e is None and not forced:
            return J.SKIP
        none = {k for k in d if d[k] is None}
        if forced or e == 'none':
            return None if none == set(d) else 'entries %s hold a value though no optimum was found' % sorted(set(d) - none)
        want = {k for k in e if e[k] is None}
        if none != want:
            return 'entries %s of a solved program are None' % sorted(none ^ want)
        for k in ('argmin', 'multiplier_inequality', 'multiplier_equality'):
            n = {'argmin': z['n'], 'multiplier_inequality': z['A'].shape[0], 'multiplier_equality': z['C'].shape[0] if eq else 0}[k]
            if k in d and d[k] is not None and (not isinstance(d[k], Arr) or d[k].shape != (n,)):
                return '%s is not a vector of size %d' % (k, n)
        a = d.get('active_set')
        if a is not None and not (isinstance(a, tuple) and a[0] == 'list'):
            return 'active_set is not a list'
        if not isinstance(d['min'], Fraction):
            return 'min is not a number'
        return None
    return f


STATUS = [(3, -2), (4, -5), (5, -3), (9, -6), (11, -4), (12, -4), (13, -1)]
for mod, fn in BACKENDS:
    for eq in (False, True):
        @ob('C04', '%s.%s%s' % (mod, fn, ' with equalities' if eq else ''), [SV + mod + '.' + fn])
        def _(kit, mod=mod, fn=fn, eq=eq):
            a = outcome(kit, mod, fn, eq)
            kit.judge(a, oracle(fn, eq, False), 'record of a solved or unsolvable program', dims=DIMS, scales=SC, n=100)
            if mod != 'pnnls':
                kit.judge(a, oracle(fn, eq, True), 'record when the solver stops without an optimum', dims=DIMS, scales=dict(SC, **{'?status': STATUS}), n=50)

        @ob('C04', 'dispatch of %s.%s%s' % (mod, fn, ' with equalities' if eq else ''), [PR + fn])
        def _(kit, mod=mod, fn=fn, eq=eq):
            def act(I):
                a = {'nc': dim('nc', 0), 'H': mat(I, 'H', nx, nx), 'f': mat(I, 'f', nx), 'A': mat(I, 'A', m, nx), 'b': mat(I, 'b', m),
                     'C': mat(I, 'C', p, nx), 'd': mat(I, 'd', p)}
                return run(I, kit.need(PR + fn), *[a[x] for x in names(fn, eq)], solver=Const(mod))
            CTX.low[('dim', 'p')] = 0
            I = Interp(kit.prog, {})
            I.kit = kit
            r = act(I)
            o = Outcome(I, r)
            kit.note(I)
            kit.judge(o, oracle(fn, eq, False), 'record through the dispatcher', dims=DIMS, scales=SC, n=60)
