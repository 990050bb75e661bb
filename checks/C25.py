"""C25: emptiness and boundedness are decided."""
from checks.sets import *

WANT = {'empty': lambda R, n: exact.empty(R, n), 'bounded': lambda R, n: exact.bounded(R, n)}


def oracle(k, q, n, what):
    def f(pt, v):
        R = rows(*data(pt, k, q))
        want = WANT[what](R, n)
        if v[0] == 'raise':
            return 'raises ' + v[1]
        if not isinstance(v[1], bool):
            return 'not a truth value'
        if v[1] != want:
            return '%s set reported %s' % (('an empty' if want else 'a nonempty') if what == 'empty' else ('a bounded' if want else 'an unbounded'),
                                           ('empty' if v[1] else 'not empty') if what == 'empty' else ('bounded' if v[1] else 'unbounded'))
        return None
    return f


for eqs in (False, True):
    for k, q, n in sizes(eqs):
        for what in ('empty', 'bounded'):
            @ob('C25', '%s m=%d p=%d n=%d' % (what, k, q, n), [PO + '.' + what])
            def _(kit, k=k, q=q, n=n, what=what):
                def act(I):
                    P1 = obj(I, k, q)
                    return run(I, lambda: I.getattr(P1, what))
                a = kit.actual(act)
                for kind, sc in (('sets of any kind', SC), ('sets around the origin', dict(SC, PA=around, Pb=('upos', 'upos', 'unit')))):
                    kit.judge(a, oracle(k, q, n, what), kind, dims={'nx': (n,)}, scales=sc, n=40)
