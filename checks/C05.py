"""C05: equality constraints are never silently dropped: every operation on sets with equalities uses or rejects them."""
from checks.sets import *
import checks.C09, checks.C10, checks.C13, checks.C14, checks.C18, checks.C19, checks.C21, checks.C25, checks.C03
from checks.C03 import GEO, h_hull, full_rank

import re

NOEQ = {'p': (0,), 'q': (0,), '=pi': (0,)}
eqn = lambda n: ' p=1' in n or ' p=2' in n
self_ = lambda n: [(n, NOEQ)]                                     # the same case without equalities
plain = lambda n: [(re.sub(' p=[12] ', ' p=0 ', n), None)]
again('C05', 'C09', lambda n: n in ('Polyhedron(A,b,C,d)', 'intersection', 'cartesian_product', 'normalize'), control=self_)
again('C05', 'C09', lambda n: n in ('add_equality', 'add_equality indices', 'from_symbolic equalities', 'add_symbolic_equality'))
again('C05', 'C10', lambda n: n.startswith('contains equalities'), control=lambda n: [(n.replace(' equalities', ''), None)])
again('C05', 'C10', lambda n: n.startswith('is_included_in') and ' 00' not in n, control=lambda n: [(re.sub(' (11|10|01)', ' 00', n), None)])
again('C05', 'C10', lambda n: n.startswith('get_mode') or n.startswith('is_well_posed'), control=self_)
again('C05', 'C13', lambda n: True, control=self_)
again('C05', 'C14', lambda n: n in ('constraints, 1 modes, horizon 1, equalities', 'constraints, 1 modes, horizon 2, equalities', 'constraints, 2 modes, horizon 1, equalities'), control=self_)
again('C05', 'C18', lambda n: n.endswith('equalities'), control=lambda n: [(n.replace(' equalities', ''), None)])
for c in ('C19', 'C21', 'C25'):
    again('C05', c, eqn, control=plain)


# ------------------------------------------------------------------ all the equalities at once


@ob('C05', 'removed equalities describe the same set', [PO + '.radius', PO + '.vertices'])
def _(kit):
    """radius and center of a set with two equalities in three dimensions."""
    def act(I):
        P1 = obj(I, 2, 2)
        return run(I, lambda: Tup([I.getattr(P1, 'radius'), I.getattr(P1, 'center')]))
    from checks.C19 import cheb
    kit.judge(kit.actual(act), cheb(2, 2, 3), dims={'nx': (3,)}, scales=SC, n=40)


def rejected(k, q, n):
    def f(pt, v):
        return None if v == ('raise', 'ValueError') else 'the equalities of the projected set are dropped'
    return f


for k, q, n in ((4, 1, 2), (4, 1, 3)):
    @ob('C05', 'project_to m=%d p=%d n=%d' % (k, q, n), [PO + '.project_to'])
    def _(kit, k=k, q=q, n=n):
        a = kit.actual(lambda I: method(I, obj(I, k, q), 'project_to', I.new_list([One(ZERO)])),
                       dict(GEO, **{'pympc.geometry.polyhedron.convex_hull_method': h_hull}))
        kit.judge(a, rejected(k, q, n), dims={'nx': (n,)}, scales=dict(SC, PA=around, Pb=('upos',)), n=40)
