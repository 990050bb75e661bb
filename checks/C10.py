"""C10: membership and inclusion tests examine every constraint."""
from pa.check import *

KW = dict(dims=SMALL, n=400)

CONT = '''
import numpy as np
def f(A, b, C, d, x, tol=1.e-7):
    for i in range(A.shape[0]):
        if A[i].dot(x) - b[i] > tol:
            return False
    for i in range(C.shape[0]):
        if C[i].dot(x) - d[i] > tol or d[i] - C[i].dot(x) > tol:
            return False
    return True
'''
SC = {'tol': ('pos', 'tiny')}


def pargs(I, eq=True):
    z = (mat(I, 'PA', m, nx), mat(I, 'Pb', m))
    return z + (mat(I, 'PC', p, nx), mat(I, 'Pd', p)) if eq else z + (run_zero(I, nx))


def run_zero(I, n):
    return (I.new_arr(Mat.zeros((ZERO, n))), I.new_arr(Mat.zeros((ZERO,))))


for eq in (True, False):
    for tol in (True, False):
        @ob('C10', 'contains%s%s' % (' equalities' if eq else '', ' tol' if tol else ''), [PO + '.contains'])
        def _(k, eq=eq, tol=tol):
            t = (scalar('tol'),) if tol else ()
            a = k.actual(lambda I: method(I, poly(I, eq), 'contains', mat(I, 'x', nx), *t))
            e = k.spec(CONT, lambda I: pargs(I, eq) + (mat(I, 'x', nx),) + t)
            k.same(a, e, scales=SC, **KW)

INCL = '''
import numpy as np
from pympc.optimization.programs import linear_program
def f(P1, P2, tol=1.e-7):
    if P1.empty:
        return True
    for i in range(P2.A.shape[0]):
        sol = linear_program(-P2.A[i], P1.A, P1.b, P1.C, P1.d)
        if sol['min'] is None or -sol['min'] - P2.b[i] > tol:
            return False
    for i in range(P2.C.shape[0]):
        sol = linear_program(-P2.C[i], P1.A, P1.b, P1.C, P1.d)
        if sol['min'] is None or -sol['min'] - P2.d[i] > tol:
            return False
        sol = linear_program(P2.C[i], P1.A, P1.b, P1.C, P1.d)
        if sol['min'] is None or -sol['min'] + P2.d[i] > tol:
            return False
    return True
'''
for tol in (False, True):
    for eq1 in (True, False):
        for eq2 in (True, False):
            @ob('C10', 'is_included_in %d%d%s' % (eq1, eq2, ' tol' if tol else ''), [PO + '.is_included_in'])
            def _(k, tol=tol, eq1=eq1, eq2=eq2):
                t = (scalar('tol'),) if tol else ()
                two = lambda I: (poly(I, eq1), poly(I, eq2, pre='Q', mm=s, pp=q))
                a = k.actual(lambda I: (lambda z: method(I, z[0], 'is_included_in', z[1], *t))(two(I)), opaque=geo_handlers())
                e = k.spec(INCL, lambda I: two(I) + t, opaque=geo_handlers())
                k.same(a, e, scales=SC, **KW)

WELL = '''
def f(S, tol=1.e-7):
    n = len(S.domains)
    for i in range(n):
        for j in range(i + 1, n):
            D = S.domains[i].intersection(S.domains[j])
            if D.radius is None:
                if not D.empty:
                    return False
            elif D.radius > tol:
                return False
    return True
'''
MODE = '''
import numpy as np
def f(S, x, u):
    z = np.concatenate((x, u))
    for i in range(len(S.domains)):
        if S.domains[i].contains(z):
            return i
    return None
'''
for S in (1, 2, 3):
    for tol in (False, True):
        @ob('C10', 'is_well_posed %d modes%s' % (S, ' tol' if tol else ''), [DS + 'PieceWiseAffineSystem.is_well_posed'])
        def _(k, S=S, tol=tol):
            t = (scalar('tol'),) if tol else ()
            a = k.actual(lambda I: method(I, hyb(I, True, S).val, 'is_well_posed', *t), opaque=geo_handlers())
            e = k.spec(WELL, lambda I: (hyb(I, True, S).val,) + t, opaque=geo_handlers())
            k.same(a, e, scales=SC, **KW)

for S in (None, 3):
    @ob('C10', 'get_mode %s modes' % (S or 'any number of'), [DS + 'PieceWiseAffineSystem.get_mode'])
    def _(k, S=S):
        a = k.actual(lambda I: method(I, hyb(I, True, S).val, 'get_mode', mat(I, 'x', nx), mat(I, 'u', nu)))
        e = k.spec(MODE, lambda I: (hyb(I, True, S).val, mat(I, 'x', nx), mat(I, 'u', nu)))
        k.same(a, e, **KW)
