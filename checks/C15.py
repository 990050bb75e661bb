"""C15: critical regions satisfy the optimality conditions; solving at a point returns the full cost."""
from pa.check import *

KW = dict(dims=dict(SMALL, nu=(1, 2, 2, 3), m=(1, 2, 3, 4)), scales=SPD, n=120, view=J.set_view)
Q = PP + 'MultiParametricQuadraticProgram'

VIEW = '''
def f(M, act, x):
    cr = M.explicit_solve_given_active_set(act)
    if cr is None:
        return None
    return cr.u(x), cr.p(x), cr.V(x), cr.polyhedron, list(cr.active_set)
'''
# law and active multipliers from the KKT system of the program with the active constraints as equalities
KKT = '''
import numpy as np
def f(Huu, Hux, Hxx, fu, fx, g, Au, Ax, b, act, x):
    Aa, Axa, ba = Au[act], Ax[act], b[act]
    k = Aa.shape[0]
    if k > 0 and np.linalg.matrix_rank(Aa) < k:
        return None
    nu = Huu.shape[0]
    K = np.vstack((np.hstack((Huu, Aa.T)), np.hstack((Aa, np.zeros((k, k))))))
    Ki = np.linalg.inv(K)
    Zx = Ki.dot(np.vstack((-Hux, -Axa)))
    z0 = Ki.dot(np.concatenate((-fu, ba)))
    ux, u0, px, p0 = Zx[:nu], z0[:nu], Zx[nu:], z0[nu:]
    u = ux.dot(x) + u0
    inact = [i for i in range(Au.shape[0]) if i not in act]
    p = np.zeros(Au.shape[0])
    p[act] = px.dot(x) + p0
    V = .5*u.dot(Huu).dot(u) + u.dot(Hux).dot(x) + .5*x.dot(Hxx).dot(x) + fu.dot(u) + fx.dot(x) + g
    R = np.vstack((-px, Au[inact].dot(ux) + Ax[inact]))
    r = np.concatenate((p0, b[inact] - Au[inact].dot(u0)))
    return u, p, V, (R, r), list(act)
'''


def data(I):
    return (mat(I, 'Huu', nu, nu), mat(I, 'Hux', nu, nx), mat(I, 'Hxx', nx, nx), mat(I, 'fu', nu), mat(I, 'fx', nx), mat(I, 'g'),
            mat(I, 'Au', m, nu), mat(I, 'Ax', m, nx), mat(I, 'b', m))


def explicit(k, act):
    a = k.actual(lambda I: run(I, snippet(k.prog, VIEW), mpqp(I), act(I), mat(I, 'x', nx)))
    e = k.spec(KKT, lambda I: data(I) + (act(I), mat(I, 'x', nx)))
    k.same(a, e, 'critical region', **KW)


@ob('C15', 'explicit_solve_given_active_set', [Q + '.explicit_solve_given_active_set'])
def _(k):
    explicit(k, active_set)


@ob('C15', 'explicit_solve_given_active_set no active constraint', [Q + '.explicit_solve_given_active_set'])
def _(k):
    explicit(k, lambda I: I.new_list([]))


for ids in ((0,), (1,), (0, 2), (1, 2, 3)):
    @ob('C15', 'explicit_solve_given_active_set %s' % (ids,), [Q + '.explicit_solve_given_active_set'])
    def _(k, ids=ids):
        CTX.low[('dim', 'm')] = 4
        kw = dict(KW, dims=dict(KW['dims'], m=(4, 5)))
        act = lambda I: I.new_list([One(P(i)) for i in ids])
        a = k.actual(lambda I: run(I, snippet(k.prog, VIEW), mpqp(I), act(I), mat(I, 'x', nx)))
        e = k.spec(KKT, lambda I: data(I) + (act(I), mat(I, 'x', nx)))
        k.same(a, e, 'critical region', **kw)

SOLVE = '''
from pympc.optimization.programs import quadratic_program
def f(Huu, Hux, Hxx, fu, fx, g, Au, Ax, b, x):
    sol = quadratic_program(Huu, Hux.dot(x) + fu, Au, b - Ax.dot(x))
    V = sol['min']
    if V is not None:
        V = V + .5*x.dot(Hxx).dot(x) + fx.dot(x) + g
    return V, sol['argmin'], sol['active_set'], sol['multiplier_inequality']
'''
GET = '''
def f(M, x):
    sol = M.solve(x)
    return sol['min'], sol['argmin'], sol['active_set'], sol['multiplier_inequality']
'''


@ob('C15', 'solve', [Q + '.solve'])
def _(k):
    a = k.actual(lambda I: run(I, snippet(k.prog, GET), mpqp(I), mat(I, 'x', nx)))
    e = k.spec(SOLVE, lambda I: data(I) + (mat(I, 'x', nx),))
    k.same(a, e, **KW)
