"""C13: the condensed MPC program is the stated optimal control problem."""
from pa.check import *

KW = dict(dims=SMALL, n=40, view=J.set_view)

# what a parametric program says about stacked inputs u and parameter x
COST_OF = '''
def f(M, u, x):
    return .5*u.dot(M.H['uu']).dot(u) + u.dot(M.H['ux']).dot(x) + .5*x.dot(M.H['xx']).dot(x) + M.f['u'].dot(u) + M.f['x'].dot(x) + M.g
'''
SET_OF = '''
import numpy as np
def f(M):
    return np.hstack((M.A['u'], M.A['x'])), M.b
'''
COST = '''
def f(A, B, c, Q, R, P, x, u, nu):
    V = 0.
    for t in range(len(A)):
        v = u[t*nu:(t+1)*nu]
        V = V + .5*x.dot(Q).dot(x) + .5*v.dot(R).dot(v)
        x = A[t].dot(x) + B[t].dot(v) + c[t]
    return V + .5*x.dot(P).dot(x)
'''
SET = '''
import numpy as np
def f(A, B, c, DA, Db, DC, Dd, XA, Xb, XC, Xd, nx, nu):
    N = len(A)
    Gu = np.zeros((nx, nu*N))
    Gx = np.eye(nx)
    g = np.zeros(nx)
    E, r, F, q = [], [], [], []
    for t in range(N):
        Su = np.zeros((nu, nu*N))
        Su[:, t*nu:(t+1)*nu] = np.eye(nu)
        E.append(np.hstack((DA[t][:, :nx].dot(Gu) + DA[t][:, nx:].dot(Su), DA[t][:, :nx].dot(Gx))))
        r.append(Db[t] - DA[t][:, :nx].dot(g))
        F.append(np.hstack((DC[t][:, :nx].dot(Gu) + DC[t][:, nx:].dot(Su), DC[t][:, :nx].dot(Gx))))
        q.append(Dd[t] - DC[t][:, :nx].dot(g))
        Gu = A[t].dot(Gu) + B[t].dot(Su)
        Gx = A[t].dot(Gx)
        g = A[t].dot(g) + c[t]
    E.append(np.hstack((XA.dot(Gu), XA.dot(Gx))))
    r.append(Xb - XA.dot(g))
    F.append(np.hstack((XC.dot(Gu), XC.dot(Gx))))
    q.append(Xd - XC.dot(g))
    return np.vstack(E), np.concatenate(r), np.vstack(F), np.concatenate(q)
'''


def weights(I):
    return mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu), mat(I, 'P', nx, nx)


def lin_steps(I, T):
    return (seq(I, T, lambda i: farr('A', nx, nx)), seq(I, T, lambda i: farr('B', nx, nu)), I_zeros(I, T))


def I_zeros(I, T):
    return seq(I, T, lambda i: FArr(Mat.zeros((nx,)), frozenset()))


def lin_sets(I, T):
    return (seq(I, T, lambda i: farr('DA', m, nx + nu)), seq(I, T, lambda i: farr('Db', m)),
            seq(I, T, lambda i: farr('DC', p, nx + nu)), seq(I, T, lambda i: farr('Dd', p)))


def terminal(I):
    return mat(I, 'XA', s, nx), mat(I, 'Xb', s), mat(I, 'XC', q, nx), mat(I, 'Xd', q)


def mode_steps(I, T):
    ms = lambda i: (elem('ms', i),)
    return (seq(I, T, lambda i: farr('A', nx, nx, idx=ms(i))), seq(I, T, lambda i: farr('B', nx, nu, idx=ms(i))),
            seq(I, T, lambda i: farr('c', nx, idx=ms(i))))


def mode_sets(I, T):
    ms = lambda i: (elem('ms', i),)
    mi, pi = (lambda i: elem('mi', elem('ms', i))), (lambda i: elem('pi', elem('ms', i)))
    return (seq(I, T, lambda i: farr('DA', mi(i), nx + nu, idx=ms(i))), seq(I, T, lambda i: farr('Db', mi(i), idx=ms(i))),
            seq(I, T, lambda i: farr('DC', pi(i), nx + nu, idx=ms(i))), seq(I, T, lambda i: farr('Dd', pi(i), idx=ms(i))))


def mpc_of(I, T):
    D = new(I, PO, mat(I, 'DA', m, nx + nu), mat(I, 'Db', m), mat(I, 'DC', p, nx + nu), mat(I, 'Dd', p)).val
    C = new(I, CC + 'ModelPredictiveController', lin(I), P(T), *(weights(I) + (D, term_set(I))))
    return None if C.dead else I.getattr(C.val, 'mpqp')


def no_bigM(I, fi, env):
    return Tup([I.top('bigM'), I.top('bigM')]) if fi.name.endswith('dynamics') else I.top('bigM')


HOP = {CC + 'HybridModelPredictiveController.' + x: no_bigM for x in ('_get_bigM_dynamics', '_get_bigM_domains', '_condense_program')}


def hyb_of(I, T):
    modes(I)
    C = new(I, CC + 'HybridModelPredictiveController', hyb(I).val, P(T), *(weights(I) + (term_set(I),)))
    ml = modes(I) if not isinstance(T, int) else I.new_list([One(elem('ms', i)) for i in range(T)])
    r = method(I, C.val, 'get_mpqp', ml)
    return None if r.dead else r.val


def deep(I, T):
    if isinstance(T, int):
        I.unroll = max(I.unroll, T + 1)


def program(k, of, steps, sets, T, opaque=None):
    uN = nu * P(T)

    def act(I, src, *a):
        deep(I, T)
        M = of(I, T)
        if M is None:
            raise DeadPath()
        return run(I, snippet(k.prog, src), M, *a)
    a = k.actual(lambda I: act(I, COST_OF, mat(I, 'u', uN), mat(I, 'x', nx)), opaque)
    e = k.spec(COST, lambda I: deep(I, T) or steps(I, T) + weights(I) + (mat(I, 'x', nx), mat(I, 'u', uN), nu))
    k.same(a, e, 'cost, horizon %s' % T, **KW)
    a = k.actual(lambda I: act(I, SET_OF), opaque)
    e = k.spec(SET, lambda I: deep(I, T) or steps(I, T) + sets(I, T) + terminal(I) + (nx, nu))
    k.same(a, e, 'constraints, horizon %s' % T, **KW)


for T in (1, 2, 3, 5, N):
    H = T
    ob('C13', 'ModelPredictiveController program N=%s' % T, [CC + 'ModelPredictiveController'])(
        lambda k, T=T: program(k, mpc_of, lin_steps, lin_sets, T))
    ob('C13', 'HybridModelPredictiveController.get_mpqp N=%s' % H, [CC + 'HybridModelPredictiveController.get_mpqp'])(
        lambda k, T=H: program(k, hyb_of, mode_steps, mode_sets, T, HOP))
