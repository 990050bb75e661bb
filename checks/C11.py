"""C11: simulation and condensed matrices follow the same recursion."""
from pa.check import *

KW = dict(dims=SMALL, n=40)

SIM_LIN = '''
def f(A, B, x, u):
    xs = [x]
    for t in range(len(u)):
        xs.append(A.dot(xs[t]) + B.dot(u[t]))
    return xs
'''
SIM_AFF = '''
def f(A, B, c, x, u):
    xs = [x]
    for t in range(len(u)):
        xs.append(A.dot(xs[t]) + B.dot(u[t]) + c)
    return xs
'''
SIM_CL = '''
def f(A, B, x, N, K):
    xs = [x]
    for t in range(N):
        xs.append((A + B.dot(K)).dot(xs[t]))
    return xs
'''


@ob('C11', 'LinearSystem.simulate', [DS + 'LinearSystem.simulate'])
def _(k):
    a = k.actual(lambda I: method(I, lin(I), 'simulate', mat(I, 'x', nx), us(I)))
    e = k.spec(SIM_LIN, lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'x', nx), us(I)))
    k.same(a, e, **KW)


@ob('C11', 'AffineSystem.simulate', [DS + 'AffineSystem.simulate'])
def _(k):
    a = k.actual(lambda I: method(I, aff(I), 'simulate', mat(I, 'x', nx), us(I)))
    e = k.spec(SIM_AFF, lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'c', nx), mat(I, 'x', nx), us(I)))
    k.same(a, e, **KW)


@ob('C11', 'LinearSystem.simulate_closed_loop', [DS + 'LinearSystem.simulate_closed_loop'])
def _(k):
    a = k.actual(lambda I: method(I, lin(I), 'simulate_closed_loop', mat(I, 'x', nx), N, mat(I, 'K', nu, nx)))
    e = k.spec(SIM_CL, lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'x', nx), N, mat(I, 'K', nu, nx)))
    k.same(a, e, **KW)


# stacked states (x(0), ..., x(N)) as A_bar x(0) + B_bar (u(0), ..., u(N-1)) + c_bar, mode ms(t) in force at step t
CONDENSE = '''
import numpy as np
def f(A, B, c, nx, nu):
    N = len(A)
    xs = [np.eye(nx)]
    cs = [np.zeros(nx)]
    for t in range(N):
        xs.append(A[t].dot(xs[t]))
        cs.append(A[t].dot(cs[t]) + c[t])
    B_bar = np.zeros((nx * (N + 1), nu * N))
    for k in range(N):
        col = B[k]
        for t in range(k + 1, N + 1):
            B_bar[nx*t:nx*(t+1), nu*k:nu*(k+1)] = col
            if t < N:
                col = A[t].dot(col)
    return np.vstack(xs), B_bar, np.concatenate(cs)
'''
CONDENSE_LIN = '''
import numpy as np
def f(A, B, N, nx, nu):
    A_bar = np.vstack([np.linalg.matrix_power(A, t) for t in range(N + 1)])
    B_bar = np.zeros((nx * (N + 1), nu * N))
    for t in range(N + 1):
        for k in range(t):
            B_bar[nx*t:nx*(t+1), nu*k:nu*(k+1)] = np.linalg.matrix_power(A, t - k - 1).dot(B)
    return A_bar, B_bar
'''


def per_step(I, idx, T):
    return (seq(I, T, lambda i: farr('A', nx, nx, idx=idx(i))), seq(I, T, lambda i: farr('B', nx, nu, idx=idx(i))),
            seq(I, T, lambda i: farr('c', nx, idx=idx(i))), nx, nu)


@ob('C11', 'LinearSystem.condense', [DS + 'LinearSystem.condense'])
def _(k):
    a = k.actual(lambda I: method(I, lin(I), 'condense', N))
    e = k.spec(CONDENSE_LIN, lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), N, nx, nu))
    k.same(a, e, **KW)


def affine_condense(k, T):
    a = k.actual(lambda I: method(I, aff(I), 'condense', P(T)))
    e = k.spec(CONDENSE, lambda I: per_step(I, lambda i: (), T))
    k.same(a, e, 'horizon %s' % T, **KW)


def pwa_condense(k, T):
    a = k.actual(lambda I: method(I, hyb(I, False).val, 'condense', modes(I, n=T) if not isinstance(T, int) else
                                  I.new_list([One(elem('ms', i)) for i in range(T)])))
    e = k.spec(CONDENSE, lambda I: per_step(I, lambda i: (elem('ms', i),), T))
    k.same(a, e, 'horizon %s' % T, **KW)


for T in (1, 2, 3):
    ob('C11', 'AffineSystem.condense N=%d' % T, [DS + 'AffineSystem.condense'])(lambda k, T=T: affine_condense(k, T))
    ob('C11', 'PieceWiseAffineSystem.condense N=%d' % T, [DS + 'PieceWiseAffineSystem.condense'])(lambda k, T=T: pwa_condense(k, T))
# long horizons, unrolled
LONG = dict(KW, n=3, need=2, dims={'nx': (1, 2), 'nu': (1,), 'sm': (2, 3)})


def long(k, T, what):
    def go(f):
        def g(I):
            I.unroll = T + 1
            return f(I)
        return g
    if what == 'linear':
        a = k.actual(go(lambda I: method(I, lin(I), 'condense', P(T))))
        e = k.spec(CONDENSE_LIN, go(lambda I: (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), P(T), nx, nu)))
    elif what == 'affine':
        a = k.actual(go(lambda I: method(I, aff(I), 'condense', P(T))))
        e = k.spec(CONDENSE, go(lambda I: per_step(I, lambda i: (), T)))
    else:
        a = k.actual(go(lambda I: method(I, hyb(I, False).val, 'condense', I.new_list([One(elem('ms', i)) for i in range(T)]))))
        e = k.spec(CONDENSE, go(lambda I: per_step(I, lambda i: (elem('ms', i),), T)))
    k.same(a, e, '%s, horizon %d' % (what, T), **LONG)


for what, Ts in (('linear', (8, 16)), ('affine', (6, 16)), ('piecewise affine', (5, 8, 16))):
    for T in Ts:
        ob('C11', '%s system, condense unrolled N=%d' % (what, T), [DS + {'linear': 'LinearSystem', 'affine': 'AffineSystem', 'piecewise affine': 'PieceWiseAffineSystem'}[what] + '.condense'])(
            lambda k, T=T, what=what: long(k, T, what))
ob('C11', 'AffineSystem.condense N', [DS + 'AffineSystem.condense'])(lambda k: affine_condense(k, N))
ob('C11', 'PieceWiseAffineSystem.condense N', [DS + 'PieceWiseAffineSystem.condense'])(lambda k: pwa_condense(k, N))

SIM_PWA = '''
def f(systems, domain_of, x, u):
    xs = [x]
    ms = []
    for t in range(len(u)):
        i = domain_of(xs[t], u[t])
        if i is None:
            raise ValueError('no mode')
        S = systems[i]
        xs.append(S.A.dot(xs[t]) + S.B.dot(u[t]) + S.c)
        ms.append(i)
    return xs, ms
'''


def mode_handler(I, fi, env):
    x, u = I.arr(env['x']), I.arr(env['u'])
    if not isinstance(x, Mat) or not isinstance(u, Mat):
        return I.top('mode')
    ELEM_RANGE['gm'] = lambda pt, idx: (0, int(pt.atom(('dim', 'sm'), {})))
    return gamma(Cond(('nomode', x, u)), NONE, Poly.atom(('elem', 'gm', x, u)))


def pwa_simulate(k, T):
    op = {DS + 'PieceWiseAffineSystem.get_mode': mode_handler}
    a = k.actual(lambda I: method(I, hyb(I, False).val, 'simulate', mat(I, 'x', nx), seq(I, T, lambda i: farr('u', nu, idx=(i,)))), opaque=op)

    def args(I):
        S = hyb(I, False).val
        return I.getattr(S, 'affine_systems'), I.getattr(S, 'get_mode'), mat(I, 'x', nx), seq(I, T, lambda i: farr('u', nu, idx=(i,)))
    e = k.spec(SIM_PWA, args, opaque=op)
    k.same(a, e, 'horizon %s' % T, n=60, dims=SMALL)


for T in (1, 2, 3):
    ob('C11', 'PieceWiseAffineSystem.simulate N=%d' % T, [DS + 'PieceWiseAffineSystem.simulate'])(lambda k, T=T: pwa_simulate(k, T))
